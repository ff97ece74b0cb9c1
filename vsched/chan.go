package vsched

import (
	"runtime"
	"time"
	"unsafe"
)

// hchan mirrors the head of the runtime's channel representation (checked in init).
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func init() {
	c := make(chan int32, 3)
	h := hchanOf(c)
	ok := h.qcount == 0 && h.dataqsiz == 3 && h.closed == 0 && h.elemsize == 4
	c <- 1
	ok = ok && h.qcount == 1
	close(c)
	ok = ok && h.closed == 1
	if !ok {
		fatal("unexpected channel layout")
	}
}

func hchanOf[T any](c chan T) *hchan { return *(**hchan)(unsafe.Pointer(&c)) }

// Case is one communication of a select statement (or a lone send/receive).
type Case struct {
	send bool
	h    *hchan
	val  unsafe.Pointer // *T: value to send / place to receive into
	ok   bool
	try  func() bool // performs the real, non-blocking operation
	copy func(dst, src unsafe.Pointer)
	sync byte // address for happens-before edges of unbuffered channels
}

// Recvd holds a typed receive case.
type Recvd[T any] struct {
	Case
	V  T
	Ok bool
}

func RecvCase[T any](ch <-chan T) *Recvd[T] {
	r := &Recvd[T]{}
	r.h = *(**hchan)(unsafe.Pointer(&ch))
	r.val = unsafe.Pointer(&r.V)
	r.try = func() bool {
		select {
		case r.V, r.Ok = <-ch:
			return true
		default:
			return false
		}
	}
	r.copy = func(dst, src unsafe.Pointer) { *(*T)(dst) = *(*T)(src) }
	return r
}

// Sent holds a typed send case.
type Sent[T any] struct {
	Case
	v T
}

func SendCase[T any](ch chan<- T, v T) *Sent[T] {
	s := &Sent[T]{v: v}
	s.h = *(**hchan)(unsafe.Pointer(&ch))
	s.send = true
	s.val = unsafe.Pointer(&s.v)
	s.try = func() bool {
		select {
		case ch <- s.v:
			return true
		default:
			return false
		}
	}
	s.copy = func(dst, src unsafe.Pointer) { *(*T)(dst) = *(*T)(src) }
	return s
}

// C gives access to the untyped case.
func (c *Case) C() *Case { return c }

// partner finds another thread parked on the opposite operation of an unbuffered channel.
func (c *Case) partner(self *Thread) (*Thread, int) {
	for _, t := range ex.threads {
		if t == self || t.done || t.fired >= 0 {
			continue
		}
		for i, o := range t.cases {
			if o.h == c.h && o.send != c.send {
				return t, i
			}
		}
	}
	return nil, -1
}

func (c *Case) isReady(self *Thread) bool {
	h := c.h
	if h == nil {
		return false
	}
	if h.closed != 0 {
		return true
	}
	if h.dataqsiz > 0 {
		if c.send {
			return h.qcount < h.dataqsiz
		}
		return h.qcount > 0
	}
	t, _ := c.partner(self)
	return t != nil
}

// Select performs a select statement; -1 means the default case.
func Select(hasDefault bool, cases ...*Case) int {
	e := ex
	if !active {
		return selectReal(hasDefault, cases)
	}
	if e.killing {
		for i, c := range cases {
			if c.h != nil && (c.h.closed != 0 || c.h.dataqsiz > 0) && !(c.send && c.h.closed != 0) && c.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	t := e.cur
	if hasDefault {
		e.wait("select", nil)
		return e.selectNow(t, cases)
	}
	for _, c := range cases {
		if c.h != nil && c.h.dataqsiz == 0 {
			raceRelease(unsafe.Pointer(&c.sync))
		}
	}
	t.cases = cases
	e.wait("chan", func() bool {
		for _, c := range cases {
			if c.isReady(t) {
				return true
			}
		}
		return false
	})
	t.cases = nil
	if t.fired >= 0 {
		i := t.fired
		t.fired = -1
		raceAcquire(unsafe.Pointer(&cases[i].sync))
		return i
	}
	return e.selectNow(t, cases)
}

func (e *exec) selectNow(t *Thread, cases []*Case) int {
	var idx [16]int
	n := 0
	for i, c := range cases {
		if c.isReady(t) {
			idx[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	i := idx[e.choose(n, e.opts.SelectClass, "select case")]
	c := cases[i]
	if c.h.dataqsiz == 0 && c.h.closed == 0 {
		p, pi := c.partner(t)
		o := p.cases[pi]
		raceAcquire(unsafe.Pointer(&o.sync)) // what the parked partner did before
		if c.send {
			c.copy(o.val, c.val)
		} else {
			c.copy(c.val, o.val)
		}
		raceRelease(unsafe.Pointer(&o.sync)) // acquired by the partner when it wakes
		o.ok = true
		c.ok = true
		p.cases = nil
		p.fired = pi
		return i
	}
	if !c.try() {
		fatal("channel operation was expected to succeed")
	}
	return i
}

func selectReal(hasDefault bool, cases []*Case) int {
	for {
		live := false
		for i, c := range cases {
			if c.h != nil {
				live = true
				if c.try() {
					return i
				}
			}
		}
		if hasDefault {
			return -1
		}
		if !live {
			select {}
		}
		time.Sleep(20 * time.Microsecond)
	}
}

// Send is `ch <- v`.
func Send[T any](ch chan<- T, v T) {
	if !active {
		ch <- v
		return
	}
	s := SendCase(ch, v)
	Select(false, &s.Case)
}

// Recv is `<-ch`.
func Recv[T any](ch <-chan T) T {
	if !active {
		return <-ch
	}
	r := RecvCase(ch)
	Select(false, &r.Case)
	return r.V
}

// Recv2 is `v, ok := <-ch`.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !active {
		v, ok := <-ch
		return v, ok
	}
	r := RecvCase(ch)
	Select(false, &r.Case)
	return r.V, r.GetOk()
}

// GetOk is the second result of the receive.
func (r *Recvd[T]) GetOk() bool { return r.Ok || r.ok }

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if active {
		Point("close")
	}
	close(ch)
}

// BlockForever is `select {}`.
func BlockForever() {
	if !active {
		select {}
	}
	ex.wait("select{}", func() bool { return false })
}

// SendTo, SendCaseTo: the channel is evaluated first and fixes the element type.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }
func SendCaseTo[T any](ch chan<- T) func(T) *Sent[T] {
	return func(v T) *Sent[T] { return SendCase(ch, v) }
}

// Ranger iterates over a channel.
type Ranger[T any] struct {
	ch <-chan T
	V  T
}

func RangeChan[T any](ch <-chan T) *Ranger[T] { return &Ranger[T]{ch: ch} }

func (r *Ranger[T]) Next() (ok bool) {
	r.V, ok = Recv2(r.ch)
	return ok
}
