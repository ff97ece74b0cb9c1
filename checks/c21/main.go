// C21: reading and changing values through reflect2 is the same as doing it
// with the language itself.
package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	"github.com/v2pro/plz/reflect2"

	"verif/harn"
	"verif/hlib/r2x"
	"verif/vsched"
)

// ways to use reflect2
type way struct {
	name   string
	api    reflect2.API
	unsafe bool // with the operations that take an unsafe.Pointer
}

var ways = []way{
	{"checked", reflect2.ConfigUnsafe, false},
	{"unsafe", reflect2.ConfigUnsafe, true},
	{"safe", reflect2.ConfigSafe, false},
}

func up(v reflect.Value) unsafe.Pointer { return unsafe.Pointer(v.Pointer()) }

// at is the value a pointer to t leads to
func at(t reflect.Type, p unsafe.Pointer) reflect.Value { return reflect.NewAt(t, p).Elem() }

// text shows what is at an address
func text(t reflect.Type, p unsafe.Pointer) string { return r2x.Show(at(t, p)) }

// box is a pointer to a new variable with the value
func box(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

// shown checks a pointer that was returned
func shown(obj interface{}, t reflect.Type, want string) string {
	v := reflect.ValueOf(obj)
	if !v.IsValid() || v.Type() != reflect.PtrTo(t) {
		return fmt.Sprintf("is a %T instead of a pointer to %s", obj, t)
	}
	if v.IsNil() {
		return "is nil"
	}
	if got := r2x.Show(v.Elem()); got != want {
		return fmt.Sprintf("is %s instead of %s", got, want)
	}
	return ""
}

func protect(f func() string) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprint("panic: ", e)
		}
	}()
	return f()
}

// collect is set where the garbage collector runs after every operation
var collect bool

func gc() {
	if collect {
		runtime.GC()
	}
}

// ---- single values ----

func basics(c *harn.Ctx) {
	var infos []reflect.Type
	for _, e := range r2x.Elems {
		infos = append(infos, e, reflect.PtrTo(e), reflect.SliceOf(e), reflect.ArrayOf(1, e), reflect.ArrayOf(2, e), reflect.MapOf(reflect.TypeOf(0), e))
	}
	for _, e := range infos {
		for _, w := range ways {
			e, w := e, w
			for i := 0; i < 4; i++ {
				for k := 0; k < 4; k++ {
					i, k := i, k
					c.Case("", func() string { return fmt.Sprintf("%s operations, %s, values %d and %d", w.name, e, i, k) }, func() string {
						c.Trans(12)
						c.State(fmt.Sprint(w.name, e, i, k))
						return protect(func() string { return basic(w, e, i, k) })
					})
				}
			}
		}
	}
}

func basic(w way, e reflect.Type, i, k int) string {
	a, b := box(r2x.Gen(e, i)), box(r2x.Gen(e, k))
	ta, tb := r2x.Show(a.Elem()), r2x.Show(b.Elem())
	t := w.api.Type2(e)
	if t.Type1() != e || t.Kind() != e.Kind() || t.String() != e.String() {
		return fmt.Sprintf("the type is %s", t)
	}
	if want := e.Kind() != reflect.UnsafePointer; want && t.IsNullable() != reflect2.IsNullable(e.Kind()) {
		return fmt.Sprintf("IsNullable is %v", t.IsNullable())
	}
	if e.Kind() != reflect.Interface {
		if t2 := w.api.TypeOf(a.Elem().Interface()); t2.Type1() != e {
			return fmt.Sprintf("the type of a value is %s", t2)
		}
		if t2 := reflect2.TypeOf(a.Elem().Interface()); t2.Type1() != e {
			return fmt.Sprintf("the type of a value is %s", t2)
		}
	}
	if reflect2.PtrTo(t).Type1() != reflect.PtrTo(e) {
		return fmt.Sprintf("the type of pointers to it is %s", reflect2.PtrTo(t))
	}
	if reflect2.TypeOfPtr(a.Interface()).Elem().Type1() != e {
		return "TypeOfPtr is of something else"
	}
	// a zero value
	n := t.New()
	gc()
	if s := shown(n, e, r2x.Show(reflect.Zero(e))); s != "" {
		return "what New returns " + s
	}
	if nillable(e) {
		for _, x := range []reflect.Value{a, b} {
			is := false
			if w.unsafe {
				is = t.UnsafeIsNil(up(x))
			} else {
				is = t.IsNil(x.Interface())
			}
			holdsNil := w.name != "safe" && e.Kind() == reflect.Interface && e.NumMethod() == 0 && !x.Elem().IsNil() && canNil(x.Elem().Elem()) && x.Elem().Elem().IsNil()
			if !holdsNil && is != x.Elem().IsNil() {
				return fmt.Sprintf("IsNil is %v for %s", is, r2x.Show(x.Elem()))
			}
		}
		if !t.IsNil(nil) {
			return "IsNil is false for nil"
		}
	}
	// the value itself
	var ind interface{}
	if w.unsafe {
		p := t.UnsafeNew()
		gc()
		if got := text(e, p); got != r2x.Show(reflect.Zero(e)) {
			return fmt.Sprintf("UnsafeNew returns %s", got)
		}
		ind = t.UnsafeIndirect(up(a))
		if s := shown(t.PackEFace(up(a)), e, ta); s != "" {
			return "what PackEFace returns " + s
		}
	} else {
		ind = t.Indirect(a.Interface())
	}
	want := r2x.ShowObj(a.Elem().Interface())
	gc()
	if got := r2x.ShowObj(ind); got != want {
		return fmt.Sprintf("Indirect returns %s instead of %s", got, want)
	}
	if ind != nil {
		// as the compiler sees it
		if e.Comparable() && comparable(a.Elem()) && e.Kind() != reflect.Interface {
			if ta == r2x.Show(a.Elem()) && (ind == a.Elem().Interface()) != (a.Elem().Interface() == a.Elem().Interface()) {
				return "what Indirect returns is not equal to the value"
			}
		}
	}
	if w.api != reflect2.API(reflect2.ConfigSafe) {
		if r := t.RType(); r != reflect2.RTypeOf(reflect.Zero(e).Interface()) && e.Kind() != reflect.Interface {
			return "RType is not the type of its values"
		}
		if e.Kind() != reflect.Interface && t.LikePtr() != likePtr(a.Elem().Interface(), e) {
			return fmt.Sprintf("LikePtr is %v", t.LikePtr())
		}
	}
	// what Indirect returned stays the same
	guard := newGuard(e)
	guard.set(a.Elem())
	if w.unsafe {
		t.UnsafeSet(guard.ptr(), up(b))
	} else {
		t.Set(guard.obj(), b.Interface())
	}
	gc()
	if s := guard.check(tb); s != "" {
		return "after Set of " + tb + " the value " + s
	}
	if got := r2x.Show(b.Elem()); got != tb {
		return fmt.Sprintf("Set changed its argument to %s", got)
	}
	if got := r2x.Show(a.Elem()); got != ta {
		return fmt.Sprintf("Set changed another value to %s", got)
	}
	if w.unsafe {
		t.UnsafeSet(guard.ptr(), up(guard.field()))
	} else {
		t.Set(guard.obj(), guard.obj())
	}
	if s := guard.check(tb); s != "" {
		return "after Set of itself the value " + s
	}
	for _, o := range r2x.Elems {
		t2 := w.api.Type2(o)
		if t.AssignableTo(t2) != e.AssignableTo(o) {
			return fmt.Sprintf("AssignableTo %s is %v", o, t.AssignableTo(t2))
		}
		if o.Kind() == reflect.Interface && t.Implements(t2) != e.Implements(o) {
			return fmt.Sprintf("Implements %s is %v", o, t.Implements(t2))
		}
	}
	return ""
}

func comparable(v reflect.Value) (ok bool) {
	defer func() { recover() }()
	i := v.Interface()
	_ = i == i
	return true
}

// likePtr tells how values of a type are kept in an interface
func likePtr(obj interface{}, t reflect.Type) bool {
	if t.Size() != unsafe.Sizeof(uintptr(0)) {
		return false
	}
	// a copy of the word of the value is found in the interface itself
	p := reflect.New(t)
	p.Elem().Set(reflect.ValueOf(obj))
	for i := 1; i < 3; i++ {
		v := box(r2x.Gen(t, i))
		x := v.Elem().Interface()
		if reflect2.PtrOf(x) != *(*unsafe.Pointer)(up(v)) {
			return false
		}
	}
	return true
}

func canNil(v reflect.Value) bool { return nillable(v.Type()) || v.Kind() == reflect.UnsafePointer }

func nillable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface:
		return true
	}
	return false
}

// guard is a variable between two others
type guarded struct{ v reflect.Value }

func newGuard(t reflect.Type) *guarded {
	g := reflect.New(reflect.StructOf([]reflect.StructField{
		{Name: "Pre", Type: reflect.TypeOf([16]byte{})}, {Name: "V", Type: t}, {Name: "Post", Type: reflect.TypeOf([16]byte{})},
	}))
	for i := 0; i < 16; i++ {
		g.Elem().Field(0).Index(i).SetUint(0xa5)
		g.Elem().Field(2).Index(i).SetUint(0x5a)
	}
	return &guarded{g}
}

func (g *guarded) field() reflect.Value { return g.v.Elem().Field(1).Addr() }
func (g *guarded) set(v reflect.Value)  { g.v.Elem().Field(1).Set(v) }
func (g *guarded) obj() interface{}     { return g.field().Interface() }
func (g *guarded) ptr() unsafe.Pointer  { return up(g.field()) }
func (g *guarded) check(want string) string {
	if got := r2x.Show(g.v.Elem().Field(1)); got != want {
		return fmt.Sprintf("is %s instead of %s", got, want)
	}
	return g.around()
}
func (g *guarded) around() string {
	for i := 0; i < 16; i++ {
		if g.v.Elem().Field(0).Index(i).Uint() != 0xa5 || g.v.Elem().Field(2).Index(i).Uint() != 0x5a {
			return "overwrote its neighbours"
		}
	}
	return ""
}

// ---- slices ----

const (
	oAppend = iota
	oSet
	oGrow
	oNil
	oOther
	nOps
)

// sop is one operation on a slice
type sop struct {
	kind, a, b int
}

func (o sop) String() string {
	switch o.kind {
	case oAppend:
		return fmt.Sprintf("Append value %d", o.a)
	case oSet:
		return fmt.Sprintf("SetIndex %s value %d", []string{"first", "last"}[o.a], o.b)
	case oGrow:
		return "Grow to " + []string{"one more", "one beyond the capacity", "nothing", "three times", "one less"}[o.a]
	case oNil:
		return "SetNil"
	}
	return "Set another slice"
}

var sops = func() (r []sop) {
	for i := 0; i < 3; i++ {
		r = append(r, sop{oAppend, i, 0})
	}
	for i := 0; i < 2; i++ {
		r = append(r, sop{oSet, i, 0}, sop{oSet, i, 2 - i})
	}
	for i := 0; i < 5; i++ {
		r = append(r, sop{oGrow, i, 0})
	}
	return append(r, sop{oNil, 0, 0}, sop{oOther, 0, 0})
}()

var sliceStarts = []string{"nil", "empty", "made of 0 with room for 2", "made of 2 with room for 3", "part of an array", "made of 1 full"}

func slices(depth int, elems []reflect.Type) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		for _, e := range elems {
			for _, w := range ways {
				for start := range sliceStarts {
					var walk func(ops []sop)
					walk = func(ops []sop) {
						if len(ops) == depth {
							e, w, start, ops := e, w, start, append([]sop{}, ops...)
							c.Case("", func() string {
								return fmt.Sprintf("%s operations, slice of %s, %s: %v", w.name, e, sliceStarts[start], ops)
							}, func() string {
								c.Trans(len(ops))
								return protect(func() string { return sliceRun(c, w, e, start, ops) })
							})
							return
						}
						for _, o := range sops {
							walk(append(ops, o))
						}
					}
					walk(nil)
				}
			}
		}
	}
}

type sliceModel struct {
	w    way
	t    reflect.Type
	st   reflect2.SliceType
	g    *guarded
	n    int
	null bool
	room []string // what the places of the array may hold, besides zero
}

func (m *sliceModel) obj() interface{}    { return m.g.obj() }
func (m *sliceModel) ptr() unsafe.Pointer { return m.g.ptr() }

// check compares the slice with the model; what came into sight by growing may
// be what was there or zero
func (m *sliceModel) check(fresh int) string {
	v := m.g.v.Elem().Field(1)
	if v.Len() != m.n {
		return fmt.Sprintf("the length is %d instead of %d", v.Len(), m.n)
	}
	if v.Cap() < v.Len() {
		return fmt.Sprintf("the length is %d, the capacity %d", v.Len(), v.Cap())
	}
	if v.IsNil() != m.null {
		return fmt.Sprintf("the slice is nil: %v", v.IsNil())
	}
	zero := r2x.Show(reflect.Zero(m.t))
	var n, cp int
	var null bool
	if m.w.unsafe {
		n, cp, null = m.st.UnsafeLengthOf(m.ptr()), m.st.UnsafeCap(m.ptr()), m.st.UnsafeIsNil(m.ptr())
	} else {
		n, cp, null = m.st.LengthOf(m.obj()), m.st.Cap(m.obj()), m.st.IsNil(m.obj())
	}
	if n != v.Len() || cp != v.Cap() || null != m.null {
		return fmt.Sprintf("LengthOf is %d, Cap %d, IsNil %v instead of %d, %d, %v", n, cp, null, v.Len(), v.Cap(), m.null)
	}
	for i := 0; i < m.n; i++ {
		got := r2x.Show(v.Index(i))
		if got != m.room[i] && !(i >= fresh && got == zero) {
			return fmt.Sprintf("element %d is %s instead of %s", i, got, m.room[i])
		}
		m.room[i] = got
		if m.w.unsafe {
			if s := text(m.t, m.st.UnsafeGetIndex(m.ptr(), i)); s != got {
				return fmt.Sprintf("UnsafeGetIndex of %d is %s instead of %s", i, s, got)
			}
		} else if s := shown(m.st.GetIndex(m.obj(), i), m.t, got); s != "" {
			return fmt.Sprintf("GetIndex of %d %s", i, s)
		}
	}
	return m.g.around()
}

// reset is for a new array
func (m *sliceModel) reset(keep int) {
	zero := r2x.Show(reflect.Zero(m.t))
	c := m.g.v.Elem().Field(1).Cap()
	for i := keep; i < len(m.room); i++ {
		m.room[i] = zero
	}
	for len(m.room) < c {
		m.room = append(m.room, zero)
	}
}

func sliceRun(c *harn.Ctx, w way, e reflect.Type, start int, ops []sop) string {
	t := reflect.SliceOf(e)
	m := &sliceModel{w: w, t: e, g: newGuard(t)}
	m.st = w.api.Type2(t).(reflect2.SliceType)
	if m.st.Elem().Type1() != e {
		return fmt.Sprintf("Elem is %s", m.st.Elem())
	}
	vals := []reflect.Value{box(r2x.Gen(e, 1)), box(r2x.Gen(e, 2)), box(r2x.Gen(e, 3))}
	texts := []string{r2x.Show(vals[0].Elem()), r2x.Show(vals[1].Elem()), r2x.Show(vals[2].Elem())}
	mk := func(n, room int) {
		var v reflect.Value
		if w.unsafe {
			v = at(t, m.st.UnsafeMakeSlice(n, room))
		} else {
			v = reflect.ValueOf(m.st.MakeSlice(n, room)).Elem()
		}
		gc()
		m.g.set(v)
		m.n = n
		if v.Cap() != room {
			m.n = -1
		}
	}
	var array reflect.Value
	switch start {
	case 0:
		m.null = true
	case 1:
		m.g.set(reflect.MakeSlice(t, 0, 0))
	case 2:
		mk(0, 2)
	case 3:
		mk(2, 3)
	case 4:
		array = reflect.New(reflect.ArrayOf(5, e)).Elem()
		for i := 0; i < 5; i++ {
			array.Index(i).Set(vals[i%3].Elem())
		}
		m.g.set(array.Slice3(1, 3, 4))
		m.n = 2
		m.room = []string{texts[1], texts[2], texts[0]}
	case 5:
		mk(1, 1)
	}
	m.reset(len(m.room))
	if s := m.check(m.n); s != "" {
		return "at the start " + s
	}
	for _, o := range ops {
		before := reflect.New(t).Elem()
		before.Set(m.g.v.Elem().Field(1))
		old := make([]string, m.n)
		for i := range old {
			old[i] = r2x.Show(before.Index(i))
		}
		capBefore := before.Cap()
		fresh := m.n
		switch o.kind {
		case oAppend:
			if w.unsafe {
				m.st.UnsafeAppend(m.ptr(), up(vals[o.a]))
			} else {
				m.st.Append(m.obj(), vals[o.a].Interface())
			}
			if m.n+1 > capBefore {
				m.reset(m.n)
			}
			m.null = false
			m.n++
			m.room[m.n-1] = texts[o.a]
			fresh = m.n
		case oSet:
			if m.n == 0 {
				continue
			}
			i := 0
			if o.a == 1 {
				i = m.n - 1
			}
			if w.unsafe {
				m.st.UnsafeSetIndex(m.ptr(), i, up(vals[o.b]))
			} else {
				m.st.SetIndex(m.obj(), i, vals[o.b].Interface())
			}
			m.room[i] = texts[o.b]
		case oGrow:
			n := []int{m.n + 1, capBefore + 1, 0, 3 * m.n, m.n - 1}[o.a]
			if n < 0 {
				continue
			}
			if w.unsafe {
				m.st.UnsafeGrow(m.ptr(), n)
			} else {
				m.st.Grow(m.obj(), n)
			}
			if n > capBefore {
				m.reset(m.n)
				m.null = false
			}
			m.n = n
		case oNil:
			if w.unsafe {
				m.st.UnsafeSetNil(m.ptr())
			} else {
				m.st.SetNil(m.obj())
			}
			m.n, m.null, m.room = 0, true, nil
		case oOther:
			x := reflect.New(t)
			x.Elem().Set(reflect.Append(reflect.MakeSlice(t, 0, 3), vals[1].Elem(), vals[0].Elem()))
			if w.unsafe {
				m.st.UnsafeSet(m.ptr(), up(x))
			} else {
				m.st.Set(m.obj(), x.Interface())
			}
			m.n, m.null, m.room = 2, false, []string{texts[1], texts[0]}
			m.reset(2)
			fresh = 2
		}
		gc()
		if s := m.check(fresh); s != "" {
			return fmt.Sprintf("after %s %s", o, s)
		}
		if o.kind != oSet {
			for i := range old {
				if s := r2x.Show(before.Index(i)); s != old[i] {
					return fmt.Sprintf("%s changed element %d of the slice as it was before to %s", o, i, s)
				}
			}
		}
		for i := range vals {
			if s := r2x.Show(vals[i].Elem()); s != texts[i] {
				return fmt.Sprintf("%s changed its argument to %s", o, s)
			}
		}
		if start == 4 {
			if a, b := r2x.Show(array.Index(0)), r2x.Show(array.Index(4)); a != texts[0] || b != texts[1] {
				return fmt.Sprintf("%s changed the array beyond the slice: %s, %s", o, a, b)
			}
		}
		c.State(fmt.Sprint(w.name, e, m.n, m.null, strings.Count(strings.Join(m.room, "\x00"), texts[0]), o))
	}
	return ""
}

// ---- arrays ----

func arrays(depth int) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		for _, e := range r2x.Elems {
			for _, w := range ways {
				for n := 1; n <= 3; n++ {
					var walk func(ops [][2]int)
					walk = func(ops [][2]int) {
						if len(ops) == depth {
							e, w, n, ops := e, w, n, append([][2]int{}, ops...)
							c.Case("", func() string {
								return fmt.Sprintf("%s operations, array of %d %s: set (index, value) %v", w.name, n, e, ops)
							}, func() string {
								c.Trans(len(ops))
								return protect(func() string { return arrayRun(c, w, e, n, ops) })
							})
							return
						}
						for i := 0; i < n; i++ {
							for v := 0; v < 3; v++ {
								walk(append(ops, [2]int{i, v}))
							}
						}
					}
					walk(nil)
				}
			}
		}
	}
}

func arrayRun(c *harn.Ctx, w way, e reflect.Type, n int, ops [][2]int) string {
	t := reflect.ArrayOf(n, e)
	lt := w.api.Type2(t).(reflect2.ListType)
	if at, ok := lt.(reflect2.ArrayType); !ok || at.Len() != n || at.Elem().Type1() != e {
		return "is no array type of this length and element"
	}
	g := newGuard(t)
	texts := make([]string, n)
	for i := range texts {
		texts[i] = r2x.Show(reflect.Zero(e))
	}
	for _, o := range ops {
		v := box(r2x.Gen(e, o[1]))
		texts[o[0]] = r2x.Show(v.Elem())
		if w.unsafe {
			lt.UnsafeSetIndex(g.ptr(), o[0], up(v))
		} else {
			lt.SetIndex(g.obj(), o[0], v.Interface())
		}
		gc()
		for i, want := range texts {
			if s := r2x.Show(g.v.Elem().Field(1).Index(i)); s != want {
				return fmt.Sprintf("after setting %d, element %d is %s instead of %s", o[0], i, s, want)
			}
			if w.unsafe {
				if s := text(e, lt.UnsafeGetIndex(g.ptr(), i)); s != want {
					return fmt.Sprintf("UnsafeGetIndex of %d is %s instead of %s", i, s, want)
				}
			} else if s := shown(lt.GetIndex(g.obj(), i), e, want); s != "" {
				return fmt.Sprintf("GetIndex of %d %s", i, s)
			}
		}
		if s := g.around(); s != "" {
			return s
		}
		c.State(fmt.Sprint(w.name, t, o))
	}
	return ""
}

// ---- maps ----

var keyTypes = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(int32(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(0.5), reflect.TypeOf(r2x.OneStr{}), reflect.TypeOf((*int)(nil)),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*r2x.Namer)(nil)).Elem(), reflect.TypeOf([2]string{}), reflect.TypeOf(r2x.Big{}), reflect.TypeOf(r2x.OnePtr{}), reflect.TypeOf(true),
}

func maps(depth int) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		type pair struct{ k, e reflect.Type }
		var pairs []pair
		for _, e := range r2x.Elems {
			pairs = append(pairs, pair{keyTypes[0], e}, pair{keyTypes[1], e})
		}
		for _, k := range keyTypes {
			for _, e := range []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(r2x.Big{}), reflect.TypeOf(struct{}{}), reflect.TypeOf([]string{}), reflect.TypeOf((*interface{})(nil)).Elem()} {
				pairs = append(pairs, pair{k, e})
			}
		}
		for _, p := range pairs {
			for _, w := range ways {
				for start := 0; start < 4; start++ {
					var walk func(ops [][2]int)
					walk = func(ops [][2]int) {
						if len(ops) == depth {
							p, w, start, ops := p, w, start, append([][2]int{}, ops...)
							c.Case("", func() string {
								return fmt.Sprintf("%s operations, map of %s to %s, start %d: set (key, value) %v", w.name, p.k, p.e, start, ops)
							}, func() string {
								c.Trans(len(ops))
								return protect(func() string { return mapRun(c, w, p.k, p.e, start, ops) })
							})
							return
						}
						for k := 0; k < 3; k++ {
							for v := 0; v < 2; v++ {
								walk(append(ops, [2]int{k, v + k%2}))
							}
						}
						walk(append(ops, [2]int{-1, 0}))
					}
					walk(nil)
				}
			}
		}
	}
}

func mapRun(c *harn.Ctx, w way, k, e reflect.Type, start int, ops [][2]int) string {
	t := reflect.MapOf(k, e)
	mt := w.api.Type2(t).(reflect2.MapType)
	if mt.Key().Type1() != k || mt.Elem().Type1() != e {
		return fmt.Sprintf("the types are %s and %s", mt.Key(), mt.Elem())
	}
	g := newGuard(t)
	null := false
	var other reflect.Value
	switch start {
	case 0:
		null = true
	case 1, 2:
		var v reflect.Value
		if w.unsafe {
			v = at(t, mt.UnsafeMakeMap((start-1)*100))
		} else {
			v = reflect.ValueOf(mt.MakeMap((start - 1) * 100)).Elem()
		}
		g.set(v)
	case 3:
		g.set(reflect.MakeMap(t))
	}
	keys := make([]reflect.Value, 4)
	for i := range keys {
		keys[i] = box(r2x.Gen(k, i))
	}
	content := map[int]string{}
	same := map[int]int{}
	for i := range keys {
		same[i] = i
		for j := 0; j < i; j++ {
			if keys[i].Elem().Interface() == keys[j].Elem().Interface() {
				same[i] = j
				break
			}
		}
	}
	check := func() string {
		m := g.v.Elem().Field(1)
		if m.IsNil() != null {
			return fmt.Sprintf("the map is nil: %v", m.IsNil())
		}
		if m.Len() != len(content) {
			return fmt.Sprintf("the map has %d elements instead of %d", m.Len(), len(content))
		}
		if w.unsafe && mt.UnsafeIsNil(g.ptr()) != null || !w.unsafe && mt.IsNil(g.obj()) != null {
			return "IsNil is wrong"
		}
		for i := range keys {
			want, in := content[same[i]]
			if v := m.MapIndex(keys[i].Elem()); v.IsValid() != in || in && r2x.Show(v) != want {
				return fmt.Sprintf("key %d has %v instead of %s", i, v, want)
			}
			if w.unsafe {
				p := mt.UnsafeGetIndex(g.ptr(), up(keys[i]))
				if (p != nil) != in || in && text(e, p) != want {
					return fmt.Sprintf("UnsafeGetIndex of key %d is wrong", i)
				}
				continue
			}
			x := mt.GetIndex(g.obj(), keys[i].Interface())
			if v := reflect.ValueOf(x); !v.IsValid() || v.Type() != reflect.PtrTo(e) || v.IsNil() == in || in && r2x.Show(v.Elem()) != want {
				return fmt.Sprintf("GetIndex of key %d is %s instead of a pointer to %s", i, r2x.ShowObj(x), want)
			}
			x, found := mt.TryGetIndex(g.obj(), keys[i].Interface())
			if found != in {
				return fmt.Sprintf("TryGetIndex of key %d: found is %v", i, found)
			}
			if in {
				if s := shown(x, e, want); s != "" {
					return fmt.Sprintf("TryGetIndex of key %d %s", i, s)
				}
			}
		}
		var got, want []string
		if w.unsafe {
			for it := mt.UnsafeIterate(g.ptr()); it.HasNext(); {
				a, b := it.UnsafeNext()
				gc()
				got = append(got, text(k, a)+" = "+text(e, b))
			}
		} else {
			for it := mt.Iterate(g.obj()); it.HasNext(); {
				a, b := it.Next()
				gc()
				if reflect.TypeOf(a) != reflect.PtrTo(k) || reflect.TypeOf(b) != reflect.PtrTo(e) {
					return fmt.Sprintf("Iterate returns a %T and a %T", a, b)
				}
				got = append(got, r2x.Show(reflect.ValueOf(a).Elem())+" = "+r2x.Show(reflect.ValueOf(b).Elem()))
			}
		}
		for it := m.MapRange(); it.Next(); {
			want = append(want, r2x.Show(it.Key())+" = "+r2x.Show(it.Value()))
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("Iterate returns %v instead of %v", got, want)
		}
		return g.around()
	}
	if s := check(); s != "" {
		return "at the start " + s
	}
	for _, o := range ops {
		if o[0] < 0 {
			other = reflect.New(t)
			other.Elem().Set(reflect.MakeMap(t))
			v := r2x.Gen(e, 1)
			other.Elem().SetMapIndex(keys[2].Elem(), v)
			if w.unsafe {
				mt.UnsafeSet(g.ptr(), up(other))
			} else {
				mt.Set(g.obj(), other.Interface())
			}
			content, null = map[int]string{same[2]: r2x.Show(v)}, false
		} else {
			v := box(r2x.Gen(e, o[1]))
			set := func() (r interface{}) {
				defer func() { r = recover() }()
				if w.unsafe {
					mt.UnsafeSetIndex(g.ptr(), up(keys[o[0]]), up(v))
				} else {
					mt.SetIndex(g.obj(), keys[o[0]].Interface(), v.Interface())
				}
				return nil
			}
			gc()
			if e := set(); (e != nil) != null {
				return fmt.Sprintf("SetIndex of key %d: panic %v", o[0], e)
			}
			if !null {
				content[same[o[0]]] = r2x.Show(v.Elem())
			}
		}
		gc()
		if s := check(); s != "" {
			return fmt.Sprintf("after %v %s", o, s)
		}
		c.State(fmt.Sprint(w.name, t, o, len(content), null))
	}
	return ""
}

// sizes builds maps of many sizes and goes through them
func sizes(c *harn.Ctx) {
	max := 70
	if c.Thorough() {
		max = 600
	}
	for _, k := range keyTypes[:4] {
		for _, e := range []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(r2x.Big{}), reflect.TypeOf(struct{}{}), reflect.TypeOf((*interface{})(nil)).Elem()} {
			for _, w := range ways {
				for n := 0; n <= max; n++ {
					k, e, w, n := k, e, w, n
					if k.Kind() == reflect.Uint8 && n > 200 {
						continue
					}
					c.Case("", func() string { return fmt.Sprintf("%s operations, map of %s to %s with %d elements", w.name, k, e, n) }, func() string {
						c.Trans(n)
						c.State(fmt.Sprint(w.name, k, e, n))
						return protect(func() string {
							t := reflect.MapOf(k, e)
							mt := w.api.Type2(t).(reflect2.MapType)
							m := mt.MakeMap(n % 5)
							want := map[string]string{}
							for i := 0; i < n; i++ {
								key := reflect.New(k)
								if k.Kind() == reflect.String {
									key.Elem().SetString(fmt.Sprint("key", i))
								} else {
									key.Elem().Set(reflect.ValueOf(i).Convert(k))
								}
								v := box(r2x.Gen(e, i))
								want[r2x.Show(key.Elem())] = r2x.Show(v.Elem())
								if w.unsafe {
									mt.UnsafeSetIndex(reflect2.PtrOf(m), up(key), up(v))
								} else {
									mt.SetIndex(m, key.Interface(), v.Interface())
								}
							}
							seen := 0
							it := mt.Iterate(m)
							for it.HasNext() {
								a, b := it.Next()
								key := r2x.Show(reflect.ValueOf(a).Elem())
								if v, in := want[key]; !in || v != r2x.Show(reflect.ValueOf(b).Elem()) {
									return fmt.Sprintf("Iterate returns %s with %s", key, r2x.ShowObj(b))
								}
								delete(want, key)
								seen++
							}
							if seen != n {
								return fmt.Sprintf("Iterate returns %d of %d elements", seen, n)
							}
							return ""
						})
					})
				}
			}
		}
	}
}

// ---- structs ----

type place struct {
	index []int
	name  string
}

// places are the fields of a struct, also within what it embeds
func places(t reflect.Type) (r []place) {
	for _, f := range reflect.VisibleFields(t) {
		r = append(r, place{f.Index, f.Name})
	}
	return
}

// fill makes a value of a struct, with new structs for the pointers it embeds
func fill(t reflect.Type, i int) reflect.Value {
	v := box(r2x.Gen(t, i)).Elem()
	var alloc func(v reflect.Value)
	alloc = func(v reflect.Value) {
		for k := 0; k < v.NumField(); k++ {
			f := v.Type().Field(k)
			if !f.Anonymous {
				continue
			}
			x := reflect.NewAt(f.Type, up(v.Field(k).Addr())).Elem()
			if f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct {
				x.Set(reflect.New(f.Type.Elem()))
				x.Elem().Set(r2x.Gen(f.Type.Elem(), i))
				alloc(x.Elem())
			} else if f.Type.Kind() == reflect.Struct {
				alloc(x)
			}
		}
	}
	alloc(v)
	return v
}

// walk finds a field, whether exported or not
func walk(v reflect.Value, index []int) reflect.Value {
	for k, i := range index {
		if k > 0 && v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		f := v.Field(i)
		v = reflect.NewAt(f.Type(), up(f.Addr())).Elem()
	}
	return v
}

func structs(c *harn.Ctx) {
	for _, t := range r2x.Elems {
		if t.Kind() != reflect.Struct {
			continue
		}
		ps := places(t)
		for _, w := range ways {
			for how := 0; how < 4; how++ {
				for i, p := range ps {
					for i2, p2 := range ps {
						for v := 0; v < 3; v++ {
							t, w, how, i, p, p2, v := t, w, how, i, p, p2, v
							if w.api == reflect2.API(reflect2.ConfigSafe) && !(exported(t, p.index) && exported(t, p2.index)) {
								continue // like package reflect
							}
							if how > 0 && i2 != 0 || p.name == "_" && (how == 1 || how == 2) || len(p.index) > 1 && how == 0 {
								continue
							}
							c.Case("", func() string {
								return fmt.Sprintf("%s operations, struct %s, field %s found by %s, value %d, then %s", w.name, t, p.name, []string{"number", "name", "function", "index"}[how], v, p2.name)
							}, func() string {
								c.Trans(4)
								c.State(fmt.Sprint(w.name, t, i, how, v))
								return protect(func() string {
									st := w.api.Type2(t).(reflect2.StructType)
									if st.NumField() != t.NumField() {
										return fmt.Sprintf("NumField is %d", st.NumField())
									}
									var f reflect2.StructField
									switch how {
									case 0:
										f = st.Field(p.index[0])
									case 1:
										f = st.FieldByName(p.name)
									case 2:
										want, ok := t.FieldByNameFunc(func(s string) bool { return s == p.name })
										if !ok || fmt.Sprint(want.Index) != fmt.Sprint(p.index) {
											return ""
										}
										f = st.FieldByNameFunc(func(s string) bool { return s == p.name })
									case 3:
										f = st.FieldByIndex(p.index)
									}
									if want, ok := t.FieldByName(p.name); how == 1 && (!ok || fmt.Sprint(want.Index) != fmt.Sprint(p.index)) {
										return "" // hidden by another one
									}
									if s := field(w, t, f, p, v); s != "" {
										return s
									}
									return field(w, t, st.FieldByIndex(p2.index), p2, v+1)
								})
							})
						}
					}
				}
			}
		}
	}
}

func exported(t reflect.Type, index []int) bool {
	for k := range index {
		f := t.FieldByIndex(index[:k+1])
		if f.PkgPath != "" && (k == len(index)-1 || f.Type.Kind() == reflect.Ptr) {
			return false
		}
	}
	return true
}

func field(w way, t reflect.Type, f reflect2.StructField, p place, v int) string {
	want := t.FieldByIndex(p.index)
	if f.Name() != want.Name || f.PkgPath() != want.PkgPath || f.Type().Type1() != want.Type || f.Tag() != want.Tag || f.Anonymous() != want.Anonymous {
		return fmt.Sprintf("the field is %s %s %s", f.Name(), f.Type(), f.Tag())
	}
	if len(p.index) == 1 && f.Offset() != want.Offset {
		return fmt.Sprintf("its offset is %d", f.Offset())
	}
	for i := 0; i < 3; i++ {
		g := newGuard(t)
		g.set(fill(t, i))
		s := g.field().Elem()
		x := walk(s, p.index)
		if w.unsafe {
			if got := text(want.Type, f.UnsafeGet(g.ptr())); got != r2x.Show(x) {
				return fmt.Sprintf("UnsafeGet of %s returns %s instead of %s", p.name, got, r2x.Show(x))
			}
		} else if m := shown(f.Get(g.obj()), want.Type, r2x.Show(x)); m != "" {
			return fmt.Sprintf("what Get of %s returns %s", p.name, m)
		}
		// the same struct changed by the language
		n := box(r2x.Gen(want.Type, v))
		old := reflect.New(want.Type).Elem()
		old.Set(x)
		x.Set(n.Elem())
		expect := r2x.Show(s)
		x.Set(old)
		if w.unsafe {
			f.UnsafeSet(g.ptr(), up(n))
		} else {
			f.Set(g.obj(), n.Interface())
		}
		gc()
		if got := r2x.Show(s); got != expect {
			return fmt.Sprintf("after Set of %s the struct is %s instead of %s", p.name, got, expect)
		}
		if m := g.around(); m != "" {
			return m
		}
	}
	return ""
}

// ---- types ----

// names looks types up in every order
func names(c *harn.Ctx) {
	types := append(append(append([]reflect.Type{}, r2x.Elems...), r2x.Twins...), r2x.OddTwins...)
	for _, safe := range []bool{false, true} {
		for i := range types {
			for j := range types {
				for how := 0; how < 4; how++ {
					safe, i, j, how := safe, i, j, how
					c.Case("", func() string {
						return fmt.Sprintf("new configuration (safe: %v): %s, then %s (%d)", safe, types[i], types[j], how)
					}, func() string {
						c.Trans(4)
						c.State(fmt.Sprint(safe, i, j, how))
						api := reflect2.Config{UseSafeImplementation: safe}.Froze()
						get := func(k, how int) string {
							t := types[k]
							var r reflect2.Type
							if how == 0 || t.Kind() == reflect.Interface {
								r = api.Type2(t)
							} else {
								r = api.TypeOf(r2x.Gen(t, 1).Interface())
							}
							if r == nil || r.Type1() != t {
								return fmt.Sprintf("the type of %s is %v", t, r)
							}
							p := box(r2x.Gen(t, 1))
							return protect(func() string {
								if a, b := r2x.ShowObj(r.Indirect(p.Interface())), r2x.ShowObj(p.Elem().Interface()); a != b {
									return fmt.Sprintf("Indirect returns %s instead of %s", a, b)
								}
								return ""
							})
						}
						for n := 0; n < 2; n++ {
							if s := get(i, how&1); s != "" {
								return s
							}
							if s := get(j, how>>1); s != "" {
								return s
							}
						}
						if api.TypeOf(nil) != nil || api.Type2(nil) != nil {
							return "there is a type of nil"
						}
						return ""
					})
				}
			}
		}
	}
	for _, t := range []reflect.Type{reflect.TypeOf(r2x.Mixed{}), reflect.TypeOf(r2x.List{}), reflect.TypeOf(r2x.NameP{})} {
		t := t
		c.Case("", func() string { return "TypeByName of " + t.String() }, func() string {
			if r := reflect2.TypeByName(t.String()); r == nil || r.Type1() != t {
				return fmt.Sprintf("is %v", r)
			}
			return ""
		})
	}
	for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
		k := k
		c.Case("", func() string { return "DefaultTypeOfKind of " + k.String() }, func() string {
			t := reflect2.DefaultTypeOfKind(k)
			for _, e := range r2x.Elems {
				if e.Kind() == k && e.PkgPath() == "" && (k < reflect.Array && k != reflect.Complex64 && k != reflect.Complex128 && k != reflect.Invalid || k == reflect.String || k == reflect.UnsafePointer) && e.Name() == e.Kind().String() {
					if t == nil || t.Type1() != e {
						return fmt.Sprintf("is %v", t)
					}
				}
			}
			if t != nil && t.Kind() != k {
				return fmt.Sprintf("is %v", t)
			}
			return ""
		})
	}
}

// concurrent asks one new configuration for types at the same time
func concurrent(c *harn.Ctx) {
	ts := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(r2x.Mixed{}), reflect.TypeOf((*int)(nil))}
	pre := 3
	if c.Thorough() {
		pre = 5
	}
	for i := range ts {
		for j := range ts {
			for _, safe := range []bool{false, true} {
				if j < i {
					continue
				}
				i, j, safe := i, j, safe
				c.Explore(fmt.Sprintf("%s and %s at the same time, safe: %v", ts[i], ts[j], safe), "", harn.Bounds(pre, 0, 0, 0), vsched.Options{}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
					var bad vsched.Journal
					body := func() {
						api := reflect2.Config{UseSafeImplementation: safe}.Froze()
						use := func(k int, how int) {
							var t reflect2.Type
							if how == 0 {
								t = api.Type2(ts[k])
							} else {
								t = api.TypeOf(r2x.Gen(ts[k], 1).Interface())
							}
							p := box(r2x.Gen(ts[k], 2))
							n := t.New()
							t.Set(n, p.Interface())
							if t.Type1() != ts[k] || r2x.ShowObj(t.Indirect(n)) != r2x.ShowObj(p.Elem().Interface()) {
								bad.Add(fmt.Sprintf("the type of %s is %s", ts[k], t))
							}
						}
						a := vsched.Go(func() { use(i, 0); use(j, 1) })
						b := vsched.Go(func() { use(j, 1); use(i, 0) })
						use(i, 1)
						a.Join()
						b.Join()
					}
					return body, func(o *vsched.Outcome) vsched.Verdict {
						if o.End != "" {
							return vsched.Verdict{Obs: o.End, Violation: "execution ended abnormally: " + o.End}
						}
						if x := bad.Items(); len(x) > 0 {
							return vsched.Verdict{Obs: "bad", Violation: x[0]}
						}
						return vsched.Verdict{Obs: "ok"}
					}
				})
			}
		}
	}
}

func collected(f func(c *harn.Ctx)) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		collect = true
		f(c)
	}
}

func main() {
	// what the collector frees is overwritten
	if !strings.Contains(os.Getenv("GODEBUG"), "clobberfree") {
		os.Setenv("GODEBUG", "clobberfree=1")
	}
	harn.Main(harn.Check{
		ID: "C21", Level: "model_checking", StateMeaning: "distinct (operations, type, contents) reached",
		Bounds: func(tier string) string {
			d := "slices: sequences of 3 of 14 operations from 6 starts; arrays: sequences of 2; maps: sequences of 3"
			if tier == "thorough" {
				d = "slices: sequences of 4 of 14 operations from 6 starts; arrays: sequences of 4; maps: sequences of 4"
			}
			return fmt.Sprintf("%d types of elements x checked, unsafe and safe operations; %s; maps of all sizes up to 70 (thorough 600); all fields of structs with all ways to find them; all pairs of types for one configuration; the collector after every operation of sequences of 1 (thorough 2)", len(r2x.Elems), d)
		},
		Assumptions: []string{"what a returned pointer shows after later changes of a map is not claimed", "elements which come into sight again when a slice grows within its capacity may be zero or what they were"},
		Jobs: func(tier string) []harn.Job {
			d, g := 3, 1
			if tier == "thorough" {
				d, g = 4, 2
			}
			few := r2x.Elems
			return []harn.Job{
				{Name: "basics", Shards: 8, Run: basics},
				{Name: "slices", Shards: 24, Run: slices(d, few)},
				{Name: "arrays", Shards: 8, Run: arrays(d - (4-d)%2)},
				{Name: "maps", Shards: 16, Run: maps(d)},
				{Name: "sizes", Shards: 8, Run: sizes},
				{Name: "structs", Shards: 8, Run: structs},
				{Name: "names", Shards: 8, Run: names},
				{Name: "collected slices", Shards: 16, Run: collected(slices(g, few))},
				{Name: "collected arrays", Shards: 8, Run: collected(arrays(g))},
				{Name: "collected maps", Shards: 16, Run: collected(maps(g))},
				{Name: "collected structs", Shards: 8, Run: collected(structs)},
				{Name: "collected basics", Shards: 8, Run: collected(basics)},
				{Name: "concurrent", Shards: 8, Run: concurrent},
				{Name: "race", Race: true, Shards: 8, Run: concurrent},
			}
		},
	})
}
