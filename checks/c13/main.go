// C13: what a parser reads from a source depends on the bytes only, not on how
// the reader delivers them: all chunkings and reader behaviours x all short
// sequences of operations, compared with a reference model on the whole bytes.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"

	"verif/harn"
	"verif/vsched"
)

var errDisk = errors.New("disk on fire")

// how the reader ends
const (
	endSeparate = iota // (n, nil) ... (0, EOF)
	endTogether        // ... (n, EOF)
	failSeparate
	failTogether
	nends
)

type chunkReader struct {
	chunks [][]byte
	end    int
	empty  int // (0, nil) before every chunk: that many
	left   int
	failed bool
}

func (r *chunkReader) err() error {
	if r.end == failSeparate || r.end == failTogether {
		return errDisk
	}
	return io.EOF
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.failed {
		// what comes after a failure does not continue what came before it
		return copy(p, "1a "), nil
	}
	if r.left > 0 {
		r.left--
		return 0, nil
	}
	r.left = r.empty
	if len(r.chunks) == 0 {
		r.failed = r.err() == errDisk
		return 0, r.err()
	}
	n := copy(p, r.chunks[0])
	r.chunks[0] = r.chunks[0][n:]
	if len(r.chunks[0]) == 0 {
		r.chunks = r.chunks[1:]
	}
	if len(r.chunks) == 0 && (r.end == endTogether || r.end == failTogether) {
		r.failed = r.err() == errDisk
		return n, r.err()
	}
	return n, nil
}

// model is the reference: all the bytes, a position, the error at the end.
type model struct {
	rest []byte
	end  error
	err  error // reported by the parser
}

func (m *model) error() error {
	if m.err != nil {
		return m.err
	}
	if len(m.rest) == 0 {
		return m.end
	}
	return nil
}

func (m *model) take(n int) {
	if n > len(m.rest) {
		n = len(m.rest)
	}
	m.rest = m.rest[n:]
}

func runeAt(b []byte) (rune, int) {
	if len(b) == 0 {
		return utf8.RuneError, 1
	}
	return utf8.DecodeRune(b)
}

type op struct {
	name string
	do   func(src *parse.Source, m *model) string
}

func expect(what string, got, want interface{}) string {
	if g, w := fmt.Sprintf("%v", got), fmt.Sprintf("%v", want); g != w {
		return fmt.Sprintf("%s: got %s, the bytes say %s", what, g, w)
	}
	return ""
}

func peekN(n int) op {
	return op{fmt.Sprint("PeekN", n), func(src *parse.Source, m *model) string {
		b, err := src.PeekN(n)
		want, wantErr := m.rest, m.end
		if n <= len(m.rest) {
			want, wantErr = m.rest[:n], nil
		}
		if !bytes.Equal(b, want) || err != wantErr {
			return fmt.Sprintf("PeekN(%d): got %q, %v; the bytes say %q, %v", n, b, err, want, wantErr)
		}
		return ""
	}}
}

func consumeN(n int) op {
	return op{fmt.Sprint("ConsumeN", n), func(src *parse.Source, m *model) string {
		src.ConsumeN(n)
		m.take(n)
		return ""
	}}
}

func scan(name string, f func(src *parse.Source) string, g func(rest []byte) (string, int)) op {
	return op{name, func(src *parse.Source, m *model) string {
		// parsers do nothing once there is an error
		want, n := g(nil)
		if m.error() == nil {
			want, n = g(m.rest)
		}
		got := f(src)
		m.take(n)
		if got != want {
			return fmt.Sprintf("%s: got %q, the bytes say %q", name, got, want)
		}
		return ""
	}}
}

// until gives the runes up to the first that stop says ends it
func until(rest []byte, goon func(r rune) bool) (rs []rune, n int) {
	for n < len(rest) {
		r, sz := runeAt(rest[n:])
		if !goon(r) {
			break
		}
		rs = append(rs, r)
		n += sz
	}
	return
}

func count(f func(src *parse.Source) int) func(src *parse.Source) string {
	return func(src *parse.Source) string { return fmt.Sprint(f(src)) }
}

var letters = []*unicode.RangeTable{unicode.Han, unicode.L}
var syntax = []*unicode.RangeTable{unicode.Pattern_Syntax, unicode.Pattern_White_Space}

func ops(thorough bool) []op {
	l := []op{
		{"Peek", func(src *parse.Source, m *model) string {
			b := src.Peek()
			if !bytes.HasPrefix(m.rest, b) {
				return fmt.Sprintf("Peek: got %q, the bytes are %q", b, m.rest)
			}
			return ""
		}},
		{"Peek1", func(src *parse.Source, m *model) string {
			if len(m.rest) == 0 {
				return ""
			}
			return expect("Peek1", src.Peek1(), m.rest[0])
		}},
		peekN(1), peekN(2), peekN(4), consumeN(1), consumeN(2), consumeN(3),
		{"Consume", func(src *parse.Source, m *model) string {
			n := len(src.Peek())
			src.Consume()
			m.take(n)
			return ""
		}},
		{"Consume1a", func(src *parse.Source, m *model) string {
			src.Consume1('a')
			if len(m.rest) > 0 {
				if m.rest[0] != 'a' && (m.err == nil) {
					m.err = src.Error() // whatever it says
					if m.err == nil || m.err == io.EOF || m.err == errDisk {
						return fmt.Sprintf("Consume1('a') before %q reported %v", m.rest, m.err)
					}
				}
				m.take(1)
			} else if m.err == nil {
				// there is no 'a': the end is not the whole truth
				if m.err = src.Error(); m.err == nil || m.err == io.EOF {
					return fmt.Sprintf("Consume1('a') at the end reported %v", m.err)
				}
			}
			return ""
		}},
		{"PeekRune", func(src *parse.Source, m *model) string {
			r, n := src.PeekRune()
			wr, wn := runeAt(m.rest)
			if len(m.rest) == 0 {
				return ""
			}
			return expect("PeekRune", fmt.Sprint(r, n), fmt.Sprint(wr, wn))
		}},
		scan("read.AnyExcept1(1)", func(src *parse.Source) string { return string(read.AnyExcept1(src, nil, '1')) },
			func(rest []byte) (string, int) {
				i := bytes.IndexByte(rest, '1')
				if i < 0 {
					i = len(rest)
				}
				return string(rest[:i]), i
			}),
		scan("read.AnyExcept2(1,space)", func(src *parse.Source) string { return string(read.AnyExcept2(src, nil, '1', ' ')) },
			func(rest []byte) (string, int) {
				i := bytes.IndexAny(rest, "1 ")
				if i < 0 {
					i = len(rest)
				}
				return string(rest[:i]), i
			}),
		scan("read.Uint64", func(src *parse.Source) string { return fmt.Sprint(read.Uint64(src)) },
			func(rest []byte) (string, int) {
				v, i := 0, 0
				for i < len(rest) && rest[i] >= '0' && rest[i] <= '9' {
					v = v*10 + int(rest[i]-'0')
					i++
				}
				return fmt.Sprint(v), i
			}),
		scan("read.UnicodeRange(letters)", func(src *parse.Source) string { return fmt.Sprint(read.UnicodeRange(src, nil, unicode.L)) },
			func(rest []byte) (string, int) {
				rs, n := until(rest, unicode.IsLetter)
				return fmt.Sprint(rs), n
			}),
		scan("read.UnicodeRanges(no syntax)", func(src *parse.Source) string { return fmt.Sprint(read.UnicodeRanges(src, nil, nil, syntax)) },
			func(rest []byte) (string, int) {
				rs, n := until(rest, func(r rune) bool { return !unicode.In(r, syntax...) })
				return fmt.Sprint(rs), n
			}),
		scan("read.UnicodeRanges(letters)", func(src *parse.Source) string { return fmt.Sprint(read.UnicodeRanges(src, nil, letters, syntax)) },
			func(rest []byte) (string, int) {
				rs, n := until(rest, unicode.IsLetter)
				return fmt.Sprint(rs), n
			}),
		scan("skip.Space", count(skip.Space), func(rest []byte) (string, int) {
			n := len(rest) - len(bytes.TrimLeft(rest, "\t\n\v\f\r "))
			return fmt.Sprint(n), n
		}),
		scan("skip.UnicodeSpace", count(skip.UnicodeSpace), func(rest []byte) (string, int) {
			_, n := until(rest, unicode.IsSpace)
			return fmt.Sprint(n), n
		}),
		scan("skip.UnicodeRange(symbols)", count(func(src *parse.Source) int { return skip.UnicodeRange(src, unicode.So) }),
			func(rest []byte) (string, int) {
				_, n := until(rest, func(r rune) bool { return unicode.Is(unicode.So, r) })
				return fmt.Sprint(n), n
			}),
		scan("skip.UnicodeRanges(letters)", count(func(src *parse.Source) int { return skip.UnicodeRanges(src, letters, syntax) }),
			func(rest []byte) (string, int) {
				_, n := until(rest, unicode.IsLetter)
				return fmt.Sprint(n), n
			}),
		{"SetBuffer", func(src *parse.Source, m *model) string {
			src.SetBuffer(make([]byte, 2))
			return ""
		}},
	}
	return l
}

func invariant(src *parse.Source, m *model) string {
	if e := expect("Error", src.Error(), m.error()); e != "" {
		return e
	}
	b := src.Peek()
	if !bytes.HasPrefix(m.rest, b) || (len(b) == 0) != (len(m.rest) == 0) {
		return fmt.Sprintf("Peek: got %q, the bytes are %q", b, m.rest)
	}
	return ""
}

type variant struct {
	chunks []int // nil: a string source
	end    int
	empty  int
	buf    int
}

func (v variant) String() string {
	if v.chunks == nil {
		return "string source"
	}
	return fmt.Sprintf("chunks %v, end %s, %d empty reads before each, buffer %d", v.chunks,
		[]string{"(n,nil)(0,EOF)", "(n,EOF)", "(n,nil)(0,err)", "(n,err)"}[v.end], v.empty, v.buf)
}

func (v variant) open(in string, guard []byte) (*parse.Source, *model, string) {
	m := &model{rest: []byte(in), end: io.EOF}
	if v.chunks == nil {
		return parse.NewSourceString(in), m, ""
	}
	r := &chunkReader{end: v.end, empty: v.empty, left: v.empty}
	b := []byte(in)
	for _, n := range v.chunks {
		r.chunks = append(r.chunks, b[:n:n])
		b = b[n:]
	}
	m.end = r.err()
	src, err := parse.NewSource(r, guard[:v.buf])
	if in == "" {
		if src != nil || err != m.end {
			return nil, nil, fmt.Sprintf("NewSource on an empty reader: %v, %v", src, err)
		}
		return nil, nil, ""
	}
	if err != nil || src == nil {
		return nil, nil, fmt.Sprintf("NewSource: %v", err)
	}
	return src, m, ""
}

func compositions(n int) (r [][]int) {
	if n == 0 {
		return [][]int{{}}
	}
	for k := 1; k <= n; k++ {
		for _, c := range compositions(n - k) {
			r = append(r, append([]int{k}, c...))
		}
	}
	return
}

func variants(n int) (r []variant) {
	r = append(r, variant{})
	for _, c := range compositions(n) {
		for e := 0; e < nends; e++ {
			r = append(r, variant{c, e, 0, 8})
		}
		r = append(r, variant{c, endTogether, 1, 8}, variant{c, endSeparate, 2, 8})
	}
	for b := 1; b <= 3 && b < n; b++ {
		r = append(r, variant{[]int{n}, endSeparate, 0, b}, variant{[]int{n}, endTogether, 0, b}, variant{[]int{n}, failTogether, 1, b})
	}
	return
}

func run(depth int, inputs []string) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		all := ops(c.Thorough())
		for _, in := range inputs {
			for _, v := range variants(len(in)) {
				for first := range all {
					in, v, first := in, v, first
					seq := make([]int, depth)
					c.Case("", func() string {
						return fmt.Sprintf("input %q, %s, operations starting with %s", in, v, all[first].name)
					}, func() string {
						c.State(fmt.Sprint(in, v, first))
						guard := make([]byte, 16)
						n, runs := 0, 0
						what := ""
						one := func() string {
							vsched.ResetTicks(20000)
							runs++
							for i := range guard {
								guard[i] = 0xAA
							}
							src, m, e := v.open(in, guard)
							if e != "" || src == nil {
								return e
							}
							if e := invariant(src, m); e != "" {
								return "at the start: " + e
							}
							for _, o := range seq {
								n++
								if e := all[o].do(src, m); e != "" {
									return e
								}
								if e := invariant(src, m); e != "" {
									return "after " + all[o].name + ": " + e
								}
							}
							if v.chunks != nil {
								for i := v.buf; i < len(guard); i++ {
									if guard[i] != 0xAA {
										return "memory behind the caller's buffer was overwritten"
									}
								}
							}
							return ""
						}
						defer func() {
							c.Trans(n)
							if r := recover(); r != nil {
								panic(fmt.Sprintf("operations %s: %v", names(all, seq), r))
							}
						}()
						var rec func(i int)
						rec = func(i int) {
							if what != "" {
								return
							}
							if i == depth {
								if e := one(); e != "" {
									what = "operations " + names(all, seq) + ": " + e
								}
								return
							}
							for o := range all {
								if i == 0 && o != first {
									continue
								}
								seq[i] = o
								rec(i + 1)
							}
						}
						rec(0)
						return what
					})
				}
			}
		}
	}
}

var everything = &unicode.RangeTable{R16: []unicode.Range16{{0, 0xffff, 1}}, R32: []unicode.Range32{{0x10000, unicode.MaxRune, 1}}}

// walk reads all runes one by one
func walk(src *parse.Source, m *model) string {
	for len(m.rest) > 0 {
		if src.Error() != nil {
			return fmt.Sprintf("Error before %q: %v", m.rest, src.Error())
		}
		r, n := src.PeekRune()
		wr, wn := utf8.DecodeRune(m.rest)
		if r != wr || n != wn {
			return fmt.Sprintf("PeekRune before %q: got %U of %d bytes, want %U of %d bytes", m.rest, r, n, wr, wn)
		}
		src.ConsumeN(n)
		m.take(n)
	}
	return ""
}

// leads gives every first byte every kind of continuation, cut in all ways
func leads(c *harn.Ctx) {
	follow := []string{"", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "a"}
	ops := []op{
		{"all runes one by one", walk},
		scan("read.UnicodeRange(everything)", func(src *parse.Source) string { return fmt.Sprint(read.UnicodeRange(src, nil, everything)) },
			func(rest []byte) (string, int) {
				rs, n := until(rest, func(rune) bool { return true })
				return fmt.Sprint(rs), n
			}),
		scan("skip.UnicodeRanges(everything but 1)", count(func(src *parse.Source) int {
			return skip.UnicodeRanges(src, []*unicode.RangeTable{everything}, []*unicode.RangeTable{{R16: []unicode.Range16{{'1', '1', 1}}, LatinOffset: 1}})
		}), func(rest []byte) (string, int) {
			_, n := until(rest, func(r rune) bool { return r != '1' })
			return fmt.Sprint(n), n
		}),
	}
	cuts := make([][]variant, 8)
	for n := 1; n < len(cuts); n++ {
		cuts[n] = append(cuts[n], variant{})
		for _, ks := range compositions(n) {
			cuts[n] = append(cuts[n], variant{ks, endSeparate, 0, 8}, variant{ks, endTogether, 0, 8})
		}
		cuts[n] = append(cuts[n], variant{[]int{n}, endTogether, 0, 1}, variant{[]int{n}, endSeparate, 0, 2})
	}
	for b := 0; b < 256; b++ {
		b := b
		c.Case("", func() string { return fmt.Sprintf("first byte %#x", b) }, func() string {
			c.State(fmt.Sprint(b))
			guard := make([]byte, 16)
			n := 0
			defer func() { c.Trans(n) }()
			one := func(in string, v variant, o op) string {
				vsched.ResetTicks(20000)
				n++
				src, m, e := v.open(in, guard)
				if e == "" {
					e = o.do(src, m)
				}
				if e == "" {
					e = invariant(src, m)
				}
				if e != "" {
					return fmt.Sprintf("input %q, %s: %s: %s", in, v, o.name, e)
				}
				return ""
			}
			for _, in := range sequences(string([]byte{byte(b)}), follow, c.Thorough()) {
				for _, v := range cuts[len(in)] {
					for i, o := range ops {
						if i > 0 && len(v.chunks) > 1 && len(v.chunks) < len(in) && !c.Thorough() {
							continue
						}
						if e := one(in, v, o); e != "" {
							return e
						}
					}
				}
			}
			return ""
		})
	}
}

// sequences gives the byte, with up to three bytes behind it, alone and with a
// digit behind that
func sequences(first string, follow []string, thorough bool) (r []string) {
	for _, x := range follow {
		for _, y := range follow {
			for k, z := range follow {
				if x == "" && y+z != "" || y == "" && z != "" || !thorough && k > 1 && z != "a" {
					continue
				}
				r = append(r, first+x+y+z, first+x+y+z+"1")
			}
		}
	}
	return
}

// single does every operation at every byte
func single(c *harn.Ctx) {
	all := ops(c.Thorough())
	for b := 0; b < 256; b++ {
		b := b
		c.Case("", func() string { return fmt.Sprintf("byte %#x", b) }, func() string {
			c.State(fmt.Sprint(b))
			guard := make([]byte, 16)
			s := string([]byte{byte(b)})
			for _, in := range []string{s, s + "1", s + s, " " + s + "1", "a" + s, "1" + s + " "} {
				for _, v := range variants(len(in)) {
					for i, o := range all {
						for j, o2 := range all {
							vsched.ResetTicks(20000)
							c.Trans(1)
							src, m, e := v.open(in, guard)
							if e == "" {
								e = o.do(src, m)
							}
							if e == "" {
								e = invariant(src, m)
							}
							if e == "" {
								e = o2.do(src, m)
							}
							if e == "" {
								e = invariant(src, m)
							}
							if e != "" {
								return fmt.Sprintf("input %q, %s: %s: %s", in, v, names(all, []int{i, j}), e)
							}
						}
					}
				}
			}
			return ""
		})
	}
}

func names(all []op, seq []int) string {
	var s []string
	for _, o := range seq {
		s = append(s, all[o].name)
	}
	return strings.Join(s, ", ")
}

// the inputs: all short strings over bytes that matter, and longer ones with
// multi-byte runes (split by the chunks), bad UTF-8, digits and spaces
func inputs(alphabet string, n int) (r []string) {
	if n == 0 {
		return []string{""}
	}
	for _, p := range inputs(alphabet, n-1) {
		for i := 0; i < len(alphabet); i++ {
			r = append(r, p+alphabet[i:i+1])
		}
	}
	return
}

func main() {
	long := []string{"a1 ", "中1", " \u2003a", "a\xe4\xb8", "€a1", "12 a", "𐍈1", "\xffa1", "\uFFFD1", "a中文b", "123 4", " \t\u00a0中1"}
	harn.Main(harn.Check{
		ID: "C13", Level: "model_checking", StateMeaning: "distinct (input, delivery, first operation); transitions are source operations",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "12 inputs of up to 8 bytes (multi-byte and invalid runes, digits, spaces) x all chunkings x 6 reader behaviours x all sequences of 4 of 22 operations; all 4-byte inputs over 6 bytes x sequences of 2; every first byte with up to 3 following bytes of 7 kinds (the bounds of all UTF-8 ranges and 'a') x all chunkings, read rune by rune and by range; every byte alone and between others x all chunkings x all pairs of operations"
			}
			return "12 inputs of up to 8 bytes (multi-byte and invalid runes, digits, spaces) x all chunkings x 6 reader behaviours x all sequences of 3 of 22 operations; all 3-byte inputs over 6 bytes x sequences of 2; every first byte with up to 3 following bytes of 7 kinds (the bounds of all UTF-8 ranges and 'a') x all chunkings, read rune by rune and by range; every byte alone and between others x all chunkings x all pairs of operations"
		},
		Jobs: func(tier string) []harn.Job {
			d, n := 3, 3
			if tier == "thorough" {
				d, n = 4, 4
			}
			var short, rest []string
			for _, s := range long {
				if len(s) <= 4 {
					short = append(short, s)
				} else {
					rest = append(rest, s)
				}
			}
			var all []string
			for i := 0; i <= n; i++ {
				all = append(all, inputs("a1 \xe4\xb8\xad", i)...)
			}
			return []harn.Job{
				{Name: "short", Shards: 8, Run: run(d, short)},
				{Name: "long", Shards: 8, Run: run(d, rest)},
				{Name: "all", Shards: 8, Run: run(2, all)},
				{Name: "leads", Shards: 8, Run: leads},
				{Name: "single", Shards: 8, Run: single},
			}
		},
	})
}
