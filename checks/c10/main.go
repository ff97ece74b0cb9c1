// C10: message formatting: every format and every list of arguments gives the
// text that the format says, whatever was formatted before.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/v2pro/plz/msgfmt"

	"verif/harn"
	shimos "verif/shim/os"
	"verif/vsched"
)

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

type pstringer struct{ n int }

func (s *pstringer) String() string { return fmt.Sprint("p", s.n) }

// stringers that are nil and still have a text

type mstringer map[string]int

func (s mstringer) String() string { return fmt.Sprint("m", len(s)) }

type sstringer []int

func (s sstringer) String() string { return fmt.Sprint("l", len(s)) }

type fstringer func()

func (s fstringer) String() string { return fmt.Sprint("f", s == nil) }

type pair struct {
	A int
	B string
}

var when = time.Date(2020, 2, 3, 4, 5, 6, 7000000, time.UTC)

// value is an argument with what it is formatted as
type value struct {
	v    interface{}
	text string
}

func values(i int) []value {
	n := i + 1
	num := n
	return []value{
		{fmt.Sprint("s\n\"{", n), fmt.Sprint("s\n\"{", n)},
		{n, fmt.Sprint(n)},
		{[]byte(fmt.Sprint("b\x01\\", n)), fmt.Sprint(`b\x01\\`, n)},
		{stringer{fmt.Sprint(n)}, fmt.Sprint("<", n, ">")},
		{when.Add(time.Duration(i) * time.Hour), when.Add(time.Duration(i) * time.Hour).String()},
		{nil, "null"},
		{pair{n, "x\""}, fmt.Sprintf(`{"A":%d,"B":"x\""}`, n)},
		{errors.New("bad\n"), `"bad\n"`},
		{&pstringer{n}, fmt.Sprint("p", n)},
		{(*pstringer)(nil), "<nil>"},
		{&num, fmt.Sprint(n)},
		{[]interface{}{n, "q"}, fmt.Sprintf(`[%d,"q"]`, n)},
		{float64(n) + 0.5, fmt.Sprint(n, ".5")},
		{"", ""},
		{mstringer(nil), "m0"},
		{mstringer{"x": 1}, "m1"},
		{sstringer(nil), "l0"},
		{fstringer(nil), "ftrue"},
	}
}

// ---- the reference

const invalid = "%! (INVALID FORMAT) "

func isID(r rune) bool {
	return !unicode.In(r, unicode.Pattern_White_Space, unicode.Pattern_Syntax)
}

// reference returns the text, or bad for a format that has to be reported
func reference(format string, kv []interface{}, texts []string) (out string, bad bool) {
	find := func(name string) int {
		for i := 0; i+1 < len(kv); i += 2 {
			if k, ok := kv[i].(string); ok && k == name {
				return i + 1
			}
		}
		return -1
	}
	for format != "" {
		i := strings.IndexByte(format, '{')
		if i < 0 {
			return out + format, false
		}
		out += format[:i]
		format = strings.TrimLeftFunc(format[i+1:], unicode.IsSpace)
		id := format
		if j := strings.IndexFunc(format, func(r rune) bool { return !isID(r) }); j >= 0 {
			id = format[:j]
		}
		format = strings.TrimLeftFunc(format[len(id):], unicode.IsSpace)
		if format == "" || (format[0] != '}' && format[0] != ',') {
			return "", true
		}
		idx := find(id)
		if idx < 0 {
			return "", true
		}
		if format[0] == '}' {
			out += texts[idx/2]
			format = format[1:]
			continue
		}
		end := strings.IndexByte(format, '}')
		if end < 0 {
			return "", true
		}
		parts := strings.Split(format[1:end], ",")
		format = format[end+1:]
		t, isTime := kv[idx].(time.Time)
		if strings.TrimLeftFunc(parts[0], unicode.IsSpace) != "goTime" || !isTime {
			return "", true
		}
		layout := time.RFC3339
		if len(parts) > 1 {
			layout = strings.TrimSpace(parts[1])
		}
		out += t.Format(layout)
	}
	return out, false
}

func one(format string, kv []interface{}, texts []string) string {
	vsched.ResetTicks(200000)
	want, bad := reference(format, kv, texts)
	got := msgfmt.Sprintf(format, kv...)
	if bad && !strings.HasPrefix(got, invalid) {
		return fmt.Sprintf("Sprintf(%q) with %v: got %q, expected it to be reported as invalid", format, kv, got)
	}
	if !bad && got != want {
		return fmt.Sprintf("Sprintf(%q) with %v: got %q, expected %q", format, kv, got, want)
	}
	w := &writer{}
	n, err := msgfmt.Fprintf(w, format, kv...)
	if len(w.calls) != 1 || w.calls[0] != got || n != len(got) || err != nil {
		return fmt.Sprintf("Fprintf(%q) with %v: wrote %q, %d, %v; Sprintf gave %q", format, kv, w.calls, n, err, got)
	}
	w = &writer{err: errors.New("disk"), n: 1}
	n, err = msgfmt.Fprintf(w, format, kv...)
	if len(w.calls) != 1 || n != 1 || err != w.err {
		return fmt.Sprintf("Fprintf(%q) to a failing writer: wrote %q, %d, %v", format, w.calls, n, err)
	}
	return ""
}

type writer struct {
	calls []string
	n     int
	err   error
}

func (w *writer) Write(p []byte) (int, error) {
	w.calls = append(w.calls, string(p))
	if w.err != nil {
		return w.n, w.err
	}
	return len(p), nil
}

// ---- formats made of tokens, arguments of some types

func formats(c *harn.Ctx) {
	tokens := []string{"{", "}", ",", "a", "b", "\u4e2d", " ", "goTime", "15:04", "-", "\xff", "select"}
	n := 5
	if c.Thorough() {
		n = 6
	}
	va, vb := values(0), values(1)
	var rec func(p string, left int)
	rec = func(p string, left int) {
		f := p
		c.Case("", func() string { return fmt.Sprintf("format %q", f) }, func() string {
			c.State(f)
			for _, t := range [][2]int{{0, 4}, {4, 1}} {
				kv := []interface{}{"a", va[t[0]].v, "b", vb[t[1]].v}
				c.Trans(1)
				if e := one(f, kv, []string{va[t[0]].text, vb[t[1]].text}); e != "" {
					return e
				}
			}
			return ""
		})
		if left == 0 {
			return
		}
		for _, t := range tokens {
			rec(p+t, left-1)
		}
	}
	rec("", n)
}

// well-formed formats with several variables
func variables(c *harn.Ctx) {
	segments := []string{"", "x", "{a}", "{b}", "{ a }", "{a,goTime}", "{b, goTime, 15:04:05.000 }", "{c}", "\n\"", "{\u4e2d1}"}
	n := 4
	if c.Thorough() {
		n = 5
	}
	va, vb, vc := values(0), values(1), values(2)
	var rec func(p string, left int)
	rec = func(p string, left int) {
		if left == 0 {
			f := p
			c.Case("", func() string { return fmt.Sprintf("format %q", f) }, func() string {
				c.State(f)
				for i := range va {
					j := (i*5 + 4) % len(vb)
					for k := 0; k < 3; k++ {
						var kv []interface{}
						var texts []string
						switch k {
						case 0:
							kv, texts = []interface{}{"a", va[i].v, "b", vb[j].v}, []string{va[i].text, vb[j].text}
						case 1:
							kv, texts = []interface{}{"b", vb[j].v, "a", va[i].v, "a", vc[j].v}, []string{vb[j].text, va[i].text, vc[j].text}
						default:
							kv, texts = []interface{}{"c", vc[i].v, "\u4e2d1", va[j].v, "b", vb[i].v, "a", va[4].v}, []string{vc[i].text, va[j].text, vb[i].text, va[4].text}
						}
						c.Trans(1)
						if e := one(f, kv, texts); e != "" {
							return e
						}
					}
				}
				return ""
			})
			return
		}
		for _, s := range segments {
			if s == "" && left != n {
				continue
			}
			rec(p+s, left-1)
		}
	}
	for l := 1; l <= n; l++ {
		rec("", l)
	}
}

// ---- the same format again and again with other arguments

type call struct {
	name  string
	kv    []interface{}
	texts []string
}

func calls() []call {
	a, b := values(0), values(1)
	other := func() interface{} {
		type stringer struct{ N, S string } // not the stringer of this package, but of the same name
		return stringer{"x", "y"}
	}()
	return []call{
		{"string", []interface{}{"a", a[0].v}, []string{a[0].text}},
		{"int", []interface{}{"a", a[1].v}, []string{a[1].text}},
		{"bytes", []interface{}{"a", a[2].v}, []string{a[2].text}},
		{"stringer", []interface{}{"a", a[3].v}, []string{a[3].text}},
		{"time", []interface{}{"a", a[4].v}, []string{a[4].text}},
		{"nil", []interface{}{"a", nil}, []string{"null"}},
		{"another string", []interface{}{"a", b[0].v}, []string{b[0].text}},
		{"second", []interface{}{"b", b[1].v, "a", a[6].v}, []string{b[1].text, a[6].text}},
		{"twice", []interface{}{"a", a[10].v, "a", b[1].v}, []string{a[10].text, b[1].text}},
		{"missing", []interface{}{"b", b[1].v}, []string{b[1].text}},
		{"none", nil, nil},
		{"odd", []interface{}{"a"}, nil},
		{"odd tail", []interface{}{"a", a[3].v, "b"}, []string{a[3].text}},
		{"key is no string", []interface{}{1, a[1].v, "a", b[0].v}, []string{a[1].text, b[0].text}},
		{"nil stringer", []interface{}{"a", a[9].v}, []string{a[9].text}},
		{"pointer stringer", []interface{}{"a", a[8].v}, []string{a[8].text}},
		{"no stringer", []interface{}{"a", other}, []string{`{"N":"x","S":"y"}`}},
		{"nil map stringer", []interface{}{"a", a[14].v}, []string{a[14].text}},
		{"map stringer", []interface{}{"a", a[15].v}, []string{a[15].text}},
		{"slice", []interface{}{"a", a[11].v}, []string{a[11].text}},
		{"stringer in steps", []interface{}{"a", stepStringer{"s1"}, "b", stepStringer{"s2"}}, []string{"s1", "s2"}},
	}
}

func histories(c *harn.Ctx) {
	n := 3
	if c.Thorough() {
		n = 4
	}
	all := calls()
	id := 0
	for _, shape := range []string{"%s{a}", "%s{a}{b}.", "%s{a,goTime}", "%s{b}{a}{a}"} {
		seq := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				s := append([]int(nil), seq...)
				id++
				format := fmt.Sprintf(shape, fmt.Sprint(id, ":")) // never used before
				desc := func() string {
					d := fmt.Sprintf("format %q with", format)
					for _, o := range s {
						d += " " + all[o].name + ","
					}
					return d
				}
				c.Case("", desc, func() string {
					c.State(format)
					var f0 msgfmt.Formatter
					for i, o := range s {
						c.Trans(1)
						if i == 0 {
							// as the outputs of countlog do: one formatter for all the events
							f0 = msgfmt.FormatterOf(format, all[o].kv)
						}
						if e := one(format, all[o].kv, all[o].texts); e != "" {
							return e
						}
						want, bad := reference(format, all[o].kv, all[o].texts)
						got := string(f0.Format(nil, all[o].kv))
						if (bad && !strings.HasPrefix(got, invalid)) || (!bad && got != want) {
							return fmt.Sprintf("the formatter made for %s formats %s as %q, expected %q", all[s[0]].name, all[o].name, got, want)
						}
					}
					return ""
				})
				return
			}
			for o := range all {
				seq[i] = o
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// ---- printing values without a format

func println1(c *harn.Ctx) {
	vals := []value{{"x\n", "x\n"}, {1, "1"}, {[]byte("y"), "y"}, {stringer{"z"}, "<z>"}, {nil, "null"}, {when, ""}, {pair{1, "\""}, ""}, {"{a}", "{a}"}}
	seq := []int{}
	var rec func(left int)
	rec = func(left int) {
		s := append([]int(nil), seq...)
		c.Case("", func() string { return fmt.Sprint("Fprintln of values ", s) }, func() string {
			var args []interface{}
			for _, i := range s {
				args = append(args, vals[i].v)
			}
			c.State(fmt.Sprint(s))
			c.Trans(1)
			w := &writer{}
			n, err := msgfmt.Fprintln(w, args...)
			got := strings.Join(w.calls, "|")
			if len(w.calls) != 1 || n != len(got) || err != nil || !strings.HasSuffix(got, "\n") {
				return fmt.Sprintf("wrote %q, %d, %v", w.calls, n, err)
			}
			got = got[:len(got)-1]
			switch len(args) {
			case 0:
				if got != "" {
					return fmt.Sprintf("wrote %q", got)
				}
			case 1:
				want := vals[s[0]].text
				if t, ok := args[0].(time.Time); ok {
					want = t.String()
				} else if want == "" {
					want = `{"A":1,"B":"\""}`
				}
				if got != want {
					return fmt.Sprintf("wrote %q, expected %q", got, want)
				}
			default:
				var back []interface{}
				if err := json.Unmarshal([]byte(got), &back); err != nil || len(back) != len(args) {
					return fmt.Sprintf("wrote %q: %v", got, err)
				}
				for i, a := range args {
					if t, ok := a.(string); ok && back[i] != t || a == nil && back[i] != nil {
						return fmt.Sprintf("wrote %q: value %d is %v", got, i, back[i])
					}
				}
			}
			return ""
		})
		if left == 0 {
			return
		}
		for i := range vals {
			seq = append(seq, i)
			rec(left - 1)
			seq = seq[:len(seq)-1]
		}
	}
	rec(3)
}

// stepWriter writes in two steps
type stepWriter struct{ got string }

func (w *stepWriter) Write(p []byte) (int, error) {
	was := string(p)
	vsched.Point("write1")
	w.got += was
	vsched.Point("write2")
	if string(p) != was {
		w.got += fmt.Sprintf("(changed to %q while it was written)", p)
	}
	return len(p), nil
}

type stepStringer struct{ s string }

func (s stepStringer) String() string {
	vsched.Point("string")
	return s.s
}

// ---- functions registered by the user

type probe struct{ kind string }

func (p probe) FormatterOf(key string, args []string, sample []interface{}) (msgfmt.Formatter, error) {
	for i := range args {
		args[i] = strings.TrimSpace(args[i])
	}
	switch p.kind {
	case "panics":
		panic("no formatter")
	case "fails":
		return nil, errors.New("not for these arguments")
	case "runtime":
		return nil, fmt.Errorf("%v", sample[len(sample)+len(args)])
	}
	return probeFormatter{key, args}, nil
}

type probeFormatter struct {
	key  string
	args []string
}

func (p probeFormatter) Format(space []byte, kv []interface{}) []byte {
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == p.key {
			return append(space, fmt.Sprintf("<%s=%v%q>", p.key, kv[i+1], p.args)...)
		}
	}
	return append(space, fmt.Sprintf("<%s%q>", p.key, p.args)...)
}

func functions(c *harn.Ctx) {
	for _, k := range []string{"probe", "panics", "fails", "runtime", "Pro be", "\u4e2d-!"} {
		msgfmt.Formats[k] = probe{k}
	}
	argLists := [][]string{nil, {""}, {"x"}, {"", ""}, {"x", "y z"}, {"\u4e2d", "", "{"}, {"1", "2", "3", "4", "5"}, {"\"\n-", "x"}, {"\xff"}}
	names := []string{"probe", "panics", "fails", "runtime", "Pro be", "\u4e2d-!", "none", ""}
	keys := []string{"a", "b", "missing"}
	for _, name := range names {
		for _, name2 := range names {
			for ai, args := range argLists {
				for _, key := range keys {
					for _, space := range []string{"", " "} {
						name, name2, ai, args, key, space := name, name2, ai, args, key, space
						c.Case("", func() string {
							return fmt.Sprintf("functions %q and %q of %s with arguments %q", name, name2, key, args)
						}, func() string {
							other := argLists[(ai+1)%len(argLists)]
							part := func(key, name string, args []string) string {
								s := "{" + space + key + "," + space + name
								for _, a := range args {
									s += "," + space + a
								}
								return s + "}"
							}
							format := "1" + part(key, name, args) + "2" + part("b", name2, other) + "{a}3"
							bad := false
							text := func(key, name string, args []string) string {
								switch name {
								case "probe", "Pro be", "\u4e2d-!":
								default:
									bad = true
								}
								v := map[string]string{"a": "=17", "b": "=text"}[key]
								return fmt.Sprintf("<%s%s%q>", key, v, args)
							}
							want := "1" + text(key, name, args) + "2" + text("b", name2, other) + "173"
							for i := 0; i < 2; i++ {
								c.Trans(1)
								got := msgfmt.Sprintf(format, "a", 17, "b", "text")
								if bad && !strings.HasPrefix(got, invalid) {
									return fmt.Sprintf("Sprintf(%q) gives %q, expected it to be reported as invalid", format, got)
								}
								if !bad && got != want {
									return fmt.Sprintf("Sprintf(%q) gives %q, expected %q", format, got, want)
								}
							}
							c.State(format)
							return ""
						})
					}
				}
			}
		}
	}
}

// ---- Printf and Println write to the standard output what Fprintf and Fprintln write

func stdout(c *harn.Ctx) {
	cs := calls()
	for i := range cs {
		for _, format := range []string{"{a}", "x{b}{a}\n", "", "{a"} {
			for kind := 0; kind < 3; kind++ {
				i, format, kind := i, format, kind
				c.Case("", func() string {
					return []string{"Printf", "Println of the values", "Println of nothing"}[kind] + fmt.Sprintf(" %q %s", format, cs[i].name)
				}, func() string {
					name := filepath.Join(c.Scratch(), "stdout")
					f, err := os.Create(name)
					if err != nil {
						return err.Error()
					}
					real, shim := os.Stdout, shimos.Stdout
					os.Stdout, shimos.Stdout = f, &shimos.File{File: f}
					var want bytes.Buffer
					var n, n2 int
					var err2 error
					var kv []interface{}
					if kind < 2 {
						kv = cs[i].kv
					}
					if kind == 0 {
						n, err = msgfmt.Printf(format, kv...)
						n2, err2 = msgfmt.Fprintf(&want, format, kv...)
					} else {
						n, err = msgfmt.Println(kv...)
						n2, err2 = msgfmt.Fprintln(&want, kv...)
					}
					os.Stdout, shimos.Stdout = real, shim
					f.Close()
					c.Trans(1)
					got, _ := os.ReadFile(name)
					if string(got) != want.String() || n != n2 || err != err2 || n != len(got) {
						return fmt.Sprintf("the standard output got %q (%d, %v), a writer %q (%d, %v)", got, n, err, want.String(), n2, err2)
					}
					c.State(string(got))
					return ""
				})
			}
		}
	}
}

// ---- concurrently: the same format never seen before, other types

func concurrent(pre int) func(c *harn.Ctx) {
	return func(c *harn.Ctx) { concurrentWith(c, pre) }
}

func concurrentWith(c *harn.Ctx, pre int) {
	if c.Thorough() {
		pre++
	}
	all := calls()
	pick := []int{0, 1, 2, 4, 7, 9, 11, len(all) - 1}
	id := 0
	for x, i := range pick {
		for _, j := range pick[x:] {
			i, j := i, j
			name := all[i].name + " / " + all[j].name
			c.Explore(name, "", harn.Bounds(pre, 0, 0, 0), vsched.Options{}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
				id++
				format := fmt.Sprintf("%d#{a}", id)
				got := make([]vsched.Journal, 2)
				return func() {
						var hs []*vsched.ThreadHandle
						for g, o := range []int{i, j} {
							g, o := g, o
							hs = append(hs, vsched.Go(func() {
								w := &stepWriter{}
								if _, err := msgfmt.Fprintf(w, format, all[o].kv...); err != nil {
									got[g].Add(err.Error())
								}
								got[g].Add(w.got)
								got[g].Add(msgfmt.Sprintf(format, all[o].kv...))
							}))
						}
						for _, h := range hs {
							h.Join()
						}
					}, func(out *vsched.Outcome) vsched.Verdict {
						v := ""
						obs := ""
						for g, o := range []int{i, j} {
							want, bad := reference(format, all[o].kv, all[o].texts)
							items := got[g].Items()
							obs += fmt.Sprint(items)
							for _, s := range items {
								if (bad && !strings.HasPrefix(s, invalid)) || (!bad && s != want) {
									v = fmt.Sprintf("%s: got %q, expected %q", all[o].name, s, want)
								}
							}
							if len(items) != 2 && v == "" {
								v = fmt.Sprintf("%s: got %q", all[o].name, items)
							}
						}
						if out.End != "" {
							v = "execution ended abnormally: " + out.End
						}
						return vsched.Verdict{Obs: out.End, Violation: v}
					}
			})
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C10", Level: "model_checking", StateMeaning: "distinct formats and argument sequences; transitions are calls",
		Bounds: func(tier string) string {
			n, m, h := 5, 4, 3
			if tier == "thorough" {
				n, m, h = 6, 5, 4
			}
			return fmt.Sprintf("all formats of up to %d of 12 tokens, of up to %d of 10 segments x 18 value types x 3 argument orders; all sequences of %d out of 20 calls with the same new format x 4 formats; pairs of 8 (some failing) registered functions x 9 argument lists; standard output; two goroutines using a new format with all pairs of 8 argument lists, values and writers of several steps, 3 preemptions (thorough 4), and 2 (3) with race detection", n, m, h)
		},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{{Name: "formats", Shards: 8, Run: formats}, {Name: "variables", Shards: 8, Run: variables}, {Name: "histories", Shards: 8, Run: histories}, {Name: "memory", Shards: 2, Run: memory}, {Name: "println", Shards: 1, Run: println1}, {Name: "functions", Run: functions}, {Name: "stdout", Run: stdout}, {Name: "concurrent", Shards: 8, Run: concurrent(3)}, {Name: "concurrent, race detection", Shards: 4, Run: concurrent(2), Race: true}}
		},
	})
}

// deep runs f with a lot of stack in use
func deep(n int, f func()) byte {
	var pad [1024]byte
	pad[n%len(pad)] = byte(n)
	if n == 0 {
		f()
		return pad[0]
	}
	return deep(n-1, f) + pad[n%len(pad)]
}

// grower moves the stack of the caller, and has the memory collected, while it is formatted
type grower struct{ n int }

func (g grower) String() string {
	deep(g.n, collect)
	return fmt.Sprint("grown ", g.n)
}

type growMarshaler struct{ n int }

func (g growMarshaler) MarshalJSON() ([]byte, error) {
	deep(g.n, collect)
	return []byte(fmt.Sprint(g.n)), nil
}

// growFormat grows the stack while the format is parsed
type growFormat struct{}

func (growFormat) FormatterOf(key string, args []string, sample []interface{}) (msgfmt.Formatter, error) {
	n, _ := strconv.Atoi(strings.TrimSpace(args[0]))
	deep(n, collect)
	return growFormatter{}, nil
}

type growFormatter struct{}

func (growFormatter) Format(space []byte, kv []interface{}) []byte {
	return append(space, "grown"...)
}

var fresh int

// collect has what was garbage given back
func collect() {
	runtime.GC()
	runtime.GC()
}

type growWriter struct {
	n   int
	got string
}

func (w *growWriter) Write(b []byte) (int, error) {
	deep(w.n, collect)
	w.got += string(b)
	return len(b), nil
}

// memory: the arguments are on the stack of a goroutine whose stack grows while it formats; a bad pointer kills the process
func memory(c *harn.Ctx) {
	for _, depth := range []int{0, 1, 3, 10, 30, 100, 300} {
		for _, from := range []int{0, 2, 20} {
			for kind := 0; kind < 10; kind++ {
				depth, from, kind := depth, from, kind
				c.Case("", func() string {
					return fmt.Sprintf("function %d called from a stack of %d kB that grows by %d kB meanwhile", kind, from, depth)
				}, func() string {
					c.Trans(1)
					var got, want string
					done := make(chan bool)
					go func() {
						defer close(done)
						deep(from, func() {
							n := depth + 1000
							switch kind {
							case 0:
								got = msgfmt.Sprintf("{g} {n} {s}", "g", grower{depth}, "n", n, "s", "text")
								want = fmt.Sprintf("grown %d %d text", depth, n)
							case 1:
								w := &growWriter{n: depth}
								msgfmt.Fprintf(w, "{g} {n} {s}", "g", grower{depth}, "n", n, "s", "text")
								got, want = w.got, fmt.Sprintf("grown %d %d text", depth, n)
							case 2:
								w := &growWriter{n: depth}
								msgfmt.Fprintln(w, grower{depth})
								got, want = w.got, fmt.Sprintf("grown %d\n", depth)
							case 3:
								got = msgfmt.Sprintf("{n} {g}", "n", n, "g", &grower{depth})
								want = fmt.Sprintf("%d grown %d", n, depth)
							case 4:
								w := &growWriter{n: depth}
								msgfmt.Fprintln(w, n)
								got, want = w.got, fmt.Sprintf("%d\n", n)
							case 8:
								msgfmt.Formats["grow"] = growFormat{}
								fresh++
								got = msgfmt.Sprintf(fmt.Sprintf("{n, grow, %d} {n} %d", depth, fresh), "n", n)
								want = fmt.Sprintf("grown %d %d", n, fresh)
							case 9:
								msgfmt.Formats["grow"] = growFormat{}
								fresh++
								w := &growWriter{n: depth}
								msgfmt.Fprintf(w, fmt.Sprintf("{n, grow, %d} {n} %d", depth, fresh), "n", n)
								got, want = w.got, fmt.Sprintf("grown %d %d", n, fresh)
							case 5:
								w := &growWriter{n: depth}
								msgfmt.Fprintln(w, n, growMarshaler{depth}, depth)
								got, want = w.got, fmt.Sprintf("[%d,%d,%d]\n", n, depth, depth)
							case 6:
								got = msgfmt.Sprintf("{l} {n}", "l", []interface{}{n, growMarshaler{depth}, depth}, "n", n)
								want = fmt.Sprintf("[%d,%d,%d] %d", n, depth, depth, n)
							case 7:
								w := &growWriter{n: depth}
								msgfmt.Fprintln(w, growMarshaler{depth}, [3]int{n, n, n}, n)
								got, want = w.got, fmt.Sprintf("[%d,[%d,%d,%d],%d]\n", depth, n, n, n, n)
							}
						})
					}()
					<-done
					runtime.GC()
					if got != want {
						return fmt.Sprintf("got %q, expected %q", got, want)
					}
					return ""
				})
			}
		}
	}
}
