// C09: every record shows exactly its event: level, message, error, context,
// properties and place, whatever was logged before under its name or at the
// same time.
package main

import (
	"bytes"
	"context"
	stdjson "encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"github.com/v2pro/plz/msgfmt"

	"verif/harn"
	vsync "verif/shim/sync"
	"verif/vsched"
)

// ---- values with their texts ----

type stringer struct{ N int }

func (s stringer) String() string { return fmt.Sprint("<", s.N, ">") }

type pstringer struct{ N int }

func (s *pstringer) String() string { return fmt.Sprint("<<", s.N, ">>") }

type pair struct {
	A int
	B string
}

type value struct {
	v    interface{}
	text string // as text
	json string // as JSON
}

var when = time.Date(2020, 2, 3, 4, 5, 6, 7000000, time.UTC)
var nine = 9

var values = []value{
	{7, "7", "7"}, {-12345678901, "-12345678901", "-12345678901"}, {uint8(200), "200", "200"},
	{"str", "str", `"str"`}, {"q\"\n{k}", "q\"\n{k}", `"q\"\n{k}"`}, {"", "", `""`},
	{nil, "null", "null"}, {[]byte("by\x01te"), `by\x01te`, `"by\\x01te"`},
	{errors.New("e1"), `"e1"`, `"e1"`}, {stringer{3}, "<3>", `{"N":3}`}, {&pstringer{4}, "<<4>>", `{"N":4}`},
	{when, when.String(), `"2020-02-03T04:05:06.007Z"`}, {true, "true", "true"}, {1.5, "1.5", "1.5"},
	{[]int{1, 2}, "[1,2]", "[1,2]"}, {[]string(nil), "[]", "[]"}, {pair{1, "b"}, `{"A":1,"B":"b"}`, `{"A":1,"B":"b"}`},
	{&pair{2, "c"}, `{"A":2,"B":"c"}`, `{"A":2,"B":"c"}`}, {map[string]int{"m": 5}, `{"m":5}`, `{"m":5}`},
	{&nine, "9", "9"}, {[]interface{}{1, "x", nil}, `[1,"x",null]`, `[1,"x",null]`}, {[1]*int{&nine}, "[9]", "[9]"}, {"ü|\\", "ü|\\", `"ü|\\"`},
	{nestErr{}, `"nest"`, `"nest"`}, {nestStr{7}, "<7>", `{"N":7}`},
	{twins()[0], `{"B":["t"],"C":1}`, `{"B":["t"],"C":1}`}, {twins()[1], `{"X":"u","N":"v"}`, `{"X":"u","N":"v"}`},
}

// twins are of types with the names of others above
func twins() []interface{} {
	type pair struct {
		B []string
		C int
	}
	type stringer struct{ X, N string }
	return []interface{}{pair{[]string{"t"}, 1}, stringer{"u", "v"}}
}

const (
	vInt = iota
	vNeg
	vByte
	vStr
	vQuote
	vEmpty
	vNil
	vBytes
	vErr
	vStringer
	vPStringer
	vTime
	vTrue
	vFloat
	vInts
	vNilStrs
	vPair
	vPPair
	vMap
	vPInt
	vList
	vArr
	vOdd
	vNestErr
	vNestStr
	vTwinPair
	vTwinStringer
)

// values whose texts come from code that logs events itself
type nestErr struct{}

func (nestErr) Error() string { nest(); return "nest" }

type nestStr struct{ N int }

func (s nestStr) String() string { nest(); return fmt.Sprint("<", s.N, ">") }

var onNest []func()

// nest runs the next nested action
func nest() {
	if len(onNest) > 0 {
		f := onNest[0]
		onNest = onNest[1:]
		f()
	}
}

// prop is a property: its name, and the index of its value, or a special one
type prop struct {
	name  interface{}
	text  string // of the name
	v     int
	timer bool // a time in nanoseconds
	none  bool // a name without value
}

func p(name string, v int) prop { return prop{name: name, text: name, v: v} }

type plist []prop

var lists = func() (r []plist) {
	r = append(r, plist{})
	for v := range values[:vNestErr] {
		r = append(r, plist{p("k", v)})
	}
	r = append(r,
		plist{p("a", vInt), p("k", vStr)}, plist{p("k", vStr), p("a", vInt)}, plist{p("k", vInt), p("a", vStr)}, plist{p("a", vStr), p("k", vInt)},
		plist{p("a", vNil), p("k", vPair), p("z", vTime)}, plist{p("z", vTime), p("a", vPair), p("k", vNil)},
		plist{p("other", vInt)}, plist{p("other", vStr)},
		plist{p("k", vStr), {name: "timer", text: "timer", timer: true}}, plist{{name: "timer", text: "timer", timer: true}, p("k", vStr)},
		plist{p("timer", vStr), p("k", vInt)}, plist{p("k", vInt), p("timer", vInt)},
		plist{p("k", vInt), {name: "lost", text: "lost", none: true}},
		plist{p("with space and \"quotes\"", vInt), p("k", vStr)}, plist{p("{k}", vInt), p("k", vStr)}, plist{p("", vInt), p("k", vStr)},
		plist{{name: 5, text: "5", v: vStr}, p("k", vInt)}, plist{{name: stringer{1}, text: "<1>", v: vInt}, p("k", vPair)}, plist{p("k", vStr), {name: 5, text: "5", v: vInt}},
		plist{p("single_value", vInt), p("value", vStr), p("k", vStr)},
		plist{p("k", vTwinPair)}, plist{p("k", vTwinStringer)},
		plist{p("a", vStr), p("b", vInt), p("c", vStr), p("d", vInt), p("e", vNil), p("k", vStr)}, plist{p("a", vStr), p("b", vInt), p("c", vStr), p("x", vInt), p("e", vNil), p("k", vStr)},
		plist{p("a", vStr), p("b", vInt), p("c", vStr), p("d", vInt), p("e", vNil), p("k", vInt)}, plist{p("a", vStr), p("b", vInt), p("c", vStr), p("d", vInt), p("k", vNil), p("e", vStr)},
	)
	return
}()

func (l plist) args(now int64) (r []interface{}) {
	for _, x := range l {
		r = append(r, x.name)
		switch {
		case x.none:
		case x.timer:
			r = append(r, now)
		default:
			r = append(r, values[x.v].v)
		}
	}
	return
}

// get finds the value that {name} stands for
func (l plist) get(name string) (int, bool) {
	for _, x := range l {
		if x.name == name && !x.none && !x.timer {
			return x.v, true
		}
	}
	return 0, false
}

// ---- ways to log ----

type fn struct {
	name  string
	level int
	call  bool
	ctx   bool
	// f returns the line it logged from
	f func(ctx *countlog.Context, event string, err error, ps []interface{}) (int, error)
}

func here() int {
	_, _, line, _ := runtime.Caller(1)
	return line
}

type C = *countlog.Context
type A = []interface{}

var fns = []fn{
	{"Info", 30, false, false, func(c C, e string, err error, ps A) (int, error) { countlog.Info(e, ps...); return here(), nil }},
	{"Warn", 40, false, false, func(c C, e string, err error, ps A) (int, error) { countlog.Warn(e, ps...); return here(), nil }},
	{"InfoCall", 30, true, false, func(c C, e string, err error, ps A) (int, error) {
		return here(), countlog.InfoCall(e, err, ps...)
	}},
	{"ctx.Debug", 20, false, true, func(c C, e string, err error, ps A) (int, error) { c.Debug(e, ps...); return here(), nil }},
	{"ctx.Error", 50, false, true, func(c C, e string, err error, ps A) (int, error) { c.Error(e, ps...); return here(), nil }},
	{"ctx.LogAccess", 30, true, true, func(c C, e string, err error, ps A) (int, error) { return here(), c.LogAccess(e, err, ps...) }},
	{"Trace", 10, false, false, func(c C, e string, err error, ps A) (int, error) { countlog.Trace(e, ps...); return here(), nil }},
	{"Debug", 20, false, false, func(c C, e string, err error, ps A) (int, error) { countlog.Debug(e, ps...); return here(), nil }},
	{"Error", 50, false, false, func(c C, e string, err error, ps A) (int, error) { countlog.Error(e, ps...); return here(), nil }},
	{"Fatal", 60, false, false, func(c C, e string, err error, ps A) (int, error) { countlog.Fatal(e, ps...); return here(), nil }},
	{"Log(Warn)", 40, false, false, func(c C, e string, err error, ps A) (int, error) { countlog.Log(40, e, ps...); return here(), nil }},
	{"Log(InfoCall)", 25, false, false, func(c C, e string, err error, ps A) (int, error) { countlog.Log(25, e, ps...); return here(), nil }},
	{"TraceCall", 10, true, false, func(c C, e string, err error, ps A) (int, error) { return here(), countlog.TraceCall(e, err, ps...) }},
	{"DebugCall", 20, true, false, func(c C, e string, err error, ps A) (int, error) { return here(), countlog.DebugCall(e, err, ps...) }},
	{"ctx.Trace", 10, false, true, func(c C, e string, err error, ps A) (int, error) { c.Trace(e, ps...); return here(), nil }},
	{"ctx.Info", 30, false, true, func(c C, e string, err error, ps A) (int, error) { c.Info(e, ps...); return here(), nil }},
	{"ctx.Warn", 40, false, true, func(c C, e string, err error, ps A) (int, error) { c.Warn(e, ps...); return here(), nil }},
	{"ctx.Fatal", 60, false, true, func(c C, e string, err error, ps A) (int, error) { c.Fatal(e, ps...); return here(), nil }},
	{"ctx.TraceCall", 10, true, true, func(c C, e string, err error, ps A) (int, error) { return here(), c.TraceCall(e, err, ps...) }},
	{"ctx.DebugCall", 20, true, true, func(c C, e string, err error, ps A) (int, error) { return here(), c.DebugCall(e, err, ps...) }},
	{"ctx.InfoCall", 30, true, true, func(c C, e string, err error, ps A) (int, error) { return here(), c.InfoCall(e, err, ps...) }},
}

var levelNames = map[int]string{5: "TRACE", 10: "TRACE", 15: "DEBUG", 20: "DEBUG", 25: "INFO", 30: "INFO", 40: "WARN", 50: "ERROR", 60: "FATAL"}

type nilErr struct{}

func (*nilErr) Error() string { return "error of nil" }

var errs = []error{nil, errors.New("cause \"1\""), errors.New(""), (*nilErr)(nil)}

// names of events: how they are shown by hrf, compact and as a message
type style struct {
	name  func(n int) string
	hrf   func(n int, l plist) string
	compt func(n int, l plist) string
	msg   func(n int, l plist) string
}

func konst(f string) func(n int, l plist) string {
	return func(n int, l plist) string { return fmt.Sprintf(f, n) }
}

func templ(n int, l plist) string {
	if v, ok := l.get("k"); ok {
		return fmt.Sprintf("tpl %d <%s> end", n, values[v].text)
	}
	return ""
}

var styles = []style{
	{func(n int) string { return fmt.Sprintf("event!some name %d", n) }, konst("some name %d"), konst("some name %d"), konst("event!some name %d")},
	{func(n int) string { return fmt.Sprintf("callee!callee%d", n) }, konst("callee%d"), konst("call callee%d"), konst("callee!callee%d")},
	{func(n int) string { return fmt.Sprintf("plain %d text", n) }, konst("plain %d text"), konst("plain %d text"), konst("plain %d text")},
	{func(n int) string { return fmt.Sprintf("tpl %d <{k}> end", n) }, templ, templ, templ},
}

// ---- what records look like ----

// segments of a record; "" stands for any text
const any = "\x00any"

const invalid = "%! (INVALID FORMAT) "

func match(rec string, segs []string) string {
	pos := 0
	for i := 0; i < len(segs); i++ {
		if segs[i] == any {
			next := ""
			for i+1 < len(segs) && segs[i+1] != any {
				next += segs[i+1]
				i++
			}
			at := strings.Index(rec[pos:], next)
			if at < 0 {
				return fmt.Sprintf("%q is missing after %q", next, rec[:pos])
			}
			pos += at + len(next)
			if i+1 == len(segs) && pos != len(rec) {
				return fmt.Sprintf("%q is too much", rec[pos:])
			}
			continue
		}
		if !strings.HasPrefix(rec[pos:], segs[i]) {
			return fmt.Sprintf("%q is missing after %q", segs[i], rec[:pos])
		}
		pos += len(segs[i])
	}
	if pos != len(rec) {
		return fmt.Sprintf("%q is too much", rec[pos:])
	}
	return ""
}

// stripColors drops the terminal escapes
func stripColors(s string) string {
	if !strings.Contains(s, "\x1b[") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			j := i + 2
			for j < len(s) && (s[j] == ';' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			if j < len(s) && s[j] == 'm' {
				i = j
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// event is one event to be logged
type event struct {
	f     int
	list  int
	err   int
	ctx   plist
	style int
}

func (e event) String() string {
	s := fns[e.f].name
	for _, x := range lists[e.list] {
		switch {
		case x.timer:
			s += fmt.Sprintf(" %q: a time", x.text)
		case x.none:
			s += fmt.Sprintf(" %q without a value", x.text)
		default:
			s += fmt.Sprintf(" %q: %T %s", x.text, values[x.v].v, values[x.v].json)
		}
	}
	if fns[e.f].call {
		s += fmt.Sprintf(" error %v", errs[e.err])
	}
	for _, x := range e.ctx {
		s += fmt.Sprintf(" (context %q: %s)", x.text, values[x.v].json)
	}
	return s
}

type logged struct {
	e          event
	name       string
	n          int
	before     time.Time
	after      time.Time
	timerStart int64
	lines      map[int]bool // where events of this name were logged from
}

func (g *logged) level() int {
	f := fns[g.e.f]
	if f.call && errs[g.e.err] != nil {
		if f.name == "ctx.LogAccess" {
			return 50
		}
		return 40
	}
	return f.level
}

func (g *logged) errText() (string, bool) {
	if !fns[g.e.f].call || errs[g.e.err] == nil {
		return "", false
	}
	return errs[g.e.err].Error(), true
}

func propSegs(l plist, pre, mid, post string, timers bool) (segs []string) {
	for _, x := range l {
		segs = append(segs, pre+x.text+mid)
		switch {
		case x.none:
			segs = append(segs, invalid, any)
		case x.timer:
			segs = append(segs, any)
		default:
			segs = append(segs, values[x.v].text)
		}
		segs = append(segs, post)
	}
	return
}

// location checks the place shown
func (g *logged) location(loc string) string {
	for l := range g.lines {
		suffix := fmt.Sprintf("main.go:%d", l)
		if strings.HasPrefix(loc, "main.") && strings.HasSuffix(loc, suffix) && strings.Contains(loc, " @ ") {
			return ""
		}
	}
	return fmt.Sprintf("the location is %q, logged from lines %v", loc, g.lines)
}

func (g *logged) checkHrf(rec string, stamp bool) string {
	rec = stripColors(rec)
	msg := styles[g.e.style].hrf(g.n, lists[g.e.list])
	segs := []string{"[" + levelNames[g.level()] + "] ", msg}
	if msg == "" {
		segs = append(segs, invalid, any)
	}
	if stamp {
		segs = append(segs, "\ntimestamp: ", any)
	}
	if t, ok := g.errText(); ok && t != "" {
		segs = append(segs, "\nerror: "+t)
	}
	if fns[g.e.f].ctx {
		segs = append(segs, propSegs(g.e.ctx, "\n", ": ", "", true)...)
	}
	segs = append(segs, propSegs(lists[g.e.list], "\n", ": ", "", true)...)
	loc := ""
	if g.level() >= 40 {
		i := strings.LastIndex(rec, "\nlocation: ")
		if i < 0 || !strings.HasSuffix(rec, "\n") {
			return "the location is missing"
		}
		loc = rec[i+len("\nlocation: ") : len(rec)-1]
		rec = rec[:i] + "\n"
	}
	segs = append(segs, "\n")
	if s := match(rec, segs); s != "" {
		return s
	}
	if loc != "" {
		if s := g.location(loc); s != "" {
			return s
		}
	}
	for _, x := range lists[g.e.list] {
		if x.timer {
			i := strings.Index(rec, "\ntimer: ")
			t := rec[i+len("\ntimer: "):]
			d, err := time.ParseDuration(t[:strings.IndexByte(t, '\n')])
			if err != nil || d < time.Duration(g.before.UnixNano()-g.timerStart) || d > time.Duration(g.after.UnixNano()-g.timerStart) {
				return fmt.Sprintf("the timer shows %v", d)
			}
		}
	}
	return ""
}

func (g *logged) checkCompact(rec string) string {
	head := "[" + levelNames[g.level()] + "] ["
	if !strings.HasPrefix(rec, head) {
		return fmt.Sprintf("the record starts with %.30q instead of %q", rec, head)
	}
	rest := rec[len(head):]
	i := strings.IndexByte(rest, ']')
	if i < 0 {
		return "no time"
	}
	t, err := time.Parse(time.RFC3339, rest[:i])
	if err != nil || t.Before(g.before.Truncate(time.Second)) || t.After(g.after) {
		return fmt.Sprintf("the time is %v, logged between %v and %v", rest[:i], g.before, g.after)
	}
	rest = rest[i+1:]
	i = strings.Index(rest, "] ")
	if !strings.HasPrefix(rest, "[") || i < 0 {
		return fmt.Sprintf("no location at %.40q", rest)
	}
	if s := g.location(rest[1:i]); s != "" {
		return s
	}
	rest = rest[i+2:]
	msg := styles[g.e.style].compt(g.n, lists[g.e.list])
	segs := []string{msg}
	if msg == "" {
		segs = append(segs, invalid, any)
	}
	if t, ok := g.errText(); ok && t != "" {
		segs = append(segs, " error:"+t)
	}
	segs = append(segs, propSegs(lists[g.e.list], "||", "=", "", false)...)
	segs = append(segs, "\n")
	if s := match(rest, segs); s != "" {
		return s
	}
	for _, x := range lists[g.e.list] {
		if x.timer && !strings.Contains(rest, fmt.Sprintf("||timer=%d", g.timerStart)) {
			return "the value of the timer is missing"
		}
	}
	return ""
}

func (g *logged) checkJSON(rec string) string {
	if !strings.HasSuffix(rec, "\n") || strings.Count(rec, "\n") != 1 {
		return fmt.Sprintf("%q is not one line", rec)
	}
	want := map[string]string{"event": quote(g.name)}
	for _, x := range lists[g.e.list] {
		switch {
		case x.none:
			want[x.text] = "null"
		case x.timer:
			want[x.text] = fmt.Sprint(g.timerStart)
		default:
			want[x.text] = values[x.v].json
		}
	}
	if t, ok := g.errText(); ok {
		want["error"] = quote(t)
	}
	dec := stdjson.NewDecoder(strings.NewReader(rec))
	t, err := dec.Token()
	if err != nil || t != stdjson.Delim('{') {
		return fmt.Sprintf("not JSON: %v", err)
	}
	got := map[string]string{}
	for dec.More() {
		t, err := dec.Token()
		if err != nil {
			return fmt.Sprintf("not JSON: %v", err)
		}
		var raw stdjson.RawMessage
		if err := dec.Decode(&raw); err != nil {
			return fmt.Sprintf("not JSON: %v", err)
		}
		k := t.(string)
		if _, twice := got[k]; twice {
			return fmt.Sprintf("%q is there twice", k)
		}
		got[k] = string(raw)
	}
	if _, err := dec.Token(); err != nil || strings.TrimSpace(rest(dec)) != "" {
		return "not one JSON document"
	}
	var loc string
	stdjson.Unmarshal([]byte(got["location"]), &loc)
	if s := g.location(loc); s != "" {
		return s
	}
	var ts int64
	if err := stdjson.Unmarshal([]byte(got["timestamp"]), &ts); err != nil || ts < g.before.UnixNano() || ts > g.after.UnixNano() {
		return fmt.Sprintf("the timestamp is %s", got["timestamp"])
	}
	delete(got, "location")
	delete(got, "timestamp")
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		raw, ok := got[k]
		if !ok {
			return fmt.Sprintf("%q is missing", k)
		}
		if raw != want[k] {
			var a, b interface{}
			stdjson.Unmarshal([]byte(raw), &a)
			stdjson.Unmarshal([]byte(want[k]), &b)
			if !reflect.DeepEqual(a, b) {
				return fmt.Sprintf("%q is %s instead of %s", k, raw, want[k])
			}
		}
		delete(got, k)
	}
	if len(got) != 0 {
		return fmt.Sprintf("too much: %v", got)
	}
	return ""
}

func rest(d *stdjson.Decoder) string {
	var b bytes.Buffer
	b.ReadFrom(d.Buffered())
	return b.String()
}

func quote(s string) string {
	b, _ := stdjson.Marshal(s)
	return string(b)
}

const layout = "{level}~{event}~{func}~{file}~{line}~{timestamp, goTime, 2006-01-02T15:04:05.999999999Z07:00}~{message}"

func (g *logged) checkPrintf(rec string) string {
	f := strings.SplitN(rec, "~", 7)
	if len(f) != 7 {
		return "fields are missing"
	}
	if f[0] != levelNames[g.level()] {
		return fmt.Sprintf("the level is %q instead of %q", f[0], levelNames[g.level()])
	}
	if f[1] != g.name {
		return fmt.Sprintf("the event is %q instead of %q", f[1], g.name)
	}
	if s := g.location(f[2] + " @ " + f[3] + ":" + f[4]); s != "" {
		return s
	}
	t, err := time.Parse(time.RFC3339Nano, f[5])
	if err != nil || t.Before(g.before.Round(0)) || t.After(g.after.Round(0)) {
		return fmt.Sprintf("the time is %q", f[5])
	}
	msg := styles[g.e.style].msg(g.n, lists[g.e.list])
	segs := []string{escape(msg)}
	if msg == "" {
		segs = append(segs, invalid, any)
	}
	return match(f[6], append(segs, "\n"))
}

// escape is how a layout shows a message: like bytes
func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch x := s[i]; {
		case x == '\n':
			b.WriteString(`\n`)
		case x == '\\':
			b.WriteString(`\\`)
		case x < ' ' || x >= 0x80 || x == '|':
			fmt.Fprintf(&b, `\x%02x`, x)
		default:
			b.WriteByte(x)
		}
	}
	return b.String()
}

type format struct {
	name  string
	f     output.Format
	check func(g *logged, rec string) string
}

var formats = []format{
	{"hrf", &hrf.Format{}, func(g *logged, rec string) string { return g.checkHrf(rec, false) }},
	{"compact", &compact.Format{}, (*logged).checkCompact},
	{"json", &json.JsonFormat{}, (*logged).checkJSON},
	{"printf", &printf.Format{Layout: layout}, (*logged).checkPrintf},
	{"hrf with time", &hrf.Format{ShowTimestamp: true}, func(g *logged, rec string) string { return g.checkHrf(rec, true) }},
}

// ---- histories ----

type chunks struct{ got []string }

func (c *chunks) Write(b []byte) (int, error) {
	c.got = append(c.got, string(b))
	return len(b), nil
}

var serial int

func history(c *harn.Ctx, fm format, hist []event) (func() string, func() string) {
	return historyOf(c, fm, hist, nil)
}

// historyOf logs the events; the writer panics while it writes those of troubles, which may be lost.
func historyOf(c *harn.Ctx, fm format, hist []event, troubles map[int]int) (func() string, func() string) {
	return func() string {
			s := fm.name + " format, event name " + styles[hist[0].style].name(0)
			for i, e := range hist {
				s += fmt.Sprintf("; event %d: %s", i+1, e)
				if troubles[i] > 0 {
					s += fmt.Sprintf(" (the writer panics %d times)", troubles[i])
				}
			}
			return s
		}, func() string {
			c.Trans(len(hist))
			serial++
			if serial%100 == 0 {
				vsync.Rewind() // there are too many names to keep them all
			}
			spi.MinLevel, spi.MinCallLevel = 5, 10
			var complaint error
			loglog.Error = func(err error) { complaint = err }
			out := &troubled{}
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: fm.f, Writer: out})
			countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{})
			lines := map[int]bool{}
			for i, e := range hist {
				g := &logged{e: e, name: styles[e.style].name(serial), n: serial, lines: lines}
				ctx := countlog.Ctx(context.Background())
				for k, x := range e.ctx {
					if k%2 == 0 {
						ctx.Add(x.text, values[x.v].v)
					} else {
						spi.AddLogContext(context.WithValue(ctx, "x", "y"), x.text, values[x.v].v)
					}
				}
				out.got = nil
				for k := 0; k < troubles[i]; k++ {
					out.faults = append(out.faults, fPanic)
				}
				g.before = time.Now()
				g.timerStart = g.before.UnixNano() - 1500000
				args := lists[e.list].args(g.timerStart)
				var err error
				if fns[e.f].call {
					err = errs[e.err]
				}
				line, _ := fns[e.f].f(ctx, g.name, err, args)
				g.after = time.Now()
				lines[line] = true
				if troubles[i] > 0 {
					out.faults, complaint = nil, nil
					continue
				}
				if len(out.got) != 1 {
					return fmt.Sprintf("event %d was written %d times", i+1, len(out.got))
				}
				if complaint != nil {
					return fmt.Sprintf("event %d: %v", i+1, complaint)
				}
				if s := fm.check(g, out.got[0]); s != "" {
					return fmt.Sprintf("event %d is shown as %q: %s", i+1, out.got[0], s)
				}
				// what was passed belongs to the caller
				for k := range args {
					args[k] = "reused by the caller"
				}
			}
			return ""
		}
}

var ctxLists = []plist{{}, {p("c", vInt)}, {p("c", vStr)}, {p("c", vStr), p("d", vPair)}, {p("d", vPair), p("c", vNil)}, {p("{k}", vTime), p("c", vInt), p("k", vStr)}}

func singles(c *harn.Ctx) {
	for i, fm := range formats {
		for f := range fns {
			for s := range styles {
				for l := range lists {
					for e := range errs {
						for x := range ctxLists {
							if !fns[f].call && e > 0 || !fns[f].ctx && x > 0 {
								continue
							}
							key := [6]int{i, f, s, l, e, x}
							desc, run := history(c, fm, []event{{f, l, e, ctxLists[x], s}})
							c.Case("", desc, func() string {
								c.State(fmt.Sprint(key))
								return run()
							})
						}
					}
				}
			}
		}
	}
}

// variants of events for histories
func variants(fs, ls []int, full bool) (r []event) {
	for _, f := range fs {
		for _, l := range ls {
			for e := 0; e < 2; e++ {
				if !fns[f].call && e > 0 {
					continue
				}
				xs := []int{0}
				if fns[f].ctx {
					xs = []int{0, 1, 3}
					if full {
						xs = []int{0, 1, 2, 3, 4, 5}
					}
				}
				for _, x := range xs {
					if x > 1 && !full && l%3 != 0 {
						continue
					}
					r = append(r, event{f, l, e, ctxLists[x], 0})
				}
			}
		}
	}
	return
}

func all(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

func pairs(c *harn.Ctx) {
	fs, step := []int{0, 2, 4}, 2
	if c.Thorough() {
		fs, step = []int{0, 1, 2, 3, 4, 5}, 1
	}
	vs := variants(fs, all(len(lists)), false)
	n := 0
	for _, fm := range formats {
		for s := range styles {
			for i, a := range vs {
				for j, b := range vs {
					if step > 1 && a.f != b.f && (i+j)%step != 0 {
						continue
					}
					n++
					a, b := a, b
					a.style, b.style = s, s
					h := []event{a, b}
					if (i+j)%2 == 0 {
						h = []event{a, b, a}
					}
					desc, run := history(c, fm, h)
					c.Case("", desc, run)
				}
			}
		}
	}
}

func triples(c *harn.Ctx) {
	vs := variants([]int{0, 2, 4}, []int{0, 1, 4, 7, 8, 9, 10, 17, 23, 24, 25, 31, 35}, true)
	for _, fm := range formats[:3] {
		for i, a := range vs {
			for j, b := range vs {
				for k, d := range vs {
					a, b, d := a, b, d
					s := (i + j + k) % len(styles)
					a.style, b.style, d.style = s, s, s
					desc, run := history(c, fm, []event{a, b, d})
					c.Case("", desc, run)
				}
			}
		}
	}
}

// troubledNames: the events of a name after one that could not be written, from several places
func troubledNames(c *harn.Ctx) {
	ls := []int{1, 4, 17}
	if c.Thorough() {
		ls = all(len(lists))
	}
	for _, fm := range formats {
		for a := range fns {
			for b := range fns {
				for _, l := range ls {
					for s := 0; s < len(styles); s += 3 {
						for times := 1; times < 3; times++ {
							t, u := event{a, l, 0, nil, s}, event{b, l, 1, nil, s}
							for _, at := range []int{0, 1, 2} {
								if at == 2 && times == 2 {
									continue
								}
								desc, run := historyOf(c, fm, [][]event{{t, u, t, u}, {u, t, u, t}, {t, u, u, t}}[at], map[int]int{at: times})
								c.Case("", desc, run)
							}
							// both names' shapes have had troubles
							for _, l2 := range []int{0, 2, 4, len(lists) - 1} {
								if l2 == l || a%2 != b%2 {
									continue
								}
								x := event{b, l2, 1, nil, s}
								for _, h := range [][]event{{t, x, t, x, t}, {t, x, x, t, x}} {
									desc, run := historyOf(c, fm, h, map[int]int{0: times, 1: times})
									c.Case("", desc, run)
								}
							}
						}
					}
				}
			}
		}
	}
}

// ---- events logged while another one is being formatted or written ----

// troubled fails in the ways it is told to, one for each Write, then works
type troubled struct {
	faults  []int
	got     []string
	writing []func()
}

const (
	fPanic = iota
	fError
	fShort
	fEarly // what is passed has been kept, then it panics
	nFaults
)

func (w *troubled) Write(b []byte) (int, error) {
	if len(w.faults) > 0 {
		f := w.faults[0]
		w.faults = w.faults[1:]
		switch f {
		case fPanic:
			panic("the writer panics")
		case fError:
			return 0, errors.New("the writer fails")
		case fShort:
			return len(b) / 2, nil
		case fEarly:
			_ = string(b)
			panic(errors.New("the writer panics with an error"))
		}
	}
	if len(w.writing) > 0 {
		f := w.writing[0]
		w.writing = w.writing[1:]
		f()
	}
	w.got = append(w.got, string(b))
	return len(b), nil
}

// nestLists are property lists with values that log events
var nestLists = []plist{
	{p("k", vNestErr)}, {p("k", vNestStr)}, {p("a", vStr), p("k", vNestErr), p("z", vPair)}, {p("k", vInt), p("z", vNestErr)}, {p("a", vNestStr), p("k", vNestErr)}, {p("a", vNestErr), p("k", vStr), p("z", vNestErr)},
}

func nested(c *harn.Ctx) {
	first := len(lists)
	lists = append(lists, nestLists...)
	inner := []int{1, 4, 10, 17, 23}
	maxFaults := 2
	if c.Thorough() {
		maxFaults = 3
		inner = all(first)
	}
	var plans [][]int
	var plan func(p []int)
	plan = func(p []int) {
		plans = append(plans, append([]int{}, p...))
		if len(p) < maxFaults {
			for f := 0; f < nFaults; f++ {
				plan(append(p, f))
			}
		}
	}
	plan(nil)
	for _, fm := range formats {
		for _, faults := range plans {
			for _, f := range []int{0, 2, 4, 5} {
				for l := first - 1; l < len(lists); l++ {
					for _, in := range inner {
						for mode := 0; mode < 3; mode++ {
							// mode 0: the value logs; 1: the writer logs; 2: the value logs an event whose value logs
							if l < first && mode != 1 {
								continue
							}
							for s := 0; s < len(styles); s += 3 {
								fm, faults, mode := fm, faults, mode
								outer := event{f, l, 1, nil, s}
								second := event{(f + 1) % 6, in, 0, nil, 3 - s}
								third := event{0, 3, 0, nil, s}
								if mode == 2 {
									second.list = first + in%len(nestLists)
								}
								c.Case("", func() string {
									how := []string{"its value logs", "the writer logs", "its value logs an event whose value logs"}[mode]
									return fmt.Sprintf("%s format, after failures of the writer %v (0: panic, 1: error, 2: short, 3: panic): event %s; while it is logged, %s %s", fm.name, faults, outer, how, second)
								}, func() string {
									serial++
									c.Trans(len(faults) + 2)
									spi.MinLevel, spi.MinCallLevel = 5, 10
									loglog.Error = func(err error) {}
									w := &troubled{faults: append([]int{}, faults...)}
									countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: fm.f, Writer: w})
									countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{})
									onNest = nil
									for range faults {
										func() {
											defer func() { recover() }()
											countlog.Warn(fmt.Sprintf("trouble %d", serial), "k", "some text that is longer than other texts in this history")
										}()
									}
									w.faults, w.got = nil, nil
									var gs []*logged
									log := func(e event) {
										serial++
										g := &logged{e: e, n: serial, name: styles[e.style].name(serial), lines: map[int]bool{}, before: time.Now()}
										gs = append(gs, g)
										g.timerStart = g.before.UnixNano()
										var err error
										if fns[e.f].call {
											err = errs[e.err]
										}
										line, _ := fns[e.f].f(countlog.Ctx(context.Background()), g.name, err, lists[e.list].args(g.timerStart))
										g.lines[line] = true
										g.after = time.Now()
									}
									switch mode {
									case 0:
										onNest = []func(){func() { log(second) }}
									case 1:
										w.writing = []func(){func() { log(second) }}
									case 2:
										onNest = []func(){func() { log(second) }, func() { log(third) }}
									}
									log(outer)
									left := onNest
									onNest = nil
									if len(w.got) != len(gs) {
										return fmt.Sprintf("%d events were logged, but %d records written: %q", len(gs), len(w.got), w.got)
									}
									c.State(fmt.Sprint(fm.name, mode, len(left), len(gs), f, l, s))
									recs := append([]string{}, w.got...)
									for _, g := range gs {
										found, why := -1, ""
										for i, r := range recs {
											if s := fm.check(g, r); s == "" {
												found = i
											} else {
												why = s
											}
										}
										if found < 0 {
											return fmt.Sprintf("no record of %s among %q (%s)", g.e, w.got, why)
										}
										recs = append(recs[:found:found], recs[found+1:]...)
									}
									return ""
								})
							}
						}
					}
				}
			}
		}
	}
}

// ---- when it was ----

var offsets = []time.Duration{0, 1, time.Microsecond, time.Millisecond, 999 * time.Millisecond, time.Second, 59 * time.Second, time.Minute, time.Hour, 12 * time.Hour, 24 * time.Hour, 7 * 24 * time.Hour, 30 * 24 * time.Hour, 366 * 24 * time.Hour, 10 * 366 * 24 * time.Hour, -time.Second, -time.Minute, -24 * time.Hour, 61 * time.Second,
	-3456789, -123456789, 377 * time.Millisecond}

var zones = []*time.Location{time.UTC, time.FixedZone("east", 8*3600), time.FixedZone("west", -(5*3600 + 1800))}

type instant struct {
	off  int
	zone int
}

func (x instant) time() time.Time {
	return time.Date(2020, 2, 28, 23, 59, 58, 123456789, time.UTC).Add(offsets[x.off]).In(zones[x.zone])
}

// times formats events of given times with one formatter
func times(c *harn.Ctx) {
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	type kind struct {
		name  string
		f     func() output.Format
		check func(t time.Time, timer int64, rec string) string
	}
	has := func(s string, args ...interface{}) func(rec string) string {
		want := fmt.Sprintf(s, args...)
		return func(rec string) string {
			if !strings.Contains(stripColors(rec), want) {
				return fmt.Sprintf("%q is missing", want)
			}
			return ""
		}
	}
	kinds := []kind{
		{"hrf", func() output.Format { return &hrf.Format{ShowTimestamp: true} }, func(t time.Time, timer int64, rec string) string {
			return has("\ntimestamp: %s\n", t.Format("15:04:05.000"))(rec) + has("\ntimer: %v\n", time.Duration(t.UnixNano()-timer))(rec)
		}},
		{"compact", func() output.Format { return &compact.Format{} }, func(t time.Time, timer int64, rec string) string {
			return has("[INFO] [%s][f @ f.go:1] when", t.Format(time.RFC3339))(rec) + has("||timer=%d", timer)(rec)
		}},
		{"json", func() output.Format { return &json.JsonFormat{} }, func(t time.Time, timer int64, rec string) string {
			return has(`"timestamp":%d`, t.UnixNano())(rec) + has(`"timer":%d`, timer)(rec)
		}},
		{"printf", func() output.Format { return &printf.Format{Layout: layout} }, func(t time.Time, timer int64, rec string) string {
			return has("~%s~", t.Format("2006-01-02T15:04:05.999999999Z07:00"))(rec)
		}},
		{"printf of days", func() output.Format {
			return &printf.Format{Layout: "{timestamp, goTime, Mon Jan _2 2006}|{timestamp, goTime, 15:04}|{level}"}
		}, func(t time.Time, timer int64, rec string) string {
			return has("%s|%s|INFO", t.Format("Mon Jan _2 2006"), t.Format("15:04"))(rec)
		}},
	}
	var all []instant
	for o := range offsets {
		for z := range zones {
			all = append(all, instant{o, z})
		}
	}
	for _, k := range kinds {
		var walk func(h []instant)
		walk = func(h []instant) {
			if len(h) == depth {
				k := k
				h := append([]instant{}, h...)
				c.Case("", func() string {
					s := k.name + " format, events at"
					for _, x := range h {
						s += " " + x.time().Format(time.RFC3339Nano)
					}
					return s
				}, func() string {
					c.Trans(len(h))
					f := k.f().FormatterOf(&spi.LogSite{Event: "event!when", Func: "f", File: "f.go", Line: 1, Sample: []interface{}{"timer", int64(0)}})
					for i, x := range h {
						c.State(k.name + fmt.Sprint(x, i))
						t := x.time()
						timer := t.UnixNano() - int64(offsets[x.off]) - 5
						rec := string(f.Format(nil, &spi.Event{Level: 30, Timestamp: t, Properties: []interface{}{"timer", timer}}))
						if s := k.check(t, timer, rec); s != "" {
							return fmt.Sprintf("event %d is shown as %q: %s", i+1, rec, s)
						}
					}
					return ""
				})
				return
			}
			for _, x := range all {
				if depth > 2 && len(h) == 1 && x.zone > 0 && h[0].zone > 0 && x.zone != h[0].zone {
					continue
				}
				walk(append(h, x))
			}
		}
		walk(nil)
	}
}

// ---- events at the same time ----

type syncChunks struct {
	got    vsched.Journal
	panics int
}

func (c *syncChunks) Write(b []byte) (int, error) {
	if c.panics > 0 {
		c.panics--
		panic("the writer panics")
	}
	c.got.Add(string(b))
	return len(b), nil
}

func concurrent(race bool) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		one := []event{{0, 1, 0, nil, 0}, {0, 4, 0, nil, 0}, {0, 23, 0, nil, 0}, {2, 4, 1, nil, 0}, {4, 17, 0, ctxLists[1], 0}}
		more := 1
		if c.Thorough() && !race {
			more = 2
		}
		for _, fm := range formats[:3] {
			for i, a := range one {
				for j, b := range one {
					if j < i || race && fm.name == "compact" {
						continue
					}
					for s := 0; s < len(styles); s += 3 {
						for warm := 0; warm < 3; warm++ {
							a, b, fm, warm := a, b, fm, warm
							a.style, b.style = s, s
							pre := 2
							if c.Thorough() && !race {
								pre = 3
							}
							c.Explore(fmt.Sprintf("%s, %s, warm %d: %s / %s", fm.name, styles[s].name(0), warm, a, b), "", harn.Bounds(pre, 0, 0, 0), vsched.Options{MaxSteps: 6000}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
								// start with the same caches each time
								vsync.Rewind()
								serial++
								countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: fm.f, Writer: &chunks{}})
								for _, e := range []event{{1, 3, 0, nil, a.style}, a, b} {
									ctx := countlog.Ctx(context.Background())
									for _, x := range e.ctx {
										ctx.Add(x.text, values[x.v].v)
									}
									fns[e.f].f(ctx, styles[e.style].name(serial), errs[e.err], lists[e.list].args(0))
								}
								msgfmt.FormatterOf("{value}", []interface{}{"value", 7})
								serial++
								n := serial
								out := &syncChunks{}
								var gs []*logged
								body := func() {
									spi.MinLevel, spi.MinCallLevel = 5, 10
									loglog.Error = func(err error) { out.got.Add("trouble: " + err.Error()) }
									countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: fm.f, Writer: out})
									countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{})
									lines := map[int]bool{}
									log := func(e event) (*logged, func() int) {
										g := &logged{e: e, name: styles[e.style].name(n), n: n, lines: lines, before: vsched.Epoch().Add(-time.Hour), after: vsched.Epoch().Add(1000 * time.Hour)}
										ctx := countlog.Ctx(context.Background())
										for _, x := range e.ctx {
											ctx.Add(x.text, values[x.v].v)
										}
										var err error
										if fns[e.f].call {
											err = errs[e.err]
										}
										return g, func() int {
											l, _ := fns[e.f].f(ctx, g.name, err, lists[e.list].args(0))
											return l
										}
									}
									if warm == 2 {
										// the writer panics at the first event
										out.panics = 2 // it is tried once again
										_, f := log(event{1, 3, 0, nil, a.style})
										complain := loglog.Error
										loglog.Error = func(err error) {}
										spi.MinLevel = 30 // below, panics are printed
										func() {
											defer func() { recover() }()
											f()
										}()
										loglog.Error = complain
										spi.MinLevel = 5
									}
									if warm == 1 {
										g, f := log(event{1, 3, 0, nil, a.style})
										gs = append(gs, g)
										lines[f()] = true
									}
									var hs []*vsched.ThreadHandle
									got := make([][]int, 2)
									for t, e := range []event{a, b} {
										t := t
										g, f := log(e)
										gs = append(gs, g)
										if t < more-1 {
											gs = append(gs, g)
										}
										hs = append(hs, vsched.Go(func() {
											got[t] = append(got[t], f())
											if t < more-1 {
												got[t] = append(got[t], f())
											}
										}))
									}
									for t, h := range hs {
										h.Join()
										for _, l := range got[t] {
											lines[l] = true
										}
									}
								}
								return body, func(o *vsched.Outcome) vsched.Verdict {
									if o.End != "" {
										return vsched.Verdict{Obs: o.End, Violation: "execution ended abnormally: " + o.End}
									}
									recs := out.got.Items()
									// every event has its own record
									left := append([]string{}, recs...)
									obs := ""
									for _, g := range gs {
										found, why := -1, ""
										for i, r := range left {
											if s := fm.check(g, r); s == "" {
												found = i
											} else {
												why = s
											}
										}
										if found < 0 {
											return vsched.Verdict{Obs: "bad", Violation: fmt.Sprintf("no record of %s among %q (%s)", g.e, left, why)}
										}
										for i, r := range recs {
											if r == left[found] {
												obs += fmt.Sprint(i)
											}
										}
										left = append(left[:found:found], left[found+1:]...)
									}
									if len(left) != 0 {
										return vsched.Verdict{Obs: "bad", Violation: fmt.Sprintf("too much: %q", left)}
									}
									return vsched.Verdict{Obs: obs}
								}
							})
						}
					}
				}
			}
		}
	}
}

func main() {
	vsync.Mark()
	harn.Main(harn.Check{
		ID: "C09", Level: "model_checking", StateMeaning: "distinct events in distinct formats, and orders of concurrent events",
		Bounds: func(tier string) string {
			s := fmt.Sprintf("single events: %d functions x %d property lists x 4 kinds of names x 4 errors x 6 contexts x 5 formats; ", len(fns), len(lists))
			if tier == "thorough" {
				return s + "all pairs of events of one name over 6 functions, all property lists, errors and contexts; all triples over 13 property lists and 3 functions in 3 formats; events logged while another one is formatted or written, nested up to 3 deep, after all sequences of up to 3 failures of the writer; all triples of 57 times and zones for one formatter; 2 goroutines, preemptions <=3 (race detection: 2)"
			}
			return s + "pairs of events of one name over 3 functions, all property lists, errors and contexts; events logged while another one is formatted or written, nested up to 3 deep, after all sequences of up to 2 failures of the writer; all pairs of 57 times and zones for one formatter; 2 goroutines, preemptions <=2, race detection"
		},
		Assumptions: []string{"properties have different names that are none of event, location, timestamp, error", "the place shown is one of those the event's name was logged from"},
		Jobs: func(tier string) []harn.Job {
			r := []harn.Job{
				{Name: "singles", Shards: 8, Run: singles},
				{Name: "troubled", Shards: 8, Run: troubledNames},
				{Name: "pairs", Shards: 24, Run: pairs},
				{Name: "nested", Shards: 8, Run: nested},
				{Name: "times", Shards: 8, Run: times},
				{Name: "concurrent", Shards: 24, Run: concurrent(false)},
				{Name: "race", Race: true, Shards: 16, Run: concurrent(true)},
			}
			if tier == "thorough" {
				r = append(r, harn.Job{Name: "triples", Shards: 24, Run: triples})
			}
			return r
		},
	})
}
