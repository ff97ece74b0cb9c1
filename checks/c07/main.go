// C07: logging never harms the caller: whatever is logged and whatever
// component of the logger fails, the call returns, other events are emitted
// exactly once with their own content, and what is lost is reported.
package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"

	"verif/harn"
	vsync "verif/shim/sync"
	"verif/vsched"
)

// ---- fault plans ----

// components that can fail
const (
	writerHandlerOf = iota
	writerBefore    // custom handler, before it recorded the event
	writerAfter     // ... after
	writerNil       // the sink returns no handler
	formatterOf
	format
	write     // Writer panics before it took the record
	writeErr  // Writer returns an error
	writeLate // Writer panics after it took the record
	countHandlerOf
	count
	nComponents
)

var componentNames = []string{"HandlerOf of the sink panics", "handler panics before it took the event", "handler panics after it took the event", "sink has no handler", "FormatterOf panics", "Format panics", "Write panics before it took the record", "Write fails", "Write panics after it took the record", "HandlerOf of the aggregator panics", "aggregator panics"}

type fault struct {
	component int
	mask      int // which calls of the component fail: bit per call, the last bit stands for all later ones
}

func (f fault) String() string {
	return fmt.Sprintf("%s on calls %04b", componentNames[f.component], f.mask)
}

// world is what one case runs in
type world struct {
	faults    []fault
	value     interface{} // panic value
	calls     [nComponents]int
	hit       map[int]int // component -> faults during this event
	delivered []string
	counted   int
	reported  int
}

var w *world

func (w *world) fails(component int) bool {
	n := w.calls[component]
	w.calls[component]++
	if n > 3 {
		n = 3
	}
	for _, f := range w.faults {
		if f.component == component && f.mask>>uint(n)&1 == 1 {
			w.hit[component]++
			return true
		}
	}
	return false
}

func (w *world) maybe(component int) {
	if w.fails(component) {
		if w.value == "runtime" {
			var p *world
			p.calls[0]++
		}
		panic(w.value)
	}
}

type badError struct{}

func (badError) Error() string { panic("Error panics as well") }

var panicValues = []interface{}{"text", errors.New("boom"), "runtime", 42, badError{}, (*nilError)(nil)}

func describe(site string, e *spi.Event) string {
	return fmt.Sprintf("%s|%d|%v|%v", site, e.Level, e.Error, e.Properties)
}

func customSink() spi.EventSink {
	return spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		w.maybe(writerHandlerOf)
		if w.fails(writerNil) {
			return nil
		}
		return spi.FuncEventHandler(func(e *spi.Event) {
			w.maybe(writerBefore)
			w.delivered = append(w.delivered, describe(site.Event, e))
			w.maybe(writerAfter)
		})
	})
}

type faultyFormat struct{}

func (faultyFormat) FormatterOf(site *spi.LogSite) output.Formatter {
	w.maybe(formatterOf)
	return faultyFormatter{site.Event}
}

type faultyFormatter struct{ event string }

func (f faultyFormatter) Format(space []byte, e *spi.Event) []byte {
	w.maybe(format)
	return append(space, describe(f.event, e)...)
}

type faultyWriter struct{}

func (faultyWriter) Write(b []byte) (int, error) {
	w.maybe(write)
	if w.fails(writeErr) {
		return 0, errors.New("disk full")
	}
	w.delivered = append(w.delivered, string(b))
	w.maybe(writeLate)
	return len(b), nil
}

func faultyAggregator() spi.EventSink {
	return spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		w.maybe(countHandlerOf)
		if site.Agg == "" {
			return nil
		}
		return spi.FuncEventHandler(func(e *spi.Event) {
			w.maybe(count)
			w.counted++
		})
	})
}

type evt struct {
	name int // which event name
	site int // from where in the source it is logged
	kind int // 0 Info, 1 InfoCall without, 2 with an error, 3 Info of other properties
}

func (e evt) String() string {
	return fmt.Sprintf("%s name %c from place %d", []string{"Info", "InfoCall", "failed InfoCall", "Info with a string"}[e.kind], 'A'+e.name, e.site)
}

func emit(e evt, name string, k int) (ret error) {
	prop := interface{}(k)
	if e.kind == 3 {
		prop = "text"
	}
	err := errors.New("cause")
	switch {
	case (e.kind == 0 || e.kind == 3) && e.site == 0:
		countlog.Info(name, "k", prop)
	case e.kind == 0 || e.kind == 3:
		countlog.Info(name, "k", prop)
	case e.kind == 1 && e.site == 0:
		return countlog.InfoCall(name, nil, "k", prop)
	case e.kind == 1:
		return countlog.InfoCall(name, nil, "k", prop)
	case e.site == 0:
		return countlog.InfoCall(name, err, "k", prop)
	default:
		return countlog.InfoCall(name, err, "k", prop)
	}
	return nil
}

var serial int

func planCase(custom bool, faults []fault, value interface{}, events []evt) (func() string, func() string) {
	desc := func() string {
		s := "faults: "
		for _, f := range faults {
			s += f.String() + "; "
		}
		s += fmt.Sprintf("panic value %T; events:", value)
		for _, e := range events {
			s += " " + e.String() + ";"
		}
		return s
	}
	return desc, func() string {
		serial++
		if serial%100 == 0 {
			vsync.Rewind() // there are too many names to keep them all
		}
		spi.MinLevel, spi.MinCallLevel = 22, 27 // below it, stacks are printed
		w = &world{faults: faults, value: value}
		loglog.Error = func(err error) { w.reported++ }
		if custom {
			countlog.EventWriter = customSink()
		} else {
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: faultyFormat{}, Writer: faultyWriter{}})
		}
		countlog.EventAggregator = faultyAggregator()
		noHandler := false
		for i, e := range events {
			w.hit, w.delivered, w.counted, w.reported = map[int]int{}, nil, 0, 0
			name := fmt.Sprintf("event!c07-%d-%c", serial, 'A'+e.name)
			ret, panicked := func() (err error, p interface{}) {
				defer func() { p = recover() }()
				return emit(e, name, i), nil
			}()
			say := func(f string, args ...interface{}) string {
				return fmt.Sprintf("event %d: ", i+1) + fmt.Sprintf(f, args...)
			}
			if panicked != nil {
				return say("the caller panicked: %v", panicked)
			}
			want := fmt.Sprintf("%s|30|<nil>|[k %d]", name, i)
			if e.kind == 3 {
				want = fmt.Sprintf("%s|30|<nil>|[k text]", name)
			}
			if e.kind == 2 {
				want = fmt.Sprintf("%s|40|cause|[k %d]", name, i)
			}
			if (ret != nil) != (e.kind == 2) || ret != nil && ret.Error() != name+": cause" {
				return say("the call returned %v", ret)
			}
			for _, d := range w.delivered {
				if d != want {
					return say("%q arrived instead of %q", d, want)
				}
			}
			n, c := 0, w.hit[count]
			for _, h := range w.hit {
				n += h
			}
			// no handler stays no handler
			if noHandler = noHandler || w.hit[writerNil] > 0; noHandler {
				n++
			}
			late := w.hit[writerAfter] + w.hit[writeLate]
			switch {
			case n == c && len(w.delivered) != 1:
				return say("arrived %d times although nothing that writes it failed", len(w.delivered))
			case len(w.delivered) > 1+late:
				return say("arrived %d times", len(w.delivered))
			case len(w.delivered) == 0 && w.reported == 0:
				return say("was lost and no trouble was reported")
			case n == 0 && w.reported != 0:
				return say("trouble was reported although nothing failed")
			case w.hit[writeErr]+c > 0 && w.reported == 0:
				return say("a failure was not reported")
			case n == 0 && w.counted != map[bool]int{true: 1}[e.kind == 1 || e.kind == 2]:
				return say("counted %d times", w.counted)
			case w.counted > 1:
				return say("counted %d times", w.counted)
			}
			w.hit = nil
			chk.State(fmt.Sprint(faults, e, i, len(w.delivered), w.reported))
		}
		return ""
	}
}

var chk *harn.Ctx

func histories(n int, kinds []int, f func(h []evt)) {
	h := make([]evt, n)
	var rec func(i, names int)
	rec = func(i, names int) {
		if i == n {
			f(append([]evt{}, h...))
			return
		}
		for name := 0; name <= names && name < 2; name++ {
			for site := 0; site < 2; site++ {
				for _, k := range kinds {
					if i == 0 && site > 0 {
						continue
					}
					h[i] = evt{name, site, k}
					m := names
					if name == names {
						m++
					}
					rec(i+1, m)
				}
			}
		}
	}
	rec(0, 0)
}

func plans(c *harn.Ctx) {
	n := 3
	if c.Thorough() {
		n = 4
	}
	kinds := []int{0, 1, 2, 3}
	of := func(custom bool) []int {
		if custom {
			return []int{writerHandlerOf, writerBefore, writerAfter, writerNil, countHandlerOf, count}
		}
		return []int{formatterOf, format, write, writeErr, writeLate, countHandlerOf, count}
	}
	i := 0
	for _, custom := range []bool{true, false} {
		cs := of(custom)
		var ps [][]fault
		for a, x := range cs {
			for m := 1; m < 16; m++ {
				ps = append(ps, []fault{{x, m}})
			}
			for _, y := range cs[a+1:] {
				for _, m := range []int{1, 2, 5, 9, 15} {
					for _, m2 := range []int{1, 2, 10, 15} {
						ps = append(ps, []fault{{x, m}, {y, m2}})
					}
				}
			}
		}
		for _, p := range ps {
			n := n
			if len(p) > 1 {
				n--
			}
			histories(n, kinds, func(h []evt) {
				i++
				desc, run := planCase(custom, p, panicValues[i%len(panicValues)], h)
				c.Case("", desc, func() string {
					chk = c
					c.Trans(len(h))
					return run()
				})
			})
		}
	}
}

// ---- poisonous properties in the real formats ----

type nilError struct{ s string }

func (e *nilError) Error() string { return e.s }

// poison is fine, or its methods fail
type poisonStringer struct{ mode int }

func (p poisonStringer) String() string { return act(p.mode, "stringer") }

type poisonPtrStringer struct{ mode int }

func (p *poisonPtrStringer) String() string { return act(p.mode, "pointer stringer") }

type poisonError struct{ mode int }

func (p poisonError) Error() string { return act(p.mode, "error") }

type poisonPtrError struct{ mode int }

func (p *poisonPtrError) Error() string { return act(p.mode, "pointer error") }

type poisonMarshaler struct{ mode int }

func (p poisonMarshaler) MarshalJSON() ([]byte, error) {
	if p.mode == 3 {
		return nil, errors.New("can not be marshaled")
	}
	return []byte(`"` + act(p.mode, "marshaler") + `"`), nil
}

type poisonField struct {
	F poisonStringer
	E error
	M poisonMarshaler
}

func act(mode int, s string) string {
	switch mode {
	case 1:
		panic("poison")
	case 2:
		panic(badError{})
	}
	return "(fine " + s + ")"
}

type value struct {
	name string
	v    interface{}
	text string // expected in the record ("": not checked)
}

func propertyValues() []value {
	var np *poisonPtrStringer
	var ne *poisonPtrError
	var nn *nilError
	var nm *poisonMarshaler
	var nf func()
	var nc chan int
	var ni fmt.Stringer
	x := 7
	px := &x
	ppx := &px
	r := []value{
		{"int", 12345, "12345"}, {"string", "plain text", "plain text"}, {"nil", nil, "null"}, {"nil interface", ni, "null"},
		{"nil stringer", np, ""}, {"nil error", ne, ""}, {"nil error pointer", nn, ""}, {"nil marshaler", nm, ""},
		{"func", func() {}, ""}, {"nil func", nf, ""}, {"chan", make(chan int), ""}, {"nil chan", nc, ""},
		{"complex", complex(1, 2), ""}, {"unsafe pointer", unsafe.Pointer(&x), ""}, {"nil unsafe pointer", unsafe.Pointer(nil), ""},
		{"uintptr", uintptr(77), "77"}, {"pointer", &x, "7"}, {"pointer to pointer", &px, "7"}, {"3 pointers", &ppx, "7"},
		{"struct", struct {
			A int
			b chan int
			C func()
		}{A: 1234567}, "1234567"},
		{"struct of a chan", struct{ C chan int }{}, ""}, {"slice of funcs", []func(){nil}, ""}, {"map of chans", map[string]chan int{"a": nil}, ""},
		{"map of structs", map[struct{ a int }]int{{1}: 1}, ""}, {"map of interfaces", map[interface{}]int{nil: 1, 5: 2}, ""},
		{"array", [2]int{21, 22}, "21"}, {"empty array", [0]int{}, ""}, {"bytes", []byte("some\xffbytes"), "some"}, {"nil bytes", []byte(nil), ""},
		{"time", time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), "2020"}, {"nil time", (*time.Time)(nil), ""}, {"float nan", 0 / zero(), ""},
		{"reflect value", reflect.ValueOf(5), ""}, {"reflect type", reflect.TypeOf(5), ""}, {"context", context.Background(), ""},
		{"interface slice", []interface{}{1, nil, "x"}, "x"}, {"error", errors.New("an error"), "an error"},
	}
	for mode := 0; mode < 4; mode++ {
		text := ""
		if mode == 0 {
			text = "(fine "
		}
		ps, pe := &poisonPtrStringer{mode}, &poisonPtrError{mode}
		for _, v := range []value{
			{"stringer", poisonStringer{mode}, text}, {"pointer to stringer", &poisonStringer{mode}, text}, {"pointer stringer", ps, text},
			{"error value", poisonError{mode}, text}, {"pointer to error", &poisonError{mode}, text}, {"pointer error", pe, text},
			{"marshaler", poisonMarshaler{mode}, text}, {"pointer to marshaler", &poisonMarshaler{mode}, text},
			{"field", poisonField{M: poisonMarshaler{mode}}, text}, {"error field", poisonField{E: poisonError{mode}}, text},
			{"slice of errors", []error{nil, pe}, text}, {"map of errors", map[string]error{"k": pe}, text}, {"interface marshaler", []interface{}{poisonMarshaler{mode}}, text},
		} {
			v.name += fmt.Sprintf(" in mode %d", mode)
			if strings.Contains(v.name, "stringer") || strings.Contains(v.name, "error") {
				v.text = "" // how they are shown depends on the format
			}
			r = append(r, v)
		}
	}
	return r
}

func zero() float64 { return 0 }

var propertyLists = []struct {
	name string
	mk   func(v interface{}) []interface{}
	good bool // a well-formed list
}{
	{"k=V", func(v interface{}) []interface{} { return []interface{}{"k", v} }, true},
	{"a=1,k=V,z=2", func(v interface{}) []interface{} { return []interface{}{"a", 1, "k", v, "z", 2} }, true},
	{"timer=V", func(v interface{}) []interface{} { return []interface{}{"timer", v, "k", v} }, true},
	{"agg=V", func(v interface{}) []interface{} { return []interface{}{"agg", v, "dim", v, "k", v} }, false},
	{"agg=counter,dim=k", func(v interface{}) []interface{} { return []interface{}{"agg", "counter", "dim", "k", "k", v} }, false},
	{"agg=counter,dim=V", func(v interface{}) []interface{} { return []interface{}{"agg", "counter", "dim", v, "k", v} }, false},
	{"V alone", func(v interface{}) []interface{} { return []interface{}{v} }, false},
	{"V=1", func(v interface{}) []interface{} { return []interface{}{v, 1} }, false},
	{"k=1,V", func(v interface{}) []interface{} { return []interface{}{"k", 1, v} }, false},
	{"V=V", func(v interface{}) []interface{} { return []interface{}{v, v} }, false},
	{"nil=V", func(v interface{}) []interface{} { return []interface{}{nil, v} }, false},
	{"=V", func(v interface{}) []interface{} { return []interface{}{"", v, "{k}", v, "\"\n", v} }, false},
	{"k=V,k=V", func(v interface{}) []interface{} { return []interface{}{"k", v, "k", v} }, false},
}

var eventNames = []string{"event!c07", "callee!c07", "c07 plain", "c07 {k} and {k, json}", "c07 {missing}", "c07 {k", "c07 {}", "c07 {k, nofunction, 1}", "c07 }{ %s %d", "c07 {k, goTime, 2006} x", "c07 \xff\x00\n"}

type format1 struct {
	name string
	f    output.Format
}

var formats = []format1{{"hrf", &hrf.Format{ShowTimestamp: true}}, {"compact", &compact.Format{}}, {"json", &json.JsonFormat{}}, {"printf", &printf.Format{Layout: "{message} {level} {event} {func} {timestamp, goTime, 15:04}"}}, {"printf bad", &printf.Format{Layout: "{message {x} {nope} {a, b, c}"}}}

var functions = []struct {
	name string
	f    func(event string, err error, props []interface{}) (error, bool)
}{
	{"Info", func(event string, err error, props []interface{}) (error, bool) {
		countlog.Info(event, props...)
		return nil, false
	}},
	{"InfoCall", func(event string, err error, props []interface{}) (error, bool) {
		return countlog.InfoCall(event, err, props...), true
	}},
	{"ctx.Info", func(event string, err error, props []interface{}) (error, bool) {
		ctx := countlog.Ctx(context.Background())
		for i := 0; i+1 < len(props); i += 2 {
			ctx.Add(fmt.Sprintf("c%d", i), props[i+1])
		}
		ctx.Info(event, props...)
		return nil, false
	}},
	{"ctx.LogAccess", func(event string, err error, props []interface{}) (error, bool) {
		return countlog.Ctx(context.Background()).LogAccess(event, err, props...), true
	}},
	{"LogPanic", func(event string, err error, props []interface{}) (error, bool) {
		if len(props) > 1 {
			if countlog.LogPanic(props[1], append(props, event, 1)...) == nil && props[1] != nil {
				panic("LogPanic returned nil")
			}
		}
		return nil, false
	}},
	{"suppressed ctx.Info", func(event string, err error, props []interface{}) (error, bool) {
		ctx := countlog.Ctx(context.Background())
		ctx.SuppressLevelsBelow(spi.LevelWarn)
		for i := 0; i+1 < len(props); i += 2 {
			ctx.Add(fmt.Sprintf("c%d", i), props[i+1])
		}
		ctx.Debug(event, props...)
		ctx.Info(event, props...)
		return nil, false
	}},
}

const suppressed = 5

var callErrors = []struct {
	name string
	err  error
}{{"no error", nil}, {"error", errors.New("cause")}, {"panicking error", badError{}}, {"nil error", (*nilError)(nil)}, {"nil panicking error", (*poisonPtrError)(nil)}}

type chunks struct{ got []string }

func (c *chunks) Write(b []byte) (int, error) {
	c.got = append(c.got, string(b))
	return len(b), nil
}

// poisons: an event with any value in any position, followed by good events of the same and of another name
func poisons(c *harn.Ctx) {
	vals := propertyValues()
	for _, f := range formats {
		for li := range propertyLists {
			for vi := range vals {
				for ni := range eventNames {
					for fi := range functions {
						for ei := range callErrors {
							if ei > 0 && fi != 1 && fi != 3 || ei > 1 && ni%3 != 0 {
								continue
							}
							if !c.Thorough() && ni > 3 && vi > 12 && (li+vi+ni)%3 != 0 {
								continue
							}
							f, li, vi, ni, fi, ei := f, li, vi, ni, fi, ei
							c.Case("", func() string {
								return fmt.Sprintf("%s format, %s of %q with properties %s of %s and %s", f.name, functions[fi].name, eventNames[ni], propertyLists[li].name, vals[vi].name, callErrors[ei].name)
							}, func() string {
								c.Trans(3)
								return poisonCase(c, f.f, li, vals[vi], ni, fi, ei)
							})
						}
					}
				}
			}
		}
	}
}

func poisonCase(c *harn.Ctx, f output.Format, li int, v value, ni, fi, ei int) string {
	serial++
	spi.MinLevel, spi.MinCallLevel = 22, 27
	out := &chunks{}
	reported := 0
	loglog.Error = func(err error) { reported++ }
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: f, Writer: out})
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
		Executor:  func(handler func(ctx context.Context)) {},
		Collector: collectNothing{},
	})
	name := fmt.Sprintf("%s#%d", eventNames[ni], serial)
	try := func(what, event string, err error, props []interface{}) string {
		var ret error
		var isCall bool
		p := func() (p interface{}) {
			defer func() {
				if p = recover(); p != nil {
					p = fmt.Sprintf("%v %s", p, debug.Stack())
				}
			}()
			ret, isCall = functions[fi].f(event, err, props)
			return nil
		}()
		if p != nil {
			return fmt.Sprintf("%s: the caller panicked: %.600v", what, p)
		}
		if isCall && (ret != nil) != (err != nil) {
			return fmt.Sprintf("%s: the call returned %v", what, ret)
		}
		return ""
	}
	if s := try("the bad event", name, callErrors[ei].err, propertyLists[li].mk(v.v)); s != "" {
		return s
	}
	// a list that is too short, or nothing that was recovered
	skips := func(props []interface{}) bool {
		return functions[fi].name == "LogPanic" && (len(props) < 2 || props[1] == nil)
	}
	skipped := fi == suppressed || skips(propertyLists[li].mk(v.v))
	if fi == suppressed {
		fi = 0 // what follows is not suppressed
	}
	if len(out.got) > 1 {
		return fmt.Sprintf("the bad event was written %d times", len(out.got))
	}
	if len(out.got) == 0 && reported == 0 && !skipped {
		return "the bad event was lost and no trouble reported"
	}
	if v.text != "" && callErrors[ei].err == nil && !skipped {
		// a dimension that is no text can not be counted, but written
		if len(out.got) != 1 || reported != 0 && !strings.Contains(propertyLists[li].name, "dim") {
			return "a good event was lost"
		}
		if propertyLists[li].good && !strings.HasPrefix(fmt.Sprintf("%T", f), "*printf") && !strings.Contains(out.got[0], v.text) {
			return fmt.Sprintf("a good event was written as %q", out.got[0])
		}
	}
	// good events, of this name and shape first
	for k, after := range []struct {
		event string
		props []interface{}
	}{
		{name, propertyLists[li].mk(goodTwin(v.v))}, {name, []interface{}{"k", "still works"}}, {fmt.Sprintf("event!next-%d", serial), []interface{}{"k", "still works"}},
	} {
		out.got, reported = nil, 0
		if s := try("a later event", after.event, nil, after.props); s != "" {
			return s
		}
		if skips(after.props) {
			continue
		}
		if k == 0 && !goodValue(after.props) {
			continue
		}
		if len(out.got) != 1 || reported != 0 && (k > 0 || !strings.Contains(propertyLists[li].name, "dim")) {
			return fmt.Sprintf("later good event %d was written %d times, %d troubles were reported", k+1, len(out.got), reported)
		}
		if k > 0 && !strings.HasPrefix(fmt.Sprintf("%T", f), "*printf") && !strings.Contains(out.got[0], "still works") {
			return fmt.Sprintf("later good event %d was written as %q", k+1, out.got[0])
		}
	}
	c.State(fmt.Sprintf("%T %d %d %d %d %d %d", f, li, ni, fi, ei, len(out.got), reported))
	return ""
}

// goodTwin is a value of the same type that does not fail
func goodTwin(v interface{}) interface{} {
	switch v.(type) {
	case poisonStringer:
		return poisonStringer{}
	case *poisonStringer:
		return &poisonStringer{}
	case *poisonPtrStringer:
		return &poisonPtrStringer{}
	case poisonError:
		return poisonError{}
	case *poisonError:
		return &poisonError{}
	case *poisonPtrError:
		return &poisonPtrError{}
	case poisonMarshaler:
		return poisonMarshaler{}
	case *poisonMarshaler:
		return &poisonMarshaler{}
	case poisonField:
		return poisonField{}
	case []interface{}:
		return []interface{}{"x"}
	case []error:
		return []error{nil}
	case map[string]error:
		return map[string]error{}
	}
	return v
}

// goodValue tells whether no method of the values fails
func goodValue(props []interface{}) bool {
	for _, p := range props {
		switch x := p.(type) {
		case []interface{}:
			if !goodValue(x) {
				return false
			}
		case *nilError, reflect.Value, reflect.Type:
			return false
		}
	}
	return true
}

type collectNothing struct{}

func (collectNothing) Collect(*stats.Point) {}

// ---- the memory of the caller ----

// deep logs from a stack that has been grown a lot
func deep(n int, f func()) byte {
	var pad [1024]byte
	pad[n%len(pad)] = byte(n)
	if n == 0 {
		f()
		return pad[0]
	}
	return deep(n-1, f) + pad[n%len(pad)]
}

type recurse struct{ n int }

func (r recurse) MarshalJSON() ([]byte, error) {
	deep(r.n, func() { runtime.GC() })
	return []byte("5"), nil
}

func (r recurse) String() string {
	deep(r.n, func() { runtime.GC() })
	return "deep"
}

// loggers log from their own stack: the arguments are only passed to the function itself
var loggers = []struct {
	name string
	f    func(name string, n int)
}{
	{"Trace", func(name string, n int) { countlog.Trace(name, "k", n+1000, "s", name) }},
	{"Debug", func(name string, n int) { countlog.Debug(name, "k", n+1000, "s", name) }},
	{"Info", func(name string, n int) { countlog.Info(name, "k", n+1000, "s", name) }},
	{"Warn", func(name string, n int) { countlog.Warn(name, "k", n+1000, "s", name) }},
	{"Error", func(name string, n int) { countlog.Error(name, "k", n+1000, "s", name) }},
	{"Fatal", func(name string, n int) { countlog.Fatal(name, "k", n+1000, "s", name) }},
	{"Log", func(name string, n int) { countlog.Log(33, name, "k", n+1000, "s", name) }},
	{"TraceCall", func(name string, n int) { countlog.TraceCall(name, nil, "k", n+1000, "s", name) }},
	{"DebugCall", func(name string, n int) { countlog.DebugCall(name, nil, "k", n+1000, "s", name) }},
	{"InfoCall", func(name string, n int) { countlog.InfoCall(name, nil, "k", n+1000, "s", name) }},
	{"failed TraceCall", func(name string, n int) { countlog.TraceCall(name, errCause, "k", n+1000, "s", name) }},
	{"failed DebugCall", func(name string, n int) { countlog.DebugCall(name, errCause, "k", n+1000, "s", name) }},
	{"failed InfoCall", func(name string, n int) { countlog.InfoCall(name, errCause, "k", n+1000, "s", name) }},
	{"LogPanic", func(name string, n int) { countlog.LogPanic(n+1000, "k", n+1000, "s", name) }},
	{"ctx.Trace", func(name string, n int) { theCtx.Trace(name, "k", n+1000, "s", name) }},
	{"ctx.Debug", func(name string, n int) { theCtx.Debug(name, "k", n+1000, "s", name) }},
	{"ctx.Info", func(name string, n int) { theCtx.Info(name, "k", n+1000, "s", name) }},
	{"ctx.Warn", func(name string, n int) { theCtx.Warn(name, "k", n+1000, "s", name) }},
	{"ctx.Error", func(name string, n int) { theCtx.Error(name, "k", n+1000, "s", name) }},
	{"ctx.Fatal", func(name string, n int) { theCtx.Fatal(name, "k", n+1000, "s", name) }},
	{"ctx.InfoCall", func(name string, n int) { theCtx.InfoCall(name, nil, "k", n+1000, "s", name) }},
	{"failed ctx.InfoCall", func(name string, n int) { theCtx.InfoCall(name, errCause, "k", n+1000, "s", name) }},
	{"failed ctx.LogAccess", func(name string, n int) { theCtx.LogAccess(name, errCause, "k", n+1000, "s", name) }},
	{"struct", func(name string, n int) { countlog.Info(name, "k", struct{ A, B int }{n + 1000, n}, "s", name) }},
	{"array", func(name string, n int) { countlog.Info(name, "k", [4]int{n + 1000, n}, "s", name) }},
	{"recursive", func(name string, n int) { countlog.Info(name, "r", recurse{n}, "k", n+1000, "s", name) }},
	{"failed recursive", func(name string, n int) { countlog.InfoCall(name, errCause, "r", recurse{n}, "k", n+1000, "s", name) }},
	{"recursive text", func(name string, n int) { countlog.Info(name+" {r}", "r", recurse{n}, "k", n+1000, "s", name) }},
	{"failed recursive text", func(name string, n int) {
		countlog.InfoCall(name+" {r}", errCause, "r", recurse{n}, "k", n+1000, "s", name)
	}},
}

var errCause = errors.New("cause")
var theCtx = countlog.Ctx(context.Background())

// memory: events logged from goroutines that are gone or whose stack has moved since; a bad pointer kills the process
func memory(c *harn.Ctx) {
	for _, l := range loggers {
		for _, f := range formats {
			for _, depth := range []int{0, 5, 50, 200} {
				l, f, depth := l, f, depth
				c.Case("", func() string {
					return fmt.Sprintf("%s in %s format from goroutines %d kB deep", l.name, f.name, depth)
				}, func() string {
					vsync.Rewind()
					c.Trans(3)
					serial++
					spi.MinLevel, spi.MinCallLevel = 5, 10
					out := &chunks{}
					reported := 0
					loglog.Error = func(err error) { reported++ }
					countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: f.f, Writer: out})
					countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{})
					for round := 0; round < 3; round++ {
						done := make(chan bool)
						n := len(out.got)
						go func() {
							defer close(done)
							deep(depth, func() { l.f(fmt.Sprintf("event!mem-%d", serial), depth+round) })
						}()
						<-done
						if len(out.got) == n && reported == 0 {
							return "the event was not written"
						}
						runtime.GC()
						if depth == 200 {
							debug.FreeOSMemory()
						}
					}
					for i, g := range out.got {
						if l.name == "LogPanic" || f.name == "printf bad" {
							continue
						}
						if !strings.Contains(g, fmt.Sprintf("mem-%d", serial)) || !strings.HasPrefix(f.name, "printf") && !strings.Contains(g, fmt.Sprint(depth+i+1000)) {
							return fmt.Sprintf("record %d is %q", i, g)
						}
					}
					return ""
				})
			}
		}
	}
}

// ---- events that are logged while others are, after trouble ----

type nesting struct{ f func() }

func (n *nesting) Error() string {
	if f := n.f; f != nil {
		n.f = nil
		f()
	}
	return "nesting"
}

type lateWriter struct {
	panics, fails, shorts int
	writing               func()
	got                   []string
}

func (w *lateWriter) Write(b []byte) (int, error) {
	switch {
	case w.panics > 0:
		w.panics--
		panic("the writer panics")
	case w.fails > 0:
		w.fails--
		return 0, errors.New("the writer fails")
	case w.shorts > 0:
		w.shorts--
		return len(b) / 2, nil
	}
	if f := w.writing; f != nil {
		w.writing = nil
		f()
	}
	w.got = append(w.got, string(b))
	return len(b), nil
}

type badText struct{}

func (badText) Error() string { panic("no text") }

var troubleNames = []string{"the writer panics once", "the writer panics twice", "the writer fails", "the writer writes half", "an error has no text", "a property has no value"}

var stamps = regexp.MustCompile(`"timestamp":\d+|timestamp: [0-9:.]+|\[\d{4}-\d\d-\d\dT[^\]]*\]|\d\d:\d\d$`)

// afterwards: after all sequences of troubles, an event logged while another
// one is formatted or written leaves both records as they are without trouble
func afterwards(c *harn.Ctx) {
	max := 2
	if c.Thorough() {
		max = 4
	}
	var plans [][]int
	var plan func(p []int)
	plan = func(p []int) {
		plans = append(plans, append([]int{}, p...))
		if len(p) < max {
			for i := range troubleNames {
				plan(append(p, i))
			}
		}
	}
	plan(nil)
	outer := func(n int, e error, size int) {
		countlog.Warn(fmt.Sprintf("outer-%d", n), "a", strings.Repeat("o", size), "n", e, "z", strings.Repeat("O", size))
	}
	inner := func(n int, size int) {
		countlog.Info(fmt.Sprintf("inner-%d {k}", n), "k", strings.Repeat("i", size), "z", "I")
	}
	for _, f := range formats[:4] {
		for _, p := range plans {
			for mode := 0; mode < 3; mode++ {
				for _, sizes := range [][2]int{{5, 5}, {40, 3}, {3, 300}, {300, 40}} {
					f, p, mode, sizes := f, p, mode, sizes
					c.Case("", func() string {
						s := f.name + " format"
						for _, t := range p {
							s += ", " + troubleNames[t]
						}
						return s + ", then an event of size " + fmt.Sprint(sizes[1]) + []string{" while the error of one is formatted", " while one is written", " after one"}[mode] + ", size " + fmt.Sprint(sizes[0])
					}, func() string {
						c.Trans(len(p) + 2)
						serial++
						n := serial
						if serial%100 == 0 {
							vsync.Rewind()
						}
						spi.MinLevel, spi.MinCallLevel = 22, 27
						loglog.Error = func(err error) {}
						w := &lateWriter{}
						countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: f.f, Writer: w})
						countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{})
						outer(n, &nesting{}, sizes[0])
						inner(n, sizes[1])
						want := w.got
						if len(want) != 2 {
							return fmt.Sprintf("without trouble, the records are %q", want)
						}
						for _, t := range p {
							w.panics, w.fails, w.shorts = 0, 0, 0
							switch t {
							case 0, 1:
								w.panics = t + 1
							case 2:
								w.fails = 1
							case 3:
								w.shorts = 1
							}
							switch t {
							case 4:
								countlog.Info(fmt.Sprintf("trouble-%d", n), "a", "some text", "b", badText{})
							case 5:
								countlog.Info(fmt.Sprintf("trouble-%d", n), "a", "some text", "b")
							default:
								countlog.Info(fmt.Sprintf("trouble-%d", n), "a", "some text")
							}
						}
						w.panics, w.fails, w.shorts, w.got = 0, 0, 0, nil
						e := &nesting{}
						switch mode {
						case 0:
							e.f = func() { inner(n, sizes[1]) }
						case 1:
							w.writing = func() { inner(n, sizes[1]) }
						}
						outer(n, e, sizes[0])
						if mode == 2 {
							inner(n, sizes[1])
						}
						if mode == 0 && e.f != nil {
							return "" // this format does not show errors
						}
						norm := func(r []string) string {
							r = append([]string{}, r...)
							for i := range r {
								r[i] = stamps.ReplaceAllString(strings.TrimRight(r[i], "\n"), "")
							}
							sort.Strings(r)
							return strings.Join(r, "\n")
						}
						if a, b := norm(w.got), norm(want); a != b {
							return fmt.Sprintf("the records are\n%q\ninstead of\n%q", a, b)
						}
						c.State(fmt.Sprint(f.name, p, mode, sizes))
						return ""
					})
				}
			}
		}
	}
}

// ---- schedules ----

// schedules: a bad and a good event of the same name at the same time
func schedules(race bool) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		type scenario struct {
			stage            string // where the poison strikes
			same, warm, more bool
		}
		var ss []scenario
		for _, st := range []string{"HandlerOf", "Handle", "count"} {
			for _, same := range []bool{true, false} {
				for _, warm := range []bool{false, true} {
					for _, more := range []bool{false, true} {
						ss = append(ss, scenario{st, same, warm, more})
					}
				}
			}
		}
		for _, s := range ss {
			s := s
			pre := 3
			if race {
				pre = 2
			}
			if s.more {
				pre--
			}
			if c.Thorough() {
				pre++
			}
			c.Explore(fmt.Sprintf("%s/same=%v/warm=%v/more=%v", s.stage, s.same, s.warm, s.more), "", harn.Bounds(pre, 0, 0, 0), vsched.Options{MaxSteps: 4000}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
				vsync.Rewind()
				serial++
				var delivered, reported, troubles vsched.Journal
				bad := func(stage string, props []interface{}) {
					if stage == s.stage && len(props) > 1 && props[1] == -1 {
						panic("poison")
					}
				}
				name := func(t int) string {
					if s.same {
						return fmt.Sprintf("event!c07s-%d", serial)
					}
					return fmt.Sprintf("event!c07s-%d-%d", serial, t)
				}
				body := func() {
					spi.MinLevel, spi.MinCallLevel = 22, 27
					loglog.Error = func(err error) { reported.Add(err.Error()) }
					countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
						bad("HandlerOf", site.Sample)
						vsched.Point("made")
						return spi.FuncEventHandler(func(e *spi.Event) {
							vsched.Point("handle")
							bad("Handle", e.Properties)
							delivered.Add(fmt.Sprint(e.Properties[1]))
						})
					})
					countlog.EventAggregator = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
						return spi.FuncEventHandler(func(e *spi.Event) { bad("count", e.Properties) })
					})
					if s.warm {
						countlog.Info(name(0), "k", 100)
					}
					log := func(t, k int) {
						defer func() {
							if p := recover(); p != nil {
								troubles.Add(fmt.Sprintf("the caller panicked: %v", p))
							}
						}()
						countlog.Info(name(t), "k", k)
					}
					var hs []*vsched.ThreadHandle
					for t := 0; t < 2; t++ {
						t := t
						hs = append(hs, vsched.Go(func() {
							if t == 0 {
								log(t, -1)
								log(t, 1)
							} else {
								log(t, 2)
								if s.more {
									log(t, -1)
									log(t, 3)
								}
							}
						}))
					}
					for _, h := range hs {
						h.Join()
					}
				}
				return body, func(o *vsched.Outcome) vsched.Verdict {
					v := strings.Join(troubles.Items(), "; ")
					n := map[string]int{}
					for _, d := range delivered.Items() {
						n[d]++
					}
					want := map[string]int{"1": 1, "2": 1}
					bads := 1
					if s.more {
						want["3"] = 1
						bads++
					}
					if s.warm {
						want["100"] = 1
					}
					if s.stage == "count" {
						want["-1"] = bads
					}
					if v == "" && fmt.Sprint(n) != fmt.Sprint(want) {
						v = fmt.Sprintf("arrived: %v instead of %v", n, want)
					}
					// a handler made before the bad event serves it without HandlerOf
					if v == "" && s.stage != "HandlerOf" && len(reported.Items()) < bads {
						v = fmt.Sprintf("%d bad events, %d reports", bads, len(reported.Items()))
					}
					if s.stage == "HandlerOf" {
						v = ""
						if n["2"] > 1 || n["1"] > 1 {
							v = fmt.Sprintf("arrived: %v", n)
						}
						if len(troubles.Items()) != 0 {
							v = strings.Join(troubles.Items(), "; ")
						}
						for _, k := range []string{"1", "2"} {
							if n[k] == 0 {
								v = fmt.Sprintf("good event %s was lost", k)
							}
						}
					}
					if o.End != "" {
						v = "execution ended abnormally: " + o.End
					}
					return vsched.Verdict{Obs: fmt.Sprint(n, len(reported.Items())), Violation: v}
				}
			})
		}
	}
}

func main() {
	vsync.Mark()
	harn.Main(harn.Check{
		ID: "C07", Level: "model_checking", StateMeaning: "distinct (fault plan or bad event, place in the history, outcome) and (scenario, delivered and reported) pairs",
		Bounds: func(tier string) string {
			n := "3"
			if tier == "thorough" {
				n = "4"
			}
			return "histories of " + n + " events (2 names, 2 places, 4 kinds) x all subsets of failing calls (1st..4th and later) of 11 kinds of component failures, and pairs of them with one event less; 89 property values x 13 property lists x 11 event names x 6 functions (one of them in a context that suppresses the level) x 5 errors x 5 formats, each followed by 3 events; 29 calls x 5 formats from stacks of 0..200 kB with garbage collections; all sequences of up to 2 (thorough 4) of 6 troubles followed by two events, one logged while the other is formatted or written, in 4 sizes and 4 formats; 2 goroutines with 1..2 bad events, preemptions <=3 (4)"
		},
		Assumptions: []string{"values whose text is finite: a cyclic value is not logged", "panics with values other than nil; components do not end the goroutine or block for ever", "loglog.Error itself does not panic"},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{
				{Name: "plans", Shards: 16, Run: plans},
				{Name: "poisons", Shards: 16, Run: poisons},
				{Name: "afterwards", Shards: 8, Run: afterwards},
				{Name: "memory", Shards: 4, Run: memory},
				{Name: "schedules", Shards: 8, Run: schedules(false)},
				{Name: "race", Race: true, Shards: 8, Run: schedules(true)},
			}
		},
	})
}
