// C12: the JSON encoder writes every composite value as the JSON document that
// its type and content say. All types of a grammar x all their small values,
// compared with a reference that walks the value with package reflect.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"

	"verif/harn"
	"verif/vsched"
)

// ---- types with methods, and recursive ones

type errV struct{ N int }

func (e errV) Error() string { return fmt.Sprint("err\"", e.N) }

type errP struct{ N int }

func (e *errP) Error() string { return fmt.Sprint("perr\n", e.N) }

type errOne struct{ P *int }

func (e errOne) Error() string {
	if e.P == nil {
		return "none"
	}
	return fmt.Sprint("one ", *e.P)
}

type marV int

func (m marV) MarshalJSON() ([]byte, error) {
	if m == 13 {
		return nil, errors.New("unlucky \"13\"")
	}
	if m == 14 {
		return []byte(`{"half":`), errors.New("broken off")
	}
	return []byte(fmt.Sprintf(`{"mar":[%d]}`, int(m))), nil
}

type marP struct{ N int }

func (m *marP) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"marp%d"`, m.N)), nil }

type marS string

func (m marS) MarshalJSON() ([]byte, error) { return json.Marshal("s:" + string(m)) }

type special struct{ N int }

type (
	node struct {
		V    int
		Next *node
	}
	tree   []tree
	dict   map[string]dict
	person struct {
		Name  string
		Boss  *person
		Staff []*person
		Home  house
		By    map[int]*person
	}
	house struct {
		Owner *person
		Next  *house
		Any   interface{}
	}
	embedded struct {
		node
		Tree  tree
		Inner struct {
			A *embedded
			B [2]*node
		}
	}
	withTime struct {
		time.Time
		X int
	}
	Base  struct{ B1, B2 int }
	outer struct {
		Base
		*errP2
		C int
	}
	errP2  struct{ Z int }
	tagged struct {
		A int    `json:"a"`
		B string `json:"b,omitempty"`
		C int    `json:"-"`
		D int    `json:",omitempty"`
		E int    `json:"quo\"te\\"`
		F func()
		G chan int
		h int
		H *int `json:"h" xml:"z"`
		é int
		É int
	}
	hidden struct {
		a int8
		B *int
		c struct{ d string }
		e interface{}
	}
	onePtr  struct{ P *int }
	oneOne  struct{ O onePtr }
	oneMap  struct{ M map[string]int }
	oneArr  struct{ A [1]*int }
	oneFace struct{ I interface{} }
	bad     struct {
		A int
		C map[string]chan int
		U unsafe.Pointer
		Z complex64
		B int
	}
	key2    struct{ A, B int }
	textKey string
)

// ---- reference

type doc struct {
	kind  byte   // n: null, true, false, number; s: string; a: array; o: object in order; m: object in any order; ?: a string, any
	text  string // of n and s
	keys  []string
	elems []doc
}

var (
	errorType     = reflect.TypeOf((*error)(nil)).Elem()
	marshalerType = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	bytesType     = reflect.TypeOf([]byte(nil))
	specialType   = reflect.TypeOf(special{})
)

type rules struct {
	unexported bool
	extension  bool
}

var null = doc{kind: 'n', text: "null"}

// reference walks an addressable value
func (r *rules) reference(v reflect.Value) doc {
	t := v.Type()
	if r.extension && t == specialType {
		return doc{kind: 's', text: fmt.Sprint("special ", v.Interface().(special).N)}
	}
	nilPtr := func() bool {
		if v.Kind() == reflect.Interface {
			return v.IsNil() || v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil()
		}
		return v.Kind() == reflect.Ptr && v.IsNil()
	}
	switch {
	case t == bytesType:
		text := ""
		for _, b := range v.Bytes() {
			if b < 0x20 || b >= 0x80 {
				text += fmt.Sprintf("\\x%02x", b)
			} else {
				text += string([]byte{b})
			}
		}
		return doc{kind: 's', text: text}
	case t.Implements(errorType):
		if nilPtr() {
			return null
		}
		return doc{kind: 's', text: v.Interface().(error).Error()}
	case t.Implements(marshalerType):
		if nilPtr() {
			return null
		}
		b, err := v.Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			return doc{kind: 's', text: err.Error()}
		}
		d, err := parse(string(b))
		if err != nil {
			panic(err)
		}
		return d
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return doc{kind: 'n', text: fmt.Sprint(v.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return doc{kind: 'n', text: fmt.Sprint(v.Uint())}
	case reflect.Bool:
		return doc{kind: 'n', text: fmt.Sprint(v.Bool())}
	case reflect.Float32, reflect.Float64:
		return doc{kind: 'n', text: fmt.Sprint(v.Float())}
	case reflect.String:
		return doc{kind: 's', text: v.String()}
	case reflect.Ptr:
		if v.IsNil() {
			return null
		}
		return r.reference(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return null
		}
		return r.reference(addressable(v.Elem()))
	case reflect.Slice, reflect.Array:
		d := doc{kind: 'a'}
		for i := 0; i < v.Len(); i++ {
			d.elems = append(d.elems, r.reference(v.Index(i)))
		}
		return d
	case reflect.Struct:
		d := doc{kind: 'o'}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !r.unexported || f.Type.Kind() == reflect.Func || f.Type.Kind() == reflect.Chan {
				continue
			}
			name := f.Name
			if tag := strings.Split(f.Tag.Get("json"), ","); tag[0] == "-" {
				continue
			} else if tag[0] != "" {
				name = tag[0]
			}
			d.keys = append(d.keys, name)
			fv := v.Field(i)
			if f.PkgPath != "" {
				fv = reflect.NewAt(f.Type, unsafe.Pointer(fv.UnsafeAddr())).Elem()
			}
			d.elems = append(d.elems, r.reference(fv))
		}
		return d
	case reflect.Map:
		if v.IsNil() {
			return null
		}
		d := doc{kind: 'm'}
		for _, k := range v.MapKeys() {
			kd := r.reference(addressable(k))
			if kd.kind == 's' || kd.kind == 'n' {
				d.keys = append(d.keys, kd.text)
			} else {
				d.keys = append(d.keys, render(kd))
			}
			d.elems = append(d.elems, r.reference(addressable(v.MapIndex(k))))
		}
		return d
	}
	return doc{kind: '?'}
}

// render writes compact JSON in the order of the document
func render(d doc) string {
	quote := func(s string) string {
		b := &bytes.Buffer{}
		e := json.NewEncoder(b)
		e.SetEscapeHTML(false)
		e.Encode(s)
		return strings.TrimSuffix(b.String(), "\n")
	}
	switch d.kind {
	case 's':
		return quote(d.text)
	case 'a':
		var s []string
		for _, e := range d.elems {
			s = append(s, render(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case 'o', 'm':
		var s []string
		for i, e := range d.elems {
			s = append(s, quote(d.keys[i])+":"+render(e))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return d.text
}

func addressable(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Elem()
}

// ---- reading JSON back, keeping the order

func parse(s string) (d doc, err error) {
	if !json.Valid([]byte(s)) {
		return d, errors.New("not valid JSON")
	}
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	return parse1(dec)
}

func parse1(dec *json.Decoder) (d doc, err error) {
	t, err := dec.Token()
	if err != nil {
		return d, err
	}
	switch v := t.(type) {
	case json.Delim:
		if v == '[' {
			d.kind = 'a'
			for dec.More() {
				e, err := parse1(dec)
				if err != nil {
					return d, err
				}
				d.elems = append(d.elems, e)
			}
		} else {
			d.kind = 'o'
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return d, err
				}
				e, err := parse1(dec)
				if err != nil {
					return d, err
				}
				d.keys = append(d.keys, k.(string))
				d.elems = append(d.elems, e)
			}
		}
		_, err = dec.Token()
		return d, err
	case nil:
		return null, nil
	case string:
		return doc{kind: 's', text: v}, nil
	}
	return doc{kind: 'n', text: fmt.Sprint(t)}, nil
}

func match(want, got doc) string {
	if want.kind == '?' {
		if got.kind != 's' || !strings.HasPrefix(got.text, "can not encode") {
			return fmt.Sprintf("%q for what can not be encoded", got.text)
		}
		return ""
	}
	w := want.kind
	if w == 'm' {
		w = 'o'
	}
	if w != got.kind || want.text != got.text || len(want.elems) != len(got.elems) {
		return fmt.Sprintf("%s instead of %s", render(got), render(want))
	}
	if want.kind == 'm' {
		sortDoc(&want)
		sortDoc(&got)
	}
	for i := range want.elems {
		if len(want.keys) > 0 && want.keys[i] != got.keys[i] {
			return fmt.Sprintf("key %q instead of %q", got.keys[i], want.keys[i])
		}
		if e := match(want.elems[i], got.elems[i]); e != "" {
			return e
		}
	}
	return ""
}

func sortDoc(d *doc) {
	idx := make([]int, len(d.keys))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return d.keys[idx[a]] < d.keys[idx[b]] })
	o := doc{kind: d.kind}
	for _, i := range idx {
		o.keys = append(o.keys, d.keys[i])
		o.elems = append(o.elems, d.elems[i])
	}
	*d = o
}

// ---- ways to encode a value

var ifaceField = reflect.TypeOf(oneFace{})

func encodeWith(api jsonfmt.API, obj interface{}) string {
	return string(api.EncoderOfObject(obj).Encode(context.Background(), nil, reflect2.PtrOf(obj)))
}

// check encodes v in all ways
func check(v reflect.Value, r *rules, api jsonfmt.API) string {
	v = addressable(v)
	want := r.reference(v)
	vsched.ResetTicks(200000 + 1000*len(render(want)))
	obj := v.Interface()
	try := func(how string, want doc, enc func(obj interface{}) string, obj interface{}) string {
		out := enc(obj)
		got, err := parse(out)
		if err != nil {
			return fmt.Sprintf("%s: %s: %v", how, out, err)
		}
		if e := match(want, got); e != "" {
			return fmt.Sprintf("%s: %s: %s", how, out, e)
		}
		return ""
	}
	enc := jsonfmt.MarshalToString
	if api != nil {
		enc = func(obj interface{}) string { return encodeWith(api, obj) }
	}
	if e := try("value", want, enc, obj); e != "" {
		return e
	}
	if e := try("pointer", want, enc, v.Addr().Interface()); e != "" {
		if !reflect.PtrTo(v.Type()).Implements(errorType) && !reflect.PtrTo(v.Type()).Implements(marshalerType) {
			return e
		}
	}
	if e := try("in a slice of interfaces", doc{kind: 'a', elems: []doc{want, want}}, enc, []interface{}{obj, obj}); e != "" {
		return e
	}
	if e := try("in an interface field", doc{kind: 'o', keys: []string{"I"}, elems: []doc{want}}, enc, oneFace{obj}); e != "" {
		return e
	}
	return try("in a map", doc{kind: 'm', keys: []string{"k"}, elems: []doc{want}}, enc, map[string]interface{}{"k": obj})
}

// ---- types and their values

var one, two = 1, 2

func rv(vs ...interface{}) (r []reflect.Value) {
	for _, v := range vs {
		r = append(r, reflect.ValueOf(v))
	}
	return
}

type typ struct {
	t    reflect.Type
	vals []reflect.Value
}

func leafTypes() []typ {
	iface := func(p interface{}, vals ...interface{}) typ {
		t := reflect.TypeOf(p).Elem()
		ty := typ{t: t, vals: []reflect.Value{reflect.Zero(t)}}
		for _, v := range vals {
			x := reflect.New(t).Elem()
			x.Set(reflect.ValueOf(v))
			ty.vals = append(ty.vals, x)
		}
		return ty
	}
	plain := func(vs ...interface{}) typ { return typ{reflect.TypeOf(vs[0]), rv(vs...)} }
	return []typ{
		plain(true, false), plain(int(-7), 0), plain(int8(-128), int8(5)), plain(uint8(255)), plain(int16(-300)), plain(uint16(65535)), plain(int32(-5)),
		plain(uint32(1234567890), uint32(0)), plain(int64(-1 << 62)), plain(uint64(1 << 63)), plain(uint(7)), plain(uintptr(9)),
		plain(float64(1.5), float64(-0.25)), plain(float32(0.5)), plain("a\"b", ""), plain([]byte("xy"), []byte(nil)),
		plain(marV(3), marV(13), marV(14)), plain(marS("q")), plain(errV{1}), plain(&errP{2}, (*errP)(nil)), plain(errOne{}, errOne{&one}),
		plain(&marP{4}, (*marP)(nil)), plain(marP{5}), plain(errP{6}), plain(time.Unix(0, 0).UTC()),
		plain(struct{}{}), plain(make(chan int)), plain((func())(nil)), plain(textKey("t")), plain(key2{1, 2}),
		plain(onePtr{}, onePtr{&two}),
		iface((*interface{})(nil), 1, "s", &one, onePtr{&one}, map[string]int{"x": 1}, errV{7}, []int{1}, (*int)(nil), (*errP)(nil)),
		iface((*error)(nil), errV{1}, &errP{3}, (*errP)(nil), errOne{&one}),
		iface((*json.Marshaler)(nil), marV(8), &marP{9}, (*marP)(nil), marV(13), marV(14)),
		iface((*fmt.Stringer)(nil), time.Unix(1, 0).UTC(), reflect.TypeOf(0).Kind()),
	}
}

func few(vs []reflect.Value, n int) []reflect.Value {
	if len(vs) > n {
		return vs[:n]
	}
	return vs
}

// composites are all the types one constructor away
func composites(base typ) (r []typ) {
	t := base.t
	vals := base.vals
	ptr := typ{t: reflect.PtrTo(t), vals: []reflect.Value{reflect.Zero(reflect.PtrTo(t))}}
	sl := typ{t: reflect.SliceOf(t), vals: []reflect.Value{reflect.Zero(reflect.SliceOf(t)), reflect.MakeSlice(reflect.SliceOf(t), 0, 1)}}
	a0 := typ{t: reflect.ArrayOf(0, t), vals: []reflect.Value{reflect.New(reflect.ArrayOf(0, t)).Elem()}}
	a1 := typ{t: reflect.ArrayOf(1, t)}
	a2 := typ{t: reflect.ArrayOf(2, t)}
	s1 := typ{t: reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}})}
	s2 := typ{t: reflect.StructOf([]reflect.StructField{{Name: "X", Type: reflect.TypeOf(int8(0))}, {Name: "A", Type: t}, {Name: "B", Type: t, Tag: `json:"b"`}})}
	ms := typ{t: reflect.MapOf(reflect.TypeOf(""), t)}
	mi := typ{t: reflect.MapOf(reflect.TypeOf(uint16(0)), t)}
	ms.vals = []reflect.Value{reflect.Zero(ms.t), reflect.MakeMap(ms.t)}
	mi.vals = []reflect.Value{reflect.Zero(mi.t)}
	for i, v := range vals {
		w := vals[(i+1)%len(vals)]
		p := reflect.New(t)
		p.Elem().Set(v)
		ptr.vals = append(ptr.vals, p)
		s := reflect.MakeSlice(sl.t, 3, 3)
		s.Index(0).Set(v)
		s.Index(1).Set(w)
		s.Index(2).Set(v)
		sl.vals = append(sl.vals, s.Slice(0, 1), s)
		x := reflect.New(a1.t).Elem()
		x.Index(0).Set(v)
		a1.vals = append(a1.vals, x)
		x = reflect.New(a2.t).Elem()
		x.Index(0).Set(w)
		x.Index(1).Set(v)
		a2.vals = append(a2.vals, x)
		x = reflect.New(s1.t).Elem()
		x.Field(0).Set(v)
		s1.vals = append(s1.vals, x)
		x = reflect.New(s2.t).Elem()
		x.Field(0).SetInt(-3)
		x.Field(1).Set(v)
		x.Field(2).Set(w)
		s2.vals = append(s2.vals, x)
		m := reflect.MakeMap(ms.t)
		m.SetMapIndex(reflect.ValueOf("k"), v)
		ms.vals = append(ms.vals, m)
		m = reflect.MakeMap(ms.t)
		m.SetMapIndex(reflect.ValueOf("k\""), v)
		m.SetMapIndex(reflect.ValueOf(""), w)
		ms.vals = append(ms.vals, m)
		m = reflect.MakeMap(mi.t)
		for k := 0; k < 20; k++ {
			m.SetMapIndex(reflect.ValueOf(uint16(k*997)), []reflect.Value{v, w}[k%2])
		}
		mi.vals = append(mi.vals, m)
	}
	r = append(r, ptr, sl, a0, a1, a2, s1, s2, ms, mi)
	if hashable(base) {
		mk := typ{t: reflect.MapOf(t, reflect.TypeOf(0))}
		for i, v := range vals {
			m := reflect.MakeMap(mk.t)
			m.SetMapIndex(v, reflect.ValueOf(i))
			mk.vals = append(mk.vals, m)
		}
		all := reflect.MakeMap(mk.t)
		keys := map[string]bool{}
		for i, v := range vals {
			k := render((&rules{}).reference(addressable(v)))
			k = strings.Trim(k, `"`)
			if !keys[k] {
				keys[k] = true
				all.SetMapIndex(v, reflect.ValueOf(i))
			}
		}
		mk.vals = append(mk.vals, all)
		r = append(r, mk)
	}
	return
}

func hashable(t typ) bool {
	if !t.t.Comparable() {
		return false
	}
	for _, v := range t.vals {
		if unsupported((&rules{}).reference(addressable(v))) {
			return false
		}
		if !comparable1(v) {
			return false
		}
	}
	return true
}

func unsupported(d doc) bool {
	for _, e := range d.elems {
		if unsupported(e) {
			return true
		}
	}
	// the text of a map depends on its order, so it is no key
	return d.kind == '?' || d.kind == 'm'
}

func comparable1(v reflect.Value) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	i := v.Interface()
	return i == i || true
}

func run(depth int) func(c *harn.Ctx) {
	return func(c *harn.Ctx) {
		r := &rules{}
		var rec func(t typ, left int)
		rec = func(t typ, left int) {
			// beyond the first level two values are enough
			if left < depth && len(t.vals) > 12 {
				t.vals = t.vals[:12]
			}
			tt := t
			c.Case("", func() string { return "type " + clip(tt.t.String()) }, func() string {
				c.State(tt.t.String())
				api := jsonfmt.Config{}.Froze()
				for i, v := range tt.vals {
					c.Trans(1)
					if e := check(v, r, nil); e != "" {
						return fmt.Sprintf("value %d: %s", i, e)
					}
					if e := check(v, r, api); e != "" {
						return fmt.Sprintf("value %d, new config: %s", i, e)
					}
				}
				return ""
			})
			if left == 0 {
				return
			}
			if left < depth {
				t.vals = few(t.vals, 3)
			}
			for _, u := range composites(t) {
				rec(u, left-1)
			}
		}
		for _, l := range leafTypes() {
			rec(l, depth)
		}
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// ---- hand-written types

func people() *person {
	boss := &person{Name: "boss"}
	p := &person{Name: "p", Boss: boss, Staff: []*person{nil, boss}, By: map[int]*person{1: boss, 2: nil}}
	p.Home = house{Owner: boss, Next: &house{Any: house{Any: boss}}, Any: []person{{Name: "x"}}}
	return p
}

func written() []interface{} {
	e := embedded{node: node{1, nil}, Tree: tree{nil, {}, {{}}}}
	e.Inner.A = &embedded{}
	e.Inner.B[1] = &node{5, &node{6, nil}}
	return append(twins(), []interface{}{
		node{1, &node{2, nil}}, tree{{{}, {}}, nil}, dict{"a": {"b": nil}, "c": {}}, *people(), house{Owner: people()}, e, withTime{time.Unix(5, 0).UTC(), 3},
		outer{Base{1, 2}, nil, 3}, outer{Base{1, 2}, &errP2{4}, 3}, tagged{A: 1, B: "x", C: 2, D: 3, E: 4, H: &two, é: 5, É: 6, h: 7}, hidden{a: 1, B: &one, e: onePtr{&two}},
		onePtr{&one}, onePtr{}, oneOne{onePtr{&two}}, oneMap{map[string]int{"z": 26}}, oneMap{}, oneArr{[1]*int{&one}}, oneFace{}, oneFace{oneFace{oneOne{}}},
		bad{A: 1, C: map[string]chan int{"c": nil}, B: 2}, [1]onePtr{{&one}}, [1]map[int]int{{1: 2}}, []onePtr{{}, {&two}}, map[onePtr]int{{nil}: 1}, map[key2]string{{1, 2}: "k"},
		map[error]int{errV{1}: 1, nil: 2}, map[fmt.Stringer]int{time.Duration(5): 1}, map[interface{}]interface{}{1: 2, "a": nil, nil: 3, 1.5: marV(1), onePtr{nil}: 4, true: onePtr{&one}},
		map[[2]int8]bool{{1, 2}: true}, map[time.Time]int{time.Unix(9, 0).UTC(): 1}, map[bool]int{true: 1, false: 0}, map[marS]int{"x": 1}, map[marV]int{13: 1}, map[*int]int{nil: 1},
		map[string]map[string][]map[int]*node{"x": {"y": {{1: {2, nil}}, nil}}}, complex(1, 2), special{3}, []special{{4}}, &special{5}, map[special]special{{6}: {7}},
		oneFace{special{8}}, map[string]interface{}{"s": &special{9}}, []interface{}{nil, []interface{}{}, special{1}}, map[textKey]special{"t": {1}}, [2]interface{}{},
		[]interface{}{hidden{a: 3, B: &two}, &hidden{a: 4}}, oneFace{hidden{a: 5}}, map[interface{}]hidden{"x": {a: 6}}, map[string]interface{}{"x": []interface{}{hidden{a: 7}}},
	}...)
}

// twins are values of other types with the names of those above.
func twins() []interface{} {
	type node struct{ Next, Other string }
	type onePtr struct {
		A int
		B *string
	}
	type errV struct{ N int }
	type marV int8
	type marS []byte
	type special struct{ X, N string }
	type textKey int
	type key2 struct{ C string }
	type tree map[string]int
	type outer struct{ X, Y, Z float64 }
	return []interface{}{node{"a", "b"}, &node{"c", "d"}, []node{{"e", "f"}}, map[string]node{"g": {"h", "i"}}, onePtr{A: 1}, errV{5}, marV(3), marS("y"), special{"s", "t"}, []special{{"u", "v"}}, textKey(4), map[textKey]int{5: 6},
		map[key2]string{{"k"}: "l"}, tree{"m": 1}, outer{1, 2, 3}, [1]onePtr{{A: 2}}, map[onePtr]int{{A: 3}: 4}, map[special]special{{"w", "x"}: {"y", "z"}}}
}

type ext struct{}

func (ext) EncoderOf(prefix string, valType reflect.Type) jsonfmt.Encoder {
	if valType == specialType {
		return ext{}
	}
	return nil
}

func (ext) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
	return jsonfmt.WriteString(space, fmt.Sprint("special ", (*special)(ptr).N))
}

func handWritten(c *harn.Ctx) {
	vals := written()
	configs := []struct {
		name string
		cfg  jsonfmt.Config
		r    rules
	}{
		{"default", jsonfmt.Config{}, rules{}},
		{"with unexported fields", jsonfmt.Config{IncludesUnexported: true}, rules{unexported: true}},
		{"with an extension", jsonfmt.Config{Extensions: []jsonfmt.Extension{ext{}}}, rules{extension: true}},
		{"with both", jsonfmt.Config{IncludesUnexported: true, Extensions: []jsonfmt.Extension{ext{}}}, rules{true, true}},
	}
	for i := range vals {
		for j := range vals {
			for k := range configs {
				i, j, k := i, j, k
				c.Case("", func() string { return fmt.Sprintf("config %s, first %T, then %T", configs[k].name, vals[i], vals[j]) }, func() string {
					c.State(fmt.Sprintf("%T", vals[j]))
					c.Trans(1)
					api := configs[k].cfg.Froze()
					if e := check(reflect.ValueOf(vals[i]), &configs[k].r, api); e != "" {
						return "first: " + e
					}
					if e := check(reflect.ValueOf(vals[j]), &configs[k].r, api); e != "" {
						return e
					}
					if k == 0 {
						return check(reflect.ValueOf(vals[j]), &configs[k].r, nil)
					}
					return ""
				})
			}
		}
	}
	// two configurations in use at a time
	for i := range vals {
		for k := range configs {
			for l := range configs {
				i, k, l := i, k, l
				if k == l {
					continue
				}
				c.Case("", func() string {
					return fmt.Sprintf("%T with config %s, then with config %s", vals[i], configs[k].name, configs[l].name)
				}, func() string {
					c.Trans(1)
					a, b := configs[k].cfg.Froze(), configs[l].cfg.Froze()
					v := reflect.ValueOf(vals[i])
					if e := check(v, &configs[k].r, a); e != "" {
						return "first: " + e
					}
					if e := check(v, &configs[l].r, b); e != "" {
						return "second: " + e
					}
					if e := check(v, &configs[k].r, a); e != "" {
						return "first again: " + e
					}
					return ""
				})
			}
		}
	}
	c.Case("", func() string { return "nil" }, func() string {
		if got := jsonfmt.MarshalToString(nil); got != "null" {
			return got
		}
		if got := encodeWith(jsonfmt.Config{}.Froze(), nil); got != "null" {
			return got
		}
		return ""
	})
}

// ---- structs of several fields

func fieldTypes() []typ {
	of := func(p interface{}, vals ...interface{}) typ {
		t := reflect.TypeOf(p).Elem()
		ty := typ{t: t, vals: []reflect.Value{reflect.Zero(t)}}
		for _, v := range vals {
			x := reflect.New(t).Elem()
			x.Set(reflect.ValueOf(v))
			ty.vals = append(ty.vals, x)
		}
		return ty
	}
	return []typ{of((**int)(nil), &one), of((*struct{})(nil)), of((*[0]*int)(nil)), of((*int8)(nil), int8(-1)), of((*map[string]int)(nil), map[string]int{"k": 1}),
		of((*interface{})(nil), onePtr{&two}), of((*onePtr)(nil), onePtr{&one}), of((*string)(nil), "s"), of((*[1]*int)(nil), [1]*int{&two}),
		of((*func())(nil)), of((*error)(nil), errOne{&one}), of((*[]int)(nil), []int{1, 2}), of((*uint64)(nil), uint64(1)<<63), of((*chan int)(nil)),
		of((*struct{ A, B int16 })(nil), struct{ A, B int16 }{1, 2}), of((*complex128)(nil), 1i)}
}

func structOf(fields []typ, tags []reflect.StructTag) typ {
	var fs []reflect.StructField
	for i, f := range fields {
		sf := reflect.StructField{Name: string(rune('A' + i)), Type: f.t}
		if tags != nil {
			sf.Tag = tags[i]
		}
		fs = append(fs, sf)
	}
	r := typ{t: reflect.StructOf(fs)}
	for k := 0; k < 2; k++ {
		x := reflect.New(r.t).Elem()
		for i, f := range fields {
			x.Field(i).Set(f.vals[(k+1)%len(f.vals)])
		}
		r.vals = append(r.vals, x)
	}
	return r
}

func structs(c *harn.Ctx) {
	ts := fieldTypes()
	r := &rules{}
	n := 2
	if c.Thorough() {
		n = 3
	}
	var rec func(fields []typ)
	rec = func(fields []typ) {
		t := structOf(fields, nil)
		c.Case("", func() string { return "type " + clip(t.t.String()) }, func() string {
			c.State(t.t.String())
			api := jsonfmt.Config{}.Froze()
			for _, u := range []typ{t, structOf([]typ{t}, nil), {reflect.ArrayOf(1, t.t), nil}} {
				if u.vals == nil {
					for _, v := range t.vals {
						x := reflect.New(u.t).Elem()
						x.Index(0).Set(v)
						u.vals = append(u.vals, x)
					}
				}
				for _, v := range u.vals {
					c.Trans(1)
					if e := check(v, r, api); e != "" {
						return u.t.String() + ": " + e
					}
				}
			}
			return ""
		})
		if len(fields) < n {
			for _, f := range ts {
				rec(append(fields[:len(fields):len(fields)], f))
			}
		}
	}
	for _, f := range ts {
		rec([]typ{f})
	}
	// the same tags on other fields, in any order
	tags := []reflect.StructTag{"", `json:"b"`, `json:"-"`, `json:",string"`, `json:"A"`, `other:"x"`, `json:"-,"`, `json:"q,omitempty" x:"y"`}
	var tagged []typ
	for _, t1 := range tags {
		for _, f := range []string{"A", "C", "É"} {
			for _, ft := range ts[:4] {
				t := typ{t: reflect.StructOf([]reflect.StructField{{Name: f, Type: ft.t, Tag: t1}, {Name: "Z", Type: reflect.TypeOf(0), Tag: `json:",string"`}})}
				x := reflect.New(t.t).Elem()
				x.Field(0).Set(ft.vals[len(ft.vals)-1])
				t.vals = []reflect.Value{x}
				tagged = append(tagged, t)
			}
		}
	}
	for i := range tagged {
		for j := range tagged {
			i, j := i, j
			c.Case("", func() string { return fmt.Sprintf("type %s after %s", tagged[j].t, tagged[i].t) }, func() string {
				c.Trans(2)
				api := jsonfmt.Config{}.Froze()
				if e := check(tagged[i].vals[0], r, api); e != "" {
					return e
				}
				return check(tagged[j].vals[0], r, api)
			})
		}
	}
}

// ---- two goroutines encode types not seen before

func concurrent(c *harn.Ctx) {
	p := people()
	vals := []interface{}{*p, p.Home, node{1, &node{2, nil}}, map[interface{}]*node{1: {1, nil}}, []interface{}{errV{1}, 1}, tree{{}}}
	for _, v := range vals {
		encodeWith(jsonfmt.Config{}.Froze(), v) // the types are known to reflect2 then, as in all further executions
	}
	n := 1
	if c.Thorough() {
		n = 2
	}
	for i := range vals {
		for j := i; j < len(vals); j++ {
			i, j := i, j
			n := n
			if i >= 2 && n < 2 {
				n = 2
			}
			c.Explore(fmt.Sprintf("%T, %T", vals[i], vals[j]), "", harn.Bounds(n, 0, 0, 0), vsched.Options{}, func() (func(), func(o *vsched.Outcome) vsched.Verdict) {
				api := jsonfmt.Config{}.Froze()
				out := make([]vsched.Journal, 2)
				return func() {
						var hs []*vsched.ThreadHandle
						for g, k := range []int{i, j} {
							g, k := g, k
							hs = append(hs, vsched.Go(func() { out[g].Add(encodeWith(api, vals[k])) }))
						}
						for _, h := range hs {
							h.Join()
						}
					}, func(o *vsched.Outcome) vsched.Verdict {
						v := ""
						for g, k := range []int{i, j} {
							items := out[g].Items()
							if len(items) != 1 {
								v = "no output"
								continue
							}
							got, err := parse(items[0])
							if err != nil {
								v = items[0] + ": " + err.Error()
							} else if e := match((&rules{}).reference(addressable(reflect.ValueOf(vals[k]))), got); e != "" {
								v = items[0] + ": " + e
							}
						}
						if o.End != "" {
							v = "execution ended abnormally: " + o.End
						}
						return vsched.Verdict{Obs: o.End, Violation: v}
					}
			})
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C12", Level: "model_checking", StateMeaning: "distinct types; transitions are values encoded in ten ways",
		Bounds: func(tier string) string {
			d := 2
			if tier == "thorough" {
				d = 3
			}
			return fmt.Sprintf("all types of up to %d constructors (pointer, slice, arrays, structs, maps as value and as key) over 34 basic, interface, error and marshaler types x their small values; all ordered pairs of some 80 hand-written values (recursive, embedded, tagged, single-pointer, unsupported types) x 4 configurations, and each with two configurations in turn; all structs of 1..2 (thorough 3) fields of 16 types incl. types of size zero, also in one-field structs and arrays; all ordered pairs of 96 structs with the same or other tags; two goroutines building encoders of recursive types, 1 preemption (2 for the smaller; thorough: 2 for all)", d)
		},
		Jobs: func(tier string) []harn.Job {
			d := 2
			if tier == "thorough" {
				d = 3
			}
			return []harn.Job{{Name: "types", Shards: 8, Run: run(d)}, {Name: "written", Shards: 8, Run: handWritten}, {Name: "structs", Shards: 8, Run: structs},
				{Name: "concurrent", Shards: 4, Run: concurrent}, {Name: "race", Shards: 4, Run: concurrent, Race: true}}
		},
	})
}
