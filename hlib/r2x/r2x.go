// Package r2x has the types and values which the checks of reflect2 run over.
package r2x

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unsafe"
)

type Int int
type Str string
type Bytes []byte
type Strs []string
type Map map[string]int
type Func func() int
type Namer interface{ Name() string }
type Both interface {
	Namer
	error
}

type NameV struct{ S string }

func (n NameV) Name() string  { return n.S }
func (n NameV) Error() string { return n.S }

type NameP struct{ A, B int }

func (n *NameP) Name() string  { return fmt.Sprint(n.A) }
func (n *NameP) Error() string { return fmt.Sprint(n.B) }

type NameI int

func (n NameI) Name() string { return strconv.Itoa(int(n)) }

type Text int

func (t Text) String() string { return strconv.Itoa(int(t)) }

type OnePtr struct{ P *int }
type OneMap struct{ M map[string]int }
type OneFunc struct{ F func() int }
type OneChan struct{ C chan int }
type OneUP struct{ U unsafe.Pointer }
type OneOne struct{ X OnePtr }
type OneArr struct{ X [1]*int }
type OneInt struct{ X int }
type OneStr struct{ X string }
type OneIface struct{ X interface{} }
type PtrAndZero struct {
	P *int
	Z struct{}
}
type ZeroAndPtr struct {
	Z struct{}
	P *int
}
type Empty struct{}
type Mixed struct {
	A int8
	B string `json:"b,omitempty"`
	C *int   `x:"1"`
	D []int
	E interface{}
	f int16
	_ int32
	G bool
}
type Padded struct {
	A bool
	B int64
	C bool
	D int32
	E byte
	F [3]byte
}
type Base struct {
	X int
	Y string
}
type Deep struct {
	Head string
	Base
	Tail int
}
type Deeper struct {
	Top bool
	Deep
	Mid byte
	*OnePtr
	End string
}
type ByPtr struct {
	Q int
	*Base
	R int
}
type ByPtrPtr struct {
	S string
	*Deeper
	*ByPtr2
}
type ByPtr2 struct {
	V byte
	W Inner
}
type Inner struct {
	K string
	L [2]int
}
type hidden struct {
	Seen  int
	quiet string
}
type WithHidden struct {
	Z float64
	hidden
}
type Iface struct {
	N int
	error
	Namer
}
type Big struct{ B [200]byte }
type List struct {
	V    int
	Next *List
}

func t[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// Elems are the types that everything is run with.
var Elems = []reflect.Type{
	t[bool](), t[int8](), t[int16](), t[int32](), t[int64](), t[int](), t[uint8](), t[uint16](), t[uint32](), t[uint64](), t[uint](), t[uintptr](),
	t[float32](), t[float64](), t[complex64](), t[complex128](), t[string](), t[Int](), t[Str](),
	t[[]byte](), t[[]int](), t[[]string](), t[[]*int](), t[[]interface{}](), t[[][]int](), t[Bytes](), t[Strs](), t[[]struct{}](),
	t[*int](), t[**int](), t[*string](), t[*Mixed](), t[*[2]int](), t[*[]int](), t[*map[string]int](), t[*interface{}](), t[*List](),
	t[map[string]int](), t[map[int]*int](), t[map[interface{}]interface{}](), t[Map](),
	t[chan int](), t[<-chan int](), t[func() int](), t[Func](), t[unsafe.Pointer](),
	t[interface{}](), t[error](), t[Namer](), t[Both](), t[fmt.Stringer](),
	t[OnePtr](), t[OneMap](), t[OneFunc](), t[OneChan](), t[OneUP](), t[OneOne](), t[OneArr](), t[OneInt](), t[OneStr](), t[OneIface](), t[PtrAndZero](), t[ZeroAndPtr](),
	t[Empty](), t[struct{}](), t[Mixed](), t[Padded](), t[Base](), t[Deep](), t[Deeper](), t[ByPtr](), t[ByPtrPtr](), t[WithHidden](), t[Iface](), t[Big](), t[List](), t[NameV](), t[NameP](), t[NameI](),
	t[[0]int](), t[[0]*int](), t[[1]int](), t[[1]*int](), t[[1]OnePtr](), t[[1][1]*int](), t[[1]string](), t[[2]string](), t[[2]*int](), t[[3]int16](), t[[1]interface{}](), t[[1]map[string]int](), t[[1]unsafe.Pointer](), t[[2]OnePtr](),
}

var impls = []func(i int) interface{}{
	func(i int) interface{} { return NameV{fmt.Sprint("name ", i)} },
	func(i int) interface{} { return &NameP{i, -i} },
	func(i int) interface{} { return NameI(i) },
	func(i int) interface{} { return errors.New(fmt.Sprint("error ", i)) },
	func(i int) interface{} { return Text(i) },
}

// Gen makes a new value of a type: the zero value for 0, and different ones for 1, 2, ...
func Gen(t reflect.Type, i int) reflect.Value { return gen(t, i, 0) }

func gen(t reflect.Type, i int, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if i == 0 {
		return v
	}
	n := int64(i + depth*10)
	if i%2 == 0 {
		n = -n
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(i%2 == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(n * 3)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(n * 5))
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{math.Inf(-1), 1.5, -2.25, math.Copysign(0, -1)}[i%4] + float64(depth))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(n), 0.5))
	case reflect.String:
		v.SetString(strings.Repeat("s", 1+i) + strconv.Itoa(int(n)))
	case reflect.Slice:
		if i%3 == 2 {
			v.Set(reflect.MakeSlice(t, 0, 1))
			break
		}
		v.Set(reflect.MakeSlice(t, 0, i+1))
		if depth < 2 {
			for k := 0; k < i; k++ {
				v.Set(reflect.Append(v, gen(t.Elem(), i+k, depth+1)))
			}
		}
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		if depth < 2 {
			v.Elem().Set(gen(t.Elem(), i, depth+1))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		if depth < 2 {
			for k := 1; k < i; k++ {
				key := gen(t.Key(), k, depth+1)
				if t.Key().Kind() == reflect.Interface {
					key = reflect.ValueOf(k)
				}
				v.SetMapIndex(key, gen(t.Elem(), i+k, depth+1))
			}
		}
	case reflect.Chan:
		v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), i).Convert(t))
	case reflect.Func:
		v.Set(reflect.ValueOf(func() int { return i }).Convert(t))
	case reflect.UnsafePointer:
		p := new([2]int)
		p[0], p[1] = i, i
		v.SetPointer(unsafe.Pointer(p))
	case reflect.Interface:
		if t.NumMethod() == 0 {
			v.Set(reflect.ValueOf([]interface{}{i, fmt.Sprint("text ", i), (*int)(nil), &i, []int{i}, map[string]int{"a": i}, OnePtr{&i}, Mixed{A: 3, B: fmt.Sprint(i)}}[(i-1+depth)%8]))
			break
		}
		if i == 3 { // a nil pointer
			for _, x := range []interface{}{(*NameP)(nil), (*Text)(nil)} {
				if x := reflect.ValueOf(x); x.Type().Implements(t) {
					v.Set(x)
					return v
				}
			}
		}
		for k := range impls {
			if x := reflect.ValueOf(impls[(k+i)%len(impls)](i)); x.Type().Implements(t) {
				v.Set(x)
				break
			}
		}
	case reflect.Struct:
		for k := 0; k < t.NumField(); k++ {
			f := v.Field(k)
			if f.Kind() == reflect.Ptr && f.Type().Elem() == t {
				continue
			}
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(gen(f.Type(), i+k%2, depth+1))
		}
	case reflect.Array:
		for k := 0; k < t.Len(); k++ {
			v.Index(k).Set(gen(t.Elem(), i+k, depth+1))
		}
	}
	return v
}

// Show is the text of a value: its bits, and what its pointers lead to. Values
// with one text are the same value.
func Show(v reflect.Value) string {
	var b strings.Builder
	show(&b, v, 0)
	return b.String()
}

func show(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatUint(math.Float64bits(v.Float()), 16))
	case reflect.Complex64, reflect.Complex128:
		b.WriteString(fmt.Sprint(v.Complex()))
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%x/%d[", v.Pointer(), v.Cap())
		if depth < 4 {
			for i := 0; i < v.Len(); i++ {
				show(b, v.Index(i), depth+1)
				b.WriteByte(' ')
			}
		}
		b.WriteByte(']')
	case reflect.Ptr:
		b.WriteByte('&')
		b.WriteString(strconv.FormatUint(uint64(v.Pointer()), 16))
		if !v.IsNil() && depth < 4 {
			b.WriteByte(':')
			show(b, v.Elem(), depth+1)
		}
	case reflect.Map:
		b.WriteString(strconv.FormatUint(uint64(v.Pointer()), 16))
		var es []string
		if depth < 4 {
			for it := v.MapRange(); it.Next(); {
				var e strings.Builder
				show(&e, it.Key(), depth+1)
				e.WriteByte(':')
				show(&e, it.Value(), depth+1)
				es = append(es, e.String())
			}
		}
		for i := range es {
			for j := i; j > 0 && es[j] < es[j-1]; j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		b.WriteString("{" + strings.Join(es, " ") + "}")
	case reflect.Chan, reflect.Func:
		b.WriteString(strconv.FormatUint(uint64(v.Pointer()), 16))
	case reflect.UnsafePointer:
		b.WriteString(strconv.FormatUint(uint64(v.Pointer()), 16))
		if p := (*[2]int)(unsafe.Pointer(v.Pointer())); p != nil {
			b.WriteString(fmt.Sprint(*p))
		}
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		e := v.Elem()
		b.WriteString(e.Type().String())
		b.WriteByte('(')
		show(b, e, depth+1)
		b.WriteByte(')')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			show(b, v.Field(i), depth)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			show(b, v.Index(i), depth)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	}
}

// ShowObj is the text of what is in an interface, with its type.
func ShowObj(obj interface{}) string {
	if obj == nil {
		return "nil"
	}
	v := reflect.ValueOf(obj)
	return v.Type().String() + " " + Show(v)
}
