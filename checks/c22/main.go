// C22: the checked operations of reflect2 reject arguments of other types and
// indexes out of range, and change nothing then.
package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/v2pro/plz/reflect2"

	"verif/harn"
	"verif/hlib/r2x"
)

func box(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

// op is an operation with arguments of these types, besides an index
type op struct {
	name string
	args []reflect.Type
	// nilOK is set if nil stands for something
	nilOK bool
	f     func(args []interface{})
}

// opsOf lists the operations of a type
func opsOf(t reflect.Type) (r []op) {
	t2 := reflect2.Type2(t)
	pt := reflect.PtrTo(t)
	r = append(r,
		op{"Type.Set", []reflect.Type{pt, pt}, false, func(a []interface{}) { t2.Set(a[0], a[1]) }},
		op{"Type.Indirect", []reflect.Type{pt}, false, func(a []interface{}) { t2.Indirect(a[0]) }},
	)
	r = append(r, op{"Type.IsNil", []reflect.Type{pt}, true, func(a []interface{}) { t2.IsNil(a[0]) }})
	switch t.Kind() {
	case reflect.Slice:
		st := t2.(reflect2.SliceType)
		pe := reflect.PtrTo(t.Elem())
		r = append(r,
			op{"SliceType.SetIndex", []reflect.Type{pt, pe}, false, func(a []interface{}) { st.SetIndex(a[0], 0, a[1]) }},
			op{"SliceType.GetIndex", []reflect.Type{pt}, false, func(a []interface{}) { st.GetIndex(a[0], 0) }},
			op{"SliceType.Append", []reflect.Type{pt, pe}, false, func(a []interface{}) { st.Append(a[0], a[1]) }},
			op{"SliceType.Grow", []reflect.Type{pt}, false, func(a []interface{}) { st.Grow(a[0], 3) }},
			op{"SliceType.LengthOf", []reflect.Type{pt}, false, func(a []interface{}) { st.LengthOf(a[0]) }},
			op{"SliceType.Cap", []reflect.Type{pt}, false, func(a []interface{}) { st.Cap(a[0]) }},
			op{"SliceType.SetNil", []reflect.Type{pt}, false, func(a []interface{}) { st.SetNil(a[0]) }},
		)
	case reflect.Array:
		if t.Len() == 0 {
			break
		}
		at := t2.(reflect2.ArrayType)
		pe := reflect.PtrTo(t.Elem())
		r = append(r,
			op{"ArrayType.SetIndex", []reflect.Type{pt, pe}, false, func(a []interface{}) { at.SetIndex(a[0], 0, a[1]) }},
			op{"ArrayType.GetIndex", []reflect.Type{pt}, false, func(a []interface{}) { at.GetIndex(a[0], 0) }},
		)
	case reflect.Map:
		mt := t2.(reflect2.MapType)
		pk, pe := reflect.PtrTo(t.Key()), reflect.PtrTo(t.Elem())
		r = append(r,
			op{"MapType.SetIndex", []reflect.Type{pt, pk, pe}, false, func(a []interface{}) { mt.SetIndex(a[0], a[1], a[2]) }},
			op{"MapType.GetIndex", []reflect.Type{pt, pk}, false, func(a []interface{}) { mt.GetIndex(a[0], a[1]) }},
			op{"MapType.TryGetIndex", []reflect.Type{pt, pk}, false, func(a []interface{}) { mt.TryGetIndex(a[0], a[1]) }},
			op{"MapType.Iterate", []reflect.Type{pt}, false, func(a []interface{}) { mt.Iterate(a[0]) }},
		)
	case reflect.Struct:
		st := t2.(reflect2.StructType)
		for _, sf := range reflect.VisibleFields(t) {
			if sf.Name == "_" || len(sf.Index) == 1 {
				continue
			}
			f := st.FieldByIndex(sf.Index)
			if sf, ok := t.FieldByName(sf.Name); ok && len(sf.Index) > 2 {
				f = st.FieldByName(sf.Name)
			}
			pf := reflect.PtrTo(sf.Type)
			r = append(r,
				op{"promoted field " + sf.Name + " Set", []reflect.Type{pt, pf}, false, func(a []interface{}) { f.Set(a[0], a[1]) }},
				op{"promoted field " + sf.Name + " Get", []reflect.Type{pt}, false, func(a []interface{}) { f.Get(a[0]) }},
			)
		}
		for i := 0; i < t.NumField(); i++ {
			f := st.Field(i)
			pf := reflect.PtrTo(t.Field(i).Type)
			r = append(r,
				op{"field " + t.Field(i).Name + " Set", []reflect.Type{pt, pf}, false, func(a []interface{}) { f.Set(a[0], a[1]) }},
				op{"field " + t.Field(i).Name + " Get", []reflect.Type{pt}, false, func(a []interface{}) { f.Get(a[0]) }},
			)
		}
	}
	return
}

// all are the types of arguments
var all = func() (r []reflect.Type) {
	seen := map[reflect.Type]bool{}
	add := func(t reflect.Type) {
		if !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	}
	for _, e := range r2x.Elems {
		add(reflect.PtrTo(e))
	}
	for _, e := range r2x.Elems {
		if e.Kind() != reflect.Interface {
			add(e)
		}
	}
	for _, e := range append(append([]reflect.Type{}, r2x.Twins...), r2x.OddTwins...) {
		add(reflect.PtrTo(e))
		add(reflect.PtrTo(reflect.SliceOf(e)))
		add(reflect.PtrTo(reflect.MapOf(reflect.TypeOf(0), e)))
		add(reflect.PtrTo(reflect.ArrayOf(2, e)))
	}
	for _, e := range r2x.Elems {
		add(reflect.PtrTo(reflect.PtrTo(e)))
		add(reflect.PtrTo(reflect.SliceOf(e)))
		add(reflect.PtrTo(reflect.MapOf(reflect.TypeOf(0), e)))
	}
	return
}()

func panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// good is a right argument: one that the operation accepts
func good(t reflect.Type) reflect.Value {
	if t.Elem().Kind() == reflect.Slice {
		p := reflect.New(t.Elem())
		p.Elem().Set(reflect.MakeSlice(t.Elem(), 2, 2))
		p.Elem().Index(0).Set(r2x.Gen(t.Elem().Elem(), 1))
		return p
	}
	return box(r2x.Gen(t.Elem(), 2))
}

// ifaceKey is a key that can be hashed
func fit(o op, args []reflect.Value) {
	if o.name == "MapType.SetIndex" || o.name == "MapType.GetIndex" || o.name == "MapType.TryGetIndex" {
		if args[1].Elem().Kind() == reflect.Interface && args[1].Elem().NumMethod() == 0 {
			args[1].Elem().Set(reflect.ValueOf("key"))
		}
	}
}

func types(c *harn.Ctx) {
	own := append([]reflect.Type{}, r2x.Elems...)
	for i, e := range r2x.Elems {
		if c.Thorough() || i%4 == 0 {
			own = append(own, reflect.SliceOf(e), reflect.ArrayOf(2, e), reflect.MapOf(reflect.TypeOf(""), e))
		}
	}
	for _, t := range own {
		for _, o := range opsOf(t) {
			for pos := -1; pos < len(o.args); pos++ {
				wrong := all
				if pos < 0 {
					wrong = all[:1]
				}
				for w := -1; w < len(wrong); w++ {
					t, o, pos := t, o, pos
					if pos < 0 && w >= 0 {
						continue
					}
					var wt reflect.Type
					if w >= 0 {
						wt = wrong[w]
					}
					if pos >= 0 && wt == o.args[pos] || wt == nil && o.nilOK {
						continue
					}
					c.Case("", func() string {
						if pos < 0 {
							return fmt.Sprintf("%s of %s with the right arguments", o.name, t)
						}
						return fmt.Sprintf("%s of %s: argument %d is %v instead of %s", o.name, t, pos+1, wt, o.args[pos])
					}, func() string {
						c.Trans(1)
						c.State(fmt.Sprint(t, o.name, pos, wt))
						args := make([]reflect.Value, len(o.args))
						for i := range args {
							args[i] = good(o.args[i])
						}
						fit(o, args)
						if pos >= 0 {
							if wt == nil {
								args[pos] = reflect.Value{}
							} else if wt.Kind() == reflect.Ptr {
								args[pos] = good(wt)
							} else {
								args[pos] = r2x.Gen(wt, 2)
							}
						}
						objs := make([]interface{}, len(args))
						before := make([]string, len(args))
						for i, a := range args {
							if a.IsValid() {
								objs[i] = a.Interface()
							}
							before[i] = r2x.ShowObj(objs[i])
						}
						r := panics(func() { o.f(objs) })
						if pos < 0 {
							if r != nil {
								return fmt.Sprint("panic: ", r)
							}
							return ""
						}
						if r == nil {
							return "it is accepted"
						}
						for i := range objs {
							if s := r2x.ShowObj(objs[i]); s != before[i] {
								return fmt.Sprintf("it is rejected, but argument %d changed from %s to %s", i+1, before[i], s)
							}
						}
						return ""
					})
				}
			}
		}
	}
}

func indexes(c *harn.Ctx) {
	odd := []int{-1, -2, math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, 1 << 20}
	for _, api := range []reflect2.API{reflect2.ConfigUnsafe, reflect2.ConfigSafe} {
		for _, e := range r2x.Elems {
			for n := 0; n < 4; n++ {
				for room := 0; room < 3; room++ {
					idx := append([]int{}, odd...)
					for i := -3; i < n+room+3; i++ {
						idx = append(idx, i)
					}
					for _, i := range idx {
						for what := 0; what < 6; what++ {
							api, e, n, room, i, what := api, e, n, room, i, what
							if what >= 4 && n != 0 {
								continue
							}
							c.Case("", func() string {
								return fmt.Sprintf("%T: %s %d of a list of %d %s with room for %d more", api, []string{"slice SetIndex", "slice GetIndex", "array SetIndex", "array GetIndex", "Grow", "MakeSlice"}[what], i, n, e, room)
							}, func() string {
								c.Trans(1)
								st := api.Type2(reflect.SliceOf(e)).(reflect2.SliceType)
								at := api.Type2(reflect.ArrayOf(n, e)).(reflect2.ListType)
								// all in one block of memory
								block := reflect.New(reflect.ArrayOf(n+room+2, e)).Elem()
								for k := 0; k < block.Len(); k++ {
									block.Index(k).Set(r2x.Gen(e, k+1))
								}
								s := reflect.New(reflect.SliceOf(e))
								s.Elem().Set(block.Slice3(1, 1+n, 1+n+room))
								a := reflect.New(reflect.ArrayOf(n, e))
								v := box(r2x.Gen(e, 7))
								before := r2x.Show(s.Elem()) + r2x.Show(block) + r2x.Show(a.Elem())
								in := i >= 0 && i < n
								c.State(fmt.Sprint(e, n, room, what, in, i < 0))
								r := panics(func() {
									switch what {
									case 0:
										st.SetIndex(s.Interface(), i, v.Interface())
									case 1:
										st.GetIndex(s.Interface(), i)
									case 2:
										at.SetIndex(a.Interface(), i, v.Interface())
									case 3:
										at.GetIndex(a.Interface(), i)
									case 4:
										in = i >= 0
										if i < 1000 {
											st.Grow(s.Interface(), i)
										}
									case 5:
										in = i >= 0 && i <= room
										st.MakeSlice(i, room)
									}
								})
								if what == 4 && i >= 1000 {
									return ""
								}
								if in && r != nil {
									return fmt.Sprint("panic: ", r)
								}
								if !in && r == nil {
									return "it is accepted"
								}
								if !in {
									if s := r2x.Show(s.Elem()) + r2x.Show(block) + r2x.Show(a.Elem()); s != before {
										return fmt.Sprintf("it is rejected, but changed %s to %s", before, s)
									}
								}
								return ""
							})
						}
					}
				}
			}
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C22", Level: "model_checking", StateMeaning: "distinct (operation, position, type of the argument)",
		Bounds: func(tier string) string {
			return fmt.Sprintf("all checked operations of types with %d elements, each argument replaced by values of %d other types and nil; indexes in and out of range of lists of up to 3, negative, huge", len(r2x.Elems), len(all))
		},
		Assumptions: []string{"types are checked by the default configuration; the safe one takes what package reflect takes", "operations with unsafe.Pointer arguments check nothing"},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{
				{Name: "types", Shards: 24, Run: types},
				{Name: "indexes", Shards: 8, Run: indexes},
			}
		},
	})
}
