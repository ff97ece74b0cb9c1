package r2x

import "reflect"

// Twins are types with the name of another type of the catalogue.
var Twins = func() []reflect.Type {
	// of the same layout
	type Int int
	type Str string
	type Bytes []byte
	type Strs []string
	type Map map[string]int
	type Func func() int
	type OnePtr struct{ P *int }
	type OneInt struct{ X int }
	type OneStr struct{ X string }
	type Empty struct{}
	type Base struct {
		X int
		Y string
	}
	type Big struct{ B [200]byte }
	return []reflect.Type{t[Int](), t[Str](), t[Bytes](), t[Strs](), t[Map](), t[Func](), t[OnePtr](), t[OneInt](), t[OneStr](), t[Empty](), t[Base](), t[Big]()}
}()

// OddTwins have the name, but not the layout.
var OddTwins = func() []reflect.Type {
	type Int [4]string
	type Str int
	type Bytes [8]byte
	type Strs [5]*int
	type Map [2]int
	type Func struct{ a, b *int }
	type OnePtr struct{ a, b, c *int }
	type OneInt struct{ S string }
	type OneStr struct{ M map[string]int }
	type Empty struct{ a [4]int }
	type Base struct{ F float32 }
	type Big [1]bool
	return []reflect.Type{t[Int](), t[Str](), t[Bytes](), t[Strs](), t[Map](), t[Func](), t[OnePtr](), t[OneInt](), t[OneStr](), t[Empty](), t[Base](), t[Big]()}
}()
