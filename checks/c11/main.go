// C11: the JSON encoder writes valid JSON that says exactly what the scalar is.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"unicode/utf8"

	"github.com/v2pro/plz/msgfmt/jsonfmt"

	"verif/harn"
	"verif/vsched"
)

// into calls f with buffers of several capacities that hold something already:
// f may only append.
func into(cap0 int, f func(space []byte) []byte) (string, string) {
	buf := make([]byte, 3, 3+cap0)
	copy(buf, "xy,")
	out := f(buf)
	if len(out) < 3 || string(out[:3]) != "xy," {
		return "", fmt.Sprintf("what was in the buffer before is now %q", out)
	}
	return string(out[3:]), ""
}

// ---- integers

func integer(v uint64) string {
	vsched.ResetTicks(100000)
	check := func(name, want string, f func(space []byte) []byte) string {
		got, e := into(4, f)
		if e != "" || got != want {
			return fmt.Sprintf("%s(%s): got %s %s", name, want, got, e)
		}
		return ""
	}
	for _, e := range []string{
		check("WriteUint64", strconv.FormatUint(v, 10), func(s []byte) []byte { return jsonfmt.WriteUint64(s, v) }),
		check("WriteInt64", strconv.FormatInt(int64(v), 10), func(s []byte) []byte { return jsonfmt.WriteInt64(s, int64(v)) }),
		check("WriteInt64", strconv.FormatInt(-int64(v), 10), func(s []byte) []byte { return jsonfmt.WriteInt64(s, -int64(v)) }),
		check("WriteUint32", strconv.FormatUint(uint64(uint32(v)), 10), func(s []byte) []byte { return jsonfmt.WriteUint32(s, uint32(v)) }),
		check("WriteInt32", strconv.FormatInt(int64(int32(v)), 10), func(s []byte) []byte { return jsonfmt.WriteInt32(s, int32(v)) }),
		check("WriteInt32", strconv.FormatInt(int64(int32(-v)), 10), func(s []byte) []byte { return jsonfmt.WriteInt32(s, int32(-v)) }),
	} {
		if e != "" {
			return e
		}
	}
	return ""
}

// viaValues encodes the number as every integer type, alone and inside of values
func viaValues(v uint64) string {
	vsched.ResetTicks(100000)
	type named int32
	type fields struct {
		A uint8
		B int64
		C int8
		D uint32
		E uint16
		F int16
		G uint
		H int32
		I uintptr
		J int
	}
	f := func(v int64) string { return strconv.FormatInt(v, 10) }
	u := func(v uint64) string { return strconv.FormatUint(v, 10) }
	s := fields{uint8(v), int64(v), int8(v), uint32(v), uint16(v), int16(v), uint(v), int32(v), uintptr(v), int(v)}
	want := `{"A":` + u(uint64(s.A)) + `,"B":` + f(s.B) + `,"C":` + f(int64(s.C)) + `,"D":` + u(uint64(s.D)) + `,"E":` + u(uint64(s.E)) +
		`,"F":` + f(int64(s.F)) + `,"G":` + u(uint64(s.G)) + `,"H":` + f(int64(s.H)) + `,"I":` + u(uint64(s.I)) + `,"J":` + f(int64(s.J)) + `}`
	for _, t := range []struct {
		obj  interface{}
		want string
	}{
		{s, want}, {&s, want}, {v, u(v)}, {int64(v), f(int64(v))}, {uint8(v), u(uint64(uint8(v)))}, {int8(v), f(int64(int8(v)))},
		{uint16(v), u(uint64(uint16(v)))}, {int16(v), f(int64(int16(v)))}, {uint32(v), u(uint64(uint32(v)))}, {int32(v), f(int64(int32(v)))},
		{named(v), f(int64(named(v)))}, {int(v), f(int64(v))}, {uint(v), u(v)}, {uintptr(v), u(v)},
		{[]int32{int32(v), 0, int32(v >> 8)}, "[" + f(int64(int32(v))) + ",0," + f(int64(int32(v>>8))) + "]"},
	} {
		if got := jsonfmt.MarshalToString(t.obj); got != t.want {
			return fmt.Sprintf("MarshalToString(%T): got %s, expected %s", t.obj, got, t.want)
		}
	}
	return ""
}

func integers(c *harn.Ctx) {
	// every number of up to 7 groups of three digits from a set of groups
	groups := []uint64{0, 1, 7, 10, 90, 99, 100, 110, 999}
	if !c.Thorough() {
		groups = []uint64{0, 1, 9, 10, 99, 100, 999}
	}
	var rec func(v uint64, n int)
	rec = func(v uint64, n int) {
		if n == 4 {
			c.Case("", func() string { return fmt.Sprint("numbers starting with ", v) }, func() string {
				var all func(v uint64, n int) string
				all = func(v uint64, n int) string {
					c.Trans(1)
					if e := integer(v); e != "" {
						return e
					}
					if n == 0 {
						return ""
					}
					for _, g := range groups {
						if v > (math.MaxUint64-g)/1000 {
							continue
						}
						if e := all(v*1000+g, n-1); e != "" {
							return e
						}
					}
					return ""
				}
				c.State(fmt.Sprint(v))
				return all(v, 3)
			})
		}
		if n == 0 {
			return
		}
		for _, g := range groups {
			rec(v*1000+g, n-1)
		}
	}
	rec(0, 4)
	for sh := uint(0); sh < 64; sh++ {
		sh := sh
		c.Case("", func() string { return fmt.Sprint("numbers around multiples of 2^", sh) }, func() string {
			for k := uint64(1); k <= 40; k++ {
				for d := -20; d <= 20; d++ {
					c.Trans(1)
					v := k<<sh + uint64(d)
					if e := integer(v); e != "" {
						return e
					}
					if e := viaValues(v); e != "" {
						return e
					}
				}
			}
			return ""
		})
	}
	pow := uint64(1)
	for i := 0; i < 20; i++ {
		p := pow
		pow *= 10
		c.Case("", func() string { return fmt.Sprint("numbers around multiples of ", p) }, func() string {
			for k := uint64(1); k <= 99; k++ {
				for d := -3; d <= 3; d++ {
					c.Trans(1)
					v := k*p + uint64(d)
					if e := integer(v); e != "" {
						return e
					}
					if e := viaValues(v); e != "" {
						return e
					}
				}
			}
			return ""
		})
	}
	// all the small ones
	for hi := 0; hi < 256; hi++ {
		hi := hi
		c.Case("", func() string { return fmt.Sprint("16 bit numbers from ", hi<<8) }, func() string {
			for lo := 0; lo < 256; lo++ {
				v := hi<<8 | lo
				c.Trans(1)
				vsched.ResetTicks(100000)
				if e := integer(uint64(v)); e != "" {
					return e
				}
				for _, t := range [][2]string{
					{string(jsonfmt.WriteUint16(nil, uint16(v))), fmt.Sprint(uint16(v))},
					{string(jsonfmt.WriteInt16(nil, int16(v))), fmt.Sprint(int16(v))},
					{string(jsonfmt.WriteUint8(nil, uint8(v))), fmt.Sprint(uint8(v))},
					{string(jsonfmt.WriteInt8(nil, int8(v))), fmt.Sprint(int8(v))},
				} {
					if t[0] != t[1] {
						return fmt.Sprintf("got %s, expected %s", t[0], t[1])
					}
				}
			}
			return ""
		})
	}
}

// ---- strings

// unquote is a strict decoder of JSON strings that leaves all other bytes as they are
func unquote(s string) (string, string) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", "not quoted"
	}
	s = s[1 : len(s)-1]
	var out []byte
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case b < 0x20:
			return "", "a raw control character"
		case b == '"':
			return "", "a raw quote"
		case b != '\\':
			out = append(out, b)
			continue
		}
		i++
		if i == len(s) {
			return "", "a lone backslash"
		}
		switch s[i] {
		case '"', '\\', '/':
			out = append(out, s[i])
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'u':
			if i+5 > len(s) {
				return "", "a short escape"
			}
			v, err := strconv.ParseUint(s[i+1:i+5], 16, 16)
			if err != nil {
				return "", "a bad escape"
			}
			out = append(out, string(rune(v))...)
			i += 4
		default:
			return "", "an unknown escape"
		}
	}
	return string(out), ""
}

type text string

func strings1(s string) string {
	vsched.ResetTicks(100000)
	check := func(name, out, want string) string {
		got, e := unquote(out)
		if e != "" || got != want || !json.Valid([]byte(out)) {
			return fmt.Sprintf("%s of %q is %q, which is %q %s", name, s, out, got, e)
		}
		if utf8.ValidString(want) {
			var back string
			if err := json.Unmarshal([]byte(out), &back); err != nil || back != want {
				return fmt.Sprintf("%s of %q is read back as %q, %v", name, s, back, err)
			}
		}
		return ""
	}
	for _, spare := range []int{0, len(s), 64} {
		got, e := into(spare, func(b []byte) []byte { return jsonfmt.WriteString(b, s) })
		if e == "" {
			e = check("WriteString", got, s)
		}
		if e != "" {
			return e
		}
	}
	// bytes: what is not printable ASCII appears as \xNN
	want := ""
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case b >= 0x80 || (b < 0x20 && b != '\n' && b != '\r' && b != '\t'):
			want += fmt.Sprintf("\\x%02x", b)
		default:
			want += string([]byte{b})
		}
	}
	raw := []byte(s)
	got, e := into(len(s)/2, func(b []byte) []byte { return jsonfmt.WriteBytes(b, raw) })
	if e == "" {
		e = check("WriteBytes", got, want)
	}
	if e == "" && string(raw) != s {
		e = "WriteBytes changed its argument"
	}
	if e != "" {
		return e
	}
	if e := check("MarshalToString", jsonfmt.MarshalToString(s), s); e != "" {
		return e
	}
	if e := check("MarshalToString of a named string", jsonfmt.MarshalToString(text(s)), s); e != "" {
		return e
	}
	if e := check("MarshalToString of bytes", jsonfmt.MarshalToString(raw), want); e != "" {
		return e
	}
	if e := check("MarshalToString of an error", jsonfmt.MarshalToString(errors.New(s)), s); e != "" {
		return e
	}
	return check("MarshalToString of a failing marshaler", jsonfmt.MarshalToString(bad(s)), s)
}

type bad string

func (b bad) MarshalJSON() ([]byte, error) { return []byte("partial"), errors.New(string(b)) }

func texts(c *harn.Ctx) {
	units := []string{"a", `"`, `\`, "/", "\n", "\t", "\x00", "\x1f", "\x7f", "<", "\u00e9", "\u4e2d", "\U0001F600", "\u2028", "\xff", "\xe4\xb8"}
	n := 3
	if c.Thorough() {
		n = 5
	}
	var rec func(p string, left int)
	rec = func(p string, left int) {
		if left == 0 {
			return
		}
		for _, u := range units {
			c.Trans(1)
			rec(p+u, left-1)
		}
	}
	_ = rec
	for _, a := range append([]string{""}, units...) {
		for _, b := range append([]string{""}, units...) {
			p := a + b
			c.Case("", func() string { return fmt.Sprintf("strings starting with %q", p) }, func() string {
				c.State(p)
				var all func(p string, left int) string
				all = func(p string, left int) string {
					c.Trans(1)
					if e := strings1(p); e != "" || left == 0 {
						return e
					}
					for _, u := range units {
						if e := all(p+u, left-1); e != "" {
							return e
						}
					}
					return ""
				}
				return all(p, n-2)
			})
		}
	}
	// every byte and every pair of bytes, also after and before plain text
	for x := 0; x < 256; x++ {
		x := byte(x)
		c.Case("", func() string { return fmt.Sprintf("pairs of bytes starting with %q", x) }, func() string {
			for y := 0; y < 256; y++ {
				c.Trans(3)
				p := string([]byte{x, byte(y)})
				for _, s := range []string{p, "ab" + p, p + "ab"} {
					if e := strings1(s); e != "" {
						return e
					}
				}
			}
			return strings1(string([]byte{x}))
		})
	}
}

// ---- floats

const limit = 0x4ffffff

func number(out string, val float64, bits int) string {
	if math.IsNaN(val) || math.IsInf(val, 0) {
		if out != "null" {
			return "expected null"
		}
		return ""
	}
	// only what a JSON number may look like
	i := 0
	if i < len(out) && out[i] == '-' {
		i++
	}
	digits := func() int {
		n := 0
		for i < len(out) && out[i] >= '0' && out[i] <= '9' {
			i++
			n++
		}
		return n
	}
	first := i
	n := digits()
	if n == 0 || (n > 1 && out[first] == '0') {
		return "not a JSON number"
	}
	if i < len(out) && out[i] == '.' {
		i++
		if digits() == 0 {
			return "not a JSON number"
		}
	}
	if i < len(out) && (out[i] == 'e' || out[i] == 'E') {
		i++
		if i < len(out) && (out[i] == '+' || out[i] == '-') {
			i++
		}
		if digits() == 0 {
			return "not a JSON number"
		}
	}
	if i != len(out) {
		return "not a JSON number"
	}
	back, err := strconv.ParseFloat(out, bits)
	if err != nil {
		return err.Error()
	}
	if math.Abs(val) > limit {
		if back != val {
			return "not the same number"
		}
		return ""
	}
	back, _ = strconv.ParseFloat(out, 64)
	if d := math.Abs(back - val); d > 0.51e-6 {
		return fmt.Sprint("differs by ", d)
	}
	return ""
}

var space [64]byte

func float(v float64) string {
	out := string(jsonfmt.WriteFloat64Lossy(space[:0], v))
	if e := number(out, v, 64); e != "" {
		return fmt.Sprintf("WriteFloat64Lossy(%v): got %s: %s", v, out, e)
	}
	out = string(jsonfmt.WriteFloat64(space[:0], v))
	if back, err := strconv.ParseFloat(out, 64); !math.IsNaN(v) && !math.IsInf(v, 0) && (err != nil || back != v || !json.Valid([]byte(out))) || (math.IsNaN(v) || math.IsInf(v, 0)) && out != "null" {
		return fmt.Sprintf("WriteFloat64(%v): got %s", v, out)
	}
	return ""
}

func float32s(v float32) string {
	out := string(jsonfmt.WriteFloat32Lossy(space[:0], v))
	if e := number(out, float64(v), 32); e != "" {
		return fmt.Sprintf("WriteFloat32Lossy(%v): got %s: %s", v, out, e)
	}
	return ""
}

func floats32(c *harn.Ctx) {
	step := uint32(1)
	if !c.Thorough() {
		step = 0
	}
	for hi := uint32(0); hi < 512; hi++ {
		hi := hi
		c.Case("", func() string { return fmt.Sprintf("32 bit floats with sign and exponent %#x", hi) }, func() string {
			c.State(fmt.Sprint(hi))
			one := func(m uint32) string {
				vsched.ResetTicks(100000)
				c.Trans(1)
				v := math.Float32frombits(hi<<23 | m&0x7fffff)
				if e := float32s(v); e != "" {
					return e
				}
				return ""
			}
			if step == 1 {
				for m := uint32(0); m < 1<<23; m++ {
					if m&0xffff == 0 && c.Stop() {
						return ""
					}
					if e := one(m); e != "" {
						return e
					}
				}
				return ""
			}
			for top := uint32(0); top < 1<<9; top++ {
				for _, low := range []uint32{0, 1, 0x1fff, 0x2000, 0x2001, 0x3fff} {
					if e := one(top<<14 | low); e != "" {
						return e
					}
				}
			}
			for _, m := range []uint32{0, 1, 0x400000} {
				v := math.Float32frombits(hi<<23 | m)
				type box struct {
					A bool
					F float32
				}
				want := string(jsonfmt.WriteFloat32Lossy(nil, v))
				if got := jsonfmt.MarshalToString(box{true, v}); got != `{"A":true,"F":`+want+`}` {
					return fmt.Sprintf("as a field: %s", got)
				}
				if got := jsonfmt.MarshalToString(v); got != want {
					return fmt.Sprintf("as a value: %s", got)
				}
			}
			return ""
		})
	}
}

func floats64(c *harn.Ctx) {
	top := uint64(1) << 6
	lows := []uint64{0, 1, 1 << 45, 1<<46 - 1}
	if c.Thorough() {
		top = 1 << 10
	}
	for hi := uint64(0); hi < 4096; hi++ {
		hi := hi
		c.Case("", func() string { return fmt.Sprintf("64 bit floats with sign and exponent %#x", hi) }, func() string {
			c.State(fmt.Sprint(hi))
			for t := uint64(0); t < top; t++ {
				for _, low := range lows {
					vsched.ResetTicks(100000)
					c.Trans(1)
					v := math.Float64frombits(hi<<52 | (t*(1<<52/top)+low)&(1<<52-1))
					if e := float(v); e != "" {
						return e
					}
				}
			}
			v := math.Float64frombits(hi<<52 | 1<<51)
			want := string(jsonfmt.WriteFloat64Lossy(nil, v))
			if got := jsonfmt.MarshalToString(struct {
				A bool
				F float64
			}{true, v}); got != `{"A":true,"F":`+want+`}` {
				return fmt.Sprintf("as a field: %s", got)
			}
			return ""
		})
	}
	// decimals, and the rounding borders between them
	n := 200
	for b := 0; b < n; b++ {
		b := b
		c.Case("", func() string { return fmt.Sprint("decimals, block ", b) }, func() string {
			for k := b * 10100; k < (b+1)*10100; k += 1 {
				vsched.ResetTicks(100000)
				c.Trans(3)
				v := float64(k) / 1e6
				for _, w := range []float64{v, -v, float64(k*10+5) / 1e7, v + 83886079, v*100 + 99.5, math.Nextafter(float64(k), 0), math.Nextafter(v, 0)} {
					if e := float(w); e != "" {
						return e
					}
				}
			}
			return ""
		})
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C11", Level: "model_checking", StateMeaning: "groups of inputs (distinct prefixes, exponents); transitions are encoded scalars",
		Bounds: func(tier string) string {
			s := "7 three-digit groups out of 7, 3 units out of 16, 32 bit floats: all signs and exponents x 3072 mantissas, 64 bit floats: all signs and exponents x 256 mantissas"
			if tier == "thorough" {
				s = "7 three-digit groups out of 9, 5 units out of 16, all 2^32 32 bit floats, 64 bit floats: all signs and exponents x 4096 mantissas"
			}
			return "integers: all 16 bit, all around multiples of powers of 2 and 10, all made of groups; strings and byte slices: all bytes, all pairs of bytes in 3 positions, all sequences of units; floats: bit patterns and 2 million decimals with their rounding borders: " + s
		},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{{Name: "integers", Shards: 8, Run: integers}, {Name: "texts", Shards: 8, Run: texts}, {Name: "floats32", Shards: 8, Run: floats32}, {Name: "floats64", Shards: 8, Run: floats64}}
		},
	})
}
