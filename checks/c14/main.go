// C14: integers are read exactly or reported as an overflow, whatever their
// length, sign, surroundings and the way they are delivered.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"strings"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"

	"verif/harn"
	"verif/vsched"
)

type reader struct {
	name     string
	bits     uint
	signed   bool
	readFunc func(src *parse.Source) string
}

var readers = []reader{
	{"Uint64", 64, false, func(src *parse.Source) string { return fmt.Sprint(read.Uint64(src)) }},
	{"Int64", 64, true, func(src *parse.Source) string { return fmt.Sprint(read.Int64(src)) }},
	{"Int32", 32, true, func(src *parse.Source) string { return fmt.Sprint(read.Int32(src)) }},
	{"Int", 64, true, func(src *parse.Source) string { return fmt.Sprint(read.Int(src)) }},
}

// together returns the last bytes with the end of file
type together struct{ b *bytes.Reader }

func (r together) Read(p []byte) (int, error) {
	n, err := r.b.Read(p)
	if err == nil && r.b.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

func one(r *reader, in string, how int) string {
	vsched.ResetTicks(20000)
	var src *parse.Source
	switch {
	case how == 0:
		src = parse.NewSourceString(in)
	case how > 0:
		src, _ = parse.NewSource(strings.NewReader(in), make([]byte, how))
	default:
		src, _ = parse.NewSource(together{bytes.NewReader([]byte(in))}, make([]byte, -how))
	}
	if src == nil {
		return ""
	}
	got := r.readFunc(src)
	err := src.Error()
	i := 0
	if r.signed && i < len(in) && in[i] == '-' {
		i++
	}
	start := i
	for i < len(in) && in[i] >= '0' && in[i] <= '9' {
		i++
	}
	if i == start {
		// no number here; nothing beyond the sign may be gone, and no value invented
		if got != "0" {
			return fmt.Sprintf("got %s where there is no number", got)
		}
		return ""
	}
	v, _ := new(big.Int).SetString(in[:i], 10)
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), r.bits)
	if r.signed {
		hi.Lsh(big.NewInt(1), r.bits-1)
		lo.Neg(hi)
	}
	if v.Cmp(lo) < 0 || v.Cmp(hi) >= 0 {
		if err == nil || err == io.EOF {
			return fmt.Sprintf("got %s, error %v: the overflow was not reported", got, err)
		}
		return ""
	}
	if got != v.String() {
		return fmt.Sprintf("got %s instead of %s (error %v)", got, v, err)
	}
	rest := in[i:]
	if rest == "" && err != io.EOF {
		return fmt.Sprintf("error %v at the end of the input", err)
	}
	if rest != "" && err != nil {
		return fmt.Sprintf("error %v although %q is left", err, rest)
	}
	if p, _ := src.PeekN(len(rest)); string(p) != rest {
		return fmt.Sprintf("%q is left instead of %q", p, rest)
	}
	return ""
}

func numbers(thorough bool) (r []string) {
	seen := map[string]bool{}
	add := func(b *big.Int) {
		if s := b.String(); b.Sign() >= 0 && !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	// around multiples of the limits (where arithmetic wraps around)
	w, mult := int64(11), int64(12)
	if thorough {
		w, mult = 40, 60
	}
	for _, bits := range []uint{31, 32, 63, 64} {
		for k := int64(1); k <= mult; k++ {
			for d := -w; d <= w; d++ {
				b := new(big.Int).Lsh(big.NewInt(k), bits)
				add(b.Add(b, big.NewInt(d)))
			}
		}
	}
	// around a tenth of the limits and multiples: the next digit decides
	for _, bits := range []uint{31, 32, 63, 64} {
		for k := int64(1); k <= mult; k++ {
			for d := -w; d <= w; d++ {
				b := new(big.Int).Lsh(big.NewInt(k), bits)
				b.Div(b, big.NewInt(10))
				b.Add(b, big.NewInt(d))
				add(b)
				b.Mul(b, big.NewInt(100))
				add(b)
				b.Add(b, big.NewInt(99))
				add(b)
			}
		}
	}
	// every leading two digits, every length
	pow := big.NewInt(1)
	for n := 0; n < 24; n++ {
		for d := int64(0); d < 100; d++ {
			b := new(big.Int).Mul(pow, big.NewInt(d))
			add(b)
			add(new(big.Int).Sub(b, big.NewInt(1)))
			add(new(big.Int).Add(b, big.NewInt(7)))
		}
		pow.Mul(pow, big.NewInt(10))
	}
	return
}

func boundaries(c *harn.Ctx) {
	tails := []string{"", "a", " 1", "-2"}
	leads := []string{"", "-", "0", "-000"}
	for _, n := range numbers(c.Thorough()) {
		n := n
		c.Case("", func() string { return "numbers " + n }, func() string {
			for _, lead := range leads {
				for _, t := range tails {
					in := lead + n + t
					c.State(in)
					hows := []int{0, len(in), -len(in), 1, -1, 7, -7}
					for _, how := range hows {
						for i := range readers {
							c.Trans(1)
							if e := one(&readers[i], in, how); e != "" {
								return fmt.Sprintf("%s(%q), delivery %d: %s", readers[i].name, in, how, e)
							}
						}
					}
				}
			}
			return ""
		})
	}
}

func short(c *harn.Ctx) {
	n := 4
	if c.Thorough() {
		n = 5
	}
	alphabet := "019-a /:"
	var rec func(p string)
	rec = func(p string) {
		c.Case("", func() string { return fmt.Sprintf("input %q", p) }, func() string {
			for how := -len(p); how <= len(p); how++ {
				for i := range readers {
					c.Trans(1)
					if e := one(&readers[i], p, how); e != "" {
						return fmt.Sprintf("%s(%q), delivery %d: %s", readers[i].name, p, how, e)
					}
				}
			}
			c.State(p)
			return ""
		})
		if len(p) < n {
			for i := range alphabet {
				rec(p + alphabet[i:i+1])
			}
		}
	}
	rec("")
	// every byte value before and after a number
	for b := 0; b < 256; b++ {
		p := string([]byte{byte(b)})
		for _, in := range []string{p, p + "1", "1" + p, "-" + p, "1" + p + "2"} {
			in := in
			c.Case("", func() string { return fmt.Sprintf("input %q", in) }, func() string {
				for i := range readers {
					if e := one(&readers[i], in, 0); e != "" {
						return fmt.Sprintf("%s(%q): %s", readers[i].name, in, e)
					}
				}
				return ""
			})
		}
	}
}

func main() {
	harn.Main(harn.Check{
		ID: "C14", Level: "model_checking", StateMeaning: "distinct inputs; transitions are integer reads",
		Bounds: func(tier string) string {
			return "all inputs of up to 4 (thorough 5) characters over 8; all numbers around 1..12 (60) multiples of 2^31, 2^32, 2^63, 2^64 and their tenths, all leading two digits with up to 25 digits, x sign, leading zeros, 4 followers, 7 deliveries, 4 readers, against arbitrary precision arithmetic"
		},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{{Name: "boundaries", Shards: 8, Run: boundaries}, {Name: "short", Shards: 4, Run: short}}
		},
	})
}
