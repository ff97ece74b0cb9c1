// C15: the operator precedence parser builds the tree that precedence and
// associativity say, for every operator table and every expression, and
// reports what it can not parse. Reference: an operator stack (shunting yard).
package main

import (
	"fmt"
	"strings"

	"github.com/v2pro/plz/parse"

	"verif/harn"
	"verif/vsched"
)

// table of operators
type table struct {
	infix  [3]int  // precedence of + * ^
	right  [5]bool // associativity of a precedence level
	prefix int     // precedence of the operand of -
	post   int     // precedence of !
	none   int     // what the lexer says where there is no infix operator
}

func (t table) String() string {
	s := ""
	for i, c := range "+*^" {
		a := "left"
		if t.right[t.infix[i]] {
			a = "right"
		}
		s += fmt.Sprintf("%c:%d %s, ", c, t.infix[i], a)
	}
	return s + fmt.Sprintf("prefix -:%d, postfix !:%d", t.prefix, t.post)
}

// rbp is what the right operand of an infix operator is parsed with
func (t *table) rbp(op byte) int {
	if op == '-' {
		return t.prefix
	}
	p := t.prec(op)
	if t.right[p] {
		return p - 1
	}
	return p
}

func (t *table) prec(op byte) int {
	switch op {
	case '+':
		return t.infix[0]
	case '*':
		return t.infix[1]
	case '^':
		return t.infix[2]
	}
	return t.post
}

// ---- the language, for the parser under test

type lang struct{ *table }

type (
	atom   struct{ l *lang }
	paren  struct{ l *lang }
	neg    struct{ l *lang }
	binary struct {
		l  *lang
		op byte
	}
	post struct{ l *lang }
)

func (l *lang) PrefixToken(src *parse.Source) parse.PrefixToken {
	b := src.Peek()
	if len(b) == 0 {
		return nil
	}
	switch b[0] {
	case 'a':
		return atom{l}
	case '(':
		return paren{l}
	case '-':
		return neg{l}
	}
	return nil
}

func (l *lang) InfixToken(src *parse.Source) (parse.InfixToken, int) {
	b := src.Peek()
	if len(b) == 0 {
		return nil, l.none
	}
	switch b[0] {
	case '+', '*', '^':
		return binary{l, b[0]}, l.prec(b[0])
	case '!':
		return post{l}, l.post
	}
	return nil, l.none
}

func (t atom) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('a')
	return "a"
}

func (t paren) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('(')
	v := parse.Parse(src, t.l, 0)
	src.Consume1(')')
	return v
}

func (t neg) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('-')
	return fmt.Sprintf("(-%v)", parse.Parse(src, t.l, t.l.prefix))
}

func (t binary) InfixParse(src *parse.Source, left interface{}) interface{} {
	src.Consume1(t.op)
	return fmt.Sprintf("(%v%c%v)", left, t.op, parse.Parse(src, t.l, t.l.rbp(t.op)))
}

func (t post) InfixParse(src *parse.Source, left interface{}) interface{} {
	src.Consume1('!')
	return fmt.Sprintf("(%v!)", left)
}

// ---- the reference

func reference(t *table, in string) (tree string, rest string, bad bool) {
	var ops []byte
	var vals []string
	pop := func() {
		op := ops[len(ops)-1]
		ops = ops[:len(ops)-1]
		if op == '-' {
			vals[len(vals)-1] = "(-" + vals[len(vals)-1] + ")"
			return
		}
		n := len(vals)
		vals[n-2] = "(" + vals[n-2] + string(op) + vals[n-1] + ")"
		vals = vals[:n-1]
	}
	open := 0
	operand := true // expected
	i := 0
	for ; i < len(in); i++ {
		c := in[i]
		if operand {
			switch c {
			case 'a':
				vals = append(vals, "a")
				operand = false
			case '(':
				ops = append(ops, c)
				open++
			case '-':
				ops = append(ops, c)
			default:
				return "", "", true
			}
			continue
		}
		stop := false
		switch c {
		case '+', '*', '^', '!':
			for len(ops) > 0 && ops[len(ops)-1] != '(' && t.rbp(ops[len(ops)-1]) >= t.prec(c) {
				pop()
			}
			if c == '!' {
				vals[len(vals)-1] = "(" + vals[len(vals)-1] + "!)"
				break
			}
			ops = append(ops, c)
			operand = true
		case ')':
			if open == 0 {
				stop = true
				break
			}
			for ops[len(ops)-1] != '(' {
				pop()
			}
			ops = ops[:len(ops)-1]
			open--
		default:
			stop = true
		}
		if stop {
			break
		}
	}
	if operand || open > 0 {
		return "", "", true
	}
	for len(ops) > 0 {
		pop()
	}
	return vals[0], in[i:], false
}

func one(t *table, in string, chunk int) string {
	vsched.ResetTicks(200000)
	want, rest, bad := reference(t, in)
	l := &lang{t}
	if chunk == 0 {
		got, err := parse.String(in, l)
		if bad {
			if err == nil {
				return fmt.Sprintf("accepted as %v", got)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("error %v, expected %s", err, want)
		}
		if fmt.Sprint(got) != want {
			return fmt.Sprintf("parsed as %v, expected %s", got, want)
		}
		return ""
	}
	src, err := parse.NewSource(strings.NewReader(in), make([]byte, chunk))
	if err != nil {
		return ""
	}
	got := parse.Parse(src, l, 0)
	if bad {
		if e := src.Error(); e == nil || e.Error() == "EOF" {
			return fmt.Sprintf("accepted as %v (error %v)", got, e)
		}
		return ""
	}
	if fmt.Sprint(got) != want {
		return fmt.Sprintf("parsed as %v, expected %s", got, want)
	}
	if p, _ := src.PeekN(len(rest)); string(p) != rest || (rest == "") != (src.Error() != nil) {
		return fmt.Sprintf("left %q (error %v), expected to leave %q", p, src.Error(), rest)
	}
	return ""
}

func tables(all bool) (r []table) {
	for a := 1; a <= 3; a++ {
		for b := 1; b <= 3; b++ {
			for c := 1; c <= 3; c++ {
				for as := 0; as < 8; as++ {
					for pre := 0; pre <= 4; pre++ {
						for post := 1; post <= 4; post++ {
							if !all && !((a == 1 && b == 2 && c == 3) || (a == 2 && b == 2 && c == 1) || (a == 1 && b == 1 && c == 1)) {
								continue
							}
							t := table{infix: [3]int{a, b, c}, prefix: pre, post: post, none: (pre + post) % 2 * 9}
							for i := 0; i < 3; i++ {
								t.right[i+1] = as&(1<<uint(i)) != 0
							}
							r = append(r, t)
						}
					}
				}
			}
		}
	}
	return
}

// valid calls f with every expression of exactly n characters
func valid(n int, f func(s string)) {
	b := make([]byte, n)
	var rec func(i, open int, operand bool)
	rec = func(i, open int, operand bool) {
		if i == n {
			if open == 0 && !operand {
				f(string(b))
			}
			return
		}
		if open > n-i {
			return
		}
		put := func(c byte, o int, op bool) {
			b[i] = c
			rec(i+1, o, op)
		}
		if operand {
			put('a', open, false)
			put('(', open+1, true)
			put('-', open, true)
			return
		}
		put('+', open, true)
		put('*', open, true)
		put('^', open, true)
		put('!', open, false)
		if open > 0 {
			put(')', open-1, false)
		}
	}
	rec(0, 0, true)
}

func exprs(c *harn.Ctx) {
	small, big := 6, 8
	if c.Thorough() {
		small, big = 8, 10
	}
	run := func(ts []table, in string) {
		c.Case("", func() string { return "expression " + in }, func() string {
			for i := range ts {
				c.Trans(1)
				w, _, _ := reference(&ts[i], in)
				c.State(w)
				if e := one(&ts[i], in, 0); e != "" {
					return ts[i].String() + ": " + e
				}
			}
			return ""
		})
	}
	all, few := tables(true), tables(false)
	for n := 1; n <= big; n++ {
		valid(n, func(s string) {
			if n <= small {
				run(all, s)
			} else {
				run(few, s)
			}
		})
	}
}

func anything(c *harn.Ctx) {
	n := 6
	if c.Thorough() {
		n = 7
	}
	ts := []table{
		{infix: [3]int{1, 2, 3}, right: [5]bool{3: true}, prefix: 4, post: 4},
		{infix: [3]int{3, 2, 2}, right: [5]bool{2: true}, prefix: 1, post: 1, none: 9},
	}
	alphabet := "a+*!-() "
	var rec func(p string)
	rec = func(p string) {
		c.Case("", func() string { return fmt.Sprintf("input %q", p) }, func() string {
			for i := range ts {
				for chunk := 0; chunk <= len(p) && chunk <= 3; chunk++ {
					c.Trans(1)
					if e := one(&ts[i], p, chunk); e != "" {
						return fmt.Sprintf("%s, delivered %d bytes at a time: %s", ts[i], chunk, e)
					}
				}
			}
			return ""
		})
		if len(p) < n {
			for i := range alphabet {
				rec(p + alphabet[i:i+1])
			}
		}
	}
	rec("")
}

func main() {
	harn.Main(harn.Check{
		ID: "C15", Level: "model_checking", StateMeaning: "distinct expected trees; transitions are parses",
		Bounds: func(tier string) string {
			a, b, n := 6, 8, 6
			if tier == "thorough" {
				a, b, n = 8, 10, 7
			}
			return fmt.Sprintf("all valid expressions of up to %d characters over 3 infix, 1 prefix, 1 postfix operator and parentheses x all 4320 operator tables (precedence, associativity), up to %d characters x 480 tables; all inputs of up to %d characters over 8, delivered whole or in chunks of 1..3 bytes", a, b, n)
		},
		Jobs: func(tier string) []harn.Job {
			return []harn.Job{{Name: "expressions", Shards: 8, Run: exprs}, {Name: "inputs", Shards: 4, Run: anything}}
		},
	})
}
