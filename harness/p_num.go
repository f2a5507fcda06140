package main

import (
	"sort"
	"strconv"
	"strings"
)

func init() {
	ops("num", `
4 int (+ {int*})
4 int (- {int+})
3 int (* {int*})
2 int (- {int})
2 int (/ {int} {int})
2 int (% {int} {int})
1 int (succ {int})
1 int (pred {int})
1 int (abs {int})
1 idx (sign {int})
1 int (min {ints})
1 int (max {ints})
`)
	ops("int", `
5 int (+ {int*})
4 int (- {int+})
4 int (* {int*})
3 int (/ {int} {int})
2 int (/ {int} {int} {int})
2 int (quotient {int} {int})
3 int (% {int} {int})
2 int (modulo {int} {int})
2 int (succ {int})
2 int (pred {int})
3 int (abs {int})
2 idx (sign {int})
3 int (min (list {int+}))
3 int (max (list {int+}))
2 int (min {ints})
2 int (max {ints})
3 int (pow {int} {cnt})
1 int (pow {sint} {exp})
3 bool (< {int} {int})
3 bool (> {int} {int})
3 bool (<= {int} {int})
3 bool (>= {int} {int})
2 bool (== {int} {int})
4 bool ({rel} {nearpair})
1 bool (even? {int})
1 bool (odd? {int})
1 bool (zero? {int})
1 bool (positive? {int})
1 bool (negative? {int})
3 ints (interval {sint} {sint})
2 ints (interval {int} {sint})
2 ints (interval {sint} {sint} {sint})
1 ints (interval {sint})
2 ints {edgeinterval}
2 str (number->string {int})
2 str (number->string {int} {base})
3 int (string->number {numstr})
3 int {numround}
2 int (string->number (number->string {int}))
1 int (integer {int})
2 ints (sort (list {int+}) {lt})
1 int (+ (* (/ {int} {nz}) {nz}) (% {int} {nz}))
`)
	litGens["exp"] = func(g *Gen) string { return strconv.Itoa(g.pick(90)) }
	litGens["base"] = func(g *Gen) string { return oneOf(g, "2", "8", "10", "16") }
	litGens["rel"] = func(g *Gen) string { return oneOf(g, "<", ">", "<=", ">=", "==", "!=", "eqv?", "neq?") }
	litGens["nz"] = func(g *Gen) string {
		n := g.int64()
		if n == 0 {
			n = 7
		}
		return text(n)
	}
	litGens["nearpair"] = func(g *Gen) string {
		n := g.int64()
		return text(n) + " " + text(n+int64(g.pick(3))-1)
	}
	litGens["numround"] = func(g *Gen) string {
		b := oneOf(g, "2", "8", "10", "16")
		return "(string->number (number->string " + text(g.int64()) + " " + b + ") " + b + ")"
	}
	litGens["numstr"] = func(g *Gen) string {
		b := oneOf(g, 2, 8, 10, 16)
		s := strconv.FormatInt(g.int64(), b)
		switch g.pick(12) {
		case 0:
			s = "x" + s
		case 1:
			s = ""
		case 2:
			s = "00" + s
		}
		if b == 10 && g.pct(50) {
			return text(&MStr{s: s})
		}
		return text(&MStr{s: s}) + " " + strconv.Itoa(b)
	}
	litGens["edgeinterval"] = func(g *Gen) string {
		const max = 9223372036854775807
		switch g.pick(4) {
		case 0:
			return "(interval " + text(int64(max-g.pick(5))) + " " + text(int64(max-g.pick(4))) + ")"
		case 1:
			return "(interval " + text(int64(-max-1+g.pick(5))) + " " + text(int64(-max-1+g.pick(5))) + ")"
		case 2:
			return "(interval " + text(int64(g.pick(100))) + " " + text(int64(max-g.pick(5))) + " " + text(int64(1)<<uint(55+g.pick(8))) + ")"
		default:
			a := int64(1) << uint(20+g.pick(40))
			return "(interval " + text(a) + " " + text(a+int64(g.pick(20))) + " " + strconv.Itoa(1+g.pick(4)) + ")"
		}
	}

	var un []string
	for n := range unaryFloat {
		un = append(un, n)
	}
	sort.Strings(un)
	litGens["unary"] = func(g *Gen) string { return un[g.pick(len(un))] }
	consts := []string{"pi", "e", "phi", "sqrt2", "sqrte", "sqrtpi", "sqrtphi", "ln2", "log2e", "ln10", "log10e", "nan", "+inf", "-inf"}
	litGens["fconst"] = func(g *Gen) string { return consts[g.pick(len(consts))] }
	litGens["smallf"] = func(g *Gen) string {
		if g.pct(30) {
			return text(float32(g.pick(11)-5) / 2)
		}
		if g.pct(20) {
			return strconv.Itoa(g.pick(9) - 2)
		}
		return text(float32(g.pick(4000)-2000) / 500)
	}
	litGens["cmp"] = func(g *Gen) string { return oneOf(g, "<", ">", "<=", ">=") }
	litGens["nearmix"] = func(g *Gen) string {
		n := g.pick(9) - 4
		a, b := strconv.Itoa(n), text(float32(n)+oneOf[float32](g, 0, 0.5, -0.5, 0.25, -0.75))
		if g.oneIn(4) { // not exact in a float
			m := int64(1)<<uint(24+g.pick(30)) + int64(g.pick(3))
			a, b = text(m), text(float32(m-int64(g.pick(3))))
		}
		if g.oneIn(2) {
			return b + " " + a
		}
		return a + " " + b
	}
	litGens["arith"] = func(g *Gen) string { return oneOf(g, "+", "+", "-", "*", "/", "*") }
	litGens["mixed"] = func(g *Gen) string { // several integers and at least one float, in any order
		n := 3 + g.pick(3)
		p := make([]string, n)
		f := g.pick(n)
		if g.oneIn(2) {
			f = n - 1
		}
		for i := range p {
			m := int64(1)<<uint(20+g.pick(20)) + int64(g.pick(5)) - 2
			if g.oneIn(3) {
				m = g.int64()
			}
			p[i] = text(m)
			if i == f || g.oneIn(6) {
				p[i] = oneOf(g, "0.0", "0.5", "1.0", "-2.5", text(float32(m)), text(g.float32()))
			}
		}
		return strings.Join(p, " ")
	}
	ops("flt", `
4 flt (+ {flt} {num*})
4 flt (- {flt} {num*})
4 flt (* {flt} {num*})
4 flt (/ {flt} {num})
3 flt (+ {num} {flt} {num})
2 flt (- {num} {flt})
2 flt (* {num} {flt})
2 flt (/ {num} {flt})
1 flt (- {num+} {flt})
2 flt (/ {num} {num} {flt})
2 flt (float {num})
4 int (integer {flt})
1 int (integer {num})
3 flt (floor {num})
3 flt (ceiling {num})
2 flt (abs {flt})
1 idx (sign {flt})
6 flt ({unary} {smallf})
3 flt ({unary} {flt})
2 flt {fconst}
2 flt (pow {flt} {num})
2 flt (pow {smallf} {smallf})
2 flt (min (list {num+} {flt}))
2 flt (max (list {num+} {flt}))
3 bool (< {num} {flt})
3 bool (> {flt} {num})
2 bool (> {num} {flt})
2 bool (< {flt} {num})
2 bool (<= {flt} {num})
2 bool (>= {flt} {num})
2 bool (<= {num} {flt})
4 bool ({cmp} {nearmix})
4 flt ({arith} {mixed})
2 bool (>= {num} {flt})
1 bool (== {flt} {flt})
1 bool (!= {flt} {flt})
1 bool (zero? {flt})
1 bool (positive? {flt})
1 bool (negative? {flt})
2 bool (nan? {num})
2 bool (inf? {num})
2 int (float->bits {flt})
3 flt (bits->float {u32})
2 flt (bits->float (float->bits {flt}))
1 flt (/ {flt} 0)
1 flt (/ {flt} 0.0)
`)
	litGens["u32"] = func(g *Gen) string { return text(int64(uint32(g.int64()))) }

	register(progProp("C20", "programs of 3-9 forms of integer arithmetic, comparison, interval and text conversion over the whole 64-bit range (2^24, 2^31, 2^53 and 2^63 neighbourhoods); non-trivial: at least three values compared with exact integer arithmetic",
		40000, 1000000, []string{"int", "-hof", "-list"}, progOpts{types: []string{"int", "int", "ints"}, results: []string{"int", "bool", "int", "ints", "str"}, minF: 3, maxF: 9, depth: 3},
		func(f []string, r *progResult) bool { return r.good(3) }))
	register(progProp("C21", "programs of 3-9 forms of mixed integer/float arithmetic, conversions and the float functions; every float is compared bit for bit with single-precision reference arithmetic; non-trivial: at least three values compared",
		40000, 1000000, []string{"flt", "-hof", "-list"}, progOpts{types: []string{"flt", "flt", "num"}, results: []string{"flt", "num", "bool", "int"}, minF: 3, maxF: 9, depth: 3},
		func(f []string, r *progResult) bool { return r.good(3) && strings.Contains(strings.Join(f, ""), ".") }))
}
