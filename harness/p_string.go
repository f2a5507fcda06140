package main

import (
	"strconv"
	"strings"
)

var strBits = []string{"a", "b", "A", "B", "ab", "aB", " ", "  ", "\t", "\n", ",", ", ", "aa", "x", "Z", "0", "é", "É", "ß", "日", "-", "_", ".", "ba", "\r", "\v", "\f"}

// short strings over few pieces, so that needles, separators and equal strings
// meet
func (g *Gen) sstr() string {
	var b strings.Builder
	n := g.size(4, 14)
	lim := len(strBits)
	if g.pct(60) {
		lim = 6
	}
	for ; n > 0; n-- {
		b.WriteString(strBits[g.pick(lim)])
	}
	return b.String()
}

func (g *Gen) formatCall(d int, dest string) string {
	var ctl strings.Builder
	var args []string
	for n := g.size(5, 10); n > 0; n-- {
		num, at := "", ""
		arg := func(ty string) {
			args = append(args, g.expr(ty, d-1))
		}
		val := func() {
			switch g.pick(7) {
			case 0, 1:
				arg("str")
			case 2:
				arg("int")
			case 3:
				arg("list")
			case 4:
				arg("any")
			case 5:
				arg("sym")
			default:
				args = append(args, oneOf(g, "nil", "#t", "'()", "\"\"", "'(1 \"a\" b)", "car", "{a: \"q\"}", "[1 2]"))
			}
		}
		switch g.pick(12) {
		case 0, 1, 2:
			ctl.WriteString(oneOf(g, "abc", " ", "x = ", "日本", "5", "@", "#", "v", "\n"))
			continue
		case 3, 4, 5, 6, 7:
			if g.pct(60) {
				switch g.pick(4) {
				case 0, 1:
					num = strconv.Itoa(g.pick(14))
				case 2:
					num = oneOf(g, "v", "V")
					args = append(args, oneOf(g, strconv.Itoa(g.pick(14)), strconv.Itoa(g.pick(14)), "-3", "0", "\"a\"", g.expr("idx", 1)))
				default:
					num = "#"
				}
			}
			if g.pct(35) {
				at = "@"
			}
			ctl.WriteString("~" + num + at + oneOf(g, "a", "A", "s", "S"))
			val()
		case 8:
			ctl.WriteString("~" + oneOf(g, "", "", "2", "3", "1", "#") + oneOf(g, "%", "~"))
		case 9:
			ctl.WriteString("~" + oneOf(g, "", "", "@") + "\n" + oneOf(g, "", " ", "\t  ", "\n \n", "\v\f", "\r\n ") + oneOf(g, "", "z"))
		case 10:
			ctl.WriteString(oneOf(g, "~~", "~%"))
		default:
			if g.oneIn(4) {
				ctl.WriteString(oneOf(g, "~", "~q", "~5", "~@", "~v", "~12@", "~-1a", "~d", "~é"))
			}
		}
	}
	if g.oneIn(9) && len(args) > 0 {
		args = args[:len(args)-1]
	}
	if g.oneIn(9) {
		args = append(args, g.expr("any", 1))
	}
	return strings.TrimRight("(format "+dest+" "+text(&MStr{s: ctl.String()})+" "+strings.Join(args, " "), " ") + ")"
}

func init() {
	litGens["ss"] = func(g *Gen) string { return text(&MStr{s: g.sstr()}) }
	litGens["padded"] = func(g *Gen) string {
		pad := func() (s string) {
			for n := g.pick(4); n > 0; n-- {
				s += oneOf(g, " ", "\t", "\r", "\n", "\v", "\f", "\u00a0", "\u0085", "\x00")
			}
			return
		}
		s := pad()
		return text(&MStr{s: s + g.sstr() + pad()})
	}
	litGens["sepstr"] = func(g *Gen) string {
		return text(&MStr{s: oneOf(g, "", ",", "a", "ab", " ", "b", "aa", g.sstr())})
	}
	litGens["set0"] = func(g *Gen) string {
		return text(&MStr{s: oneOf(g, "", "a", "ab", " ", "aA", "ba é", "a-z", "日,", " \t\n", "\v", "\r\f")})
	}
	litGens["scmp"] = func(g *Gen) string {
		return oneOf(g, "string=?", "string<?", "string>?", "string<=?", "string>=?", "string-ci=?", "string-ci<?", "string-ci>?", "string-ci<=?", "string-ci>=?")
	}
	litGens["nears"] = func(g *Gen) string {
		s := g.sstr()
		t := s
		switch g.pick(6) {
		case 0:
			t = strings.ToUpper(s)
		case 1:
			t = s + oneOf(g, "a", " ", "Z")
		case 2:
			if len(s) > 0 && ascii(s) {
				t = s[:len(s)-1] + string(rune(s[len(s)-1]^1))
			}
		case 3:
			t = strings.ToLower(s)
		case 4:
			t = g.sstr()
		}
		if g.pct(50) {
			s, t = t, s
		}
		return text(&MStr{s: s}) + " " + text(&MStr{s: t})
	}
	opFn("string", "strs", 4, func(g *Gen, d int) string {
		var b []string
		for n := g.size(4, 9); n > 0; n-- {
			b = append(b, g.expr("str", d-1))
		}
		return "(list " + strings.Join(b, " ") + ")"
	})
	litGens["strs"] = func(g *Gen) string {
		var b []V
		for n := g.size(4, 9); n > 0; n-- {
			b = append(b, newStr(g.sstr()))
		}
		return quoted(list(b...))
	}
	subTypes["list"] = append(subTypes["list"], "strs")
	ops("string", `
4 strs (string-split {str} {sepstr})
2 strs (string-split {str} {str})
4 str (string-join {strs} {sepstr})
2 str (string-join {strs})
1 str (string-join {list} {str})
3 str (string-trim {str})
2 str (string-trim {padded})
1 str (string-trim-left {padded})
1 str (string-trim-right {padded})
3 str (string-trim {str} {set0})
2 str (string-trim-left {str})
2 str (string-trim-left {str} {set0})
2 str (string-trim-right {str})
2 str (string-trim-right {str} {set0})
2 str (string-upcase {str})
2 str (string-downcase {str})
3 str (string-capitalize {str})
3 int (string-length {str})
2 bool (string-null? {str})
5 str (substring {str} {idx} {idx})
3 str (substring {str} 0 (string-length {str!}))
3 any (let* ((s {str}) (n (string-length s)) (k (min n {idx}))) (list n (substring s 0 k) (substring s k n)))
3 bool (substring? {str} {str})
3 bool (string-prefix? {str} {str})
3 bool (string-suffix? {str} {str})
4 bool (substring? {sepstr} {str})
3 bool (string-prefix? {sepstr} {str})
3 bool (string-suffix? {sepstr} {str})
4 bool ({scmp} {str} {str})
8 bool ({scmp} {nears})
3 str (str {any*})
3 str (str {str*})
2 any (parse (str {int}))
2 any (parse (str {list}))
1 any (parse {str})
2 sym (intern {str})
2 bool (eqv? (intern {str}) (intern {str}))
1 bool (eqv? 'ab (intern {sepstr}))
8 str {ss}
3 strs (string-split (string-join {strs} ",") ",")
2 bool (let ((s {ss}) (k {sepstr})) (string=? s (string-join (string-split s k) k)))
3 stmt (string-upcase! {str!})
3 stmt (string-downcase! {str!})
3 stmt (string-capitalize! {str!})
2 str (string-upcase! {str})
1 str (string-capitalize! (str {str}))
1 str (car {strs})
2 list (map string-upcase {strs})
1 any (string-upcase {any})
1 any (string-capitalize! {any})
1 any (string-length {any})
`)
	opFn("format", "str", 20, func(g *Gen, d int) string { return g.formatCall(d, "#f") })
	opFn("format", "any", 1, func(g *Gen, d int) string {
		return g.formatCall(d, oneOf(g, "5", "\"x\"", "nil", "'a", "#f"))
	})
	register(progProp("C22", "programs of 4-12 forms over a few short strings and lists of strings (separators, needles and near-equal strings over a tiny alphabet, non-ASCII letters, in-place case changes seen through aliases, out-of-range substrings); non-trivial: at least four values compared",
		30000, 600000, []string{"string"}, progOpts{types: []string{"str", "str", "strs"}, results: []string{"str", "bool", "strs", "str", "int", "any", "sym"}, minF: 4, maxF: 12, depth: 3, stmtPct: 20, echo: true},
		func(f []string, r *progResult) bool { return r.good(4) }).tune(func(g *Gen) { g.pPrim = 88 }))
	register(progProp("C23", "calls of format with generated control strings (every directive, counts given literally, by ~v and ~#, @, line breaks, unknown and incomplete directives) and too few, enough or too many arguments; non-trivial: at least three formatted texts compared",
		30000, 600000, []string{"format"}, progOpts{types: []string{"str", "any", "list"}, results: []string{"str"}, minF: 4, maxF: 8, depth: 2},
		func(f []string, r *progResult) bool { return r.good(3) }).tune(func(g *Gen) { g.pPrim = 90 }))
}
