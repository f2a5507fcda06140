package main

import (
	"strconv"
	"strings"
)

// tmpl writes the text of a quasiquote template at the given nesting level.
func (g *Gen) tmpl(d, level int, inList bool) string {
	g.budget--
	if d <= 0 || g.oneIn(4) {
		switch g.pick(5) {
		case 0:
			return oneOf(g, "a", "b", "foo", "x", "k:", "list", "+")
		case 1:
			return text(g.int64())
		case 2:
			return oneOf(g, "\"s\"", "#t", "#f", "2.5", "()", "nil")
		default:
			return g.unq(d, level, inList)
		}
	}
	switch g.pick(14) {
	case 0, 1, 2:
		return g.unq(d, level, inList)
	case 3:
		if level < 3 {
			return "`" + g.tmpl(d-1, level+1, false)
		}
	case 4:
		return "'" + g.tmpl(d-1, level, false)
	case 5:
		return "{k: " + g.tmpl(d-1, level, true) + " b: " + g.tmpl(d-1, level, true) + "}"
	case 6:
		if n := 1 + g.pick(3); true {
			s := "("
			for ; n > 0; n-- {
				s += g.tmpl(d-1, level, true) + " "
			}
			s += ". "
			switch g.pick(5) {
			case 0, 1:
				return s + g.unq(d, level, false) + ")"
			case 2:
				if level < 3 {
					return s + "`" + g.tmpl(d-1, level+1, false) + ")"
				}
			}
			return s + oneOf(g, "z", "7", "\"t\"", "#t") + ")"
		}
	}
	var es []string
	for n := g.size(4, 9); n > 0; n-- {
		es = append(es, g.tmpl(d-1, level, true))
	}
	return "(" + strings.Join(es, " ") + ")"
}

func (g *Gen) unq(d, level int, inList bool) string {
	if level == 1 {
		if inList && g.pct(45) {
			return ",@" + g.expr(oneOf(g, "list", "list", "ints", "nil", "lists"), d-1)
		}
		return "," + g.expr(oneOf(g, "any", "int", "list", "sym", "nil"), d-1)
	}
	m := ","
	if inList && g.pct(30) {
		m = ",@"
	}
	return m + g.tmpl(d-1, level-1, false)
}

// substitute replaces the whole tokens named in names.
func substTokens(s string, names map[string]string) string {
	var b strings.Builder
	inStr := false
	for i := 0; i < len(s); {
		c := s[i]
		if inStr {
			b.WriteByte(c)
			i++
			if c == '\\' && i < len(s) {
				b.WriteByte(s[i])
				i++
			} else if c == '"' {
				inStr = false
			}
			continue
		}
		if strings.IndexByte(" ()'`,@{}[]\"", c) >= 0 {
			inStr = c == '"'
			b.WriteByte(c)
			i++
			continue
		}
		j := i
		for j < len(s) && strings.IndexByte(" ()'`,@{}[]\"", s[j]) < 0 {
			j++
		}
		if r, ok := names[s[i:j]]; ok {
			b.WriteString(r)
		} else {
			b.WriteString(s[i:j])
		}
		i = j
	}
	return b.String()
}

func (g *Gen) macroArg(d int) string {
	switch g.pick(6) {
	case 0:
		if v, ok := g.varOf("any"); ok {
			return v
		}
	case 1:
		return oneOf(g, "a", "(a b)", "()", "(emit! 1)", "(emit! 2 3)", "tmp", "(quote q)", "\"s\"")
	case 2:
		return text(g.datum(2))
	case 3:
		return g.expr("int", d-1)
	}
	return g.expr("any", d-1)
}

func (g *Gen) macVar() (name string, n int, rest, ok bool) {
	var c []gvar
	hidden := map[string]bool{}
	for i := len(g.scope) - 1; i >= 0; i-- {
		v := g.scope[i]
		if !hidden[v.name] && strings.HasPrefix(v.ty, "mac") {
			c = append(c, v)
		}
		hidden[v.name] = true
	}
	if len(c) == 0 {
		return
	}
	v := c[g.pick(len(c))]
	s := strings.TrimPrefix(v.ty, "mac")
	if strings.HasSuffix(s, "r") {
		rest = true
		s = s[:len(s)-1]
	}
	n, _ = strconv.Atoi(s)
	return v.name, n, rest, true
}

func (g *Gen) macroCallArgs(n int, rest bool, d int) string {
	if rest {
		n += g.pick(4)
	}
	if g.mille(50) {
		n += g.pick(3) - 1
	}
	s := ""
	for i := 0; i < n; i++ {
		s += " " + g.macroArg(d)
	}
	return s
}

func (g *Gen) macroBody(ps []string, rest string, d int) string {
	g.budget = 25
	switch g.pick(10) {
	case 0:
		// not a template at all: computes on the forms it was given
		var c []string
		for _, p := range ps {
			c = append(c, "(list 'quote "+p+")", p, "(if (pair? "+p+") (car "+p+") "+p+")", "(list 'list "+p+" "+p+")", "(list 'quote (list "+p+" "+strings.Join(ps, " ")+"))")
		}
		if rest != "" {
			c = append(c, "(cons 'list "+rest+")", "(cons 'begin "+rest+")", "(cons 'list (map (lambda (q) (list 'quote q)) "+rest+"))", "(list 'quote "+rest+")", "(cons 'list (reverse "+rest+"))")
		}
		if v, ok := g.varOf("any"); ok {
			c = append(c, "(list 'list (list 'quote "+v+") '"+v+")", "`(list ',"+v+" "+v+")", "(list 'quote "+v+")", "(begin (set! "+v+" (list "+v+")) '"+v+")")
		}
		c = append(c, "'(+ 1 2)", "(emit! 7)", "''zz", "(list 'emit! 1 2)")
		return c[g.pick(len(c))]
	case 1, 2:
		// a data template over the parameters
		var vs []gvar
		for _, p := range ps {
			vs = append(vs, gvar{p, "any"})
		}
		if rest != "" {
			vs = append(vs, gvar{rest, "list"})
		}
		s := ""
		g.with(vs, func() { s = "`'" + g.tmpl(d, 1, false) })
		return s
	}
	// a code template: an expression in which the parameters are unquoted
	var vs []gvar
	names := map[string]string{}
	for _, p := range ps {
		vs = append(vs, gvar{p, "any"})
		names[p] = "," + p
	}
	if rest != "" {
		vs = append(vs, gvar{rest, "list"})
		names[rest] = oneOf(g, ",@"+rest, "(list ,@"+rest+")", "(quote ,"+rest+")", "',"+rest)
	}
	saved := g.scope
	s := ""
	// only the parameters and the macros are sure to be visible at the calls
	g.with(vs, func() { s = g.expr("any", d) })
	g.scope = saved
	if !strings.HasPrefix(s, "(") {
		s = "(list " + s + " " + strings.Join(ps, " ") + ")"
	}
	if g.pct(30) && len(ps) > 0 {
		s = "(let ((tmp " + ps[0] + ")) (list tmp " + s + "))"
	}
	return "`" + substTokens(s, names)
}

func (g *Gen) defmacro(d int) (string, string) {
	n, rest := g.pick(4), g.pct(35)
	nm := oneOf(g, "ma", "mb", "mc", g.fresh("mac"))
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, g.fresh("p"))
	}
	r, params := "", strings.Join(ps, " ")
	if rest {
		r = g.fresh("r")
		if v, ok := g.varOf("any"); ok && g.pct(30) {
			// a name that means something else outside
			r = v
		}
		params += " . " + r
	}
	ty := "mac" + strconv.Itoa(n)
	if rest {
		ty += "r"
	}
	s := "(defmacro (" + strings.TrimSpace(nm+" "+params) + ") " + g.macroBody(ps, r, d) + ")"
	g.scope = append(g.scope, gvar{nm, ty})
	return nm, s
}

func init() {
	opFn("quasi", "any", 14, func(g *Gen, d int) string {
		g.budget += 8
		return "`" + g.tmpl(d+1, 1, false)
	})
	opFn("quasi", "list", 4, func(g *Gen, d int) string {
		s := "`("
		for n := g.size(4, 8); n > 0; n-- {
			s += g.tmpl(d, 1, true) + " "
		}
		return s + ")"
	})
	ops("quasi", "1 any (unquote {any})\n1 any (quasiquote {rawdatum})\n1 any (list 'quasiquote {any})\n1 any ,{any}\n1 any ,@{list}")
	opFn("macro", "any", 14, func(g *Gen, d int) string {
		nm, n, rest, ok := g.macVar()
		if !ok {
			return ""
		}
		return "(" + nm + g.macroCallArgs(n, rest, d) + ")"
	})
	opFn("macro", "any", 6, func(g *Gen, d int) string {
		// a call in a scope that binds a name the macro may refer to
		nm, n, rest, ok := g.macVar()
		if !ok {
			return ""
		}
		v, ok := g.varOf("any")
		if !ok {
			return ""
		}
		return "(let ((" + v + " " + text(g.int64()) + ") (" + oneOf(g, "tmp", "list2", "q") + " " + g.expr("any", 0) + ")) (" + nm + g.macroCallArgs(n, rest, d) + "))"
	})
	opFn("macro", "any", 5, func(g *Gen, d int) string {
		nm, n, rest, ok := g.macVar()
		if !ok {
			return ""
		}
		return "(expand " + nm + g.macroCallArgs(n, rest, d) + ")"
	})
	opFn("macro", "any", 2, func(g *Gen, d int) string {
		// a macro defined in a local scope sees that scope when it expands, and
		// its expansion is evaluated where it is called
		saved := len(g.scope)
		v := g.bindName()
		e := g.expr("any", 1)
		g.scope = append(g.scope, gvar{v, "any"})
		nm, def := g.defmacro(d - 1)
		t := g.scope[len(g.scope)-1].ty
		g.scope = append(g.scope, gvar{nm, t})
		n, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(t, "mac"), "r"))
		call := "(" + nm + g.macroCallArgs(n, strings.HasSuffix(t, "r"), d) + ")"
		g.scope = g.scope[:saved]
		return "(let ((" + v + " " + e + ")) " + def + " (let ((" + v + " " + text(g.int64()) + ")) " + call + "))"
	})
	ops("macro", `
2 any (my-and {any*})
2 any (my-or {any*})
2 any (my-let1 x {any} (list x {any}))
2 any (unless2 {bool} {any} {any})
1 any (let ((u {int}) (w {int})) (swap2! u w) (list u w))
1 any (let ((tmp {int}) (w {int})) (swap2! tmp w) (list tmp w))
1 any (begin (mkdef nn {any}) (list nn (get-nn)))
1 any (map my-and {list})
1 any (apply my-and {list})
1 any my-and
1 any (expand {any} {any})
1 any (expand my-and {any*})
1 any (expand my-or {any*})
1 stmt (defmacro {rawdatum} {any})
1 stmt (defmacro (4 x) x)
1 stmt (mkmac nm2 {any})
1 any (nm2 {any})
1 any (nm2)
`)
	opFn("macro", "stmt", 20, func(g *Gen, d int) string {
		saved := len(g.scope)
		_, s := g.defmacro(d)
		if !g.atTop {
			g.scope = g.scope[:saved]
		}
		return s
	})
	register(progProp("C12", "programs of 4-12 forms: quasiquote templates (nested levels, splices of every length, dotted tails, frame literals) and macros whose bodies are generated templates over their parameters, called with generated forms, expanded with expand, nested in each other, defined locally, with unhygienic capture; non-trivial: at least three values compared",
		25000, 700000, []string{"quasi", "macro"}, progOpts{types: []string{"any", "int", "list", "ints"}, results: []string{"any"}, minF: 3, maxF: 10, depth: 3, stmtPct: 40},
		func(f []string, r *progResult) bool { return r.good(7) }).finish(func(g *Gen, forms []string) []string {
		return append([]string{
			"(defmacro (my-and . r) (if (nil? r) #t (if (nil? (cdr r)) (car r) `(if ,(car r) (my-and ,@(cdr r)) #f))))",
			"(defmacro (my-or . r) (if (nil? r) #f `(let ((v ,(car r))) (if v v (my-or ,@(cdr r))))))",
			"(defmacro (my-let1 n e . b) `(let ((,n ,e)) ,@b))",
			"(defmacro (unless2 c . b) `(if ,c 'no (begin ,@b)))",
			"(defmacro (swap2! a b) `(let ((tmp ,a)) (set! ,a ,b) (set! ,b tmp)))",
			"(defmacro (mkdef n v) `(begin (define ,n ,v) (define (get-nn) ,n)))",
			"(defmacro (mkmac n v) `(defmacro (,n . x) (list 'quote (list ,v x))))",
		}, forms...)
	}))
}
