package main

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

var scopeNames = []string{"a", "b", "c", "x", "y", "n", "k", "f2", "lst"}

func (g *Gen) bindName() string {
	if g.pct(70) {
		return scopeNames[g.pick(len(scopeNames))]
	}
	return g.fresh("w")
}

// with adds variables for the duration of f.
func (g *Gen) with(vs []gvar, f func()) {
	n := len(g.scope)
	g.scope = append(g.scope, vs...)
	f()
	g.scope = g.scope[:n]
}

var someTypes = []string{"int", "list", "any", "ints", "bool", "str"}

func (g *Gen) body(d int) string {
	var b []string
	if g.pct(30) {
		b = append(b, "(emit! "+strconv.Itoa(g.pick(9))+")")
	}
	if g.pct(20) {
		if s := g.stmt(d - 1); s != "" {
			b = append(b, s)
		}
	}
	b = append(b, g.expr("any", d-1))
	return strings.Join(b, " ")
}

func (g *Gen) letForm(kind string, d int) string {
	n := 1 + g.pick(3)
	if g.oneIn(15) {
		n = 0
	}
	var vs []gvar
	var bs []string
	saved := len(g.scope)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		nm := g.bindName()
		if used[nm] {
			nm = g.fresh("w")
		}
		used[nm] = true
		ty := someTypes[g.pick(len(someTypes))]
		if g.oneIn(8) {
			ty = oneOf(g, "f1", "g1", "f0", "f2")
		}
		if g.oneIn(15) { // no value
			ty = "any"
			bs = append(bs, "("+nm+")")
		} else {
			bs = append(bs, "("+nm+" "+g.expr(ty, d-1)+")")
		}
		vs = append(vs, gvar{nm, ty})
		if kind != "let" {
			g.scope = append(g.scope, gvar{nm, ty})
		}
	}
	g.scope = g.scope[:saved]
	var body string
	g.with(vs, func() { body = g.body(d) })
	return "(" + kind + " (" + strings.Join(bs, " ") + ") " + body + ")"
}

// a call of a function-typed variable in scope
func (g *Gen) callVar(d int) string {
	var c []gvar
	hidden := map[string]bool{}
	for i := len(g.scope) - 1; i >= 0; i-- {
		v := g.scope[i]
		if !hidden[v.name] && (isFnType(v.ty) || strings.HasPrefix(v.ty, "call")) {
			c = append(c, v)
		}
		hidden[v.name] = true
	}
	if len(c) == 0 {
		return ""
	}
	v := c[g.pick(len(c))]
	n, rest := 0, false
	ty := "any"
	switch v.ty {
	case "f0":
	case "f1", "p1":
		n = 1
	case "g1", "q1":
		n, ty = 1, "int"
	case "f2":
		n = 2
	case "g2", "lt":
		n, ty = 2, "int"
	case "f3":
		n = 3
	default: // callN or callNr
		s := strings.TrimPrefix(v.ty, "call")
		if strings.HasSuffix(s, "r") {
			rest = true
			s = s[:len(s)-1]
		}
		n, _ = strconv.Atoi(s)
	}
	if rest {
		n += g.pick(4)
	}
	if g.mille(40) {
		n += g.pick(3) - 1
	}
	parts := []string{v.name}
	for i := 0; i < n; i++ {
		parts = append(parts, g.arg(ty, d-1))
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (g *Gen) params(n int, rest bool) (text string, vs []gvar) {
	used := map[string]bool{}
	var ns []string
	name := func() string {
		nm := g.bindName()
		for used[nm] {
			nm = g.fresh("w")
		}
		used[nm] = true
		return nm
	}
	for i := 0; i < n; i++ {
		nm := name()
		ns = append(ns, nm)
		vs = append(vs, gvar{nm, "any"})
	}
	text = strings.Join(ns, " ")
	if rest {
		nm := name()
		vs = append(vs, gvar{nm, "list"})
		if text != "" {
			text += " "
		}
		text += ". " + nm
	}
	return
}

func init() {
	ops("forms", `
2 any (if {bool} {any} {any})
1 any (begin {any+})
1 any (and {any*})
1 any (or {any*})
1 any (let ((w0 {any})) (list w0 {any}))
`)
	ops("ctl", `
5 any (if {any} {any} {any})
2 any (if {bool} {any} {any})
2 any (if {any} {any})
3 any (when {any} {any+})
3 any (unless {any} {any+})
4 any (and {any*})
4 any (or {any*})
3 any (begin {any*})
2 bool (not {any})
1 any (cond)
2 any (cond ({any} {any}) ({any} {any}) (else {any}))
2 any (cond ({bool} {any+}) ({bool}) ({any} {any+}))
3 any (-> {any} (list {any}) list)
2 any (-> {list} (append {list}) reverse length)
2 any (-> {int} (+ {int}) (- {int}) succ)
3 any (=> {any} (emit! 1) emit! (list {any}))
2 any (=> {any} list emit! (list {any}) (emit! 2))
2 any (=> {int} (+ {int}) emit! succ (emit! 3) -)
1 any (=> {list} car emit! cdr emit! (append {list}) length emit!)
1 any (-> {list} (append {list}) emit! car emit! list emit!)
2 any (-> {sym} (list {any}))
1 any (-> {list} car)
1 any (quote {rawdatum})
2 any (list (emit! {int}) (emit! {any}) (emit! {any}))
2 any ((begin (emit! 0) {f2}) (emit! 1) (emit! 2))
1 any (apply {f2} (emit! {any}) (list (emit! {any})))
`)
	litGens["rawdatum"] = func(g *Gen) string { return text(g.datum(2)) }
	opFn("ctl", "any", 5, func(g *Gen, d int) string {
		var b strings.Builder
		b.WriteString("(cond")
		for n := 1 + g.pick(4); n > 0; n-- {
			b.WriteString(" (" + g.expr("any", d-2) + " " + g.body(d-1) + ")")
		}
		if g.pct(50) {
			b.WriteString(" (else " + g.body(d-1) + ")")
			if g.mille(80) {
				b.WriteString(" (" + g.expr("any", d-2) + " " + g.body(d-1) + ")")
			}
		}
		return b.String() + ")"
	})
	opFn("ctl", "any", 5, func(g *Gen, d int) string {
		var b strings.Builder
		b.WriteString("(case " + oneOf(g, g.expr("int", d-1), quoted(g.key()), g.expr("idx", d-1), "'b"))
		for n := 1 + g.pick(4); n > 0; n-- {
			b.WriteString(" ((")
			for m := g.pick(4); m > 0; m-- {
				b.WriteString(text(g.key()) + " ")
			}
			if g.mille(60) {
				b.WriteString("else")
			}
			b.WriteString(") " + g.body(d-1) + ")")
		}
		if g.pct(50) {
			b.WriteString(" (else " + g.body(d-1) + ")")
		}
		return b.String() + ")"
	})
	opFn("ctl", "any", 3, func(g *Gen, d int) string {
		// keys that are equal without being the same object
		pool := []string{"(1 2)", "(1 3)", "(a)", "(a . b)", "((a) 1)", "(1 \"a\")", "\"a\"", "\"b\"", "1.5", "2", "2.0", "#t", "#f", "[1 2]", "[1 3]", "()", "(())", "(1 (2 . 3))", "-1", "9007199254740993", "9007199254740992", "a", "k:", "else"}
		key := pool[g.pick(len(pool))]
		var b strings.Builder
		b.WriteString("(case " + oneOf(g, "'"+key, "'"+key, "(car '("+key+"))", "(car (list '"+key+" 1))", "(copy '"+key+")"))
		clauses := 1 + g.pick(4)
		at := g.pick(clauses + 1)
		for n := 0; n < clauses; n++ {
			b.WriteString(" ((")
			for m := g.pick(4); m > 0; m-- {
				b.WriteString(pool[g.pick(len(pool))] + " ")
			}
			if n == at {
				b.WriteString(key + " ")
				if g.oneIn(2) {
					b.WriteString(pool[g.pick(len(pool))])
				}
			}
			b.WriteString(") " + oneOf(g, "'c"+strconv.Itoa(n), "'c"+strconv.Itoa(n), g.body(d-1)) + ")")
		}
		if g.pct(50) {
			b.WriteString(" (else 'other)")
		}
		return b.String() + ")"
	})
	opFn("ctl", "any", 4, func(g *Gen, d int) string {
		// do loop with one or two variables
		i := g.bindName()
		j := g.bindName()
		if j == i {
			j = g.fresh("w")
		}
		n := strconv.Itoa(g.pick(5))
		var s string
		g.with([]gvar{{i, "int"}, {j, "any"}}, func() {
			step := oneOf(g, "(cons "+i+" "+j+")", g.expr("any", 1), "(list "+j+" "+i+")", oneOf(g, "#f", "#t", "7", "\"s\"", ""))
			body := ""
			if g.pct(60) {
				body = " " + g.body(d-1)
			}
			res := ""
			if g.pct(97) {
				res = " " + oneOf(g, g.expr("any", 1), "(list "+i+" "+j+")")
			}
			s = "(do ((" + i + " 0 (+ " + i + " 1)) (" + j + " " + oneOf(g, "'()", "1") + " " + step + ")) ((>= " + i + " " + n + ")" + res + ")" + body + ")"
		})
		return s
	})
	opFn("ctl", "any", 3, func(g *Gen, d int) string {
		return "(do ((i 0 (+ i 1)) (q " + g.expr("any", 1) + ")) ((== i " + strconv.Itoa(g.pick(4)) + ") (list i q)) " + g.body(d-1) + ")"
	})

	// ---- scope ----
	opFn("scope", "any", 6, func(g *Gen, d int) string { return g.letForm("let", d) })
	opFn("scope", "any", 6, func(g *Gen, d int) string { return g.letForm("let*", d) })
	opFn("scope", "any", 3, func(g *Gen, d int) string { return g.letForm("letrec", d) })
	opFn("scope", "any", 10, func(g *Gen, d int) string { return g.callVar(d) })
	opFn("scope", "any", 4, func(g *Gen, d int) string {
		// immediate lambda, possibly with a rest parameter
		n, rest := g.pick(3), g.pct(30)
		ps, vs := g.params(n, rest)
		var body string
		g.with(vs, func() { body = g.body(d) })
		s := "((lambda (" + ps + ") " + body + ")"
		if rest {
			n += g.pick(3)
		}
		for i := 0; i < n; i++ {
			s += " " + g.expr("any", d-2)
		}
		return s + ")"
	})
	opFn("scope", "any", 4, func(g *Gen, d int) string {
		// the name of a named-lambda is no variable: it means what it meant outside
		n, rest := g.pick(3), g.pct(25)
		nm := oneOf(g, g.bindName(), g.fresh("nl"), "fa")
		ps, vs := g.params(n, rest)
		var body string
		g.with(vs, func() {
			body = g.body(d)
			if g.pct(40) {
				body = "(list " + nm + " " + g.expr("any", d-1) + ")"
			}
		})
		fn := "(named-lambda (" + strings.TrimSpace(nm+" "+ps) + ") " + body + ")"
		if rest {
			n += g.pick(3)
		}
		args := ""
		for i := 0; i < n; i++ {
			args += " " + g.expr("any", d-2)
		}
		switch g.pick(4) {
		case 0:
			w := g.fresh("w")
			return "(let ((" + w + " " + fn + ")) (list (" + w + args + ") " + nm + "))"
		case 1:
			return "(let ((" + nm + " " + g.expr("any", 1) + ")) (list (" + fn + args + ") " + nm + "))"
		case 2:
			w := g.fresh("w")
			return "(let () (define " + w + " " + fn + ") (list (" + w + args + ") " + nm + "))"
		}
		return "(" + fn + args + ")"
	})
	opFn("scope", "any", 4, func(g *Gen, d int) string {
		// named let
		nm := oneOf(g, "loop", "iter", g.bindName())
		if v, ok := g.varOf("int"); ok && g.pct(25) {
			// the initial value is outside the scope of the loop's name
			i, acc := g.fresh("w"), g.fresh("w")
			var body string
			g.with([]gvar{{i, "int"}, {acc, "any"}}, func() { body = g.expr("any", d-1) })
			return "(let " + v + " ((" + i + " " + oneOf(g, v, "(modulo "+v+" 4)", "(if (integer? "+v+") 2 1)") + ") (" + acc + " (list " + v + "))) (if (or (<= " + i + " 0) (> (length " + acc + ") 4)) " + acc + " (" + v + " (- " + i + " 1) (cons " + body + " " + acc + "))))"
		}
		i, acc := g.fresh("w"), g.fresh("w")
		var body string
		g.with([]gvar{{i, "int"}, {acc, "any"}}, func() { body = g.expr("any", d-1) })
		return "(let " + nm + " ((" + i + " " + strconv.Itoa(g.pick(6)) + ") (" + acc + " '())) (if (<= " + i + " 0) " + acc + " (" + nm + " (- " + i + " 1) (cons " + body + " " + acc + "))))"
	})
	opFn("scope", "any", 3, func(g *Gen, d int) string {
		// mutual recursion through letrec
		return "(letrec ((ev? (lambda (n) (if (== n 0) #t (od? (- n 1))))) (od? (lambda (n) (if (== n 0) #f (ev? (- n 1)))))) (list (ev? " + strconv.Itoa(g.pick(12)) + ") (od? " + strconv.Itoa(g.pick(12)) + ") " + g.expr("any", d-1) + "))"
	})
	opFn("scope", "any", 3, func(g *Gen, d int) string {
		// closures created in a loop
		v := g.bindName()
		var body string
		g.with([]gvar{{v, "int"}}, func() { body = g.expr("any", 1) })
		return "(map (lambda (thunk) (thunk)) (map (lambda (" + v + ") (lambda () " + body + ")) " + g.expr("ints", 1) + "))"
	})
	opFn("scope", "any", 3, func(g *Gen, d int) string {
		// internal definitions
		v := g.bindName()
		e := g.expr("any", d-1)
		var body string
		g.with([]gvar{{v, "any"}}, func() { body = g.expr("any", d-1) })
		return "(let () (define " + v + " " + e + ") " + body + ")"
	})
	opFn("scope", "any", 2, func(g *Gen, d int) string {
		// argument evaluation happens in the caller's scope
		v := g.bindName()
		var e string
		g.with([]gvar{{v, "any"}}, func() { e = g.expr("any", 1) })
		return "(let ((" + v + " " + g.expr("any", 1) + ")) ((lambda (" + v + ") (list " + v + " " + e + ")) (list " + v + ")))"
	})
	opFn("scope", "stmt", 8, func(g *Gen, d int) string {
		// top-level function definition
		n, rest := g.pick(3), g.pct(25)
		nm := oneOf(g, "fa", "fb", "fc", g.fresh("fn"))
		ps, vs := g.params(n, rest)
		if rest && n == 0 {
			ps = strings.TrimSpace(ps)
		}
		var body string
		g.with(vs, func() { body = g.body(d) })
		ty := "call" + strconv.Itoa(n)
		if rest {
			ty += "r"
		}
		s := "(define (" + nm + " " + ps + ") " + body + ")"
		if len(g.scope) == 0 || g.atTop {
			g.scope = append(g.scope, gvar{nm, ty})
		}
		return s
	})
	opFn("scope", "stmt", 6, func(g *Gen, d int) string {
		// a counter: closures over one variable
		nm := g.fresh("ctr")
		v := g.bindName()
		s := "(define " + nm + " (let ((" + v + " " + g.expr("int", 1) + ")) (lambda (" + "d) (set! " + v + " (+ " + v + " d)) " + v + ")))"
		if g.atTop {
			g.scope = append(g.scope, gvar{nm, "g1"})
		}
		return s
	})
	opFn("scope", "stmt", 4, func(g *Gen, d int) string {
		// a pair of closures sharing state
		a, b := g.fresh("get"), g.fresh("put")
		v := g.bindName()
		s := "(define pr (let ((" + v + " " + g.expr("any", 1) + ")) (list (lambda () " + v + ") (lambda (z) (set! " + v + " z)))))"
		_ = a
		_ = b
		return s
	})
	ops("scope", `
2 any ((car pr))
2 any ((cadr pr) {any})
4 stmt (set! {any!} {any})
2 stmt (set! {int!} (+ {int!} {int}))
1 stmt (set! undefined-var {any})
1 stmt (define {any!} {any})
1 any unbound-name
1 any (definition-of {fnvar})
1 any (let ((al {fnvar})) (definition-of al))
1 any (let* ((v (list {any} {any})) (n (copy v)) (w (list v n))) (set! v n) (set-car! n {any}) (list v n w))
1 any ((lambda (v n) (let ((g (lambda (q) (set! v q) v))) (list (g n) (set-cdr! n {any}) v n))) (list 1 2) (list 1 2))
1 any (let* ((v "s") (n (copy v))) (set! v n) (list v (eq? v n)))
1 any (letrec ((v (list 1)) (g (lambda (n) (define v n) (set-car! n {any}) v))) (list (g (list 1)) v))
1 any (do ((v (list 1) (list 1)) (w '() (cons v w)) (i 0 (+ i 1))) ((> i 2) (set-car! (car w) {any}) (list v w)) (set! v v))
1 any (definition-of {any!})
1 any (letrec ((al (lambda (x . r) {any} (cons x r)))) (definition-of al))
1 any (definition-of (named-lambda (al x) {any}))
1 any (let al ((i 0)) (if (== i 0) (al 1) (definition-of al)))
1 any (let ((fb {fnvar}) (fa fb)) (definition-of fa))
1 any {fnvar}
`)
	// locals may have the names of primitives and special forms
	opFn("scope", "any", 3, func(g *Gen, d int) string {
		name := oneOf(g, "list", "car", "if", "quote", "cond", "and", "set!", "begin", "lambda", "length", "let", "do", "+", "case", "quasiquote", "map")
		call := "(" + name + " " + g.expr("any", d-1) + ")"
		return oneOf(g,
			"(let (("+name+" "+g.expr("f1", d-1)+")) "+call+")",
			"((lambda ("+name+") "+call+") "+g.expr("f1", d-1)+")",
			"(letrec (("+name+" "+g.expr("f1", d-1)+")) "+call+")",
			"(do (("+name+" "+g.expr("f1", d-1)+") (n 0 (+ n 1))) ((> n 0) "+call+"))")
	})
	litGens["fnvar"] = func(g *Gen) string { return oneOf(g, "fa", "fb", "fc", "(lambda (x) x)") }

	register(progProp("C10", "programs of 2-6 forms nesting if/cond/case/when/unless/and/or/begin/do/->/=> with traced operands, so that which operands are evaluated, in which order and how often is compared; non-trivial: a traced effect occurred and two values compared",
		20000, 500000, []string{"ctl"}, progOpts{types: []string{"any", "int", "list"}, results: []string{"any"}, minF: 2, maxF: 6, depth: 4},
		func(f []string, r *progResult) bool {
			tr := false
			if r != nil {
				for _, o := range r.outs {
					tr = tr || len(o.trace) > 0
				}
			}
			return r.good(2) && tr
		}).tune(func(g *Gen) { g.pEmit = 120 }))
	register(progProp("C09", "histories of 4-14 forms with nested let/let*/letrec/named let/lambda/define, shadowing from a small pool of names, closures that capture and mutate variables, recursion and redefinition; non-trivial: at least four values compared and a closure or binding form used",
		20000, 500000, []string{"scope"}, progOpts{types: []string{"any", "int", "list", "f1", "g1", "f0"}, results: []string{"any"}, minF: 4, maxF: 14, depth: 3, stmtPct: 45, echo: true},
		func(f []string, r *progResult) bool { return r.good(4) }))
}

func (p *Prop) tune(f func(g *Gen)) *Prop { p.tuneF = f; return p }

var _ = rapid.Bool
