package main

// Environments: protected bindings (C14), restricted environments (C15),
// environment introspection (C16); and containment of errors (C13).

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/steelseries/golisp"
)

// ---- C14 ----

var constNames = strings.Fields("nil pi e phi sqrt2 ln10 nan +inf hconst hconst hlate hlate hopen rp! rf! emit!")

func protName(g *Gen) string {
	for {
		n := primArities[g.pick(len(primArities))].name
		if g.oneIn(4) {
			n = constNames[g.pick(len(constNames))]
		} else if g.oneIn(3) {
			n = oneOf(g, "car", "+", "list", "if", "lambda", "let", "define", "set!", "not", "map", "eval", "cons", "begin")
		}
		if n != "quote" {
			return n
		}
	}
}

var attacks = strings.Split(strings.TrimSpace(`
(define N V)
(define (N q) q)
(set! N V)
(defmacro (N q) q)
(environment-define (system-global-environment) 'N V)
(environment-define (the-environment) 'N V)
(environment-assign! (the-environment) 'N V)
(environment-assign! (system-global-environment) 'N V)
(environment-assign! (procedure-environment gf) 'N V)
(environment-assign! tl 'N V)
(environment-define tl 'N V)
(global-eval '(define N V))
(global-eval '(define (N q) q))
(global-eval '(set! N V))
(global-eval '(defmacro (N q) 5))
(eval '(define N V) (system-global-environment))
(eval '(set! N V) (system-global-environment))
(eval '(set! N V) tl)
(eval '(define N V) tl)
(eval '(set! N V) (procedure-environment gf))
((lambda () (set! N V)))
((lambda (q) (set! N q) q) V)
(let ((q V)) (set! N q) q)
(let () (define N V) (list 1 2))
(let () (define (N q) q) (list 1 2))
(let ((N V)) (set! N 8) (list N))
((lambda (N) (set! N 9) (list N)) V)
(begin (emit! 1) (set! N V) (emit! 2))
(map (lambda (q) (set! N q)) '(1 2))
(on-error (set! N V) (lambda (q) 'caught))
(on-error (global-eval '(define N V)) (lambda (q) 'caught))
(send {foo: (lambda () (set! N V))} foo:)
(send {N: 3 foo: (lambda () (set! N V) (list N))} foo:)
(let loop ((N 0)) (if (integer? N) (list N) (loop V)))
(do ((i 0 (+ i 1))) ((> i 0) i) (set! N V))
(letrec ((q (lambda () (set! N V)))) (q))
((named-lambda (q) (set! N V)))
(gset V)
(when #t (set! N V))
(cond ((set! N V) 1) (else 2))
(gmac N V)
(expand gmac N V)
(apply (lambda (q) (set! N q)) (list V))
(eval (list 'set! 'N V))
(eval (list 'define 'N V))
(eval '(define N V) (make-top-level-environment '(N) '(1)))
(eval '(set! N V) (make-top-level-environment '(N) '(1)))
(set-car! N 5)
(set-cdr! N 5)
(-> V (list) (set! N))
N
(list N (environment-bound? (the-environment) 'N))
(environment-reference-type (the-environment) 'N)
(eval 'N (system-global-environment))
`), "\n")

type bindSnap struct {
	b *golisp.Binding
	v *D
}

func protSnapshot() map[string]bindSnap {
	r := map[string]bindSnap{}
	golisp.Global.Mutex.RLock()
	for n, b := range golisp.Global.Bindings {
		if b.Protected {
			r[n] = bindSnap{b, b.Val}
		}
	}
	golisp.Global.Mutex.RUnlock()
	return r
}

func protUnchanged(snap map[string]bindSnap) error {
	for n, s := range snap {
		b, ok := golisp.Global.BindingNamed(n)
		switch {
		case !ok:
			return fmt.Errorf("the protected binding %s disappeared", n)
		case b.Val != s.v:
			return fmt.Errorf("the protected binding %s has another value: %s", n, golisp.String(b.Val))
		case !b.Protected:
			return fmt.Errorf("the protected binding %s is not protected any more", n)
		}
	}
	return nil
}

func init() {
	opFn("attack", "stmt", 10, func(g *Gen, d int) string {
		a := attacks[g.pick(len(attacks))]
		v := oneOf(g, "5", "'x", "\"s\"", "'(1 2)", "(lambda (q) q)", "car", "'()", "#f")
		a = strings.ReplaceAll(a, "V", v)
		n := protName(g)
		if strings.Contains(a, "{N:") && strings.HasSuffix(n, ":") {
			n = "car"
		}
		for i := strings.Index(a, "N"); i >= 0; i = strings.Index(a, "N") {
			a = a[:i] + "\x00" + a[i+1:]
		}
		a = strings.ReplaceAll(a, "\x00", n)
		if g.oneIn(5) {
			a = "(" + oneOf(g, "begin", "list", "if #t", "and #t", "let ((w1 1))") + " " + a + ")"
		}
		return a
	})
	ops("attack", `
1 any (list (car '(1 2)) (+ 1 2) (let ((q 1)) q) ((lambda (q) q) 4) (if #t 1 2))
1 any (list hconst hlate hopen (not #f) (map + '(1 2) '(3 4)))
2 any (list pi e nil (eval '(begin 1 2)))
`)
	p := progProp("C14", "histories of 5-20 attempts, in 55 ways, to rebind a name drawn from all primitives, special forms, constants and host-protected names, at the top level, in a child environment and from inside functions, methods, macros, frames and other environments; legitimate shadowing and unprotected names between them; afterwards every protected global binding must hold the object it held; non-trivial: at least five forms compared",
		24000, 600000, []string{"attack"}, progOpts{types: []string{"int"}, results: []string{"any"}, minF: 4, maxF: 18, depth: 2, stmtPct: 85},
		func(f []string, r *progResult) bool { return r != nil && r.ok+r.errs >= 5 }).tune(func(g *Gen) { g.pPrim = 97 }).finish(func(g *Gen, forms []string) []string {
		n := protName(g)
		return append([]string{"(define tl (make-top-level-environment '(w x) '(1 2)))", "(define (gf q) q)",
			"(define (gset q) (set! " + n + " q))", "(defmacro (gmac n v) `(set! ,n ,v))"}, forms...)
	})
	run := p.Run
	p.Run = func(c interface{}, r *Rec) error {
		var snap map[string]bindSnap
		afterReset = func() { snap = protSnapshot() }
		defer func() { afterReset = nil }()
		if err := run(c, r); err != nil {
			return err
		}
		if err := protUnchanged(snap); err != nil {
			return fmt.Errorf("after the program\n%s\n%v", strings.Join(c.(*progCase).Forms, "\n"), err)
		}
		return nil
	}
	register(p)
}

// ---- C15 ----

var restrictedActions = strings.Split(strings.TrimSpace(`
(rp!)
(rp! 1 2)
(rp! (emit! 4))
(rf! (emit! 3))
(rf!)
(apply rp! '(1))
(map rp! '(1 2))
(for-each rp! '(1))
(filter rp! '(1 2))
(sort '(2 1 3) rp!)
(reduce-left rp! 0 '(1 2 3))
(fold-left rp! 0 '(1 2 3))
(every rp! '(1))
(any rp! '(1))
(find rp! '(1))
(-> 1 rp!)
(=> 1 rp!)
(eval '(rp! 1))
(eval (list rp! 1))
(eval (list 'rp! 1) (the-environment))
((begin rp!) 5)
((car (list rp!)) 6)
(let ((r2 rp!)) (r2 7))
(define r3 rp!)
(r3 8)
(global-eval '(rp! 2))
(load "/nonexistent/verif.lsp")
(open-input-file "/nonexistent/verif.txt")
(open-output-file "/nonexistent/verif.txt")
(open-output-file "/nonexistent/verif.txt" #t)
(exec "true")
(panic! "x")
(debug-on-error)
(add-debug-on-entry 'zz)
(close-port 5)
(write-bytes [1] 5)
(environment-parent (the-environment))
(environment-parent tl)
(environment? (system-global-environment))
(environment? (make-top-level-environment '(q)))
(environment? (find-top-level-environment "tle-1"))
(eval '(rp! 3) (procedure-environment gf))
(eval '(load "/nonexistent/verif.lsp") (procedure-environment gf))
(environment? (procedure-environment gf))
(environment? (procedure-environment lf))
(environment? (procedure-environment inner))
(eval '(rp! 4) (procedure-environment inner))
(eval '(rp! 5) tl)
(eval '(rp! 5) rtl)
(eval '(restrict-environment) tl)
(gmac (rp! 9))
(gmac2 1)
(lmac (rp! 10))
(expand gmac (rp! 11))
(gcall (lambda () (rp! 12)))
(gcall1 rp!)
(gf 1)
(grp 13)
(lf)
(inner)
(send gfr foo:)
(send lfr foo:)
(lfr2 13)
(rp2 14)
`), "\n")

var restrictedWraps = strings.Split(strings.TrimSpace(`
A
A
A
(let ((z 1)) A)
(let* ((z 1) (y 2)) (begin A))
(letrec ((f (lambda () A))) (f))
((lambda (q) A) 1)
((lambda (q) ((lambda (r) A) q)) 1)
(begin (emit! 0) A)
(if A 1 2)
(if #f A 2)
(let loop ((i 0)) (if (< i 1) (loop (+ i 1)) A))
(do ((i 0 (+ i 1))) ((> i 0) i) A)
(on-error A (lambda (err) (list 'caught (substring? "restricted from execution" err))))
(on-error A (lambda (err) A))
(on-error (error 1) (lambda (err) A))
(on-error 1 (lambda (err) 2) (lambda () A))
(gcall (lambda () A))
(quasiquote (1 (unquote A)))
(cond (A 1) (else 2))
(and A 1)
(or A 1)
(when #t A)
(list A)
(list (eval 'A) 1)
(eval 'A tl)
(eval 'A rtl)
(global-eval 'A)
(map (lambda (q) A) '(1 2))
(sort '(1 2) (lambda (q r) A))
(gmac A)
(lmac A)
(let () (restrict-environment) A)
(let () (restrict-environment) (let ((y 1)) A))
((lambda () (restrict-environment) A))
(send {foo: (lambda () A)} foo:)
((named-lambda (w) A))
(apply (lambda (q) A) '(1))
(-> 1 ((lambda (q) A)))
(define zz (lambda () A))
(define (lf) A)
(lf)
(zz)
(defmacro (lmac x) A)
(set! lfr {foo: (lambda () A)})
(string-length (write-to A))
`), "\n")

func init() {
	opFn("restrict", "stmt", 10, func(g *Gen, d int) string {
		a := "A"
		for n := g.size(2, 3); n >= 0; n-- {
			a = strings.ReplaceAll(a, "A", restrictedWraps[g.pick(len(restrictedWraps))])
			if len(a) > 400 {
				break
			}
		}
		for strings.Contains(a, "A") {
			a = strings.Replace(a, "A", restrictedActions[g.pick(len(restrictedActions))], 1)
		}
		return a
	})
	ops("restrict", `
1 stmt (restrict-environment)
1 stmt (eval '(restrict-environment) tl)
1 any (list 1 (+ 2 3))
`)
	register(progProp("C15", "programs that define functions, macros, frames and environments before and after restricting the global, a child, a local or another environment, then reach for host-restricted and all built-in restricted operations directly, as values, through eval, macros, methods, closures, higher-order functions and error handlers; non-trivial: a restricted operation was attempted and five forms compared",
		24000, 600000, []string{"restrict"}, progOpts{types: []string{"int"}, results: []string{"any"}, minF: 3, maxF: 14, depth: 2, stmtPct: 92},
		func(f []string, r *progResult) bool { return r != nil && r.ok+r.errs >= 14 && r.errs > 0 }).tune(func(g *Gen) { g.pPrim = 97 }).finish(func(g *Gen, forms []string) []string {
		pre := []string{
			"(define tl (make-top-level-environment \"tle-1\" '(w x) '(1 2)))",
			"(define rtl (make-top-level-environment \"tle-2\" '(w x) '(1 2)))",
			"(eval '(restrict-environment) rtl)",
			"(global-eval '(define (gf q) q))",
			"(global-eval '(define (gcall f) (f)))",
			"(global-eval '(define (gcall1 f) (f 1)))",
			"(global-eval '(define (grp q) (rp! q)))",
			"(global-eval '(defmacro (gmac x) (list 'begin x)))",
			"(global-eval '(defmacro (gmac2 x) (rp! 'm) x))",
			"(global-eval '(define gfr {foo: (lambda () (rp! 'g))}))",
			"(define lfr {foo: (lambda () (rp! 'l))})",
			"(define (lf) (rp! 'lf))",
			"(define inner (let ((k 1)) (lambda () (rp! k))))",
			"(defmacro (lmac x) (list 'list 1 x))",
			"(define (write-to x) \"abc\")",
		}
		if g.oneIn(3) {
			pre = append(pre, "(define rp2 rp!)", "(define (lfr2 x) (rp! x))")
		}
		k := g.pick(len(forms) + 1)
		if k > 3 {
			k = g.pick(4)
		}
		out := append(pre, forms[:k]...)
		if !g.oneIn(4) {
			out = append(out, oneOf(g, "(restrict-environment)", "(restrict-environment)", "(restrict-environment)", "(global-eval '(restrict-environment))"))
		}
		return append(out, forms[k:]...)
	}))
}

// ---- C16 ----

func init() {
	names := []string{"x", "y", "z", "w", "k", "hopen"}
	subTypes["env"] = []string{"env"}
	litGens["env"] = func(g *Gen) string {
		return oneOf(g, "(the-environment)", "(make-top-level-environment '(x y))", "(make-top-level-environment '(x y z) (list 1 'b \"c\"))",
			"(make-top-level-environment \"tle-"+strconv.Itoa(g.pick(3))+"\" '(x k))", "(system-global-environment)")
	}
	litGens["nm"] = func(g *Gen) string {
		if g.oneIn(15) {
			return oneOf(g, "5", "\"x\"", "x", "'car", "'hconst", "'()")
		}
		return "'" + names[g.pick(len(names))]
	}
	litGens["bare"] = func(g *Gen) string { return names[g.pick(len(names))] }
	litGens["clo"] = func(g *Gen) string {
		return oneOf(g, "(let ((x 1) (y 2)) (lambda () (list x y)))", "(lambda () (list x y))", "((lambda (x . z) (lambda () (cons x z))) 1 2 3)", "(let* ((x 5) (k (lambda () x))) k)",
			"(eval '(lambda () (list x y)) (make-top-level-environment '(x y) '(7 8)))", "(let loop ((x 3)) (if (< x 1) (lambda () x) (loop (- x 1))))", "(letrec ((x (lambda () (list y w))) (y 3)) x)")
	}
	litGens["nmlist"] = func(g *Gen) string {
		var v []V
		for _, n := range names[:5] {
			if g.pct(50) {
				v = append(v, Sym(n))
			}
		}
		if g.oneIn(20) {
			v = append(v, int64(3))
		}
		return quoted(list(v...))
	}
	litGens["quexpr"] = func(g *Gen) string {
		n := func() string { return names[g.pick(5)] }
		v := func() string { return oneOf(g, n(), strconv.Itoa(g.pick(30)), "(list "+n()+" "+n()+")") }
		return "'" + oneOf(g, n(), "(list "+n()+" "+n()+")", "(define "+n()+" "+v()+")", "(set! "+n()+" "+v()+")", "(defmacro ("+n()+" q) `(list ,q ,q))",
			"(define ("+n()+" q) (list q "+n()+"))", "(let (("+n()+" 4)) (set! "+n()+" "+v()+") (list "+n()+"))", "((lambda () (set! "+n()+" "+v()+")))", "("+n()+" 3)", "(the-environment)", "(environment-bound? (the-environment) '"+n()+")", "(begin (define "+n()+" 1) (the-environment))")
	}
	ops("env", `
5 env (make-top-level-environment {nmlist})
6 env (make-top-level-environment (list 'x 'y 'k) (list {any} {any} {any}))
2 env (make-top-level-environment '(x w z k) (list {any} 2 {any} 3))
2 env (make-top-level-environment '(y x) (list {any} {any}))
1 any (make-top-level-environment {nmlist} (list {any} {any}))
2 env (make-top-level-environment "tle-1" {nmlist})
1 any (make-top-level-environment {any})
1 env (procedure-environment {clo!})
3 env (procedure-environment {clo})
1 any (procedure-environment {any})
1 env (environment-parent (procedure-environment {clo!}))
1 any (the-environment)
1 any (let ((x 1)) (the-environment))
2 any ((lambda (x) (environment-bound-names (the-environment))) 5)
5 any (canon! (environment-bound-names {env}))
5 any (canon! (environment-bindings {env}))
3 any (canon! (environment-macro-names {env}))
1 any (canon! (environment-macro-names (system-global-environment)))
4 any (environment-reference-type {env} {nm})
4 bool (environment-bound? {env} {nm})
4 any (environment-assigned? {env} {nm})
5 any (environment-lookup {env} {nm})
3 any (environment-lookup-macro {env} {nm})
2 any (environment-assignable? {env} {nm})
2 any (environment-definable? {env} {nm})
3 any (environment-has-parent? {env})
2 any (environment? {any})
2 any (environment? {env})
1 any (environment-has-parent? {any})
1 any (environment-bound? {any} {nm})
1 any (environment-lookup {any} {nm})
4 any (find-top-level-environment "tle-1")
2 env (make-top-level-environment "let" {nmlist})
1 env (make-top-level-environment "do" {nmlist})
3 any (find-top-level-environment "let")
1 any (find-top-level-environment 'do)
1 any (global-eval '(let ((x 1)) x))
1 any (global-eval '(do ((x 1 (+ x 1))) ((> x 2) x)))
1 any (global-eval '(let tle-0 ((x 1)) x))
1 any (begin (global-eval '(define (tle-1 x) (list x))) (tle-1 {any}))
2 any (find-top-level-environment 'tle-0)
2 any (canon! (environment-bindings (find-top-level-environment "tle-1")))
2 any (canon! (environment-bindings (procedure-environment {clo!})))
12 any (eval {quexpr} {env!})
3 any (eval {quexpr} {env})
4 any (eval {quexpr})
2 any (global-eval {quexpr})
1 any (eval {any} {any})
3 any (environment-parent {env})
3 any ({clo!})
2 clo {clo}
2 any (list x y z w k)
12 stmt (environment-assign! {env!} {nm} {any})
10 stmt (environment-define {env!} {nm} {any})
6 stmt (environment-assign! (procedure-environment {clo!}) {nm} {any})
3 stmt (environment-define (procedure-environment {clo!}) {nm} {any})
3 stmt (environment-define {env!} {nm} (lambda (q) (list q x)))
6 stmt (eval {quexpr} {env!})
3 stmt (define {bare} {any})
3 stmt (set! {bare} {any})
2 stmt (eval '(defmacro (w q) (list 'list q 'x)) {env!})
1 stmt (environment-assign! {any} {nm} {any})
1 stmt (environment-define {any} {nm} {any})
`)
	register(progProp("C16", "histories of 6-20 forms over several environments (top-level ones with and without values, of closures, of the program, global): definitions and assignments through environment operations, eval and ordinary code, then every query; errors and wrong operand types included; non-trivial: at least six values compared",
		20000, 500000, []string{"env"}, progOpts{types: []string{"env", "env", "clo"}, results: []string{"any", "bool"}, minF: 6, maxF: 20, depth: 2, stmtPct: 45},
		func(f []string, r *progResult) bool { return r.good(6) }).tune(func(g *Gen) { g.pPrim = 93 }).finish(func(g *Gen, forms []string) []string {
		if g.pct(80) {
			var pre []string
			for _, n := range names[:5] {
				if g.pct(60) {
					pre = append(pre, "(define "+n+" "+oneOf(g, "10", "'p", "'(1 2)", "(lambda (q) (list q))")+")")
				}
			}
			forms = append(pre, forms...)
		}
		for _, v := range g.scope {
			switch v.ty {
			case "env":
				forms = append(forms, "(canon! (environment-bindings "+v.name+"))", "(environment-bound? "+v.name+" 'x)")
			case "clo":
				forms = append(forms, "("+v.name+")")
			}
		}
		return forms
	}))
}
