package main

// Containment of errors (C13).

import (
	"strconv"
	"strings"
)

var errToks = []string{"boom1", "\"oops 2\"", "4242", "(a 17)", "\"x\"", "stop-it"}

func (g *Gen) raise() (form, tok string) {
	t := errToks[g.pick(len(errToks))]
	q := t
	if t[0] != '"' {
		q = "'" + t
	}
	tok = "\"" + strings.Trim(t, "\"") + "\""
	if g.pct(35) { // the text of the program does not contain this message
		t = oneOf(g, "boom1", "oops 2", "4242", "stop-it")
		q = "(str " + text(&MStr{s: t[:2]}) + " " + text(&MStr{s: t[2:]}) + ")"
		return oneOf(g, "(error "+q+")", "(raise1 "+q+")", "(raise-deep 2 "+q+")", "(mraise "+q+")", "(send fraise foo: "+q+")"), "\"" + t + "\""
	}
	if g.pct(75) {
		return oneOf(g, "(error "+q+")", "(error "+q+")", "(raise1 "+q+")", "(raise-deep 3 "+q+")", "(mraise "+q+")", "(send fraise foo: "+q+")", "(begin (emit! 'before) (error "+q+") (emit! 'after))"), tok
	}
	return oneOf(g, "(car 5)", "(+ 1 'a)", "(undefined-fn 1)", "((lambda (q) q))", "(nth '(1 2) 9)", "(car)", "(set! undefined-var 1)", "(5 5)", "(list-ref '() 3)", "(quotient 1 0)", "(get-slot {} a:)", "(substring \"abc\" 2 9)", "(error (error "+q+"))", "(vector-of)"), ""
}

func (g *Gen) handler(tok string, d int) string {
	if tok == "" || g.oneIn(12) {
		tok = oneOf(g, "\"boom1\"", "\"oops\"", "\"a 17\"")
	}
	return oneOf(g,
		"(lambda (err) (substring? "+tok+" err))",
		"(lambda (err) (emit! 'handled) (list (string? err) (substring? "+tok+" err)))",
		"(lambda (err) (string? err))",
		"(lambda (err) (set! hits (+ hits 1)) hits)",
		"(lambda (err) (error err))",
		"(lambda (err) (error "+oneOf(g, "'other", "\"second\"", "99")+"))",
		"(lambda (err . r) (list (substring? "+tok+" err) r))",
		"(begin (emit! 'h) (lambda (err) (substring? "+tok+" err)))",
		"keep-err",
		"(lambda (err) "+g.errExpr(d-1)+")",
		oneOf(g, "(lambda () 1)", "(lambda (a b) 1)", "5", "car", "'()", "list", "(error 'nohandler)"),
	)
}

// errExpr writes an expression that may raise an error somewhere inside.
func (g *Gen) errExpr(d int) string {
	if d <= 0 {
		switch g.pick(5) {
		case 0, 1:
			f, tok := g.raise()
			g.usr = tok
			return f
		case 2:
			return "(emit! " + strconv.Itoa(g.pick(9)) + ")"
		case 3:
			return oneOf(g, "hits", "acc", "(list hits acc)")
		default:
			return g.lit("any")
		}
	}
	e := func() string { return g.errExpr(d - 1 - g.pick(2)) }
	mut := func() string {
		return oneOf(g, "(set! hits (+ hits 1))", "(set! acc (cons "+strconv.Itoa(g.pick(9))+" acc))", "(set-slot! fr n: (+ 1 (get-slot fr n:)))", "(emit! 's)")
	}
	switch g.pick(35) {
	case 34:
		// something in the list can't be compared
		n := 2 + g.pick(14)
		l := make([]string, n)
		for i := range l {
			j := g.pick(i + 1)
			l[i] = l[j]
			l[j] = strconv.Itoa(i)
		}
		bad := g.pick(n)
		if g.oneIn(3) {
			l[g.pick(n)] = oneOf(g, "\"a\"", "()", "b", "#t")
			return oneOf(g, "(begin "+mut()+" (sort '("+strings.Join(l, " ")+") "+oneOf(g, "<", ">")+"))", "(sort (list "+strings.ReplaceAll(strings.Join(l, " "), "b", "'b")+") <)")
		}
		return "(begin (sort '(" + strings.Join(l, " ") + ") (lambda (q r) (if (or (== q " + strconv.Itoa(bad) + ") (== r " + strconv.Itoa(bad) + ")) (error \"cmp\") (" + oneOf(g, "<", ">") + " q r)))) " + mut() + ")"
	case 24:
		return "(" + oneOf(g, "let*", "letrec") + " ((q " + e() + ") (r " + e() + ")) " + mut() + " (list q r))"
	case 25:
		return "(" + oneOf(g, "when", "unless") + " " + e() + " " + mut() + " " + e() + ")"
	case 26:
		return "(case " + e() + " ((1 2 3 #t) " + mut() + " " + e() + ") (else " + e() + "))"
	case 27:
		return oneOf(g, "(begin (time "+e()+") "+mut()+" 'timed)", "(>= (time "+e()+") 0)", "(begin (time (begin "+mut()+" "+e()+")) "+e()+")")
	case 28:
		return "(let loop ((i 0) (q " + e() + ")) (if (> i 1) q (loop (+ i 1) " + e() + ")))"
	case 29:
		return "(do ((i 0 (+ i 1)) (q " + e() + " " + e() + ")) (" + oneOf(g, "(> i 2)", "(> i 2)", e()) + " q) " + mut() + " " + e() + ")"
	case 30:
		return "(" + oneOf(g, "->", "=>") + " " + e() + " (list " + e() + ") " + oneOf(g, "list", "(list "+e()+")", "car") + ")"
	case 31:
		return oneOf(g, "(get-slot (make-frame a: "+e()+" b: 2) b:)", "(send {f: (lambda (x) "+mut()+" "+e()+")} f: "+e()+")", "(apply-slot {f: (lambda (x y) "+mut()+" "+e()+")} f: '(1 2))", "(let ((fr2 {f: (lambda () "+e()+") n: 1})) (send fr2 f:) (get-slot fr2 n:))")
	case 32:
		return oneOf(g, "(str "+e()+" "+e()+")", "(format #f \"~a ~s\" "+e()+" "+e()+")", "(sort '(3 1 2) (lambda (q r) "+e()+"))", "(expand '"+e()+")", "(mtwice "+e()+")", "(string-join (list \"a\" "+e()+") \"-\")", "(cons* 1 "+e()+" "+e()+")")
	case 33:
		return oneOf(g, "(define-thing "+e()+")", "(let ((q 1)) (set! q "+e()+") q)", "(set-car! kl "+e()+")", "(set-cdr! kl "+e()+")", "(begin (set-nth! kl 1 "+e()+") kl)", "(apply + (list 1 "+e()+"))", "(eval (list 'begin '"+e()+"))")
	case 0, 1, 2, 3, 4:
		b := e()
		tok := g.usr
		return "(on-error " + b + " " + g.handler(tok, d-1) + ")"
	case 5, 6:
		b := e()
		tok := g.usr
		return "(on-error " + b + " " + g.handler(tok, d-1) + " " + oneOf(g, "(lambda () 'fine)", "(lambda () (emit! 'none) "+e()+")", "(begin (emit! 'n) (lambda () 7))", "(lambda (x) x)", "5", "car", "(lambda () (set! hits 100))") + ")"
	case 7:
		return "(begin " + mut() + " " + e() + " " + mut() + " " + e() + ")"
	case 8:
		return "(map (lambda (q) " + mut() + " (if (== q " + strconv.Itoa(1+g.pick(4)) + ") " + e() + " q)) '(1 2 3))"
	case 9:
		return "(" + oneOf(g, "filter", "remove", "find", "find-tail", "memp", "any", "every", "partition") + " (lambda (q) " + mut() + " (if (== q 2) " + e() + " #" + oneOf(g, "t", "f") + ")) '(1 2 3))"
	case 10:
		return "(" + oneOf(g, "reduce-left", "fold-left", "fold-right", "reduce-right") + " (lambda (q r) " + mut() + " (if (== q 2) " + e() + " q)) 0 '(1 2 3))"
	case 11:
		return "(let ((q " + e() + ") (r " + e() + ")) (list q r " + mut() + "))"
	case 12:
		return "(let loop ((i 0)) (if (> i 2) " + e() + " (begin " + mut() + " (loop (+ i 1)))))"
	case 13:
		return "(do ((i 0 (+ i 1))) ((> i 2) " + e() + ") " + mut() + ")"
	case 14:
		return "(if " + e() + " " + e() + " " + e() + ")"
	case 15:
		return "(list " + e() + " " + e() + ")"
	case 16:
		return "((lambda (q . r) " + mut() + " (list q r)) " + e() + " " + e() + ")"
	case 17:
		return "(quasiquote (1 (unquote " + e() + ") (unquote-splicing (list " + e() + "))))"
	case 18:
		return "(for-each (lambda (q) " + mut() + " (if (== q 2) " + e() + ")) '(1 2 3))"
	case 19:
		return "(apply (lambda (q) " + e() + ") '(1))"
	case 20:
		return oneOf(g, "(set! kept "+e()+")", "(set-slot! fr n: "+e()+")", "(define kept "+e()+")")
	case 21:
		return "(cond (" + e() + " " + e() + ") (else " + e() + "))"
	case 22:
		return "(eval '" + e() + ")"
	default:
		return "(" + oneOf(g, "and", "or", "begin") + " " + e() + " " + e() + ")"
	}
}

func init() {
	opFn("err", "any", 30, func(g *Gen, d int) string { return g.errExpr(1 + g.pick(4)) })
	opFn("err", "stmt", 30, func(g *Gen, d int) string { return g.errExpr(2 + g.pick(4)) })
	register(progProp("C13", "histories of 3-12 forms nesting on-error (two and three operands, handlers that inspect, count, rethrow, raise anew, have the wrong arity or are no functions) around expressions that raise program errors and built-in errors at random depth inside loops, higher-order functions, methods, macros, templates and definitions, with mutations before and after; finally all state is read; non-trivial: an error was raised and four forms compared",
		24000, 600000, []string{"err"}, progOpts{types: []string{"int", "any"}, results: []string{"any"}, minF: 3, maxF: 12, depth: 3, stmtPct: 70},
		func(f []string, r *progResult) bool {
			return r != nil && r.ok+r.errs >= 12 && strings.Contains(strings.Join(f, " "), "on-error")
		}).tune(func(g *Gen) { g.pPrim = 95 }).finish(func(g *Gen, forms []string) []string {
		forms = append([]string{
			"(define hits 0)", "(define acc '())", "(define kept 'unset)", "(define fr {n: 0})",
			"(define (raise1 x) (emit! 'r) (error x) (emit! 'not-here))",
			"(define (raise-deep n x) (if (== n 0) (error x) (list (raise-deep (- n 1) x))))",
			"(defmacro (mraise x) `(error ,x))",
			"(defmacro (mtwice x) `(list ,x (begin (emit! 'tw) ,x)))",
			"(define kl (list 1 2 3))",
			"(define (define-thing x) (emit! 'dt) (set! acc (cons x acc)) 'thing)",
			"(define fraise {foo: (lambda (x) (error x))})",
			"(define (keep-err err) (set! kept (string? err)) 'kept)",
		}, forms...)
		return append(forms, "(list hits acc kept kl)", "(get-slot fr n:)", "(+ 1 2)", "`(1 ,(+ 1 1) ,@(list 3))")
	}))
}
