package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

var robustPool = strings.Split(`0|1|-1|2|3|7|100|255|256|9223372036854775807|-9223372036854775808|4294967296|1.5|-0.0|1e30|-3.25|"x"|""|"é世"|"abc def"|"~a ~s ~5d"|"10"|'a|'b:|'x*:|'()|#t|#f|'(1 2 3)|'(1 . 2)|'(1 2 . 3)|'((a . 1) (b . 2))|(alist '((a . 1) (b . 2)))|'(((1)) 2 (3 (4)))|'(() ())|'(a)|'(a b c d e f g h)|[1 2]|[]|[255 0 17 4]|{a: 1}|{}|{parent*: {b: 2} f: (lambda () b)}|{f: (lambda (x) (+ x a)) a: 3}|(lambda (x) x)|(lambda () 1)|(lambda (a b) a)|(lambda (. x) x)|(lambda (a . b) b)|(lambda (x) (error x))|(lambda (a b) (< a b))|car|+|if|list|mm|(the-environment)|(make-channel 5)|(atomic 3)|(fork (lambda (p) 1))|(open-input-file "/dev/null")|'(quote)|'(quote x)|'(quasiquote (a (unquote)))|'(lambda (x) x)|'lambda|'(+ 1 2)|'(error "e")|(list car)|(list (lambda (x) x))|(list (list 1 "a") (list 'b 2.5 #t))|(/ 1.0 0.0)|(- (/ 1.0 0.0) (/ 1.0 0.0))|(car '())|'("a" "b" "a")|'(b a)|'(#t #f)|(list {a: 1} {a: 2})|(list 1 2.5 3)|'(1 (2 . 3) . 4)|(cons 1 [1 2])|(cons 'a {a: 1})|(list (atomic 1))|(make-frame a: 1 b: '(1 . 2))|(json->lisp "[1,null,{}]")|(json->lisp "{\"a\": null}")|(list (car '()))|(cons (car '()) 1)|(gensym)|(gensym-naked)|else|nil`, "|")

var robustRaw = strings.Split(`0|1|x|y:|()|(1)|(x)|(x 1)|((x 1))|((x 1) (y 2))|(x . y)|((x . 1))|(((x)))|((x 1 2))|"s"|#t|#f|nil|else|(else 1)|(else)|(else . 1)|((1 2) 3)|(1 => car)|((1) => car)|(#t => car)|(lambda (x) x)|(lambda (e) e)|car|'a|''|(quote x)|(x y . z)|(car '(1 2))|{a: 1}|[1 2]|(1 2 3)|(=> x)|((x))|f|(f)|(f x)|(f . x)|(error "e")|=>|.5|((lambda (x) x) 1)|((x 1 (+ x 1)))|((> 2 1) 5)|((car '()) 5)|(unquote x)|(unquote-splicing x)|(unquote . x)|(a (unquote x) b)|((unquote-splicing '(1 . 2)))|(begin)|(let ((z 1)) z)|named|[x]|{a: x}|(x x)|("a" 1)|((quote a) 1)|(1 . 2)|(. x)|(x . 1)|(set! x 3)|(define q 1)`, "|")

// what definitions bind is never called by the other arguments: an endless
// recursion ends the process, as it does in Go itself
var robustHeads = strings.Split(`dd|(dd)|(dd y)|(dd y . z)|(dd . z)|()|((y 1))|((y 1) (z 2))|((y))|(y)|((y 1 2))|(y . z)|((y . 1))|5|"s"|(5)|((5 1))|(("s" 1))|(dd 5)|(dd "s" y)|((dd) y)|((dd (lambda (y) y)))|((y 1) . z)|[1]|{a: 1}|#t|((y (car 5)))|(dd y y)|((y 1) (y 2))|((nil 1))|((#t 1))|k:|(k: y)|((k: 1))|(dd k:)`, "|")

var robustDefiners = map[string]bool{"define": true, "defmacro": true, "named-lambda": true, "letrec": true, "let": true, "let*": true, "lambda": true}

var (
	robustNames []primArity
	robustSmall = map[string]bool{}
	robustForms = map[string]bool{}
)

func init() {
	skip := map[string]bool{}
	for _, n := range strings.Fields("quit exec debug dump panic! profile debug-on-entry debug-on-error debug-trace lisp-trace add-debug-on-entry remove-debug-on-entry open-output-file channel-write channel-read do write-line write-log list-directory sleep proc-sleep schedule restrict-environment join") {
		skip[n] = true
	}
	for _, p := range primArities {
		if !skip[p.name] {
			robustNames = append(robustNames, p)
		}
	}
	for _, n := range strings.Fields("make-list make-channel interval format left-shift") {
		robustSmall[n] = true
	}
	for _, n := range strings.Fields("if cond case begin and or let let* letrec lambda named-lambda define defmacro set! quote quasiquote on-error time when unless => -> apply-slot send send-super expand make-frame unquote unquote-splicing set-car! set-cdr! set-nth! append!") {
		robustForms[n] = true
	}
	register(&Prop{ID: "C25", Quick: 60000, Thor: 2000000, StallS: 30,
		Rule:   "programs of 1-4 forms, each a call of any primitive or form with 0-6 arguments of every type the language has (numbers at the extremes, strings, symbols, lists of every shape, alists, byte arrays, frames, functions, macros, primitives, ports, channels, processes, environments, malformed syntax) nested up to three deep, with accepted counts preferred; oracle: each form returns a value or an error that can be printed, the host process survives without a Go panic, hang or fatal error, and afterwards the interpreter still evaluates correctly; non-trivial: some form ended in a value",
		New:    func() interface{} { return &progCase{} },
		Shrink: shrinkProgCase,
		Gen: func(t *rapid.T) interface{} {
			g := &Gen{t: t}
			c := &progCase{}
			for n := 1 + g.pick(4); n > 0; n-- {
				c.Forms = append(c.Forms, g.robustCall(3))
			}
			return c
		},
		Run: runRobust,
	})
}

func (g *Gen) robustCall(d int) string {
	p := robustNames[g.pick(len(robustNames))]
	n := g.pick(6)
	for i := 0; i < 8 && !accepts(p.spec, n) && !g.oneIn(40); i++ {
		n = g.pick(5)
		if i > 4 {
			n = i - 5
		}
	}
	s := "(" + p.name
	for i := 0; i < n; i++ {
		s += " " + g.robustArg(p.name, i == 0, d)
	}
	return s + ")"
}

func (g *Gen) robustArg(prim string, first bool, d int) string {
	if first && robustDefiners[prim] {
		return robustHeads[g.pick(len(robustHeads))]
	}
	if robustForms[prim] && g.pct(55) {
		return robustRaw[g.pick(len(robustRaw))]
	}
	if robustSmall[prim] {
		if prim == "make-list" || prim == "make-channel" || prim == "format" {
			// sizes nothing can have; those in between would take all the memory
			if g.oneIn(8) {
				return strconv.FormatInt(math.MaxInt64-g.int64()&(1<<60-1), 10)
			}
			if prim == "format" && g.oneIn(4) {
				n := strconv.FormatInt(math.MaxInt64-g.int64()&(1<<60-1), 10)
				if g.oneIn(3) {
					n = strconv.Itoa(g.pick(50))
				}
				return "\"" + oneOf(g, "", "x") + "~" + oneOf(g, n, n, "v", "V", "#") + oneOf(g, "", "@") + oneOf(g, "a", "s", "A", "S", "~", "%") + oneOf(g, "", "~a", "~v~") + "\""
			}
		}
		if g.pct(70) {
			return strconv.Itoa(g.pick(60) - 4)
		}
		for {
			if s := robustPool[g.pick(len(robustPool))]; len(s) < 9 || s[0] == '(' || s[0] == '\'' {
				if _, err := strconv.ParseFloat(s, 64); err != nil {
					return s
				}
			}
		}
	}
	if d > 1 && g.pct(22) {
		return g.robustCall(d - 1)
	}
	return robustPool[g.pick(len(robustPool))]
}

func runRobust(ci interface{}, r *Rec) error {
	c := ci.(*progCase)
	resetReal()
	var err error
	quietStdout(func() {
		env := golisp.NewSymbolTableFrameBelow(golisp.Global, "case")
		realForm("(defmacro (mm x) x)", env)
		for i, f := range c.Forms {
			d, e := golisp.Parse(f)
			if e == nil {
				d, e = golisp.Eval(d, env)
			}
			if e != nil {
				_ = e.Error()
				r.Class("error")
				continue
			}
			_ = golisp.String(d)
			_ = golisp.PrintString(d)
			_ = rShow(d)
			r.NonTrivial = true
			r.Class("value")
			_ = i
		}
		o := realForm("((lambda (f . r) (let* ((x 2) (s (symbol? 'q))) (list (+ x (length '(1 2))) s (f r) (if s \"t\" 'n) {a: x}))) car 5 6)", golisp.NewSymbolTableFrameBelow(golisp.Global, "after"))
		if o.kind != 'v' || o.text != `(4 #t 5 "t" F1{"a:" 2;})` {
			err = fmt.Errorf("after the program %s\n an ordinary expression gives %s", strings.Join(c.Forms, " "), o)
		}
	})
	r.Sample = strings.Join(c.Forms, " ")
	return err
}
