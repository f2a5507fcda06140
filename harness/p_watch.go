package main

// Tracing and profiling (C31): a program that is watched does what it does
// when it is not, and the record of the profiler is the record of its calls.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

// Mode: p profile to a file, o profile to the standard output, t trace, b trace
// and profile to a file, i profile to a file from within the expression,
// x a record that cannot be written, r as in an interactive session
type watchCase struct {
	Forms []string
	Mode  string
	Plain int // bit i: form i is not watched
	Child bool
}

func shrinkWatchCase(c interface{}, fails func(c interface{}) bool) interface{} {
	cur := *(c.(*watchCase))
	for _, f := range []func(w *watchCase){
		func(w *watchCase) { w.Plain = 0 },
		func(w *watchCase) { w.Child = false },
		func(w *watchCase) { w.Mode = "p" },
		func(w *watchCase) { w.Mode = "t" },
	} {
		n := cur
		f(&n)
		if fails(&n) {
			cur = n
		}
	}
	shrinkForms(func() []string { return cur.Forms }, func(f []string) bool {
		n := cur
		n.Forms = f
		if fails(&n) {
			cur = n
			return true
		}
		return false
	})
	return &cur
}

var watchRecord = regexp.MustCompile(`^\{time: (-?\d+) guid: (\d+) mode: '(enter|exit) type: '(func|prim|form) name: '(.*)\}$`)

func (e callEvent) noise() bool { return e.Type == "form" && e.Name == "quote" }

func (e callEvent) String() string {
	s := "enter"
	if e.Exit {
		s = "exit"
	}
	return s + " " + e.Type + " " + e.Name
}

// readRecord checks what holds for every record and returns its events.
func readRecord(text string) (ev []callEvent, err error) {
	type open struct {
		guid int
		name string
	}
	var stack []open
	last := -1
	seen := map[int]bool{}
	var lastTime int64
	for i, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if text == "" {
			break
		}
		m := watchRecord.FindStringSubmatch(line)
		if m == nil {
			return nil, fmt.Errorf("line %d of the record is no record of a call: %q", i+1, short(line, 300))
		}
		if _, err := golisp.Parse(line); err != nil {
			return nil, fmt.Errorf("line %d of the record cannot be read: %q: %v", i+1, line, err)
		}
		tm, _ := strconv.ParseInt(m[1], 10, 64)
		if tm < lastTime-1e9 { // the clock may be set back a little
			return nil, fmt.Errorf("line %d of the record goes back in time: %q", i+1, line)
		}
		lastTime = tm
		guid, _ := strconv.Atoi(m[2])
		e := callEvent{m[3] == "exit", m[4], m[5]}
		if !e.Exit {
			if seen[guid] {
				return nil, fmt.Errorf("line %d of the record: two calls have the number %d: %q", i+1, guid, line)
			}
			seen[guid] = true
			if guid <= last {
				return nil, fmt.Errorf("line %d of the record: the numbers do not follow the order of the calls: %q", i+1, line)
			}
			last = guid
			stack = append(stack, open{guid, e.Type + " " + e.Name})
		} else {
			if len(stack) == 0 {
				return nil, fmt.Errorf("line %d of the record: a call that did not begin ends: %q", i+1, line)
			}
			o := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if o.guid != guid || o.name != e.Type+" "+e.Name {
				return nil, fmt.Errorf("line %d of the record: the call that ends is not the last begun (%d %s): %q", i+1, o.guid, o.name, line)
			}
		}
		ev = append(ev, e)
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("the record ends within the call of %s", stack[len(stack)-1].name)
	}
	return specified(ev), nil
}

// specified drops the events that are not calls the program makes (quotes made
// to hand evaluated arguments on) and those whose number is not specified (the
// comparisons a sort makes).
func specified(calls []callEvent) (ev []callEvent) {
	sorting := 0
	for _, e := range calls {
		s := e.Type == "prim" && strings.HasPrefix(e.Name, "sort")
		if s && e.Exit {
			sorting--
		}
		if sorting == 0 && !e.noise() {
			ev = append(ev, e)
		}
		if s && !e.Exit {
			sorting++
		}
	}
	return
}

var (
	traceIn  = regexp.MustCompile(`^ *(\d+): (-*)> (.*)$`)
	traceOut = regexp.MustCompile(`^ *(\d+): <(-*) (.*)$`)
	traceNum = regexp.MustCompile(`^(-?\d+|#t|#f|"[^"]*"|[a-z]+:)$`)
)

// readTrace checks the text traced while form was evaluated.
func readTrace(text, form, value string, failed bool) error {
	if strings.Contains(form, "\n") || strings.Contains(value, "\n") {
		return nil
	}
	type open struct{ depth, text string }
	var stack []open
	first, lastOut := "", ""
	for i, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if m := traceIn.FindStringSubmatch(line); m != nil {
			if n, _ := strconv.Atoi(m[1]); n != len(m[2]) {
				return fmt.Errorf("line %d of the trace: depth and indentation differ: %q", i+1, line)
			}
			if first == "" {
				first = m[3]
			}
			stack = append(stack, open{m[1], m[3]})
		} else if m := traceOut.FindStringSubmatch(line); m != nil {
			if n, _ := strconv.Atoi(m[1]); n != len(m[2]) {
				return fmt.Errorf("line %d of the trace: depth and indentation differ: %q", i+1, line)
			}
			for failed && len(stack) > 0 && stack[len(stack)-1].depth != m[1] { // given up because of an error
				stack = stack[:len(stack)-1]
			}
			if len(stack) == 0 {
				return fmt.Errorf("line %d of the trace: the value of nothing: %q", i+1, line)
			}
			o := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if !failed && (o.depth != m[1] || traceNum.MatchString(o.text) && m[3] != o.text) {
				return fmt.Errorf("line %d of the trace: %q ends as %q", i+1, o.text, line)
			}
			lastOut = m[3]
		}
	}
	if first != form {
		return fmt.Errorf("the trace begins with %q instead of %q", short(first, 300), short(form, 300))
	}
	if !failed && (len(stack) != 0 || lastOut != value) {
		return fmt.Errorf("the trace ends with %q instead of %q", short(lastOut, 300), short(value, 300))
	}
	return nil
}

func runWatch(c interface{}, r *Rec) error {
	w := c.(*watchCase)
	// what is to be expected
	inModel(true)
	in := newInterp()
	menv := in.global
	if w.Child {
		menv = newEnvBelow(in.global, "case")
	}
	type exp struct {
		o     outcome
		calls []callEvent
	}
	var mo []exp
	in.record = true
	for _, src := range w.Forms {
		form, err := mParse(src)
		if err != nil {
			bugf("generated form does not parse: %q: %v", src, err)
		}
		in.calls = nil
		o := in.modelForm(form, menv)
		if o.kind == 'u' {
			r.Class("unspecified: " + short(o.text, 40))
			break
		}
		mo = append(mo, exp{o, specified(in.calls)})
	}
	inModel(false)

	resetReal()
	dir, err := os.MkdirTemp(workDir, "watch")
	if err != nil {
		bugf("%v", err)
	}
	defer os.RemoveAll(dir)
	stdout := os.Stdout
	defer func() {
		os.Stdout = stdout
		golisp.IsInteractive = false
		golisp.LispTrace = false
		golisp.ProfileEnabled = false
	}()
	env := golisp.Global
	if w.Child {
		env = golisp.NewSymbolTableFrameBelow(golisp.Global, "case")
	}
	events := 0
	prog := func(i int) string { return strings.Join(w.Forms[:i+1], "\n") }
	for i := range mo {
		src, m := w.Forms[i], mo[i].o
		watched := w.Plain>>uint(i)&1 == 0
		mode := ""
		if watched {
			mode = w.Mode
		}
		if mode == "x" {
			// a place for the record that is none: an error, and nothing evaluated
			for _, bad := range []string{strconv.Quote(filepath.Join(dir, "none", "r")), strconv.Quote(dir), "5", "'a", "(\"x\")", "#t"} {
				o := realForm("(profile "+src+" "+bad+")", env)
				if o.kind != 'e' || len(o.trace) > 0 || golisp.ProfileEnabled {
					return fmt.Errorf("(profile %s %s) gives %s, effects %v; still profiling: %v\nprogram:\n%s", src, bad, o, o.trace, golisp.ProfileEnabled, prog(i))
				}
			}
			mode = ""
		}
		rec := filepath.Join(dir, fmt.Sprintf("r%d", i))
		expr := src
		switch mode {
		case "p", "b":
			expr = "(profile " + src + " " + strconv.Quote(rec) + ")"
		case "o":
			expr = "(profile " + src + ")"
		case "i":
			expr = "(car (list (profile " + src + " " + strconv.Quote(rec) + ")))"
		}
		// capture
		cap, err := os.Create(filepath.Join(dir, "out"))
		if err != nil {
			bugf("%v", err)
		}
		if mode == "t" || mode == "b" {
			if o := realForm("(lisp-trace #t)", env); o.String() != "#t" {
				return fmt.Errorf("(lisp-trace #t) gives %s", o)
			}
		}
		os.Stdout = cap
		golisp.IsInteractive = mode == "r"
		d, perr := golisp.Parse(expr)
		var ro outcome
		t0 := len(realTrace)
		var v *D
		var eerr error
		if perr == nil {
			v, eerr = golisp.Eval(d, env)
		} else {
			eerr = perr
		}
		os.Stdout = stdout
		golisp.IsInteractive = false
		if mode == "r" && eerr == nil && !strings.Contains(prog(i), "on-error") && env.CurrentCode.Len() != 0 {
			return fmt.Errorf("form %d, in an interactive session: %s\n %d expressions are still recorded as being evaluated\nprogram:\n%s", i+1, expr, env.CurrentCode.Len(), prog(i))
		}
		env.CurrentCode.Init()
		if mode == "t" || mode == "b" {
			golisp.LispTrace = false
			if o := realForm("(lisp-trace)", env); o.String() != "#f" {
				return fmt.Errorf("(lisp-trace) gives %s", o)
			}
		}
		cap.Close()
		if eerr != nil {
			ro.kind, ro.text = 'e', errText(eerr)
		} else {
			ro.kind, ro.text = 'v', rShow(v)
		}
		ro.trace = realTrace[t0:]
		if ro.kind != m.kind || ro.kind == 'v' && ro.text != m.text {
			return fmt.Errorf("form %d, watched %q: %s\n expected %s\n      got %s\nprogram:\n%s", i+1, mode, expr, short(m.String(), 900), short(ro.String(), 900), prog(i))
		}
		if strings.Join(ro.trace, "\n") != strings.Join(m.trace, "\n") {
			return fmt.Errorf("form %d, watched %q: %s\n expected side effects %v\n                 got %v\nprogram:\n%s", i+1, mode, expr, short(fmt.Sprint(m.trace), 900), short(fmt.Sprint(ro.trace), 900), prog(i))
		}
		if golisp.ProfileEnabled {
			return fmt.Errorf("form %d: %s\n the profiler is still on afterwards\nprogram:\n%s", i+1, expr, prog(i))
		}
		out, err := os.ReadFile(filepath.Join(dir, "out"))
		if err != nil {
			bugf("%v", err)
		}
		text := string(out)
		if mode == "t" || mode == "b" {
			form, _ := golisp.Parse(expr)
			val := ""
			if eerr == nil {
				val = golisp.String(v)
			}
			if golisp.TypeOf(form) == golisp.ConsCellType && !golisp.NilP(form) {
				caught := eerr != nil || strings.Contains(prog(i), "on-error")
				if err := readTrace(text, golisp.String(form), val, caught); err != nil {
					return fmt.Errorf("form %d traced: %s\n %v\nprogram:\n%s", i+1, expr, err, prog(i))
				}
				events += strings.Count(text, "\n")
			}
		} else if (mode == "" || mode == "r") && text != "" { // programs do not write themselves
			return fmt.Errorf("form %d, not watched: %s\n writes %q\nprogram:\n%s", i+1, expr, short(text, 300), prog(i))
		}
		if mode == "p" || mode == "b" || mode == "o" || mode == "i" {
			if mode != "o" {
				b, err := os.ReadFile(rec)
				if err != nil {
					return fmt.Errorf("form %d: %s\n no record was written: %v", i+1, expr, err)
				}
				if mode != "b" && text != "" {
					return fmt.Errorf("form %d: %s\n writes %q\nprogram:\n%s", i+1, expr, short(text, 300), prog(i))
				}
				text = string(b)
			}
			// the profiler's own call ends after the record is closed
			ev, err := readRecord(text)
			if err != nil {
				return fmt.Errorf("form %d: %s\n %v\n record:\n%s\nprogram:\n%s", i+1, expr, err, short(text, 2000), prog(i))
			}
			want := mo[i].calls
			for k := 0; k < len(ev) || k < len(want); k++ {
				g, x := "the end", "the end"
				if k < len(ev) {
					g = ev[k].String()
				}
				if k < len(want) {
					x = want[k].String()
				}
				if g != x {
					return fmt.Errorf("form %d: %s\n event %d of the record is %q instead of %q\n record:\n%s\nprogram:\n%s", i+1, expr, k+1, g, x, short(text, 2000), prog(i))
				}
			}
			events += len(ev)
		}
	}
	r.NonTrivial = events >= 12
	r.Class("mode " + w.Mode)
	r.Sample = w.Mode + ": " + strings.Join(w.Forms[:len(mo)], "  ")
	return nil
}

func init() {
	register(&Prop{ID: "C31", Quick: 12000, Thor: 300000,
		Rule:   "programs of 3-9 forms (functions, closures, methods, macros, loops, errors, higher-order functions) of which each form is evaluated plainly, traced, profiled to a file or to the standard output, or traced and profiled; outcome and effects against the reference interpreter, the profiler's record against the calls the reference interpreter made, the trace against the form and its value; non-trivial: twelve or more events recorded",
		New:    func() interface{} { return &watchCase{} },
		Shrink: shrinkWatchCase,
		Gen: func(t *rapid.T) interface{} {
			var g *Gen
			groups := [][]string{{"err"}, {"scope", "ctl"}, {"method", "frame"}, {"macro", "quasi"}, {"hof", "list"}, {"ctl", "hof"}, {"int", "flt", "string"}, {"alist", "set", "eq"}}
			k := pick(t, len(groups))
			g = newGen(t, groups[k]...)
			g.pPrim = 80
			forms := g.program(progOpts{types: []string{"int", "any", "list"}, results: []string{"any"}, minF: 3, maxF: 9, depth: 3, stmtPct: 50})
			if k == 0 {
				forms = append([]string{
					"(define hits 0)", "(define acc '())", "(define kept 'unset)", "(define fr {n: 0})",
					"(define (raise1 x) (emit! 'r) (error x) (emit! 'not-here))",
					"(define (raise-deep n x) (if (== n 0) (error x) (list (raise-deep (- n 1) x))))",
					"(defmacro (mraise x) `(error ,x))",
					"(define fraise {foo: (lambda (x) (error x))})",
					"(define (keep-err err) (set! kept (string? err)) 'kept)",
				}, forms...)
			}
			child := g.oneIn(4)
			return &watchCase{Forms: specifiedForms(forms, child), Child: child, Mode: oneOf(g, "p", "p", "p", "o", "t", "b", "i", "x", "r"), Plain: g.pick(64) & g.pick(64) & g.pick(64)}
		},
		Run: runWatch,
	})
}
