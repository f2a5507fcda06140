package main

// Programs evaluated at the same time (C28).

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

// sharedDefs: definitions that programs running at the same time use and do
// not change.
var sharedDefs = []string{
	"(define (sfib n) (if (< n 2) n (+ (sfib (- n 1)) (sfib (- n 2)))))",
	"(define (scount l) (let loop ((l l) (n 0)) (if (null? l) n (loop (cdr l) (+ n 1)))))",
	"(define (stwice f x) (f (f x)))",
	"(define (scompose . fs) (lambda (x) (fold-left (lambda (v f) (f v)) x fs)))",
	"(define (smaker n) (lambda () (set! n (+ n 1)) n))",
	"(define (sopt a . r) (list a r))",
	"(define (sfail n) (if (== n 0) (error 'deep) (list (sfail (- n 1)))))",
	"(defmacro (swhen c . body) `(if ,c (begin ,@body) 'no))",
	"(defmacro (sswap a b) `(let ((stmp ,a)) (set! ,a ,b) (set! ,b stmp)))",
	"(define sdata '(1 (2 3) \"four\" (5 . 6) seven))",
	"(define sproto {sn: 0 sbump: (lambda () (set! sn (+ sn 1)) sn) sget: (lambda () sn) splus: (lambda (x) (+ x sn)) sboth: (lambda (x) (list (splus x) sn (sget))) sdeep: (lambda (k) (if (== k 0) (list (sget) sn) (sdeep (- k 1)))) sself: (lambda () (get-slot self sn:)) smap: (lambda (l) (map (lambda (x) (splus x)) l))})",
	"(define (sglob) (list 'sn sn))",
	"(define (sglob2 x) (list x sn))",
	"(define sdual {sn: 7 sh: (lambda () (list 'sn sn)) sh2: (lambda (x) (list x sn)) sboth: (lambda () (list (sh) (sh2 1) (sh)))})",
}

var sharedUses = []string{
	"(sfib @@)", "(sfib 9)", "(scount (interval 1 @@))", "(stwice (lambda (x) (* x @@)) 3)", "((scompose (lambda (x) (+ x @@)) - (lambda (x) (* x x))) 5)",
	"(let ((m (smaker @@))) (list (m) (m) (m)))", "(sopt @@)", "(sopt @@ 2 '(3))", "(on-error (sfail @@) (lambda (e) (substring? \"deep\" e)))",
	"(swhen (> @@ 4) 1 (list @@))", "(let ((p @@) (q 2)) (sswap p q) (list p q))", "(map (lambda (x) (list x)) sdata)", "(list (car sdata) (reverse sdata) (length sdata))", "(equal? sdata '(1 (2 3) \"four\" (5 . 6) seven))",
	"(let ((o (clone sproto))) (sbump:> o) (sbump:> o) (list (sget:> o) (sn: o) (sboth:> o @@)))", "(let ((o {sn: @@ p*: sproto})) (list (sboth:> o 1) (sdeep:> o 4) (sself:> o)))",
	"(let ((o {sn: @@ p*: sproto})) (sbump:> o) (sbump:> o) (smap:> o '(1 2 3)))", "(sh:> sdual)", "(sboth:> sdual)", "(sboth:> {sn: @@ p*: sdual})", "(sh2:> {sn: @@ p*: sdual} 4)",
	"(sglob)", "(sglob2 @@)", "(map sglob2 '(1 2 @@))", "(let ((f sglob)) (f))", "(map (lambda (k) (sboth:> {sn: k p*: sdual})) '(1 2 3 4 @@ 6))", "(map (lambda (k) (sglob2 k)) '(1 2 3 @@ 5 6))",
	"(eval '(+ @@ 1))", "(macroexpand (swhen a b))", "(json->lisp (lisp->json {sa: @@}))", "(str '(a @@ \"x\"))", "(format #f \"~A ~S\" @@ \"q\")", "(string->symbol \"sy@@\")", "`(1 ,(sfib @@) ,@(list @@ 2))",
}

type safeCase struct {
	Progs  [][]string `json:",omitempty"`
	How    []int      `json:",omitempty"` // 0 goroutine, 1 fork
	Rounds int        `json:",omitempty"`
	Scene  *safeScene `json:",omitempty"`
}

type safeScene struct {
	Kind   string
	Frames int      `json:",omitempty"`
	Links  [][3]int `json:",omitempty"` // from, to, kind (0 p*:, 1 q*:, 2 an ordinary slot)
	Procs  [][]fop  `json:",omitempty"`
	P, N   int      `json:",omitempty"`
	Child  bool     `json:",omitempty"`
}

type fop struct {
	K string
	F int   `json:",omitempty"`
	G int   `json:",omitempty"`
	V int64 `json:",omitempty"`
	Y int   `json:",omitempty"`
}

var borrowed = []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C17", "C18", "C20", "C21", "C22", "C23", "C24"}

func (g *Gen) sharedForms() []string {
	var f []string
	for n := 3 + g.pick(8); n > 0; n-- {
		f = append(f, strings.Replace(sharedUses[g.pick(len(sharedUses))], "@@", strconv.Itoa(g.pick(9)), -1))
	}
	return f
}

func genSafe(t *rapid.T) interface{} {
	g := newGen(t)
	c := &safeCase{}
	if g.pct(40) {
		c.Scene = genSafeScene(g)
		return c
	}
	c.Rounds = 1 + g.pick(3)
	for n := 2 + g.pick(4); n > 0; n-- {
		var forms []string
		if g.pct(45) {
			p := registry[borrowed[g.pick(len(borrowed))]]
			if pc, ok := p.Gen(t).(*progCase); ok {
				forms = append(forms, pc.Forms...)
			}
		}
		if len(forms) == 0 || g.pct(40) {
			forms = append(g.sharedForms(), forms...)
		}
		c.Progs = append(c.Progs, forms)
		c.How = append(c.How, g.pick(2))
	}
	return c
}

func runSafe(ci interface{}, r *Rec) error {
	c := ci.(*safeCase)
	if c.Scene != nil {
		r.Class("scene " + c.Scene.Kind)
		return runSafeScene(c.Scene, r)
	}
	inModel(true)
	want := make([][]string, len(c.Progs))
	for i, forms := range c.Progs {
		in := newInterp()
		for _, f := range sharedDefs {
			d, err := mParse(f)
			if err != nil {
				bugf("%s: %v", f, err)
			}
			if o := in.modelForm(d, in.global); o.kind != 'v' {
				bugf("%s: %s", f, o)
			}
		}
		env := newEnvBelow(in.global, "case")
		for _, f := range forms {
			d, err := mParse(f)
			if err != nil {
				bugf("generated form does not parse: %q: %v", f, err)
			}
			o := in.modelForm(d, env)
			if o.kind == 'u' {
				break
			}
			want[i] = append(want[i], safeText(o))
		}
	}
	inModel(false)
	resetReal()
	golisp.MakePrimitiveFunction("emit!", ">=1", func(args *D, env *golisp.SymbolTableFrame) (*D, error) { return golisp.Car(args), nil })
	for _, f := range sharedDefs {
		if _, err := mustEval(f); err != nil {
			return err
		}
	}
	n := len(c.Progs)
	got := make([][][]string, c.Rounds)
	for k := range got {
		got[k] = make([][]string, n)
	}
	var ready, fin sync.WaitGroup
	start := make(chan struct{})
	run := func(i int) {
		defer fin.Done()
		ready.Done()
		<-start
		for k := 0; k < c.Rounds; k++ {
			env := golisp.NewSymbolTableFrameBelow(golisp.Global, "prog"+strconv.Itoa(i))
			for j := range want[i] {
				got[k][i] = append(got[k][i], safeText(realForm1(c.Progs[i][j], env)))
			}
		}
	}
	golisp.MakePrimitiveFunction("run!", "1", func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		run(int(golisp.IntegerValue(golisp.Car(args))))
		return nil, nil
	})
	for i := range c.Progs {
		ready.Add(1)
		fin.Add(1)
		if c.How[i] == 1 {
			if _, err := mustEval(fmt.Sprintf("(fork (lambda (p) (run! %d)))", i)); err != nil {
				return err
			}
		} else {
			go run(i)
		}
	}
	ready.Wait()
	close(start)
	if !within(60*time.Second, fin.Wait) {
		return fmt.Errorf("the programs do not end when run at the same time:\n%s", c.show())
	}
	forms := 0
	for k := range got {
		for i := range c.Progs {
			for j := range want[i] {
				forms++
				if got[k][i][j] != want[i][j] {
					return fmt.Errorf("while other programs run, form %d of program %d: %s\n gives %s\n instead of %s\n%s", j+1, i+1, c.Progs[i][j], short(got[k][i][j], 600), short(want[i][j], 600), c.show())
				}
			}
		}
	}
	r.NonTrivial = forms >= 6
	r.Class("programs %d", n)
	r.Sample = c.show()
	return nil
}

func (c *safeCase) show() string {
	var b strings.Builder
	for i, p := range c.Progs {
		fmt.Fprintf(&b, "program %d: %s\n", i+1, strings.Join(p, " "))
	}
	return b.String()
}

func safeText(o outcome) string {
	if o.kind == 'v' {
		return o.text
	}
	return "ERROR"
}

// realForm1 is realForm without the trace, which programs share.
func realForm1(src string, env *golisp.SymbolTableFrame) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			o = outcome{kind: 'v', text: fmt.Sprint("PANIC ", e)}
		}
	}()
	d, err := golisp.Parse(src)
	if err == nil {
		d, err = golisp.Eval(d, env)
	}
	if err != nil {
		return outcome{kind: 'e', text: errText(err)}
	}
	return outcome{kind: 'v', text: rShow(d)}
}

// ---- shared objects ----

func genSafeScene(g *Gen) *safeScene {
	kind := oneOf(g, "frames", "frames", "frames", "names", "names", "intern", "gensym", "toplevel")
	s := &safeScene{Kind: kind, P: 2 + g.pick(4), N: 3 + g.pick(20), Child: g.oneIn(2)}
	if kind != "frames" {
		return s
	}
	s.P, s.N = 0, 0
	s.Frames = 1 + g.pick(3)
	for n := g.pick(4); n > 0; n-- {
		s.Links = append(s.Links, [3]int{g.pick(s.Frames), g.pick(s.Frames), g.pick(3)})
	}
	v := int64(0)
	for p := 2 + g.pick(3); p > 0; p-- {
		var ops []fop
		for n := 2 + g.pick(10); n > 0; n-- {
			v++
			o := fop{F: g.pick(s.Frames), G: g.pick(s.Frames), V: v, Y: g.size(2, 10)}
			o.K = oneOf(g, "set", "set", "set", "rem", "get", "get", "getn", "has", "set", "get", "str", "eq", "eqw", "copy", "json", "clone", "keys", "vals", "len")
			ops = append(ops, o)
		}
		s.Procs = append(s.Procs, ops)
	}
	return s
}

func (o fop) form() string {
	f, h, k := "f"+strconv.Itoa(o.F), "f"+strconv.Itoa(o.G), "k"+strconv.Itoa(o.F)
	switch o.K {
	case "set":
		if o.V%2 == 0 {
			return fmt.Sprintf("(%s:! %s %d)", k, f, o.V)
		}
		return fmt.Sprintf("(set-slot! %s %s: %d)", f, k, o.V)
	case "rem":
		return fmt.Sprintf("(remove-slot! %s %s:)", f, k)
	case "get":
		if o.V%2 == 0 {
			return fmt.Sprintf("(%s: %s)", k, f)
		}
		return fmt.Sprintf("(get-slot %s %s:)", f, k)
	case "getn":
		return fmt.Sprintf("(get-slot-or-nil %s %s:)", f, k)
	case "has":
		return fmt.Sprintf("(has-slot? %s %s:)", f, k)
	case "str":
		return fmt.Sprintf("(string? (str %s))", f)
	case "eq":
		return fmt.Sprintf("(boolean? (equal? %s %s))", f, h)
	case "eqw":
		return fmt.Sprintf("(equal? %s (me:> %s))", f, f)
	case "copy":
		return fmt.Sprintf("(frame? (copy %s))", f)
	case "json":
		return fmt.Sprintf("(string? (lisp->json %s))", f)
	case "clone":
		return fmt.Sprintf("(frame? (clone %s))", f)
	case "keys":
		return fmt.Sprintf("(list? (frame-keys %s))", f)
	case "vals":
		return fmt.Sprintf("(list? (frame-values %s))", f)
	default:
		return fmt.Sprintf("(> (length %s) 1)", f)
	}
}

// a slot holds a value or ("") is absent
func slotStep(st string, o *linOp) (string, bool) {
	v := strconv.FormatInt(o.v, 10)
	switch o.kind {
	case "set":
		return v, o.out == v
	case "rem":
		if st == "" {
			return st, o.out == "#f"
		}
		return "", o.out == "#t"
	case "get":
		if st == "" {
			return st, o.out == "ERROR"
		}
		return st, o.out == st
	case "getn":
		if st == "" {
			return st, o.out == "()"
		}
		return st, o.out == st
	default:
		if st == "" {
			return st, o.out == "#f"
		}
		return st, o.out == "#t"
	}
}

// together runs one function per process at the same time.
func together(n int, f func(p int)) bool {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for p := 0; p < n; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			<-start
			f(p)
		}(p)
	}
	close(start)
	return within(20*time.Second, wg.Wait)
}

func runSafeScene(s *safeScene, r *Rec) error {
	resetReal()
	r.NonTrivial = true
	r.Sample = fmt.Sprintf("%+v", *s)
	env := golisp.Global
	if s.Child {
		env = golisp.NewSymbolTableFrameBelow(golisp.Global, "shared")
	}
	var clock atomic.Int64
	switch s.Kind {
	case "frames":
		return runFrameScene(s, r)
	case "names":
		// every process defines names of its own in one environment and lists them
		type event struct {
			call, ret int64
			name      string
			list      map[string]bool
			err       string
		}
		events := make([][]event, s.P)
		ok := together(s.P, func(p int) {
			for i := 0; i < s.N; i++ {
				e := event{call: clock.Add(1)}
				var src string
				if (i+p)%3 == 2 {
					src = "(" + []string{"environment-bound-names", "environment-bindings", "environment-macro-names"}[(i/3)%3] + " (the-environment))"
				} else {
					e.name = fmt.Sprintf("nm-%d-%d", p, i)
					src = fmt.Sprintf("(define %s %d)", e.name, p*1000+i)
					if i%4 == 1 {
						src = fmt.Sprintf("(defmacro (%s x) `(list ,x %d))", e.name, p*1000+i)
					}
				}
				d, err := golisp.Parse(src)
				if err == nil {
					d, err = golisp.Eval(d, env)
				}
				e.ret = clock.Add(1)
				if err != nil {
					e.err = err.Error()
				} else if e.name == "" && (i/3)%3 != 2 {
					e.list = map[string]bool{}
					for c := d; !golisp.NilP(c); c = golisp.Cdr(c) {
						x := golisp.Car(c)
						if golisp.PairP(x) {
							x = golisp.Car(x)
						}
						n := golisp.StringValue(x)
						if e.list[n] {
							e.err = n + " is listed twice"
						}
						e.list[n] = true
					}
				}
				events[p] = append(events[p], e)
			}
		})
		if !ok {
			return fmt.Errorf("defining and listing names does not end: %s", r.Sample)
		}
		for p := range events {
			for _, e := range events[p] {
				if e.err != "" {
					return fmt.Errorf("%s: %s %s", r.Sample, e.name, e.err)
				}
				if e.list == nil {
					continue
				}
				for q := range events {
					for _, d := range events[q] {
						if d.name != "" && d.ret < e.call && !e.list[d.name] {
							return fmt.Errorf("%s: a listing of the environment misses %s, defined before", r.Sample, d.name)
						}
						if d.name != "" && d.call > e.ret && e.list[d.name] {
							return fmt.Errorf("%s: a listing of the environment has %s, defined later", r.Sample, d.name)
						}
					}
				}
			}
		}
		for p := range events {
			for i, e := range events[p] {
				if e.name == "" {
					continue
				}
				src, want := e.name, strconv.Itoa(p*1000+i)
				if i%4 == 1 {
					src, want = "("+e.name+" 3)", "(3 "+want+")"
				}
				if o := safeText(realForm1(src, env)); o != want {
					return fmt.Errorf("%s: %s is %s after all processes have ended, not %s", r.Sample, src, o, want)
				}
			}
		}
	case "intern":
		// many names so that the table of symbols grows while it is read
		syms := make([][]*D, s.P)
		ok := together(s.P, func(p int) {
			for i := 0; i < s.N; i++ {
				name := fmt.Sprintf("in-%d-%d", s.N, (i*(p+1))%s.N)
				if p%2 == 0 {
					d, _ := golisp.Parse(name)
					syms[p] = append(syms[p], d)
				} else {
					d, _ := golisp.ParseAndEvalInEnvironment("(intern \""+name+"\")", env)
					syms[p] = append(syms[p], d)
				}
			}
		})
		if !ok {
			return fmt.Errorf("interning does not end: %s", r.Sample)
		}
		byName := map[string]*D{}
		for p := range syms {
			for i, d := range syms[p] {
				name := fmt.Sprintf("in-%d-%d", s.N, (i*(p+1))%s.N)
				if d == nil || golisp.StringValue(d) != name {
					return fmt.Errorf("%s: the symbol %s came out as %s", r.Sample, name, rShow(d))
				}
				if o := byName[name]; o != nil && o != d && !golisp.IsEqual(o, d) {
					return fmt.Errorf("%s: two symbols with the name %s are not equal", r.Sample, name)
				}
				byName[name] = d
			}
		}
	case "gensym":
		pre := fmt.Sprintf("g%d", clock.Add(1))
		names := make([][]string, s.P)
		ok := together(s.P, func(p int) {
			for i := 0; i < s.N; i++ {
				src := "(gensym)"
				if i%2 == 1 {
					src = "(gensym \"" + pre + "\")"
				}
				names[p] = append(names[p], safeText(realForm1(src, env)))
			}
		})
		if !ok {
			return fmt.Errorf("gensym does not end: %s", r.Sample)
		}
		seen := map[string]bool{}
		for p := range names {
			for _, n := range names[p] {
				if seen[n] || n == "ERROR" {
					return fmt.Errorf("%s: gensym gave %s twice", r.Sample, n)
				}
				seen[n] = true
			}
		}
	case "toplevel":
		outs := make([][]string, s.P)
		ok := together(s.P, func(p int) {
			for i := 0; i < s.N; i++ {
				n := fmt.Sprintf("tle-%d-%d", p, i)
				src := fmt.Sprintf("(begin (make-top-level-environment \"%s\" '(v) '(%d)) (list (environment-lookup (find-top-level-environment \"%s\") 'v) (eval '(+ v 1) (find-top-level-environment \"%s\"))))", n, i, n, n)
				outs[p] = append(outs[p], safeText(realForm1(src, golisp.Global)))
			}
		})
		if !ok {
			return fmt.Errorf("making environments does not end: %s", r.Sample)
		}
		for p := range outs {
			for i, o := range outs[p] {
				if want := fmt.Sprintf("(%d %d)", i, i+1); o != want {
					return fmt.Errorf("%s: variables of an environment of its own are %s for a process, not %s", r.Sample, o, want)
				}
			}
		}
	}
	return nil
}

func runFrameScene(s *safeScene, r *Rec) error {
	for i := 0; i < s.Frames; i++ {
		if _, err := mustEval(fmt.Sprintf("(define f%d {k%d: 0 stay%d: %d me: (lambda () self)})", i, i, i, i)); err != nil {
			return err
		}
	}
	for _, l := range s.Links {
		src := fmt.Sprintf("(set-slot! f%d %s f%d)", l[0], []string{"p*:", "q*:", "in:"}[l[2]], l[1])
		if _, err := mustEval(src); err != nil {
			return err
		}
	}
	h := &recorder{}
	bad := make([]string, len(s.Procs))
	ok := together(len(s.Procs), func(p int) {
		env := golisp.NewSymbolTableFrameBelow(golisp.Global, "fr"+strconv.Itoa(p))
		for _, c := range s.Procs[p] {
			src := c.form()
			d, err := golisp.Parse(src)
			if err != nil {
				bad[p] = err.Error()
				return
			}
			for i := 0; i < c.Y; i++ {
				runtime.Gosched()
			}
			o := linOp{proc: p, kind: c.K, v: c.V, w: int64(c.F), text: src}
			o.call = h.clock.Add(1)
			v, err := golisp.Eval(d, env)
			o.ret = h.clock.Add(1)
			o.out = "ERROR"
			if err == nil {
				o.out = rShow(v)
			}
			switch c.K {
			case "set", "rem", "get", "getn", "has":
				h.add(o)
			case "eqw":
				// true only of one moment; the frame may change in between
				if err != nil {
					bad[p] = src + ": " + err.Error()
				}
			default:
				if o.out != "#t" {
					bad[p] = src + " => " + o.out
				}
			}
		}
	})
	if !ok {
		return fmt.Errorf("operations on shared frames wait for each other for ever: %s", r.Sample)
	}
	for p, b := range bad {
		if b != "" {
			return fmt.Errorf("process %d: %s", p, b)
		}
	}
	r.NonTrivial = overlapping(h.ops) > 0
	for i := 0; i < s.Frames; i++ {
		var ops []linOp
		for _, o := range h.ops {
			if int(o.w) == i {
				ops = append(ops, o)
			}
		}
		sort.Slice(ops, func(a, b int) bool { return ops[a].call < ops[b].call })
		if len(ops) > 60 {
			continue
		}
		if !linearizable(ops, "0", slotStep, nil) {
			return fmt.Errorf("no order of these operations on a slot holding 0 explains their results:\n%s", showHistory(ops))
		}
		if _, err := mustEval(fmt.Sprintf("(get-slot f%d stay%d:)", i, i)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C28", Quick: 2600, Thor: 80000, Race: true, Sched: true,
		Rule: "two kinds of case: 2-5 programs (those of other checks, and uses of shared functions, macros, methods and prototypes) run at the same time in environments of their own, each compared form by form with the model running it alone; and scenes of 2-5 threads on shared frames (linearizability of each slot, with printing, comparing, copying and listing in between; cyclic parents), on one environment (definitions and listings), interning, gensym and top-level environments; non-trivial: six forms compared, or operations overlapped, or any other scene",
		New:  func() interface{} { return &safeCase{} },
		Gen:  genSafe,
		Run:  runSafe,
		Shrink: func(ci interface{}, fails func(c interface{}) bool) interface{} {
			return ci
		},
	})
}
