package main

// Channels (C26), atomics and processes (C27).

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

// cop: one operation of a process on the shared object, after Y yields.
type cop struct {
	K string
	V int64 `json:",omitempty"`
	W int64 `json:",omitempty"`
	Y int   `json:",omitempty"`
}

type scene struct {
	Kind  string
	Cap   int     `json:",omitempty"`
	Init  int64   `json:",omitempty"`
	Procs [][]cop `json:",omitempty"`
	How   []int   `json:",omitempty"` // 0 fork, 1 schedule, 2 a goroutine of the host
	P     int     `json:",omitempty"`
	Q     int     `json:",omitempty"`
	N     int     `json:",omitempty"`
	Ms    int     `json:",omitempty"`
}

type concCase struct {
	Prog  *progCase `json:",omitempty"`
	Scene *scene    `json:",omitempty"`
}

func concProp(id, rule string, quick, thor int, seqPct int, race bool, prog *Prop, genScene func(g *Gen) *scene, runScene func(s *scene, r *Rec) error) *Prop {
	return &Prop{
		ID: id, Rule: rule, Quick: quick, Thor: thor, Race: race, Sched: true,
		New: func() interface{} { return &concCase{} },
		Gen: func(t *rapid.T) interface{} {
			g := newGen(t)
			if g.pct(seqPct) {
				return &concCase{Prog: prog.Gen(t).(*progCase)}
			}
			return &concCase{Scene: genScene(g)}
		},
		Run: func(c interface{}, r *Rec) error {
			cc := c.(*concCase)
			if cc.Prog != nil {
				err := prog.Run(cc.Prog, r)
				r.Class("sequential")
				return err
			}
			r.Class("scene " + cc.Scene.Kind)
			return runScene(cc.Scene, r)
		},
		Shrink: func(c interface{}, fails func(c interface{}) bool) interface{} {
			cc := c.(*concCase)
			if cc.Prog == nil {
				return c
			}
			shrinkProgCase(cc.Prog, func(p interface{}) bool { return fails(&concCase{Prog: p.(*progCase)}) })
			return c
		},
	}
}

// recorder: the history of one scene
type recorder struct {
	clock atomic.Int64
	mu    sync.Mutex
	ops   []linOp
}

func (h *recorder) add(o linOp) {
	h.mu.Lock()
	h.ops = append(h.ops, o)
	h.mu.Unlock()
}

func yields(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

// sceneStart resets the interpreter and adds op!: (op! PROC INDEX FORM) waits,
// evaluates FORM and records when it began, when it ended and what it gave.
func sceneStart(s *scene, h *recorder) {
	resetReal()
	golisp.MakeSpecialForm("op!", "3", func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		p := int(golisp.IntegerValue(golisp.First(args)))
		i := int(golisp.IntegerValue(golisp.Second(args)))
		c := s.Procs[p][i]
		yields(c.Y)
		o := linOp{proc: p, kind: c.K, v: c.V, w: c.W, text: golisp.String(golisp.Third(args))}
		o.call = h.clock.Add(1)
		v, err := golisp.Eval(golisp.Third(args), env)
		o.ret = h.clock.Add(1)
		if err != nil {
			o.out = "ERROR"
		} else {
			o.out = rShow(v)
		}
		h.add(o)
		return nil, nil
	})
}

func mustEval(src string) (*D, error) {
	d, err := golisp.ParseAndEval(src)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", src, err)
	}
	return d, nil
}

// launch starts process p over the given body (p1 is the process, x the shared
// object) and returns a function that waits for its end.
func launch(how, p int, body string) (func() (string, error), error) {
	name := "proc" + strconv.Itoa(p)
	switch how {
	case 2:
		f, err := mustEval("(lambda (p1 x) " + body + ")")
		if err != nil {
			return nil, err
		}
		x, err := mustEval("x")
		if err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		var v *D
		go func() {
			var err error
			v, err = golisp.ApplyWithoutEval(f, golisp.InternalMakeList(golisp.EmptyCons(), x), golisp.Global)
			done <- err
		}()
		return func() (string, error) { err := <-done; return rShow(v), err }, nil
	default:
		start := "(fork "
		if how == 1 {
			start = "(schedule 0 "
		}
		if _, err := mustEval("(define " + name + " " + start + "(lambda (p1 x) " + body + ") x))"); err != nil {
			return nil, err
		}
		return func() (string, error) {
			v, err := mustEval("(join " + name + ")")
			return rShow(v), err
		}, nil
	}
}

// within fails when f does not end in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// ---- channels ----

func chanForm(c cop) string {
	v := strconv.FormatInt(c.V, 10)
	switch c.K {
	case "w":
		if c.V%2 == 0 {
			return "(x<- " + v + ")"
		}
		return "(channel-write x " + v + ")"
	case "tw":
		return "(channel-try-write x " + v + ")"
	case "r":
		if c.Y%2 == 0 {
			return "(<-x)"
		}
		return "(channel-read x)"
	case "tr":
		return "(channel-try-read x)"
	default:
		return "(close-channel x)"
	}
}

// state of a channel: "C" if closed, then the values, each followed by ","
func chanStep(cap int) func(st string, o *linOp) (string, bool) {
	return func(st string, o *linOp) (string, bool) {
		closed := strings.HasPrefix(st, "C")
		q := strings.TrimPrefix(st, "C")
		n := strings.Count(q, ",")
		val := strconv.FormatInt(o.v, 10)
		switch o.kind {
		case "w", "tw":
			ok := "()"
			if o.kind == "tw" {
				ok = "#t"
			}
			switch {
			case closed:
				return st, o.out == "ERROR"
			case o.out == ok:
				return st + val + ",", n < cap
			case o.kind == "tw" && o.out == "#f":
				return st, n >= cap
			}
			return st, false
		case "r", "tr":
			pre := "("
			if o.kind == "tr" {
				pre = "(#t "
			}
			if n > 0 {
				i := strings.IndexByte(q, ',')
				return st[:len(st)-len(q)] + q[i+1:], o.out == pre+q[:i]+" #t)"
			}
			if closed {
				return st, o.out == pre+"() #f)"
			}
			return st, o.kind == "tr" && o.out == "(#f () #t)"
		default:
			if closed {
				return st, o.out == "ERROR"
			}
			return "C" + st, o.out == "()"
		}
	}
}

// a handover on an unbuffered channel
func chanPair(st string, a, b *linOp) bool {
	if st != "" || a.kind != "w" && a.kind != "tw" || b.kind != "r" && b.kind != "tr" {
		return false
	}
	val := strconv.FormatInt(a.v, 10)
	okA := a.kind == "w" && a.out == "()" || a.kind == "tw" && a.out == "#t"
	okB := b.kind == "r" && b.out == "("+val+" #t)" || b.kind == "tr" && b.out == "(#t "+val+" #t)"
	return okA && okB
}

func genChanScene(g *Gen) *scene {
	if g.pct(15) {
		return &scene{Kind: "chan-stress", Cap: oneOf(g, 0, 0, 1, 2, 5, 40), P: 1 + g.pick(4), Q: 1 + g.pick(3), N: 5 + g.pick(60)}
	}
	s := &scene{Kind: "chan", Cap: oneOf(g, 0, 0, 1, 1, 2, 3)}
	v := int64(0)
	np := 2 + g.pick(3)
	closes := g.oneIn(4)
	for p := 0; p < np; p++ {
		var ops []cop
		reader := p > 0 && g.pct(45)
		for n := 1 + g.pick(4); n > 0; n-- {
			c := cop{Y: g.size(2, 30)}
			v++
			c.V = v
			if reader {
				c.K = oneOf(g, "r", "r", "r", "tr")
				c.V = 0
			} else {
				c.K = oneOf(g, "w", "w", "w", "tw", "tr")
				if c.K == "tr" {
					c.V = 0
				}
				if closes && g.oneIn(4) {
					c = cop{K: "c", Y: c.Y}
				}
			}
			ops = append(ops, c)
		}
		s.Procs = append(s.Procs, ops)
		s.How = append(s.How, g.pick(3))
	}
	return s
}

func isReader(ops []cop) bool {
	for _, c := range ops {
		if c.K == "r" {
			return true
		}
	}
	return false
}

func runChanScene(s *scene, r *Rec) error {
	h := &recorder{}
	sceneStart(s, h)
	mk := "(define x (make-channel " + strconv.Itoa(s.Cap) + "))"
	if s.Cap == 0 && s.N%2 == 0 {
		mk = "(define x (make-channel))"
	}
	if _, err := mustEval(mk); err != nil {
		return err
	}
	if s.Kind == "chan-stress" {
		return runChanStress(s, r)
	}
	var writers, readers []func() (string, error)
	for p, ops := range s.Procs {
		var b strings.Builder
		for i, c := range ops {
			fmt.Fprintf(&b, "(op! %d %d %s) ", p, i, chanForm(c))
		}
		w, err := launch(s.How[p], p, b.String())
		if err != nil {
			return err
		}
		if isReader(ops) {
			readers = append(readers, w)
		} else {
			writers = append(writers, w)
		}
	}
	// this process takes out what nobody reads, then closes
	var left atomic.Int64
	left.Store(int64(len(writers)))
	var werr error
	var wmu sync.Mutex
	for _, w := range writers {
		w := w
		go func() {
			_, err := w()
			if err != nil {
				wmu.Lock()
				werr = err
				wmu.Unlock()
			}
			left.Add(-1)
		}()
	}
	main := len(s.Procs)
	rec := func(kind, src string) (string, error) {
		d, err := golisp.Parse(src)
		if err != nil {
			return "", err
		}
		o := linOp{proc: main, kind: kind, text: src}
		o.call = h.clock.Add(1)
		v, err := golisp.Eval(d, golisp.Global)
		o.ret = h.clock.Add(1)
		o.out = "ERROR"
		if err == nil {
			o.out = rShow(v)
		}
		if o.out != "(#f () #t)" && (kind == "c" || o.out != "(#t () #f)") {
			h.add(o)
		}
		return o.out, nil
	}
	for i := 0; left.Load() > 0; i++ {
		if i > 20 || len(readers) == 0 {
			if _, err := rec("tr", "(channel-try-read x)"); err != nil {
				return err
			}
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
	if _, err := rec("c", "(close-channel x)"); err != nil {
		return err
	}
	for _, w := range readers {
		if _, err := w(); err != nil {
			return fmt.Errorf("a reading process failed: %v", err)
		}
	}
	wmu.Lock()
	defer wmu.Unlock()
	if werr != nil {
		return fmt.Errorf("a writing process failed: %v", werr)
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	r.NonTrivial = overlapping(h.ops) > 0
	r.Class("overlapping: %v", r.NonTrivial)
	var pair func(st string, a, b *linOp) bool
	if s.Cap == 0 {
		pair = chanPair
	}
	if !linearizable(h.ops, "", chanStep(s.Cap), pair) {
		return fmt.Errorf("no order of these operations on a channel of capacity %d explains their results:\n%s", s.Cap, showHistory(h.ops))
	}
	return nil
}

func runChanStress(s *scene, r *Rec) error {
	r.NonTrivial = true
	r.Sample = fmt.Sprintf("%d producers of %d values, %d consumers, capacity %d", s.P, s.N, s.Q, s.Cap)
	var prod, cons []func() (string, error)
	for q := 0; q < s.Q; q++ {
		w, err := launch(q%2, 100+q, "(let loop ((acc '())) (let ((v (channel-read x))) (if (cadr v) (loop (cons (car v) acc)) acc)))")
		if err != nil {
			return err
		}
		cons = append(cons, w)
	}
	for p := 0; p < s.P; p++ {
		w, err := launch(p%3, p, fmt.Sprintf("(do ((i 0 (+ i 1))) ((>= i %d) %d) (channel-write x (+ %d i)))", s.N, p, p*100000))
		if err != nil {
			return err
		}
		prod = append(prod, w)
	}
	for p, w := range prod {
		v, err := w()
		if err != nil {
			return err
		}
		if v != strconv.Itoa(p) {
			return fmt.Errorf("%s: producer %d returned %s", r.Sample, p, v)
		}
	}
	if _, err := mustEval("(close-channel x)"); err != nil {
		return err
	}
	seen := map[int]int{}
	for q, w := range cons {
		v, err := w()
		if err != nil {
			return err
		}
		last := map[int]int{}
		f := strings.Fields(strings.Trim(v, "()"))
		for i := len(f) - 1; i >= 0; i-- { // the list is in reverse
			n, err := strconv.Atoi(f[i])
			if err != nil {
				return fmt.Errorf("%s: consumer %d got %s", r.Sample, q, v)
			}
			seen[n]++
			p := n / 100000
			if l, ok := last[p]; ok && l >= n {
				return fmt.Errorf("%s: consumer %d got %d after %d, but producer %d wrote them in the other order", r.Sample, q, n, l, p)
			}
			last[p] = n
		}
	}
	for p := 0; p < s.P; p++ {
		for i := 0; i < s.N; i++ {
			if k := seen[p*100000+i]; k != 1 {
				return fmt.Errorf("%s: value %d was read %d times", r.Sample, p*100000+i, k)
			}
		}
	}
	if len(seen) != s.P*s.N {
		return fmt.Errorf("%s: values nobody wrote were read", r.Sample)
	}
	return nil
}

// ---- atomics ----

func atomicForm(c cop) string {
	switch c.K {
	case "load":
		return "(atomic-load x)"
	case "store":
		return fmt.Sprintf("(atomic-store! x %d)", c.V)
	case "add":
		return fmt.Sprintf("(atomic-add! x %d)", c.V)
	case "swap":
		return fmt.Sprintf("(atomic-swap! x %d)", c.V)
	default:
		return fmt.Sprintf("(atomic-compare-and-swap! x %d %d)", c.V, c.W)
	}
}

func atomicStep(st string, o *linOp) (string, bool) {
	cur, _ := strconv.ParseInt(st, 10, 64)
	switch o.kind {
	case "load":
		return st, o.out == st
	case "store":
		return strconv.FormatInt(o.v, 10), o.out == "()"
	case "add":
		n := strconv.FormatInt(cur+o.v, 10)
		return n, o.out == n
	case "swap":
		return strconv.FormatInt(o.v, 10), o.out == st
	default:
		if cur == o.v {
			return strconv.FormatInt(o.w, 10), o.out == "#t"
		}
		return st, o.out == "#f"
	}
}

func genProcScene(g *Gen) *scene {
	switch k := g.pick(100); {
	case k < 45:
		s := &scene{Kind: "atomic", Init: int64(g.pick(3))}
		for p := 2 + g.pick(3); p > 0; p-- {
			var ops []cop
			for n := 1 + g.pick(4); n > 0; n-- {
				ops = append(ops, cop{K: oneOf(g, "load", "store", "add", "add", "swap", "cas", "cas"), V: int64(g.pick(4)), W: int64(g.pick(4)), Y: g.size(2, 20)})
			}
			s.Procs = append(s.Procs, ops)
			s.How = append(s.How, g.pick(3))
		}
		return s
	case k < 60:
		return &scene{Kind: oneOf(g, "add-stress", "cas-stress", "swap-stress"), P: 2 + g.pick(4), N: 5 + g.pick(60), Init: int64(g.pick(100)) - 50}
	case k < 85:
		return &scene{Kind: "join", P: 1 + g.pick(5), Q: 1 + g.pick(3), N: 1 + g.pick(12), Ms: g.pick(3)}
	case k < 92:
		return &scene{Kind: "wake", P: 1 + g.pick(3), N: g.pick(2), Ms: g.pick(4)}
	case k < 97:
		return &scene{Kind: "timer", Ms: 1 + g.pick(25), P: 1 + g.pick(3)}
	default:
		return &scene{Kind: oneOf(g, "reset", "abandon"), Ms: 250}
	}
}

func runProcScene(s *scene, r *Rec) error {
	h := &recorder{}
	sceneStart(s, h)
	golisp.MakePrimitiveFunction("nanos!", "0", func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		return golisp.IntegerWithValue(int64(time.Since(startTime))), nil
	})
	golisp.MakePrimitiveFunction("yield!", "1", func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		yields(int(golisp.IntegerValue(golisp.Car(args))))
		return nil, nil
	})
	golisp.MakePrimitiveFunction("host-panic!", "0", func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		panic("a panic in a host function")
	})
	r.NonTrivial = true
	r.Sample = fmt.Sprintf("%+v", *s)
	switch s.Kind {
	case "atomic":
		return runAtomicScene(s, h, r)
	case "add-stress", "cas-stress", "swap-stress":
		return runAtomicStress(s, r)
	case "join":
		return runJoinScene(s)
	case "wake":
		return runWakeScene(s)
	case "timer":
		return runTimerScene(s)
	default:
		// a schedule that starves a goroutine for long can imitate a defect, so
		// the whole scene has to fail several times in a row
		var err error
		for i := 0; i < 3; i++ {
			if err = runDelayScene(s); err == nil {
				return nil
			}
		}
		return err
	}
}

var startTime = time.Now()

func runAtomicScene(s *scene, h *recorder, r *Rec) error {
	if _, err := mustEval("(define x (atomic " + strconv.FormatInt(s.Init, 10) + "))"); err != nil {
		return err
	}
	var waits []func() (string, error)
	for p, ops := range s.Procs {
		var b strings.Builder
		for i, c := range ops {
			fmt.Fprintf(&b, "(op! %d %d %s) ", p, i, atomicForm(c))
		}
		w, err := launch(s.How[p], p, b.String())
		if err != nil {
			return err
		}
		waits = append(waits, w)
	}
	for _, w := range waits {
		if _, err := w(); err != nil {
			return err
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	r.NonTrivial = overlapping(h.ops) > 0
	r.Class("overlapping: %v", r.NonTrivial)
	if !linearizable(h.ops, strconv.FormatInt(s.Init, 10), atomicStep, nil) {
		return fmt.Errorf("no order of these operations on an atomic holding %d explains their results:\n%s", s.Init, showHistory(h.ops))
	}
	return nil
}

func intList(s string) (r []int64, ok bool) {
	for _, f := range strings.Fields(strings.Trim(s, "()")) {
		n, err := strconv.ParseInt(f, 10, 64)
		if err != nil {
			return nil, false
		}
		r = append(r, n)
	}
	return r, true
}

func runAtomicStress(s *scene, r *Rec) error {
	if _, err := mustEval("(define x (atomic " + strconv.FormatInt(s.Init, 10) + "))"); err != nil {
		return err
	}
	var waits []func() (string, error)
	for p := 0; p < s.P; p++ {
		var body string
		switch s.Kind {
		case "add-stress":
			body = fmt.Sprintf("(let loop ((i 0) (acc '())) (if (>= i %d) acc (loop (+ i 1) (cons (atomic-add! x 1) acc))))", s.N)
		case "swap-stress":
			body = fmt.Sprintf("(let loop ((i 0) (acc '())) (if (>= i %d) acc (loop (+ i 1) (cons (atomic-swap! x (+ %d i)) acc))))", s.N, 1000*(p+1))
		default:
			body = fmt.Sprintf("(let loop ((i 0) (acc '())) (if (>= i %d) acc (let ((o (atomic-load x))) (if (atomic-compare-and-swap! x o (+ o 1)) (loop (+ i 1) (cons (+ o 1) acc)) (begin (yield! 1) (loop i acc))))))", s.N)
		}
		w, err := launch(p%3, p, body)
		if err != nil {
			return err
		}
		waits = append(waits, w)
	}
	var all []int64
	for _, w := range waits {
		v, err := w()
		if err != nil {
			return err
		}
		l, ok := intList(v)
		if !ok || len(l) != s.N {
			return fmt.Errorf("%s: a process returned %s", r.Sample, v)
		}
		all = append(all, l...)
	}
	fv, err := mustEval("(atomic-load x)")
	if err != nil {
		return err
	}
	final := golisp.IntegerValue(fv)
	var want []int64
	if s.Kind == "swap-stress" {
		all = append(all, final)
		want = append(want, s.Init)
		for p := 0; p < s.P; p++ {
			for i := 0; i < s.N; i++ {
				want = append(want, int64(1000*(p+1)+i))
			}
		}
	} else {
		for i := 1; i <= s.P*s.N; i++ {
			want = append(want, s.Init+int64(i))
		}
		if final != s.Init+int64(s.P*s.N) {
			return fmt.Errorf("%s: the final value is %d", r.Sample, final)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	for i := range want {
		if all[i] != want[i] {
			return fmt.Errorf("%s: the results of the operations are %v", r.Sample, all)
		}
	}
	return nil
}

// P processes over one shared function, each with its own argument, joined by
// Q threads each: exactly one join of each gives its value.
func runJoinScene(s *scene) error {
	setup := fmt.Sprintf(`(define (work p n) (yield! %d) (list n (join p) (let loop ((i 0) (a 0)) (if (>= i n) a (loop (+ i 1) (+ a i)))) (eq? p parentProcess) (begin (if (== n 3) (error 'three)) (if (== n 5) (host-panic!)) n)))`, s.Ms)
	if _, err := mustEval(setup); err != nil {
		return err
	}
	var objs []*D
	for i := 0; i < s.P; i++ {
		how := "(fork work "
		if i%2 == 1 {
			how = "(schedule " + strconv.Itoa(s.Ms%2) + " work "
		}
		o, err := mustEval(how + strconv.Itoa(s.N+i) + ")")
		if err != nil {
			return err
		}
		objs = append(objs, o)
	}
	join, err := mustEval("join")
	if err != nil {
		return err
	}
	type res struct {
		v   string
		err error
	}
	out := make([][]res, s.P)
	var wg sync.WaitGroup
	for i := range objs {
		out[i] = make([]res, s.Q)
		for j := 0; j < s.Q; j++ {
			wg.Add(1)
			go func(i, j int) {
				defer wg.Done()
				v, err := golisp.ApplyWithoutEval(join, golisp.InternalMakeList(objs[i]), golisp.Global)
				out[i][j] = res{rShow(v), err}
			}(i, j)
		}
	}
	wg.Wait()
	for i := range objs {
		n := s.N + i
		want := fmt.Sprintf("(%d () %d #t %d)", n, n*(n-1)/2, n)
		if n == 3 || n == 5 { // failed
			want = "()"
		}
		good := 0
		for _, x := range out[i] {
			if x.err == nil {
				good++
				if x.v != want {
					return fmt.Errorf("process %d of %d over one function, with argument %d, gave %s instead of %s", i, s.P, n, x.v, want)
				}
			}
		}
		if good != 1 {
			return fmt.Errorf("%d of %d joins of one process succeeded", good, s.Q)
		}
	}
	return nil
}

// A wake-up is never lost, whether it comes before or after the sleep begins.
func runWakeScene(s *scene) error {
	for i := 0; i < s.P; i++ {
		src := fmt.Sprintf("(define p%d (fork (lambda (p) (yield! %d) (list (proc-sleep p 60000) (proc-sleep p %d)))))", i, s.Ms*5, s.Ms)
		if _, err := mustEval(src); err != nil {
			return err
		}
	}
	for i := 0; i < s.P; i++ {
		if s.N == 1 {
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
		}
		if _, err := mustEval(fmt.Sprintf("(wake p%d)", i)); err != nil {
			return err
		}
	}
	for i := 0; i < s.P; i++ {
		var v *D
		var err error
		if !within(25*time.Second, func() { v, err = mustEval(fmt.Sprintf("(join p%d)", i)) }) {
			return fmt.Errorf("a process that was woken still sleeps")
		}
		if err != nil {
			return err
		}
		if rShow(v) != "(#t #f)" {
			return fmt.Errorf("two sleeps of a process woken once gave %s", rShow(v))
		}
	}
	return nil
}

// A scheduled process runs exactly once and not before its time; a sleep that
// is not interrupted lasts at least as long as asked.
func runTimerScene(s *scene) error {
	if _, err := mustEval("(define runs (atomic 0))"); err != nil {
		return err
	}
	t0 := time.Since(startTime)
	for i := 0; i < s.P; i++ {
		src := fmt.Sprintf("(define p%d (schedule %d (lambda (p) (atomic-add! runs 1) (nanos!))))", i, s.Ms)
		if _, err := mustEval(src); err != nil {
			return err
		}
	}
	if _, err := mustEval("(define q (fork (lambda (p) (proc-sleep p " + strconv.Itoa(s.Ms) + ") (nanos!))))"); err != nil {
		return err
	}
	d := int64(s.Ms) * int64(time.Millisecond)
	for i := 0; i <= s.P; i++ {
		name := fmt.Sprintf("p%d", i)
		if i == s.P {
			name = "q"
		}
		v, err := mustEval("(join " + name + ")")
		if err != nil {
			return err
		}
		if !golisp.IntegerP(v) || golisp.IntegerValue(v)-int64(t0) < d {
			return fmt.Errorf("a delay of %d ms was over after %s ns (began at %d)", s.Ms, rShow(v), int64(t0))
		}
	}
	n, err := mustEval("(atomic-load runs)")
	if err != nil {
		return err
	}
	if golisp.IntegerValue(n) != int64(s.P) {
		return fmt.Errorf("%d scheduled processes ran %s times", s.P, rShow(n))
	}
	return nil
}

func runDelayScene(s *scene) error {
	if _, err := mustEval("(define runs (atomic 0))"); err != nil {
		return err
	}
	if _, err := mustEval(fmt.Sprintf("(define p (schedule %d (lambda (p) (atomic-add! runs 1) (nanos!))))", s.Ms)); err != nil {
		return err
	}
	d := time.Duration(s.Ms) * time.Millisecond
	if s.Kind == "abandon" {
		if _, err := mustEval("(abandon p)"); err != nil {
			return err
		}
		v, err := mustEval("(join p)")
		if err != nil {
			return err
		}
		if rShow(v) != "()" {
			return fmt.Errorf("an abandoned process returned %s", rShow(v))
		}
		time.Sleep(d + 50*time.Millisecond)
		n, err := mustEval("(atomic-load runs)")
		if err != nil {
			return err
		}
		if golisp.IntegerValue(n) != 0 {
			return fmt.Errorf("an abandoned process ran")
		}
		return nil
	}
	time.Sleep(d / 2)
	t1 := time.Since(startTime)
	a, err := mustEval("(reset-timeout p)")
	if err != nil {
		return err
	}
	if golisp.StringValue(a) != "OK" {
		return fmt.Errorf("reset-timeout of a waiting process: %s", rShow(a))
	}
	v, err := mustEval("(join p)")
	if err != nil {
		return err
	}
	if !golisp.IntegerP(v) || time.Duration(golisp.IntegerValue(v))-t1 < d {
		return fmt.Errorf("the timeout of %d ms was reset at %v, but the process ran at %s ns", s.Ms, t1, rShow(v))
	}
	return nil
}

func init() {
	subTypes["chan"] = []string{"chan"}
	subTypes["atm"] = []string{"atm"}
	subTypes["proc"] = []string{"proc"}
	litGens["chan"] = func(g *Gen) string {
		return oneOf(g, "(make-channel)", "(make-channel 0)", "(make-channel 1)", "(make-channel 2)", "(make-channel 3)", "(make-channel 7)")
	}
	litGens["atm"] = func(g *Gen) string {
		return oneOf(g, "(atomic)", "(atomic 5)", "(atomic -1)", "(atomic 9223372036854775807)")
	}
	litGens["notchan"] = func(g *Gen) string {
		return oneOf(g, "(atomic 3)", "[1 2 3 4 5 6 7 8]", "[]", "(the-environment)", "(fork (lambda (p) 1))")
	}
	litGens["notatm"] = func(g *Gen) string {
		return oneOf(g, "(make-channel 2)", "[1 2 3 4 5 6 7 8]", "[]", "(the-environment)", "(fork pf 1)")
	}
	litGens["notproc"] = func(g *Gen) string {
		return oneOf(g, "(make-channel 2)", "[1 2 3 4 5 6 7 8]", "[]", "(the-environment)", "(atomic 3)")
	}
	// the shortcuts take the name as it is written
	opFn("chan", "any", 3, func(g *Gen, d int) string {
		x, y := oneOf(g, "c-", "c<", "c", "c--", "-c", ">c", "c:", "c<-c", "c!", "c?"), oneOf(g, "c", "c1", "cc")
		if x == y {
			y = "k"
		}
		s := "(let ((" + x + " (make-channel 3)) (" + y + " (make-channel 3))) (channel-write " + x + " 'x) (channel-write " + y + " 'y) (" + x + "<- " + g.expr("any", d-1) + ") (list"
		for n := 1 + g.pick(3); n > 0; n-- {
			s += " " + oneOf(g, "(<-"+x+")", "(channel-try-read "+x+")", "(channel-try-read "+y+")", "(<-"+y+")")
		}
		return s + " (channel-try-read " + x + ") (channel-try-read " + y + ")))"
	})
	ops("chan", `
10 any (channel-try-write {chan!} {any})
8 any (channel-write {chan!} {any})
6 any ({chan!}<- {any})
9 any (channel-try-read {chan!})
6 any (channel-read {chan!})
4 any (<-{chan!})
2 any (close-channel {chan!})
1 any (channel-read {any})
1 any (channel-try-read {any})
1 any (channel-write {any} {any})
1 any (channel-try-write {any} {any})
1 any (close-channel {any})
1 any (make-channel {any})
1 any (make-channel -1)
1 any (make-channel 9223372036854775807)
1 any (channel-read {notchan})
1 any (channel-try-read {notchan})
1 any (channel-write {notchan} {any})
1 any (channel-try-write {notchan} {any})
1 any (close-channel {notchan})
2 any (map (lambda (q) (channel-try-write {chan!} q)) {list})
2 any (for-each (lambda (q) (channel-write {chan!} q)) {list})
2 any (list (channel-try-read {chan!}) (channel-try-read {chan!}) (channel-try-read {chan!}))
2 any (let ((c {chan!})) (c<- 5) (<-c))
2 any (channel-write {chan!} {chan!})
1 any (eq? {chan!} {chan!})
`)
	seqChan := progProp("C26", "", 0, 0, []string{"chan"}, progOpts{types: []string{"chan", "chan", "any"}, results: []string{"any"}, minF: 6, maxF: 22, depth: 2, stmtPct: 0},
		func(f []string, r *progResult) bool { return r.good(6) }).tune(func(g *Gen) { g.pPrim = 93 })
	register(concProp("C26", "two kinds of case: histories of 6-22 forms of one thread over several channels, compared with the model; and scenes of 2-5 processes (forked, scheduled, host goroutines) writing, reading, trying and closing one channel of capacity 0-40 under random yields: short histories are checked for linearizability against a bounded FIFO queue (a rendezvous for capacity 0), long ones for every value being read exactly once and in its producer's order; non-trivial: six values compared, or operations of two processes overlapped",
		7000, 250000, 45, false, seqChan, genChanScene, runChanScene))

	ops("proc", `
8 atm {atm}
6 any (atomic-load {atm!})
6 any (atomic-store! {atm!} {int})
6 any (atomic-add! {atm!} {int})
5 any (atomic-swap! {atm!} {int})
7 any (atomic-compare-and-swap! {atm!} {sint} {sint})
5 any (atomic-compare-and-swap! {atm!} (atomic-load {atm!}) {sint})
1 any (atomic-load {any})
1 any (atomic-store! {any} {any})
1 any (atomic-add! {atm!} {any})
1 any (atomic-swap! {any} {int})
1 any (atomic-compare-and-swap! {atm!} {any} {any})
1 any (atomic {any})
1 any (atomic-load {notatm})
1 any (atomic-store! {notatm} 5)
1 any (atomic-add! {notatm} 1)
1 any (atomic-swap! {notatm} 5)
1 any (atomic-compare-and-swap! {notatm} 0 5)
1 any (join {notproc})
1 any (wake {notproc})
1 any (proc-sleep {notproc} 1)
1 any (abandon {notproc})
1 any (reset-timeout {notproc})
2 any (join (fork (lambda (p) (list 'after (ph p)))))
8 any (join {proc!})
2 any (list (join {proc!}) (atomic-load {atm!}))
2 any (wake {proc!})
2 any (proc-sleep {proc!} 60000)
2 any (proc-sleep {proc!} 1)
1 any (begin (wake {proc!}) (proc-sleep {proc!} 9223372036854775807))
1 any (let ((q {proc!})) (wake q) (proc-sleep q 9223372036854776))
1 any (abandon {proc!})
1 any (reset-timeout {proc!})
1 any (join {any})
1 any (wake {any})
1 any (proc-sleep {proc!} {any})
1 any (fork {any})
1 any (fork {any} {any})
1 any (schedule {any} {any})
1 any (abandon {any})
1 any (reset-timeout {any})
3 any (join (fork (lambda (p) (set! shared (+ shared 1)) shared)))
2 any (begin (join (fork (lambda (p) (atomic-add! {atm!} 3)))) (atomic-load {atm!}))
2 any (let ((c (make-channel 3))) (join (fork (lambda (p c) (c<- 1) (c<- 2) (list p)) c)) (list (<-c) (<-c)))
2 any (map join (map (lambda (n) (fork pf n)) {ints}))
2 any (map join (list (fork pf 1) (fork pf 2) (schedule 0 pf 3)))
2 any (pf {proc!} 3)
1 any (proc-sleep {proc!} -5)
`)
	litGens["proc"] = func(g *Gen) string {
		return oneOf(g, "(fork pf "+strconv.Itoa(g.pick(5))+")", "(schedule "+strconv.Itoa(g.pick(3))+" pf "+strconv.Itoa(g.pick(5))+")", "(schedule 90000 pf 1)", "(schedule "+oneOf(g, "9223372036854775807", "9223372036854776", "18446744073710", "100000000000000000")+" pf 1)",
			"(fork pv 1 2)", "(fork pv)", "(schedule 0 pv 1 '(2) 3)", "(schedule 1 pv "+strconv.Itoa(g.pick(5))+" 'b)", "(schedule 0 pv)", "(schedule 0 (lambda (p a b c) (list c b a)) 1 \"two\" 'three)", "(fork (lambda (p a b . r) (list r b a)) 1 2 3 4)", "(schedule 0 pf 1 2)", "(fork pf 1 2)", "(fork pn 2)", "(fork (lambda (p) (join p)))", "(fork (lambda (p) (error 'inside)))", "(fork (lambda (p a) (list p a (join (fork pf 2)))) 1)",
			"(fork (lambda (p) (join p) (list 'after (eq? p parentProcess))))", "(fork pf)", "(fork (lambda () 1))", "(fork ph)", "(fork (lambda (p) (let ((q (list (ph p)))) (list q p))))", "(schedule 0 pf)", "(fork pv 1 (list 1 2))")
	}
	seqProc := progProp("C27", "", 0, 0, []string{"proc"}, progOpts{types: []string{"proc", "proc", "atm", "atm", "int"}, results: []string{"any"}, minF: 6, maxF: 18, depth: 2, stmtPct: 0, echo: true},
		func(f []string, r *progResult) bool { return r.good(9) }).tune(func(g *Gen) { g.pPrim = 93; g.pEmit = 0 }).finish(func(g *Gen, forms []string) []string {
		return append([]string{"(define shared 0)", "(define (ph p) (join p))", "(define (pf p n) (list n (* n n) (join p)))", "(define (pv p . r) (cons (length r) r))",
			"(define (pn p n) (if (== n 0) (list 'leaf (join p)) (let ((q (fork pn (- n 1)))) (list n (join q) (join p)))))"}, forms...)
	})
	register(concProp("C27", "two kinds of case: histories of 6-18 forms over atomics and processes whose result does not depend on the schedule, compared with the model; and scenes: 2-4 processes on one atomic (linearizability of short histories; sums, exactness of all results for long ones), one function forked several times and joined from several threads, wake-ups racing with sleeps, timers, resets and abandons; non-trivial: nine values compared, or overlapping operations, or any other scene",
		5000, 200000, 45, true, seqProc, genProcScene, runProcScene))
}
