package main

// Streams (C33): lisp/streams.lsp against a model of lazy, memoised streams.

import (
	"fmt"
	"strings"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

type mStream struct {
	car  V
	next func() *mStream // nil: the rest is in tail
	tail *mStream
}

func (s *mStream) cdr() *mStream {
	if s == nil {
		unspec("the rest of an empty stream")
	}
	if s.next != nil {
		if streamFuel--; streamFuel < 0 {
			unspec("long computation")
		}
		if streamDepth++; streamDepth > 150 {
			unspec("deep computation")
		}
		t := s.next()
		streamDepth-- // an error leaves it to be computed again
		s.tail, s.next = t, nil
	}
	return s.tail
}

var streamFuel, streamDepth int

func toStream(v V) *mStream {
	if v == nil {
		return nil
	}
	if o, ok := v.(*MObj); ok && o.kind == "stream" {
		return o.data.(*mStream)
	}
	unspec("not a stream")
	return nil
}

func fromStream(s *mStream) V {
	if s == nil {
		return nil
	}
	return &MObj{kind: "stream", data: s}
}

func headInt(s *mStream) int64 {
	n, ok := s.car.(int64)
	if !ok {
		unspec("stream of something else than integers")
	}
	return n
}

func sAdd(a, b *mStream) *mStream {
	if a == nil || b == nil {
		return nil
	}
	return &mStream{car: headInt(a) + headInt(b), next: func() *mStream { return sAdd(a.cdr(), b.cdr()) }}
}

func sScale(a *mStream, k int64) *mStream {
	if a == nil {
		return nil
	}
	return &mStream{car: headInt(a) * k, next: func() *mStream { return sScale(a.cdr(), k) }}
}

func sMerge(a, b *mStream) *mStream {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	x, y := headInt(a), headInt(b)
	switch {
	case x < y:
		return &mStream{car: x, next: func() *mStream { return sMerge(a.cdr(), b) }}
	case x > y:
		return &mStream{car: y, next: func() *mStream { return sMerge(a, b.cdr()) }}
	}
	return &mStream{car: x, next: func() *mStream { return sMerge(a.cdr(), b.cdr()) }}
}

func sSums(a *mStream) *mStream {
	if a == nil {
		unspec("partial sums of an empty stream")
	}
	return &mStream{car: a.car, next: func() *mStream { return sAdd(sSums(a), a.cdr()) }}
}

func sFrom(n int64) *mStream {
	return &mStream{car: n, next: func() *mStream { return sFrom(n + 1) }}
}

func sRange(a, b int64) *mStream {
	if a > b {
		return nil
	}
	return &mStream{car: a, next: func() *mStream { return sRange(a+1, b) }}
}

func sFib(a, b int64) *mStream {
	return &mStream{car: a, next: func() *mStream { return sFib(b, a+b) }}
}

func sHamming() *mStream {
	h := &mStream{car: int64(1)}
	h.next = func() *mStream { return sMerge(sScale(h, 2), sMerge(sScale(h, 3), sScale(h, 5))) }
	return h
}

func streamModel(in *Interp) {
	streamFuel, streamDepth = 1500, 0
	def := func(name string, v V) { in.global.vars[name] = &MBinding{val: v} }
	fn := func(name, spec string, f func(in *Interp, a []V, env *MEnv) V) {
		ar := parseArity(spec)
		def(name, &MPrim{name: name, arity: parseArity("*"), fn: func(in *Interp, a []V, env *MEnv) V {
			unspecIf(!arityOK(ar, len(a)), "number of operands of a stream operation")
			d := streamDepth
			defer func() { streamDepth = d }()
			return f(in, a, env)
		}})
	}
	def("the-empty-stream", nil)
	ints := sFrom(1)
	def("integers", fromStream(ints))
	def("fib", fromStream(sFib(1, 1)))
	for n, k := range map[string]int64{"zeros": 0, "ones": 1, "twos": 2} {
		s := &mStream{car: k}
		s.tail = s
		def(n, fromStream(s))
	}
	var odd func(n int64) *mStream
	odd = func(n int64) *mStream { return &mStream{car: n, next: func() *mStream { return odd(n + 2) }} }
	def("odds", fromStream(odd(1)))
	def("h", fromStream(sHamming()))
	def("a", fromStream(sRange(1, 2)))
	def("b", fromStream(sRange(3, 5)))
	def("stream-1-to-1000", fromStream(sRange(1, 1000)))
	def("stream-cons", &MPrim{name: "stream-cons", arity: parseArity("2"), special: true, fn: func(in *Interp, a []V, env *MEnv) V {
		s := &mStream{car: in.eval(a[0], env)}
		s.next = func() *mStream { return toStream(in.eval(a[1], env)) }
		return fromStream(s)
	}})
	fn("stream-car", "1", func(in *Interp, a []V, env *MEnv) V {
		s := toStream(a[0])
		unspecIf(s == nil, "first of an empty stream")
		return s.car
	})
	fn("stream-cdr", "1", func(in *Interp, a []V, env *MEnv) V { return fromStream(toStream(a[0]).cdr()) })
	fn("stream-null?", "1", func(in *Interp, a []V, env *MEnv) V { return toStream(a[0]) == nil })
	fn("stream-ref", "2", func(in *Interp, a []V, env *MEnv) V {
		s, n := toStream(a[0]), intArg(a[1], "n")
		unspecIf(n < 0, "negative position")
		for ; s != nil && n > 0; n-- {
			in.tick()
			s = s.cdr()
		}
		if s == nil {
			return nil
		}
		return s.car
	})
	fn("tk", "2", func(in *Interp, a []V, env *MEnv) V {
		s, n := toStream(a[0]), intArg(a[1], "n")
		var r []V
		for ; s != nil && n > 0; n-- {
			r = append(r, s.car)
			if n > 1 {
				s = s.cdr()
			}
		}
		return list(r...)
	})
	fn("stream-for-each", "2", func(in *Interp, a []V, env *MEnv) V {
		for s := toStream(a[1]); s != nil; s = s.cdr() {
			in.tick()
			in.applyV(a[0], []V{s.car}, env)
		}
		return Sym("done")
	})
	fn("stream-filter", "2", func(in *Interp, a []V, env *MEnv) V {
		var filter func(s *mStream) *mStream
		filter = func(s *mStream) *mStream {
			for s != nil {
				in.tick()
				if truthy(in.applyV(a[0], []V{s.car}, env)) {
					c := s
					return &mStream{car: c.car, next: func() *mStream { return filter(c.cdr()) }}
				}
				s = s.cdr()
			}
			return nil
		}
		return fromStream(filter(toStream(a[1])))
	})
	fn("stream-map", ">=2", func(in *Interp, a []V, env *MEnv) V {
		var mp func(ss []*mStream) *mStream
		mp = func(ss []*mStream) *mStream {
			if ss[0] == nil {
				return nil
			}
			var heads []V
			for _, s := range ss {
				unspecIf(s == nil, "a later stream ends before the first")
				heads = append(heads, s.car)
			}
			in.tick()
			return &mStream{car: in.applyV(a[0], heads, env), next: func() *mStream {
				var t []*mStream
				for _, s := range ss {
					t = append(t, s.cdr())
				}
				return mp(t)
			}}
		}
		var ss []*mStream
		for _, v := range a[1:] {
			ss = append(ss, toStream(v))
		}
		return fromStream(mp(ss))
	})
	fn("stream-enumerate-interval", "2", func(in *Interp, a []V, env *MEnv) V {
		return fromStream(sRange(intArg(a[0], "low"), intArg(a[1], "high")))
	})
	fn("add-streams", "2", func(in *Interp, a []V, env *MEnv) V { return fromStream(sAdd(toStream(a[0]), toStream(a[1]))) })
	fn("scale-stream", "2", func(in *Interp, a []V, env *MEnv) V {
		return fromStream(sScale(toStream(a[0]), intArg(a[1], "factor")))
	})
	fn("partial-sums", "1", func(in *Interp, a []V, env *MEnv) V { return fromStream(sSums(toStream(a[0]))) })
	fn("merge", "2", func(in *Interp, a []V, env *MEnv) V { return fromStream(sMerge(toStream(a[0]), toStream(a[1]))) })
}

func runStream(ci interface{}, r *Rec) error {
	c := ci.(*progCase)
	modelHook = streamModel
	var lerr error
	afterReset = func() {
		_, lerr = golisp.ProcessFile("/repo/lisp/streams.lsp")
		if lerr == nil {
			_, lerr = golisp.ParseAndEval("(define (tk s n) (if (or (stream-null? s) (< n 1)) '() (cons (stream-car s) (if (> n 1) (tk (stream-cdr s) (- n 1)) '()))))")
		}
	}
	defer func() { modelHook, afterReset = nil, nil }()
	res, err := runProg(c, r)
	if lerr != nil {
		return fmt.Errorf("lisp/streams.lsp cannot be loaded: %v", lerr)
	}
	n := 0
	for i, o := range res.outs {
		if o.kind == 'v' && (strings.HasPrefix(c.Forms[i], "(tk") || strings.HasPrefix(c.Forms[i], "(stream-")) {
			n++
		}
	}
	r.NonTrivial = n >= 3
	return err
}

type streamGen struct {
	g    *Gen
	vars []string
	n    int
}

func (s *streamGen) fn1() string {
	return oneOf(s.g, "(lambda (x) (* x 2))", "(lambda (x) (emit! x) (+ x 1))", "(lambda (x) (emit! x) x)", "(lambda (x) (emit! (list 'm x)) (* x x))", "(lambda (x) (if (== x 5) (error 'five) (begin (emit! x) x)))", "(lambda (x) (set! cnt (+ cnt 1)) (+ x cnt))", "succ", "-")
}

func (s *streamGen) pred() string {
	return oneOf(s.g, "even?", "odd?", "(lambda (x) (emit! x) (even? x))", "(lambda (x) (> x 3))", "(lambda (x) (emit! (list 'p x)) (== (% x 3) 0))", "(lambda (x) (set! cnt (+ cnt 1)) #t)")
}

func (s *streamGen) stream(d int) string {
	g := s.g
	if d <= 0 || g.oneIn(6) {
		if len(s.vars) > 0 && g.pct(60) {
			return s.vars[g.pick(len(s.vars))]
		}
		return oneOf(g, "integers", "integers", "odds", "ones", "twos", "zeros", "fib", "h", "a", "b", "stream-1-to-1000", "the-empty-stream", fmt.Sprintf("(stream-enumerate-interval %d %d)", g.pick(6)-2, g.pick(9)-1))
	}
	switch g.pick(12) {
	case 0, 1:
		return "(stream-map " + s.fn1() + " " + s.stream(d-1) + ")"
	case 2:
		return "(stream-map " + oneOf(g, "+", "-", "*", "(lambda (x y) (emit! (list x y)) (+ x y))", "max2", "(lambda (x y) x)") + " " + s.stream(d-1) + " " + s.stream(d-1) + ")"
	case 3, 4:
		return "(stream-filter " + s.pred() + " " + s.stream(d-1) + ")"
	case 5:
		return "(add-streams " + s.stream(d-1) + " " + s.stream(d-1) + ")"
	case 6:
		return "(scale-stream " + s.stream(d-1) + " " + fmt.Sprint(g.pick(5)-1) + ")"
	case 7:
		return "(merge " + s.stream(d-1) + " " + s.stream(d-1) + ")"
	case 8:
		return "(partial-sums " + s.stream(d-1) + ")"
	case 9:
		return "(stream-cdr " + s.stream(d-1) + ")"
	default:
		return "(stream-cons " + oneOf(g, "1", "0", "7", "(emit! 3)", "(begin (set! cnt (+ cnt 1)) cnt)", "cnt") + " " + fmt.Sprintf(oneOf(g, "%s", "%s", "(begin (emit! 't) %s)", "(begin (set! cnt (+ cnt 1)) %s)"), s.stream(d-1)) + ")"
	}
}

func genStream(t *rapid.T) interface{} {
	s := &streamGen{g: &Gen{t: t}}
	g := s.g
	c := &progCase{Forms: []string{"(define cnt 0)", "(define (max2 x y) (if (> x y) x y))"}}
	for i, n := 0, 2+g.pick(4); i < n; i++ {
		v := fmt.Sprintf("s%d", i)
		e := ""
		switch g.pick(6) {
		case 0:
			e = "(stream-cons " + oneOf(g, "1", "2", "(emit! 1)") + " " + oneOf(g, "(add-streams "+v+" "+s.stream(1)+")", "(scale-stream "+v+" 2)", "(stream-map "+s.fn1()+" "+v+")", "(merge (scale-stream "+v+" 2) (scale-stream "+v+" 3))", "(begin (emit! 'once) "+s.stream(2)+")") + ")"
		default:
			e = s.stream(1 + g.pick(3))
		}
		c.Forms = append(c.Forms, "(begin (define "+v+" "+e+") 'ok)")
		s.vars = append(s.vars, v)
		for q, m := 0, g.pick(4); q < m; q++ {
			w := s.vars[g.pick(len(s.vars))]
			if g.oneIn(6) {
				w = s.stream(2)
			}
			k := fmt.Sprint(g.pick(10))
			c.Forms = append(c.Forms, oneOf(g, "(tk "+w+" "+k+")", "(tk "+w+" "+k+")", "(stream-ref "+w+" "+k+")", "(stream-null? "+w+")", "(stream-car "+w+")", "cnt", "(stream-for-each (lambda (x) (emit! x)) (stream-enumerate-interval 1 "+k+"))", "(on-error (tk "+w+" "+k+") (lambda (err) 'failed))", "(stream-for-each emit! "+oneOf(g, "a", "b", "(stream-map "+s.fn1()+" b)", "(add-streams b "+w+")", "(stream-filter even? b)")+")"))
		}
	}
	for _, v := range s.vars {
		c.Forms = append(c.Forms, "(tk "+v+" 6)")
	}
	c.Forms = append(c.Forms, "cnt")
	modelHook = streamModel
	c.Forms = specifiedForms(c.Forms, false)
	modelHook = nil
	return c
}

func init() {
	register(&Prop{ID: "C33", Quick: 8000, Thor: 200000,
		Rule:   "programs that define 2-5 streams from the operations and the ready-made streams of lisp/streams.lsp (also in terms of themselves) with functions that have effects and fail, and look at their elements in any order and repeatedly; values, errors and effects against a model of lazy memoised streams; non-trivial: three looks that gave a value",
		New:    func() interface{} { return &progCase{} },
		Shrink: shrinkProgCase,
		Gen:    genStream,
		Run:    runStream,
	})
}
