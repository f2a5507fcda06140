// The reference model: an independent interpreter for the part of the language
// whose behaviour the properties specify. It shares no code with golisp. Lisp
// errors and "not specified" are Go panics of type mErr and mUnspec.
package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type V interface{} // nil is the empty list

type Sym string

func (s Sym) naked() bool { return strings.HasSuffix(string(s), ":") }

type MStr struct {
	s      string
	opaque bool // text of an error: only the message it contains is specified
}

// str is the text of a string whose content matters.
func (m *MStr) str() string {
	unspecIf(m.opaque, "text of an error message")
	return m.s
}

const (
	kCons  = 0
	kAlist = 1
	kCell  = 2
)

type Pair struct {
	car, cdr V
	kind     byte
}

type MBytes struct{ b []byte }

type MFrame struct {
	slots map[string]V
}

type MFn struct {
	name   string
	params V
	body   V
	env    *MEnv
	req    int
	vararg bool
	slot   bool
}

type MMacro struct {
	name   string
	params V
	body   V
	env    *MEnv
	req    int
	vararg bool
}

type MPrim struct {
	name    string
	arity   []arity
	special bool
	restr   bool
	fn      func(in *Interp, a []V, env *MEnv) V
}

type arity struct{ lo, hi int } // hi -1: no limit

type MBinding struct {
	val   V
	prot  bool
	unass bool // declared without a value
}

type MEnv struct {
	name   string
	parent *MEnv
	frame  *MFrame
	vars   map[string]*MBinding
	restr  bool
	super  *MFrame // running a method found by send-super: its receiver
	prev   *MEnv   // where this was entered from
	code   []V     // what is being evaluated here (debugger)
}

type MObj struct { // opaque object, compared by kind only
	kind string
	data interface{}
}

// mErr: known is a text the message certainly contains ("" if nothing is said
// about it)
type mErr struct{ msg, known string }
type mUnspec struct{ why string }

func lispErr(f string, a ...interface{}) V { panic(mErr{msg: fmt.Sprintf(f, a...)}) }
func unspec(f string, a ...interface{}) V  { panic(mUnspec{fmt.Sprintf(f, a...)}) }

// ---- list helpers ----

func cons(a, b V) V { return &Pair{car: a, cdr: b} }

func car(v V) V {
	if p, ok := v.(*Pair); ok {
		return p.car
	}
	return nil
}
func cdr(v V) V {
	if p, ok := v.(*Pair); ok {
		return p.cdr
	}
	return nil
}
func isPair(v V) bool { // what pair?/list? accept: a list or a dotted pair read from text
	if v == nil {
		return true
	}
	p, ok := v.(*Pair)
	return ok && p.kind == kCons
}
func isAlist(v V) bool {
	if v == nil {
		return true
	}
	p, ok := v.(*Pair)
	return ok && p.kind == kAlist
}
func isListP(v V) bool { return isPair(v) || isAlist(v) }
func isCell(v V) bool {
	if v == nil {
		return true
	}
	p, ok := v.(*Pair)
	return ok && p.kind == kCell
}
func list(v ...V) V {
	var r V
	for i := len(v) - 1; i >= 0; i-- {
		r = cons(v[i], r)
	}
	return r
}
func listTail(v []V, tail V) V {
	r := tail
	for i := len(v) - 1; i >= 0; i-- {
		r = cons(v[i], r)
	}
	return r
}

const maxLen = 20000

// arr turns a proper list into a slice; improper or cyclic lists are not
// specified anywhere a list is expected.
func arr(v V) []V {
	var r []V
	for v != nil {
		p, ok := v.(*Pair)
		if !ok {
			unspec("improper list")
		}
		if p.kind == kCell {
			unspec("alist cell as list")
		}
		r = append(r, p.car)
		if len(r) > maxLen {
			unspec("cyclic or huge list")
		}
		v = p.cdr
	}
	return r
}

func properList(v V) bool {
	n := 0
	for v != nil {
		p, ok := v.(*Pair)
		if !ok || p.kind == kCell {
			return false
		}
		n++
		if n > maxLen {
			return false
		}
		v = p.cdr
	}
	return true
}

func truthy(v V) bool {
	if v == nil {
		return false
	}
	if b, ok := v.(bool); ok {
		return b
	}
	return true
}

// ---- equality ----

func (in *Interp) equal(a, b V) bool { return mEqual(a, b, 0) }

// mFrames: frames being compared with, or copied to, each other
type mFrames struct {
	a, b  *MFrame
	outer *mFrames
}

func mEqual(a, b V, depth int) bool { return mEqual1(a, b, depth, nil) }

func mEqual1(a, b V, depth int, ins *mFrames) bool {
	if depth > 400 {
		unspec("equality too deep")
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case *MStr:
		y, ok := b.(*MStr)
		return ok && x.str() == y.str()
	case Sym:
		y, ok := b.(Sym)
		return ok && x == y
	case *MBytes:
		y, ok := b.(*MBytes)
		return ok && string(x.b) == string(y.b)
	case *MFrame:
		y, ok := b.(*MFrame)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		for p := ins; p != nil; p = p.outer {
			if p.a == x && p.b == y {
				return true
			}
		}
		ins = &mFrames{x, y, ins}
		if len(x.slots) != len(y.slots) {
			return false
		}
		for k, v := range x.slots {
			w, ok := y.slots[k]
			if !ok || !mEqual1(v, w, depth+1, ins) {
				return false
			}
		}
		return true
	case *Pair:
		y, ok := b.(*Pair)
		if !ok {
			return false
		}
		if x == y {
			// identical structure; only a NaN inside could matter
			return true
		}
		// an association list or its entry can be compared with a plain list or pair
		if x.kind == kCons && y.kind != kCons {
			x, y = y, x
		}
		switch x.kind {
		case kCons:
			return mEqual1(x.car, y.car, depth+1, ins) && mEqualTail(x.cdr, y.cdr, depth+1, ins)
		case kAlist:
			if y.kind == kCell {
				return false
			}
			var xs, ys []V
			for p := x; p != nil; p, _ = p.cdr.(*Pair) {
				xs = append(xs, p.car)
			}
			for p := y; p != nil; {
				ys = append(ys, p.car)
				if p.cdr == nil {
					break
				}
				q, ok := p.cdr.(*Pair)
				if !ok {
					return false
				}
				p = q
			}
			if len(xs) != len(ys) {
				return false
			}
			for i, c := range xs {
				for _, d := range xs[:i] {
					unspecIf(mEqual(car(c), car(d), depth+1), "a key twice in an alist")
				}
			}
			for _, c := range xs {
				found := false
				for _, d := range ys {
					if dp, ok := d.(*Pair); d != nil && (!ok || dp.kind == kAlist) {
						unspecIf(ok, "alist as alist entry")
						return false
					}
					if mEqual(car(c), car(d), depth+1) {
						if !mEqual1(cdr(c), cdr(d), depth+1, ins) {
							return false
						}
						found = true
						break
					}
				}
				if !found {
					return false
				}
			}
			return true
		default:
			if y.kind == kAlist {
				return false
			}
			return mEqual1(x.car, y.car, depth+1, ins) && mEqual1(x.cdr, y.cdr, depth+1, ins)
		}
	case *MFn:
		return a == b
	case *MMacro:
		return a == b
	case *MPrim:
		return a == b
	case *MEnv:
		return a == b
	case *MObj:
		return a == b
	}
	return false
}

// the tail of a list is compared iteratively so that long lists are fine
func mEqualTail(a, b V, depth int, ins *mFrames) bool {
	n := 0
	for {
		x, ok1 := a.(*Pair)
		y, ok2 := b.(*Pair)
		if !ok1 || !ok2 || x.kind != kCons || y.kind != kCons {
			return mEqual1(a, b, depth, ins)
		}
		if x == y {
			return true
		}
		if !mEqual1(x.car, y.car, depth, ins) {
			return false
		}
		a, b = x.cdr, y.cdr
		n++
		if n > maxLen {
			unspec("cyclic")
		}
	}
}

// noCycle: data that contain themselves are outside every property (printing
// or comparing them cannot terminate).
func noCycle(v V) {
	on := map[V]bool{}
	done := map[V]bool{}
	n := 0
	var walk func(v V, d int)
	walk = func(v V, d int) {
		for {
			var next V
			switch x := v.(type) {
			case *Pair:
				if on[x] {
					unspec("cyclic data")
				}
				if done[x] {
					return
				}
				if n++; d > 300 || n > 200000 {
					unspec("deep data")
				}
				on[x] = true
				defer func() { delete(on, x); done[x] = true }()
				walk(x.car, d+1)
				next = x.cdr
			case *MFrame:
				if on[x] {
					unspec("cyclic frames")
				}
				if done[x] {
					return
				}
				if n++; d > 300 || n > 200000 {
					unspec("deep data")
				}
				on[x] = true
				for _, w := range x.slots {
					walk(w, d+1)
				}
				delete(on, x)
				done[x] = true
				return
			default:
				return
			}
			v = next
		}
	}
	walk(v, 0)
}

func unspecIf(c bool, why string) {
	if c {
		panic(mUnspec{why})
	}
}

func mCopy(v V, depth int) V { return mCopy1(v, depth, nil) }

func mCopy1(v V, depth int, ins *mFrames) V {
	if depth > 400 {
		unspec("copy too deep")
	}
	switch x := v.(type) {
	case *Pair:
		if x.kind == kAlist {
			es := arr(v)
			for _, e := range es {
				if _, ok := e.(*Pair); !ok {
					unspec("copy of malformed alist")
				}
			}
			uniqueKeys(es)
			var r V
			for _, e := range es {
				r = mAcons(mCopy1(car(e), depth+1, ins), mCopy1(cdr(e), depth+1, ins), r)
			}
			return r
		}
		if x.kind == kCell {
			return &Pair{kind: kCell, car: mCopy1(x.car, depth+1, ins), cdr: mCopy1(x.cdr, depth+1, ins)}
		}
		// copy the spine iteratively
		head := &Pair{kind: kCons}
		cur := head
		n := 0
		var p V = x
		for {
			q, ok := p.(*Pair)
			if !ok || q.kind != kCons {
				cur.cdr = mCopy1(p, depth+1, ins)
				break
			}
			np := &Pair{car: mCopy1(q.car, depth+1, ins)}
			cur.cdr = np
			cur = np
			p = q.cdr
			n++
			if n > maxLen {
				unspec("cyclic")
			}
			if p == nil {
				break
			}
		}
		return head.cdr
	case *MFrame:
		for p := ins; p != nil; p = p.outer {
			if p.a == x {
				return p.b
			}
		}
		f := &MFrame{slots: map[string]V{}}
		ins = &mFrames{x, f, ins}
		for k, w := range x.slots {
			f.slots[k] = mCopy1(w, depth+1, ins)
		}
		return f
	case *MBytes:
		return &MBytes{append([]byte{}, x.b...)}
	case *MStr:
		return &MStr{s: x.s, opaque: x.opaque}
	}
	return v
}

// ---- interpreter ----

type Interp struct {
	global   *MEnv
	fuel     int
	depth    int
	trace    []string
	out      []string // written to the standard output
	usr      map[string]interface{}
	frameN   int
	gensym   int
	byName   string // the operator of the call being made, if it is a symbol
	taint    int    // >0: a restricted environment called into an unrestricted one
	tle      map[string]*MEnv
	procs    []*MObj // processes running now, innermost last
	nextProc *MObj   // the next function call is this process
	record   bool    // keep a record of the calls
	calls    []callEvent
	last     V // value of the last top-level form
	dbg      *mDbg
	errOut   []string // written by write-line
}

// callEvent: a call begins or ends.
type callEvent struct {
	Exit bool
	Type string // func, prim or form
	Name string
}

// enter records that a call begins; the result records its end.
func (in *Interp) enter(ty, name string) func() {
	if !in.record {
		return func() {}
	}
	in.calls = append(in.calls, callEvent{false, ty, name})
	return func() { in.calls = append(in.calls, callEvent{true, ty, name}) }
}

func newInterp() *Interp {
	in := &Interp{fuel: 20000, usr: map[string]interface{}{}}
	g := &MEnv{name: "Global", vars: map[string]*MBinding{}}
	in.global = g
	for _, p := range modelPrims {
		g.vars[p.name] = &MBinding{val: p, prot: true}
	}
	for _, a := range primArities {
		if g.vars[a.name] == nil {
			name := a.name
			g.vars[name] = &MBinding{val: &MPrim{name: name, arity: parseArity(a.spec), special: true, restr: restrictedPrims[name],
				fn: func(in *Interp, a []V, env *MEnv) V { return unspec("%s is not modelled", name) }}, prot: true}
		}
	}
	for n, v := range modelConsts {
		g.vars[n] = &MBinding{val: v, prot: true}
	}
	g.vars["hconst"] = &MBinding{val: int64(42), prot: true}
	g.vars["hlate"] = &MBinding{val: int64(43), prot: true}
	g.vars["hopen"] = &MBinding{val: int64(7)}
	if modelHook != nil {
		modelHook(in)
	}
	return in
}

// modelHook adds to a new model interpreter.
var modelHook func(in *Interp)

var modelPrims []*MPrim
var modelConsts = map[string]V{}

func parseArity(spec string) []arity {
	var r []arity
	for _, t := range strings.Split(spec, "|") {
		switch {
		case t == "*":
			return []arity{{0, -1}}
		case strings.HasPrefix(t, ">="):
			n, _ := strconv.Atoi(t[2:])
			r = append(r, arity{n, -1})
		case t[0] == '(':
			var lo, hi int
			fmt.Sscanf(t, "(%d,%d)", &lo, &hi)
			r = append(r, arity{lo, hi})
		default:
			n, err := strconv.Atoi(t)
			if err != nil {
				bugf("bad arity %q", spec)
			}
			r = append(r, arity{n, n})
		}
	}
	return r
}

func arityOK(a []arity, n int) bool {
	for _, t := range a {
		if n >= t.lo && (t.hi < 0 || n <= t.hi) {
			return true
		}
	}
	return false
}

func prim(names, spec string, fn func(in *Interp, a []V, env *MEnv) V) {
	for _, n := range strings.Fields(names) {
		modelPrims = append(modelPrims, &MPrim{name: n, arity: parseArity(spec), fn: fn})
	}
}

func form(names, spec string, fn func(in *Interp, a []V, env *MEnv) V) {
	for _, n := range strings.Fields(names) {
		modelPrims = append(modelPrims, &MPrim{name: n, arity: parseArity(spec), special: true, fn: fn})
	}
}

func (e *MEnv) find(name string) *MBinding {
	for ; e != nil; e = e.parent {
		if b, ok := e.vars[name]; ok {
			return b
		}
	}
	return nil
}

// superSlot: a method reached by send-super does not see the receiver's slots
// as variables (a recorded finding); whatever depends on that is not compared.
func (e *MEnv) superSlot(s Sym) {
	if e.super != nil && (s == "self" || e.super.has(string(s)+":")) {
		unspec("slot variable in a method reached by send-super")
	}
}

func newEnvBelow(p *MEnv, name string) *MEnv {
	return &MEnv{name: name, parent: p, frame: p.frame, vars: map[string]*MBinding{}, restr: p.restr, super: p.super}
}

func (in *Interp) bindLocal(env *MEnv, s V, v V) {
	name, ok := s.(Sym)
	if !ok {
		unspec("binding a non-symbol")
	}
	if b, ok := env.vars[string(name)]; ok {
		if b.prot {
			lispErr("%s is a protected binding", name)
		}
		b.val, b.unass = v, false
		return
	}
	env.vars[string(name)] = &MBinding{val: v}
}

func (in *Interp) set(env *MEnv, s Sym, v V) {
	if b, ok := env.vars[string(s)]; ok {
		if b.prot {
			lispErr("protected")
		}
		b.val, b.unass = v, false
		return
	}
	if env.frame != nil {
		k := string(s) + ":"
		if env.frame.has(k) {
			env.frame.slots[k] = v
			return
		}
	}
	env.superSlot(s)
	b := env.find(string(s))
	if b == nil {
		lispErr("%s is undefined", s)
	}
	if b.prot {
		lispErr("protected")
	}
	b.val, b.unass = v, false
}

func (in *Interp) lookup(s Sym, env *MEnv, needFn bool) V {
	if b, ok := env.vars[string(s)]; ok {
		if f, ok := b.val.(*MFn); ok {
			f.slot = true
		}
		return b.val
	}
	if env.frame != nil {
		k := string(s) + ":"
		if env.frame.has(k) {
			v := env.frame.get(k)
			if f, ok := v.(*MFn); ok {
				f.slot = true
				return v
			}
			if !needFn {
				return v
			}
		}
	}
	env.superSlot(s)
	if b := env.find(string(s)); b != nil {
		if f, ok := b.val.(*MFn); ok {
			f.slot = false
		}
		return b.val
	}
	return nil
}

func (in *Interp) tick() {
	in.fuel--
	if in.fuel < 0 {
		unspec("fuel")
	}
}

const maxDepth = 400

func shortcut(p *Pair) *Pair {
	s, ok := p.car.(Sym)
	if !ok {
		return p
	}
	n := string(s)
	mk := func(head []V, tail V) *Pair { return listTail(head, tail).(*Pair) }
	d := V(p)
	second := car(cdr(d))
	switch {
	case strings.HasPrefix(n, "<-"):
		return mk([]V{Sym("channel-read"), Sym(strings.TrimPrefix(n, "<-"))}, cdr(d))
	case strings.HasSuffix(n, "<-"):
		return mk([]V{Sym("channel-write"), Sym(strings.TrimSuffix(n, "<-"))}, cdr(d))
	case strings.HasSuffix(n, ":"):
		return mk([]V{Sym("get-slot"), second, s}, cdr(cdr(d)))
	case strings.HasSuffix(n, ":!"):
		return mk([]V{Sym("set-slot!"), second, Sym(strings.TrimSuffix(n, "!")), car(cdr(cdr(d)))}, cdr(cdr(cdr(d))))
	case strings.HasSuffix(n, ":?"):
		return mk([]V{Sym("has-slot?"), second, Sym(strings.TrimSuffix(n, "?"))}, cdr(cdr(d)))
	case strings.HasSuffix(n, ":>"):
		return mk([]V{Sym("send"), second, Sym(strings.TrimSuffix(n, ">"))}, cdr(cdr(d)))
	case strings.HasSuffix(n, ":^"):
		return mk([]V{Sym("send-super"), Sym(strings.TrimSuffix(n, "^"))}, cdr(d))
	}
	return p
}

func (in *Interp) eval(v V, env *MEnv) V { return in.eval2(v, env, false) }

func (in *Interp) eval2(v V, env *MEnv, needFn bool) V {
	in.tick()
	if in.dbg != nil {
		defer in.dbg.push(v, env)()
		if r, ret := in.dbg.before(v, env); ret {
			return r
		}
	}
	switch x := v.(type) {
	case Sym:
		if x.naked() {
			return x
		}
		return in.lookup(x, env, needFn)
	case *Pair:
		if x.kind != kCons {
			return v
		}
		in.depth++
		if in.depth > maxDepth {
			unspec("depth")
		}
		x = shortcut(x)
		f := in.eval2(x.car, env, true)
		if f == nil {
			lispErr(plainErr)
		}
		if in.dbg != nil {
			if r, ret := in.dbg.entry(f, env); ret {
				in.depth--
				return r
			}
		}
		if s, ok := x.car.(Sym); ok {
			in.byName = string(s)
		} else {
			in.byName = ""
		}
		r := in.apply(f, x.cdr, env)
		in.depth--
		return r
	}
	return v
}

// forms: operand forms as a list (a call expression must be a proper list)
func (in *Interp) apply(f V, forms V, env *MEnv) V {
	switch x := f.(type) {
	case *MFn:
		var fr *MFrame
		if x.slot && env.frame != nil {
			fr = env.frame
		}
		return in.callFn(x, arr(forms), env, fr, true)
	case *MMacro:
		return in.eval(in.expandMacro(x, arr(forms), env), env)
	case *MPrim:
		return in.callPrim(x, arr(forms), env, true)
	}
	return lispErr("not applicable")
}

// applyV applies to values already computed
func (in *Interp) applyV(f V, args []V, env *MEnv) V {
	in.tick()
	if in.dbg != nil {
		if fn, ok := f.(*MFn); ok && in.dbg.onEntry[fn.name] {
			unspec("function called in another way")
		}
	}
	in.byName = ""
	in.depth++
	if in.depth > maxDepth {
		unspec("depth")
	}
	defer func() { in.depth-- }()
	switch x := f.(type) {
	case nil:
		return lispErr("nil as function")
	case *MFn:
		var fr *MFrame
		if x.slot && env.frame != nil {
			fr = env.frame
		}
		return in.callFn(x, args, env, fr, false)
	case *MMacro:
		return in.eval(in.expandMacro(x, args, env), env)
	case *MPrim:
		return in.callPrim(x, args, env, false)
	}
	return lispErr("not applicable")
}

func (in *Interp) callPrim(p *MPrim, forms []V, env *MEnv, ev bool) V {
	if p.restr {
		in.checkRestricted(p, env)
	}
	if !arityOK(p.arity, len(forms)) {
		lispErr("arity of %s: %d", p.name, len(forms))
	}
	args := make([]V, len(forms))
	by := in.byName
	for i, f := range forms {
		if ev && !p.special {
			args[i] = in.eval(f, env)
		} else {
			args[i] = f
		}
	}
	in.byName = by
	if in.record {
		ty := "prim"
		if p.special {
			ty = "form"
		}
		defer in.enter(ty, p.name)()
	}
	return p.fn(in, args, env)
}

func (in *Interp) callFn(f *MFn, forms []V, argEnv *MEnv, frame *MFrame, ev bool) V {
	le := &MEnv{name: f.name, parent: f.env, frame: f.env.frame, vars: map[string]*MBinding{}, restr: f.env.restr, super: f.env.super, prev: argEnv}
	if frame != nil {
		le.frame = frame
		le.vars["self"] = &MBinding{val: frame}
	} else if f.slot {
		if b, ok := argEnv.vars["self"]; ok {
			le.vars["self"] = &MBinding{val: b.val}
		}
	}
	if in.nextProc != nil {
		le.vars["parentProcess"] = &MBinding{val: in.nextProc}
		in.nextProc = nil
	}
	in.bindParams(f.params, f.req, f.vararg, forms, argEnv, le, ev)
	if argEnv.restr != le.restr || in.taint > 0 {
		in.taint++
		defer func() { in.taint-- }()
	}
	if in.record {
		defer in.enter("func", f.name)()
	}
	var r V
	for _, b := range arr(f.body) {
		r = in.eval(b, le)
	}
	return r
}

func countParams(params V) (n int, vararg bool) {
	for params != nil {
		p, ok := params.(*Pair)
		if !ok {
			if _, ok := params.(Sym); ok {
				return n, true
			}
			unspec("odd parameter list")
		}
		if _, ok := p.car.(Sym); !ok {
			unspec("non-symbol parameter")
		}
		n++
		params = p.cdr
	}
	return n, false
}

func (in *Interp) bindParams(params V, req int, vararg bool, forms []V, argEnv, le *MEnv, ev bool) {
	if vararg && len(forms) < req || !vararg && len(forms) != req {
		lispErr("wrong number of arguments")
	}
	val := func(f V) V {
		if ev {
			return in.eval(f, argEnv)
		}
		return f
	}
	p := params
	i := 0
	for ; i < req; i++ {
		in.bindLocal(le, car(p), val(forms[i]))
		p = cdr(p)
	}
	if vararg {
		var rest []V
		for ; i < len(forms); i++ {
			rest = append(rest, val(forms[i]))
		}
		in.bindLocal(le, p, list(rest...))
	}
}

func (in *Interp) expandMacro(m *MMacro, forms []V, env *MEnv) V {
	le := newEnvBelow(m.env, m.name)
	in.bindParams(m.params, m.req, m.vararg, forms, env, le, false)
	return in.eval(m.body, le)
}

func (in *Interp) body(forms []V, env *MEnv) V {
	var r V
	for _, f := range forms {
		r = in.eval(f, env)
	}
	return r
}

// try runs f and reports how it ended.
func (in *Interp) try(f func() V) (v V, err *mErr) {
	d := in.depth
	defer func() {
		if e := recover(); e != nil {
			if le, ok := e.(mErr); ok {
				in.depth = d
				if in.dbg != nil {
					in.dbg.caught(le)
				}
				v, err = nil, &le
				return
			}
			panic(e)
		}
	}()
	return f(), nil
}

// ---- canonical form ----

type shower struct {
	frames map[interface{}]int
	n      int
}

func mShow(v V) string {
	s := &shower{frames: map[interface{}]int{}}
	var b strings.Builder
	s.show(&b, v, 0)
	return b.String()
}

func canonFloat(f float32) string {
	if f != f {
		return "f:nan"
	}
	return fmt.Sprintf("f:%08x", math.Float32bits(f))
}

const showMax = 60000

func (s *shower) show(b *strings.Builder, v V, depth int) {
	if depth > 500 || b.Len() > showMax {
		unspec("value too large to compare")
	}
	switch x := v.(type) {
	case nil:
		b.WriteString("()")
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float32:
		b.WriteString(canonFloat(x))
	case bool:
		if x {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case *MStr:
		b.WriteString(strconv.Quote(x.str()))
	case Sym:
		b.WriteString("|" + string(x) + "|")
	case *MBytes:
		fmt.Fprintf(b, "[%x]", x.b)
	case *MFn:
		b.WriteString("<fn " + x.name + ">")
	case *MMacro:
		b.WriteString("<macro " + x.name + ">")
	case *MPrim:
		b.WriteString("<prim " + x.name + ">")
	case *MEnv:
		b.WriteString("<env>")
	case *MObj:
		unspecIf(x.kind == "stream", "representation of a stream")
		b.WriteString("<obj " + x.kind + ">")
	case *MFrame:
		if id, ok := s.frames[x]; ok {
			fmt.Fprintf(b, "F%d", id)
			return
		}
		s.n++
		s.frames[x] = s.n
		fmt.Fprintf(b, "F%d{", s.n)
		keys := make([]string, 0, len(x.slots))
		for k := range x.slots {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(b, "%q ", k)
			s.show(b, x.slots[k], depth+1)
			b.WriteString(";")
		}
		b.WriteString("}")
	case *Pair:
		if x.kind == kCell {
			b.WriteString("<")
			s.show(b, x.car, depth+1)
			b.WriteString(" . ")
			s.show(b, x.cdr, depth+1)
			b.WriteString(">")
			return
		}
		if x.kind == kAlist {
			// an alist is a mapping: the order of its entries is not part of
			// its value
			var items []string
			for _, c := range arr(v) {
				var eb strings.Builder
				s.show(&eb, c, depth+1)
				items = append(items, eb.String())
			}
			sort.Strings(items)
			b.WriteString("A(" + strings.Join(items, " ") + ")")
			return
		}
		b.WriteString("(")
		n := 0
		for {
			s.show(b, x.car, depth+1)
			n++
			if n > maxLen {
				unspec("cyclic list")
			}
			if x.cdr == nil {
				break
			}
			nx, ok := x.cdr.(*Pair)
			if !ok || nx.kind != kCons {
				b.WriteString(" . ")
				s.show(b, x.cdr, depth+1)
				break
			}
			b.WriteString(" ")
			x = nx
		}
		b.WriteString(")")
	default:
		bugf("cannot show %T", v)
	}
}
