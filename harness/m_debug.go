package main

// Model of the debugger: where it stops, what is typed there and what that
// does to the program.

import (
	"fmt"
	"sort"
	"strings"
)

type mQuit struct{}

type mDbg struct {
	in      *Interp
	onError bool
	onEntry map[string]bool
	single  bool
	cur     *MEnv // continue until an evaluation in the frame this was entered from
	inEval  int   // evaluations going on that were typed at a stop
	dirty   bool  // the code shown for a frame is not predicted any more
	cmds    []string
	typed   []string
	ev      []string // expected responses
	stops   int
	kinds   map[string]int
}

func (d *mDbg) flush() {
	for _, s := range d.in.out {
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "<<") {
				d.ev = append(d.ev, l)
			}
		}
	}
	d.in.out = nil
}

func (d *mDbg) event(f string, a ...interface{}) {
	d.flush()
	d.ev = append(d.ev, fmt.Sprintf(f, a...))
}

func (d *mDbg) code(env *MEnv) string {
	if d.dirty || d.inEval > 0 || len(env.code) == 0 {
		return anyText
	}
	return "Eval " + orAny(writtenOr(env.code[len(env.code)-1]))
}

func orAny(s string) string {
	if s == "" {
		return anyText
	}
	return s
}

func (d *mDbg) push(v V, env *MEnv) func() {
	if d.inEval > 0 {
		return func() {}
	}
	env.code = append(env.code, v)
	return func() {
		if len(env.code) > 0 {
			env.code = env.code[:len(env.code)-1]
		}
	}
}

// before: v is about to be evaluated.
func (d *mDbg) before(v V, env *MEnv) (V, bool) {
	for _, n := range []string{"acc", "n"} {
		if b := d.in.global.vars[n]; b != nil {
			if k := 1500; !sizeWithin(b.val, &k) {
				unspec("growing data")
			}
		}
	}
	if d.single {
		d.single = false
		d.kinds["step"]++
		if r, ret := d.stop(env); ret {
			return r, true
		}
		if d.cur != nil && d.cur.prev == env {
			unspec("stopped twice before one evaluation")
		}
	}
	if d.cur != nil && d.cur.prev == env && env != nil {
		d.cur = nil
		d.kinds["up"]++
		if r, ret := d.stop(env); ret {
			return r, true
		}
	}
	return nil, false
}

// entry: f is about to be called by a call expression.
func (d *mDbg) entry(f V, env *MEnv) (V, bool) {
	if fn, ok := f.(*MFn); ok && !d.single && d.onEntry[fn.name] {
		d.kinds["entry"]++
		return d.stop(env)
	}
	return nil, false
}

func (d *mDbg) evalTyped(src string, env *MEnv) (V, *mErr, bool) {
	v, err := mParse(src)
	if err != nil {
		return nil, nil, false
	}
	n := d.stops
	d.inEval++
	r, e := d.in.try(func() V { return d.in.eval(v, env) })
	d.inEval--
	if d.stops != n {
		d.dirty = true
	}
	return r, e, true
}

// stop: the debugger has the control; the result is a value to be returned
// from the evaluation that was stopped.
func (d *mDbg) stop(env *MEnv) (V, bool) {
	in := d.in
	d.stops++
	if d.stops > 120 {
		unspec("many stops")
	}
	d.event("%s", d.code(env))
	for {
		d.event("D>")
		c := ":c"
		if len(d.cmds) > 0 {
			c = d.cmds[0]
			d.cmds = d.cmds[1:]
		}
		d.typed = append(d.typed, c)
		if !strings.HasPrefix(c, ":") {
			v, e, ok := d.evalTyped(c, env)
			switch {
			case c == "":
			case !ok:
				d.event("Error: ")
			case e != nil:
				d.event("Error in evaluation: ")
			default:
				d.event("==> %s", orAny(writtenOr(v)))
			}
			continue
		}
		tok := strings.Split(c[1:], " ")
		arg := strings.Join(tok[1:], " ")
		d.kinds[":"+tok[0]]++
		switch tok[0] {
		case "c":
			d.cur, d.single = nil, false
			if d.inEval > 0 {
				d.dirty = true
			}
			return nil, false
		case "r":
			v, e, ok := d.evalTyped(arg, env)
			switch {
			case !ok:
				d.event("Error: ")
			case e != nil:
				d.event("Error in evaluation: ")
			default:
				d.cur, d.single = nil, false
				if d.inEval > 0 {
					d.dirty = true
				}
				return v, true
			}
		case "s":
			d.single = true
			return nil, false
		case "u":
			if env.parent == nil {
				d.event("Already at top frame.")
				continue
			}
			d.cur = env
			return nil, false
		case "(+", "(-":
			f, ok := in.lookup(Sym(arg), env, false).(*MFn)
			switch {
			case arg == "" || !ok:
				d.event("No such function")
			case tok[0] == "(+":
				d.onEntry[f.name] = true
			default:
				delete(d.onEntry, f.name)
			}
		case "(":
			if len(d.onEntry) > 0 {
				d.event("names %s", d.names())
			}
		case "e":
			switch arg {
			case "on", "off":
				d.onError = arg == "on"
			case "":
				d.event("Missing on/off.")
			default:
				d.event("on/off expected.")
			}
		case "t":
			switch arg {
			case "off":
			case "":
				d.event("Missing on/off.")
			default:
				d.event("on/off expected.")
			}
		case "b":
			n := 0
			for e := env; e != nil; e = e.prev {
				d.event("Frame %d: %s", n, d.code(e))
				n++
			}
		case "d":
			n := 0
			for e := env; e != nil; e = e.prev {
				d.event("Frame %d: %s", n, d.code(e))
				d.dump(e)
				n++
			}
		case "f":
			n := -1
			if _, err := fmt.Sscanf(arg, "%d", &n); err != nil || n < 0 {
				d.event("Missing frame number.")
				continue
			}
			e := env
			for ; n > 0 && e != nil; n-- {
				e = e.prev
			}
			if e == nil {
				d.event("Invalid frame selected.")
				continue
			}
			d.event("%s", d.code(e))
			d.dump(e)
		case "q":
			panic(mQuit{})
		}
	}
}

func (d *mDbg) names() string {
	var n []string
	for k := range d.onEntry {
		n = append(n, k)
	}
	sort.Strings(n)
	return strings.Join(n, " ")
}

func (d *mDbg) dump(e *MEnv) {
	var l []string
	for n, b := range e.vars {
		if _, ok := b.val.(*MPrim); ok {
			continue
		}
		l = append(l, "   "+n+" => "+orAny(writtenOr(b.val)))
	}
	sort.Strings(l)
	for _, s := range l {
		d.event("%s", s)
	}
}

func init() {
	prims := map[string]func(in *Interp, a []V, env *MEnv) V{
		"debug": func(in *Interp, a []V, env *MEnv) V {
			if in.byName != "debug" {
				unspec("debug called in another way")
			}
			in.dbg.event("Debugger")
			in.dbg.kinds["debug"]++
			v, _ := in.dbg.stop(env)
			return v
		},
		"debug-on-error": func(in *Interp, a []V, env *MEnv) V {
			if len(a) == 1 {
				in.dbg.onError = truthy(a[0])
			}
			return in.dbg.onError
		},
		"debug-on-entry": func(in *Interp, a []V, env *MEnv) V { return in.dbg.list() },
		"add-debug-on-entry": func(in *Interp, a []V, env *MEnv) V {
			f, ok := a[0].(*MFn)
			if !ok {
				return lispErr("no such function")
			}
			in.dbg.onEntry[f.name] = true
			return in.dbg.list()
		},
		"remove-debug-on-entry": func(in *Interp, a []V, env *MEnv) V {
			f, ok := a[0].(*MFn)
			if !ok {
				return lispErr("no such function")
			}
			delete(in.dbg.onEntry, f.name)
			return in.dbg.list()
		},
	}
	debugPrims = prims
}

var debugPrims map[string]func(in *Interp, a []V, env *MEnv) V

func (d *mDbg) list() V {
	if len(d.onEntry) > 1 {
		return &MObj{kind: "names"} // in any order
	}
	var l []V
	for k := range d.onEntry {
		l = append(l, &MStr{s: k})
	}
	return list(l...)
}

// debugModel is the command line's interpreter with a debugger.
func debugModel(cmds []string) *Interp {
	in := cliModel()
	in.dbg = &mDbg{in: in, onEntry: map[string]bool{}, kinds: map[string]int{}, cmds: append([]string{}, cmds...)}
	for n, fn := range debugPrims {
		spec := "0"
		switch n {
		case "debug-on-error":
			spec = "0|1"
		case "add-debug-on-entry", "remove-debug-on-entry":
			spec = "1"
		}
		in.global.vars[n] = &MBinding{val: &MPrim{name: n, arity: parseArity(spec), fn: fn}, prot: true}
	}
	in.global.vars["quit"] = &MBinding{val: &MPrim{name: "quit", arity: parseArity("0"), fn: func(in *Interp, a []V, env *MEnv) V { panic(mQuit{}) }}, prot: true}
	e := in.global.vars["error"].val.(*MPrim)
	in.global.vars["error"] = &MBinding{val: &MPrim{name: "error", arity: e.arity, fn: func(in *Interp, a []V, env *MEnv) V {
		if !in.dbg.onError {
			return e.fn(in, a, env)
		}
		if in.byName != "error" {
			unspec("error called in another way")
		}
		in.dbg.event("ERROR!  %s", anyText+knownText(a[0])+anyText)
		in.dbg.kinds["error"]++
		v, _ := in.dbg.stop(env)
		return v
	}}, prot: true}
	return in
}

// plainErr: an error that is not one the debugger stops at while it is raised.
const plainErr = "nil as operator"

// caught: an error was handled. While errors stop the program, which errors do
// so at once is not specified, but for those raised by error and a call of
// nothing.
func (d *mDbg) caught(e mErr) {
	if d.onError && e.msg != plainErr {
		unspec("error of another kind while errors stop the program")
	}
	if d.inEval == 0 {
		d.dirty = true
	}
}

func sizeWithin(v V, k *int) bool {
	for *k--; *k > 0; *k-- {
		p, ok := v.(*Pair)
		if !ok {
			return true
		}
		if !sizeWithin(p.car, k) {
			return false
		}
		v = p.cdr
	}
	return false
}
