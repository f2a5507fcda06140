package main

// The model's environments and error handling.

import "strings"

var restrictedPrims = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`open-input-file open-output-file close-port write-bytes load global-eval panic! exec debug
		debug-on-error add-debug-on-entry environment-parent system-global-environment make-top-level-environment find-top-level-environment`) {
		restrictedPrims[n] = true
	}
	rprim := func(name, spec string, fn func(in *Interp, a []V, env *MEnv) V) {
		modelPrims = append(modelPrims, &MPrim{name: name, arity: parseArity(spec), restr: true, fn: fn})
	}
	// the host's own restricted operations
	rprim("rp!", "*", func(in *Interp, a []V, env *MEnv) V {
		in.trace = append(in.trace, "rp! "+mShow(list(a...)))
		return int64(77)
	})
	modelPrims = append(modelPrims, &MPrim{name: "rf!", arity: parseArity(">=1"), special: true, restr: true, fn: func(in *Interp, a []V, env *MEnv) V {
		in.trace = append(in.trace, "rf!")
		return in.eval(a[0], env)
	}})

	envArg := func(v V) *MEnv {
		e, ok := v.(*MEnv)
		if !ok {
			lispErr("environment expected")
		}
		return e
	}
	symA := func(v V) string {
		s, ok := v.(Sym)
		if !ok {
			lispErr("symbol expected")
		}
		return string(s)
	}
	// unset: a binding whose value is the empty list; whether it counts as
	// assigned is said only if it was declared without a value
	unset := func(b *MBinding) bool {
		unspecIf(b.val == nil && !b.unass, "is an empty value assigned")
		return b.val == nil
	}
	prim("environment?", "1", func(in *Interp, a []V, env *MEnv) V { _, ok := a[0].(*MEnv); return ok })
	prim("environment-has-parent?", "1", func(in *Interp, a []V, env *MEnv) V { return envArg(a[0]).parent != nil })
	rprim("environment-parent", "1", func(in *Interp, a []V, env *MEnv) V {
		if e := envArg(a[0]); e.parent != nil {
			return e.parent
		}
		return nil
	})
	names := func(in *Interp, v V, all bool, ok func(b *MBinding) bool) V {
		e := envArg(v)
		unspecIf(all && e == in.global, "names of the global environment")
		var r []V
		for n, b := range e.vars {
			if ok(b) {
				r = append(r, Sym(n))
			}
		}
		return list(r...)
	}
	prim("environment-bound-names", "1", func(in *Interp, a []V, env *MEnv) V {
		return names(in, a[0], true, func(b *MBinding) bool { return true })
	})
	prim("environment-macro-names", "1", func(in *Interp, a []V, env *MEnv) V {
		return names(in, a[0], false, func(b *MBinding) bool { _, ok := b.val.(*MMacro); return ok })
	})
	prim("environment-bindings", "1", func(in *Interp, a []V, env *MEnv) V {
		e := envArg(a[0])
		unspecIf(e == in.global, "bindings of the global environment")
		var r []V
		for n, b := range e.vars {
			if b.val == nil {
				r = append(r, list(Sym(n)))
			} else {
				r = append(r, list(Sym(n), b.val))
			}
		}
		return list(r...)
	})
	prim("environment-reference-type", "2", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		b := e.find(n)
		if b == nil {
			return Sym("unbound")
		}
		if unset(b) {
			return Sym("unassigned")
		}
		if _, ok := b.val.(*MMacro); ok {
			return Sym("macro")
		}
		return Sym("normal")
	})
	prim("environment-bound?", "2", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		return e.find(n) != nil
	})
	prim("environment-assigned?", "2", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		b := e.find(n)
		if b == nil {
			return lispErr("unbound")
		}
		if unset(b) {
			return false
		}
		if _, ok := b.val.(*MMacro); ok {
			return lispErr("macro")
		}
		return true
	})
	prim("environment-lookup", "2", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		b := e.find(n)
		if b == nil {
			return lispErr("unbound")
		}
		if unset(b) {
			return lispErr("unassigned")
		}
		if _, ok := b.val.(*MMacro); ok {
			return lispErr("macro")
		}
		return b.val
	})
	prim("environment-lookup-macro", "2", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		if b := e.find(n); b != nil {
			if m, ok := b.val.(*MMacro); ok {
				return m
			}
		}
		return false
	})
	prim("environment-assignable?", "2", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		b := e.find(n)
		unspecIf(b != nil && b.prot, "is a protected name assignable")
		return b != nil
	})
	prim("environment-assign!", "3", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		b := e.find(n)
		unspecIf(b == nil, "assigning an unbound name")
		if b.prot {
			lispErr("protected")
		}
		b.val, b.unass = a[2], false
		return a[2]
	})
	prim("environment-definable?", "2", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		if b := e.vars[n]; b != nil && b.prot {
			unspec("is a protected name definable")
		}
		return true
	})
	prim("environment-define", "3", func(in *Interp, a []V, env *MEnv) V {
		e, n := envArg(a[0]), symA(a[1])
		in.bindLocal(e, Sym(n), a[2])
		return a[2]
	})
	prim("the-environment", "0", func(in *Interp, a []V, env *MEnv) V {
		if env == in.global || env.parent == in.global {
			return env
		}
		return lispErr("not in a top-level environment")
	})
	prim("procedure-environment", "1", func(in *Interp, a []V, env *MEnv) V {
		f, ok := a[0].(*MFn)
		if !ok {
			return lispErr("a function is needed")
		}
		if env.restr && !f.env.restr {
			return lispErr("restricted")
		}
		return f.env
	})
	prim("restrict-environment", "0", func(in *Interp, a []V, env *MEnv) V {
		env.restr = true
		return newStr("OK")
	})
	rprim("system-global-environment", "0", func(in *Interp, a []V, env *MEnv) V { return in.global })
	rprim("make-top-level-environment", "1|2|3", func(in *Interp, a []V, env *MEnv) V {
		name := ""
		if s, ok := a[0].(*MStr); ok {
			name = s.str()
			a = a[1:]
		}
		unspecIf(len(a) == 3, "extra operand of make-top-level-environment")
		e := newEnvBelow(in.global, name)
		if topLevelName(name) {
			if in.tle == nil {
				in.tle = map[string]*MEnv{}
			}
			in.tle[name] = e
		}
		var ns, vs []V
		lst := func(v V) []V {
			if v != nil {
				p, ok := v.(*Pair)
				if !ok {
					lispErr("list expected")
				}
				unspecIf(p.kind != kCons, "names in an alist")
			}
			return arr(v)
		}
		if len(a) > 0 {
			ns = lst(a[0])
		}
		if len(a) > 1 {
			vs = lst(a[1])
			if len(ns) != len(vs) {
				lispErr("as many names as values are needed")
			}
		}
		for i, n := range ns {
			s, ok := n.(Sym)
			if !ok {
				lispErr("symbol expected")
			}
			if len(a) > 1 {
				in.bindLocal(e, s, vs[i])
			} else {
				in.bindLocal(e, s, nil)
				e.vars[string(s)].unass = true
			}
		}
		return e
	})
	rprim("find-top-level-environment", "1", func(in *Interp, a []V, env *MEnv) V {
		var n string
		switch x := a[0].(type) {
		case *MStr:
			n = x.str()
		case Sym:
			n = string(x)
		default:
			lispErr("name expected")
		}
		unspecIf(!topLevelName(n), "name of another environment")
		if e := in.tle[n]; e != nil {
			return e
		}
		return nil
	})

	prim("eval", "1|2", func(in *Interp, a []V, env *MEnv) V {
		e := env
		if len(a) == 2 {
			e = envArg(a[1])
		}
		if e.restr != env.restr || in.taint > 0 {
			in.taint += 100
			defer func() { in.taint -= 100 }()
		}
		return in.eval(a[0], e)
	})
	rprim("global-eval", "1", func(in *Interp, a []V, env *MEnv) V { return in.eval(a[0], in.global) })

	prim("error", "1", func(in *Interp, a []V, env *MEnv) V {
		panic(mErr{msg: "error", known: knownText(a[0])})
	})
	form("on-error", "2|3", func(in *Interp, a []V, env *MEnv) V {
		taint := in.taint
		v, err := in.try(func() V { return in.eval(a[0], env) })
		in.taint = taint
		h := 1
		if err == nil {
			if len(a) == 2 {
				return v
			}
			h = 2
		}
		f, ok := in.eval(a[h], env).(*MFn)
		if !ok {
			return lispErr("on-error needs a function")
		}
		if h == 2 {
			return in.callFn(f, nil, env, nil, true)
		}
		return in.callFn(f, []V{&MStr{s: err.known, opaque: true}}, env, nil, true)
	})
}

// knownText: what the text of an error made of v certainly contains.
func knownText(v V) string {
	switch x := v.(type) {
	case *MStr:
		if strings.ContainsAny(x.s, "\"\\\n\t\r") {
			return ""
		}
		return x.s
	case int64, Sym, bool:
		return text(v)
	case *Pair:
		if x.kind != kCons || !properList(v) {
			return ""
		}
		var p []string
		for _, e := range arr(v) {
			switch e.(type) {
			case int64, Sym, bool:
				p = append(p, text(e))
			default:
				return ""
			}
		}
		if p[0] == "quote" {
			return ""
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	return ""
}

// checkRestricted: a restricted primitive does not run in a restricted
// environment. Whether it runs in an unrestricted one that was entered from a
// restricted one is said only for a function that names it itself.
func (in *Interp) checkRestricted(p *MPrim, env *MEnv) {
	if env.restr {
		t := "The " + p.name + " primitive is restricted from execution in this environment"
		panic(mErr{msg: t, known: t})
	}
	for e := env.parent; e != nil; e = e.parent {
		unspecIf(e.restr, "environment made before an outer one was restricted")
	}
	unspecIf(in.taint >= 100 || in.taint > 0 && in.byName != p.name, "restricted primitive handed to an unrestricted environment")
}

// topLevelName: the names under which programs make top level environments.
// Some are also names the interpreter gives to its own environments.
func topLevelName(n string) bool {
	return strings.HasPrefix(n, "tle-") || n == "let" || n == "do"
}
