package main

import (
	"sort"
	"strings"
)

func (f *MFrame) parents() []*MFrame {
	var r []*MFrame
	for _, k := range sortedKeys(f.slots) {
		if p, ok := f.slots[k].(*MFrame); ok && strings.HasSuffix(k, "*:") {
			r = append(r, p)
		}
	}
	return r
}

// holders: every frame that provides key, by a search in which a frame hides
// its own ancestors. The order among several parents is not specified.
func (f *MFrame) holders(key string, seen map[*MFrame]bool) (r []*MFrame) {
	if seen[f] {
		return nil
	}
	seen[f] = true
	if _, ok := f.slots[key]; ok {
		return []*MFrame{f}
	}
	for _, p := range f.parents() {
		r = append(r, p.holders(key, seen)...)
	}
	return
}

func (f *MFrame) has(key string) bool { return len(f.holders(key, map[*MFrame]bool{})) > 0 }

func (f *MFrame) get(key string) V {
	h := f.holders(key, map[*MFrame]bool{})
	if len(h) == 0 {
		return nil
	}
	for _, o := range h[1:] {
		if o != h[0] {
			unspecIf(o.slots[key] != h[0].slots[key], "slot provided by several parents")
		}
	}
	return h[0].slots[key]
}

func needFrame(v V, what string) *MFrame {
	f, ok := v.(*MFrame)
	if !ok {
		lispErr("%s needs a frame", what)
	}
	return f
}

func needKey(v V, what string) string {
	k, ok := v.(Sym)
	if !ok || !k.naked() {
		lispErr("%s needs a naked symbol", what)
	}
	return string(k)
}

func spread(vals []V) []V {
	last := vals[len(vals)-1]
	if !isListP(last) {
		lispErr("the last argument must be a list")
	}
	return append(append([]V{}, vals[:len(vals)-1]...), arr(last)...)
}

func init() {
	prim("make-frame", "*", func(in *Interp, a []V, env *MEnv) V {
		if len(a)%2 != 0 {
			lispErr("odd number of arguments")
		}
		f := &MFrame{slots: map[string]V{}}
		for i := 0; i < len(a); i += 2 {
			f.slots[needKey(a[i], "make-frame")] = a[i+1]
		}
		return f
	})
	prim("has-slot?", "2", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(a[0], "has-slot?")
		return f.has(needKey(a[1], "has-slot?"))
	})
	prim("get-slot", "2", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(a[0], "get-slot")
		k := needKey(a[1], "get-slot")
		if !f.has(k) {
			lispErr("no slot %s", k)
		}
		return f.get(k)
	})
	prim("get-slot-or-nil", "2", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(a[0], "get-slot-or-nil")
		return f.get(needKey(a[1], "get-slot-or-nil"))
	})
	prim("remove-slot!", "2", func(in *Interp, a []V, env *MEnv) V {
		if a[0] == nil {
			return false
		}
		f := needFrame(a[0], "remove-slot!")
		k := needKey(a[1], "remove-slot!")
		_, ok := f.slots[k]
		delete(f.slots, k)
		return ok
	})
	prim("set-slot!", "3", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(a[0], "set-slot!")
		f.slots[needKey(a[1], "set-slot!")] = a[2]
		return a[2]
	})
	method := func(f *MFrame, k, what string) *MFn {
		if !f.has(k) {
			lispErr("%s: no slot %s", what, k)
		}
		fn, ok := f.get(k).(*MFn)
		if !ok {
			lispErr("%s: not a function slot", what)
		}
		return fn
	}
	prim("send", ">=2", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(a[0], "send")
		fn := method(f, needKey(a[1], "send"), "send")
		return in.callFn(fn, a[2:], env, f, false)
	})
	superFn := func(env *MEnv, k string) *MFn {
		var vs []V
		for _, p := range env.frame.parents() {
			if p.has(k) {
				v := p.get(k)
				for _, w := range vs {
					if v != w {
						unspec("super method provided by several parents")
					}
				}
				vs = append(vs, v)
			}
		}
		if len(vs) == 0 {
			lispErr("no super method")
		}
		fn, ok := vs[0].(*MFn)
		if !ok {
			lispErr("super slot is not a function")
		}
		return fn
	}
	callSuper := func(in *Interp, fn *MFn, args []V, env *MEnv) V {
		fe := newEnvBelow(env, env.name+"'")
		fe.vars["self"] = &MBinding{val: env.frame}
		return in.callFnSuper(fn, args, fe, env.frame)
	}
	prim("send-super", ">=1", func(in *Interp, a []V, env *MEnv) V {
		if env.frame == nil {
			if env.super != nil {
				unspec("send-super inside a method reached by send-super")
			}
			lispErr("send-super outside a frame")
		}
		fn := superFn(env, needKey(a[0], "send-super"))
		return callSuper(in, fn, a[1:], env)
	})
	form("apply-slot", ">=3", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(in.eval(a[0], env), "apply-slot")
		fn := method(f, needKey(in.eval(a[1], env), "apply-slot"), "apply-slot")
		var vals []V
		for _, e := range a[2:] {
			vals = append(vals, in.eval(e, env))
		}
		return in.callFn(fn, spread(vals), env, f, false)
	})
	form("apply-slot-super", ">=2", func(in *Interp, a []V, env *MEnv) V {
		if env.frame == nil {
			if env.super != nil {
				unspec("send-super inside a method reached by send-super")
			}
			lispErr("apply-slot-super outside a frame")
		}
		fn := superFn(env, needKey(in.eval(a[0], env), "apply-slot-super"))
		var vals []V
		for _, e := range a[1:] {
			vals = append(vals, in.eval(e, env))
		}
		return callSuper(in, fn, spread(vals), env)
	})
	prim("clone", "1", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(a[0], "clone")
		g := &MFrame{slots: map[string]V{}}
		for k, v := range f.slots {
			g.slots[k] = v
		}
		return g
	})
	// the order of these two is not specified: programs look at them only
	// through canon!
	prim("frame-keys", "1", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(a[0], "frame-keys")
		var r []V
		for _, k := range sortedKeys(f.slots) {
			r = append(r, Sym(k))
		}
		return list(r...)
	})
	prim("frame-values", "1", func(in *Interp, a []V, env *MEnv) V {
		f := needFrame(a[0], "frame-values")
		var r []V
		for _, k := range sortedKeys(f.slots) {
			r = append(r, f.slots[k])
		}
		return list(r...)
	})
	// harness primitive: a list's elements in canonical order
	prim("canon!", "1", func(in *Interp, a []V, env *MEnv) V {
		l := arr(a[0])
		var s []string
		for _, e := range l {
			s = append(s, mShow(e))
		}
		sort.Strings(s)
		return &MStr{s: strings.Join(s, "\n")}
	})
}

func (in *Interp) callFnSuper(f *MFn, args []V, argEnv *MEnv, recv *MFrame) V {
	le := &MEnv{name: f.name, parent: f.env, frame: f.env.frame, vars: map[string]*MBinding{}, restr: f.env.restr, super: recv}
	if f.slot {
		le.vars["self"] = &MBinding{val: recv}
	}
	in.bindParams(f.params, f.req, f.vararg, args, argEnv, le, false)
	return in.body(arr(f.body), le)
}
