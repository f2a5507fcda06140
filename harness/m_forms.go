package main

// Special forms of the model.

func symList(v V) bool { _, ok := v.(Sym); return ok }

func at(a []V, i int) V {
	if i < len(a) {
		return a[i]
	}
	return nil
}

// quoteIt makes an expression whose value is v.
// stageArgument: the stages of a chain are expressions, macro calls too, so the
// value is passed as a quotation, which is not one where quote means something else.
func (in *Interp) stageArgument(v V, env *MEnv) V {
	if b := env.find("quote"); b == nil || !b.prot {
		unspec("a chain where quote is rebound")
	}
	return quoteIt(v)
}

func quoteIt(v V) V { return list(Sym("quote"), v) }

func (in *Interp) mkFn(name string, params, body V, env *MEnv) *MFn {
	n, va := countParams(params)
	return &MFn{name: name, params: params, body: body, env: env, req: n, vararg: va}
}

func letBindings(v V) [][2]V {
	if !isPair(v) {
		lispErr("bindings must be a list")
	}
	var r [][2]V
	for _, b := range arr(v) {
		if !isPair(b) {
			lispErr("binding must be a pair")
		}
		if _, ok := car(b).(Sym); !ok {
			lispErr("binding name")
		}
		r = append(r, [2]V{car(b), car(cdr(b))})
	}
	return r
}

func init() {
	form("quote", "1", func(in *Interp, a []V, env *MEnv) V { return a[0] })
	form("if", "2|3", func(in *Interp, a []V, env *MEnv) V {
		if truthy(in.eval(a[0], env)) {
			return in.eval(a[1], env)
		}
		return in.eval(at(a, 2), env)
	})
	form("cond", "*", func(in *Interp, a []V, env *MEnv) V {
		for _, c := range a {
			if !isPair(c) {
				lispErr("cond clause")
			}
			if car(c) == V(Sym("else")) {
				return in.body(arr(cdr(c)), env)
			}
			if truthy(in.eval(car(c), env)) {
				return in.body(arr(cdr(c)), env)
			}
		}
		return nil
	})
	form("case", ">=1", func(in *Interp, a []V, env *MEnv) V {
		k := in.eval(a[0], env)
		for _, c := range a[1:] {
			if !isPair(c) {
				lispErr("case clause")
			}
			if car(c) == V(Sym("else")) {
				return in.body(arr(cdr(c)), env)
			}
			if !isListP(car(c)) {
				lispErr("case keys")
			}
			for _, w := range arr(car(c)) {
				if in.equal(w, k) {
					return in.body(arr(cdr(c)), env)
				}
			}
		}
		return nil
	})
	form("time", "1", func(in *Interp, a []V, env *MEnv) V { // the time is never looked at
		in.eval(a[0], env)
		return int64(0)
	})
	form("when", ">=2", func(in *Interp, a []V, env *MEnv) V {
		if truthy(in.eval(a[0], env)) {
			return in.body(a[1:], env)
		}
		return nil
	})
	form("unless", ">=2", func(in *Interp, a []V, env *MEnv) V {
		if !truthy(in.eval(a[0], env)) {
			return in.body(a[1:], env)
		}
		return nil
	})
	form("begin", "*", func(in *Interp, a []V, env *MEnv) V { return in.body(a, env) })
	form("and", "*", func(in *Interp, a []V, env *MEnv) V {
		var r V
		for _, f := range a {
			r = in.eval(f, env)
			if !truthy(r) {
				return r
			}
		}
		return r
	})
	form("or", "*", func(in *Interp, a []V, env *MEnv) V {
		var r V
		for _, f := range a {
			r = in.eval(f, env)
			if truthy(r) {
				return r
			}
		}
		return r
	})
	form("lambda", ">=1", func(in *Interp, a []V, env *MEnv) V {
		if !isPair(a[0]) {
			lispErr("lambda parameters")
		}
		return in.mkFn("unnamed", a[0], list(a[1:]...), env)
	})
	form("named-lambda", ">=1", func(in *Interp, a []V, env *MEnv) V {
		if !isPair(a[0]) {
			lispErr("named-lambda")
		}
		n, ok := car(a[0]).(Sym)
		if !ok {
			lispErr("named-lambda name")
		}
		return in.mkFn(string(n), cdr(a[0]), list(a[1:]...), env)
	})
	form("define", ">=1", func(in *Interp, a []V, env *MEnv) V {
		switch t := a[0].(type) {
		case Sym:
			v := in.eval(at(a, 1), env)
			in.bindLocal(env, t, v)
			return v
		case *Pair:
			if t.kind != kCons {
				lispErr("invalid definition")
			}
			n, ok := t.car.(Sym)
			if !ok {
				lispErr("function name")
			}
			if _, ok := in.lookup(n, env, false).(*MPrim); ok {
				lispErr("primitive cannot be redefined")
			}
			f := in.mkFn(string(n), t.cdr, list(a[1:]...), env)
			in.bindLocal(env, n, f)
			return f
		case nil:
			return lispErr("function name")
		}
		return lispErr("invalid definition")
	})
	form("defmacro", ">=1", func(in *Interp, a []V, env *MEnv) V {
		t, ok := a[0].(*Pair)
		if !ok || t.kind != kCons {
			return lispErr("macro definition")
		}
		n, ok := t.car.(Sym)
		if !ok {
			lispErr("macro name")
		}
		req, va := countParams(t.cdr)
		m := &MMacro{name: string(n), params: t.cdr, body: at(a, 1), env: env, req: req, vararg: va}
		in.bindLocal(env, n, m)
		return m
	})
	let := func(in *Interp, a []V, env *MEnv, seq, rec bool) V {
		bs := letBindings(a[0])
		le := newEnvBelow(env, "let")
		le.prev = env
		ee := env
		if seq || rec {
			ee = le
		}
		if rec {
			for _, b := range bs {
				in.bindLocal(le, b[0], nil)
			}
		}
		for _, b := range bs {
			in.bindLocal(le, b[0], in.eval(b[1], ee))
		}
		return in.body(a[1:], le)
	}
	form("let", ">=1", func(in *Interp, a []V, env *MEnv) V {
		n, ok := a[0].(Sym)
		if !ok {
			return let(in, a, env, false, false)
		}
		if !isPair(at(a, 1)) {
			lispErr("named let bindings")
		}
		var vars, inits []V
		for _, b := range arr(at(a, 1)) {
			if _, ok := car(b).(Sym); !ok {
				lispErr("named let variable")
			}
			vars = append(vars, car(b))
			inits = append(inits, car(cdr(b)))
		}
		le := newEnvBelow(env, string(n))
		le.prev = env
		var body V
		if len(a) > 2 {
			body = list(a[2:]...)
		}
		f := in.mkFn(string(n), list(vars...), body, le)
		in.bindLocal(le, n, f)
		return in.callFn(f, inits, env, nil, true)
	})
	form("let*", ">=1", func(in *Interp, a []V, env *MEnv) V { return let(in, a, env, true, false) })
	form("letrec", ">=1", func(in *Interp, a []V, env *MEnv) V { return let(in, a, env, false, true) })
	form("do", ">=2", func(in *Interp, a []V, env *MEnv) V {
		if !isPair(a[0]) {
			lispErr("do bindings")
		}
		if !isPair(a[1]) {
			lispErr("do test clause")
		}
		bs := letBindings(a[0])
		bl := arr(a[0])
		le := newEnvBelow(env, "do")
		le.prev = env
		for _, b := range bs {
			in.bindLocal(le, b[0], in.eval(b[1], env))
		}
		test := arr(a[1])
		for {
			in.tick()
			if truthy(in.eval(at(test, 0), le)) {
				if len(test) < 2 {
					unspec("do without a result expression")
				}
				return in.body(test[1:], le)
			}
			in.body(a[2:], le)
			var vals []V
			for _, b := range bl {
				st := car(cdr(cdr(b)))
				if st != nil {
					vals = append(vals, in.eval(st, le))
				} else {
					vals = append(vals, in.lookup(car(b).(Sym), le, false))
				}
			}
			for i, b := range bl {
				in.bindLocal(le, car(b), vals[i])
			}
		}
	})
	prim("apply", ">=1", func(in *Interp, a []V, env *MEnv) V {
		switch a[0].(type) {
		case *MFn, *MPrim:
		default:
			lispErr("apply needs a function")
		}
		if len(a) < 2 {
			lispErr("apply needs an argument list")
		}
		last := a[len(a)-1]
		if !isListP(last) {
			lispErr("apply: last argument must be a list")
		}
		args := append(append([]V{}, a[1:len(a)-1]...), arr(last)...)
		return in.applyV(a[0], args, env)
	})
	chain := func(in *Interp, a []V, env *MEnv, tap bool) V {
		first := in.eval(a[0], env)
		v := first
		for _, s := range a[1:] {
			q := v
			switch x := v.(type) {
			case nil, *Pair:
				q = in.stageArgument(v, env)
			case Sym:
				if !x.naked() {
					q = in.stageArgument(v, env)
				}
			}
			var e V
			if isListP(s) {
				e = cons(car(s), cons(q, cdr(s)))
			} else {
				e = list(s, q)
			}
			r := in.eval(e, env)
			if !tap {
				v = r
			}
		}
		return v
	}
	form("->", ">=1", func(in *Interp, a []V, env *MEnv) V { return chain(in, a, env, false) })
	form("=>", ">=1", func(in *Interp, a []V, env *MEnv) V { return chain(in, a, env, true) })
	form("definition-of", "1", func(in *Interp, a []V, env *MEnv) V {
		name, ok := a[0].(Sym)
		if !ok {
			name = "anonymous"
		}
		f, ok := in.eval(a[0], env).(*MFn)
		if !ok {
			return lispErr("definition-of needs a function")
		}
		if f.name == "unnamed" {
			return list(Sym("define"), name, cons(Sym("lambda"), cons(f.params, f.body)))
		}
		return cons(Sym("define"), cons(cons(Sym(f.name), f.params), f.body))
	})
	form("set!", "2", func(in *Interp, a []V, env *MEnv) V {
		n, ok := a[0].(Sym)
		if !ok {
			lispErr("set! needs a symbol")
		}
		v := in.eval(a[1], env)
		in.set(env, n, v)
		return v
	})
	mutCell := func(in *Interp, v V, what string) *Pair {
		p, ok := v.(*Pair)
		if !ok {
			lispErr("%s needs a pair", what)
		}
		if p.kind != kCons {
			unspec("mutating an alist")
		}
		return p
	}
	form("set-car!", "2", func(in *Interp, a []V, env *MEnv) V {
		l := in.eval(a[0], env)
		p := mutCell(in, l, "set-car!")
		v := in.eval(a[1], env)
		p.car = v
		noCycle(p)
		return v
	})
	form("set-cdr!", "2", func(in *Interp, a []V, env *MEnv) V {
		l := in.eval(a[0], env)
		p := mutCell(in, l, "set-cdr!")
		v := in.eval(a[1], env)
		p.cdr = v
		noCycle(p)
		return v
	})
	form("set-nth!", "3", func(in *Interp, a []V, env *MEnv) V {
		l := in.eval(a[0], env)
		if !isPair(l) {
			lispErr("set-nth! needs a list")
		}
		n := in.eval(a[1], env)
		i, ok := n.(int64)
		if !ok {
			lispErr("set-nth! needs an integer")
		}
		v := in.eval(a[2], env)
		if i < 1 || i > int64(len(arr(l))) {
			return v
		}
		c := l
		for ; i > 1; i-- {
			c = cdr(c)
		}
		c.(*Pair).car = v
		noCycle(l)
		return v
	})

	// ---- quasiquote ----
	form("quasiquote", "1", func(in *Interp, a []V, env *MEnv) V {
		r := in.quasi(a[0], 1, env)
		if len(r) != 1 {
			unspec("splicing at the top of a template")
		}
		return r[0]
	})
	form("unquote unquote-splicing", "1", func(in *Interp, a []V, env *MEnv) V { return lispErr("unquote outside quasiquote") })
	form("expand", ">=1", func(in *Interp, a []V, env *MEnv) V {
		m, ok := in.eval(a[0], env).(*MMacro)
		if !ok {
			lispErr("expand needs a macro")
		}
		return in.expandMacro(m, a[1:], env)
	})

	// the observable side effect
	prim("emit!", ">=1", func(in *Interp, a []V, env *MEnv) V {
		in.trace = append(in.trace, mShow(list(a...)))
		return a[0]
	})
}

// quasi returns the elements the template contributes to its surrounding list.
func (in *Interp) quasi(t V, level int, env *MEnv) []V {
	p, ok := t.(*Pair)
	if !ok {
		return []V{t}
	}
	if p.kind != kCons {
		unspec("alist in template")
	}
	one := func(v V, lv int) V {
		r := in.quasi(v, lv, env)
		if len(r) != 1 {
			unspec("splice inside unquote")
		}
		return r[0]
	}
	s, _ := p.car.(Sym)
	switch s {
	case "quasiquote", "unquote", "unquote-splicing":
		if q, ok := p.cdr.(*Pair); !ok || q.cdr != nil {
			unspec("malformed %s", s)
		}
	}
	arg := car(p.cdr)
	switch s {
	case "quasiquote":
		return []V{list(s, one(arg, level+1))}
	case "unquote":
		if level == 1 {
			// the operand of an unquote at level 1 is an expression
			if hasUnquote(arg) {
				unspec("unquote inside an unquoted expression")
			}
			return []V{in.eval(arg, env)}
		}
		return []V{list(s, one(arg, level-1))}
	case "unquote-splicing":
		if level == 1 {
			if hasUnquote(arg) {
				unspec("unquote inside an unquoted expression")
			}
			v := in.eval(arg, env)
			if v == nil {
				return nil
			}
			if !isPair(v) {
				unspec("splicing a non-list")
			}
			return arr(v)
		}
		return []V{list(s, one(arg, level-1))}
	}
	var out []V
	var cur V = p
	for cur != nil {
		q, ok := cur.(*Pair)
		if !ok {
			// dotted tail
			r := in.quasi(cur, level, env)
			return []V{listTail(out, r[0])}
		}
		if s, ok := q.car.(Sym); ok && q != p && (s == "unquote" || s == "unquote-splicing" || s == "quasiquote") {
			// (a . ,b) is (a unquote b)
			if r, ok := q.cdr.(*Pair); !ok || r.cdr != nil || s == "unquote-splicing" {
				unspec("malformed tail")
			}
			return []V{listTail(out, one(q, level))}
		}
		out = append(out, in.quasi(q.car, level, env)...)
		cur = q.cdr
	}
	return []V{list(out...)}
}

func hasUnquote(v V) bool {
	n := 0
	for {
		p, ok := v.(*Pair)
		if !ok {
			s, _ := v.(Sym)
			return s == "unquote" || s == "unquote-splicing" || s == "quasiquote"
		}
		if hasUnquote(p.car) {
			return true
		}
		v = p.cdr
		if n++; n > maxLen {
			return false
		}
	}
}
