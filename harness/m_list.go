package main

import "strings"

// List primitives of the model.

func intArg(v V, what string) int64 {
	n, ok := v.(int64)
	if !ok {
		lispErr("%s must be an integer", what)
	}
	return n
}

func isFn(v V) bool {
	switch v.(type) {
	case *MFn, *MPrim:
		return true
	}
	return false
}

func path(v V, p string) V {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == 'a' {
			v = car(v)
		} else {
			v = cdr(v)
		}
	}
	return v
}

// nthV: 1-based, nil outside
func nthV(l V, n int64) V {
	if n < 1 || n > maxLen {
		return nil
	}
	for ; n > 1 && l != nil; n-- {
		l = cdr(l)
	}
	return car(l)
}

func mustList(v V, what string) []V {
	if !isListP(v) {
		lispErr("%s must be a list", what)
	}
	return arr(v)
}

func (in *Interp) mapArgs(a []V, what string, emptyStops bool) (cols [][]V, n int, empty bool) {
	if !isFn(a[0]) {
		lispErr("%s needs a function", what)
	}
	n = -1
	for _, c := range a[1:] {
		l := mustList(c, what)
		if len(l) == 0 && emptyStops {
			return nil, 0, true
		}
		if n < 0 || len(l) < n {
			n = len(l)
		}
		cols = append(cols, l)
	}
	return
}

func row(cols [][]V, i int) []V {
	r := make([]V, len(cols))
	for k := range cols {
		r[k] = cols[k][i]
	}
	return r
}

func (in *Interp) pred(f V, x V, env *MEnv, what string) bool {
	r := in.applyV(f, []V{x}, env)
	b, ok := r.(bool)
	if !ok {
		lispErr("%s needs a predicate", what)
	}
	return b
}

// mAssoc finds the first entry of al whose key equals k.
func mAssoc(k V, al V) *Pair {
	n := 0
	for al != nil {
		p, ok := al.(*Pair)
		if !ok || p.kind == kCell {
			unspec("alist is not a list")
		}
		e, ok := p.car.(*Pair)
		if !ok && p.car != nil {
			lispErr("alist entry is not a pair")
		}
		if p.car == nil {
			unspec("empty list as alist entry")
		}
		unspecIf(e.kind == kAlist, "alist as alist entry")
		if mEqual(e.car, k, 0) {
			return e
		}
		al = p.cdr
		if n++; n > maxLen {
			unspec("cyclic alist")
		}
	}
	return nil
}

func mAcons(k, v V, al V) V {
	// entries after a malformed one are not searched
	for _, e := range arr(al) {
		if _, ok := e.(*Pair); !ok {
			unspec("acons onto something that is not an alist")
		}
	}
	if p := mAssoc(k, al); p != nil {
		p.cdr = v
		noCycle(al)
		return al
	}
	return &Pair{&Pair{k, v, kCell}, al, kAlist}
}

func uniqueKeys(al []V) {
	for _, e := range al {
		if p, ok := e.(*Pair); ok && p.kind == kAlist {
			unspec("alist as alist entry")
		}
	}
	for i := range al {
		for j := 0; j < i; j++ {
			if mEqual(car(al[i]), car(al[j]), 0) {
				unspec("duplicate keys")
			}
		}
	}
}

func init() {
	for _, p := range []string{"a", "d", "aa", "ad", "da", "dd", "aaa", "aad", "ada", "add", "daa", "dad", "dda", "ddd",
		"aaaa", "aaad", "aada", "aadd", "adaa", "adad", "adda", "addd", "daaa", "daad", "dada", "dadd", "ddaa", "ddad", "ddda", "dddd"} {
		p := p
		prim("c"+p+"r", "1", func(in *Interp, a []V, env *MEnv) V { return path(a[0], p) })
	}
	prim("head", "1", func(in *Interp, a []V, env *MEnv) V { return car(a[0]) })
	prim("rest tail", "1", func(in *Interp, a []V, env *MEnv) V { return cdr(a[0]) })
	for i, n := range []string{"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"} {
		i := int64(i + 1)
		prim(n, "1", func(in *Interp, a []V, env *MEnv) V { return nthV(a[0], i) })
	}
	prim("general-car-cdr", "2", func(in *Interp, a []V, env *MEnv) V {
		n, ok := a[1].(int64)
		if !ok {
			unspec("general-car-cdr path")
		}
		if n <= 0 {
			lispErr("general-car-cdr path")
		}
		l := a[0]
		for n != 1 {
			if n&1 == 0 {
				l = cdr(l)
			} else {
				l = car(l)
			}
			n >>= 1
		}
		return l
	})
	prim("nth", "2", func(in *Interp, a []V, env *MEnv) V {
		if !isPair(a[0]) {
			lispErr("nth")
		}
		return nthV(a[0], intArg(a[1], "index"))
	})
	prim("list-ref", "2", func(in *Interp, a []V, env *MEnv) V {
		if !isPair(a[0]) {
			lispErr("list-ref")
		}
		n := intArg(a[1], "index")
		if n < 0 || n > maxLen {
			return nil
		}
		return nthV(a[0], n+1)
	})
	take := func(n int64, l V) V {
		es := arr(l)
		if n < 0 {
			n = 0
		}
		if n > int64(len(es)) {
			n = int64(len(es))
		}
		return list(es[:n]...)
	}
	drop := func(n int64, l V) V {
		arr(l)
		for ; n > 0 && l != nil; n-- {
			l = cdr(l)
		}
		return l
	}
	prim("take", "2", func(in *Interp, a []V, env *MEnv) V {
		n := intArg(a[0], "take")
		if b, ok := a[1].(*MBytes); ok {
			n = clamp(n, 0, int64(len(b.b)))
			return &MBytes{append([]byte{}, b.b[:n]...)}
		}
		if !isListP(a[1]) {
			lispErr("take")
		}
		return take(n, a[1])
	})
	prim("drop", "2", func(in *Interp, a []V, env *MEnv) V {
		n := intArg(a[0], "drop")
		if b, ok := a[1].(*MBytes); ok {
			n = clamp(n, 0, int64(len(b.b)))
			return &MBytes{append([]byte{}, b.b[n:]...)}
		}
		if !isListP(a[1]) {
			lispErr("drop")
		}
		return drop(n, a[1])
	})
	prim("list-head", "2", func(in *Interp, a []V, env *MEnv) V {
		n := intArg(a[1], "list-head")
		if !isListP(a[0]) {
			lispErr("list-head")
		}
		return take(n, a[0])
	})
	prim("list-tail", "2", func(in *Interp, a []V, env *MEnv) V {
		n := intArg(a[1], "list-tail")
		if !isListP(a[0]) {
			lispErr("list-tail")
		}
		return drop(n, a[0])
	})
	prim("last-pair", "1", func(in *Interp, a []V, env *MEnv) V {
		if a[0] == nil || !isListP(a[0]) {
			lispErr("last-pair")
		}
		unspecIf(isAlist(a[0]), "last-pair of an alist")
		l := a[0].(*Pair)
		for n := 0; ; n++ {
			q, ok := l.cdr.(*Pair)
			if !ok || q.kind != kCons {
				return l
			}
			if n > maxLen {
				unspec("cyclic")
			}
			l = q
		}
	})

	// ---- construction ----
	prim("list", "*", func(in *Interp, a []V, env *MEnv) V { return list(a...) })
	prim("make-list", "1|2", func(in *Interp, a []V, env *MEnv) V {
		k := intArg(a[0], "make-list")
		if k < 0 {
			lispErr("make-list")
		}
		if k > 5000 {
			unspec("huge list")
		}
		es := make([]V, k)
		for i := range es {
			es[i] = at(a, 1)
		}
		return list(es...)
	})
	prim("length", "1", func(in *Interp, a []V, env *MEnv) V {
		switch x := a[0].(type) {
		case *Pair:
			return int64(len(arr(x)))
		case *MBytes:
			return int64(len(x.b))
		case *MFrame:
			return int64(len(x.slots))
		}
		return int64(0)
	})
	prim("cons", "2", func(in *Interp, a []V, env *MEnv) V { return cons(a[0], a[1]) })
	prim("cons*", ">=1", func(in *Interp, a []V, env *MEnv) V { return listTail(a[:len(a)-1], a[len(a)-1]) })
	prim("reverse", "1", func(in *Interp, a []V, env *MEnv) V {
		if !isListP(a[0]) {
			return a[0]
		}
		var r V
		for _, e := range arr(a[0]) {
			r = cons(e, r)
		}
		return r
	})
	proper := func(v V, what string) {
		for n := 0; v != nil; n++ {
			p, ok := v.(*Pair)
			if !ok || p.kind == kCell {
				lispErr(what + " of an improper list")
			}
			if n > maxLen {
				unspec("cyclic or huge list")
			}
			v = p.cdr
		}
	}
	flat := func(v V) []V {
		var r []V
		proper(v, "flatten")
		for _, e := range arr(v) {
			if e == nil {
				unspec("flatten with an empty list inside")
			}
			if isListP(e) {
				proper(e, "flatten")
				r = append(r, arr(e)...)
			} else {
				r = append(r, e)
			}
		}
		return r
	}
	prim("flatten", "1", func(in *Interp, a []V, env *MEnv) V {
		if !isListP(a[0]) {
			return a[0]
		}
		return list(flat(a[0])...)
	})
	var rflat func(v V, d int) []V
	rflat = func(v V, d int) []V {
		if d > 300 {
			unspec("deep")
		}
		var r []V
		proper(v, "flatten*")
		for _, e := range arr(v) {
			if e == nil {
				unspec("flatten with an empty list inside")
			}
			if isListP(e) {
				r = append(r, rflat(e, d+1)...)
			} else {
				r = append(r, e)
			}
		}
		return r
	}
	prim("flatten*", "1", func(in *Interp, a []V, env *MEnv) V {
		if !isListP(a[0]) {
			return a[0]
		}
		return list(rflat(a[0], 0)...)
	})
	prim("append", "*", func(in *Interp, a []V, env *MEnv) V {
		var r []V
		for _, e := range a {
			if isListP(e) {
				r = append(r, arr(e)...)
			} else {
				r = append(r, e)
			}
		}
		return list(r...)
	})
	form("append!", "2", func(in *Interp, a []V, env *MEnv) V {
		l := in.eval(a[0], env)
		s := in.eval(a[1], env)
		if !isListP(l) {
			lispErr("append! needs a list")
		}
		unspecIf(l != nil && isAlist(l), "append! to an alist")
		tail := s
		if !isListP(s) {
			tail = list(s)
		}
		r := l
		if l == nil {
			r = tail
		} else {
			if !properList(l) {
				lispErr("append! needs a proper list")
			}
			c := l.(*Pair)
			for c.cdr != nil {
				c = c.cdr.(*Pair)
			}
			c.cdr = tail
			noCycle(l)
		}
		if n, ok := a[0].(Sym); ok {
			in.set(env, n, r)
		}
		return r
	})
	prim("copy", "1", func(in *Interp, a []V, env *MEnv) V { return mCopy(a[0], 0) })
	prim("partition", "2", func(in *Interp, a []V, env *MEnv) V {
		n, isInt := a[0].(int64)
		if !isInt && !isFn(a[0]) {
			lispErr("partition")
		}
		l := mustList(a[1], "partition")
		if isInt {
			if n < 1 {
				lispErr("partition size")
			}
			var r []V
			for len(l) > 0 {
				k := int64(len(l))
				if n < k {
					k = n
				}
				r = append(r, list(l[:k]...))
				l = l[k:]
			}
			return list(r...)
		}
		var t, f []V
		for _, e := range l {
			if truthy(in.applyV(a[0], []V{e}, env)) {
				t = append(t, e)
			} else {
				f = append(f, e)
			}
		}
		return list(list(t...), list(f...))
	})
	prim("sublist", "3", func(in *Interp, a []V, env *MEnv) V {
		l := mustList(a[0], "sublist")
		f := intArg(a[1], "start")
		if f <= 0 {
			lispErr("sublist start")
		}
		e := intArg(a[2], "end")
		if e <= 0 {
			lispErr("sublist end")
		}
		if f >= e {
			return nil
		}
		n := int64(len(l))
		if f > n {
			return nil
		}
		if e > n+1 {
			e = n + 1
		}
		return list(l[f-1 : e-1]...)
	})
	prim("sort", "2", func(in *Interp, a []V, env *MEnv) V {
		l := mustList(a[0], "sort")
		if !isFn(a[1]) {
			lispErr("sort")
		}
		t0 := len(in.trace)
		less := func(x, y V) (r bool) {
			v, err := in.try(func() V { return in.applyV(a[1], []V{x, y}, env) })
			if err != nil {
				if in.incomparable(a[1], l, env, err.msg) {
					panic(*err)
				}
				unspec("failing comparison")
			}
			return truthy(v)
		}
		s := append([]V{}, l...)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(s[j], s[j-1]); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		// the order is determined only where the comparison is a strict order
		for i := 0; i+1 < len(s); i++ {
			if !less(s[i], s[i+1]) && !mEqual(s[i], s[i+1], 0) {
				unspec("sort with ties")
			}
			if less(s[i+1], s[i]) {
				unspec("not an order")
			}
		}
		if len(in.trace) != t0 {
			unspec("comparison with side effects")
		}
		return list(s...)
	})

	// ---- higher order ----
	prim("map", ">=2", func(in *Interp, a []V, env *MEnv) V {
		cols, n, empty := in.mapArgs(a, "map", true)
		if empty {
			return nil
		}
		r := make([]V, 0, n)
		for i := 0; i < n; i++ {
			r = append(r, in.applyV(a[0], row(cols, i), env))
		}
		return list(r...)
	})
	prim("for-each", ">=2", func(in *Interp, a []V, env *MEnv) V {
		cols, n, _ := in.mapArgs(a, "for-each", false)
		for i := 0; i < n; i++ {
			for k, l := range a[1:] {
				now := arr(l)
				if len(now) != len(cols[k]) {
					unspec("list changed while iterated")
				}
				for j := range now {
					if now[j] != cols[k][j] {
						unspec("list changed while iterated")
					}
				}
			}
			in.applyV(a[0], row(cols, i), env)
		}
		return nil
	})
	prim("any", ">=2", func(in *Interp, a []V, env *MEnv) V {
		cols, n, _ := in.mapArgs(a, "any", false)
		for i := 0; i < n; i++ {
			if truthy(in.applyV(a[0], row(cols, i), env)) {
				return true
			}
		}
		return false
	})
	prim("every", ">=2", func(in *Interp, a []V, env *MEnv) V {
		cols, n, _ := in.mapArgs(a, "every", false)
		for i := 0; i < n; i++ {
			if !truthy(in.applyV(a[0], row(cols, i), env)) {
				return false
			}
		}
		return true
	})
	foldArgs := func(a []V) []V {
		if !isFn(a[0]) {
			lispErr("reduce/fold needs a function")
		}
		return mustList(a[2], "reduce/fold")
	}
	foldl := func(in *Interp, f, acc V, l []V, env *MEnv) V {
		for _, e := range l {
			acc = in.applyV(f, []V{acc, e}, env)
		}
		return acc
	}
	foldr := func(in *Interp, f, acc V, l []V, env *MEnv) V {
		for i := len(l) - 1; i >= 0; i-- {
			acc = in.applyV(f, []V{l[i], acc}, env)
		}
		return acc
	}
	prim("reduce reduce-left", "3", func(in *Interp, a []V, env *MEnv) V {
		l := foldArgs(a)
		if len(l) == 0 {
			return a[1]
		}
		return foldl(in, a[0], l[0], l[1:], env)
	})
	prim("reduce-right", "3", func(in *Interp, a []V, env *MEnv) V {
		l := foldArgs(a)
		if len(l) == 0 {
			return a[1]
		}
		return foldr(in, a[0], l[len(l)-1], l[:len(l)-1], env)
	})
	prim("fold-left", "3", func(in *Interp, a []V, env *MEnv) V { return foldl(in, a[0], a[1], foldArgs(a), env) })
	prim("fold-right", "3", func(in *Interp, a []V, env *MEnv) V { return foldr(in, a[0], a[1], foldArgs(a), env) })
	filter := func(in *Interp, a []V, env *MEnv, keep bool, what string) V {
		if !isFn(a[0]) {
			lispErr("%s needs a function", what)
		}
		var r []V
		for _, e := range mustList(a[1], what) {
			if in.pred(a[0], e, env, what) == keep {
				r = append(r, e)
			}
		}
		return list(r...)
	}
	prim("filter", "2", func(in *Interp, a []V, env *MEnv) V { return filter(in, a, env, true, "filter") })
	prim("remove", "2", func(in *Interp, a []V, env *MEnv) V { return filter(in, a, env, false, "remove") })
	prim("memq memv member", "2", func(in *Interp, a []V, env *MEnv) V {
		if !isListP(a[1]) {
			unspec("member of a non-list")
		}
		n := 0
		for c := a[1]; c != nil; c = cdr(c) {
			if _, ok := c.(*Pair); !ok || n > maxLen {
				unspec("improper or cyclic list")
			}
			if mEqual(a[0], car(c), 0) {
				return c
			}
			n++
		}
		return false
	})
	findCell := func(in *Interp, a []V, env *MEnv, what string) V {
		if !isFn(a[0]) {
			lispErr("%s needs a function", what)
		}
		mustList(a[1], what)
		for c := a[1]; c != nil; c = cdr(c) {
			if in.pred(a[0], car(c), env, what) {
				return c
			}
		}
		return nil
	}
	prim("memp find-tail", "2", func(in *Interp, a []V, env *MEnv) V {
		if c := findCell(in, a, env, "find-tail"); c != nil {
			return c
		}
		return false
	})
	prim("find", "2", func(in *Interp, a []V, env *MEnv) V {
		if c := findCell(in, a, env, "find"); c != nil {
			return car(c)
		}
		return false
	})

	// ---- sets ----
	has := func(x V, l []V) bool {
		for _, e := range l {
			if mEqual(x, e, 0) {
				return true
			}
		}
		return false
	}
	plain := func(l []V) {
		for _, e := range l {
			if containsNaN(e) {
				unspec("NaN in a set")
			}
		}
	}
	prim("union", "*", func(in *Interp, a []V, env *MEnv) V {
		var r []V
		for _, l := range a {
			es := mustList(l, "union")
			plain(es)
			for _, e := range es {
				if !has(e, r) {
					r = append(r, e)
				}
			}
		}
		return list(r...)
	})
	restrict := func(what string, in_ bool) {
		prim(what, "*", func(in *Interp, a []V, env *MEnv) V {
			if len(a) == 0 {
				return nil
			}
			r := mustList(a[0], what)
			unspecIf(a[0] != nil && isAlist(a[0]), "set operation on an alist")
			plain(r)
			for _, l := range a[1:] {
				es := mustList(l, what)
				var keep []V
				for _, e := range r {
					if has(e, es) == in_ {
						keep = append(keep, e)
					}
				}
				r = keep
			}
			return list(r...)
		})
	}
	restrict("intersection", true)
	restrict("complement", false)

	// ---- alists ----
	prim("acons", "2|3", func(in *Interp, a []V, env *MEnv) V {
		if isPair(a[0]) {
			lispErr("acons key")
		}
		al := at(a, 2)
		unspecIf(!isListP(al), "acons onto a non-list")
		return mAcons(a[0], a[1], al)
	})
	prim("pairlis", "2|3", func(in *Interp, a []V, env *MEnv) V {
		if !isPair(a[0]) || !isPair(a[1]) {
			lispErr("pairlis")
		}
		ks, vs := arr(a[0]), arr(a[1])
		if len(ks) != len(vs) {
			lispErr("pairlis lengths")
		}
		r := at(a, 2)
		if r != nil && !isPair(r) {
			lispErr("pairlis alist")
		}
		bad := false
		for i, k := range ks {
			if k == nil {
				bad = true
			}
			r = mAcons(k, vs[i], r)
		}
		if bad {
			lispErr("nil key")
		}
		return r
	})
	prim("assq assv assoc", "2", func(in *Interp, a []V, env *MEnv) V {
		unspecIf(!isListP(a[1]), "assoc in a non-list")
		if p := mAssoc(a[0], a[1]); p != nil {
			return p
		}
		return nil
	})
	prim("rassoc", "2", func(in *Interp, a []V, env *MEnv) V {
		unspecIf(!isListP(a[1]), "rassoc in a non-list")
		for _, e := range arr(a[1]) {
			p, ok := e.(*Pair)
			if !ok {
				if e == nil {
					unspec("empty entry")
				}
				lispErr("rassoc entry")
			}
			unspecIf(p.kind == kAlist, "alist as alist entry")
			if mEqual(p.cdr, a[0], 0) {
				return p
			}
		}
		return nil
	})
	prim("dissoc", "2", func(in *Interp, a []V, env *MEnv) V {
		unspecIf(!isListP(a[1]), "dissoc in a non-list")
		es := arr(a[1])
		for _, e := range es {
			if e == nil {
				unspec("empty entry")
			}
			if _, ok := e.(*Pair); !ok {
				lispErr("dissoc entry")
			}
		}
		uniqueKeys(es)
		var r V
		for _, e := range es {
			if !mEqual(car(e), a[0], 0) {
				r = mAcons(car(e), cdr(e), r)
			}
		}
		return r
	})
	prim("alist", "1", func(in *Interp, a []V, env *MEnv) V {
		switch {
		case a[0] == nil:
			return nil
		case isPair(a[0]):
			es := arr(a[0])
			for _, e := range es {
				if _, ok := e.(*Pair); !ok {
					unspec("alist of non-pairs")
				}
			}
			uniqueKeys(es)
			var r V
			for i := len(es) - 1; i >= 0; i-- {
				r = mAcons(car(es[i]), cdr(es[i]), r)
			}
			return r
		}
		return a[0]
	})

	// ---- predicates and comparison ----
	is := func(names string, f func(v V) bool) {
		prim(names, "1", func(in *Interp, a []V, env *MEnv) V { return f(a[0]) })
	}
	is("atom?", func(v V) bool {
		switch v.(type) {
		case int64, float32, Sym, *MStr, bool:
			return true
		}
		return false
	})
	is("list? pair?", isPair)
	is("alist?", func(v V) bool {
		if v == nil {
			unspec("alist? of the empty list")
		}
		return isAlist(v)
	})
	is("nil? null?", func(v V) bool { return v == nil })
	is("notnil? notnull?", func(v V) bool { return v != nil })
	is("symbol?", func(v V) bool { _, ok := v.(Sym); return ok })
	is("string?", func(v V) bool { _, ok := v.(*MStr); return ok })
	is("integer?", func(v V) bool { _, ok := v.(int64); return ok })
	is("float?", func(v V) bool { _, ok := v.(float32); return ok })
	is("number?", isNum)
	is("function?", isFn)
	is("macro?", func(v V) bool { _, ok := v.(*MMacro); return ok })
	is("frame?", func(v V) bool { _, ok := v.(*MFrame); return ok })
	is("bytearray?", func(v V) bool { _, ok := v.(*MBytes); return ok })
	is("boolean?", func(v V) bool { _, ok := v.(bool); return ok })
	is("port?", func(v V) bool { o, ok := v.(*MObj); return ok && o.kind == "port" })
	is("not !", func(v V) bool { return !truthy(v) })
	prim("== eqv? eq? equal?", "2", func(in *Interp, a []V, env *MEnv) V { return in.equal(a[0], a[1]) })
	prim("!= neq?", "2", func(in *Interp, a []V, env *MEnv) V { return !in.equal(a[0], a[1]) })
}

func clamp(n, lo, hi int64) int64 {
	if n < lo {
		return lo
	}
	if n > hi {
		return hi
	}
	return n
}

func isNum(v V) bool {
	switch v.(type) {
	case int64, float32:
		return true
	}
	return false
}

func containsNaN(v V) bool { return hasNaN(v, 0) }

func hasNaN(v V, depth int) bool {
	if depth > 300 {
		unspec("deep or cyclic")
	}
	for n := 0; n < maxLen; n++ {
		switch x := v.(type) {
		case float32:
			return x != x
		case *Pair:
			if hasNaN(x.car, depth+1) {
				return true
			}
			v = x.cdr
			continue
		}
		return false
	}
	return false
}

// incomparable tells whether some element can't be compared with any other one:
// whatever the order in which a sort compares, it fails. The comparison must
// have no effects, since how often it is called is not determined.
func (in *Interp) incomparable(f V, l []V, env *MEnv, msg string) bool {
	switch fn := f.(type) {
	case *MFn:
		if !pureBody(fn.body) {
			return false
		}
	case *MPrim:
		// with two elements it doesn't matter which the first comparison is
		if len(l) != 2 && !strings.Contains(" < > <= >= string<? string>? ", " "+fn.name+" ") {
			return false
		}
	default:
		return false
	}
	fails := func(x, y V) bool {
		_, err := in.try(func() V { return in.applyV(f, []V{x, y}, env) })
		return err != nil && err.msg == msg
	}
next:
	for i, x := range l {
		for j, y := range l {
			if i != j && (!fails(x, y) || !fails(y, x)) {
				continue next
			}
		}
		return true
	}
	return false
}

// pureBody tells whether code consists of a few operations without effects.
func pureBody(v V) bool {
	switch p := v.(type) {
	case *Pair:
		for _, x := range arr(p) {
			if !pureBody(x) {
				return false
			}
		}
		return true
	case Sym:
		return strings.Contains(" if or and not == < > <= >= error list car cdr q r + - str equal? string? integer? ", " "+string(p)+" ")
	}
	return true
}
