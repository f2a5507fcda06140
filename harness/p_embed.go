package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"unsafe"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

// ---- C30: embedding ----
//
// Three kinds of case: histories of calls of the exported functions on values,
// histories of calls on environments mixed with Lisp forms, and programs that
// go through functions written in Go.

type embOp struct {
	K       string
	A, B, C int    `json:",omitempty"`
	H       int    `json:",omitempty"`
	S       string `json:",omitempty"`
}

type embCase struct {
	Mode string
	Ops  []embOp   `json:",omitempty"`
	Prog *progCase `json:",omitempty"`
}

// ---- values ----

func lastCell(v V) *Pair {
	p, _ := v.(*Pair)
	for p != nil {
		n, ok := p.cdr.(*Pair)
		if !ok {
			return p
		}
		p = n
	}
	return nil
}

// reaches: cell c is part of v
func reaches(v V, c interface{}, seen map[interface{}]bool) bool {
	if v == nil {
		return false
	}
	switch x := v.(type) {
	case *Pair:
		if seen[x] {
			return false
		}
		seen[x] = true
		return x == c || reaches(x.car, c, seen) || reaches(x.cdr, c, seen)
	case *MFrame:
		if seen[x] {
			return false
		}
		seen[x] = true
		if x == c {
			return true
		}
		for _, w := range x.slots {
			if reaches(w, c, seen) {
				return true
			}
		}
	}
	return false
}

func plainList(v V) bool {
	if v == nil {
		return true
	}
	for v != nil {
		p, ok := v.(*Pair)
		if !ok || p.kind != kCons {
			return false
		}
		v = p.cdr
	}
	return true
}

func size(v V, n int) int {
	if n > 3000 {
		return n
	}
	switch x := v.(type) {
	case *Pair:
		return size(x.cdr, size(x.car, n+1))
	case *MFrame:
		for _, w := range x.slots {
			n = size(w, n+1)
		}
	}
	return n + 1
}

func checkAccess(d *D, v V) string {
	type pr struct {
		name     string
		got, exp bool
	}
	num := false
	ps := []pr{}
	add := func(n string, got, exp bool) { ps = append(ps, pr{n, got, exp}) }
	_, isInt := v.(int64)
	_, isFlo := v.(float32)
	bv, isBool := v.(bool)
	sv, isStr := v.(*MStr)
	yv, isSym := v.(Sym)
	fv, isFr := v.(*MFrame)
	by, isBytes := v.(*MBytes)
	pv, isPr := v.(*Pair)
	num = isInt || isFlo
	add("NilP", golisp.NilP(d), v == nil)
	add("NotNilP", golisp.NotNilP(d), v != nil)
	add("IntegerP", golisp.IntegerP(d), isInt)
	add("FloatP", golisp.FloatP(d), isFlo)
	add("NumberP", golisp.NumberP(d), num)
	add("BooleanP", golisp.BooleanP(d), isBool)
	add("StringP", golisp.StringP(d), isStr)
	add("SymbolP", golisp.SymbolP(d), isSym)
	add("NakedP", golisp.NakedP(d), isSym && strings.HasSuffix(string(yv), ":"))
	add("FrameP", golisp.FrameP(d), isFr)
	add("ObjectP", golisp.ObjectP(d), isBytes)
	add("ListP", golisp.ListP(d), v == nil || isPr && pv.kind != kCell)
	add("PairP", golisp.PairP(d), v == nil || isPr && pv.kind == kCons)
	if v != nil {
		add("AlistP", golisp.AlistP(d), isPr && pv.kind == kAlist)
		add("DottedPairP", golisp.DottedPairP(d), isPr && pv.kind == kCell)
	}
	add("FunctionP", golisp.FunctionP(d), false)
	add("PrimitiveP", golisp.PrimitiveP(d), false)
	add("FunctionOrPrimitiveP", golisp.FunctionOrPrimitiveP(d), false)
	add("MacroP", golisp.MacroP(d), false)
	add("EnvironmentP", golisp.EnvironmentP(d), false)
	add("PortP", golisp.PortP(d), false)
	for _, p := range ps {
		if p.got != p.exp {
			return fmt.Sprintf("%s is %v", p.name, p.got)
		}
	}
	if b := golisp.BooleanValue(d); b != (v != nil && (!isBool || bv)) {
		return fmt.Sprintf("BooleanValue is %v", b)
	}
	str := ""
	switch {
	case isStr:
		str = sv.s
	case isSym:
		str = string(yv)
	}
	if s := golisp.StringValue(d); s != str {
		return fmt.Sprintf("StringValue is %q", s)
	}
	iv, flv := int64(0), float32(0)
	skipI := false
	switch x := v.(type) {
	case int64:
		iv, flv = x, float32(x)
	case float32:
		flv = x
		skipI = x != x || x > 1e9 || x < -1e9
		if !skipI {
			iv = int64(x)
		}
	}
	if n := golisp.IntegerValue(d); !skipI && n != iv {
		return fmt.Sprintf("IntegerValue is %d", n)
	}
	if f := golisp.FloatValue(d); math.Float32bits(f) != math.Float32bits(flv) && (f == f || flv == flv) {
		return fmt.Sprintf("FloatValue is %v", f)
	}
	if isBytes && string(*(*[]byte)(golisp.ObjectValue(d))) != string(by.b) || !isBytes && golisp.ObjectValue(d) != nil {
		return "ObjectValue is wrong"
	}
	if (golisp.FrameValue(d) != nil) != isFr {
		return "FrameValue is wrong"
	}
	n := 0
	switch {
	case isBytes:
		n = len(by.b)
	case isFr:
		n = len(fv.slots)
	case isPr && pv.kind != kCell && properList(v):
		n = len(arr(v))
	case isPr:
		n = golisp.Length(d)
	}
	if l := golisp.Length(d); l != n {
		return fmt.Sprintf("Length is %d", l)
	}
	if (golisp.ConsValue(d) != nil) != isPr && v != nil {
		return "ConsValue is wrong"
	}
	return ""
}

var cxr = map[string]func(*D) *D{
	"a": golisp.Car, "d": golisp.Cdr, "aa": golisp.Caar, "ad": golisp.Cadr, "da": golisp.Cdar, "dd": golisp.Cddr,
	"aaa": golisp.Caaar, "aad": golisp.Caadr, "ada": golisp.Cadar, "add": golisp.Caddr, "daa": golisp.Cdaar, "dad": golisp.Cdadr, "dda": golisp.Cddar, "ddd": golisp.Cdddr,
}
var cxrNames = []string{"a", "d", "aa", "ad", "da", "dd", "aaa", "aad", "ada", "add", "daa", "dad", "dda", "ddd"}
var nths = []func(*D) *D{golisp.First, golisp.Second, golisp.Third, golisp.Fourth, golisp.Fifth, golisp.Sixth, golisp.Seventh, golisp.Eighth, golisp.Ninth, golisp.Tenth}

func embValues(c *embCase, r *Rec) (err error) {
	resetReal()
	in := newInterp()
	var mv []V
	var rv []*D
	var log []string
	done := 0
	for _, o := range c.Ops {
		n := len(mv)
		var v V
		var d *D
		push := false
		a, b := 0, 0
		if n > 0 {
			a, b = o.A%n, o.B%n
		}
		if n == 0 && o.K != "datum" {
			continue
		}
		text := ""
		mismatch := ""
		isNewList := func() bool { return plainList(mv[a]) }
		skip := func() (skip bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(mUnspec); ok {
						skip = true
						return
					}
					if _, ok := e.(mErr); ok {
						skip = true
						return
					}
					panic(e)
				}
			}()
			switch o.K {
			case "datum":
				m, err := mParse(o.S)
				if err != nil {
					bugf("%q: %v", o.S, err)
				}
				v, d, push = in.eval(m, in.global), nil, true
				text = "toReal " + o.S
				d = toReal(v)
			case "cons":
				v, d, push = cons(mv[a], mv[b]), golisp.Cons(rv[a], rv[b]), true
				if rv[a] == nil {
					return true // a nil pointer is no element of a list
				}
				if p, ok := mv[b].(*Pair); ok && p.kind != kCons {
					return true
				}
				text = fmt.Sprintf("Cons(%d, %d)", a, b)
			case "list":
				vs, ds := []V{}, []*D{}
				for i := 0; i < 1+o.C%4; i++ {
					k := (a + i*(b+1)) % n
					vs, ds = append(vs, mv[k]), append(ds, rv[k])
				}
				if o.C%3 == 0 {
					v, d = list(vs...), golisp.ArrayToList(ds)
				} else if o.C%3 == 1 {
					v, d = list(vs...), golisp.InternalMakeList(ds...)
				} else {
					if p, ok := mv[b].(*Pair); ok && p.kind != kCons {
						return true
					}
					v, d = listTail(vs, mv[b]), golisp.ArrayToListWithTail(ds, rv[b])
				}
				push = true
				text = fmt.Sprintf("list of %d from %d by %d (%d)", len(vs), a, b+1, o.C%3)
			case "append":
				if !isNewList() || rv[b] == nil {
					return true
				}
				text = fmt.Sprintf("Append(%d, %d)", a, b)
				v, push = listTail(arr(mCopy(mv[a], 0)), cons(mv[b], nil)), true
				d = golisp.Append(rv[a], rv[b])
			case "appendlist":
				if !isNewList() || !plainList(mv[b]) {
					return true
				}
				text = fmt.Sprintf("AppendList(%d, %d)", a, b)
				v, push = listTail(arr(mCopy(mv[a], 0)), mv[b]), true
				d = golisp.AppendList(rv[a], rv[b])
			case "append!":
				if !isNewList() {
					return true
				}
				text = fmt.Sprintf("AppendBang(%d, %d)", a, b)
				if mv[a] == nil {
					v = cons(mv[b], nil)
				} else {
					l := lastCell(mv[a])
					if reaches(mv[b], l, map[interface{}]bool{}) {
						return true
					}
					l.cdr = cons(mv[b], nil)
					v = mv[a]
				}
				if rv[b] == nil {
					return true
				}
				d, push = golisp.AppendBang(rv[a], rv[b]), true
			case "appendlist!":
				if !isNewList() || !plainList(mv[b]) {
					return true
				}
				text = fmt.Sprintf("AppendBangList(%d, %d)", a, b)
				if mv[a] == nil {
					v = mv[b]
				} else {
					l := lastCell(mv[a])
					if reaches(mv[b], l, map[interface{}]bool{}) {
						return true
					}
					l.cdr = mv[b]
					v = mv[a]
				}
				d, push = golisp.AppendBangList(rv[a], rv[b]), true
			case "remove!":
				if !isNewList() {
					return true
				}
				x := V(nil)
				if es := arr(mv[a]); len(es) > 0 {
					x = es[o.B%len(es)]
				}
				dx := toReal(x)
				if o.C%3 == 0 {
					x, dx = mv[b], rv[b]
				}
				if hasNaN(x, 0) || hasNaN(mv[a], 0) {
					return true
				}
				text = fmt.Sprintf("RemoveFromListBang(%d, %s)", a, mShow(x))
				var prev *Pair
				v = mv[a]
				for p, ok := mv[a].(*Pair); ok; p, ok = p.cdr.(*Pair) {
					if mEqual(x, p.car, 0) {
						if prev == nil {
							v = p.cdr
						} else {
							prev.cdr = p.cdr
						}
						break
					}
					prev = p
				}
				d, push = golisp.RemoveFromListBang(rv[a], dx), true
			case "acons":
				if !isAlist(mv[a]) || hasNaN(mv[b], 0) {
					return true
				}
				k := int64(o.C % 5)
				if p, ok := mv[a].(*Pair); ok {
					if reaches(mv[b], p, map[interface{}]bool{}) {
						return true
					}
					for _, e := range arr(mv[a]) {
						if reaches(mv[b], e, map[interface{}]bool{}) {
							return true
						}
					}
				}
				text = fmt.Sprintf("Acons(%d, #%d, #%d)", k, b, a)
				v = mAcons(k, mv[b], mv[a])
				d, push = golisp.Acons(golisp.IntegerWithValue(k), rv[b], rv[a]), true
			case "assoc":
				if !isAlist(mv[a]) || mv[a] == nil {
					return true
				}
				k := int64(o.C % 5)
				text = fmt.Sprintf("Assoc(%d, #%d)", k, a)
				if p := mAssoc(k, mv[a]); p != nil {
					v = p
				}
				var e error
				d, e = golisp.Assoc(golisp.IntegerWithValue(k), rv[a])
				if e != nil {
					mismatch = e.Error()
				}
				if mShow(v) != rShow(d) {
					mismatch = "gives " + rShow(d)
				}
			case "dissoc":
				if !isAlist(mv[a]) {
					return true
				}
				uniqueKeys(arr(mv[a]))
				k := int64(o.C % 5)
				text = fmt.Sprintf("Dissoc(%d, #%d)", k, a)
				for _, e := range arr(mv[a]) {
					if !mEqual(car(e), k, 0) {
						v = mAcons(car(e), cdr(e), v)
					}
				}
				var e error
				d, e = golisp.Dissoc(golisp.IntegerWithValue(k), rv[a])
				push = true
				if e != nil {
					mismatch = e.Error()
				}
			case "reverse":
				if !isNewList() {
					return true
				}
				text = fmt.Sprintf("Reverse(%d)", a)
				for _, e := range arr(mv[a]) {
					v = cons(e, v)
				}
				d, push = golisp.Reverse(rv[a]), true
			case "copy":
				if size(mv[a], 0) > 2000 {
					return true
				}
				text = fmt.Sprintf("Copy(%d)", a)
				v, d, push = mCopy(mv[a], 0), golisp.Copy(rv[a]), true
			case "array":
				if !isNewList() {
					return true
				}
				text = fmt.Sprintf("ArrayToList(ToArray(%d))", a)
				v, d, push = list(arr(mv[a])...), golisp.ArrayToList(golisp.ToArray(rv[a])), true
			case "quoteall":
				if !isNewList() {
					return true
				}
				var q []V
				for _, e := range arr(mv[a]) {
					q = append(q, list(Sym("quote"), e))
				}
				text = fmt.Sprintf("QuoteAll(%d)", a)
				v, d, push = list(q...), golisp.QuoteAll(rv[a]), true
			case "cxr":
				p := cxrNames[o.C%len(cxrNames)]
				text = fmt.Sprintf("C%sr(%d)", p, a)
				v, d = path(mv[a], p), cxr[p](rv[a])
				if w := golisp.WalkList(rv[a], p); rShow(w) != rShow(d) {
					mismatch = "WalkList gives " + rShow(w)
				}
				push = true
				if p, ok := v.(*Pair); ok && p.kind == kCell {
					push = false
				}
				if pp, ok := mv[a].(*Pair); ok && pp.kind == kAlist {
					push = false // part of an alist: the order is not specified
					mismatch = ""
				}
			case "nth":
				if !isNewList() {
					return true
				}
				k := o.C%13 - 1
				text = fmt.Sprintf("Nth(%d, %d)", a, k)
				v, d, push = nthV(mv[a], int64(k)), golisp.Nth(rv[a], k), true
				if k >= 1 && k <= 10 {
					if x := nths[k-1](rv[a]); rShow(x) != rShow(d) {
						mismatch = fmt.Sprintf("the accessor of element %d gives %s", k, rShow(x))
					}
				}
			case "setnth":
				if !isNewList() {
					return true
				}
				k := o.C%8 - 1
				text = fmt.Sprintf("SetNth(%d, %d, %d)", a, k, b)
				if rv[b] == nil {
					return true
				}
				p, _ := mv[a].(*Pair)
				for i := 1; p != nil && i < k; i++ {
					p, _ = p.cdr.(*Pair)
				}
				if p != nil && k >= 1 {
					if reaches(mv[b], p, map[interface{}]bool{}) {
						return true
					}
					p.car = mv[b]
				}
				if x := golisp.SetNth(rv[a], k, rv[b]); rShow(x) != mShow(mv[b]) {
					mismatch = "gives " + rShow(x)
				}
			case "setstring":
				text = fmt.Sprintf("SetStringValue(%d, %q)", a, o.S)
				x := golisp.SetStringValue(rv[a], o.S)
				if s, ok := mv[a].(*MStr); ok {
					s.s = o.S
					if x != rv[a] {
						mismatch = "does not give the string"
					}
				} else if x != nil {
					mismatch = "gives " + rShow(x)
				}
			case "equal":
				if hasNaN(mv[a], 0) || hasNaN(mv[b], 0) {
					return true
				}
				text = fmt.Sprintf("IsEqual(%d, %d)", a, b)
				if e, g := mEqual(mv[a], mv[b], 0), golisp.IsEqual(rv[a], rv[b]); e != g {
					mismatch = fmt.Sprintf("gives %v", g)
				}
			case "frame":
				f, ok := mv[a].(*MFrame)
				if !ok {
					return true
				}
				k := []string{"a:", "b:", "zz:"}[o.C%3]
				fr := golisp.FrameValue(rv[a])
				switch o.C / 3 % 5 {
				case 0, 1:
					text = fmt.Sprintf("frame %d Set %s %d", a, k, b)
					if reaches(mv[b], f, map[interface{}]bool{}) {
						return true
					}
					f.slots[k] = mv[b]
					fr.Set(k, rv[b])
				case 2:
					text = fmt.Sprintf("frame %d Remove %s", a, k)
					_, has := f.slots[k]
					delete(f.slots, k)
					if fr.Remove(k) != has {
						mismatch = "gives the opposite"
					}
				case 3:
					text = fmt.Sprintf("frame %d Get %s", a, k)
					w, has := f.slots[k]
					if fr.HasSlot(k) != has || rShow(fr.Get(k)) != mShow(w) {
						mismatch = fmt.Sprintf("HasSlot %v, Get %s", fr.HasSlot(k), rShow(fr.Get(k)))
					}
				case 4:
					text = fmt.Sprintf("frame %d Clone", a)
					nf := &MFrame{slots: map[string]V{}}
					for s, w := range f.slots {
						nf.slots[s] = w
					}
					v, d, push = nf, golisp.FrameWithValue(fr.Clone()), true
					if len(fr.Keys()) != len(f.slots) || len(fr.Values()) != len(f.slots) {
						mismatch = "Keys or Values has another length"
					}
				}
			case "print":
				if size(mv[a], 0) > 500 {
					return true
				}
				printable(mv[a], 0)
				text = fmt.Sprintf("String(%d)", a)
				if s, w := golisp.String(rv[a]), in.printText(mv[a]); s != w {
					mismatch = fmt.Sprintf("gives %q, not %q", s, w)
				}
			case "lisp": // through a variable of the language and back
				text = fmt.Sprintf("value %d through a variable", a)
				if _, e := golisp.Global.BindTo(golisp.Intern("emv"), rv[a]); e != nil {
					mismatch = e.Error()
				}
				x, e := golisp.ParseAndEval("emv")
				if e != nil || x != rv[a] && !golisp.NilP(rv[a]) {
					mismatch = fmt.Sprintf("came back as another value: %s %v", rShow(x), e)
				}
				x, e = golisp.ParseAndEval("(car (list emv))")
				if e != nil || x != rv[a] && !golisp.NilP(rv[a]) {
					mismatch = fmt.Sprintf("came back from a list as another value: %s %v", rShow(x), e)
				}
			}
			return false
		}()
		if skip {
			// nothing was called, or it does not matter: start again from here
			if text != "" {
				break
			}
			continue
		}
		done++
		log = append(log, text)
		if push {
			if mShow(v) != rShow(d) {
				return fmt.Errorf("%s gives %s\n instead of %s\n%s", text, rShow(d), mShow(v), strings.Join(log, "\n"))
			}
			if len(mv) < 12 {
				mv, rv = append(mv, v), append(rv, d)
				log[len(log)-1] += fmt.Sprintf("  => #%d", len(mv)-1)
			} else {
				k := o.C % 12
				mv[k], rv[k] = v, d
				log[len(log)-1] += fmt.Sprintf("  => #%d", k)
			}
		}
		if mismatch != "" {
			return fmt.Errorf("%s %s\n%s", text, mismatch, strings.Join(log, "\n"))
		}
		for i := range mv {
			if size(mv[i], 0) >= 3000 {
				return nil
			}
			if w, g := mShow(mv[i]), rShow(rv[i]); w != g {
				return fmt.Errorf("after %s value #%d is %s\n instead of %s\n%s", text, i, short(g, 500), short(w, 500), strings.Join(log, "\n"))
			}
			if e := checkAccess(rv[i], mv[i]); e != "" {
				return fmt.Errorf("for %s: %s\n%s", mShow(mv[i]), e, strings.Join(log, "\n"))
			}
		}
	}
	r.NonTrivial = done >= 4
	r.Class("values")
	r.Sample = short(strings.Join(log, "; "), 400)
	return nil
}

func (in *Interp) printText(v V) string { return text(v) }

// ---- environments ----

func embEnvs(c *embCase, r *Rec) error {
	resetReal()
	in := newInterp()
	menvs := []*MEnv{in.global}
	renvs := []*golisp.SymbolTableFrame{golisp.Global}
	names := []string{"ea", "eb", "ec", "car", "hopen", "hconst", "pi", "nil"}
	// a value of the model, the same in golisp, and an expression for it
	value := func(n int) (V, *D, string) {
		switch n % 9 {
		case 1:
			f := float32(n) + 0.5
			return f, golisp.FloatWithValue(f), fmt.Sprint(f)
		case 2:
			s := fmt.Sprintf("s%d", n)
			return &MStr{s: s}, golisp.StringWithValue(s), fmt.Sprintf("%q", s)
		case 3:
			return n%2 == 0, golisp.BooleanWithValue(n%2 == 0), map[bool]string{true: "#t", false: "#f"}[n%2 == 0]
		case 4:
			return nil, golisp.EmptyCons(), "'()"
		case 5:
			v := list(int64(n), nil, int64(2))
			return v, toReal(v), fmt.Sprintf("'(%d () 2)", n)
		case 6:
			return in.global.vars["cdr"].val, golisp.Global.ValueOf(golisp.Intern("cdr")), "cdr"
		case 7:
			s := fmt.Sprintf("sym%d", n)
			return Sym(s), golisp.Intern(s), "'" + s
		}
		return int64(n), golisp.IntegerWithValue(int64(n)), fmt.Sprint(n)
	}
	frames := map[*MFrame]*D{}
	var log []string
	done := 0
	for _, o := range c.Ops {
		k := o.A % len(menvs)
		me, re := menvs[k], renvs[k]
		name := names[o.B%len(names)]
		if o.K == "prot" && name != "ea" {
			name = "eb"
		}
		sym := golisp.Intern(name)
		if o.C%2 == 0 {
			sym = golisp.SymbolWithName(name)
		}
		val, rval, vtext := value(o.C)
		text := fmt.Sprintf("%s %s %s in environment %d", o.K, name, vtext, k)
		var g string
		w := ""
		fail := func(err error) {
			if err != nil {
				g = "ERROR"
			}
		}
		inModel(true)
		switch o.K {
		case "new":
			if len(menvs) > 6 {
				inModel(false)
				continue
			}
			ne := newEnvBelow(me, "e")
			rn := golisp.NewSymbolTableFrameBelow(re, fmt.Sprintf("e%d", len(menvs)))
			if o.C%3 == 0 {
				f := &MFrame{slots: map[string]V{"ea:": int64(o.C), "ed:": int64(o.C) + 1}}
				if o.C%2 == 0 {
					delete(f.slots, "ea:")
				}
				frames[f] = toReal(f)
				ne.frame = f
				rn = golisp.NewSymbolTableFrameBelowWithFrame(re, golisp.FrameValue(frames[f]), fmt.Sprintf("e%d", len(menvs)))
			}
			if rn.HasFrame() != (ne.frame != nil) || rn.Parent != re {
				g = "wrong parent or frame"
			}
			menvs, renvs = append(menvs, ne), append(renvs, rn)
		case "bind":
			if b := me.find(name); b == nil {
				me.vars[name] = &MBinding{val: val}
			} else if b.prot {
				w = "ERROR"
			} else {
				b.val = val
			}
			_, err := re.BindTo(sym, rval)
			fail(err)
		case "local":
			if b := me.vars[name]; b == nil {
				me.vars[name] = &MBinding{val: val}
			} else if b.prot {
				w = "ERROR"
			} else {
				b.val = val
			}
			_, err := re.BindLocallyTo(sym, rval)
			fail(err)
		case "prot":
			if b := me.find(name); b == nil {
				me.vars[name] = &MBinding{val: val, prot: true}
			} else {
				b.val, b.prot = val, true
			}
			re.BindToProtected(sym, rval)
		case "set":
			if in.try1(func() { in.set(me, Sym(name), val) }) {
				w = "ERROR"
			}
			_, err := re.SetTo(sym, rval)
			fail(err)
		case "delete":
			if o.B%len(names) > 2 {
				name = "ec"
			}
			delete(me.vars, name)
			re.DeleteBinding(name)
		case "lisp":
			src := strings.Replace(o.S, "%n", name, -1)
			src = strings.Replace(src, "%v", vtext, -1)
			m, err := mParse(src)
			if err != nil {
				bugf("%q: %v", src, err)
			}
			mo := in.modelForm(m, me)
			if mo.kind == 'u' {
				inModel(false)
				return nil
			}
			w = mo.text
			if mo.kind == 'e' {
				w = "ERROR"
			}
			var d *D
			switch o.H {
			case 1: // all expressions of a text
				d, err = golisp.ParseAndEvalAllInEnvironment([]string{"1 " + src + " ; done", "1 " + src, src, "() " + src + "\n", "; all\n'x\n" + src + " "}[o.B%5], re)
			case 2: // a file
				f := filepath.Join(workDir, "env.lsp")
				os.WriteFile(f, []byte(src+"\n"), 0644)
				d, err = golisp.ProcessFileInEnvironment(f, re)
				os.Remove(f)
			case 3: // in two steps
				if d, err = golisp.Parse(src); err == nil {
					d, err = golisp.Eval(d, re)
				}
			default:
				d, err = golisp.ParseAndEvalInEnvironment(src, re)
			}
			g = rShow(d)
			fail(err)
			text = fmt.Sprintf("%s in environment %d", src, k)
		}
		inModel(false)
		done++
		log = append(log, text)
		if g != w {
			return fmt.Errorf("%s gives %s instead of %s\n%s", text, g, w, strings.Join(log, "\n"))
		}
		for i := range menvs {
			for _, n := range append(names, "ed", "nowhere") {
				s := golisp.Intern(n)
				mv := mShow(in.lookup(Sym(n), menvs[i], false))
				if v := rShow(renvs[i].ValueOf(s)); v != mv {
					return fmt.Errorf("after %s: ValueOf %s in environment %d is %s, not %s\n%s", text, n, i, v, mv, strings.Join(log, "\n"))
				}
				b := menvs[i].find(n)
				rb, found := renvs[i].FindBindingFor(s)
				if found != (b != nil) || found && (rShow(rb.Val) != mShow(b.val) || rb.Protected != b.prot) {
					return fmt.Errorf("after %s: FindBindingFor %s in environment %d finds %v\n%s", text, n, i, rb, strings.Join(log, "\n"))
				}
				lb := menvs[i].vars[n]
				rb, found = renvs[i].BindingNamed(n)
				if found != (lb != nil) || found && rShow(rb.Val) != mShow(lb.val) {
					return fmt.Errorf("after %s: BindingNamed %s in environment %d finds %v\n%s", text, n, i, rb, strings.Join(log, "\n"))
				}
			}
		}
		for f, d := range frames {
			if mShow(f) != rShow(d) {
				return fmt.Errorf("after %s a frame is %s, not %s\n%s", text, rShow(d), mShow(f), strings.Join(log, "\n"))
			}
		}
	}
	r.NonTrivial = done >= 4 && len(menvs) > 1
	r.Class("environments")
	r.Sample = short(strings.Join(log, "; "), 400)
	return nil
}

func (in *Interp) try1(f func()) (failed bool) {
	_, err := in.try(func() V { f(); return nil })
	return err != nil
}

// ---- functions written in Go ----

type embThing struct{ n int64 }

var embThings []*embThing

type embPrim struct {
	name, spec string
	special    bool
	model      func(in *Interp, a []V, env *MEnv) V
	real       func(a []*D, env *golisp.SymbolTableFrame) (*D, error)
}

var embPrims []*embPrim

func init() {
	add := func(name, spec string, special bool, m func(in *Interp, a []V, env *MEnv) V, f func(a []*D, env *golisp.SymbolTableFrame) (*D, error)) {
		embPrims = append(embPrims, &embPrim{name, spec, special, m, f})
	}
	add("go-list", "*", false, func(in *Interp, a []V, env *MEnv) V { return list(a...) },
		func(a []*D, env *golisp.SymbolTableFrame) (*D, error) { return golisp.ArrayToList(a), nil })
	add("go-call", ">=1", false, func(in *Interp, a []V, env *MEnv) V { return in.applyV(a[0], a[1:], env) },
		func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
			return golisp.ApplyWithoutEval(a[0], golisp.ArrayToList(a[1:]), env)
		})
	add("go-form", ">=1", true, func(in *Interp, a []V, env *MEnv) V {
		f := in.eval(a[0], env)
		if f == nil {
			lispErr("nil")
		}
		in.byName = ""
		return in.apply(f, list(a[1:]...), env)
	}, func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
		f, err := golisp.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		return golisp.Apply(f, golisp.ArrayToList(a[1:]), env)
	})
	add("go-eval", ">=1", true, func(in *Interp, a []V, env *MEnv) V {
		var r V
		for i := len(a) - 1; i >= 0; i-- { // last first
			r = in.eval(a[i], env)
		}
		return r
	}, func(a []*D, env *golisp.SymbolTableFrame) (r *D, err error) {
		for i := len(a) - 1; i >= 0; i-- {
			if r, err = golisp.Eval(a[i], env); err != nil {
				return nil, err
			}
		}
		return
	})
	add("go-count", "2", false, func(in *Interp, a []V, env *MEnv) V {
		n := int64(0)
		for _, x := range mustList(a[1], "go-count") {
			if truthy(in.applyV(a[0], []V{x}, env)) {
				n++
			}
		}
		return n
	}, func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
		n := int64(0)
		if !golisp.ListP(a[1]) {
			return nil, golisp.ProcessError("not a list", env)
		}
		for _, x := range golisp.ToArray(a[1]) {
			v, err := golisp.ApplyWithoutEval(a[0], golisp.InternalMakeList(x), env)
			if err != nil {
				return nil, err
			}
			if golisp.BooleanValue(v) {
				n++
			}
		}
		return golisp.IntegerWithValue(n), nil
	})
	add("go-get", "1", false, func(in *Interp, a []V, env *MEnv) V {
		s, ok := a[0].(Sym)
		if !ok {
			lispErr("not a symbol")
		}
		return in.lookup(s, env, false)
	}, func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
		if !golisp.SymbolP(a[0]) {
			return nil, golisp.ProcessError("not a symbol", env)
		}
		return env.ValueOf(a[0]), nil
	})
	add("go-set!", "2", false, func(in *Interp, a []V, env *MEnv) V {
		s, ok := a[0].(Sym)
		if !ok {
			lispErr("not a symbol")
		}
		in.set(env, s, a[1])
		return a[1]
	}, func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
		if !golisp.SymbolP(a[0]) {
			return nil, golisp.ProcessError("not a symbol", env)
		}
		return env.SetTo(a[0], a[1])
	})
	add("go-bind", "2", false, func(in *Interp, a []V, env *MEnv) V {
		s, ok := a[0].(Sym)
		if !ok {
			lispErr("not a symbol")
		}
		in.bindLocal(env, s, a[1])
		return a[1]
	}, func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
		if !golisp.SymbolP(a[0]) {
			return nil, golisp.ProcessError("not a symbol", env)
		}
		return env.BindLocallyTo(a[0], a[1])
	})
	add("go-fail", "0|1", false, func(in *Interp, a []V, env *MEnv) V { panic(mErr{msg: "go failure 77", known: "go failure 77"}) },
		func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
			return golisp.IntegerWithValue(5), golisp.ProcessError("go failure 77", env)
		})
	add("go-none", "0|2|>=4", false, func(in *Interp, a []V, env *MEnv) V { return nil },
		func(a []*D, env *golisp.SymbolTableFrame) (*D, error) { return nil, nil })
	add("go-thing", "1", false, func(in *Interp, a []V, env *MEnv) V {
		n, ok := a[0].(int64)
		if !ok {
			lispErr("not a number")
		}
		return &MObj{kind: "Thing", data: &embThing{n}}
	}, func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
		if !golisp.IntegerP(a[0]) {
			return nil, golisp.ProcessError("not a number", env)
		}
		t := &embThing{golisp.IntegerValue(a[0])}
		embThings = append(embThings, t) // keeps it alive whatever holds it in Lisp
		return golisp.ObjectWithTypeAndValue("Thing", unsafe.Pointer(t)), nil
	})
	add("go-thing+", "2", false, func(in *Interp, a []V, env *MEnv) V {
		o, ok := a[0].(*MObj)
		n, okn := a[1].(int64)
		if !ok || o.kind != "Thing" || !okn {
			lispErr("not a thing")
		}
		t := o.data.(*embThing)
		t.n += n
		return t.n
	}, func(a []*D, env *golisp.SymbolTableFrame) (*D, error) {
		if !golisp.ObjectP(a[0]) || golisp.ObjectType(a[0]) != "Thing" || !golisp.IntegerP(a[1]) {
			return nil, golisp.ProcessError("not a thing", env)
		}
		t := (*embThing)(golisp.ObjectValue(a[0]))
		t.n += golisp.IntegerValue(a[1])
		return golisp.IntegerWithValue(t.n), nil
	})
	add("go-args", "(1,3)", true, func(in *Interp, a []V, env *MEnv) V { return list(a...) },
		func(a []*D, env *golisp.SymbolTableFrame) (*D, error) { return golisp.ArrayToList(a), nil })
}

func embHooks() func() {
	embThings = nil
	modelHook = func(in *Interp) {
		for _, p := range embPrims {
			in.global.vars[p.name] = &MBinding{val: &MPrim{name: p.name, arity: parseArity(p.spec), special: p.special, fn: p.model}, prot: true}
		}
	}
	afterReset = func() {
		for _, p := range embPrims {
			f := p.real
			g := func(args *D, env *golisp.SymbolTableFrame) (*D, error) { return f(golisp.ToArray(args), env) }
			if p.special {
				golisp.MakeSpecialForm(p.name, p.spec, g)
			} else {
				golisp.MakePrimitiveFunction(p.name, p.spec, g)
			}
		}
	}
	return func() { modelHook, afterReset = nil, nil }
}

var embForms = []string{
	"(define th (go-thing 5))", "(go-thing+ th 2)", "(let ((t (go-thing 1))) (go-thing+ t 1) (list (go-thing+ t 0) (equal? t t) (equal? t (go-thing 2)) (equal? (copy t) t)))",
	"(map (lambda (t) (go-thing+ t 1)) (list (go-thing 1) (go-thing 2)))", "(let ((f {t: (go-thing 3)})) (go-thing+ (t: f) 4) (go-thing+ (t: f) 0))", "(go-thing+ 5 1)", "(go-thing+ (go-thing 'a) 1)",
	"(let ((x 1)) (go-set! 'x 5) x)", "(let ((x 1)) (go-bind 'y 7) (list x y))", "(let ((x 1)) (let ((y 2)) (go-set! 'x (go-get 'y)) (list x y)))", "(go-get 'car)", "(go-set! 'unknown-name 1)", "(go-bind 'car 1)", "(let () (go-bind 'car 1) car)",
	"(define gx 3)", "(go-set! 'gx (list gx))", "gx", "(go-get 'gx)", "((lambda (a) (go-bind 'a (list a a)) a) 4)",
	"(on-error (go-fail) (lambda (e) (list (substring? \"go failure 77\" e))))", "(go-fail 1)", "(go-fail 1 2)", "(go-list (go-fail))", "(on-error (map (lambda (x) (go-fail x)) '(1 2)) (lambda (e) 'caught))",
	"(go-none)", "(go-none 1)", "(go-none 1 2)", "(go-none 1 2 3)", "(go-none 1 2 3 4 5)", "(go-args)", "(go-args a (b c))", "(go-args 1 2 3 4)", "(list (go-none))", "(if (go-none) 1 2)",
	"(go-count even? '(1 2 3 4))", "(go-count (lambda (x) (> x 2)) '(1 2 3 4))", "(go-count 5 '(1))", "(go-count (lambda () 1) '(1))", "(let ((n 0)) (go-count (lambda (x) (set! n (+ n x)) #f) '(1 2 3)) n)",
	"(go-eval (emit! 1) (emit! 2) (emit! 3))", "(go-list (emit! 1) (emit! 2))", "(go-call go-call list 1 2)", "(apply go-list 1 '(2 3))", "(map go-list '(1 2) '(3 4))", "(go-form list (emit! 1) (emit! 2))", "(go-call (lambda (x . r) (list x r)) 1 2 3)", "(go-call if 1 2 3)", "(go-form if #f (emit! 2) (emit! 3))", "(go-call 'car '(1))", "(go-call () 1)", "(go-form 5 1)",
	"(defmacro (gm x) `(list ,x ,x))", "(go-form gm (emit! 1))", "(go-call gm '(emit! 2))",
	"(define gf {n: 4 m: (lambda (k) (go-set! 'n (+ n k)) (list n (go-get 'n))) w: (lambda (l) (go-call map (lambda (x) (+ x n)) l)) c: (lambda (k) (go-call m k))})", "(m:> gf 2)", "(w:> gf '(1 2))", "(c:> gf 1)", "(n: gf)",
	"(go-list)", "(go-call)", "(list (go-call list) (go-call list '() #f))", "(go-list '() (cdr '(1)) nil)", "(eq? (go-list) '())", "(go-call apply list '(1 2))",
}

var goTargets map[string]bool

// throughGo makes some calls of a program go through Go.
func (g *Gen) throughGo(v V, pct int) V {
	p, ok := v.(*Pair)
	if !ok || p.kind != kCons {
		return v
	}
	es := []V{}
	var t V = v
	for {
		q, ok := t.(*Pair)
		if !ok {
			break
		}
		es = append(es, g.throughGo(q.car, pct))
		t = q.cdr
	}
	nl := listTail(es, t)
	h, ok := es[0].(Sym)
	if !ok || t != nil || !goTargets[string(h)] || !g.pct(pct) {
		return nl
	}
	switch g.pick(4) {
	case 0, 1:
		return cons(Sym("go-call"), nl)
	case 2:
		return cons(Sym("go-form"), nl)
	default:
		return list(Sym("go-eval"), nl)
	}
}

func genEmbed(t *rapid.T) interface{} {
	g := newGen(t)
	c := &embCase{}
	switch g.pick(10) {
	case 0, 1, 2, 3:
		c.Mode = "values"
		kinds := []string{"datum", "datum", "cons", "list", "append", "appendlist", "append!", "appendlist!", "remove!", "acons", "acons", "assoc", "dissoc", "reverse", "copy", "array", "quoteall", "cxr", "nth", "setnth", "setnth", "setstring", "equal", "frame", "frame", "print", "lisp"}
		for n := 3 + g.pick(25); n > 0; n-- {
			o := embOp{K: kinds[g.pick(len(kinds))], A: g.pick(12), B: g.pick(12), C: g.pick(60)}
			if len(c.Ops) < 2 {
				o.K = "datum"
			}
			switch o.K {
			case "datum":
				v := g.selfEval(1)
				o.S = text(v)
				if g.pct(50) {
					o.S = quoted(g.listV(2, g.size(4, 8)))
				}
			case "setstring":
				o.S = g.str()
			}
			c.Ops = append(c.Ops, o)
		}
	case 4, 5:
		c.Mode = "envs"
		for n := 4 + g.pick(20); n > 0; n-- {
			o := embOp{K: oneOf(g, "new", "new", "bind", "bind", "local", "local", "set", "set", "prot", "delete", "lisp", "lisp"), A: g.pick(7), B: g.pick(8), C: g.pick(90)}
			if len(c.Ops) == 0 {
				o.K = "new"
			}
			if o.K == "prot" && g.pct(60) {
				o.K = "set"
			}
			if o.K == "lisp" {
				o.H = g.pick(4)
				o.S = oneOf(g, "(define %n %v)", "(set! %n %v)", "%n", "(list %n %v)", "(let ((%n %v)) (set! %n (list %n)) %n)", "((lambda (x) (set! %n x)) %v)", "(begin (define (ef) %n) (ef))", "(list ea eb ec ed)", "()", "'()", "(set! %n ())")
			}
			c.Ops = append(c.Ops, o)
		}
	default:
		c.Mode = "calls"
		if goTargets == nil {
			goTargets = map[string]bool{}
			for _, p := range modelPrims {
				if !p.special && !p.restr {
					goTargets[p.name] = true
				}
			}
		}
		var forms []string
		if g.pct(65) {
			if pc, ok := registry[borrowed[g.pick(len(borrowed))]].Gen(t).(*progCase); ok {
				for _, f := range pc.Forms {
					v, err := mParse(f)
					if err != nil {
						bugf("%q: %v", f, err)
					}
					forms = append(forms, text(g.throughGo(v, 45)))
				}
			}
		}
		for n := g.pick(6); n > 0 || len(forms) == 0; n-- {
			k := g.pick(len(forms) + 1)
			f := embForms[g.pick(len(embForms))]
			forms = append(forms[:k], append([]string{f}, forms[k:]...)...)
		}
		defer embHooks()()
		child := g.oneIn(4)
		c.Prog = &progCase{Forms: specifiedForms(forms, child), Child: child}
	}
	return c
}

func c30run(ci interface{}, r *Rec) error {
	c := ci.(*embCase)
	switch c.Mode {
	case "values":
		return embValues(c, r)
	case "envs":
		return embEnvs(c, r)
	}
	defer embHooks()()
	res, err := runProg(c.Prog, r)
	r.NonTrivial = res.good(2) && strings.Contains(strings.Join(c.Prog.Forms, " "), "(go-")
	r.Class("calls")
	return err
}

func init() {
	register(&Prop{
		ID: "C30", Quick: 16000, Thor: 500000,
		Rule: "histories of 3-28 calls of the exported functions on values, compared after each with a model of cells (sharing included), of 4-24 calls on environments mixed with forms, and programs in which calls go through functions written in Go; non-trivial: four operations carried out, or two forms compared in a program that goes through Go",
		New:  func() interface{} { return &embCase{} },
		Gen:  genEmbed,
		Run:  c30run,
		Shrink: func(ci interface{}, fails func(c interface{}) bool) interface{} {
			cur := *ci.(*embCase)
			if cur.Prog != nil {
				p := shrinkProgCase(cur.Prog, func(c interface{}) bool {
					return fails(&embCase{Mode: cur.Mode, Prog: c.(*progCase)})
				})
				return &embCase{Mode: cur.Mode, Prog: p.(*progCase)}
			}
			for k := len(cur.Ops) / 2; k >= 1; k /= 2 {
				for i := len(cur.Ops) - k; i >= 0; i-- {
					if i+k > len(cur.Ops) {
						continue
					}
					n := &embCase{Mode: cur.Mode, Ops: append(append([]embOp{}, cur.Ops[:i]...), cur.Ops[i+k:]...)}
					if fails(n) {
						cur = *n
					}
				}
			}
			return &cur
		},
	})
}
