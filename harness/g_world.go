package main

// Worlds of frames in which most messages can be answered: the generator knows
// which slots each frame has, own or inherited, and how many arguments their
// methods take. A method sends only messages of a lower rank (or goes to its
// parent's method of the same name), so programs end.

import (
	"fmt"
	"strconv"
	"strings"
)

type wFrame struct {
	name    string
	parents []*wFrame
	data    map[string]bool
	meth    map[string]int // number of parameters; -1: any
}

type world struct {
	g      *Gen
	frames []*wFrame
	forms  []string
	n      int
}

var wData = []string{"a", "b", "c"}
var wMeth = []string{"x1", "foo", "total", "run"} // by rank

func (f *wFrame) all() (data []string, meth map[string]int) {
	meth = map[string]int{}
	seen := map[*wFrame]bool{}
	has := map[string]bool{}
	var walk func(f *wFrame)
	walk = func(f *wFrame) {
		if seen[f] {
			return
		}
		seen[f] = true
		for k, n := range f.meth {
			if _, ok := meth[k]; !ok {
				meth[k] = n
			}
		}
		for k := range f.data {
			has[k] = true
		}
		for _, p := range f.parents {
			walk(p)
		}
	}
	walk(f)
	for _, d := range wData {
		if has[d] {
			data = append(data, d)
		}
	}
	return
}

// wCtx: where an expression stands.
type wCtx struct {
	f      *wFrame // nil at the top level
	slot   string  // the method it is in
	rank   int     // messages below this rank may be sent
	vars   []string
	nested int
}

func (w *world) args(n int, c wCtx, d int) string {
	if n < 0 {
		n = w.g.pick(3)
	}
	if w.g.oneIn(60) {
		n += w.g.pick(3) - 1
	}
	s := ""
	for ; n > 0; n-- {
		s += " " + w.expr(c, d-1)
	}
	return s
}

func (w *world) expr(c wCtx, d int) string {
	g := w.g
	var data []string
	var meth map[string]int
	if c.f != nil {
		data, meth = c.f.all()
	}
	atom := func() string {
		if len(c.vars) > 0 && g.pct(45) {
			return c.vars[g.pick(len(c.vars))]
		}
		if len(data) > 0 && g.pct(70) {
			return data[g.pick(len(data))]
		}
		return strconv.Itoa(g.pick(9))
	}
	if d <= 0 {
		return atom()
	}
	e := func() string { return w.expr(c, d-1) }
	with := func(v string) string {
		k := c
		k.vars = append(append([]string{}, c.vars...), v)
		return w.expr(k, d-1)
	}
	if c.f != nil {
		switch g.pick(10) {
		case 0:
			if len(data) > 0 {
				return "(set! " + data[g.pick(len(data))] + " " + e() + ")"
			}
		case 1:
			if len(data) > 0 {
				k := data[g.pick(len(data))]
				return oneOf(g, "("+k+": self)", "("+k+":! self "+e()+")", "(get-slot self "+k+":)", "(set-slot! self "+k+": "+e()+")", "("+k+":? self)")
			}
		case 2, 3, 4: // a message to self
			if m, n, ok := w.below(meth, c.rank); ok {
				switch g.pick(4) {
				case 0:
					return "(" + m + w.args(n, c, d) + ")"
				case 1:
					return "(" + m + ":> self" + w.args(n, c, d) + ")"
				case 2:
					return "(send self " + m + ":" + w.args(n, c, d) + ")"
				default:
					return "(apply-slot self " + m + ": (list" + w.args(n, c, d) + "))"
				}
			}
		case 5: // the parent's method
			for _, p := range c.f.parents {
				_, pm := p.all()
				if n, ok := pm[c.slot]; ok {
					return oneOf(g, "("+c.slot+":^"+w.args(n, c, d)+")", "(send-super "+c.slot+":"+w.args(n, c, d)+")", "(apply-slot-super "+c.slot+": (list"+w.args(n, c, d)+"))")
				}
			}
		}
	}
	if len(w.frames) > 0 && g.oneIn(5) { // a message to another frame
		o := w.frames[g.pick(len(w.frames))]
		_, om := o.all()
		if m, n, ok := w.below(om, c.rank); ok {
			switch g.pick(4) {
			case 0:
				return "(send " + o.name + " " + m + ":" + w.args(n, c, d) + ")"
			case 1:
				return "(apply-slot " + o.name + " " + m + ": (list" + w.args(n, c, d) + "))"
			default:
				return "(" + m + ":> " + o.name + w.args(n, c, d) + ")"
			}
		}
	}
	switch g.pick(15) {
	case 0:
		return "(list " + e() + " " + e() + ")"
	case 1:
		return "(+ " + atom() + " 1)"
	case 2:
		return "(if " + oneOf(g, "#t", "(integer? "+atom()+")", "(list? "+atom()+")") + " " + e() + " " + e() + ")"
	case 3:
		v := oneOf(g, "a", "b", "t", "self2")
		k := with(v)
		return "(let ((" + v + " " + e() + ")) " + k + ")"
	case 4:
		v := oneOf(g, "k", "a", "q")
		k := with(v)
		return "((lambda (" + v + ") (list " + v + " " + k + ")) " + e() + ")"
	case 5:
		return "(begin (emit! " + atom() + ") " + e() + ")"
	case 6:
		k := with("q")
		return "(map (lambda (q) " + k + ") (list " + atom() + " " + atom() + "))"
	case 7:
		return "`(1 ," + e() + " ,@(list " + e() + "))"
	case 8:
		return "(on-error " + e() + " (lambda (er) " + atom() + "))"
	case 9:
		if c.f != nil {
			k := with("t")
			return "(begin (define t " + e() + ") (list t " + k + "))"
		}
		return "(begin " + e() + " " + e() + ")"
	case 10:
		if c.f != nil {
			return oneOf(g, "(eq? self self)", "(begin (set! kept self) "+e()+")", "(begin (set! keptf (lambda () (list "+atom()+" "+atom()+"))) "+e()+")", "(frame? self)", "(helper self "+atom()+")")
		}
		return "(list " + e() + ")"
	case 11:
		return "(do ((i 0 (+ i 1))) ((> i 1) " + e() + ") " + e() + ")"
	case 12:
		return "(case " + atom() + " ((1 2 3) " + e() + ") (else " + e() + "))"
	case 13:
		return "(cond ((integer? " + atom() + ") " + e() + ") (else " + e() + "))"
	default:
		return atom()
	}
}

func (w *world) below(meth map[string]int, rank int) (string, int, bool) {
	var c []string
	for r := 0; r < rank && r < len(wMeth); r++ {
		if _, ok := meth[wMeth[r]]; ok {
			c = append(c, wMeth[r])
		}
	}
	if len(c) == 0 {
		return "", 0, false
	}
	m := c[w.g.pick(len(c))]
	return m, meth[m], true
}

// method writes a method for the slot of f.
func (w *world) method(f *wFrame, r int) string {
	g := w.g
	ps := oneOf(g, "", "y", "y", "y z", "a", ". y", "y . z", "y z w", "y z w v")
	n := len(strings.Fields(ps))
	if strings.Contains(ps, ".") {
		n = -1
		if ps == ". y" { // only a rest parameter: not claimed
			ps, n = "y . z", -1
		}
	}
	// the number of parameters stays the same along the family
	if _, meth := f.all(); meth != nil {
		if m, ok := meth[wMeth[r]]; ok && g.pct(90) {
			n = m
			ps = map[int]string{0: "", 1: oneOf(g, "y", "a"), 2: "y z", 3: "y z w", 4: "y z w v", -1: "y . z"}[n]
		}
	}
	f.meth[wMeth[r]] = n
	if n == -1 {
		f.meth[wMeth[r]] = 1 + g.pick(4)
	}
	c := wCtx{f: f, slot: wMeth[r], rank: r, vars: strings.Fields(strings.Replace(ps, ".", "", 1))}
	body := w.expr(c, 1+g.pick(3))
	if g.oneIn(3) {
		body = w.expr(c, 2) + " " + body
	}
	return "(lambda (" + ps + ") " + body + ")"
}

func (w *world) add(s string) { w.forms = append(w.forms, s) }

func (g *Gen) worldForms() []string {
	w := &world{g: g}
	w.add("(define kept 'none)")
	w.add("(define keptf (lambda () 'none))")
	w.add("(define (helper f x) " + oneOf(g, "(list x (frame? f))", "(list self x)", "(a:! f x)", "(begin a x)") + ")")
	for n := 2 + g.pick(3); n > 0; n-- {
		f := &wFrame{name: fmt.Sprintf("f%d", len(w.frames)), data: map[string]bool{}, meth: map[string]int{}}
		var b []string
		for _, o := range w.frames {
			if g.pct(60) && len(f.parents) < 2 {
				f.parents = append(f.parents, o)
			}
		}
		for i, p := range f.parents {
			b = append(b, parentNames[i]+" "+p.name)
		}
		for _, k := range wData {
			if g.pct(50) {
				f.data[k] = true
				b = append(b, k+": "+oneOf(g, strconv.Itoa(g.pick(50)), "'(1 2)", "\"s\"", "#t", strconv.Itoa(g.pick(9))))
			}
		}
		ranks := []int{}
		for r := range wMeth {
			if g.pct(55) {
				ranks = append(ranks, r)
			}
		}
		var later []string
		for _, r := range ranks {
			m := w.method(f, r)
			switch {
			case g.oneIn(7): // a method that closes over a variable
				later = append(later, "(let ((cnt 0)) (set-slot! "+f.name+" "+wMeth[r]+": "+strings.Replace(m, ") ", ") (set! cnt (+ cnt 1)) (emit! cnt) ", 1)+"))")
			case g.oneIn(5):
				later = append(later, "(set-slot! "+f.name+" "+wMeth[r]+": "+m+")")
			default:
				b = append(b, wMeth[r]+": "+m)
			}
		}
		w.add("(define " + f.name + " {" + strings.Join(b, " ") + "})")
		w.forms = append(w.forms, later...)
		w.frames = append(w.frames, f)
	}
	top := wCtx{rank: len(wMeth)}
	for n := 5 + g.pick(9); n > 0; n-- {
		f := w.frames[g.pick(len(w.frames))]
		data, meth := f.all()
		m, k, ok := w.below(meth, len(wMeth))
		switch g.pick(16) {
		default:
			if ok {
				w.add(oneOf(g, "(send "+f.name+" "+m+":"+w.args(k, top, 2)+")", "("+m+":> "+f.name+w.args(k, top, 1)+")", "(apply-slot "+f.name+" "+m+": (list"+w.args(k, top, 1)+"))"))
			}
		case 0:
			if len(data) > 0 {
				w.add("(set-slot! " + f.name + " " + data[g.pick(len(data))] + ": " + w.expr(top, 1) + ")")
			}
		case 1: // another method for a slot
			r := g.pick(len(wMeth))
			m := w.method(f, r)
			w.add("(set-slot! " + f.name + " " + wMeth[r] + ": " + m + ")")
		case 2: // one function in the slots of two frames
			o := w.frames[g.pick(len(w.frames))]
			if ok && o != f {
				o.meth[m] = k
				w.add("(set-slot! " + o.name + " " + m + ": (get-slot " + f.name + " " + m + ":))")
			}
		case 3:
			c := &wFrame{name: fmt.Sprintf("f%d", len(w.frames)), parents: f.parents, data: map[string]bool{}, meth: map[string]int{}}
			for k, v := range f.data {
				c.data[k] = v
			}
			for k, v := range f.meth {
				c.meth[k] = v
			}
			w.frames = append(w.frames, c)
			w.add("(define " + c.name + " (clone " + f.name + "))")
		case 4:
			if ok {
				o := w.frames[g.pick(len(w.frames))]
				w.add("(map (lambda (fr) (" + m + ":> fr" + w.args(k, top, 1) + ")) (list " + f.name + " " + o.name + "))")
			}
		case 5:
			w.add(oneOf(g, "(keptf)", "(list kept)", "(helper "+f.name+" 3)"))
		case 6: // another parent
			o := w.frames[g.pick(len(w.frames))]
			f.parents = append([]*wFrame{}, f.parents...)
			f.parents = append(f.parents, o)
			w.add("(set-slot! " + f.name + " " + oneOf(g, "r*:", "z*:") + " " + o.name + ")")
		case 7:
			w.add("(define " + oneOf(g, "a", "b", "c", "self", "x1") + " " + strconv.Itoa(g.pick(90)) + ")")
		case 8:
			if ok {
				w.add("((lambda (a self) (list (" + m + ":> " + f.name + w.args(k, top, 1) + ") a self)) 71 72)")
			}
		}
	}
	for _, f := range w.frames {
		w.add("(list (get-slot-or-nil " + f.name + " a:) (get-slot-or-nil " + f.name + " b:) (get-slot-or-nil " + f.name + " c:))")
	}
	return append(w.forms, "(keptf)", "(list a b c)")
}
