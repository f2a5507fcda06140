package main

import (
	"fmt"
	"strconv"
	"strings"
)

func init() {
	ops("acc", `
any (car {list})
any (cdr {list})
any (c{adpath}r {list})
any (head {list})
list (rest {list})
list (tail {list})
any ({ordinal} {list})
3 any (nth {list} {idx})
2 any (list-ref {list} {idx})
3 list (take {idx} {list})
3 list (drop {idx} {list})
2 list (list-head {list} {idx})
2 list (list-tail {list} {idx})
3 list (sublist {list} {idx} {idx})
list (last-pair {list})
idx (length {list})
any (general-car-cdr {list} {idx})
any (c{adpath}r {any})
8 any (c{adpath}r {tree})
2 any ({ordinal} {longlist})
2 any (nth {longlist} {bidx})
2 any (list-ref {longlist} {bidx})
1 list (list-tail {longlist} {bidx})
1 list (list-head {longlist} {bidx})
1 list (sublist {longlist} {bidx} {bidx})
1 list (take {bidx} {longlist})
1 list (drop {bidx} {longlist})
1 idx (length {longlist})
3 any (general-car-cdr {tree} {gpath})
`)
	litGens["gpath"] = func(g *Gen) string { return strconv.Itoa(1 + g.pick(70)) }
	litGens["bidx"] = func(g *Gen) string { return strconv.Itoa(g.pick(90) - 2) }
	litGens["longlist"] = func(g *Gen) string {
		if g.pct(50) {
			return fmt.Sprintf("(interval %d)", g.pick(90))
		}
		return quoted(g.listV(1, g.pick(70)))
	}
	litGens["tree"] = func(g *Gen) string {
		var mk func(d int) V
		n := int64(0)
		mk = func(d int) V {
			if d == 0 || g.oneIn(14) {
				if n++; g.oneIn(6) {
					return nil
				}
				return n
			}
			return cons(mk(d-1), mk(d-1))
		}
		return quoted(mk(3 + g.pick(3)))
	}
	litGens["adpath"] = func(g *Gen) string {
		s := ""
		n := 1 + g.pick(4)
		if g.pct(50) {
			n = 4
		}
		for ; n > 0; n-- {
			s += oneOf(g, "a", "d")
		}
		return s
	}
	litGens["ordinal"] = func(g *Gen) string {
		return oneOf(g, "first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth")
	}
	ops("list", `
4 list (list {any*})
4 list (cons {any} {list})
1 list (cons {any} {any})
2 list (cons* {any*} {list})
1 any (cons* {any*} {any})
2 list (reverse {list})
4 list (append {list*})
1 list (append {any*})
2 lists (partition {cnt} {list})
2 list (flatten {list})
2 list (flatten* {lists})
1 list (flatten (cons {any} {any}))
1 list (flatten* (list {any} (cons {any} {any})))
1 list (flatten (list {list} (cons {any} {any})))
1 list (make-list {cnt} {any})
1 list (make-list {idx})
2 list (copy {list})
3 ints (list {int*})
2 ints (interval {sint} {sint})
1 ints (interval {sint} {sint} {sint})
1 ints (interval {cnt})
2 ints (cons {int} {ints})
1 ints (reverse {ints})
2 ints (append {ints} {ints})
2 lists (list {list*})
2 lists (list {ints*})
1 ints (sort {ints} {lt})
1 ints {bigints}
`)
	litGens["bigints"] = func(g *Gen) string {
		if g.oneIn(4) {
			return fmt.Sprintf("(interval %d %d)", g.pick(400)-200, g.pick(400)-200)
		}
		return g.lit("ints")
	}
	ops("hof", `
4 list (map {f1} {list})
4 ints (map {g1} {ints})
3 list (map {f2} {list} {list})
2 list (map {g2} {ints} {ints})
1 list (map {f3} {list} {list} {list})
2 any (for-each {f1} {list})
1 any (for-each {f2} {list} {list})
2 any (for-each {f3} {list} {list} {list})
1 bool (any {f3} {list} {list} {list})
1 bool (every {f3} {list} {list} {list})
2 bool (any {p1} {list})
2 bool (any {q1} {ints})
2 bool (every {p1} {list})
2 bool (every {q1} {ints})
1 bool (every {f2} {list} {list})
1 bool (any {f2} {list} {list})
2 any (reduce {g2} {any} {ints})
2 any (reduce-left {f2} {any} {list})
3 any (reduce-right {f2} {any} {list})
3 any (fold-left {f2} {any} {list})
3 any (fold-right {f2} {any} {list})
2 int (fold-left + {int} {ints})
3 list (filter {p1} {list})
3 ints (filter {q1} {ints})
3 list (remove {p1} {list})
2 ints (remove {q1} {ints})
3 lists (partition {p1} {list})
3 any (find {p1} {list})
2 any (find {q1} {ints})
2 any (find-tail {p1} {list})
2 any (memp {q1} {ints})
4 ints (sort {ints} {lt})
2 any (apply {g2} {ints})
2 any (apply {f1} {any} '())
2 any (apply list {any*} {list})
1 any (apply + {ints})
2 any (apply {f3} {any} {any} {lists})
`)
	ops("mut", `
4 stmt (set-car! {list!} {any})
3 stmt (set-cdr! {list!} {list})
1 stmt (set-cdr! {list!} {any})
4 stmt (set-nth! {list!} {idx} {any})
1 stmt (set-nth! {list} {idx} {any})
3 stmt (append! {list!} {list})
1 stmt (append! {list!} {any})
2 stmt (append! {list} {list!})
2 stmt (set-car! (list-tail {list!} {cnt}) {any})
2 stmt (set-cdr! (last-pair {list!}) {list})
2 stmt (set! {list!} {list})
2 stmt (set! {list!} (cons {any} {list!}))
1 stmt (set-car! {any} {any})
1 stmt (set-cdr! {any} {list})
2 stmt (set-nth! {lists!} {idx} {list!})
2 stmt (for-each (lambda (c) (if (pair? c) (set-car! c {any}))) {lists!})
`)
	ops("mutsrc", `
3 list (list {list!} {list!})
3 list (cons {any} {list!})
2 list (append {list} {list!})
2 list (append {list!} {list!})
2 list (copy {list!})
2 list (rest {list!})
2 list (list-tail {list!} {cnt})
2 list (list-head {list!} {cnt})
2 list (reverse {list!})
2 list (map (lambda (c) c) {list!})
2 list {list!}
1 list (apply list {list!})
1 list (cons* {any} {list!})
1 list (filter (lambda (c) #t) {list!})
1 list (sublist {list!} 1 {cnt})
1 list (take {cnt} {list!})
1 list (drop {cnt} {list!})
1 lists (partition {cnt} {list!})
1 any (car {list!})
1 list (memq {any} {list!})
1 list (find-tail {p1} {list!})
2 list (apply (lambda (x . r) r) {list!})
2 list (apply (lambda (x . r) r) {any} {list!})
1 list ((lambda (x . r) r) {any} {any} {list!})
1 list (let () (define (f . r) r) (apply f {list!}))
1 list (let () (define (f . r) (set-car! r {any}) r) (apply f {list!}))
1 list (apply (lambda (x . r) (append! r {list}) r) {list!})
1 list (let () (define (f . r) (map (lambda (c) c) r) (set-cdr! r {list}) r) (apply f {any} {list!}))
1 list (apply append {list} {lists!})
1 list (apply cons* {list!})
1 list (flatten {lists!})
1 list (remove (lambda (c) #f) {list!})
1 list (fold-right cons '() {list!})
1 list (sort {ints!} <)
`)
	ops("set", `
5 set (union {set*})
3 set (union {set} {set})
5 set (intersection {set} {set})
2 set (intersection {set+})
5 set (complement {set} {set})
2 set (complement {set+})
2 any (memq {any} {set})
2 any (member {num} {set})
1 any (memv {any} {set})
`)
	ops("alist", `
5 alist (acons {key} {any} {alist})
1 alist (acons {key} {any})
4 alist (pairlis {set} {list} {alist})
2 alist (pairlis {keys3} (list {any} {any} {any}))
3 alist (pairlis {keys3} (list {any} {any} {any}) {alist})
4 alist (alist {alist})
4 alist (dissoc {key} {alist})
3 any (assq {key} {alist})
3 any (assoc {key} {alist})
2 any (assv {key} {alist})
3 any (rassoc {any} {alist})
2 any (cdr (assq {key} {alist}))
1 any (cdr (assq {alistkey} {alist}))
2 idx (length {alist})
1 alist (copy {alist})
1 alist (append {alist} {alist})
1 bool (alist? {alist})
1 any (caar {alist})
2 any (map car {alist})
2 any (map cdr {alist})
1 any (sort {alist} (lambda (x y) (< (length (str (car x))) (length (str (car y))))))
1 any (sort {alist} (lambda (x y) #f))
1 any (list-tail {alist} {idx})
1 any (apply list {alist})
1 any (take {cnt} {alist})
1 any (drop {cnt} {alist})
1 any (reverse {alist})
1 any (filter (lambda (x) (cdr x)) {alist})
1 any (fold-left (lambda (x y) (cons (car y) x)) '() {alist})
1 any (list (car {alist!}) (cdr {alist!}))
1 any (nth {alist} {idx})
1 any (find (lambda (x) (nil? (cdr x))) {alist})
`)
	litGens["key"] = func(g *Gen) string { return quoted(g.key()) }
	litGens["alistkey"] = litGens["key"]
	litGens["keys3"] = func(g *Gen) string {
		for {
			a, b, c := g.key(), g.key(), g.key()
			if g.oneIn(10) || text(a) != text(b) && text(b) != text(c) && text(a) != text(c) {
				return quoted(list(a, b, c))
			}
			if g.oneIn(10) {
				return "'(a b c)"
			}
		}
	}
	ops("eq", `
5 bool (equal? {any} {any})
3 bool (eqv? {any} {any})
2 any (let ((o {nanish})) (list (eqv? o o) (eq? o o) (equal? o o) (== o o) (equal? (list 1 o) (list 1 o)) (!= o o)))
2 any (let* ((a {mko}) (b {mko}) (c a)) (list (equal? a b) (eq? a c) (eqv? b c) (== a b) (neq? a b) (!= a c) (equal? (list 1 a) (list 1 b)) (equal? (make-frame x: a) (make-frame x: c)) (equal? (make-frame x: a) (make-frame x: b))))
1 bool (equal? {mko} {mko})
1 bool (equal? {mko} {any})
1 bool (equal? {any} {mko})
2 any (let* ((a {mko}) (b (copy a)) (c (list a {any})) (d (copy c))) (list (equal? a b) (equal? c d) (equal? (car c) (car d))))
2 bool (== {any} {any})
2 bool (eq? {any} {any})
3 bool (neq? {any} {any})
1 bool (!= {any} {any})
6 any {near}
5 any (let ((o {any})) (equal? o (copy o)))
2 any (copy {any})
2 any (copy {frame})
2 any (copy {alist})
1 bool (equal? {frame} {frame})
1 bool (equal? {alist} {alist})
1 bool (equal? {bytes} {bytes})
2 bool (equal? {list} {list})
2 any (let* ((o {frame}) (c (copy o))) (set-slot! c a: {any}) (list o c (equal? o c)))
2 any (let* ((o {list}) (c (copy o))) (set-car! c {any}) (list o c (equal? o c)))
2 any (let* ((o (list {frame} {list} {frame})) (c (copy o))) (set-slot! (third c) b: {any}) (set-cdr! c {list}) (list o c (equal? o c)))
2 any (let* ((o {frame}) (c (copy o))) (set-slot! (get-slot c foo:) b: {any}) (list o c (equal? o c)))
1 any (let* ((o (list 1 (cons {any} {any}) (list 3 (list {any} {list})))) (c (copy o))) (set-car! (second (third c)) {any}) (list o c (equal? o c)))
2 any (let* ((o (list {str} (list {str} {list}) (cons {str} {str}))) (c (copy o))) (string-upcase! (car c)) (string-capitalize! (car (second o))) (string-downcase! (cdr (third c))) (list o c (equal? o c)))
1 any (let* ((s {str}) (c (copy s))) (string-upcase! c) (list s c (equal? s c)))
1 any (let* ((s {str}) (c s)) (string-upcase! c) (list s c (equal? s c)))
1 any (let ((f {frame}) (g {frame})) (set-slot! f s: f) (set-slot! g s: g) (list (equal? f g) (equal? g f) (equal? f f)))
1 any (let ((f (make-frame a: 1)) (g (make-frame a: 1)) (h (make-frame a: {idx}))) (set-slot! f s: f) (set-slot! g s: h) (set-slot! h s: g) (list (equal? f g) (equal? g f) (equal? h g) (equal? (list f g h) (list g h f))))
2 any (let* ((f {frame}) (l (list 1 f))) (set-slot! f s: l) (let ((g (copy f))) (list (equal? f g) (eq? (get-slot g s:) l) (begin (set-slot! g a: 99) (equal? f g)) (get-slot (second (get-slot g s:)) a:) f)))
`)
	// a copy of a structure, then a change somewhere inside one of the two
	opFn("eq", "any", 8, func(g *Gen, d int) string {
		var places []copyPlace
		e := g.copyStructAt(3, "@", &places)
		if len(places) == 0 {
			return "(copy " + e + ")"
		}
		var b strings.Builder
		b.WriteString("(let* ((o " + e + ") (c (copy o)))")
		for n := 1 + g.pick(2); n > 0; n-- {
			pl := places[g.pick(len(places))]
			b.WriteString(" " + strings.Replace(pl.change(g), "@", strings.Replace(pl.path, "@", oneOf(g, "o", "c"), 1), 1))
		}
		return b.String() + " (list o c (equal? o c)))"
	})
	// what a local variable is called makes no difference to the functions used
	// next to it, unless it has the name of one of them
	opFn("hof", "any", 4, func(g *Gen, d int) string {
		name := oneOf(g, "quote", "quote", "quote", "list", "cons", "car", "eval", "lambda", "if", "let", "begin", "quasiquote", "define", "append")
		l := "(list"
		for n := 1 + g.pick(4); n > 0; n-- {
			l += " " + oneOf(g, "1", "-2", "3", "'a", "'(1 2)", "'()", g.expr("any", 0))
		}
		l += ")"
		f1 := oneOf(g, "-", "length", "null?", "cdr", "list?", "not", "str", "symbol?", g.expr("f1", 0))
		f2 := oneOf(g, "eqv?", "+", "nth", "equal?", g.expr("f2", 0))
		call := oneOf(g, "(map f l)", "(map h l l)", "(for-each f l)", "(filter f l)", "(remove f l)", "(find f l)", "(find-tail f l)", "(any f l)", "(every f l)", "(every h l l)", "(partition f l)", "(memp f l)",
			"(fold-left h 0 l)", "(fold-right h 0 l)", "(reduce-left h 0 l)", "(reduce-right h 0 l)", "(apply f (first l) nil)", "(apply h 1 l)", "(apply max 1 l)", "(sort l <)", "(sort l h)")
		local := oneOf(g, "7", "'a", "list", "nil", g.expr("any", 0))
		return oneOf(g,
			"((lambda (f h l "+name+") "+call+") "+f1+" "+f2+" "+l+" "+local+")",
			"(let ((f "+f1+") (h "+f2+") (l "+l+") ("+name+" "+local+")) "+call+")",
			"(let ((f "+f1+") (h "+f2+") (l "+l+")) (let (("+name+" "+local+")) "+call+"))")
	})
	// an entry of an association list, which can be changed through the list
	opFn("eq", "any", 3, func(g *Gen, d int) string {
		var places []copyPlace
		v := g.copyStructAt(g.pick(2), "(cdr (assoc 'k al))", &places)
		o := oneOf(g, "(assoc 'k al)", "(list 1 (assoc 'k al))", "(make-frame e: (assoc 'k al))", "(acons 'm (assoc 'k al) '())", "(cons (assoc 'k al) 2)", "al", "(cdr al)")
		change := "(acons 'k 'new al)"
		if len(places) > 0 && g.oneIn(2) {
			pl := places[g.pick(len(places))]
			change = strings.Replace(pl.change(g), "@", pl.path, 1)
		}
		return "(let* ((al (acons 'j 0 (acons 'k " + v + " '()))) (o " + o + ") (c (copy o))) " + change + " (list o c (equal? o c)))"
	})
	// an association list or one of its entries against a plain list or pair of
	// the same, or nearly the same, content; both ways round
	opFn("eq", "any", 9, func(g *Gen, d int) string {
		keys := []string{"a", "b", "c", "2"}
		g.shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		n := 1 + g.pick(3)
		vals := make([]V, n)
		for i := range vals {
			vals[i] = oneOf[V](g, int64(1), int64(2), Sym("x"), list(int64(1)), nil, g.datum(1))
		}
		al, ks := "'()", make([]int, n)
		for i := range vals {
			al = "(acons '" + keys[i] + " " + quoted(vals[i]) + " " + al + ")"
			ks[i] = n - 1 - i
		}
		if g.oneIn(2) {
			g.shuffle(n, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		}
		change := -1
		if g.oneIn(3) {
			change = g.pick(n)
		}
		pl := "(list"
		for i, k := range ks {
			key, v := keys[k], vals[k]
			if i == change {
				if g.oneIn(3) {
					key = oneOf(g, "z", "a", "c")
				} else {
					v = g.mutate(mCopy(v, 0), 3)
				}
			}
			pl += " (cons '" + key + " " + quoted(v) + ")"
		}
		if g.oneIn(12) {
			pl += oneOf(g, " 5", " '(z . 1)", " '()")
		}
		pl += ")"
		x, y := al, pl
		switch g.pick(6) {
		case 0:
			x, y = "(assoc '"+keys[n-1]+" x)", "(car y)"
		case 1:
			x, y = "(cons 1 x)", "(cons 1 y)"
		case 2:
			x, y = "(list 'q x)", "(list 'q y)"
		case 3:
			x, y = "{s: x}", "{s: y}"
		default:
			x, y = "x", "y"
		}
		if g.oneIn(5) {
			pl = "(acons '" + keys[0] + " " + quoted(vals[0]) + " " + strings.Replace(pl, "(list (cons '"+keys[0]+" ", "(list (cons 'y ", 1) + ")"
		}
		return "(let ((x " + al + ") (y " + pl + ")) (list (equal? " + x + " " + y + ") (equal? " + y + " " + x + ")))"
	})
	// two data that differ in at most one place
	opFn("eq", "any", 8, func(g *Gen, d int) string {
		v := g.datum(3)
		w := mCopy(v, 0)
		if g.pct(70) {
			w = g.mutate(w, 4)
		}
		return "(" + oneOf(g, "equal?", "eqv?", "==", "neq?", "!=", "eq?") + " " + quoted(v) + " " + quoted(w) + ")"
	})
	litGens["near"] = func(g *Gen) string {
		v := g.datum(3)
		w := g.mutate(mCopy(v, 0), 4)
		return "(equal? " + quoted(v) + " " + quoted(w) + ")"
	}
	ops("pred", `
bool (list? {any})
bool (pair? {any})
bool (nil? {any})
bool (notnil? {any})
bool (symbol? {any})
bool (string? {any})
bool (integer? {any})
bool (float? {any})
bool (number? {any})
bool (function? {any})
bool (not {any})
bool (boolean? {any})
bool (atom? {any})
bool (frame? {any})
bool (bytearray? {any})
bool (null? {any})
bool (notnull? {any})
bool (! {any})
bool (macro? {any})
bool (alist? {list})
`)
	ops("cmp", `
2 bool (< {int} {int})
2 bool (> {int} {int})
1 bool (<= {int} {int})
1 bool (>= {int} {int})
1 bool (even? {int})
1 bool (odd? {int})
1 bool (zero? {num})
1 bool (positive? {num})
1 bool (eqv? {any} {any})
1 bool (equal? {list} {list})
`)
}

// mutate changes one part of a datum.
func (g *Gen) mutate(v V, d int) V {
	switch x := v.(type) {
	case *Pair:
		if d == 0 {
			return g.atom()
		}
		switch g.pick(6) {
		case 0:
			x.cdr = g.mutate(x.cdr, d-1)
		case 1:
			if g.pct(50) {
				return x.cdr
			}
			return cons(g.atom(), v)
		case 2:
			return g.atom()
		default:
			n := g.pick(6)
			p := x
			for ; n > 0; n-- {
				q, ok := p.cdr.(*Pair)
				if !ok {
					if g.pct(40) {
						p.cdr = g.mutate(p.cdr, d-1)
						if _, ok := p.cdr.(*Pair); ok {
							return v
						}
						return v
					}
					break
				}
				p = q
			}
			p.car = g.mutate(p.car, d-1)
		}
		return v
	case *MFrame:
		ks := sortedKeys(x.slots)
		if len(ks) == 0 || g.oneIn(4) {
			x.slots[oneOf(g, "a:", "z:", "n:")] = g.atom()
			return v
		}
		k := ks[g.pick(len(ks))]
		switch g.pick(4) {
		case 0:
			delete(x.slots, k)
		case 1:
			w := x.slots[k]
			delete(x.slots, k)
			x.slots[oneOf(g, "a:", "z:", "n:")] = w
		default:
			x.slots[k] = g.mutate(x.slots[k], d-1)
		}
		return v
	case *MBytes:
		if len(x.b) == 0 || g.oneIn(4) {
			x.b = append(x.b, 0)
		} else if g.oneIn(3) {
			x.b = x.b[:len(x.b)-1]
		} else {
			x.b[g.pick(len(x.b))] ^= byte(1 << uint(g.pick(8)))
		}
		return v
	case int64:
		return oneOf[V](g, x+1, float32(x), -x, &MStr{s: fmt.Sprint(x)}, x^(1<<40))
	case float32:
		return oneOf[V](g, x+1, x/2, int64(1))
	case *MStr:
		return oneOf[V](g, &MStr{s: x.s + " "}, &MStr{s: strings.ToUpper(x.s)}, Sym("a"))
	case bool:
		return oneOf[V](g, !x, nil)
	case nil:
		return oneOf[V](g, false, list(nil), int64(0), &MStr{s: ""})
	}
	return g.atom()
}

func init() {
	all := []string{"list", "ints", "lists", "any", "int"}
	register(progProp("C03", "programs of 3-9 top-level forms that build lists of every size (empty, long, dotted, nested) and read them with the accessors; non-trivial: at least three forms produced a value that was compared with the reference model",
		26000, 700000, []string{"acc", "list"}, progOpts{types: all, results: []string{"any", "any", "list", "idx"}, minF: 3, maxF: 9, depth: 3, stmtPct: 0},
		func(f []string, r *progResult) bool { return r.good(3) }))
	register(progProp("C04", "programs of 3-9 forms applying the higher-order functions to generated lists and generated functions (closures, primitives, effectful and failing functions); every application is traced; non-trivial: at least two values compared",
		22000, 600000, []string{"hof"}, progOpts{types: all, results: []string{"any", "any", "list", "bool", "lists", "ints"}, minF: 3, maxF: 8, depth: 3},
		func(f []string, r *progResult) bool { return r.good(2) }))
	register(progProp("C05", "histories of 6-20 forms that define lists sharing structure and mutate them in place, ending with every variable; non-trivial: at least one mutation succeeded and six values were compared",
		20000, 500000, []string{"mut", "mutsrc", "-set"}, progOpts{types: []string{"list", "lists", "list", "ints"}, results: []string{"any", "list"}, minF: 6, maxF: 20, depth: 2, stmtPct: 75, echo: true},
		func(f []string, r *progResult) bool {
			m := false
			for _, s := range f {
				m = m || strings.Contains(s, "!")
			}
			return m && r.good(6)
		}))
	register(progProp("C06", "programs of 3-8 forms combining union, intersection, complement and membership over lists with duplicates and nested elements; non-trivial: at least two values compared",
		22000, 500000, []string{"set"}, progOpts{types: []string{"set", "set", "list"}, results: []string{"set", "any", "set"}, minF: 3, maxF: 8, depth: 3, echo: true},
		func(f []string, r *progResult) bool { return r.good(2) }))
	register(progProp("C07", "programs of 3-10 forms building and updating association lists with keys of every kind; non-trivial: at least two values compared",
		22000, 500000, []string{"alist"}, progOpts{types: []string{"alist", "alist", "any"}, results: []string{"alist", "any", "any", "idx"}, minF: 3, maxF: 10, depth: 3, echo: true},
		func(f []string, r *progResult) bool { return r.good(2) }))
	litGens["mko"] = func(g *Gen) string { // values compared by identity
		return oneOf(g, "(atomic 1)", "(atomic 1)", "(atomic 2)", "(make-channel 2)", "(make-channel 2)", "(make-channel)", "(the-environment)", "((lambda (x) (the-environment)) 1)", "((lambda (x) (the-environment)) 1)", "(let ((x 2)) (the-environment))",
			"(lambda (x) x)", "(lambda (x) x)", "(named-lambda (f x) x)", "car", "cdr", "if", "(list->bytearray (list 1 2))", "(make-frame a: (atomic 1))", "(system-global-environment)", "(cons (atomic 1) (atomic 1))")
	}
	litGens["nanish"] = func(g *Gen) string {
		return oneOf(g, "nan", "nan", "(- +inf +inf)", "(* nan 0)", "(bits->float 2143289344)", "+inf", "-inf", "(list nan)", "(make-frame a: nan)", "0.0", "(- 0.0)")
	}
	register(progProp("C08", "pairs of data equal or differing in one place (element, tail, slot name, slot value, byte, type), copies, and mutations of copies; non-trivial: at least two values compared",
		22000, 500000, []string{"eq"}, progOpts{types: []string{"any", "list", "frame", "alist"}, results: []string{"bool", "any"}, minF: 3, maxF: 8, depth: 2},
		func(f []string, r *progResult) bool { return r.good(2) }))
}

// A place inside a structure that can be changed: how to reach it from @, and
// the change.
type copyPlace struct {
	path   string
	change func(g *Gen) string
}

// copyStructAt makes an expression for a fresh nested structure and notes the
// places in it that can be changed in place.
func (g *Gen) copyStructAt(d int, path string, places *[]copyPlace) string {
	note := func(f func(g *Gen) string) { *places = append(*places, copyPlace{path, f}) }
	kind := g.pick(8)
	if d == 0 {
		kind = 4 + g.pick(4)
	}
	n := 1 + g.pick(3)
	switch kind {
	case 0, 1:
		var b strings.Builder
		b.WriteString("(list")
		for i := 0; i < n; i++ {
			b.WriteString(" " + g.copyStructAt(d-1, fmt.Sprintf("(nth %s %d)", path, i+1), places))
		}
		note(func(g *Gen) string {
			if g.oneIn(2) {
				return fmt.Sprintf("(set-nth! @ %d 'new)", 1+g.pick(n))
			}
			return fmt.Sprintf("(set-car! (list-tail @ %d) 'new)", g.pick(n))
		})
		if g.oneIn(3) {
			return "(append! " + b.String() + ") (list 7 8))"
		}
		return b.String() + ")"
	case 2:
		var b strings.Builder
		b.WriteString("(make-frame")
		for i := 0; i < n; i++ {
			k := string(rune('a' + i))
			b.WriteString(" " + k + ": " + g.copyStructAt(d-1, fmt.Sprintf("(get-slot %s %s:)", path, k), places))
		}
		note(func(g *Gen) string {
			return oneOf(g, "(set-slot! @ a: 'new)", "(set-slot! @ z: 'new)", "(remove-slot! @ a:)")
		})
		return b.String() + ")"
	case 3:
		e := "'()"
		for i := 0; i < n; i++ {
			k := string(rune('a' + i))
			e = "(acons '" + k + " " + g.copyStructAt(d-1, fmt.Sprintf("(cdr (assoc '%s %s))", k, path), places) + " " + e + ")"
		}
		note(func(g *Gen) string {
			return oneOf(g, "(acons 'a 'new @)", "(acons 'b 'new @)", "(acons 'c 'new @)")
		})
		return e
	case 4:
		note(func(g *Gen) string { return oneOf(g, "(string-upcase! @)", "(string-capitalize! @)") })
		return "(str " + quoted(newStr(oneOf(g, "ab", "x", "Yz"))) + " 1)"
	case 5:
		note(func(g *Gen) string { return oneOf(g, "(replace-byte! @ 0 77)", "(append-bytes! @ 5)") })
		return "(list->bytearray (list 1 2 3))"
	case 6:
		if d > 0 {
			return "(cons " + g.copyStructAt(d-1, "(car "+path+")", places) + " " + g.copyStructAt(0, "(cdr "+path+")", places) + ")"
		}
		return "5"
	default:
		return oneOf(g, "1", "'s", "#t", "'()", "2.5")
	}
}
