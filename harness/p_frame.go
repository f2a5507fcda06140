package main

import (
	"strconv"
	"strings"
)

var slotNames = []string{"a:", "b:", "c:", "x1:", "foo:", "total:"}

// names of slots that end like a shortcut
var endNames = []string{"ok?:", "b!:", "up>:", "s^:", "c::", "a?:"}
var parentNames = []string{"p*:", "q*:", "parent*:"}

func (g *Gen) slot() string {
	if g.oneIn(14) {
		return endNames[g.pick(len(endNames))]
	}
	return slotNames[g.pick(len(slotNames))]
}

func (g *Gen) dataSlot() string {
	if g.oneIn(10) {
		return g.slot()
	}
	return slotNames[g.pick(3)]
}

func (g *Gen) methSlot() string {
	if g.oneIn(10) {
		return g.slot()
	}
	return slotNames[3+g.pick(3)]
}

func (g *Gen) frameRef() string {
	if v, ok := g.varOf("frame"); ok && g.pct(96) {
		return v
	}
	return oneOf(g, "{}", "{a: 1}", "{a: 1 foo: (lambda (x) a)}", "{c: 3}", "'()", "5")
}

func (g *Gen) frameLit(d int, methods bool) string {
	var b strings.Builder
	b.WriteString("{")
	used := map[string]bool{}
	for n := 1 + g.size(4, 7); n > 0; n-- {
		k := g.slot()
		if used[k] {
			continue
		}
		used[k] = true
		b.WriteString(k + " ")
		if methods && g.pct(map[bool]int{true: 90, false: 8}[len(k) > 2]) {
			b.WriteString(g.method(d))
		} else {
			if g.oneIn(9) {
				b.WriteString(oneOf(g, g.lit("nil"), "(if #f 1)", "unboundv"))
			} else {
				b.WriteString(g.expr(oneOf(g, "int", "any", "int", "str", "list"), d-1))
			}
		}
		b.WriteString(" ")
	}
	for _, p := range parentNames[:1+g.pick(2)] {
		if v, ok := g.varOf("frame"); ok && g.pct(50) {
			b.WriteString(p + " " + v + " ")
		} else if g.oneIn(12) {
			b.WriteString(p + " " + oneOf(g, "5", "'()", "nil", "\"x\"") + " ")
		}
	}
	if g.pct(25) { // slots that hold a frame without being parents
		if v, ok := g.varOf("frame"); ok {
			b.WriteString(decoyNames[g.pick(len(decoyNames))] + " " + v + " ")
		}
	}
	return strings.TrimSpace(b.String()) + "}"
}

var decoyNames = []string{"a*b:", "*p:", "p*x:", "p:", "p**q:", "parent:"}

// a method body refers to slots as variables, assigns them, sends to self and
// to super
func (g *Gen) method(d int) string {
	params := oneOf(g, "", "", "y", "a", "y z", "y . r")
	var vs []gvar
	for _, p := range strings.Fields(strings.Replace(params, ".", "", 1)) {
		vs = append(vs, gvar{p, "any"})
	}
	var body []string
	g.with(vs, func() {
		for n := 1 + g.pick(2); n > 0; n-- {
			body = append(body, g.methodExpr(d))
		}
	})
	return "(lambda (" + params + ") " + strings.Join(body, " ") + ")"
}

func (g *Gen) methodExpr(d int) string {
	bare := func() string { return strings.TrimSuffix(g.dataSlot(), ":") }
	meth := func() string { return strings.TrimSuffix(g.methSlot(), ":") }
	arg := func() string {
		if d <= 0 || g.pct(50) {
			return oneOf(g, bare(), strconv.Itoa(g.pick(9)), bare())
		}
		return g.methodExpr(d - 1)
	}
	if d <= 0 {
		return bare()
	}
	switch g.pick(17) {
	case 16:
		return oneOf(g, "((gfn) ", "((lambda () (gfn)) ", "((let ((k (gfn))) k) ") + arg() + ")"
	case 0, 1:
		return bare()
	case 2, 3:
		return "(set! " + bare() + " " + arg() + ")"
	case 4:
		return "(" + g.dataSlot() + " self)"
	case 5:
		return "(" + g.dataSlot() + "! self " + arg() + ")"
	case 6:
		return "(" + meth() + ")"
	case 7:
		return "(" + meth() + " " + arg() + ")"
	case 8:
		return "(send self " + g.methSlot() + ")"
	case 9:
		return "(" + g.methSlot() + "> self " + arg() + ")"
	case 10:
		return "(list " + arg() + " " + arg() + " (integer? a))"
	case 11:
		return "(let ((" + bare() + " " + arg() + ")) (list " + arg() + " " + arg() + "))"
	case 12:
		return "((lambda (k) (list k " + bare() + " " + arg() + ")) " + arg() + ")"
	case 13:
		return "(begin (emit! " + arg() + ") (eq? self self))"
	case 14:
		return "(if (integer? " + bare() + ") (list " + arg() + ") (has-slot? self " + g.slot() + "))"
	default:
		return oneOf(g, "("+g.methSlot()+"^)", "(send-super "+g.methSlot()+")", "("+g.methSlot()+"^ "+arg()+")")
	}
}

func init() {
	litGens["slot"] = func(g *Gen) string { return g.slot() }
	litGens["ms"] = func(g *Gen) string { return g.methSlot() }
	litGens["pslot"] = func(g *Gen) string { return parentNames[g.pick(2)] }
	litGens["fr"] = func(g *Gen) string { return g.frameRef() }
	litGens["badkey"] = func(g *Gen) string { return oneOf(g, "'a", "\"a:\"", "5", "a", "'()") }
	litGens["decoy"] = func(g *Gen) string { return decoyNames[g.pick(len(decoyNames))] }
	ops("frame", `
2 stmt (set-slot! {fr} {decoy} {fr})
1 any (canon! (frame-keys (get-slot {fr} {decoy})))
6 any (get-slot {fr} {slot})
5 any (get-slot-or-nil {fr} {slot})
6 bool (has-slot? {fr} {slot})
4 bool (has-slot? {fr} {pslot})
1 any (get-slot {fr} {badkey})
1 any (has-slot? {fr} {badkey})
1 any (get-slot-or-nil {fr} {badkey})
4 frame (clone {fr})
3 any (canon! (frame-keys {fr}))
3 any (canon! (frame-values {fr}))
3 bool (eqv? {fr} {fr})
2 bool (equal? {fr} {fr})
2 bool (frame? {any})
3 any {fr}
1 frame (make-frame {slot} {any} {slot} {any})
2 any (length {fr})
1 any (make-frame {slot} {any} {slot})
8 stmt (set-slot! {fr} {slot} {any})
4 stmt (set-slot! {fr} {pslot} {fr})
1 stmt (set-slot! {fr} {pslot} {any})
5 stmt (remove-slot! {fr} {slot})
4 stmt (remove-slot! {fr} {pslot})
1 stmt (set-slot! {fr} {badkey} {any})
1 stmt (remove-slot! {fr} {badkey})
`)
	opFn("frame", "any", 4, func(g *Gen, d int) string { return "(" + g.slot() + " " + g.frameRef() + ")" })
	opFn("frame", "bool", 4, func(g *Gen, d int) string { return "(" + g.slot() + "? " + g.frameRef() + ")" })
	opFn("frame", "stmt", 4, func(g *Gen, d int) string {
		return "(" + g.slot() + "! " + g.frameRef() + " " + g.expr("any", d-1) + ")"
	})
	opFn("frame", "frame", 12, func(g *Gen, d int) string { return g.frameLit(d, false) })
	opFn("method", "frame", 10, func(g *Gen, d int) string { return g.frameLit(d, true) })
	opFn("method", "frame", 3, func(g *Gen, d int) string { return "(clone " + g.frameRef() + ")" })
	ops("method", `
14 any (send {fr} {ms})
10 any (send {fr} {ms} {int})
3 any (send {fr} {ms} {any} {any})
4 any (apply-slot {fr} {ms} {list})
2 any (apply-slot {fr} {ms} {any} {list})
1 any (apply-slot {fr} {ms} {any})
1 any (send-super {slot})
1 any (send {fr} {badkey})
3 any {fr}
1 any a
3 any (get-slot {fr} {slot})
3 stmt (set-slot! {fr} {slot} {any})
3 stmt (set-slot! {fr} {pslot} {fr})
2 stmt (remove-slot! {fr} {slot})
`)
	opFn("method", "any", 8, func(g *Gen, d int) string {
		return "(" + g.methSlot() + "> " + g.frameRef() + oneOf(g, "", " "+g.expr("any", d-1)) + ")"
	})
	opFn("method", "stmt", 5, func(g *Gen, d int) string {
		return "(set-slot! " + g.frameRef() + " " + g.methSlot() + " " + g.method(2) + ")"
	})
	opFn("method", "stmt", 3, func(g *Gen, d int) string {
		return "(define (call-it f) " + oneOf(g, "(send f foo:)", "(x1:> f)", "((foo: f))", "(list (total:> f 1) a)", "(let ((foo f)) (foo:> foo))") + ")"
	})
	opFn("method", "any", 3, func(g *Gen, d int) string { return "(call-it " + g.frameRef() + ")" })

	register(progProp("C17", "histories of 6-20 forms over a few frames that inherit from each other (several parents, cycles, clones, aliases, non-frame parents): reads by primitive and by shortcut, writes, removals, listing; then every slot of every frame is read; non-trivial: at least six values compared",
		16000, 400000, []string{"frame"}, progOpts{types: []string{"frame"}, results: []string{"any", "bool"}, minF: 6, maxF: 20, depth: 2, stmtPct: 60, echo: true},
		func(f []string, r *progResult) bool { return r.good(6) }).finish(func(g *Gen, forms []string) []string {
		for _, v := range g.scope {
			if v.ty == "frame" {
				forms = append(forms, "(list (get-slot-or-nil "+v.name+" a:) (get-slot-or-nil "+v.name+" b:) (get-slot-or-nil "+v.name+" c:) (has-slot? "+v.name+" foo:) (has-slot? "+v.name+" p*:))")
			}
		}
		return forms
	}).tune(func(g *Gen) { g.pPrim = 88 }))
	register(progProp("C18", "histories of 5-16 forms over frames whose slots hold methods that read and assign slots as variables, call sibling slots, send to self and super, shadow slots with parameters; non-trivial: a message was sent and at least four values compared",
		16000, 400000, []string{"method"}, progOpts{types: []string{"frame"}, results: []string{"any"}, minF: 5, maxF: 16, depth: 2, stmtPct: 40, echo: true},
		func(f []string, r *progResult) bool {
			return r.good(4) && strings.Contains(strings.Join(f, " "), ">")
		}).tune(func(g *Gen) { g.pPrim = 92 }).finish(func(g *Gen, forms []string) []string {
		if g.pct(70) {
			forms = g.worldForms()
		}
		return append([]string{"(define (gfn) (lambda (z) (list z a b)))"}, forms...)
	}))
}

func (p *Prop) finish(f func(g *Gen, forms []string) []string) *Prop { p.finishF = f; return p }
