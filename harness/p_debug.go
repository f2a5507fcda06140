package main

// The debugger (C36): sessions in which the program stops and commands are
// typed at the stops, each a process of its own.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type dbgCase struct {
	Defs  []string // loaded from a file
	Lines []string // typed at the prompt
	Cmds  []string // typed at the stops, in order; then :c
}

var dbgName = regexp.MustCompile(`^(f[0-3]|lp|emit!|unnamed)$`)
var dbgFrame = regexp.MustCompile(`^Frame [0-9]+: `)

// dbgEvents lists the responses in the output of a session.
func dbgEvents(out string) []string {
	var ev []string
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "D> "):
			ev = append(ev, "D>")
		case strings.HasPrefix(l, "> "):
			ev = append(ev, ">")
		case strings.HasPrefix(l, "Error: "), strings.HasPrefix(l, "Error in evaluation: "):
			ev = append(ev, l[:strings.Index(l, ": ")+2])
		case strings.HasPrefix(l, "Error"):
			ev = append(ev, l)
		case l == "Unknown code":
			ev = append(ev, "Eval ?")
		case strings.HasPrefix(l, "Missing "), strings.HasPrefix(l, "Bad frame"):
			ev = append(ev, "Missing")
		case l == "Debugger", l == "No such function", l == "Already at top frame.", l == "on/off expected.", l == "Invalid frame selected.",
			strings.HasPrefix(l, "Eval "), strings.HasPrefix(l, "==> "), strings.HasPrefix(l, "<<"), strings.HasPrefix(l, "ERROR!"),
			strings.HasPrefix(l, "   ") && strings.Contains(l, " => "), dbgFrame.MatchString(l), strings.HasPrefix(l, "Don't Panic"):
			ev = append(ev, l)
		case dbgName.MatchString(l):
			if n := len(ev); n > 0 && strings.HasPrefix(ev[n-1], "names ") {
				ev[n-1] += " " + l
			} else {
				ev = append(ev, "names "+l)
			}
		}
	}
	for len(ev) > 0 && ev[0] != ">" { // while loading
		ev = ev[1:]
	}
	for i, e := range ev {
		if strings.HasPrefix(e, "names ") {
			n := strings.Split(e[6:], " ")
			sort.Strings(n)
			ev[i] = "names " + strings.Join(n, " ")
		}
	}
	return sortDumps(ev)
}

// sortDumps puts the variables of each frame that was shown in order.
func sortDumps(ev []string) []string {
	for i := 0; i < len(ev); i++ {
		j := i
		for j < len(ev) && strings.HasPrefix(ev[j], "   ") {
			j++
		}
		sort.Slice(ev[i:j], func(a, b int) bool {
			return strings.SplitN(ev[i+a], " => ", 2)[0] < strings.SplitN(ev[i+b], " => ", 2)[0]
		})
		if j > i {
			i = j
		}
	}
	return ev
}

func runDbgCase(ci interface{}, r *Rec) error {
	c := ci.(*dbgCase)
	inModel(true)
	defer inModel(false)
	in := debugModel(c.Cmds)
	d := in.dbg
	if o := in.modelLoad(&cliFile{Forms: c.Defs}); o.kind == 'u' || len(d.ev) > 0 {
		r.Class("unspecified")
		return nil
	}
	d.flush()
	d.ev = nil
	env := newEnvBelow(in.global, "Repl")
	quit := false
	n := 0
	for _, l := range c.Lines {
		d.cur, d.single, d.dirty, env.code = nil, false, false, nil
		ev, ty := d.ev, d.typed
		d.event(">")
		d.typed = append(d.typed, l)
		unspecified := ""
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case mUnspec:
					unspecified = x.why
				case mQuit:
					d.flush()
					quit = true
				default:
					panic(x)
				}
			}()
			v, err := mParse(l)
			if err != nil {
				if l != "" {
					d.event("Error: ")
				}
				return
			}
			in.depth = 0
			x, e := in.try(func() V { return in.eval(v, env) })
			if e != nil {
				d.event("Error in evaluation: ")
				if d.onError {
					d.dirty = true
					d.stop(env)
					d.flush()
				}
				return
			}
			d.event("==> %s", orAny(writtenOr(x)))
			n++
		}()
		if unspecified != "" {
			r.Class("unspecified: " + short(unspecified, 40))
			d.ev, d.typed, in.out = ev, ty, nil
			break
		}
		if quit {
			break
		}
	}
	if !quit {
		d.event(">")
	}
	inModel(false)
	dir, err := os.MkdirTemp(workDir, "dbg")
	if err != nil {
		bugf("%v", err)
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "base.lsp"), []byte(strings.Join(c.Defs, "\n")+"\n"), 0644); err != nil {
		bugf("%v", err)
	}
	out, _, err := runCli(dir, strings.Join(append(append([]string{}, d.typed...), "(quit)"), "\n")+"\n", "base.lsp")
	desc := func() string {
		return fmt.Sprintf("base.lsp:\n%s\ntyped:\n%s", strings.Join(c.Defs, "\n"), strings.Join(d.typed, "\n"))
	}
	if err != nil {
		return fmt.Errorf("%v\n%s", err, desc())
	}
	got, want := dbgEvents(out), sortDumps(d.ev)
	for i, w := range want {
		switch w {
		case "Missing on/off.", "Missing frame number.":
			want[i] = "Missing"
		}
	}
	for k := 0; k < len(got) || k < len(want); k++ {
		g, w := "(the end)", "(the end)"
		if k < len(got) {
			g = got[k]
		}
		if k < len(want) {
			w = want[k]
		}
		if g == w || textMatches(g, w) || w == anyText && strings.HasPrefix(g, "Eval ") || strings.HasPrefix(w, "Eval "+anyText) && strings.HasPrefix(g, "Eval ") {
			continue
		}
		return fmt.Errorf("response %d is %q instead of %q\n%s\nall responses: %s", k+1, g, strings.ReplaceAll(w, anyText, "..."), desc(), short(strings.Join(got, "\n"), 3000))
	}
	r.NonTrivial = d.stops >= 2 && n >= 1
	for k, x := range d.kinds {
		if x > 0 {
			r.Class("%s", strings.TrimSpace(k))
		}
	}
	r.Sample = strings.Join(d.typed, "  ")
	return nil
}

// ---- generation ----

// dbgExpr writes an expression over the variables of the function it is in;
// level is how many of f0..f3 it may call.
func (g *Gen) dbgExpr(d, level int) string {
	e := func() string { return g.dbgExpr(d-1, level) }
	if d <= 0 || g.budget <= 0 || g.oneIn(5) {
		return oneOf(g, "0", "1", "2", "a", "b", "x", "y", "n", "acc", "'(1 2)", "\"s\"", "'q", "#t", "#f", "'()", "(debug)", "(+ n 1)", "(emit! n)")
	}
	g.budget--
	switch g.pick(30) {
	case 0, 1, 2:
		return "(debug)"
	case 3, 4:
		return "(emit! " + e() + ")"
	case 5:
		return "(begin " + e() + " " + e() + ")"
	case 6:
		return "(if " + e() + " " + e() + " " + e() + ")"
	case 7:
		return "(let ((x " + e() + ") (y " + e() + ")) " + e() + " " + e() + ")"
	case 8:
		return "(let* ((x " + e() + ") (y " + e() + ")) " + e() + ")"
	case 9, 10, 11, 12, 13:
		if level == 0 {
			return "(list " + e() + " " + e() + ")"
		}
		f := g.pick(level)
		call := ""
		if f%2 == 0 {
			call = fmt.Sprintf("(f%d %s)", f, e())
		} else {
			call = fmt.Sprintf("(f%d %s %s)", f, e(), e())
		}
		if g.oneIn(2) {
			return "(begin " + call + " " + oneOf(g, "a", "n", "(emit! n)", "(list a n)") + ")"
		}
		return call
	case 14, 15:
		return "(set! " + oneOf(g, "n", "acc") + " " + e() + ")"
	case 16:
		return "(+ " + oneOf(g, "n", "1", "2", "(debug)", "(error 5)", "a") + " " + oneOf(g, "1", "n", "(begin (debug) 3)") + ")"
	case 17:
		return "(list " + e() + " " + e() + ")"
	case 18:
		return "(map (lambda (x) " + e() + ") '(1 2))"
	case 19:
		return "(do ((i 0 (+ i 1))) ((== i 2) " + e() + ") " + e() + ")"
	case 20, 21:
		return "(error " + oneOf(g, "\"boom\"", "'bad", "7", "\"two words\"") + ")"
	case 22:
		return "(on-error " + e() + " (lambda (m) " + e() + "))"
	case 23:
		return oneOf(g, "(undefd 1)", "(nothing)")
	case 24:
		return "((lambda (x) " + e() + ") " + e() + ")"
	case 25:
		return "(let lp ((k 0)) (if (< k 2) (begin " + e() + " (lp (+ k 1))) " + e() + "))"
	case 26:
		return oneOf(g, "(cond ("+e()+" "+e()+") (else "+e()+"))", "(case n ((0 1) "+e()+") (else "+e()+"))", "(and "+e()+" "+e()+")", "(or "+e()+" "+e()+")", "(when "+e()+" "+e()+")")
	case 27:
		return "`(k ," + e() + " ,@(list " + e() + "))"
	case 28:
		return "(twice " + e() + ")"
	default:
		return "(set! acc (cons " + e() + " acc))"
	}
}

func (g *Gen) dbgCmd() string {
	switch g.pick(24) {
	case 0, 1, 2, 3:
		return ":c"
	case 4, 5:
		return ":u"
	case 6, 7:
		return ":s"
	case 8, 9, 10:
		g.budget = 5
		return ":r " + g.dbgExpr(g.pick(3), 4)
	case 11:
		return oneOf(g, ":(+ ", ":(- ") + oneOf(g, "f0", "f1", "f2", "f3", "lp", "n", "nosuch", "emit!")
	case 12:
		return oneOf(g, ":(+", ":(-", ":(", ":(", ":?", ":zz", "", ": c", ":r (list 1", ":r )", "(list 1", ":e", ":e maybe", ":f", ":f x", ":t off", ":t")
	case 13:
		return oneOf(g, ":b", ":d", ":f 0", ":f 1", ":f 2", ":f 9")
	case 14:
		return oneOf(g, ":e on", ":e off", ":e off")
	case 15:
		return oneOf(g, "(set! a 9)", "(set! x 8)", "(set! n (+ n 10))", "(define x 5)", "(define a 6)", "(define w 7)", "w")
	case 16, 17:
		return oneOf(g, "a", "b", "x", "y", "n", "acc", "(list a b x y)")
	case 18:
		if g.oneIn(4) {
			return oneOf(g, ":q", "(quit)")
		}
		return "n"
	default:
		g.budget = 6
		return g.dbgExpr(1+g.pick(2), 4)
	}
}

func genDbg(t *rapid.T) *dbgCase {
	g := newGen(t)
	c := &dbgCase{Defs: []string{emitDef, "(define n 0)", "(define acc '())", "(defmacro (twice e) `(list ,e ,e))"}}
	for i := 0; i < 4; i++ {
		g.budget = 8
		p := "a"
		if i%2 == 1 {
			p = "a b"
		}
		body := g.dbgExpr(3, i)
		if g.oneIn(2) {
			body = g.dbgExpr(2, i) + " " + body
		}
		c.Defs = append(c.Defs, fmt.Sprintf("(define (f%d %s) %s)", i, p, body))
	}
	if g.pct(60) {
		for i, m := 0, 1+g.pick(2); i < m; i++ {
			c.Lines = append(c.Lines, fmt.Sprintf("(add-debug-on-entry f%d)", g.pick(4)))
		}
	}
	if g.pct(25) {
		c.Lines = append(c.Lines, "(debug-on-error #t)")
	}
	for i, m := 0, 2+g.pick(5); i < m; i++ {
		switch g.pick(12) {
		case 0:
			c.Lines = append(c.Lines, oneOf(g, "(remove-debug-on-entry f0)", "(remove-debug-on-entry f1)", "(add-debug-on-entry n)", "(remove-debug-on-entry 5)", "(debug-on-entry)", "(debug-on-error)", "(debug-on-error #f)", "(add-debug-on-entry emit!)", "(list 1", "(debug)"))
		case 1:
			c.Lines = append(c.Lines, oneOf(g, "(list n acc)", "(undefd 1)", "n", "(set! acc '())"))
		default:
			g.budget = 8
			k := g.pick(4)
			if g.oneIn(3) {
				c.Lines = append(c.Lines, g.dbgExpr(3, 4))
			} else if k%2 == 0 {
				c.Lines = append(c.Lines, fmt.Sprintf("(f%d %s)", k, g.dbgExpr(1, 4)))
			} else {
				c.Lines = append(c.Lines, fmt.Sprintf("(f%d %s %s)", k, g.dbgExpr(1, 4), g.dbgExpr(1, 4)))
			}
		}
	}
	c.Lines = append(c.Lines, "(list n acc)")
	for i, m := 0, g.pick(14); i < m; i++ {
		c.Cmds = append(c.Cmds, g.dbgCmd())
		for c.Cmds[len(c.Cmds)-1] == ":s" && g.oneIn(2) {
			c.Cmds = append(c.Cmds, ":s")
		}
	}
	ok := func(l []string) (out []string) {
		for _, s := range l {
			if len(s) < 400 {
				out = append(out, s)
			}
		}
		return
	}
	c.Lines, c.Cmds = ok(c.Lines), ok(c.Cmds)
	return c
}

func shrinkDbg(ci interface{}, fails func(c interface{}) bool) interface{} {
	cur := *(ci.(*dbgCase))
	cut := func(l []string, i int) []string { return append(append([]string{}, l[:i]...), l[i+1:]...) }
	for changed := true; changed; {
		changed = false
		try := func(n dbgCase) bool {
			if fails(&n) {
				cur = n
				changed = true
				return true
			}
			return false
		}
		for i := len(cur.Lines) - 1; i >= 0; i-- {
			n := cur
			n.Lines = cut(cur.Lines, i)
			try(n)
		}
		for i := len(cur.Cmds) - 1; i >= 0; i-- {
			n := cur
			n.Cmds = cut(cur.Cmds, i)
			try(n)
		}
		for i := len(cur.Defs) - 1; i > 0; i-- {
			n := cur
			n.Defs = cut(cur.Defs, i)
			try(n)
		}
		for pass := 0; pass < 3; pass++ {
			var l []string
			switch pass {
			case 0:
				l = cur.Lines
			case 1:
				l = cur.Cmds
			case 2:
				l = cur.Defs
			}
			for i := range l {
				if pass == 2 && i == 0 {
					continue
				}
				for _, s := range smallerCmd(l[i]) {
					n := cur
					m := append([]string{}, l...)
					m[i] = s
					switch pass {
					case 0:
						n.Lines = m
					case 1:
						n.Cmds = m
					case 2:
						n.Defs = m
					}
					if try(n) {
						l = m
						break
					}
				}
			}
		}
	}
	return &cur
}

// smallerCmd: smaller, for what is typed at a stop too.
func smallerCmd(s string) []string {
	if strings.HasPrefix(s, ":r ") {
		var out []string
		for _, x := range smaller(s[3:]) {
			out = append(out, ":r "+x)
		}
		return out
	}
	if strings.HasPrefix(s, ":") {
		return nil
	}
	return smaller(s)
}

func init() {
	register(&Prop{ID: "C36", Quick: 12000, Thor: 200000,
		Rule:   "interactive sessions: four functions with stops, errors, effects and calls of each other, 3-8 lines typed at the prompt (calls, stops on entry and on errors switched on and off, unreadable and failing lines), 0-13 commands typed at the stops (continue, return a value, single step, run to the caller, change what is stopped at, show frames, expressions with effects, errors and further stops, malformed commands), each a process of its own; every response against the reference interpreter with a model of the debugger; non-trivial: stopped twice and a line evaluated",
		New:    func() interface{} { return &dbgCase{} },
		Shrink: shrinkDbg,
		Gen:    func(t *rapid.T) interface{} { return genDbg(t) },
		Run:    runDbgCase,
	})
}
