package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

// accepts says whether an argument-count specification admits n.
func accepts(spec string, n int) bool {
	for _, t := range strings.Split(spec, "|") {
		switch {
		case t == "*":
			return true
		case strings.HasPrefix(t, ">="):
			k, _ := strconv.Atoi(t[2:])
			if n >= k {
				return true
			}
		case strings.HasPrefix(t, "("):
			p := strings.Split(strings.Trim(t, "()"), ",")
			lo, _ := strconv.Atoi(p[0])
			hi, _ := strconv.Atoi(p[1])
			if lo <= n && n <= hi {
				return true
			}
		default:
			if k, _ := strconv.Atoi(t); k == n {
				return true
			}
		}
	}
	return false
}

// arityCase is one call with N arguments of something that declares how many
// it takes.
type arityCase struct {
	Kind string // prim, lambda, named, define, macro, host, form
	Name string // of the primitive
	Spec string // declared counts (prim, host, form)
	Req  int    // required parameters (functions, macros)
	Rest bool
	N    int
	Via  string // direct, apply, map, let, nested
}

// primitives that are only called with a count they reject: a proper call
// would block, end the process or change the global state of the session
var arityRejectOnly = map[string]bool{}

func init() {
	for _, n := range strings.Fields("quit exec debug dump panic! profile debug-on-error debug-trace lisp-trace add-debug-on-entry remove-debug-on-entry restrict-environment load write-line write-log sleep list-directory defmacro define do unquote unquote-splicing write newline write-string") {
		arityRejectOnly[n] = true
	}
	register(&Prop{ID: "C11", Quick: 40000, Thor: 600000,
		Rule: "one call with 0-12 effectful arguments of a primitive, of a host primitive or special form registered with a generated count specification, of a lambda/named-lambda/define with fixed and rest parameters or of a macro, made directly, through apply, map, or inside let; oracle: rejected exactly when the count is not declared, before any argument is evaluated, and otherwise every argument arrives once, in order; non-trivial: at least two arguments",
		New:  func() interface{} { return &arityCase{} },
		Gen: func(t *rapid.T) interface{} {
			g := &Gen{t: t}
			c := &arityCase{Kind: oneOf(g, "prim", "prim", "host", "host", "form", "lambda", "named", "define", "macro"), N: g.size(4, 12), Via: "direct"}
			switch c.Kind {
			case "prim":
				p := primArities[g.pick(len(primArities))]
				c.Name, c.Spec = p.name, p.spec
				if arityRejectOnly[c.Name] {
					for i := 0; accepts(c.Spec, c.N) && i < 20; i++ {
						c.N = g.pick(6)
					}
					if accepts(c.Spec, c.N) {
						c.Name, c.Spec = "succ", "1"
					}
				}
				c.Via = oneOf(g, "direct", "direct", "let", "nested")
			case "host", "form":
				var ts []string
				for n := 1 + g.pick(3); n > 0; n-- {
					switch g.pick(8) {
					case 0:
						ts = append(ts, "*")
					case 1, 2:
						ts = append(ts, ">="+strconv.Itoa(g.pick(11)))
					case 3, 4:
						lo := g.pick(9)
						ts = append(ts, fmt.Sprintf("(%d,%d)", lo, lo+g.pick(6)))
					default:
						ts = append(ts, strconv.Itoa(g.pick(12)))
					}
				}
				c.Spec = strings.Join(ts, "|")
				c.Via = oneOf(g, "direct", "apply", "map", "let", "nested")
				if c.Kind == "form" {
					c.Via = oneOf(g, "direct", "let", "nested")
				}
				if g.pct(50) {
					// at the edge of one of the terms
					d := strings.FieldsFunc(ts[g.pick(len(ts))], func(r rune) bool { return r < '0' || r > '9' })
					if len(d) > 0 {
						c.N, _ = strconv.Atoi(d[g.pick(len(d))])
						c.N = max(0, c.N+g.pick(3)-1)
					}
				}
			default:
				c.Req, c.Rest = g.pick(5), g.pct(40)
				if c.Kind == "lambda" && c.Rest && c.Req == 0 {
					c.Req = 1 // lambda has no form with a rest parameter only
				}
				if g.pct(50) {
					c.N = max(0, c.Req+g.pick(3)-1)
				}
				c.Via = oneOf(g, "direct", "apply", "map", "let", "nested")
				if c.Kind == "macro" {
					c.Via = oneOf(g, "direct", "let", "nested")
				}
			}
			if c.Via == "map" && c.N == 0 {
				c.N = 1
			}
			return c
		},
		Run: func(ci interface{}, r *Rec) error { return runArity(ci.(*arityCase), r) },
	})
}

func runArity(c *arityCase, r *Rec) error {
	resetReal()
	env := golisp.NewSymbolTableFrameBelow(golisp.Global, "case")
	for _, p := range []string{"hostp", "hostf"} {
		golisp.Global.DeleteBinding(p)
	}
	ok := false
	fn := c.Name
	var setup string
	body := func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		realTrace = append(realTrace, "body")
		var a []*D
		for x := args; !golisp.NilP(x); x = golisp.Cdr(x) {
			a = append(a, golisp.Car(x))
		}
		return golisp.ArrayToList(a), nil
	}
	switch c.Kind {
	case "prim":
		ok = accepts(c.Spec, c.N)
	case "host":
		golisp.MakePrimitiveFunction("hostp", c.Spec, body)
		fn, ok = "hostp", accepts(c.Spec, c.N)
	case "form":
		golisp.MakeSpecialForm("hostf", c.Spec, body)
		fn, ok = "hostf", accepts(c.Spec, c.N)
	default:
		var ps []string
		for i := 0; i < c.Req; i++ {
			ps = append(ps, "p"+strconv.Itoa(i))
		}
		req := strings.Join(ps, " ")
		params := "(" + req + ")"
		names := req
		res := "(list " + req + ")"
		if c.Rest {
			if c.Req == 0 {
				params = "(. rest)"
			} else {
				params = "(" + req + " . rest)"
			}
			res = "(append (list " + req + ") rest)"
			names = strings.TrimSpace(req + " . rest")
		}
		ok = c.N == c.Req || c.Rest && c.N > c.Req
		switch c.Kind {
		case "lambda":
			setup = "(define fn (lambda " + params + " (emit! 'body) " + res + "))"
		case "named":
			setup = "(define fn (named-lambda (" + strings.TrimSpace("fname "+names) + ") (emit! 'body) " + res + "))"
		case "define":
			setup = "(define (" + strings.TrimSpace("fn "+names) + ") (emit! 'body) " + res + ")"
		case "macro":
			// the expansion quotes what the macro received
			setup = "(defmacro (" + strings.TrimSpace("fn "+names) + ") (begin (emit! 'body) (list 'quote " + res + ")))"
		}
		fn = "fn"
		if o := realForm(setup, env); o.kind == 'e' {
			return fmt.Errorf("%s fails: %s", setup, o.text)
		}
	}
	raw := c.Kind == "form" || c.Kind == "macro"
	var args, want, emitted []string
	for i := 1; i <= c.N; i++ {
		switch {
		case c.Via == "map":
			args = append(args, "(emit! (list "+strconv.Itoa(i)+"))")
			emitted = append(emitted, "(("+strconv.Itoa(i)+"))")
		default:
			args = append(args, "(emit! "+strconv.Itoa(i)+")")
			emitted = append(emitted, "("+strconv.Itoa(i)+")")
		}
		if raw {
			want = append(want, "(|emit!| "+strconv.Itoa(i)+")")
		} else {
			want = append(want, strconv.Itoa(i))
		}
	}
	a := strings.Join(args, " ")
	call := "(" + strings.TrimSpace(fn+" "+a) + ")"
	before := []string{}
	switch c.Via {
	case "apply":
		call = "(apply " + fn + " (list " + a + "))"
		before = emitted
	case "map":
		call = "(map " + fn + " " + a + ")"
		before = emitted
	case "let":
		call = "(let ((zz " + call + ")) zz)"
	case "nested":
		call = "((lambda (zz) zz) " + call + ")"
	}
	realTrace = nil
	o := realForm(call, env)
	r.Class("%s %v via %s", c.Kind, ok, c.Via)
	r.NonTrivial = c.N >= 2
	r.Sample = setup + " " + call + "  ; " + c.Spec
	trace := strings.Join(o.trace, " ")
	what := fmt.Sprintf("%s %s (declared %s, %d arguments)", setup, call, c.Spec, c.N)
	if !ok {
		if o.kind != 'e' {
			return fmt.Errorf("%s\n the count is not one it takes, but the call gives %s", what, o)
		}
		if trace != strings.Join(before, " ") {
			return fmt.Errorf("%s\n the count is not one it takes, but the call had the effects %s", what, trace)
		}
		return nil
	}
	if c.Kind == "prim" {
		if o.kind == 'e' && strings.Contains(o.text, "Wrong number of args to "+c.Name+",") {
			return fmt.Errorf("%s\n the count is one it takes, but the call is refused: %s", what, o)
		}
		return nil
	}
	res := "(" + strings.Join(want, " ") + ")"
	if len(want) == 0 {
		res = "()"
	}
	if c.Via == "map" {
		res = "(" + res + ")"
	}
	if o.kind != 'v' || o.text != res {
		return fmt.Errorf("%s\n expected %s\n got %s", what, res, o)
	}
	wt := append([]string{}, before...)
	if len(before) == 0 && !raw {
		wt = append(wt, emitted...)
	}
	b := "(|body|)"
	if c.Kind == "host" || c.Kind == "form" {
		b = "body"
	}
	wt = append(wt, b)
	if trace != strings.Join(wt, " ") {
		return fmt.Errorf("%s\n expected the effects %s\n got %s", what, strings.Join(wt, " "), trace)
	}
	return nil
}
