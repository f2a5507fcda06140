// The implementation side: running programs in golisp and reducing what it
// returns to the same canonical form as the model's.
package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/steelseries/golisp"
)

type D = golisp.Data

type realShower struct {
	frames map[interface{}]int
	n      int
	bad    string
}

func rShow(d *D) string {
	s := &realShower{frames: map[interface{}]int{}}
	var b strings.Builder
	s.show(&b, d, 0)
	return b.String()
}

func (s *realShower) show(b *strings.Builder, d *D, depth int) {
	if depth > 600 || b.Len() > 4*showMax {
		b.WriteString("<<too large>>")
		return
	}
	if golisp.NilP(d) {
		b.WriteString("()")
		return
	}
	switch golisp.TypeOf(d) {
	case golisp.IntegerType:
		b.WriteString(strconv.FormatInt(golisp.IntegerValue(d), 10))
	case golisp.FloatType:
		b.WriteString(canonFloat(golisp.FloatValue(d)))
	case golisp.BooleanType:
		if golisp.BooleanValue(d) {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case golisp.StringType:
		b.WriteString(strconv.Quote(golisp.StringValue(d)))
	case golisp.SymbolType:
		b.WriteString("|" + golisp.StringValue(d) + "|")
	case golisp.FunctionType:
		b.WriteString("<fn " + golisp.FunctionValue(d).Name + ">")
	case golisp.MacroType:
		b.WriteString("<macro " + golisp.MacroValue(d).Name + ">")
	case golisp.PrimitiveType:
		b.WriteString("<prim " + golisp.PrimitiveValue(d).Name + ">")
	case golisp.EnvironmentType:
		b.WriteString("<env>")
	case golisp.PortType:
		b.WriteString("<obj port>")
	case golisp.BoxedObjectType:
		if golisp.ObjectType(d) == "[]byte" {
			fmt.Fprintf(b, "[%x]", *(*[]byte)(golisp.ObjectValue(d)))
		} else {
			b.WriteString("<obj " + golisp.ObjectType(d) + ">")
		}
	case golisp.FrameType:
		f := golisp.FrameValue(d)
		if id, ok := s.frames[f]; ok {
			fmt.Fprintf(b, "F%d", id)
			return
		}
		s.n++
		s.frames[f] = s.n
		fmt.Fprintf(b, "F%d{", s.n)
		keys := make([]string, 0, len(f.Data))
		for k := range f.Data {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(b, "%q ", k)
			s.show(b, f.Data[k], depth+1)
			b.WriteString(";")
		}
		b.WriteString("}")
	case golisp.AlistCellType:
		b.WriteString("<")
		s.show(b, golisp.Car(d), depth+1)
		b.WriteString(" . ")
		s.show(b, golisp.Cdr(d), depth+1)
		b.WriteString(">")
	case golisp.AlistType:
		var items []string
		n := 0
		for c := d; !golisp.NilP(c) && n < maxLen; c = golisp.Cdr(c) {
			var eb strings.Builder
			s.show(&eb, golisp.Car(c), depth+1)
			items = append(items, eb.String())
			n++
		}
		sort.Strings(items)
		b.WriteString("A(" + strings.Join(items, " ") + ")")
	case golisp.ConsCellType:
		b.WriteString("(")
		n := 0
		for {
			s.show(b, golisp.Car(d), depth+1)
			if n++; n > maxLen || b.Len() > 4*showMax {
				b.WriteString("<<too long>>")
				break
			}
			nx := golisp.Cdr(d)
			if golisp.NilP(nx) {
				break
			}
			if golisp.TypeOf(nx) != golisp.ConsCellType {
				b.WriteString(" . ")
				s.show(b, nx, depth+1)
				break
			}
			b.WriteString(" ")
			d = nx
		}
		b.WriteString(")")
	default:
		fmt.Fprintf(b, "<<unknown type %d>>", golisp.TypeOf(d))
	}
}

var realTrace []string

func emitImpl(args *D, env *golisp.SymbolTableFrame) (*D, error) {
	realTrace = append(realTrace, rShow(args))
	return golisp.Car(args), nil
}

func canonImpl(args *D, env *golisp.SymbolTableFrame) (*D, error) {
	var s []string
	for c := golisp.Car(args); !golisp.NilP(c); c = golisp.Cdr(c) {
		s = append(s, rShow(golisp.Car(c)))
	}
	sort.Strings(s)
	return golisp.StringWithValue(strings.Join(s, "\n")), nil
}

// resetReal gives the interpreter a fresh global environment.
func resetReal() {
	reapProcs()
	realTrace = nil
	golisp.InitLisp()
	watchProcs()
	golisp.MakePrimitiveFunction("emit!", ">=1", emitImpl)
	golisp.MakePrimitiveFunction("canon!", "1", canonImpl)
	golisp.MakeRestrictedPrimitiveFunction("rp!", "*", func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		realTrace = append(realTrace, "rp! "+rShow(args))
		return golisp.IntegerWithValue(77), nil
	})
	golisp.MakeRestrictedSpecialForm("rf!", ">=1", func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		realTrace = append(realTrace, "rf!")
		return golisp.Eval(golisp.Car(args), env)
	})
	golisp.Global.BindToProtected(golisp.Intern("hconst"), golisp.IntegerWithValue(42))
	golisp.Global.BindTo(golisp.Intern("hopen"), golisp.IntegerWithValue(7))
	golisp.Global.BindTo(golisp.Intern("hlate"), golisp.IntegerWithValue(8)) // protected later
	golisp.Global.BindToProtected(golisp.Intern("hlate"), golisp.IntegerWithValue(43))
	t := &golisp.TopLevelEnvironments
	t.Mutex.Lock()
	t.Environments = make(map[string]*golisp.SymbolTableFrame, 5)
	t.Mutex.Unlock()
	if afterReset != nil {
		afterReset()
	}
}

// afterReset is called when the interpreter has been reset, before the program.
var afterReset func()

func errText(err error) string {
	return short(strings.Join(strings.Fields(err.Error()), " "), 600)
}

var _ = unsafe.Pointer(nil)

// outcome of one top-level form.
type outcome struct {
	kind  byte // 'v' value, 'e' error, 'u' unspecified
	text  string
	trace []string
}

func (o outcome) String() string {
	switch o.kind {
	case 'v':
		return o.text
	case 'e':
		return "ERROR(" + firstLine(o.text) + ")"
	}
	return "unspecified(" + o.text + ")"
}

// modelForm evaluates one form in the model.
func (in *Interp) modelForm(form V, env *MEnv) (o outcome) {
	in.depth = 0
	t0 := len(in.trace)
	defer func() {
		o.trace = in.trace[t0:]
		if e := recover(); e != nil {
			switch x := e.(type) {
			case mErr:
				o.kind, o.text = 'e', x.msg
			case mUnspec:
				o.kind, o.text = 'u', x.why
			default:
				if _, ok := e.(harnessBug); ok {
					panic(e)
				}
				panic(harnessBug{fmt.Sprintf("model panic: %v", e)})
			}
		}
	}()
	v := in.eval(form, env)
	in.last = v
	o.kind, o.text = 'v', mShow(v)
	return
}

// realForm evaluates one source text in golisp (parse + eval).
func realForm(src string, env *golisp.SymbolTableFrame) (o outcome) {
	t0 := len(realTrace)
	d, err := golisp.Parse(src)
	if err == nil {
		d, err = golisp.Eval(d, env)
	}
	if err != nil {
		o.kind, o.text = 'e', errText(err)
	} else {
		o.kind, o.text = 'v', rShow(d)
	}
	o.trace = realTrace[t0:]
	return
}

// progCase is a program given as source text, one top-level form per entry.
type progCase struct {
	Forms []string
	Child bool // evaluate in a child of the global environment
	// for recorded findings: the outcome of the last form, instead of the model's
	Expect string `json:",omitempty"`
}

type progResult struct {
	ok, errs, unspec int
	outs             []outcome
}

// runProg runs the program on both sides and compares outcome and trace form
// by form. The model goes first: a form it does not specify (or does not see
// terminate within its fuel) ends the case.
func runProg(c *progCase, r *Rec) (*progResult, error) {
	if c.Expect != "" {
		resetReal()
		var o outcome
		for _, f := range c.Forms {
			o = realForm(f, golisp.Global)
		}
		if o.String() != c.Expect {
			return &progResult{}, fmt.Errorf("program %s\n expected %s\n got %s", strings.Join(c.Forms, "\n"), c.Expect, o)
		}
		return &progResult{}, nil
	}
	inModel(true)
	in := newInterp()
	menv := in.global
	if c.Child {
		menv = newEnvBelow(in.global, "case")
	}
	res := &progResult{}
	var limit = len(c.Forms)
	var mo []outcome
	for i, src := range c.Forms {
		form, err := mParse(src)
		if err != nil {
			bugf("generated form does not parse: %q: %v", src, err)
		}
		o := in.modelForm(form, menv)
		if o.kind == 'u' {
			limit = i
			res.unspec++
			r.Class("unspecified: " + short(o.text, 40))
			break
		}
		mo = append(mo, o)
	}
	inModel(false)
	resetReal()
	env := golisp.Global
	if c.Child {
		env = golisp.NewSymbolTableFrameBelow(golisp.Global, "case")
	}
	for i := 0; i < limit; i++ {
		ro := realForm(c.Forms[i], env)
		m := mo[i]
		if ro.kind != m.kind || ro.kind == 'v' && ro.text != m.text {
			return res, fmt.Errorf("form %d of the program: %s\n expected %s\n      got %s\nprogram:\n%s", i+1, c.Forms[i], short(m.String(), 900), short(ro.String(), 900), strings.Join(c.Forms[:i+1], "\n"))
		}
		if strings.Join(ro.trace, "\n") != strings.Join(m.trace, "\n") {
			return res, fmt.Errorf("form %d of the program: %s\n expected side effects %v\n                 got %v\nprogram:\n%s", i+1, c.Forms[i], short(fmt.Sprint(m.trace), 900), short(fmt.Sprint(ro.trace), 900), strings.Join(c.Forms[:i+1], "\n"))
		}
		if m.kind == 'v' {
			res.ok++
		} else {
			res.errs++
			r.Class("error: " + strings.Join(strings.Fields(short(m.text, 60))[:min(3, len(strings.Fields(m.text)))], " "))
		}
		res.outs = append(res.outs, m)
	}
	r.Sample = strings.Join(c.Forms[:limit], "  ")
	return res, nil
}

// toReal builds the golisp value of a model datum through the exported API.
func toReal(v V) *D {
	switch x := v.(type) {
	case nil:
		return golisp.EmptyCons()
	case int64:
		return golisp.IntegerWithValue(x)
	case float32:
		return golisp.FloatWithValue(x)
	case bool:
		return golisp.BooleanWithValue(x)
	case *MStr:
		return golisp.StringWithValue(x.s)
	case Sym:
		return golisp.Intern(string(x))
	case *MBytes:
		b := append([]byte{}, x.b...)
		return golisp.ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&b))
	case *MFrame:
		m := golisp.FrameMap{}
		m.Data = make(golisp.FrameMapData)
		for k, w := range x.slots {
			m.Data[k] = toReal(w)
		}
		return golisp.FrameWithValue(&m)
	case *Pair:
		if x.kind == kAlist {
			var r *D
			es := arr(v)
			for i := len(es) - 1; i >= 0; i-- {
				r = golisp.Acons(toReal(car(es[i])), toReal(cdr(es[i])), r)
			}
			return r
		}
		if x.cdr == nil {
			return golisp.Cons(toReal(x.car), nil)
		}
		return golisp.Cons(toReal(x.car), toReal(x.cdr))
	}
	bugf("toReal %T", v)
	return nil
}

// The processes started by the case: they have to be over before the next case
// resets the interpreter under them.
var (
	procMu   sync.Mutex
	liveProc []*D
)

func watchProcs() {
	keep := func(impl func(args *D, env *golisp.SymbolTableFrame) (*D, error)) func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
		return func(args *D, env *golisp.SymbolTableFrame) (*D, error) {
			p, err := impl(args, env)
			if err == nil && p != nil {
				procMu.Lock()
				liveProc = append(liveProc, p)
				procMu.Unlock()
			}
			return p, err
		}
	}
	golisp.MakePrimitiveFunction("fork", ">=1", keep(golisp.ForkImpl))
	golisp.MakePrimitiveFunction("schedule", ">=2", keep(golisp.ScheduleImpl))
}

func reapProcs() {
	env := golisp.Global
	for {
		procMu.Lock()
		ps := liveProc
		liveProc = nil
		procMu.Unlock()
		if len(ps) == 0 {
			return
		}
		for _, p := range ps {
			args := golisp.InternalMakeList(p)
			golisp.AbandonImpl(args, env)
			golisp.WakeImpl(args, env)
		}
		over := within(20*time.Second, func() {
			for _, p := range ps {
				golisp.JoinImpl(golisp.InternalMakeList(p), env)
			}
		})
		if !over {
			return
		}
	}
}
