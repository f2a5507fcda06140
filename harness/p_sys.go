package main

// Host services (C34): generated names, interned names, logs, clocks, programs
// run on behalf of a script, and the flags of the debugging aids in a host that
// is not interactive.

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

type sysOp struct {
	K    string
	Args []string `json:",omitempty"` // source texts
	N    int      `json:",omitempty"`
	Wrap int      `json:",omitempty"`
}

type sysCase struct {
	Ops   []sysOp
	Logs  int // loggers that must have been added
	Child bool
}

var sysWraps = []string{"X", "X", "((lambda () X))", "(let ((q X)) q)", "(car (list X))", "(apply (lambda () X) '())", "(if #t X 1)", "(begin 1 X)", "(on-error X (lambda (err) (error \"failed\")))", "(eval 'X)", "(global-eval 'X)", "(cond (#f 1) (else X))"}

// the loggers added to the interpreter by this process; they cannot be removed
type sysLog struct {
	buf  *bytes.Buffer
	pre  string
	flag int
}

var sysLogs []*sysLog

func (o sysOp) form() string {
	a := strings.Join(o.Args, " ")
	if a != "" {
		a = " " + a
	}
	f := ""
	switch o.K {
	case "gensym", "gensym-naked", "write-log", "millis", "random-byte", "exec", "intern", "debug-trace", "lisp-trace", "debug-on-error", "add-debug-on-entry", "remove-debug-on-entry", "debug-on-entry":
		f = "(" + o.K + a + ")"
	case "sleep":
		f = "(sleep" + a + ")"
	case "time":
		f = "(time (begin (emit! 1) " + o.Args[0] + "))"
	case "quit":
		f = "(begin (emit! 1) (quit) (emit! 2) 7)"
	case "dump":
		f = "(begin (dump) 7)"
	case "error":
		f = "(error \"asked for\")"
	default:
		bugf("no form for %q", o.K)
	}
	return strings.Replace(sysWraps[o.Wrap%len(sysWraps)], "X", f, -1)
}

type sysRun struct {
	c        *sysCase
	dir      string
	env      *golisp.SymbolTableFrame
	in       *Interp
	names    map[string]bool
	prefixes map[string]bool
	drawn    map[int64]int
	ndrawn   int
	trace    bool
	onErr    bool
	entry    map[string]bool
	out      *os.File
	r        *Rec
}

func (s *sysRun) fail(i int, form string, f string, a ...interface{}) error {
	var prog []string
	for k := 0; k < i; k++ {
		if s.c.Ops[k].K != "golog" {
			prog = append(prog, s.c.Ops[k].form())
		}
	}
	return fmt.Errorf("%s\n %s\nafter:\n%s", form, fmt.Sprintf(f, a...), strings.Join(prog, "\n"))
}

// modelArg is the value of an argument in the model; ok is false for an error.
func (s *sysRun) modelArg(src string) (v V, ok bool) {
	inModel(true)
	defer inModel(false)
	f, err := mParse(src)
	if err != nil {
		bugf("%q: %v", src, err)
	}
	o := s.in.modelForm(f, s.in.global)
	if o.kind == 'u' {
		bugf("argument %q is unspecified: %s", src, o.text)
	}
	return s.in.last, o.kind == 'v'
}

func (s *sysRun) step(i int, o sysOp) error {
	if o.K == "golog" {
		return s.golog(i, o)
	}
	form := o.form()
	var args []V
	good := true
	for _, a := range o.Args {
		if o.K == "time" {
			break
		}
		v, ok := s.modelArg(a)
		args = append(args, v)
		good = good && ok
	}
	exp := fmt.Sprintf("%s/x%d", s.dir, i)
	if o.K == "exec" && len(args) > 0 {
		form = strings.Replace(form, "SCRIPT", exp, -1)
		for k, v := range args {
			if t, ok := v.(*MStr); ok && strings.Contains(t.s, "SCRIPT") {
				args[k] = &MStr{s: strings.Replace(t.s, "SCRIPT", exp, -1)}
			}
		}
		if err := os.Symlink("script", exp); err != nil {
			bugf("%v", err)
		}
	}
	for _, l := range sysLogs {
		l.buf.Reset()
	}
	before := time.Now()
	off, _ := s.out.Seek(0, 2)
	t0 := len(realTrace)
	d, err := golisp.Parse(form)
	if err != nil {
		bugf("%q: %v", form, err)
	}
	v, err := golisp.Eval(d, s.env)
	took := time.Since(before)
	effects := strings.Join(realTrace[t0:], " ")
	got := "ERROR"
	if err == nil {
		got = rShow(v)
	}
	wantErr := func(why string) error {
		if err == nil {
			return s.fail(i, form, "gives %s; it is an error: %s", got, why)
		}
		return nil
	}
	want := func(w string) error {
		if got != w {
			return s.fail(i, form, "gives %s (%v), expected %s", got, err, w)
		}
		return nil
	}
	if !good {
		return wantErr("an argument fails")
	}
	if strings.Contains(o.Wrap1(), "global-eval") && (strings.Contains(form, "fa") || strings.Contains(form, "fb")) && s.c.Child {
		return nil // not visible there
	}
	switch o.K {
	case "error":
		return wantErr("asked for")
	case "gensym", "gensym-naked":
		if len(args) > 1 {
			return wantErr("one argument at most")
		}
		prefix := "GENSYM"
		if len(args) == 1 {
			switch p := args[0].(type) {
			case *MStr:
				prefix = p.s
			case Sym:
				prefix = string(p)
			default:
				return wantErr("a prefix is a string or a symbol")
			}
		}
		if err != nil {
			return s.fail(i, form, "%v", err)
		}
		if golisp.TypeOf(v) != golisp.SymbolType {
			return s.fail(i, form, "gives %s, which is no symbol", got)
		}
		name := golisp.StringValue(v)
		naked := o.K == "gensym-naked"
		if golisp.NakedP(v) != naked {
			return s.fail(i, form, "gives %s; naked: %v, expected %v", golisp.String(v), golisp.NakedP(v), naked)
		}
		core := strings.TrimSuffix(name, ":")
		if !naked {
			core = name
		}
		rest := strings.TrimPrefix(core, prefix+"-")
		if rest == core {
			return s.fail(i, form, "gives %q, whose prefix is not %q", name, prefix)
		}
		if _, e := strconv.ParseUint(rest, 10, 64); e != nil {
			return s.fail(i, form, "gives %q, which has no number after %q", name, prefix)
		}
		if s.names[core] {
			return s.fail(i, form, "gives %q, which was given before", name)
		}
		s.names[core] = true
		for n := range s.prefixes { // a number of its own
			if n == core && n != prefix {
				s.r.Class("a generated name is a prefix")
			}
		}
		s.prefixes[prefix] = true
		s.r.Class("%s %d", o.K, len(args))
	case "intern":
		if len(args) != 1 {
			return wantErr("one argument")
		}
		p, ok := args[0].(*MStr)
		if !ok {
			return wantErr("a string is interned")
		}
		if err != nil {
			return s.fail(i, form, "%v", err)
		}
		if golisp.TypeOf(v) != golisp.SymbolType || golisp.StringValue(v) != p.s {
			return s.fail(i, form, "gives %s, expected the symbol named %q", got, p.s)
		}
		if v != golisp.Intern(p.s) {
			return s.fail(i, form, "gives another symbol than the one of that name")
		}
		if golisp.NakedP(v) != (len(p.s) > 0 && strings.HasSuffix(p.s, ":")) {
			return s.fail(i, form, "gives %q; naked: %v", p.s, golisp.NakedP(v))
		}
		s.r.Class("intern")
	case "write-log":
		w := concat(args) + "\r\n"
		if err := want("()"); err != nil {
			return err
		}
		if err := s.logged(i, form, off, w, func(l *log.Logger) { l.Print(w) }); err != nil {
			return err
		}
		s.r.Class("write-log")
	case "sleep":
		n, ok := args[0].(int64)
		if !ok {
			return wantErr("the time to sleep is an integer")
		}
		if err := want("()"); err != nil {
			return err
		}
		if took < time.Duration(n)*time.Millisecond {
			return s.fail(i, form, "took %v", took)
		}
		s.r.Class("sleep")
	case "time":
		inModel(true)
		f, _ := mParse(strings.Replace(o.Args[0], fmt.Sprintf("(sleep %d)", o.N), "(list)", 1))
		m := s.in.modelForm(f, s.in.global)
		inModel(false)
		if effects != strings.Join(append([]string{"(1)"}, m.trace...), " ") {
			return s.fail(i, form, "has the effects %s, expected (1) %s: the expression is evaluated once", effects, strings.Join(m.trace, " "))
		}
		if m.kind == 'e' {
			return wantErr("the expression fails")
		}
		if err != nil || golisp.TypeOf(v) != golisp.IntegerType {
			return s.fail(i, form, "gives %s (%v), expected a number of milliseconds", got, err)
		}
		if n := golisp.IntegerValue(v); n < int64(o.N) || n > int64(took/time.Millisecond)+1 {
			return s.fail(i, form, "gives %d; the evaluation sleeps for %d ms and took %v altogether", n, o.N, took)
		}
		s.r.Class("time")
	case "millis":
		if err != nil || golisp.TypeOf(v) != golisp.IntegerType {
			return s.fail(i, form, "gives %s (%v), expected a number", got, err)
		}
		lo, hi := before.UnixMilli()-2, time.Now().UnixMilli()+2
		if n := golisp.IntegerValue(v); n < lo || n > hi {
			return s.fail(i, form, "gives %d at %d", n, lo+2)
		}
		s.r.Class("millis")
	case "random-byte":
		if err != nil || golisp.TypeOf(v) != golisp.IntegerType {
			return s.fail(i, form, "gives %s (%v), expected a number", got, err)
		}
		n := golisp.IntegerValue(v)
		if n < 0 || n > 255 {
			return s.fail(i, form, "gives %d", n)
		}
		s.drawn[n]++
		s.ndrawn++
		for k := 0; k < 40; k++ {
			v, err := golisp.Eval(d, s.env)
			if err != nil || golisp.TypeOf(v) != golisp.IntegerType || golisp.IntegerValue(v) < 0 || golisp.IntegerValue(v) > 255 {
				return s.fail(i, form, "gives %s (%v)", golisp.String(v), err)
			}
			s.drawn[golisp.IntegerValue(v)]++
			s.ndrawn++
		}
		if len(s.drawn) < 4 {
			return s.fail(i, form, "has given %d numbers, of which %d differ", s.ndrawn, len(s.drawn))
		}
		s.r.Class("random-byte")
	case "quit":
		if effects != "(1) (2)" {
			return s.fail(i, form, "has the effects %s; the host is not interactive", effects)
		}
		return want("7")
	case "dump":
		return want("7")
	case "exec":
		return s.exec(i, o, form, args, err, exp)
	case "debug-trace", "debug-on-error":
		cur := &s.trace
		if o.K == "debug-on-error" {
			cur = &s.onErr
		}
		if len(args) > 1 {
			return wantErr("one argument at most")
		}
		if len(args) == 1 {
			*cur = args[0].(bool)
		}
		s.r.Class("flag")
		if g := golisp.DebugTrace; g != s.trace {
			return s.fail(i, form, "leaves DebugTrace %v", g)
		}
		if g := golisp.DebugOnError; g != s.onErr {
			return s.fail(i, form, "leaves DebugOnError %v", g)
		}
		return want(mShow(*cur))
	case "lisp-trace":
		on := len(args) == 1 && args[0].(bool)
		g := golisp.LispTrace
		golisp.LispTrace = false
		if g != on {
			return s.fail(i, form, "leaves LispTrace %v", g)
		}
		s.r.Class("flag")
		return want(mShow(on))
	case "add-debug-on-entry", "remove-debug-on-entry", "debug-on-entry":
		if len(args) == 1 {
			m, ok := args[0].(*MFn)
			if !ok {
				return wantErr("not a function")
			}
			if o.K == "add-debug-on-entry" {
				s.entry[m.name] = true
			} else {
				delete(s.entry, m.name)
			}
		}
		if err != nil {
			return s.fail(i, form, "%v", err)
		}
		var have, exp []string
		for c := v; !golisp.NilP(c); c = golisp.Cdr(c) {
			have = append(have, rShow(golisp.Car(c)))
		}
		for n := range s.entry {
			exp = append(exp, strconv.Quote(n))
		}
		sort.Strings(have)
		sort.Strings(exp)
		if strings.Join(have, " ") != strings.Join(exp, " ") {
			return s.fail(i, form, "gives %v, expected (in any order) %v", have, exp)
		}
		s.r.Class("entry")
	}
	return nil
}

func (o sysOp) Wrap1() string { return sysWraps[o.Wrap%len(sysWraps)] }

// logged checks that exactly w was written to the standard output and what write
// gives to a logger to every logger that was added.
func (s *sysRun) logged(i int, form string, off int64, w string, write func(l *log.Logger)) error {
	end, _ := s.out.Seek(0, 2)
	b := make([]byte, end-off)
	s.out.ReadAt(b, off)
	if string(b) != w {
		return s.fail(i, form, "writes %q to the standard output, expected %q", b, w)
	}
	for k, l := range sysLogs {
		var x bytes.Buffer
		write(log.New(&x, l.pre, l.flag))
		if l.buf.String() != x.String() {
			return s.fail(i, form, "gives %q to logger %d of %d, expected %q", l.buf.String(), k+1, len(sysLogs), x.String())
		}
	}
	return nil
}

// golog logs through the Go interface.
func (s *sysRun) golog(i int, o sysOp) error {
	for _, l := range sysLogs {
		l.buf.Reset()
	}
	off, _ := s.out.Seek(0, 2)
	var a []interface{}
	for k, x := range o.Args {
		if k%2 == 1 && o.N%2 == 1 {
			a = append(a, len(x))
		} else {
			a = append(a, x)
		}
	}
	switch o.N / 2 % 3 {
	case 0:
		golisp.LogPrint(a...)
		return s.logged(i, fmt.Sprintf("LogPrint(%q)", a), off, fmt.Sprint(a...), func(l *log.Logger) { l.Print(a...) })
	case 1:
		golisp.LogPrintln(a...)
		return s.logged(i, fmt.Sprintf("LogPrintln(%q)", a), off, fmt.Sprintln(a...), func(l *log.Logger) { l.Println(a...) })
	default:
		f := strings.Repeat("%v|", len(a)) + "100%%"
		golisp.LogPrintf(f, a...)
		return s.logged(i, fmt.Sprintf("LogPrintf(%q, %q)", f, a), off, fmt.Sprintf(f, a...), func(l *log.Logger) { l.Printf(f, a...) })
	}
}

const sysScript = "#!/bin/sh\n{ printf '%s\\0' \"$#\"; for a in \"$@\"; do printf '%s\\0' \"$a\"; done; } > \"$0.part\"\nmv \"$0.part\" \"$0.out\"\n"

func (s *sysRun) exec(i int, o sysOp, form string, args []V, err error, exp string) error {
	defer func() {
		for k := 0; k < 100; k++ { // the interpreter does not wait for it
			var ws syscall.WaitStatus
			if p, e := syscall.Wait4(-1, &ws, syscall.WNOHANG, nil); p <= 0 || e != nil {
				break
			}
		}
	}()
	if len(args) == 0 {
		if err == nil {
			return s.fail(i, form, "is not an error")
		}
		return nil
	}
	cmd, ok := args[0].(*MStr)
	if !ok || !(cmd.s == exp || cmd.s == "sh") {
		if err == nil {
			return s.fail(i, form, "is not an error; the command is %s", mShow(args[0]))
		}
		return nil
	}
	if err != nil {
		return s.fail(i, form, "%v", err)
	}
	var want []string
	rest := args[1:]
	if cmd.s == "sh" {
		rest = rest[1:]
	}
	for _, a := range rest {
		switch x := a.(type) {
		case *MStr:
			want = append(want, x.s)
		case Sym:
			want = append(want, string(x))
		default:
			want = append(want, text(a))
		}
	}
	var b []byte
	var e error
	for t := time.Now(); time.Since(t) < 20*time.Second; {
		if b, e = os.ReadFile(exp + ".out"); e == nil {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if e != nil {
		return s.fail(i, form, "does not run the command")
	}
	w := strings.Join(append([]string{strconv.Itoa(len(want))}, want...), "\x00") + "\x00"
	if string(b) != w {
		return s.fail(i, form, "runs the command with %q, expected %q", strings.Split(string(b), "\x00"), strings.Split(w, "\x00"))
	}
	s.r.Class("exec")
	return nil
}

func runSys(ci interface{}, r *Rec) (err error) {
	c := ci.(*sysCase)
	resetReal()
	dir, err := os.MkdirTemp(workDir, "sys")
	if err != nil {
		bugf("%v", err)
	}
	defer os.RemoveAll(dir)
	for _, o := range c.Ops {
		if o.K == "exec" {
			if err := os.WriteFile(filepath.Join(dir, "script"), []byte(sysScript), 0755); err != nil {
				bugf("%v", err)
			}
			break
		}
	}
	out, err := os.OpenFile(filepath.Join(dir, "out"), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0644)
	if err != nil {
		bugf("%v", err)
	}
	defer out.Close()
	stdout := os.Stdout
	os.Stdout = out
	reset := func() {
		golisp.DebugTrace, golisp.LispTrace, golisp.DebugOnError, golisp.IsInteractive = false, false, false, false
		golisp.DebugOnEntry.Clear()
	}
	defer func() {
		os.Stdout = stdout
		reset()
	}()
	reset()
	for len(sysLogs) < c.Logs {
		k := len(sysLogs)
		l := &sysLog{buf: &bytes.Buffer{}, pre: []string{"", "p: ", "100% "}[k%3], flag: []int{0, log.Lmsgprefix}[k%2]}
		sysLogs = append(sysLogs, l)
		golisp.AddLog(log.New(l.buf, l.pre, l.flag))
	}
	s := &sysRun{c: c, dir: dir, env: golisp.Global, in: newInterp(), names: map[string]bool{}, prefixes: map[string]bool{}, drawn: map[int64]int{}, entry: map[string]bool{}, out: out, r: r}
	if c.Child {
		s.env = golisp.NewSymbolTableFrameBelow(golisp.Global, "case")
	}
	for _, f := range []string{"(define (fa x) x)", "(define (fb x) x)"} {
		d, _ := golisp.Parse(f)
		if _, err := golisp.Eval(d, s.env); err != nil {
			return err
		}
		s.modelArg(f)
	}
	n := 0
	for i, o := range c.Ops {
		if err := s.step(i, o); err != nil {
			return err
		}
		n++
	}
	r.NonTrivial = n >= 4
	return nil
}

func genSys(t *rapid.T) interface{} {
	g := &Gen{t: t}
	c := &sysCase{Logs: oneOf(g, 0, 1, 1, 2, 3, 5), Child: g.oneIn(4)}
	str := func() string {
		return text(&MStr{s: strings.Replace(oneOf(g, g.str(), g.str(), "a", "100%", "%d %s", "a b", "$HOME", "*", "", "x-1", "-n", "\\n", "é"), "\x00", "", -1)})
	}
	val := func() string {
		switch g.pick(8) {
		case 0, 1, 2:
			return str()
		case 3:
			return "'" + oneOf(g, "a", "b", "foo-1", "GENSYM", "é")
		case 4:
			return text(g.int64())
		case 5:
			return oneOf(g, "#t", "#f", "'()", "1.5", "'(1 \"a\" b)", "[1 2]", "(+ 1 2)", "(list 'a \"b\")", "'(a . b)")
		case 6:
			if g.oneIn(8) {
				return "(error \"bad\")"
			}
			return "(str \"a\" 1)"
		}
		for {
			if s := strings.Replace(quoted(g.datum(1)), "\\u0000", "", -1); !strings.Contains(s, "{") {
				return s
			}
		}
	}
	bool_ := func() string { return oneOf(g, "#t", "#f") }
	sorts := oneOf(g, 1, 2, 3)
	for n := 4 + g.size(8, 20); n > 0; n-- {
		o := sysOp{Wrap: g.pick(len(sysWraps) + 6)}
		if o.Wrap >= len(sysWraps) {
			o.Wrap = 0
		}
		k := g.pick(30)
		if sorts == 1 && g.pct(70) {
			k = g.pick(8)
		}
		switch {
		case k < 8:
			o.K = oneOf(g, "gensym", "gensym", "gensym", "gensym-naked")
			switch g.pick(5) {
			case 0:
			case 1, 2:
				o.Args = []string{oneOf(g, "\"a\"", "'a", "\"a-1\"", "\"GENSYM\"", "\"b\"", "\"\"", "\"a b\"")}
			case 3:
				o.Args = []string{str()}
			default:
				o.Args = []string{val()}
				if g.oneIn(4) {
					o.Args = append(o.Args, "'a")
				}
			}
		case k < 11:
			o.K, o.Args = "intern", []string{oneOf(g, str(), str(), str(), "\"a:\"", "\"x y:\"", val())}
		case k < 16:
			o.K = "write-log"
			for m := g.pick(4); m >= 0; m-- {
				o.Args = append(o.Args, val())
			}
		case k < 18:
			o.K, o.N = "golog", g.pick(6)
			for m := g.pick(4); m > 0; m-- {
				o.Args = append(o.Args, oneOf(g, "a", "b\n", "100%", "", "é", "x y"))
			}
		case k < 20:
			o.K, o.Args = "sleep", []string{oneOf(g, "0", "1", "3", "-5", "1.5", "'a", "\"1\"", "(+ 1 1)")}
		case k < 21:
			o.N = g.pick(5)
			if g.oneIn(60) {
				o.N = 5 + g.pick(100)
				if g.oneIn(40) {
					o.N = 1001 + g.pick(50)
				}
			}
			o.K, o.Args = "time", []string{oneOf(g, fmt.Sprintf("(sleep %d)", o.N), fmt.Sprintf("(begin (sleep %d) (emit! 5))", o.N), fmt.Sprintf("(begin (sleep %d) (error \"late\"))", o.N))}
		case k < 22:
			o.K = "millis"
		case k < 23:
			o.K = "random-byte"
		case k < 24:
			o.K = oneOf(g, "quit", "quit", "dump", "error")
		case k < 26:
			o.K = oneOf(g, "debug-trace", "debug-on-error", "debug-on-error", "lisp-trace")
			if g.pct(70) {
				o.Args = []string{bool_()}
			}
			if o.K == "lisp-trace" && len(o.Args) > 0 {
				o.Wrap = 0
			}
		case k < 28:
			o.K = oneOf(g, "add-debug-on-entry", "add-debug-on-entry", "remove-debug-on-entry", "debug-on-entry")
			if o.K != "debug-on-entry" {
				o.Args = []string{oneOf(g, "fa", "fb", "fa", "fb", "5", "'fa", "car", "'()")}
			}
		default:
			o.K = "exec"
			if !g.oneIn(3) {
				continue
			}
			switch g.pick(8) {
			case 0:
				o.Args = []string{oneOf(g, "'true", "5", "'()", "\"/nonexistent/cmd\"", "\"SCRIPT-none\"", "(intern \"SCRIPT\")", "'(\"SCRIPT\")", "\"\"")}
			case 1:
				o.Args = []string{"\"sh\"", "\"SCRIPT\""}
			default:
				o.Args = []string{"\"SCRIPT\""}
			}
			if o.Args[0] != "\"SCRIPT-none\"" {
				for m := g.size(4, 12); m > 0; m-- {
					o.Args = append(o.Args, val())
				}
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func init() {
	register(&Prop{ID: "C34", Quick: 12000, Thor: 300000,
		Rule: "histories of 4-24 uses of host services: names generated with every kind of prefix, interned names, messages logged from Lisp and from Go with up to five loggers attached, sleeping, timing, the clock, random bytes, commands run with arguments of every kind, quit, dump and the flags of the debugging aids in a host that is not interactive, directly and inside functions, eval and error handlers; non-trivial: four operations",
		New:  func() interface{} { return &sysCase{} },
		Gen:  genSys,
		Run:  runSys,
		Shrink: func(ci interface{}, fails func(c interface{}) bool) interface{} {
			cur := *(ci.(*sysCase))
			for changed := true; changed; {
				changed = false
				try := func(n sysCase) {
					if fails(&n) {
						cur, changed = n, true
					}
				}
				for i := len(cur.Ops) - 1; i >= 0 && len(cur.Ops) > 1; i-- {
					if i < len(cur.Ops) {
						n := cur
						n.Ops = append(append([]sysOp{}, cur.Ops[:i]...), cur.Ops[i+1:]...)
						try(n)
					}
				}
				for i := range cur.Ops {
					if cur.Ops[i].Wrap != 0 {
						n := cur
						n.Ops = append([]sysOp{}, cur.Ops...)
						n.Ops[i].Wrap = 0
						try(n)
					}
					for k := len(cur.Ops[i].Args) - 1; k > 0; k-- {
						n := cur
						n.Ops = append([]sysOp{}, cur.Ops...)
						n.Ops[i].Args = append(append([]string{}, cur.Ops[i].Args[:k]...), cur.Ops[i].Args[k+1:]...)
						try(n)
					}
				}
				for _, l := range []int{0, 1} {
					if cur.Logs > l {
						n := cur
						n.Logs = l
						try(n)
						break
					}
				}
				if cur.Child {
					n := cur
					n.Child = false
					try(n)
				}
			}
			return &cur
		},
	})
}
