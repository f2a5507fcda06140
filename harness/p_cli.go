package main

// The command line (C32): interactive sessions, loaded files and the test
// runner, each as a process of its own.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// cliFile: one expression per entry of Forms. A test file has contexts too.
type cliFile struct {
	Name  string
	Forms []string
	Ctx   []cliCtx `json:",omitempty"`
	Tail  string   `json:",omitempty"` // text at the end that cannot be read
}

type cliCtx struct {
	Label string
	Setup []string
	Its   []cliIt
}

type cliIt struct {
	Label string
	Body  []string
}

type cliCase struct {
	Kind    string // session, test
	Files   []cliFile
	Args    []string // session: files named on the command line; test: the file, or "." for all
	Lines   []string // session: what is typed
	Verbose bool
	// recorded findings: the whole message of an error is to be reported
	Strict bool `json:",omitempty"`
}

const emitDef = `(define (emit! x . r) (format #t "<<~S>>~%" (cons x r)) x)`

func (f cliFile) text() string {
	var b strings.Builder
	for _, s := range f.Forms {
		b.WriteString(s + "\n")
	}
	for _, c := range f.Ctx {
		fmt.Fprintf(&b, "(context %s (%s)\n", strText(c.Label), strings.Join(c.Setup, " "))
		for _, it := range c.Its {
			fmt.Fprintf(&b, "  (it %s\n    %s)\n", strText(it.Label), strings.Join(it.Body, "\n    "))
		}
		b.WriteString(")\n")
	}
	return b.String() + f.Tail
}

// runCli runs the interpreter as a process in dir.
func runCli(dir string, stdin string, args ...string) (stdout, stderr string, err error) {
	bin := os.Getenv("VERIF_GOLISP")
	if bin == "" {
		bugf("VERIF_GOLISP is not set")
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "TERM=dumb", "INPUTRC=/dev/null", "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "HOME=" + dir}
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	setPgid(cmd)
	if err := cmd.Start(); err != nil {
		bugf("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
		if _, ok := err.(*exec.ExitError); ok {
			err = nil // the exit status is not specified
		}
	case <-time.After(25 * time.Second):
		killGroup(cmd)
		<-done
		err = fmt.Errorf("did not end within 25 s")
	}
	if err == nil && (strings.Contains(e.String(), "panic:") || strings.Contains(e.String(), "fatal error:")) {
		err = fmt.Errorf("crashed: %s", short(e.String(), 1500))
	}
	return o.String(), e.String(), err
}

func runCliCase(ci interface{}, r *Rec) error {
	c := ci.(*cliCase)
	dir, err := os.MkdirTemp(workDir, "cli")
	if err != nil {
		bugf("%v", err)
	}
	defer os.RemoveAll(dir)
	for _, f := range c.Files {
		if err := os.WriteFile(filepath.Join(dir, f.Name), []byte(f.text()), 0644); err != nil {
			bugf("%v", err)
		}
	}
	if c.Kind == "session" {
		return runSession(c, dir, r)
	}
	return runTests(c, dir, r)
}

func (c *cliCase) file(name string) *cliFile {
	for i := range c.Files {
		if c.Files[i].Name == name {
			return &c.Files[i]
		}
	}
	return nil
}

// cliModel is the reference interpreter as the command line starts it: emit!
// is a function that writes.
func cliModel() *Interp {
	in := newInterp()
	delete(in.global.vars, "emit!")
	for _, n := range strings.Fields("canon! rp! rf! hconst hlate hopen") {
		delete(in.global.vars, n)
	}
	in.global.vars["write-line"] = &MBinding{val: &MPrim{name: "write-line", arity: parseArity("*"), fn: func(in *Interp, a []V, env *MEnv) V {
		in.errOut = append(in.errOut, concat(a))
		return nil
	}}, prot: true}
	return in
}

// noted: the lines of a text written by write-line that are compared.
func noted(s string) (l []string) {
	for _, x := range strings.Split(s, "\n") {
		if strings.HasPrefix(x, "<!") {
			l = append(l, x)
		}
	}
	return
}

// load evaluates the forms of a file in the model, as far as they go.
func (in *Interp) modelLoad(f *cliFile) (o outcome) {
	if f.Tail != "" { // reported when it is reached
		defer func() {
			if o.kind == 'v' {
				o = outcome{kind: 'e', text: "unreadable"}
			}
		}()
	}
	o.kind = 'v'
	for _, src := range f.Forms {
		v, err := mParse(src)
		if err != nil {
			bugf("generated form does not parse: %q: %v", src, err)
		}
		if o = in.modelForm(v, in.global); o.kind != 'v' {
			return
		}
	}
	return
}

func runSession(c *cliCase, dir string, r *Rec) error {
	inModel(true)
	in := cliModel()
	var want []string
	emitted := 0
	flush := func() {
		for _, s := range in.out {
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "<<") {
					want = append(want, l)
					emitted++
				}
			}
		}
		in.out = nil
	}
	args := []string{}
	bad := false
	for _, a := range c.Args {
		args = append(args, a)
		want = append(want, "Loading "+a)
		f := c.file(a)
		if f == nil {
			want = append(want, "Error: ")
			continue
		}
		o := in.modelLoad(f)
		if o.kind == 'u' {
			r.Class("unspecified")
			inModel(false)
			return nil
		}
		flush()
		if o.kind == 'e' {
			want = append(want, "Error: ")
		}
	}
	env := newEnvBelow(in.global, "Repl")
	n, errs := 0, 0
	var lines []string
	for _, l := range c.Lines {
		if bad {
			break
		}
		lines = append(lines, l)
		if l == "(quit)" {
			break
		}
		v, err := mParse(l)
		if err != nil {
			if l != "" {
				want = append(want, "Error: ")
				errs++
			}
			continue
		}
		o := in.modelForm(v, env)
		if o.kind == 'u' {
			bad = true
			lines = lines[:len(lines)-1]
			break
		}
		flush()
		switch o.kind {
		case 'e':
			want = append(want, "Error in evaluation: ")
			errs++
		default:
			want = append(want, "==> "+writtenOr(in.last))
			n++
		}
	}
	inModel(false)
	out, eout, err := runCli(dir, strings.Join(lines, "\n")+"\n", args...)
	if err == nil && !bad {
		if g, w := noted(eout), noted(strings.Join(in.errOut, "\n")); strings.Join(g, "\n") != strings.Join(w, "\n") {
			return fmt.Errorf("golisp %v: write-line wrote %q instead of %q\ntyped:\n%s\nfiles: %v", args, g, w, strings.Join(lines, "\n"), c.Files)
		}
	}
	if err != nil {
		return fmt.Errorf("golisp %v: %v\ntyped:\n%s\nfiles: %v", args, err, strings.Join(lines, "\n"), c.Files)
	}
	var got []string
	for _, l := range strings.Split(out, "\n") {
		for _, p := range []string{"==> ", "Error: ", "Error in evaluation: ", "<<", "Loading "} {
			if strings.HasPrefix(l, p) {
				if strings.HasPrefix(p, "Error") {
					l = p
				}
				got = append(got, l)
				break
			}
		}
	}
	for k := 0; k < len(got) || k < len(want); k++ {
		g, w := "(the end)", "(the end)"
		if k < len(got) {
			g = got[k]
		}
		if k < len(want) {
			w = want[k]
		}
		if g != w && !(w == "==> " && strings.HasPrefix(g, w)) {
			return fmt.Errorf("golisp %v: response %d is %q instead of %q\ntyped:\n%s\nfiles: %v\nall: %s", args, k+1, g, w, strings.Join(lines, "\n"), c.Files, short(strings.Join(got, "\n"), 2000))
		}
	}
	r.NonTrivial = n+errs >= 4
	r.Class("session")
	r.Sample = strings.Join(args, " ") + ": " + strings.Join(lines, "  ")
	return nil
}

// writtenOr: the first line of v's printed form, or nothing where that is not
// specified.
func writtenOr(v V) (s string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(mUnspec); !ok {
				panic(e)
			}
			s = ""
		}
	}()
	return strings.SplitN(written(v), "\n", 2)[0]
}

// ---- the test runner ----

type testReport struct {
	pass   int
	fails  []string // blocks of the summary
	errs   []string
	lines  []string // of a verbose run, up to the summary
	crash  bool
	unspec bool
	strict bool
}

// anyText stands for text that is not specified.
const anyText = "\x01"

func runTestModel(c *cliCase, files []*cliFile) (rep testReport) {
	rep.strict = c.Strict
	in := cliModel()
	for _, f := range files {
		o := in.modelLoad(&cliFile{Forms: f.Forms})
		if o.kind == 'u' {
			rep.unspec = true
			return
		}
		if o.kind == 'e' {
			rep.crash = true
			return
		}
		for _, x := range f.Ctx {
			if !in.modelContext(x, &rep) {
				return
			}
		}
		if f.Tail != "" {
			rep.crash = true
			return
		}
	}
	return
}

func splitForms(src string) V {
	v, err := mParse(src)
	if err != nil {
		bugf("generated form does not parse: %q: %v", src, err)
	}
	return v
}

var asserts = map[string]string{"assert-true": "assert-true", "assert-false": "assert-false", "assert-nil": "assert-null", "assert-not-nil": "assert-not-null", "assert-eq": "assert-eq", "assert-neq": "assert-neq", "assert-error": "assert-error", "assert-nerror": "assert-nerror", "assert-memq": "assert-memq"}

// modelContext: false when the run ends here.
func (in *Interp) modelContext(x cliCtx, rep *testReport) bool {
	say := func(f string, a ...interface{}) {
		rep.lines = append(rep.lines, strings.Split(fmt.Sprintf(f, a...), "\n")...)
	}
	say("\n%s", x.Label)
	for _, it := range x.Its {
		env := newEnvBelow(in.global, "it")
		for _, s := range x.Setup {
			o := in.modelForm(splitForms(s), env)
			if o.kind != 'v' {
				rep.crash, rep.unspec = o.kind == 'e', o.kind == 'u'
				return false
			}
		}
		say("\n  %s", it.Label)
		pass := func(msg string) { rep.pass++; say("    %s", msg) }
		fail := func(msg, why string) {
			rep.fails = append(rep.fails, fmt.Sprintf("  %s %s:\n    %s\n      - %s", x.Label, it.Label, msg, why))
			say("    %s\n      - %s", msg, why)
		}
		unspecd := false
		eval := func(v V, env *MEnv) V {
			// as a top-level form, but with the value
			in.depth = 0
			return in.eval(v, env)
		}
		one := func(v V) {
			p, ok := v.(*Pair)
			name := ""
			if ok {
				s, _ := p.car.(Sym)
				name = asserts[string(s)]
			}
			if name == "" {
				eval(v, env)
				return
			}
			le := newEnvBelow(env, "let")
			a := arr(p.cdr)
			switch name {
			case "assert-eq", "assert-neq":
				msg := "(" + name + " " + displayed(a[0]) + " " + displayed(a[1]) + ")"
				x1 := eval(a[0], env)
				x2 := eval(a[1], le)
				if in.equal(x1, x2) == (name == "assert-eq") {
					pass(msg)
				} else if name == "assert-eq" {
					fail(msg, "expected "+displayed(x2)+", but was "+displayed(x1))
				} else {
					fail(msg, "did not expect "+displayed(x2)+", but it was")
				}
			case "assert-memq":
				msg := "(" + name + " " + displayed(a[0]) + " " + written(a[1]) + ")"
				obj := eval(a[1], env)
				l := eval(a[0], le)
				found := false
				for _, e := range arr(l) {
					found = found || in.equal(e, obj)
				}
				if found {
					pass(msg)
				} else {
					fail(msg, "expected "+displayed(a[0])+" to contain "+written(obj)+", but it didn't")
				}
			case "assert-error", "assert-nerror":
				msg := "(" + name + " " + displayed(a[0]) + ")"
				_, err := in.try(func() V { return eval(a[0], le) })
				switch {
				case (err != nil) == (name == "assert-error"):
					pass(msg)
				case err == nil:
					fail(msg, "expected an error, but there wasn't")
				default:
					fail(msg, "expected no error, but error was "+anyText)
				}
			default:
				msg := "(" + name + " " + displayed(a[0]) + ")"
				v := eval(a[0], env)
				switch {
				case name == "assert-true" && truthy(v), name == "assert-false" && !truthy(v), name == "assert-null" && v == nil, name == "assert-not-null" && v != nil:
					pass(msg)
				case name == "assert-true":
					fail(msg, "expected true, but was false")
				case name == "assert-false":
					fail(msg, "expected false, but was true")
				case name == "assert-null":
					fail(msg, "expected nil, but wasn't")
				default:
					fail(msg, "expected not nil, but was")
				}
			}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch x := e.(type) {
					case mUnspec:
						unspecd = true
					default:
						panic(x)
					}
				}
			}()
			_, err := in.try(func() V {
				for _, s := range it.Body {
					one(splitForms(s))
				}
				return nil
			})
			if err != nil {
				m := anyText
				if err.known != "" && (rep.strict || !strings.Contains(err.known, ". ")) {
					m = anyText + err.known + anyText
				}
				rep.errs = append(rep.errs, fmt.Sprintf("  %s %s:\n    ERROR: %s", x.Label, it.Label, m))
				say("    ERROR: %s", m)
			}
		}()
		if unspecd {
			rep.unspec = true
			return false
		}
	}
	return true
}

var ranLine = regexp.MustCompile(`^Ran (\d+) tests in [0-9.e+-]+ seconds$`)

func runTests(c *cliCase, dir string, r *Rec) error {
	// which files, in which order
	var files []*cliFile
	target := dir
	if c.Args[0] == "." {
		for i := range c.Files {
			if strings.HasSuffix(c.Files[i].Name, "_test.lsp") {
				files = append(files, &c.Files[i])
			}
		}
		sort.Slice(files, func(i, j int) bool { return files[i].Name < files[j].Name })
	} else {
		target = filepath.Join(dir, c.Args[0])
		if f := c.file(c.Args[0]); f != nil {
			files = []*cliFile{f}
		} else {
			files = nil
		}
	}
	inModel(true)
	rep := runTestModel(c, files)
	if c.Args[0] != "." && len(files) == 0 {
		rep.crash = true
	}
	inModel(false)
	if rep.unspec {
		r.Class("unspecified")
		return nil
	}
	args := []string{"-t"}
	if c.Verbose {
		args = append(args, "-v")
	}
	out, errOut, err := runCli("/repo", "", append(args, target)...)
	var txt []string
	for _, f := range files {
		txt = append(txt, "; "+f.Name+"\n"+f.text())
	}
	desc := strings.Join(txt, "\n")
	if err != nil {
		return fmt.Errorf("golisp %v: %v\n%s", args, err, desc)
	}
	// what the tests themselves write is not part of the report
	var lines []string
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if !strings.HasPrefix(l, "<<") {
			lines = append(lines, l)
		}
	}
	ran := -1
	for i, l := range lines {
		if ranLine.MatchString(l) {
			ran = i
			break
		}
	}
	if rep.crash {
		if ran >= 0 {
			return fmt.Errorf("golisp %v: a run that cannot be finished reports %q\n%s", args, lines[ran], desc)
		}
		if !strings.Contains(out+errOut, "Error: ") {
			return fmt.Errorf("golisp %v: a run that cannot be finished does not say so; it writes %q\n%s", args, short(out, 500), desc)
		}
		r.Class("run that cannot be finished")
		return nil
	}
	if ran < 0 {
		return fmt.Errorf("golisp %v: no summary: %q\n%s", args, short(out, 1500), desc)
	}
	n := rep.pass + len(rep.fails) + len(rep.errs)
	if m := ranLine.FindStringSubmatch(lines[ran]); m[1] != fmt.Sprint(n) {
		return fmt.Errorf("golisp %v: %q instead of %d tests\n%s", args, lines[ran], n, desc)
	}
	want := fmt.Sprintf("%d passes, %d failures, %d errors", rep.pass, len(rep.fails), len(rep.errs))
	if ran+1 >= len(lines) || lines[ran+1] != want {
		return fmt.Errorf("golisp %v: %q instead of %q\n%s", args, strings.Join(lines[ran+1:min(len(lines), ran+2)], ""), want, desc)
	}
	// the blocks of the summary
	var got []string
	section := ""
	for _, l := range lines[ran+2:] {
		switch {
		case l == "Failures:" || l == "Errors:":
			section = l
		case l == "":
		case strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   "):
			got = append(got, section+"\n"+l)
		case len(got) > 0:
			got[len(got)-1] += "\n" + l
		default:
			return fmt.Errorf("golisp %v: unexpected line in the summary: %q\n%s", args, l, desc)
		}
	}
	var exp []string
	for _, f := range rep.fails {
		exp = append(exp, "Failures:\n"+f)
	}
	for _, f := range rep.errs {
		exp = append(exp, "Errors:\n"+f)
	}
	if len(got) != len(exp) {
		return fmt.Errorf("golisp %v: the summary lists %d failures and errors instead of %d:\n%s\n%s", args, len(got), len(exp), strings.Join(got, "\n"), desc)
	}
	// what says more first
	sort.SliceStable(exp, func(i, j int) bool { return len(exp[i]) > len(exp[j]) })
	used := make([]bool, len(got))
	for _, e := range exp {
		ok := false
		for i, g := range got {
			if !used[i] && textMatches(g, e) {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return fmt.Errorf("golisp %v: the summary lacks\n%s\nit is\n%s\n%s", args, strings.ReplaceAll(e, anyText, "..."), strings.Join(got, "\n"), desc)
		}
	}
	// the course of a verbose run
	if c.Verbose {
		body := lines[:ran]
		if len(body) > 0 && body[len(body)-1] == "" {
			body = body[:len(body)-1]
		}
		for i, k := 0, 0; i < len(body) || k < len(rep.lines); i, k = i+1, k+1 {
			g, w := "(the end)", "(the end)"
			if k > 0 && strings.HasSuffix(rep.lines[k-1], anyText) { // it may go on for some lines
				for i < len(body) && (strings.HasPrefix(body[i], "Evaling ") || strings.HasPrefix(body[i], "In '")) {
					i++
				}
				if i >= len(body) && k >= len(rep.lines) {
					break
				}
			}
			if i < len(body) {
				g = body[i]
			}
			if k < len(rep.lines) {
				w = rep.lines[k]
			}
			if !textMatches(g, w) {
				return fmt.Errorf("golisp %v: line %d of the report is %q instead of %q\n%s", args, i+1, g, strings.ReplaceAll(w, anyText, "..."), desc)
			}
		}
	} else if strings.TrimSpace(strings.Join(lines[:ran], "")) != "" {
		return fmt.Errorf("golisp %v: a run that is not verbose writes %q\n%s", args, strings.Join(lines[:ran], "\n"), desc)
	}
	r.NonTrivial = rep.pass >= 2 && len(rep.fails)+len(rep.errs) >= 1
	r.Class("tests")
	r.Class("tests: %d files", len(files))
	r.Sample = desc
	return nil
}

// textMatches compares with unspecified parts.
func textMatches(got, want string) bool {
	ps := strings.Split(want, anyText)
	if len(ps) == 1 {
		return got == want
	}
	if !strings.HasPrefix(got, ps[0]) {
		return false
	}
	rest := got[len(ps[0]):]
	for i := 1; i < len(ps)-1; i++ {
		k := strings.Index(rest, ps[i])
		if k < 0 {
			return false
		}
		rest = rest[k+len(ps[i]):]
	}
	return strings.HasSuffix(rest, ps[len(ps)-1])
}

// ---- generation ----

func lineOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			return false
		}
	}
	return len(s) < 600 && !strings.Contains(s, "canon!") && !strings.Contains(s, "hconst") && !strings.Contains(s, "hlate") && !strings.Contains(s, "hopen")
}

func (g *Gen) cliForms(n int) []string {
	var out []string
	for _, f := range g.program(progOpts{types: []string{"int", "any", "list"}, results: []string{"any"}, minF: n, maxF: n, depth: 2, stmtPct: 45}) {
		if lineOK(f) {
			out = append(out, f)
		}
	}
	return out
}

func genSession(t *rapid.T) *cliCase {
	groups := [][]string{{"err"}, {"scope", "ctl"}, {"method", "frame"}, {"macro"}, {"hof", "list"}, {"int", "flt"}, {"string"}}
	g := newGen(t, groups[pick(t, len(groups))]...)
	g.pPrim = 80
	c := &cliCase{Kind: "session"}
	c.Files = append(c.Files, cliFile{Name: "base.lsp", Forms: []string{emitDef,
		"(define hits 0)", "(define acc '())", "(define kept 'unset)", "(define fr {n: 0})",
		"(define (peek) (list hits kept))", "(define (poke x) (set! kept x) kept)",
		"(define (raise1 x) (emit! 'r) (error x) (emit! 'not-here))",
		"(define (raise-deep n x) (if (== n 0) (error x) (list (raise-deep (- n 1) x))))",
		"(defmacro (mraise x) `(error ,x))",
		"(define fraise {foo: (lambda (x) (error x))})",
		"(define (keep-err err) (set! kept (string? err)) 'kept)"}})
	c.Args = []string{"base.lsp"}
	for i, n := 0, g.pick(3); i < n; i++ {
		f := cliFile{Name: fmt.Sprintf("f%d.lsp", i), Forms: g.cliForms(1 + g.pick(3))}
		if g.oneIn(4) {
			f.Forms = append(f.Forms, "(error 'stop)", "(define unreached 1)")
		}
		if g.oneIn(8) {
			f.Tail = oneOf(g, "(list 1", "\"abc", "{a: 1")
		}
		c.Files = append(c.Files, f)
		c.Args = append(c.Args, f.Name)
	}
	if g.oneIn(6) {
		c.Args = append(c.Args, "missing.lsp")
	}
	for _, f := range g.cliForms(4 + g.pick(8)) {
		c.Lines = append(c.Lines, f)
		switch g.pick(12) {
		case 3, 4:
			c.Lines = append(c.Lines, oneOf(g, "(define hits 'mine)", "(define kept (list kept 'here))", "(peek)", "(poke 'poked)", "(list hits kept (peek))"))
		case 0:
			c.Lines = append(c.Lines, oneOf(g, "(list 1", "\"abc", "(", "{a: 1", "", "(error 'oops)", "(undefined-fn 1)", "unreached", "(car 5)"))
		case 1:
			c.Lines = append(c.Lines, oneOf(g, "hits", "(list acc kept)", "(emit! 5 6)", "(+ 1 2)", "(define hits 'mine)", "(define kept (list kept 'here))", "(set! kept 'set)", "(set! hits 77)",
				"(peek)", "(poke 'poked)", "(list hits kept (peek))", "(list hits (global-eval 'hits))", "(define (peek) 'my-peek)", "(global-eval '(peek))", "(global-eval '(define kept 'theirs))",
				"(define own 5)", "(global-eval 'own)", "(environment-bound? (system-global-environment) 'own)", "(environment-bound? (the-environment) 'own)"))
		case 2:
			c.Lines = append(c.Lines, oneOf(g, `(write-line "<! " hits " and " acc)`, `(write-line "<!" (+ 1 2) 'a "b c" "" '("s" #t))`, `(list (write-line "<! x%d %s~a") (write-line "<!2"))`, `(on-error (write-line "<!" (error 'bad)) (lambda (m) (write-line "<!handled")))`))
		}
	}
	if g.oneIn(6) {
		i := g.pick(len(c.Lines) + 1)
		c.Lines = append(append(append([]string{}, c.Lines[:i]...), "(quit)"), c.Lines[i:]...)
	}
	return c
}

// testExpr writes a small expression over the variables of a test.
func (g *Gen) testExpr(d int) string {
	switch g.pick(14) {
	case 0, 1:
		return fmt.Sprint(g.pick(4))
	case 2:
		return "x"
	case 3:
		return "y"
	case 4:
		return oneOf(g, "'()", "#t", "#f", "nil", "'a", "\"s\"", "'(1 2)", "(list 1 2)", "'(a . b)", "z", "glob")
	case 5:
		return oneOf(g, "(error \"boom one\")", "(error 'bad)", "(error \"two. parts\")", "(undefined-fn 1)", "(+ 1 'a)", "(f)", "(nth y 'a)", "(error 42)")
	case 6:
		return "(f " + g.testExpr(d-1) + ")"
	case 7:
		return "(car y)"
	case 8:
		return "(next!)"
	}
	if d <= 0 {
		return oneOf(g, "x", "0", "1", "(next!)", "(car y)", "glob")
	}
	switch g.pick(7) {
	case 0:
		return "(+ " + g.testExpr(d-1) + " 1)"
	case 1:
		return "(begin (set! x " + g.testExpr(d-1) + ") x)"
	case 2:
		return "(cons " + g.testExpr(d-1) + " y)"
	case 3:
		return "(if " + g.testExpr(d-1) + " " + g.testExpr(d-1) + " " + g.testExpr(d-1) + ")"
	case 4:
		return "(let ((x " + g.testExpr(d-1) + ")) (list x))"
	case 5:
		return "(begin (set! glob (+ glob 1)) glob)"
	default:
		return "(list " + g.testExpr(d-1) + ")"
	}
}

func genTests(t *rapid.T) *cliCase {
	g := &Gen{t: t}
	c := &cliCase{Kind: "test", Verbose: g.pct(50)}
	names := []string{"a_test.lsp", "b_test.lsp", "c1_test.lsp", "helper.lsp", "test.lsp", "d_test.lsp.bak", "Z_test.lsp"}
	n := 1 + g.pick(3)
	for i := 0; i < n; i++ {
		f := cliFile{Name: names[i]}
		if g.oneIn(4) {
			f.Name = names[3+g.pick(4)]
			if c.file(f.Name) != nil {
				continue
			}
		}
		f.Forms = append(f.Forms, emitDef, "(define n 0)", "(define (next!) (set! n (+ n 1)) n)", "(define z "+oneOf(g, "1", "'(1)", "'()")+")")
		if i == 0 || g.oneIn(3) {
			f.Forms = append(f.Forms, "(define glob 0)")
		}
		if g.oneIn(25) {
			f.Forms = append(f.Forms, "(error 'file)")
		}
		for k, m := 0, 1+g.pick(3); k < m; k++ {
			x := cliCtx{Label: oneOf(g, "ctx", "a context", "Ctx 2", "c~a", "with 100%")}
			x.Setup = append(x.Setup, "(define x "+oneOf(g, "0", "1", "2")+")", "(define y "+oneOf(g, "(list 1 2)", "'(2)", "(list x 3)")+")", "(define (f q) "+oneOf(g, "q", "(+ q x)", "(list q)", "(set! x q)")+")")
			if g.oneIn(5) {
				x.Setup = append(x.Setup, "(set! glob (+ glob 1))")
			}
			if g.oneIn(40) {
				x.Setup = append(x.Setup, "(error \"setup\")")
			}
			for j, m := 0, 1+g.pick(4); j < m; j++ {
				it := cliIt{Label: oneOf(g, "works", "it 1", "does this: that", "x", "")}
				for b, m := 0, g.pick(5); b < m; b++ {
					e := g.testExpr(2)
					switch g.pick(12) {
					case 0, 1, 2, 3:
						e = "(assert-eq " + e + " " + g.testExpr(1) + ")"
					case 4:
						e = "(assert-neq " + e + " " + g.testExpr(1) + ")"
					case 5, 6:
						e = "(" + oneOf(g, "assert-true", "assert-false", "assert-nil", "assert-not-nil") + " " + e + ")"
					case 7, 8:
						e = "(" + oneOf(g, "assert-error", "assert-nerror") + " " + e + ")"
					case 9:
						e = "(assert-memq " + oneOf(g, "y", "'(1 2 3)", "(list 1 x)") + " " + oneOf(g, "x", "1", "(car y)", "'a", "2") + ")"
					case 10:
						e = oneOf(g, "(set! x 9)", "(define w (list x))", "(set! y (cdr y))", "(emit! x)", "(define x 7)")
					}
					it.Body = append(it.Body, e)
				}
				x.Its = append(x.Its, it)
			}
			f.Ctx = append(f.Ctx, x)
		}
		if g.oneIn(30) {
			f.Tail = "(list 1"
		}
		c.Files = append(c.Files, f)
	}
	c.Args = []string{"."}
	if g.pct(50) {
		c.Args = []string{c.Files[g.pick(len(c.Files))].Name}
		if !strings.HasSuffix(c.Args[0], ".lsp") || g.oneIn(20) {
			c.Args = []string{"none.lsp"}
		}
	}
	return c
}

func shrinkCli(ci interface{}, fails func(c interface{}) bool) interface{} {
	cur := *(ci.(*cliCase))
	try := func(n cliCase) bool {
		if fails(&n) {
			cur = n
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for i := len(cur.Lines) - 1; i >= 0; i-- {
			n := cur
			n.Lines = append(append([]string{}, cur.Lines[:i]...), cur.Lines[i+1:]...)
			changed = try(n) || changed
		}
		for i := len(cur.Files) - 1; i >= 0; i-- {
			n := cur
			n.Files = append(append([]cliFile{}, cur.Files[:i]...), cur.Files[i+1:]...)
			if len(n.Files) > 0 && try(n) {
				changed = true
				continue
			}
			edit := func(f func(x *cliFile) bool) {
				n := cur
				n.Files = append([]cliFile{}, cur.Files...)
				x := n.Files[i]
				x.Ctx = append([]cliCtx{}, x.Ctx...)
				for k := range x.Ctx {
					x.Ctx[k].Its = append([]cliIt{}, x.Ctx[k].Its...)
				}
				if f(&x) {
					n.Files[i] = x
					changed = try(n) || changed
				}
			}
			for k := len(cur.Files[i].Ctx) - 1; k >= 0; k-- {
				edit(func(x *cliFile) bool { x.Ctx = append(x.Ctx[:k], x.Ctx[k+1:]...); return true })
			}
			for k := range cur.Files[i].Ctx {
				for j := len(cur.Files[i].Ctx[k].Its) - 1; j >= 0; j-- {
					edit(func(x *cliFile) bool {
						its := x.Ctx[k].Its
						x.Ctx[k].Its = append(its[:j], its[j+1:]...)
						return true
					})
				}
				for j := range cur.Files[i].Ctx[k].Its {
					for b := len(cur.Files[i].Ctx[k].Its[j].Body) - 1; b >= 0; b-- {
						edit(func(x *cliFile) bool {
							it := &x.Ctx[k].Its[j]
							if b >= len(it.Body) {
								return false
							}
							it.Body = append(append([]string{}, it.Body[:b]...), it.Body[b+1:]...)
							return true
						})
					}
				}
			}
			for k := len(cur.Files[i].Forms) - 1; k >= 0; k-- {
				edit(func(x *cliFile) bool {
					x.Forms = append(append([]string{}, x.Forms[:k]...), x.Forms[k+1:]...)
					return true
				})
			}
		}
		for _, n := range []cliCase{func() cliCase { n := cur; n.Verbose = false; return n }()} {
			if cur.Verbose {
				changed = try(n) || changed
			}
		}
	}
	return &cur
}

func init() {
	register(&Prop{ID: "C32", Quick: 4000, Thor: 80000,
		Rule:   "interactive sessions (files named on the command line, some of them broken, missing or failing, then 4-12 typed lines, some of them unreadable or failing, some quitting) and runs of the test runner (1-3 files with 1-3 contexts of 1-4 tests with up to four assertions of every kind, passing, failing and raising errors, with setup, state and effects; one file or all of a directory; plain and verbose; files that cannot be loaded), each a process of its own; responses and reports against the reference interpreter; non-trivial: four lines evaluated, or two passes and a failure or error",
		New:    func() interface{} { return &cliCase{} },
		Shrink: shrinkCli,
		Gen: func(t *rapid.T) interface{} {
			if pick(t, 5) < 2 {
				return genSession(t)
			}
			return genTests(t)
		},
		Run: runCliCase,
	})
}
