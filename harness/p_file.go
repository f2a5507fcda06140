package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

// ---- C29: ports and files ----
//
// Histories of operations on ports of files in a scratch directory, against a
// model of files (byte strings) and ports (a file, a position, open or not).

type ioOp struct {
	K    string
	P    int    `json:",omitempty"` // port variable
	F    int    `json:",omitempty"` // file
	S    string `json:",omitempty"` // text, datum, form, pattern
	A    string `json:",omitempty"` // further arguments as source
	Flag string `json:",omitempty"`
	N    int    `json:",omitempty"` // repetitions of S
}

type ioCase struct{ Ops []ioOp }

var ioNames = []string{"a.txt", ".b.txt", "c c.dat", "é.txt", "sub/d.txt", "nodir/e.txt", "sub"}

type ioPort struct {
	open    bool
	r       *mReader
	mode    byte // 'r', 'w', 'a'
	file    int
	pos     int
	started bool // has read ahead
	broken  bool // what it reads next is not specified
}

type ioModel struct {
	files map[int][]byte
	ports map[int]*ioPort
	out   []byte
}

// put is what a write of b through port p does to the file.
func (m *ioModel) put(p *ioPort, b []byte) {
	if len(b) == 0 {
		return
	}
	f := m.files[p.file]
	if p.mode == 'a' {
		p.pos = len(f)
	}
	for len(f) < p.pos+len(b) {
		f = append(f, 0)
	}
	f = append([]byte{}, f...)
	copy(f[p.pos:], b)
	p.pos += len(b)
	m.files[p.file] = f
	m.changed(p.file)
}

func (m *ioModel) changed(file int) {
	for _, q := range m.ports {
		if q.file == file && q.started {
			q.broken = true // it may have read ahead of the change, or not
		}
	}
}

func c29run(ci interface{}, r *Rec) error {
	c := ci.(*ioCase)
	resetReal()
	dir, err := os.MkdirTemp(workDir, "io")
	if err != nil {
		bugf("%v", err)
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "sub"), 0755)
	stdout := os.Stdout
	sink, err := os.Create(filepath.Join(dir, "sub", "stdout"))
	if err != nil {
		bugf("%v", err)
	}
	os.Stdout = sink
	defer func() {
		os.Stdout = stdout
		sink.Close()
		for i := 0; i < 8; i++ {
			if d := golisp.Global.ValueOf(golisp.Intern("p" + strconv.Itoa(i))); golisp.PortP(d) {
				golisp.PortValue(d).Close()
			}
		}
	}()
	m := &ioModel{files: map[int][]byte{}, ports: map[int]*ioPort{}}
	in := newInterp()
	var log []string
	writes, reads, errs := 0, 0, 0
	path := func(f int) string { return filepath.Join(dir, ioNames[f]) }
	quote := func(s string) string { return strText(s) }
	for _, o := range c.Ops {
		p := m.ports[o.P]
		pv := "p" + strconv.Itoa(o.P)
		form, want := "", ""
		fails := false
		// outcome of a write through the port
		write := func(b []byte) {
			writes++
			if p == nil || !p.open || p.mode == 'r' {
				fails = true
				return
			}
			m.put(p, b)
		}
		text1 := strings.Repeat(o.S, 1+o.N)
		inModel(true)
		skip := false
		switch o.K {
		case "out":
			if p != nil && p.open {
				skip = true
				break
			}
			form = fmt.Sprintf("(define %s (open-output-file %s %s))", pv, quote(path(o.F)), o.Flag)
			if strings.HasPrefix(ioNames[o.F], "nodir") || ioNames[o.F] == "sub" {
				fails = true
				break
			}
			np := &ioPort{open: true, file: o.F, mode: 'w'}
			if o.Flag != "" && o.Flag != "#f" && o.Flag != "'()" {
				np.mode = 'a'
			}
			if _, ok := m.files[o.F]; !ok || np.mode == 'w' {
				m.files[o.F] = []byte{}
				m.changed(o.F)
			}
			m.ports[o.P] = np
		case "in":
			if p != nil && p.open {
				skip = true
				break
			}
			form = fmt.Sprintf("(define %s (open-input-file %s))", pv, quote(path(o.F)))
			if _, ok := m.files[o.F]; !ok {
				fails = true
				if ioNames[o.F] == "sub" {
					skip = true
				}
				break
			}
			m.ports[o.P] = &ioPort{open: true, file: o.F, mode: 'r'}
		case "close":
			if p == nil {
				skip = true
				break
			}
			form = "(close-port " + pv + ")"
			p.open = false
		case "str":
			form = fmt.Sprintf("(write-string %s %s)", quote(text1), pv)
			write([]byte(text1))
		case "write":
			v, err := mParse(o.S)
			if err != nil {
				bugf("%q: %v", o.S, err)
			}
			form = fmt.Sprintf("(write '%s %s)", o.S, pv)
			write([]byte(text(v)))
		case "nl":
			form = "(newline " + pv + ")"
			write([]byte("\n"))
		case "bytes":
			form = fmt.Sprintf("(write-bytes %s %s)", o.S, pv)
			v, err := mParse(o.S)
			if err != nil {
				bugf("%v", err)
			}
			write(in.eval(v, in.global).(*MBytes).b)
		case "fmt":
			f := fmt.Sprintf("(format #f %s %s)", quote(o.S), o.A)
			v, err := mParse(f)
			if err != nil {
				bugf("%q: %v", f, err)
			}
			mo := in.modelForm(v, in.global)
			if mo.kind == 'u' {
				skip = true
				break
			}
			form = fmt.Sprintf("(format %s %s %s)", pv, quote(o.S), o.A)
			if mo.kind == 'e' {
				fails = true
				break
			}
			sv, _ := mParse(mo.text)
			_ = sv
			write([]byte(in.eval(v, in.global).(*MStr).str()))
		case "out-str":
			form = fmt.Sprintf("(write-string %s)", quote(text1))
			m.out = append(m.out, text1...)
		case "out-write":
			v, err := mParse(o.S)
			if err != nil {
				bugf("%q: %v", o.S, err)
			}
			form = fmt.Sprintf("(write '%s)", o.S)
			m.out = append(m.out, text(v)...)
		case "out-nl":
			form = "(newline)"
			m.out = append(m.out, '\n')
		case "out-fmt":
			f := fmt.Sprintf("(format #f %s %s)", quote(o.S), o.A)
			v, err := mParse(f)
			if err != nil {
				bugf("%q: %v", f, err)
			}
			mo := in.modelForm(v, in.global)
			if mo.kind == 'u' {
				skip = true
				break
			}
			form = fmt.Sprintf("(format #t %s %s)", quote(o.S), o.A)
			if mo.kind == 'e' {
				fails = true
				break
			}
			m.out = append(m.out, in.eval(v, in.global).(*MStr).str()...)
		case "read", "eof":
			if p == nil || p.broken {
				skip = true
				break
			}
			form = "(read " + pv + ")"
			if o.K == "eof" {
				form = "(let ((x " + form + ")) (list (eof-object? x) (if (eof-object? x) 0 x)))"
			}
			if !p.open || p.mode != 'r' {
				fails = true
				break
			}
			if !p.started {
				p.started = true
				b := m.files[p.file]
				if !utf8.Valid(b) {
					p.broken = true
					skip = true
					break
				}
				p.r = &mReader{r: []rune(string(b))}
			}
			reads++
			v, eof, bad, un := readOne(p.r)
			switch {
			case un:
				p.broken, skip = true, true
			case bad:
				p.broken, fails = true, true
			case eof:
				want = mShow(Sym("__EOF__"))
				if o.K == "eof" {
					want = "(#t 0)"
				}
			default:
				want = mShow(v)
				if v == Sym("__EOF__") {
					skip, p.broken = true, true
				}
				if o.K == "eof" {
					want = mShow(list(false, v))
				}
			}
		case "load":
			form = fmt.Sprintf("(load %s)", quote(path(o.F)))
			b, ok := m.files[o.F]
			if !ok {
				fails = true
				break
			}
			if !utf8.Valid(b) {
				skip = true
				break
			}
			last, kind, _, _ := runModelAll(in, string(b))
			switch kind {
			case 'u':
				// what was evaluated before is not known either
				return nil
			case 'e':
				fails = true
			default:
				want = last
			}
		case "var":
			form = o.S
			v, err := mParse(o.S)
			if err != nil {
				bugf("%v", err)
			}
			mo := in.modelForm(v, in.global)
			if mo.kind != 'v' {
				fails = true
			}
			want = mo.text
		case "dir", "dirsub":
			d, base := dir, ""
			if o.K == "dirsub" {
				d, base = filepath.Join(dir, "sub"), "sub/"
			}
			form = fmt.Sprintf("(list-directory %s %s)", quote(d), o.Flag)
			pat := "*"
			if o.Flag != "" {
				pat = o.S
				form = fmt.Sprintf("(list-directory %s %s)", quote(d), quote(pat))
			}
			have := map[string]bool{}
			if base == "" {
				have["sub"] = true
			} else {
				have["stdout"] = true
			}
			for f := range m.files {
				n := ioNames[f]
				if strings.HasPrefix(n, base) && !strings.Contains(n[len(base):], "/") {
					have[n[len(base):]] = true
				}
			}
			var names []string
			for n := range have {
				if globs([]rune(pat), []rune(n)) {
					names = append(names, "\""+filepath.Join(d, n)+"\"")
				}
			}
			sort.Strings(names)
			want = "DIR " + strings.Join(names, " ")
		case "bad":
			form = strings.Replace(o.S, "%p", pv, -1)
			form = strings.Replace(form, "%f", quote(path(0)), -1)
			if p == nil && strings.Contains(o.S, "%p") {
				skip = true
			}
			fails = true
		}
		inModel(false)
		if skip {
			continue
		}
		log = append(log, form)
		got := realForm(form, golisp.Global)
		show := func() string {
			return "\n history:\n  " + strings.Replace(strings.Join(log, "\n  "), dir, "DIR", -1)
		}
		if strings.HasPrefix(want, "DIR ") && got.kind == 'v' {
			d, _ := golisp.Parse("'" + got.text)
			_ = d
			var names []string
			v, err := mParse(got.text)
			if err != nil {
				return fmt.Errorf("%s gives %s%s", form, got, show())
			}
			for {
				pr, ok := v.(*Pair)
				if !ok {
					break
				}
				names = append(names, text(pr.car))
				v = pr.cdr
			}
			sort.Strings(names)
			got.text = "DIR " + strings.Join(names, " ")
		}
		if fails {
			errs++
			if got.kind != 'e' {
				return fmt.Errorf("%s gives %s instead of an error%s", form, short(got.String(), 300), show())
			}
		} else if got.kind == 'e' || want != "" && got.text != want {
			if want == "" {
				want = "success"
			}
			return fmt.Errorf("%s gives %s instead of %s%s", short(form, 300), short(got.String(), 600), short(want, 600), show())
		}
		// nothing is held back: the file has what was written
		if f, ok := m.files[o.F]; ok && p != nil {
			f = m.files[p.file]
			if b, err := os.ReadFile(path(p.file)); err != nil || string(b) != string(f) {
				return fmt.Errorf("after %s the file has %s\n instead of %s%s", short(form, 300), short(strconv.Quote(string(b)), 600), short(strconv.Quote(string(f)), 600), show())
			}
		}
	}
	for f := range ioNames {
		b, err := os.ReadFile(path(f))
		w, ok := m.files[f]
		if !ok {
			if err == nil {
				return fmt.Errorf("file %s exists after:\n %s", ioNames[f], strings.Join(log, "\n "))
			}
			continue
		}
		if err != nil || string(b) != string(w) {
			return fmt.Errorf("file %s has %s\n instead of %s\n after:\n %s", ioNames[f], short(strconv.Quote(string(b)), 600), short(strconv.Quote(string(w)), 600), strings.Replace(strings.Join(log, "\n "), dir, "DIR", -1))
		}
	}
	b, _ := os.ReadFile(filepath.Join(dir, "sub", "stdout"))
	if string(b) != string(m.out) {
		return fmt.Errorf("standard output has %s\n instead of %s\n after:\n %s", short(strconv.Quote(string(b)), 600), short(strconv.Quote(string(m.out)), 600), strings.Replace(strings.Join(log, "\n "), dir, "DIR", -1))
	}
	r.NonTrivial = writes >= 2 && reads+errs >= 1
	if reads > 3 {
		r.Class("several reads")
	}
	if errs > 0 {
		r.Class("an error")
	}
	for _, f := range m.files {
		if len(f) > 4096 {
			r.Class("a file larger than a buffer")
		}
	}
	r.Sample = strings.Replace(short(strings.Join(log, " "), 600), dir, "DIR", -1)
	return nil
}

// readOne reads the next expression: one of a value, the end, a malformed text,
// a text whose reading is not specified.
func readOne(m *mReader) (v V, eof, bad, un bool) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case readErr:
			bad = true
		case mUnspec:
			un = true
		default:
			panic(e)
		}
	}()
	m.skip()
	if m.pos >= len(m.r) {
		return nil, true, false, false
	}
	if m.peek(0) == ')' {
		return nil, false, true, false
	}
	v = m.expr()
	return
}

// globs: * is any sequence, ? one character.
func globs(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch {
	case p[0] == '*':
		return globs(p[1:], s) || len(s) > 0 && globs(p, s[1:])
	case len(s) == 0:
		return false
	case p[0] == '?' || p[0] == s[0]:
		return globs(p[1:], s[1:])
	}
	return false
}

var ioBad = []string{
	"(write-string 5 %p)", "(write-string 'a)", "(write-string \"x\" 5)", "(write 1 2)", "(write 1 \"f\")", "(newline 1)", "(read 5)", "(read \"a.txt\")",
	"(close-port 5)", "(close-port \"a\")", "(write-bytes \"abc\" %p)", "(write-bytes [1 2] 5)", "(open-input-file 5)", "(open-output-file 'x)", "(open-output-file 5 #t)",
	"(write-bytes '(1 2) %p)", "(format 5 \"x\")", "(format \"x\" \"y\")", "(format %p 'x)", "(load 5)", "(load %p)", "(list-directory 5)", "(list-directory %f 5)",
	"(write-string)", "(read)", "(open-input-file)", "(write-bytes [1])", "(open-input-file %f 1)", "(eof-object?)", "(format %p \"~a\")", "(format %p \"x\" 1)",
}

func (g *Gen) ioText() string {
	v := g.plain(1 + g.pick(3))
	return text(v)
}

func genIO(t *rapid.T) interface{} {
	g := newGen(t)
	c := &ioCase{}
	np := 1 + g.pick(4)
	nf := 1 + g.pick(len(ioNames))
	open := map[int]byte{}
	add := func(o ioOp) { c.Ops = append(c.Ops, o) }
	flag := func() string { return oneOf(g, "", "", "#t", "#t", "#f", "1", "'()", "\"a\"") }
	datum := func() string {
		s := g.ioText()
		if strings.ContainsRune(s, 0) {
			s = "x"
		}
		return s
	}
	content := func(p int) {
		switch g.pick(12) {
		case 0, 1, 2:
			add(ioOp{K: "write", P: p, S: datum()})
			add(ioOp{K: "str", P: p, S: " "})
		case 3:
			add(ioOp{K: "write", P: p, S: datum()})
			add(ioOp{K: "nl", P: p})
		case 4:
			add(ioOp{K: "str", P: p, S: oneOf(g, "(a b)", " 1 ", "\"x y\" ", "foo ", "; c\n", "(1 2", "'q ", "() ", "#t ", ")", "\n\n", "é ", "(define lv 3) ", "(set! lv (list lv lv)) ", "lv ", "\"\\n\" ", "日本 ", "\"a\x00b\" ", "\x00", "; a\x00\n", "\r\n", "\f 1 ")})
		case 5:
			n := 0
			if g.oneIn(4) {
				n = oneOf(g, 409, 1023, 1365, 2047, 700+g.pick(900))
			}
			add(ioOp{K: "str", P: p, S: oneOf(g, "(é) ", "ab ", "日 ", "\"é\" ", "x", "; é ", "12 "), N: n})
		case 6:
			add(ioOp{K: "str", P: p, S: g.str()})
		case 7:
			add(ioOp{K: "bytes", P: p, S: text(g.bytesV())})
		case 8:
			add(ioOp{K: "fmt", P: p, S: oneOf(g, "~a ~s~%", "~10a|~%", "~a", "x~~y ", "~%", "~5@a ", "~s ~s ", "plain "), A: oneOf(g, "1", "\"q\"", "1 2", "'(a \"b\") 'c", "", "'x")})
		case 9:
			add(ioOp{K: "nl", P: p})
		default:
			add(ioOp{K: "write", P: p, S: datum()})
			add(ioOp{K: "str", P: p, S: oneOf(g, " ", "\n", "  ", " ; c\n", "")})
		}
	}
	for n := 4 + g.pick(20); n > 0; n-- {
		p := g.pick(np)
		switch k := g.pick(100); {
		case open[p] == 0 && k < 70:
			f := g.pick(nf)
			if g.pct(45) {
				add(ioOp{K: "out", P: p, F: f, Flag: flag()})
				open[p] = 'w'
			} else {
				add(ioOp{K: "in", P: p, F: f})
				open[p] = 'r'
			}
		case k < 8:
			add(ioOp{K: "close", P: p})
			open[p] = 0
		case k < 16:
			add(ioOp{K: "bad", P: p, S: ioBad[g.pick(len(ioBad))]})
		case k < 18:
			add(ioOp{K: "out-" + oneOf(g, "str", "str", "nl"), S: g.str()})
		case k < 20:
			add(ioOp{K: "out-write", S: datum()})
		case k < 21:
			add(ioOp{K: "out-fmt", S: oneOf(g, "~a ~s~%", "~a", "plain "), A: oneOf(g, "1", "\"q\"", "1 2", "")})
		case k < 24:
			add(ioOp{K: oneOf(g, "dir", "dir", "dirsub"), Flag: oneOf(g, "", "x"), S: oneOf(g, "*.txt", "?.txt", "*", "a*", "*d*", "zz*", "c c.???", ".*", "??.txt")})
		case k < 27:
			add(ioOp{K: "load", F: g.pick(nf)})
		case k < 28:
			add(ioOp{K: "var", S: oneOf(g, "lv", "(define lv 1)", "(set! lv 2)")})
		case open[p] == 'w' && k < 90:
			for j := 1 + g.pick(4); j > 0; j-- {
				content(p)
			}
			if g.pct(30) { // what was written is read
				f := -1
				for i := len(c.Ops) - 1; i >= 0; i-- {
					if c.Ops[i].K == "out" && c.Ops[i].P == p {
						f = c.Ops[i].F
						break
					}
				}
				if g.pct(60) {
					add(ioOp{K: "close", P: p})
					open[p] = 0
				}
				q := np
				np++
				if np > 7 {
					np = 7
				}
				add(ioOp{K: "in", P: q, F: f})
				open[q] = 'r'
				for j := 1 + g.pick(6); j > 0; j-- {
					add(ioOp{K: oneOf(g, "read", "read", "eof"), P: q})
				}
			}
		case open[p] == 'r' && k < 90:
			for j := 1 + g.pick(4); j > 0; j-- {
				add(ioOp{K: oneOf(g, "read", "read", "eof"), P: p})
			}
		default:
			if g.pct(50) {
				content(p)
			} else {
				add(ioOp{K: "read", P: p})
			}
		}
	}
	return c
}

func init() {
	register(&Prop{
		ID: "C29", Quick: 12000, Thor: 300000,
		Rule: "histories of 4-60 operations on ports of seven files in a scratch directory (open, append, write, format, newline, bytes, read, close, load, list, wrong arguments, standard output), each result against a model of files and ports, and all files compared at the end; non-trivial: two writes and a read or an error",
		New:  func() interface{} { return &ioCase{} },
		Gen:  genIO,
		Run:  c29run,
		Shrink: func(ci interface{}, fails func(c interface{}) bool) interface{} {
			cur := *ci.(*ioCase)
			for k := len(cur.Ops) / 2; k >= 1; k /= 2 {
				for i := len(cur.Ops) - k; i >= 0; i-- {
					if i+k > len(cur.Ops) {
						continue
					}
					n := &ioCase{Ops: append(append([]ioOp{}, cur.Ops[:i]...), cur.Ops[i+k:]...)}
					if fails(n) {
						cur = *n
					}
				}
			}
			return &cur
		},
	})
}
