package main

// Profile reports (C35): lisp/profiling.lsp on records of calls.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

type profNode struct {
	Type, Name string
	From, To   int64
	Kids       []*profNode `json:",omitempty"`
}

type profCase struct {
	Trees  []*profNode
	Cut    int      // events left out at the end of the record (a run that died)
	Forms  []string `json:",omitempty"` // instead: the record of profiling the last form
	Twice  bool     // another record was loaded before
	Blanks int
}

func (n *profNode) events(guid *int, out *[]string) {
	id := *guid
	*guid++
	w := func(mode string, t int64) {
		*out = append(*out, fmt.Sprintf("{time: %d guid: %d mode: '%s type: '%s name: '%s}", t, id, mode, n.Type, n.Name))
	}
	w("enter", n.From)
	for _, k := range n.Kids {
		k.events(guid, out)
	}
	w("exit", n.To)
}

// profParse reads a record; a last call that has no end is left out.
func profParse(lines []string) (trees []*profNode, err error) {
	var stack []*profNode
	for _, l := range lines {
		m := watchRecord.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("no record: %q", l)
		}
		t, _ := strconv.ParseInt(m[1], 10, 64)
		if m[3] == "enter" {
			n := &profNode{Type: m[4], Name: m[5], From: t}
			stack = append(stack, n)
		} else {
			if len(stack) == 0 {
				return nil, fmt.Errorf("an end without a beginning: %q", l)
			}
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			n.To = t
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
			} else {
				trees = append(trees, n)
			}
		}
	}
	return
}

func (n *profNode) all(f func(n *profNode)) {
	f(n)
	for _, k := range n.Kids {
		k.all(f)
	}
}

// canon is a text for the tree that does not depend on the order of the calls.
func (n *profNode) canon(dur func(n *profNode) int64) string {
	var k []string
	for _, c := range n.Kids {
		k = append(k, c.canon(dur))
	}
	sort.Strings(k)
	return fmt.Sprintf("%s:%d(%s)", n.Name, dur(n), strings.Join(k, " "))
}

func profLength(n *profNode) int64 { return n.To - n.From }

var profLine = regexp.MustCompile(`^( *)(\S+) \(total: (-?\d+)(?:, in nested calls: (-?\d+), overhead: (-?\d+))?\)$`)

func runProf(ci interface{}, r *Rec) error {
	c := ci.(*profCase)
	resetReal()
	dir, err := os.MkdirTemp(workDir, "prof")
	if err != nil {
		bugf("%v", err)
	}
	defer os.RemoveAll(dir)
	rec := filepath.Join(dir, "r.dat")
	stdout := os.Stdout
	var out *os.File
	defer func() {
		os.Stdout = stdout
		golisp.ProfileEnabled = false
		if out != nil {
			out.Close()
		}
	}()
	if out, err = os.Create(filepath.Join(dir, "out")); err != nil {
		bugf("%v", err)
	}
	os.Stdout = out
	if _, err := golisp.ProcessFile("/repo/lisp/profiling.lsp"); err != nil {
		return fmt.Errorf("lisp/profiling.lsp cannot be loaded: %v", err)
	}
	env := golisp.NewSymbolTableFrameBelow(golisp.Global, "case")
	var lines []string
	if c.Forms != nil {
		for i, f := range c.Forms {
			if i == len(c.Forms)-1 {
				f = "(profile " + f + " " + strconv.Quote(rec) + ")"
			}
			realForm(f, env)
		}
		b, err := os.ReadFile(rec)
		if err != nil {
			return fmt.Errorf("no record of %s: %v", c.Forms[len(c.Forms)-1], err)
		}
		if len(b) > 0 {
			lines = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		}
		if len(lines) > 400 {
			return nil
		}
	} else {
		guid := 0
		for _, t := range c.Trees {
			t.events(&guid, &lines)
		}
		if c.Cut > len(lines) {
			c.Cut = len(lines)
		}
		lines = lines[:len(lines)-c.Cut]
		text := ""
		for _, l := range lines {
			text += l + "\n"
		}
		if c.Blanks > 0 && len(lines) > 0 {
			text = strings.TrimSuffix(text, "\n")
		}
		if err := os.WriteFile(rec, []byte(text), 0644); err != nil {
			bugf("%v", err)
		}
	}
	show := strings.Join(lines, "\n")
	trees, err := profParse(lines)
	if err != nil {
		if c.Forms != nil {
			return nil // the record itself is C31's
		}
		bugf("%v", err)
	}
	if c.Twice {
		other := filepath.Join(dir, "other.dat")
		os.WriteFile(other, []byte("{time: 1 guid: 0 mode: 'enter type: 'prim name: 'other}\n{time: 3 guid: 0 mode: 'exit type: 'prim name: 'other}\n"), 0644)
		if o := realForm("(load-profile "+strconv.Quote(other)+")", env); o.kind == 'e' {
			return fmt.Errorf("load-profile: %s", o)
		}
	}
	if o := realForm("(load-profile "+strconv.Quote(rec)+")", env); o.kind == 'e' {
		return fmt.Errorf("load-profile fails: %s\nrecord:\n%s", o, show)
	}
	report := func(form string) ([]string, error) {
		off, _ := out.Seek(0, 1)
		o := realForm(form, env)
		end, _ := out.Seek(0, 1)
		b := make([]byte, end-off)
		out.ReadAt(b, off)
		if o.kind == 'e' {
			return nil, fmt.Errorf("%s fails: %s\nrecord:\n%s", form, o, show)
		}
		return strings.Split(string(b), "\n"), nil
	}
	calls := 0
	for _, kind := range []string{"all", "func", "prim", "form", "all"} {
		type row struct{ n, total int64 }
		want := map[string]row{}
		for _, t := range trees {
			t.all(func(n *profNode) {
				if kind == "all" || n.Type == kind {
					w := want[n.Name]
					want[n.Name] = row{w.n + 1, w.total + profLength(n)}
					calls++
				}
			})
		}
		got, err := report("(by-function '" + kind + ")")
		if err != nil {
			return err
		}
		var rows []string
		for i, l := range got {
			if i > 0 && strings.Contains(l, "|") {
				rows = append(rows, l)
			}
		}
		bad := func(f string, a ...interface{}) error {
			return fmt.Errorf("(by-function '%s): %s\nreport:\n%s\nrecord:\n%s", kind, fmt.Sprintf(f, a...), strings.Join(got, "\n"), show)
		}
		seen := map[string]bool{}
		for _, l := range rows {
			f := strings.Split(l, "|")
			if len(f) != 4 {
				return bad("a row without four columns: %q", l)
			}
			for i := range f {
				f[i] = strings.TrimSpace(f[i])
			}
			w, ok := want[f[0]]
			if !ok {
				return bad("%s was not called", f[0])
			}
			if seen[f[0]] {
				return bad("two rows for %s", f[0])
			}
			seen[f[0]] = true
			if f[1] != fmt.Sprint(w.n) || f[2] != fmt.Sprint(w.total) || f[3] != fmt.Sprint(w.total/w.n) {
				return bad("%s was called %d times and took %d, on average %d", f[0], w.n, w.total, w.total/w.n)
			}
		}
		if len(seen) != len(want) {
			return bad("%d functions were called, %d are reported", len(want), len(seen))
		}
	}
	got, err := report("(print-tree)")
	if err != nil {
		return err
	}
	bad := func(f string, a ...interface{}) error {
		return fmt.Errorf("(print-tree): %s\nreport:\n%s\nrecord:\n%s", fmt.Sprintf(f, a...), strings.Join(got, "\n"), show)
	}
	var printed []*profNode
	var stack []*profNode
	for _, l := range got {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := profLine.FindStringSubmatch(l)
		if m == nil {
			return bad("no line for a call: %q", l)
		}
		level := len(m[1]) / 2
		if len(m[1])%2 != 0 || level > len(stack) {
			return bad("the level of %q", l)
		}
		n := &profNode{Name: m[2]}
		n.To, _ = strconv.ParseInt(m[3], 10, 64)
		stack = stack[:level]
		if level == 0 {
			printed = append(printed, n)
		} else {
			p := stack[level-1]
			p.Kids = append(p.Kids, n)
		}
		n.Type = m[4] + "/" + m[5]
		stack = append(stack, n)
	}
	var a, b []string
	var e error
	for _, t := range printed {
		a = append(a, t.canon(func(n *profNode) int64 { return n.To }))
		t.all(func(n *profNode) {
			var in int64
			for _, k := range n.Kids {
				in += k.To
			}
			if e == nil && !(n.Type == "/" && len(n.Kids) == 0) && n.Type != fmt.Sprintf("%d/%d", in, n.To-in) {
				e = bad("%s took %d, of which %d in nested calls", n.Name, n.To, in)
			}
		})
	}
	if e != nil {
		return e
	}
	for _, t := range trees {
		b = append(b, t.canon(profLength))
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		return bad("prints the calls\n%s\ninstead of\n%s", strings.Join(a, "\n"), strings.Join(b, "\n"))
	}
	r.Class("trees %d", len(trees))
	r.NonTrivial = calls >= 6
	r.Sample = short(show, 400)
	return nil
}

func genProf(t *rapid.T) interface{} {
	g := &Gen{t: t}
	c := &profCase{Twice: g.oneIn(4)}
	if g.oneIn(5) {
		g = newGen(t, "hof", "list", "scope")
		g.pPrim = 80
		c.Forms = specifiedForms(g.program(progOpts{types: []string{"int", "any", "list"}, results: []string{"any"}, minF: 2, maxF: 6, depth: 3, stmtPct: 50}), true)
		return c
	}
	now := int64(oneOf(g, 0, 1000, 1700000000000000000-1))
	step := int64(oneOf(g, 3, 10, 1000000))
	var node func(d int) *profNode
	node = func(d int) *profNode {
		n := &profNode{Type: oneOf(g, "func", "prim", "form"), Name: oneOf(g, "f", "g", "h", "+", "car", "list", "let*", "string->number", "nil?", "set!", "fib", "a-function-with-a-rather-long-name", "->", "c<-", "anonymous")}
		now += int64(g.pick(int(step)))
		n.From = now
		if d > 0 {
			for k := g.pick(4); k > 0; k-- {
				n.Kids = append(n.Kids, node(d-1))
			}
		}
		now += int64(g.pick(int(step)))
		n.To = now
		return n
	}
	for k := g.pick(4); k >= 0; k-- {
		c.Trees = append(c.Trees, node(g.pick(4)))
	}
	if g.oneIn(4) {
		c.Cut = g.pick(8)
	}
	if g.oneIn(6) {
		c.Blanks = 1
	}
	return c
}

func shrinkProf(ci interface{}, fails func(c interface{}) bool) interface{} {
	cur := *(ci.(*profCase))
	if cur.Forms != nil {
		shrinkForms(func() []string { return cur.Forms }, func(f []string) bool {
			n := cur
			n.Forms = f
			if len(f) > 0 && fails(&n) {
				cur = n
				return true
			}
			return false
		})
		return &cur
	}
	// variants of a list of trees with one call less
	var less func(ts []*profNode) [][]*profNode
	less = func(ts []*profNode) (r [][]*profNode) {
		for i, t := range ts {
			head := append([]*profNode{}, ts[:i]...)
			r = append(r, append(append([]*profNode{}, head...), ts[i+1:]...))
			r = append(r, append(append(append([]*profNode{}, head...), t.Kids...), ts[i+1:]...))
			for _, k := range less(t.Kids) {
				n := *t
				n.Kids = k
				r = append(r, append(append(append([]*profNode{}, head...), &n), ts[i+1:]...))
			}
		}
		return
	}
	for changed := true; changed; {
		changed = false
		for _, f := range []func(n *profCase){func(n *profCase) { n.Twice = false }, func(n *profCase) { n.Cut = 0 }, func(n *profCase) { n.Blanks = 0 }} {
			n := cur
			f(&n)
			if (n.Twice != cur.Twice || n.Cut != cur.Cut || n.Blanks != cur.Blanks) && fails(&n) {
				cur, changed = n, true
			}
		}
		for _, ts := range less(cur.Trees) {
			n := cur
			n.Trees = ts
			if fails(&n) {
				cur, changed = n, true
				break
			}
		}
	}
	return &cur
}

func init() {
	register(&Prop{ID: "C35", Quick: 3000, Thor: 60000,
		Rule:   "records of calls (random call trees with equal and different names of every kind, long and short durations, complete or cut off, or recorded by profiling a generated program), loaded and reported by function for every kind of function and as a tree, against sums computed from the record; non-trivial: six calls reported",
		New:    func() interface{} { return &profCase{} },
		Shrink: shrinkProf,
		Gen:    genProf,
		Run:    runProf,
	})
}
