// Infrastructure shared by every check: the property registry, the per-case
// recorder, the in-process runner driven by rapid, journaling (so that a case
// which kills or hangs the process can still be reported and replayed) and the
// driver that shards the work over worker processes.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Prop is one property: a generator of JSON-serialisable cases and an oracle
// that runs a case. Run must be a pure function of the case and of /repo.
type Prop struct {
	ID               string
	Rule             string             // how cases are made, what is non-trivial
	New              func() interface{} // empty case (pointer), for replay
	Gen              func(t *rapid.T) interface{}
	Run              func(c interface{}, r *Rec) error
	Quick            int // total cases in the quick tier
	Thor             int // total cases in the thorough tier
	Race             bool
	Sched            bool // cases depend on how goroutines are scheduled
	Shards           int  // 0 = default
	StallS           int  // seconds without progress before a case is suspected to hang
	CrashIsViolation bool // always true in practice; kept explicit
	Assume           []string
	tuneF            func(g *Gen)
	finishF          func(g *Gen, forms []string) []string
	Shrink           func(c interface{}, fails func(c interface{}) bool) interface{}
}

var registry = map[string]*Prop{}

func register(p *Prop) {
	if p.StallS == 0 {
		p.StallS = 40
	}
	registry[p.ID] = p
}

// Rec collects what one case exercised.
type Rec struct {
	NonTrivial bool
	classes    []string
	Sample     string
}

func (r *Rec) Class(f string, a ...interface{}) {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	r.classes = append(r.classes, f)
}

type Stats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Hashes      []uint64       `json:"-"`
}

// caseFailure is what a worker leaves behind for the driver.
type caseFailure struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"seed"`
	Note     string          `json:"note,omitempty"`
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// journal keeps the current case in a file. Layout: counter(8) length(8) bytes.
type journal struct {
	f *os.File
	n uint64
}

func newJournal(path string) *journal {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	return &journal{f: f}
}

func (j *journal) put(b []byte) {
	j.n++
	buf := make([]byte, 16+len(b))
	binary.LittleEndian.PutUint64(buf, j.n)
	binary.LittleEndian.PutUint64(buf[8:], uint64(len(b)))
	copy(buf[16:], b)
	j.f.WriteAt(buf, 0)
}

// inModel marks that this process is now running the harness's own code (the
// reference model): a crash there is not the implementation's.
func inModel(on bool) {
	if curJournal == nil {
		return
	}
	b := []byte{0}
	if on {
		b[0] = 1
	}
	curJournal.f.WriteAt(b, 7)
}

var curJournal *journal

func journalInModel(path string) bool {
	b, err := os.ReadFile(path)
	return err == nil && len(b) > 7 && b[7] == 1
}

func readJournal(path string) (n uint64, b []byte) {
	data, err := os.ReadFile(path)
	if err != nil || len(data) < 16 {
		return 0, nil
	}
	n = binary.LittleEndian.Uint64(data) & (1<<56 - 1)
	l := binary.LittleEndian.Uint64(data[8:])
	if uint64(len(data)) < 16+l {
		return n, nil
	}
	return n, data[16 : 16+l]
}

// runCase runs one case with panics turned into errors.
func runCase(p *Prop, c interface{}, r *Rec) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, bad := e.(harnessBug); bad {
				panic(e)
			}
			err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return p.Run(c, r)
}

// harnessBug marks a panic that is this machinery's own fault: it must not be
// reported as a violation.
type harnessBug struct{ msg string }

func bugf(f string, a ...interface{}) { panic(harnessBug{fmt.Sprintf(f, a...)}) }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "golisp") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// --- a rapid.TB that is not a testing.T ---

type workerTB struct {
	mu     sync.Mutex
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (t *workerTB) Helper()      {}
func (t *workerTB) Name() string { return "worker" }
func (t *workerTB) Logf(f string, a ...any) {
	t.mu.Lock()
	if t.log.Len() < 1<<18 && !strings.HasPrefix(f, "[rapid] draw") {
		fmt.Fprintf(&t.log, f+"\n", a...)
	}
	t.mu.Unlock()
}
func (t *workerTB) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *workerTB) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *workerTB) Skip(a ...any)             { runtime.Goexit() }
func (t *workerTB) SkipNow()                  { runtime.Goexit() }
func (t *workerTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.Fail() }
func (t *workerTB) Error(a ...any)            { t.Log(a...); t.Fail() }
func (t *workerTB) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *workerTB) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *workerTB) FailNow()                  { t.Fail(); runtime.Goexit() }
func (t *workerTB) Fail()                     { t.mu.Lock(); t.failed = true; t.mu.Unlock() }
func (t *workerTB) Failed() bool              { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }

func caseJSON(c interface{}) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		bugf("case not serialisable: %v", err)
	}
	return b
}

// remarshal makes sure that what runs is exactly what a replay would run.
func remarshal(p *Prop, b []byte) interface{} {
	c := p.New()
	if err := json.Unmarshal(b, c); err != nil {
		bugf("case does not round-trip: %v", err)
	}
	if reflect.ValueOf(c).Kind() == reflect.Ptr {
		return c
	}
	return c
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// worker: run `checks` rapid cases of property id with the given seed.
// exit status: 0 held, 1 failure written to dir/fail.json, 3 machinery error.
func worker(id string, seed uint64, checks int, dir string, corpus string) int {
	p := registry[id]
	j := newJournal(filepath.Join(dir, "journal"))
	curJournal = j
	st := &Stats{Classes: map[string]int{}}
	seen := map[uint64]bool{}
	var last *caseFailure
	failed := false
	machinery := ""

	account := func(b []byte, r *Rec) {
		if failed {
			return
		}
		st.Evaluations++
		for _, c := range r.classes {
			st.Classes[c]++
		}
		if r.NonTrivial {
			st.NonTrivial++
			h := hash64(b)
			if !seen[h] && len(seen) < 400000 {
				seen[h] = true
				if len(st.Samples) < 3 || (st.NonTrivial%997 == 0 && len(st.Samples) < 8) {
					s := r.Sample
					if s == "" {
						s = string(b)
					}
					st.Samples = append(st.Samples, short(s, 700))
				}
			}
		}
	}

	finish := func() {
		st.Hashes = nil
		hb := make([]byte, 0, 8*len(seen))
		for h := range seen {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		os.WriteFile(filepath.Join(dir, "hashes"), hb, 0644)
		sb, _ := json.Marshal(st)
		os.WriteFile(filepath.Join(dir, "stats.json"), sb, 0644)
		if last != nil {
			lb, _ := json.Marshal(last)
			os.WriteFile(filepath.Join(dir, "fail.json"), lb, 0644)
		}
	}

	// committed regression cases first
	if corpus != "" {
		files, _ := filepath.Glob(filepath.Join(corpus, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			raw, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			var cf caseFailure
			if json.Unmarshal(raw, &cf) != nil || cf.Case == nil {
				continue
			}
			c := remarshal(p, cf.Case)
			j.put(cf.Case)
			r := &Rec{}
			if err := runCase(p, c, r); err != nil {
				last = &caseFailure{Property: id, Error: err.Error(), Case: cf.Case, Note: "regression case " + filepath.Base(f)}
				finish()
				return 1
			}
			r.Class("corpus")
			account(cf.Case, r)
		}
	}

	tb := &workerTB{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				machinery = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := p.Gen(t)
			b := caseJSON(c)
			c = remarshal(p, b)
			j.put(b)
			r := &Rec{}
			var err error
			func() {
				defer func() {
					if e := recover(); e != nil {
						machinery = fmt.Sprintf("%v\n%s\ncase: %s", e, debug.Stack(), b)
						fmt.Fprintln(os.Stderr, machinery)
						os.Exit(3)
					}
				}()
				err = runCase(p, c, r)
			}()
			if err != nil {
				failed = true
				last = &caseFailure{Property: id, Error: err.Error(), Case: b, Seed: seed}
				t.Fatalf("%s", firstLine(err.Error()))
			}
			account(b, r)
		})
	}()
	<-done
	if last != nil && machinery == "" && p.Shrink != nil {
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Fprintln(os.Stderr, "shrinking stopped:", e)
				}
			}()
			deadline := time.Now().Add(shrinkBudget)
			tries := 0
			p.Shrink(remarshal(p, last.Case), func(c interface{}) bool {
				if tries++; time.Now().After(deadline) || tries > 20000 {
					return false
				}
				b := caseJSON(c)
				j.put(b)
				if err := runCase(p, remarshal(p, b), &Rec{}); err != nil {
					last.Case, last.Error = b, err.Error()
					return true
				}
				return false
			})
		}()
		j.put(last.Case)
	}
	finish()
	if machinery != "" {
		fmt.Fprintln(os.Stderr, machinery)
		return 3
	}
	if last != nil {
		return 1
	}
	if tb.Failed() {
		for _, l := range strings.Split(tb.log.String(), "\n") {
			if !strings.Contains(l, "[rapid] draw") {
				fmt.Fprintln(os.Stderr, l)
			}
		}
		return 3
	}
	return 0
}

var shrinkBudget = 10 * time.Second

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
