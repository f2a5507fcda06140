package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type shardResult struct {
	code   int // 0 ok, 1 failure, 2 crash, 3 machinery, 4 stalled
	dir    string
	out    string
	seed   uint64
	checks int
	asleep bool // stalled with every thread sleeping
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFinding struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"` // "known" or "fixed"
	What     string          `json:"what"`
	Case     json.RawMessage `json:"case,omitempty"`
	Commit   string          `json:"commit,omitempty"`
}

func loadKnown() (out []knownFinding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return
}

func runShard(self, id string, p *Prop, seed uint64, checks int, base string, i int, corpus, shrink string) shardResult {
	dir := filepath.Join(base, fmt.Sprintf("s%d", i))
	os.MkdirAll(dir, 0755)
	logf, _ := os.Create(filepath.Join(dir, "log"))
	cmd := exec.Command(self, "worker", id, strconv.FormatUint(seed, 10), strconv.Itoa(checks), dir, corpus, shrink)
	cmd.Stdout = logf
	cmd.Stderr = logf
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	setPgid(cmd)
	if err := cmd.Start(); err != nil {
		return shardResult{code: 3, dir: dir, out: err.Error(), seed: seed}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var lastN uint64
	lastT := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	res := shardResult{dir: dir, seed: seed, checks: checks}
	for {
		select {
		case <-done:
			logf.Close()
			killGroup(cmd)
			res.out = tailFile(filepath.Join(dir, "log"), 6000)
			switch cmd.ProcessState.ExitCode() {
			case 0:
				res.code = 0
			case 1:
				if _, err := os.Stat(filepath.Join(dir, "fail.json")); err == nil {
					res.code = 1
				} else {
					res.code = 2
				}
			case 3:
				res.code = 3
			default:
				res.code = 2
			}
			return res
		case <-tick.C:
			n, _ := readJournal(filepath.Join(dir, "journal"))
			if n != lastN {
				lastN = n
				lastT = time.Now()
			} else if time.Since(lastT) > time.Duration(p.StallS)*time.Second {
				res.asleep = asleep(cmd.Process.Pid)
				if n, _ := readJournal(filepath.Join(dir, "journal")); n != lastN {
					lastN, lastT = n, time.Now()
					continue
				}
				ended := dumpGoroutines(cmd, done)
				killGroup(cmd)
				if !ended {
					<-done
				}
				logf.Close()
				res.code = 4
				res.out = tailFile(filepath.Join(dir, "log"), 6000)
				return res
			}
		}
	}
}

func tailFile(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		// keep the head of the crash and the tail
		if i := strings.Index(string(b), "fatal error:"); i >= 0 {
			b = b[i:]
		} else if i := strings.Index(string(b), "panic:"); i >= 0 {
			b = b[i:]
		} else if i := strings.Index(string(b), "SIGQUIT: quit"); i >= 0 {
			b = b[i:]
		} else if i := strings.Index(string(b), "WARNING: DATA RACE"); i >= 0 {
			b = b[i:]
		} else {
			return string(b[len(b)-n:])
		}
		if len(b) > n {
			b = b[:n]
		}
	}
	return string(b)
}

// confirm re-runs one case in a fresh process. verdict: "fail", "pass", "hang".
func confirm(self, file string, times int, limit time.Duration) (verdict, out string) {
	cmd := exec.Command(self, "replay", file, strconv.Itoa(times))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	tmp, err := os.CreateTemp("", "vf-confirm")
	if err != nil {
		return "pass", ""
	}
	defer os.Remove(tmp.Name())
	cmd.Stdout, cmd.Stderr = tmp, tmp
	setPgid(cmd)
	if cmd.Start() != nil {
		return "pass", ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		killGroup(cmd)
	case <-time.After(limit):
		killGroup(cmd)
		<-done
		return "hang", tailFile(tmp.Name(), 3000)
	}
	out = tailFile(tmp.Name(), 4000)
	if cmd.ProcessState.ExitCode() == 0 {
		return "pass", out
	}
	if strings.Contains(out, "harnessBug") || strings.Contains(out, "main.harnessBug") {
		return "pass", out
	}
	return "fail", out
}

func drive(id string) int {
	start := time.Now()
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	vseed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			vseed = uint64(n)
		} else {
			vseed = hash64([]byte(s))
		}
	}
	total := 3 * p.Quick
	if p.Sched {
		total = 2 * p.Quick
	}
	shrink := "4s"
	if tier == "thorough" {
		total = p.Thor
		shrink = "20s"
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	shards := p.Shards
	if shards == 0 {
		shards = 7
	}
	if shards > total {
		shards = total
	}
	self, _ := os.Executable()
	base, err := os.MkdirTemp("", "vf-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(base)
	corpus := filepath.Join(verifDir(), "corpus", id)
	replayDir := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(replayDir, 0755)

	results := make([]shardResult, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			seed := mix(mix(vseed)^hash64([]byte(id))^uint64(i)*0x1234567) | 1
			c := total / shards
			if i < total%shards {
				c++
			}
			co := ""
			if i == 0 {
				co = corpus
			}
			results[i] = runShard(self, id, p, seed, c, base, i, co, shrink)
		}(i)
	}
	wg.Wait()

	// merge statistics
	stats := Stats{Classes: map[string]int{}}
	distinct := map[uint64]bool{}
	for _, r := range results {
		var s Stats
		b, err := os.ReadFile(filepath.Join(r.dir, "stats.json"))
		if err == nil && json.Unmarshal(b, &s) == nil {
			stats.Evaluations += s.Evaluations
			stats.NonTrivial += s.NonTrivial
			for k, v := range s.Classes {
				stats.Classes[k] += v
			}
			stats.Samples = append(stats.Samples, s.Samples...)
		} else if n, _ := readJournal(filepath.Join(r.dir, "journal")); n > 0 {
			stats.Evaluations += int(n)
		}
		hb, _ := os.ReadFile(filepath.Join(r.dir, "hashes"))
		for i := 0; i+8 <= len(hb); i += 8 {
			distinct[binary.LittleEndian.Uint64(hb[i:])] = true
		}
	}
	if len(stats.Samples) > 12 {
		stats.Samples = stats.Samples[:12]
	}

	violation := ""
	errorExit := ""
	writeReplay := func(cf *caseFailure) string {
		b, _ := json.MarshalIndent(cf, "", " ")
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%016x.json", id, hash64(cf.Case)))
		os.WriteFile(path, b, 0644)
		return path
	}
	for _, r := range results {
		if violation != "" {
			break
		}
		switch r.code {
		case 1:
			var cf caseFailure
			b, _ := os.ReadFile(filepath.Join(r.dir, "fail.json"))
			if json.Unmarshal(b, &cf) != nil {
				errorExit = "unreadable failure from shard"
				continue
			}
			violation = writeReplay(&cf)
			fmt.Printf("%s failing case: %s\n%s\n", id, short(string(cf.Case), 1500), short(cf.Error, 3000))
		case 2, 4:
			_, cb := readJournal(filepath.Join(r.dir, "journal"))
			if cb == nil {
				errorExit = "worker died before its first case: " + r.out
				continue
			}
			if journalInModel(filepath.Join(r.dir, "journal")) {
				errorExit = fmt.Sprintf("the reference model died (code %d)\n%s\ncase %s", r.code, r.out, short(string(cb), 2000))
				continue
			}
			what := "the process died while running this case:\n" + r.out
			if r.code == 4 {
				what = "no progress on this case (suspected hang)"
			}
			cf := &caseFailure{Property: id, Error: what, Case: append(json.RawMessage{}, cb...), Seed: r.seed}
			path := writeReplay(cf)
			verdict, out := confirm(self, path, 1, 90*time.Second)
			if verdict == "pass" && r.code == 2 {
				verdict, out = confirm(self, path, 200, 120*time.Second)
				if verdict == "hang" {
					verdict = "pass"
				}
			}
			if verdict == "pass" && r.code == 2 && p.Race && strings.Contains(r.out, "DATA RACE") {
				// schedule-dependent, but the detector's report is itself proof
				verdict, out = "fail", r.out
			}
			if verdict == "pass" && r.code == 2 && fatalInRepo(r.out) {
				verdict, out = "fail", r.out
			}
			if verdict == "pass" && r.code == 4 && p.Sched {
				// repeat the case: a deadlock need not happen every time
				verdict, out = confirm(self, path, 300, 150*time.Second)
				if verdict == "hang" && !r.asleep {
					verdict = "pass"
				}
				if verdict == "pass" && r.asleep {
					verdict, out = "deadlock", r.out
				}
			}
			if verdict == "pass" {
				os.Remove(path)
				errorExit = fmt.Sprintf("a worker ended abnormally (code %d) and the case does not reproduce it\n%s\ncase %s", r.code, r.out, short(string(cb), 2000))
				continue
			}
			if verdict == "hang" {
				cf.Error = "does not terminate"
			} else if verdict == "deadlock" {
				cf.Error = fmt.Sprintf("depending on the schedule, does not terminate: for %d s nothing happened and every thread slept\n%s", p.StallS, out)
			} else {
				cf.Error = what + "\n--- replay:\n" + out
			}
			path = writeReplay(cf)
			violation = path
			fmt.Printf("%s failing case (%s): %s\n%s\n", id, verdict, short(string(cb), 1500), short(cf.Error, 3000))
		case 3:
			errorExit = "machinery error: " + r.out
		}
	}

	// known findings: each is replayed on every run
	for ki, k := range loadKnown() {
		if k.Property != id || k.Kind != "known" || k.Case == nil {
			continue
		}
		cf := &caseFailure{Property: id, Case: k.Case}
		b, _ := json.Marshal(cf)
		f := filepath.Join(base, fmt.Sprintf("known%d.json", ki))
		os.WriteFile(f, b, 0644)
		if v, _ := confirm(self, f, 1, 60*time.Second); v != "pass" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}

	wall := time.Since(start).Seconds()
	if bs := os.Getenv("VERIF_BUILD_S"); bs != "" {
		if f, err := strconv.ParseFloat(bs, 64); err == nil {
			wall += f
		}
	}
	viol := 0
	if violation != "" {
		viol = 1
	}
	keys := make([]string, 0)
	for k := range stats.Classes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	samples := make([]interface{}, 0)
	for _, s := range stats.Samples {
		samples = append(samples, s)
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": int64(vseed), "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         stats.Evaluations,
			"distinct_nontrivial": len(distinct),
			"nontrivial":          stats.NonTrivial,
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             stats.Classes,
			"shards":              shards,
		},
		"assumptions": p.Assume,
		"wall_s":      wall,
		"violations":  viol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(eb, '\n'), 0644)

	if violation != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, violation)
		return 1
	}
	if errorExit != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", errorExit)
		return 2
	}
	fmt.Printf("%s held on %d cases (%d distinct non-trivial) in %.1fs\n", id, stats.Evaluations, len(distinct), wall)
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, k := range keys {
			fmt.Printf("  %-50s %d\n", k, stats.Classes[k])
		}
	}
	return 0
}

// fatalInRepo: the Go runtime itself reported a fatal condition inside golisp
// code (concurrent map access, deadlock of all goroutines, nil dereference in
// another goroutine): schedule-dependent, so the replay may not show it.
func fatalInRepo(out string) bool {
	return strings.Contains(out, "/repo/") && (strings.Contains(out, "fatal error: concurrent map") ||
		strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: sync:"))
}
