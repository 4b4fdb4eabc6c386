package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// result of a worker.
type result struct {
	Evals   int               `json:"evals"`
	NT      []uint64          `json:"nt"`
	Labels  map[string]int    `json:"labels"`
	Samples []json.RawMessage `json:"samples"`
	Known   map[string]string `json:"known"`
	Viol    *violation        `json:"viol,omitempty"`
	Harness string            `json:"harness,omitempty"`
	Skipped string            `json:"skipped,omitempty"`
}

type violation struct {
	Suite  string          `json:"suite"`
	Config string          `json:"config"`
	Case   json.RawMessage `json:"case"`
	Msg    string          `json:"message"`
}

type replayFile struct {
	Property string          `json:"property"`
	Suite    string          `json:"suite"`
	Config   string          `json:"config"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// Main is the entry point of the harness binary.
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: nobscheck run|worker|one|list ...")
		os.Exit(2)
	}
	testing.Init()
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2]))
	case "worker":
		os.Exit(worker(os.Args[2:]))
	case "one":
		os.Exit(one(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "configs":
		os.Exit(configs(os.Args[2]))
	case "child":
		if f := Children[os.Args[2]]; f != nil {
			f(os.Args[3:])
			os.Exit(0)
		}
	}
	os.Exit(2)
}

// Children are helper processes that suites start.
var Children = map[string]func([]string){}

func tier() string { return Env("VERIF_TIER", "quick") }

func listedFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(Env("VERIF_ROOT", "/verif"), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return m
	}
	// known: property=<id> key=<key> <text>
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[f[2][4:]] = f[3]
		}
	}
	return m
}

func configs(id string) int {
	p := Props[id]
	if p == nil {
		return 2
	}
	m := map[string]bool{"": true}
	for _, s := range p.Suites {
		m[s.Config] = true
		for _, c := range s.Needs {
			m[c] = true
		}
	}
	var r []string
	for k := range m {
		if k != "" {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	fmt.Println(strings.Join(r, " "))
	return 0
}

// HookOK is set by files compiled in with hooks.
var HookOK = map[string]bool{}

func seedFor(parts ...string) uint64 {
	h := Hash([]byte(strings.Join(parts, "|") + "|" + Env("VERIF_SEED", "1")))
	if h == 0 {
		h = 1
	}
	return h
}

// BinFor returns the path of the harness built in a configuration.
func BinFor(config string) string {
	if config == "" {
		config = "default"
	}
	return filepath.Join(Env("VERIF_BIN", ""), "nobscheck-"+config)
}

type task struct {
	s      *Suite
	shard  int
	shards int
	n      int
}

func supervise(id string) int {
	start := time.Now()
	p := Props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	dir, err := os.MkdirTemp("", "nobs-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	var tasks []task
	skipped := map[string]string{}
	only := os.Getenv("VERIF_SUITE")
	for _, s := range p.Suites {
		if only != "" && s.Name != only {
			continue
		}
		if s.Hook != "" && !hookBuilt(s.Config, s.Hook) {
			skipped[s.Name] = "hook " + s.Hook + " does not compile against this tree"
			continue
		}
		if _, err := os.Stat(BinFor(s.Config)); err != nil {
			skipped[s.Name] = "build " + s.Config + " not available for this tree"
			continue
		}
		n := s.Quick
		if tier() == "thorough" {
			n = s.Thorough
		}
		if s.enum != nil {
			// every worker walks the enumeration and takes its share
			for i := 0; i < s.Shards; i++ {
				tasks = append(tasks, task{s, i, s.Shards, s.Shards})
			}
			continue
		}
		if n == 0 {
			continue
		}
		k := s.Shards
		if k > n {
			k = n
		}
		for i := 0; i < k; i++ {
			m := n / k
			if i < n%k {
				m++
			}
			tasks = append(tasks, task{s, i, k, m})
		}
	}
	par := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VERIF_PAR")); err == nil && v > 0 {
		par = v
	}
	var mu sync.Mutex
	type outcome struct {
		t task
		r result
	}
	var outs []outcome
	var viol *violation
	harness := ""
	var wg sync.WaitGroup
	ch := make(chan task)
	stop := make(chan struct{})
	var once sync.Once
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				select {
				case <-stop:
					continue
				default:
				}
				r := runWorker(id, t, dir, stop)
				mu.Lock()
				outs = append(outs, outcome{t, r})
				if r.Viol != nil {
					if viol == nil {
						viol = r.Viol
					}
					once.Do(func() { close(stop) })
				}
				if r.Harness != "" && harness == "" {
					harness = t.s.Name + ": " + r.Harness
				}
				mu.Unlock()
			}
		}()
	}
	for _, t := range tasks {
		ch <- t
	}
	close(ch)
	wg.Wait()
	sort.Slice(outs, func(i, j int) bool {
		if outs[i].t.s.Name != outs[j].t.s.Name {
			return outs[i].t.s.Name < outs[j].t.s.Name
		}
		return outs[i].t.shard < outs[j].t.shard
	})

	// evidence
	type perSuite struct {
		Evaluations int            `json:"evaluations"`
		Distinct    int            `json:"distinct_nontrivial"`
		Rule        string         `json:"rule"`
		Config      string         `json:"build,omitempty"`
		Labels      map[string]int `json:"classes,omitempty"`
	}
	suites := map[string]*perSuite{}
	nts := map[string]map[uint64]bool{}
	known := map[string]string{}
	var samples []any
	total, totalNT := 0, 0
	nsamp := map[string]int{}
	for _, o := range outs {
		n := o.t.s.Name
		if suites[n] == nil {
			suites[n] = &perSuite{Labels: map[string]int{}, Rule: o.t.s.Rule, Config: o.t.s.Config}
			nts[n] = map[uint64]bool{}
		}
		if o.r.Skipped != "" {
			skipped[n] = o.r.Skipped
		}
		suites[n].Evaluations += o.r.Evals
		total += o.r.Evals
		for k, v := range o.r.Labels {
			suites[n].Labels[k] += v
		}
		for _, h := range o.r.NT {
			nts[n][h] = true
		}
		for k, v := range o.r.Known {
			known[k] = v
		}
		for _, c := range o.r.Samples {
			if nsamp[n] < 3 {
				nsamp[n]++
				samples = append(samples, map[string]any{"suite": n, "case": c})
			}
		}
	}
	var rules []string
	for _, n := range SortedKeys(suites) {
		suites[n].Distinct = len(nts[n])
		totalNT += len(nts[n])
		rules = append(rules, n+": "+suites[n].Rule)
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         total,
		"distinct_nontrivial": totalNT,
		"rule":                "cases are drawn by rapid generators (or enumerated) and deduplicated by hash per suite; " + strings.Join(rules, " || "),
		"samples":             samples,
		"suites":              suites,
	}
	if len(skipped) > 0 {
		cov["skipped"] = skipped
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = known
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	seed, _ := strconv.Atoi(Env("VERIF_SEED", "1"))
	ev := map[string]any{
		"property": id, "tier": tier(), "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	root := Env("VERIF_ROOT", "/verif")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range SortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k])
	}
	for _, n := range SortedKeys(suites) {
		fmt.Printf("%s/%s: %d cases, %d distinct non-trivial\n", id, n, suites[n].Evaluations, suites[n].Distinct)
	}
	for _, n := range SortedKeys(skipped) {
		fmt.Printf("%s/%s: skipped: %s\n", id, n, skipped[n])
	}
	if viol != nil {
		os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		rf := replayFile{id, viol.Suite, viol.Config, viol.Msg, viol.Case}
		b, _ := json.MarshalIndent(rf, "", " ")
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%s-%016x.json", id, viol.Suite, Hash(viol.Case)))
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s/%s: %s\n", id, viol.Suite, viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, "check error:", harness)
		return 2
	}
	if total == 0 {
		fmt.Fprintln(os.Stderr, "check error: nothing was run")
		return 2
	}
	return 0
}

func hookBuilt(config, hook string) bool {
	// a build that needed it was made with fewer hooks
	b, err := os.ReadFile(filepath.Join(Env("VERIF_BIN", ""), "hooks-"+config))
	if err != nil {
		b, err = os.ReadFile(filepath.Join(Env("VERIF_BIN", ""), "hooks"))
	}
	if err != nil {
		return false
	}
	for _, l := range strings.Fields(string(b)) {
		if l == hook {
			return true
		}
	}
	return false
}

func (s *Suite) cmd(args ...string) *exec.Cmd {
	c := exec.Command(BinFor(s.Config), args...)
	c.Env = append(os.Environ(), "GOTRACEBACK=all")
	c.Env = append(c.Env, s.Env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	return c
}

func runWorker(id string, t task, dir string, stop chan struct{}) result {
	base := filepath.Join(dir, fmt.Sprintf("%s.%d", t.s.Name, t.shard))
	c := t.s.cmd("worker", id, t.s.Name, fmt.Sprint(t.shard), fmt.Sprint(t.n), base)
	var stderr tail
	c.Stderr = &stderr
	runtime.LockOSThread()
	if err := c.Start(); err != nil {
		return result{Harness: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var lastMod time.Time
	lastSeen := time.Now()
	for {
		select {
		case <-stop:
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			<-done
			return result{}
		case <-tick.C:
			if st, err := os.Stat(base + ".cur"); err == nil {
				if st.ModTime() != lastMod {
					lastMod = st.ModTime()
					lastSeen = time.Now()
				}
			}
			if time.Since(lastSeen) > time.Duration(t.s.CaseLimit)*time.Second {
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				<-done
				// confirm in isolation with twice the limit
				cs, ok := readCur(base + ".cur")
				if !ok {
					return result{Harness: "worker hung before its first case"}
				}
				msg, hung, herr := runOne(id, t.s, cs, dir, 2*time.Duration(t.s.CaseLimit)*time.Second)
				if hung {
					return result{Viol: &violation{t.s.Name, t.s.Config, cs, fmt.Sprintf("does not terminate (killed after %d s, again alone after %d s; cases of this suite normally take well under a second)", t.s.CaseLimit, 2*t.s.CaseLimit)}}
				}
				if msg != "" {
					return result{Viol: &violation{t.s.Name, t.s.Config, cs, msg}}
				}
				return result{Harness: "worker stalled, case is fine alone (machine overloaded?) " + herr}
			}
		case err := <-done:
			b, rerr := os.ReadFile(base + ".json")
			var r result
			if rerr == nil {
				if jerr := json.Unmarshal(b, &r); jerr == nil {
					return r
				}
			}
			// crashed: decide by running the case alone
			cs, ok := readCur(base + ".cur")
			if !ok {
				return result{Harness: fmt.Sprintf("worker died before its first case: %v\n%s", err, stderr.String())}
			}
			msg, hung, herr := runOne(id, t.s, cs, dir, 2*time.Duration(t.s.CaseLimit)*time.Second)
			if hung {
				return result{Viol: &violation{t.s.Name, t.s.Config, cs, "does not terminate"}}
			}
			if msg != "" {
				return result{Viol: &violation{t.s.Name, t.s.Config, cs, msg}}
			}
			if libCrash(stderr.String()) {
				return result{Viol: &violation{t.s.Name, t.s.Config, cs, "process crashed inside the library: " + firstLines(stderr.String())}}
			}
			return result{Harness: fmt.Sprintf("worker died: %v %s\n%s", err, herr, stderr.String())}
		}
	}
}

func readCur(f string) (json.RawMessage, bool) {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 8 {
		return nil, false
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b[:8])))
	if err != nil || len(b) < 8+n {
		return nil, false
	}
	return json.RawMessage(b[8 : 8+n]), true
}

// libCrash says if a fatal error happened in code of the library.
func libCrash(s string) bool {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		// one of the two accesses is made by the library
		first := false
		for _, l := range strings.Split(s[i:], "\n") {
			if strings.HasPrefix(l, "Goroutine ") {
				break
			}
			if strings.Contains(l, "ead at 0x") || strings.Contains(l, "rite at 0x") {
				first = true
				continue
			}
			f := strings.TrimSpace(l)
			if !first || !strings.HasSuffix(f, ")") || strings.HasPrefix(f, "/") || strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") {
				continue
			}
			if strings.HasPrefix(f, "verif/") {
				first = false // the harness' own access
				continue
			}
			if strings.HasPrefix(f, "github.com/henrydcase/nobs") || strings.HasPrefix(f, "mkem.") {
				return true
			}
		}
		return false
	}
	i := strings.Index(s, "[running")
	if i < 0 {
		return false
	}
	s = s[i:]
	if j := strings.Index(s, "\n\n"); j > 0 {
		s = s[:j]
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "verif/") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/henrydcase/nobs") || strings.HasPrefix(l, "mkem.") {
			return true
		}
	}
	return false
}

func firstLines(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 12 {
		l = l[:12]
	}
	return strings.Join(l, " | ")
}

// runOne executes a single case in its own process.
func runOne(id string, s *Suite, cs json.RawMessage, dir string, limit time.Duration) (msg string, hung bool, herr string) {
	f, err := os.CreateTemp(dir, "one")
	if err != nil {
		return "", false, err.Error()
	}
	rf := replayFile{id, s.Name, s.Config, "", cs}
	b, _ := json.Marshal(rf)
	f.Write(b)
	f.Close()
	c := s.cmd("one", id, f.Name())
	var out bytes.Buffer
	var stderr tail
	c.Stdout = &out
	c.Stderr = &stderr
	runtime.LockOSThread()
	if err := c.Start(); err != nil {
		return "", false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-time.After(limit):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		return "", true, ""
	case err := <-done:
		var r result
		if json.Unmarshal(out.Bytes(), &r) == nil {
			if r.Viol != nil {
				return r.Viol.Msg, false, ""
			}
			return "", false, r.Harness
		}
		if libCrash(stderr.String()) {
			return "process crashed inside the library: " + firstLines(stderr.String()), false, ""
		}
		return "", false, fmt.Sprintf("%v %s", err, stderr.String())
	}
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func findSuite(id, name string) *Suite {
	if p := Props[id]; p != nil {
		for _, s := range p.Suites {
			if s.Name == name {
				return s
			}
		}
	}
	return nil
}

func newCtx(id, dir string) *Ctx {
	return &Ctx{Tier: tier(), labels: map[string]int{}, known: map[string]string{}, listed: listedFindings(id), Dir: dir}
}

// one runs one case and prints the result as JSON.
func one(id, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return 2
	}
	var rf replayFile
	if json.Unmarshal(b, &rf) != nil {
		return 2
	}
	s := findSuite(id, rf.Suite)
	if s == nil {
		return 2
	}
	c, err := s.dec(rf.Case)
	if err != nil {
		return 2
	}
	out := bufio.NewWriter(os.Stdout)
	x := newCtx(id, filepath.Dir(file))
	var r result
	err = s.RunCase(c, x)
	if he, ok := err.(HarnessError); ok {
		r.Harness = he.Msg
	} else if err != nil && err != ErrSkip {
		r.Viol = &violation{s.Name, s.Config, rf.Case, err.Error()}
	}
	j, _ := json.Marshal(r)
	out.Write(j)
	out.Flush()
	return 0
}

// replay runs the case of a replay file; exit 1 if it still fails.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := findSuite(rf.Property, rf.Suite)
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such suite")
		return 2
	}
	dir, err := os.MkdirTemp("", "nobs-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	msg, hung, herr := runOne(rf.Property, s, rf.Case, dir, 2*time.Duration(s.CaseLimit)*time.Second)
	if hung {
		msg = "does not terminate"
	}
	if msg != "" {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	if herr != "" {
		fmt.Fprintln(os.Stderr, "error:", herr)
		return 2
	}
	fmt.Println("case passes")
	return 0
}

type fakeTB struct {
	name   string
	failed bool
	msg    []string
}

func (f *fakeTB) Helper()                  {}
func (f *fakeTB) Name() string             { return f.name }
func (f *fakeTB) Logf(s string, a ...any)  {}
func (f *fakeTB) Log(a ...any)             {}
func (f *fakeTB) Skipf(s string, a ...any) { runtime.Goexit() }
func (f *fakeTB) Skip(a ...any)            { runtime.Goexit() }
func (f *fakeTB) SkipNow()                 { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.msg = append(f.msg, fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.msg = append(f.msg, fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); runtime.Goexit() }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); runtime.Goexit() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// worker explores one shard of a suite.
func worker(a []string) int {
	id, name := a[0], a[1]
	shard, _ := strconv.Atoi(a[2])
	n, _ := strconv.Atoi(a[3])
	base := a[4]
	s := findSuite(id, name)
	if s == nil {
		return 3
	}
	cur, err := os.Create(base + ".cur")
	if err != nil {
		return 3
	}
	x := newCtx(id, filepath.Dir(base))
	r := result{Labels: x.labels, Known: x.known}
	seen := map[uint64]bool{}
	var last *violation
	var harness string
	phase := "explore"
	runCase := func(c any) error {
		js, err := json.Marshal(c)
		if err != nil {
			return HarnessError{err.Error()}
		}
		hdr := fmt.Sprintf("%8d", len(js))
		cur.WriteAt(append([]byte(hdr), js...), 0)
		x.nt = false
		err = s.RunCase(c, x)
		if phase == "explore" {
			r.Evals++
			if x.nt && err == nil {
				h := Hash(js)
				if !seen[h] {
					seen[h] = true
					if len(r.Samples) < 3 && len(js) < 6000 {
						r.Samples = append(r.Samples, js)
					}
				}
			}
		}
		if err == nil {
			return nil
		}
		if err == ErrSkip {
			r.Skipped = "nothing to decide on this build"
			return nil
		}
		if he, ok := err.(HarnessError); ok {
			if harness == "" {
				harness = he.Msg + " case=" + string(js)
			}
			return nil // do not shrink harness errors
		}
		phase = "shrink"
		last = &violation{s.Name, s.Config, js, err.Error()}
		return err
	}
	if s.enum != nil {
		func() {
			type stopT struct{}
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopT); !ok {
						panic(e)
					}
				}
			}()
			idx := -1
			s.enum(tier(), func(c any) {
				if idx++; idx%n != shard {
					return
				}
				if runCase(c) != nil {
					panic(stopT{})
				}
			})
		}()
	} else {
		flag.CommandLine.Init("w", flag.ContinueOnError)
		flag.CommandLine.SetOutput(io.Discard)
		if err := flag.CommandLine.Parse([]string{
			"-rapid.checks=" + fmt.Sprint(n),
			"-rapid.seed=" + fmt.Sprint(seedFor(id, name, fmt.Sprint(shard))),
			"-rapid.nofailfile", "-rapid.shrinktime=" + s.Shrink,
		}); err != nil {
			harness = err.Error()
		}
		tb := &fakeTB{name: fmt.Sprintf("%s_%s_%d", id, name, shard)}
		os.Chdir(filepath.Dir(base))
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				c := s.gen(t)
				if err := runCase(c); err != nil {
					t.Fatalf("%v", err)
				}
			})
		}()
		<-done
		if tb.failed && last == nil && harness == "" {
			harness = strings.Join(tb.msg, "; ")
		}
	}
	if last != nil {
		r.Viol = last
	}
	r.Harness = harness
	for h := range seen {
		r.NT = append(r.NT, h)
	}
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if err := os.WriteFile(base+".json", b, 0o644); err != nil {
		return 3
	}
	return 0
}
