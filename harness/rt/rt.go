// Package rt runs the checks: a supervisor process splits a fixed list of
// cases over worker processes, watches them (crashes, hangs, memory), gathers
// what their monitors observed and writes the verdict and the evidence.
package rt

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	// N gives the number of cases.
	N func(thorough bool) int
	// Run runs one case.
	Run func(t *T)
	// CPULimit is the CPU time, in seconds, after which one case counts as not
	// terminating (default 120).
	CPULimit int
	// MemLimit limits the address space of a worker, in bytes (0: none).
	MemLimit uint64
	// MinKeys is how many distinct non-trivial observations a quick run must
	// make for its silence to mean anything.
	MinKeys int
	// Workers, when not zero, limits the number of processes.
	Workers int
	// Race says that the reports of the race detector are part of the verdict.
	Race bool
}

// T is the running case.
type T struct {
	*Rng
	Idx      int
	Thorough bool
	Seed     int
	w        *worker
	fails    int
	desc     string
	mu       sync.Mutex
}

type worker struct {
	check   *Check
	out     *bufio.Writer
	keys    map[uint64]struct{}
	evals   int64
	counts  map[string]int64
	samples []string
}

type abort struct{}

type msg struct {
	Kind   string           `json:"k"`
	Idx    int              `json:"i"`
	Msg    string           `json:"m,omitempty"`
	Site   string           `json:"s,omitempty"`
	Evals  int64            `json:"e,omitempty"`
	Counts map[string]int64 `json:"c,omitempty"`
	Smp    []string         `json:"p,omitempty"`
}

func (w *worker) send(m msg) {
	b, _ := json.Marshal(m)
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
}

// Describe says what the case is, for samples and messages.
func (t *T) Describe(f string, a ...interface{}) { t.desc = fmt.Sprintf(f, a...) }

// Desc is the description.
func (t *T) Desc() string { return t.desc }

// Sample keeps a description of the case for the evidence file.
func (t *T) Sample(f string, a ...interface{}) {
	if len(t.w.samples) < 3 {
		s := fmt.Sprintf("case %d: ", t.Idx) + fmt.Sprintf(f, a...)
		if len(s) > 1200 {
			s = s[:1200] + "..."
		}

		t.w.samples = append(t.w.samples, s)
	}
}

// Eval counts n evaluations of the oracle.
func (t *T) Eval(n int) {
	t.mu.Lock()
	t.w.evals += int64(n)
	t.mu.Unlock()
}

// Count counts events.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.w.counts[name] += int64(n)
	t.mu.Unlock()
}

// Key records a distinct, non-trivial observation.
func (t *T) Key(k uint64) {
	t.mu.Lock()
	if len(t.w.keys) < 500000 {
		t.w.keys[k] = struct{}{}
	}
	t.mu.Unlock()
}

// Fail reports a violation and ends the case.
func (t *T) Fail(f string, a ...interface{}) { t.FailAt("", f, a...) }

// FailAt is Fail with a stable name for the failing input, for the list of
// known findings.
func (t *T) FailAt(site, f string, a ...interface{}) {
	t.Report(site, f, a...)
	panic(abort{})
}

// Report reports a violation without ending the case.
func (t *T) Report(site, f string, a ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.fails++

	if t.fails > 3 {
		return
	}

	s := fmt.Sprintf(f, a...)
	if t.desc != "" {
		d := t.desc
		if len(d) > 3000 {
			d = d[:3000] + "..."
		}

		s += "\n  in: " + d
	}

	t.w.send(msg{Kind: "fail", Idx: t.Idx, Msg: s, Site: site})
}

// Guard runs f and turns a panic into a violation.
func (t *T) Guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				panic(r)
			}

			t.Fail("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	f()
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}

	return string(b)
}

func (w *worker) runCase(idx, seed int, thorough bool) {
	w.send(msg{Kind: "start", Idx: idx})

	t := &T{
		Rng:      NewRng(Hash(uint64(seed), HashS(w.check.ID), uint64(idx))),
		Idx:      idx,
		Thorough: thorough,
		Seed:     seed,
		w:        w,
	}

	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); !ok {
					t.Report("", "panic: %v\n%s", r, trimStack(debug.Stack()))
				}
			}
		}()
		w.check.Run(t)
	}()
}

// Main is the body of a check program.
func Main(checks ...*Check) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: prog ID [--replay FILE]")
		os.Exit(2)
	}

	var c *Check

	for _, k := range checks {
		if k.ID == os.Args[1] {
			c = k
		}
	}

	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", os.Args[1])
		os.Exit(2)
	}

	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}

	thorough := os.Getenv("VERIF_TIER") == "thorough"

	if len(os.Args) > 2 && os.Args[2] == "--worker" {
		runWorker(c, seed, thorough, os.Args[3:])

		return
	}

	os.Exit(supervise(c, seed, thorough))
}

func runWorker(c *Check, seed int, thorough bool, args []string) {
	// args: shard, shards, first index to run, key file, [only]
	shard, _ := strconv.Atoi(args[0])
	shards, _ := strconv.Atoi(args[1])
	from, _ := strconv.Atoi(args[2])
	out := os.NewFile(3, "report")
	w := &worker{check: c, out: bufio.NewWriter(out), keys: map[uint64]struct{}{}, counts: map[string]int64{}}

	// recursion as deep as the input is made of, not as the default limit of
	// a gigabyte, is to show
	debug.SetMaxStack(24 << 20)

	if c.MemLimit > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: c.MemLimit, Max: c.MemLimit})
	}

	n := c.N(thorough)

	flush := func() {
		f, err := os.Create(args[3])
		if err == nil {
			b := bufio.NewWriter(f)
			for k := range w.keys {
				binary.Write(b, binary.LittleEndian, k)
			}

			b.Flush()
			f.Close()
		}

		w.send(msg{Kind: "end", Evals: w.evals, Counts: w.counts, Smp: w.samples})
	}

	if len(args) > 4 {
		i, _ := strconv.Atoi(args[4])
		w.runCase(i, seed, thorough)
		flush()

		return
	}

	last := time.Now()

	for i := shard; i < n; i += shards {
		if i < from {
			continue
		}

		w.runCase(i, seed, thorough)

		if time.Since(last) > time.Second { // so that little is lost in a crash
			last = time.Now()
			w.send(msg{Kind: "part", Evals: w.evals, Counts: w.counts, Smp: w.samples})
		}
	}

	flush()
}

type failure struct {
	Idx  int    `json:"case"`
	Site string `json:"site,omitempty"`
	Msg  string `json:"message"`
}

type shardState struct {
	sync.Mutex
	cur      int
	started  time.Time
	startCPU float64
	ended    bool
	fails    []failure
	evals    int64
	counts   map[string]int64
	samples  []string
}

func cpuOf(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}

	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))

	if len(f) < 14 {
		return 0
	}

	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)

	return (u + s) / 100
}

func allAsleep(pid int) bool {
	ts, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil {
		return false
	}

	for _, t := range ts {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, t.Name()))
		if err != nil {
			continue
		}

		i := bytes.LastIndexByte(b, ')')
		if f := strings.Fields(string(b[i+1:])); len(f) > 0 && f[0] != "S" {
			return false
		}
	}

	return true
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}

	return string(b)
}

// limited keeps the first part and the last part of what is written to it.
type limited struct {
	sync.Mutex
	b []byte
}

func (l *limited) Write(p []byte) (int, error) {
	l.Lock()
	defer l.Unlock()

	if len(l.b) < 200000 {
		l.b = append(l.b, p...)
	}

	return len(p), nil
}

func (l *limited) Bytes() []byte {
	l.Lock()
	defer l.Unlock()

	return append([]byte(nil), l.b...)
}

const wallCap = 3600 // seconds without any progress at all: inconclusive

func runShard(c *Check, seed int, shard, shards int, dir string, only int) (*shardState, error) {
	st := &shardState{cur: -1, counts: map[string]int64{}}
	from := 0

	for attempt := 0; attempt < 4; attempt++ {
		keyFile := filepath.Join(dir, fmt.Sprintf("keys-%d-%d", shard, attempt))
		args := []string{c.ID, "--worker", strconv.Itoa(shard), strconv.Itoa(shards), strconv.Itoa(from), keyFile}

		if only >= 0 {
			args = append(args, strconv.Itoa(only))
		}

		exe, _ := os.Executable()
		cmd := exec.Command(exe, args...)
		pr, pw, err := os.Pipe()

		if err != nil {
			return nil, err
		}

		stderr := new(limited)
		cmd.ExtraFiles = []*os.File{pw}
		cmd.Stderr = stderr
		cmd.Stdout = stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		gomax := "2"

		if c.Race {
			gomax = "4"
		}

		cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS="+gomax, "GORACE=halt_on_error=0 exitcode=66 history_size=3", "GOMEMLIMIT=2500MiB")

		if err := cmd.Start(); err != nil {
			return nil, err
		}

		pw.Close()

		st.Lock()
		st.started = time.Now()
		st.startCPU = 0
		st.Unlock()

		var (
			partE int64
			partC map[string]int64
			partS []string
		)

		done := make(chan struct{})
		verdict := make(chan string, 1)

		go func() {
			tick := time.NewTicker(500 * time.Millisecond)
			defer tick.Stop()

			limit := float64(c.CPULimit)
			if limit == 0 {
				limit = 120
			}

			var quiet time.Time

			lastCPU := -1.0

			for {
				select {
				case <-done:
					return
				case <-tick.C:
				}

				cpu := cpuOf(cmd.Process.Pid)
				st.Lock()
				used := cpu - st.startCPU
				wall := time.Since(st.started)
				st.Unlock()

				if cpu > lastCPU+0.02 || !allAsleep(cmd.Process.Pid) {
					quiet = time.Now()
					lastCPU = cpu
				}

				v := ""

				if used > limit {
					v = fmt.Sprintf("does not terminate: %.0f s of CPU time used by one case", used)
				} else if wall > 60*time.Second && time.Since(quiet) > 60*time.Second {
					v = "hangs: every thread asleep for a minute"
				} else if wall > wallCap*time.Second {
					v = "inconclusive"
				}

				if v != "" {
					verdict <- v

					cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(3 * time.Second)
					cmd.Process.Kill()

					return
				}
			}
		}()

		clean := false
		sc := bufio.NewReaderSize(pr, 1<<16)

		for {
			line, err := sc.ReadBytes('\n')
			if err != nil {
				break
			}

			var m msg

			if json.Unmarshal(line, &m) != nil {
				continue
			}

			st.Lock()
			switch m.Kind {
			case "start":
				st.cur = m.Idx
				st.started = time.Now()
				st.startCPU = cpuOf(cmd.Process.Pid)
			case "fail":
				st.fails = append(st.fails, failure{m.Idx, m.Site, m.Msg})
			case "part":
				partE, partC, partS = m.Evals, m.Counts, m.Smp
			case "end":
				partE, partC, partS = m.Evals, m.Counts, m.Smp
				clean = true
			}
			st.Unlock()
		}

		err = cmd.Wait()
		close(done)
		pr.Close()

		st.evals += partE
		for k, v := range partC {
			st.counts[k] += v
		}

		st.samples = append(st.samples, partS...)

		text := stderr.Bytes()

		if i := bytes.Index(text, []byte("WARNING: DATA RACE")); i >= 0 && c.Race {
			e := i + 5000
			if e > len(text) {
				e = len(text)
			}

			st.fails = append(st.fails, failure{st.cur, "", "data race reported by the race detector:\n" + string(text[i:e])})
		} else if i >= 0 {
			st.counts["race_reports_outside_the_property"]++
		}

		if clean { // also with the race detector's exit code
			return st, nil
		}

		v := ""
		select {
		case v = <-verdict:
		default:
		}

		if v == "inconclusive" {
			return st, fmt.Errorf("inconclusive: no progress in case %d", st.cur)
		}

		if v == "" {
			v = fmt.Sprintf("the process died (%v)", err)
		}

		if ee, ok := err.(*exec.ExitError); ok && v[:3] == "the" {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && c.MemLimit == 0 {
				return st, fmt.Errorf("worker killed from outside in case %d", st.cur)
			}
		}

		st.fails = append(st.fails, failure{st.cur, "", v + "\n" + tail(text, 6000)})

		if only >= 0 || v[:3] != "the" { // what hangs once would take as long each time
			return st, nil
		}

		from = st.cur + 1
	}

	return st, nil
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Site     string `json:"site"`
	What     string `json:"what"`
}

func loadKnown(id string) map[string]known {
	r := map[string]known{}

	f, err := os.Open("known-findings.jsonl")
	if err != nil {
		return r
	}
	defer f.Close()

	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)

	for sc.Scan() {
		var k known
		if json.Unmarshal(sc.Bytes(), &k) == nil && k.Property == id && k.Status == "known" && k.Site != "" {
			r[k.Site] = k
		}
	}

	return r
}

func supervise(c *Check, seed int, thorough bool) int {
	begin := time.Now()
	tier := "quick"

	if thorough {
		tier = "thorough"
	}

	only := -1

	if len(os.Args) > 3 && os.Args[2] == "--replay" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)

			return 2
		}

		var r struct {
			Seed int    `json:"seed"`
			Tier string `json:"tier"`
			failure
		}

		json.Unmarshal(b, &r)

		seed, tier, only = r.Seed, r.Tier, r.Idx
		thorough = tier == "thorough"

		os.Setenv("VERIF_SEED", strconv.Itoa(seed))
		os.Setenv("VERIF_TIER", tier)
	}

	shards := runtime.NumCPU()

	if s, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && s > 0 {
		shards = s
	}

	if c.Workers > 0 && shards > c.Workers {
		shards = c.Workers
	}

	if n := c.N(thorough); shards > n {
		shards = n
	}

	if only >= 0 {
		shards = 1
	}

	dir, err := os.MkdirTemp("", "verif-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}
	defer os.RemoveAll(dir)

	states := make([]*shardState, shards)
	errs := make([]error, shards)

	var wg sync.WaitGroup

	for i := range states {
		wg.Add(1)

		go func(i int) {
			defer wg.Done()

			// Pdeathsig follows the thread that started the process
			runtime.LockOSThread()

			states[i], errs[i] = runShard(c, seed, i, shards, dir, only)
		}(i)
	}

	wg.Wait()

	var (
		evals    int64
		fails    []failure
		samples  []interface{}
		incl     []string
		counts   = map[string]int64{}
		distinct = map[uint64]struct{}{}
	)

	for i, s := range states {
		if errs[i] != nil {
			incl = append(incl, errs[i].Error())
		}

		if s == nil {
			continue
		}

		evals += s.evals
		fails = append(fails, s.fails...)

		for k, v := range s.counts {
			counts[k] += v
		}

		for _, x := range s.samples {
			if len(samples) < 8 {
				samples = append(samples, x)
			}
		}
	}

	files, _ := filepath.Glob(filepath.Join(dir, "keys-*"))
	for _, f := range files {
		fh, err := os.Open(f)
		if err != nil {
			continue
		}

		r := bufio.NewReader(fh)

		var b [8]byte

		for {
			if _, err := io.ReadFull(r, b[:]); err != nil {
				break
			}

			distinct[binary.LittleEndian.Uint64(b[:])] = struct{}{}
		}

		fh.Close()
	}

	if len(samples) == 0 {
		samples = append(samples, "none")
	}

	sort.SliceStable(fails, func(i, j int) bool { return fails[i].Idx < fails[j].Idx })

	kn := loadKnown(c.ID)
	seen := map[string]bool{}

	var unknown []failure

	for _, f := range fails {
		if k, ok := kn[f.Site]; ok && f.Site != "" {
			if !seen[f.Site] {
				seen[f.Site] = true

				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
			}
		} else {
			unknown = append(unknown, f)
		}
	}

	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                c.Rule,
		"samples":             samples,
		"cases":               c.N(thorough),
		"observed":            counts,
	}
	ev := map[string]interface{}{
		"property":   c.ID,
		"tier":       tier,
		"seed":       seed,
		"level":      c.Level,
		"coverage":   cov,
		"wall_s":     time.Since(begin).Seconds(),
		"violations": len(unknown),
	}

	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}

	if len(incl) > 0 {
		cov["inconclusive"] = incl
	}

	if only < 0 {
		os.MkdirAll("evidence", 0o777)

		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join("evidence", c.ID+".json"), append(b, '\n'), 0o666); err != nil {
			fmt.Fprintln(os.Stderr, err)

			return 2
		}
	}

	if len(unknown) > 0 {
		os.MkdirAll("replays", 0o777)

		for i, f := range unknown {
			if i >= 5 {
				fmt.Printf("... and %d more\n", len(unknown)-i)

				break
			}

			p := filepath.Join("replays", fmt.Sprintf("%s-%d.json", c.ID, f.Idx))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": c.ID, "seed": seed, "tier": tier, "case": f.Idx, "site": f.Site, "message": f.Msg}, "", " ")
			os.WriteFile(p, append(b, '\n'), 0o666)

			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)

			m := f.Msg
			if i > 0 && len(m) > 600 {
				m = m[:600] + "..."
			}

			fmt.Printf("case %d: %s\n", f.Idx, m)
		}

		return 1
	}

	if len(incl) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", c.ID, strings.Join(incl, "; "))

		return 3
	}

	if only < 0 && len(distinct) < c.MinKeys {
		fmt.Printf("INCONCLUSIVE property=%s only %d distinct observations\n", c.ID, len(distinct))

		return 3
	}

	fmt.Printf("ok %s %s seed=%d: %d evaluations, %d distinct, %.1f s\n", c.ID, tier, seed, evals, len(distinct), time.Since(begin).Seconds())

	return 0
}

// Cases is a number of cases for either tier.
func Cases(quick, thorough int) func(bool) int {
	return func(t bool) int {
		if t {
			return thorough
		}

		return quick
	}
}
