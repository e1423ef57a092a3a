package sim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Main is the entry point of the btpsim command.
func Main(args []string) int {
	switch args[0] {
	case "worker":
		return workerMain()
	case "one":
		// one SCENARIO SEED [-v]: a single run in this process
		seed, _ := strconv.ParseInt(args[2], 10, 64)
		j := Job{Scenario: args[1], Seed: seed, Tier: "quick", Trace: true, Verbose: len(args) > 3}
		r := RunJob(j)
		fmt.Printf("seed=%d ok=%v sig=%q infra=%q digest=%s steps=%d sim=%dms faults=%v counts=%v choices=%d\n%s\n", r.Seed, r.OK, r.Sig, r.Infra, r.Digest, r.Steps, r.SimMs, r.Faults, r.Counts, r.NChoices, r.Msg)
		return 0
	case "check":
		return checkMain(args[1:])
	case "replay":
		return replayMain(args[1:])
	case "list":
		for _, n := range ScenarioNames() {
			fmt.Println(n)
		}
		return 0
	case "digests":
		return digestsMain(args[1:])
	}
	fmt.Fprintln(os.Stderr, "unknown command", args[0])
	return 2
}

func init() {
	runtime.MemProfileRate = 0 // sampling draws from the generator
}

func workerMain() int {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2500 << 20)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	out := os.NewFile(3, "results")
	w := bufio.NewWriter(out)
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	warm := map[string]bool{}
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return 0
		}
		var j Job
		if err := json.Unmarshal(line, &j); err != nil {
			return 2
		}
		if !warm[j.Scenario] {
			warm[j.Scenario] = true
			RunJob(Job{Scenario: j.Scenario, Replay: true})
		}
		r := RunJob(j)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 256<<20 {
			runtime.GC()
			runtime.ReadMemStats(&ms)
		}
		r.Heap = int64(ms.HeapAlloc)
		b, err := json.Marshal(r)
		if err != nil {
			return 2
		}
		w.Write(b)
		w.WriteByte('\n')
		if w.Flush() != nil {
			return 2
		}
	}
}

// worker is a process that runs jobs one after the other.
type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outF   *os.File
	errF   string
	runs   int
	heap   int64
	java   bool
	closed bool
}

// isJava: scenarios over the Java contracts run in a Java process (java/sim/Main).
func isJava(scenario string) bool { return strings.HasPrefix(scenario, "j-") }

var scratchDir string

func newWorker(scenario string) (*worker, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	java := isJava(scenario)
	dir := os.Getenv("VERIF_JAVA")
	if java && dir == "" {
		return nil, fmt.Errorf("VERIF_JAVA is not set")
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	ef, err := os.CreateTemp(scratchDir, "stderr")
	if err != nil {
		return nil, err
	}
	c := exec.Command(self, "worker")
	if java {
		c = exec.Command("java", "-Xmx1500m", "-Xss8m", "-XX:+UseSerialGC", "--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED",
			"-cp", filepath.Join(dir, "app"), "sim.Main", filepath.Join(dir, "contracts"))
	}
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "GODEBUG=asyncpreemptoff=1", "TZ=UTC", "VERIF_SCRATCH="+scratchDir)
	c.ExtraFiles = []*os.File{pw}
	c.Stderr = ef
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err = c.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	ef.Close()
	return &worker{cmd: c, in: in, out: bufio.NewReaderSize(pr, 1<<20), outF: pr, errF: ef.Name(), java: java}, nil
}

func (k *worker) close() {
	if k.closed {
		return
	}
	k.closed = true
	k.in.Close()
	_ = k.cmd.Process.Kill()
	_ = k.cmd.Wait()
	k.outF.Close()
	os.Remove(k.errF)
}

type crashError struct {
	hang   bool
	stderr string
}

func (c *crashError) Error() string {
	if c.hang {
		return "no end within the time limit"
	}
	return "worker died"
}

func (k *worker) run(j Job, limit time.Duration) (Result, error) {
	b, err := json.Marshal(j)
	if err != nil {
		return Result{}, err
	}
	if _, err := k.in.Write(append(b, '\n')); err != nil {
		return Result{}, k.died(false)
	}
	hang := false
	var mu sync.Mutex
	t := time.AfterFunc(limit, func() {
		mu.Lock()
		hang = true
		mu.Unlock()
		_ = k.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(2 * time.Second)
		_ = k.cmd.Process.Kill()
	})
	line, err := k.out.ReadBytes('\n')
	t.Stop()
	if err != nil {
		mu.Lock()
		h := hang
		mu.Unlock()
		return Result{}, k.died(h)
	}
	var r Result
	if err := json.Unmarshal(line, &r); err != nil {
		return Result{}, err
	}
	k.runs++
	k.heap = r.Heap
	return r, nil
}

func (k *worker) died(hang bool) error {
	_ = k.cmd.Process.Kill()
	_ = k.cmd.Wait()
	b, _ := os.ReadFile(k.errF)
	if len(b) > 6000 {
		b = b[:6000]
	}
	k.close()
	return &crashError{hang: hang, stderr: string(b)}
}

const (
	jobLimit    = 20 * time.Second
	recycleRuns = 150
	recycleJava = 20000
)

// runner keeps one worker and replaces it when it is used up.
type runner struct {
	k *worker
}

func (r *runner) close() {
	if r.k != nil {
		r.k.close()
		r.k = nil
	}
}

// do runs a job; a crash or a hang of the process that repeats in a fresh
// process is the program's own and comes back as a failed result.
func (r *runner) do(j Job) (Result, error) {
	for try := 0; ; try++ {
		recycle := recycleRuns
		if isJava(j.Scenario) {
			recycle = recycleJava
		}
		if r.k != nil && (r.k.java != isJava(j.Scenario) || r.k.runs >= recycle || r.k.heap > 1200<<20 || try > 0) {
			r.close()
		}
		if r.k == nil {
			k, err := newWorker(j.Scenario)
			if err != nil {
				return Result{}, err
			}
			r.k = k
		}
		limit := jobLimit
		if try > 0 {
			limit = 3 * jobLimit
		}
		res, err := r.k.run(j, limit)
		if err == nil {
			return res, nil
		}
		r.k = nil
		ce, ok := err.(*crashError)
		if !ok {
			return res, err
		}
		if try == 0 {
			continue
		}
		res = Result{Scenario: j.Scenario, Seed: j.Seed, Choices: j.Choices, Digest: "crash"}
		switch {
		case ce.hang:
			res.Sig, res.Msg = "hang", "the program computes without end (twice, in fresh processes)\n"+ce.stderr
		case strings.Contains(ce.stderr, "fatal error:") || strings.Contains(ce.stderr, "panic:") || strings.Contains(ce.stderr, "SIG"):
			res.Sig, res.Msg = "fatal", "the program dies of a fatal error of the runtime (twice, in fresh processes)\n"+ce.stderr
		default:
			return res, fmt.Errorf("worker died without a message: %s", ce.stderr)
		}
		return res, nil
	}
}

// pool runs jobs in parallel.
func parallel(n int, jobs func() (Job, bool), sink func(Job, Result, error)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &runner{}
			defer r.close()
			for {
				mu.Lock()
				j, ok := jobs()
				mu.Unlock()
				if !ok {
					return
				}
				res, err := r.do(j)
				mu.Lock()
				sink(j, res, err)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func seedOf(base int64, scenario string, i int) int64 {
	h := uint64(base)
	for _, c := range []byte(scenario) {
		h = mix(h, uint64(c))
	}
	return int64(mix(h, uint64(i)) >> 2)
}

func digestsMain(args []string) int {
	// digests SCENARIO BASE N WORKERS: one line per run, for comparing executions
	base, _ := strconv.ParseInt(args[1], 10, 64)
	n, _ := strconv.Atoi(args[2])
	k, _ := strconv.Atoi(args[3])
	if err := mkScratch(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratchDir)
	traceDir := os.Getenv("VERIF_TRACEDIR")
	lines := make([]string, n)
	i := 0
	idx := map[int64]int{}
	parallel(k, func() (Job, bool) {
		if i >= n {
			return Job{}, false
		}
		j := Job{Scenario: args[0], Seed: seedOf(base, args[0], i), Tier: "quick", Trace: traceDir != ""}
		idx[j.Seed] = i
		i++
		return j, true
	}, func(j Job, r Result, err error) {
		if traceDir != "" {
			_ = os.WriteFile(filepath.Join(traceDir, fmt.Sprint(j.Seed)), []byte(strings.Join(r.Trace, "\n")+"\n"+r.Msg+"\n"), 0o644)
		}
		lines[idx[j.Seed]] = fmt.Sprintf("%d %s ok=%v %s %s %v steps=%d counts=%v", j.Seed, r.Digest, r.OK, r.Sig, r.Infra, err, r.Steps, r.Counts)
	})
	fmt.Println(strings.Join(lines, "\n"))
	return 0
}

func mkScratch() (err error) {
	base := os.Getenv("VERIF_TMP")
	if base == "" {
		base = os.TempDir()
	}
	scratchDir, err = os.MkdirTemp(base, "btpsim")
	return
}

// ---- check

type finding struct {
	property string
	sig      string
	match    *regexp.Regexp
	text     string
	hits     int
}

// loadFindings reads the known-findings file. Only "known:" lines suppress
// anything, and only a failure with the same signature and a matching message.
func loadFindings(file, property string) ([]*finding, error) {
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	re := regexp.MustCompile(`^known: property=(\S+) sig=(\S+) match=/(.*)/ (.*)$`)
	var r []*finding
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil || m[1] != property {
			continue
		}
		x, err := regexp.Compile(m[3])
		if err != nil {
			return nil, err
		}
		r = append(r, &finding{property: m[1], sig: m[2], match: x, text: m[4]})
	}
	return r, nil
}

type replayFile struct {
	Property  string   `json:"property"`
	Scenario  string   `json:"scenario"`
	Seed      int64    `json:"seed"`
	Tier      string   `json:"tier"`
	Sig       string   `json:"sig"`
	Violation string   `json:"violation"`
	Digest    string   `json:"digest"`
	Original  int      `json:"choices_before_minimisation"`
	NonZero   int      `json:"nonzero_choices"`
	Choices   []uint32 `json:"choices"`
	Trace     []string `json:"trace"`
}

type part struct {
	scenario string
	quick    int
	thorough int
}

// checkDef is what a property's check runs.
type checkDef struct {
	parts []part
	real  []string
	stub  []string
	rule  string
	assum []string
}

func checkMain(args []string) int {
	property, verif := args[0], args[1]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		base = 1
	}
	def := checks[property]
	if def == nil {
		fmt.Fprintln(os.Stderr, "no check for", property)
		return 2
	}
	if err := mkScratch(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratchDir)
	known, err := loadFindings(filepath.Join(verif, "known-findings.txt"), property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	t0 := time.Now()
	fmt.Printf("property=%s tier=%s VERIF_SEED=%d\n", property, tier, base)
	var jobs []Job
	left := make([]int, len(def.parts))
	for i, p := range def.parts {
		left[i] = p.quick
		if tier == "thorough" {
			left[i] = p.thorough
		}
	}
	done := make([]int, len(left))
	for {
		any := false
		for i, p := range def.parts {
			if done[i] < left[i] {
				any = true
				jobs = append(jobs, Job{Scenario: p.scenario, Seed: seedOf(base, p.scenario, done[i]), Tier: tier})
				done[i]++
			}
		}
		if !any {
			break
		}
	}
	capWall := 300 * time.Second
	if tier == "thorough" {
		capWall = 3 * time.Hour
	}
	var (
		next, ran    int
		sim          int64
		steps        int64
		faults       = map[string]int{}
		counts       = map[string]int{}
		digests      = map[string]bool{}
		states       = map[uint64]bool{}
		nontriv      int
		failed       []Result
		infra        []string
		firstFail    time.Time
		samples      []interface{}
		faultRuns    int
		recheck      = map[int64]string{}
		recheckBad   int
		recheckN     int
		perScenario  = map[string]int{}
		unknownFails = 0
	)
	ncpu := runtime.NumCPU()
	parallel(ncpu, func() (Job, bool) {
		if next >= len(jobs) || time.Since(t0) > capWall || unknownFails >= 8 || (unknownFails > 0 && time.Since(firstFail) > 20*time.Second) || len(infra) >= 20 {
			return Job{}, false
		}
		next++
		return jobs[next-1], true
	}, func(j Job, r Result, err error) {
		if err != nil {
			infra = append(infra, fmt.Sprintf("seed %d: %v", j.Seed, err))
			return
		}
		if r.Infra != "" {
			infra = append(infra, fmt.Sprintf("%s seed %d: %s", j.Scenario, j.Seed, r.Infra))
			return
		}
		ran++
		perScenario[j.Scenario]++
		sim += r.SimMs
		steps += int64(r.Steps)
		for k, v := range r.Faults {
			faults[k] += v
		}
		if len(r.Faults) > 0 {
			faultRuns++
		}
		for k, v := range r.Counts {
			if strings.HasPrefix(k, "max-") {
				if counts[k] < v {
					counts[k] = v
				}
				continue
			}
			counts[k] += v
		}
		for _, s := range r.States {
			states[s] = true
		}
		if !digests[r.Digest] {
			digests[r.Digest] = true
			if r.Nontrivial {
				nontriv++
			}
		}
		if ran%29 == 0 && r.OK {
			recheck[j.Seed] = r.Digest
		}
		if len(samples) < 3 && r.OK && r.Nontrivial {
			samples = append(samples, map[string]interface{}{"scenario": j.Scenario, "seed": j.Seed, "simulated_ms": r.SimMs, "steps": r.Steps, "faults": r.Faults, "counts": r.Counts, "digest": r.Digest})
		}
		if !r.OK {
			for _, k := range known {
				if k.sig == r.Sig && k.match.MatchString(r.Msg) {
					k.hits++
					return
				}
			}
			if unknownFails == 0 {
				firstFail = time.Now()
			}
			unknownFails++
			failed = append(failed, r)
		}
	})
	searchWall := time.Since(t0)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (reached in %d of %d runs)\n", property, k.text, k.hits, ran)
	}
	code := 0
	if len(failed) > 0 {
		sort.Slice(failed, func(a, b int) bool { return len(failed[a].Choices) < len(failed[b].Choices) })
		code = 2
		for i := range failed {
			if report(verif, property, tier, failed[i], ncpu) {
				code = 1
				break
			}
			fmt.Fprintf(os.Stderr, "seed %d failed once (%s: %s) but not again\n", failed[i].Seed, failed[i].Sig, firstLine(failed[i].Msg))
		}
	} else {
		// the same seeds again, in other processes: executions must be identical
		var again []Job
		for _, j := range jobs[:next] {
			if recheck[j.Seed] != "" {
				again = append(again, j)
			}
		}
		i := 0
		parallel(ncpu, func() (Job, bool) {
			if i >= len(again) {
				return Job{}, false
			}
			i++
			return again[i-1], true
		}, func(j Job, r Result, err error) {
			recheckN++
			if err != nil || r.Digest != recheck[j.Seed] {
				recheckBad++
				fmt.Fprintf(os.Stderr, "warning: %s seed %d does not repeat exactly\n", j.Scenario, j.Seed)
			}
		})
	}
	if len(infra) > 0 {
		fmt.Fprintf(os.Stderr, "simulator trouble in %d runs, first: %s\n", len(infra), infra[0])
		if code == 0 {
			code = 2
		}
	}
	if ran == 0 && code == 0 {
		code = 2
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]interface{}{
		"property": property, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": unknownFails,
		"assumptions": def.assum,
		"coverage": map[string]interface{}{
			"evaluations": ran, "distinct_nontrivial": nontriv, "rule": def.rule, "samples": samples,
			"runs_planned": len(jobs), "runs_per_scenario": perScenario,
			"runs_per_hour":             int(float64(ran) / searchWall.Seconds() * 3600),
			"simulated_seconds":         sim / 1000,
			"scheduler_steps":           steps,
			"runs_with_faults":          faultRuns,
			"faults_injected":           faults,
			"events_counted":            counts,
			"distinct_executions":       len(digests),
			"distinct_states":           len(states),
			"distinct_measure":          "executions: hash over the full event log (requests, replies, pushes, faults, contract calls, with simulated times); states: hash of the scenario's abstract state",
			"determinism_rechecked":     recheckN,
			"determinism_mismatches":    recheckBad,
			"components_real":           def.real,
			"components_stub":           def.stub,
			"known_findings_reached":    knownHits(known),
			"parallel_worker_processes": ncpu,
		},
	}
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err == nil {
		b, _ := json.MarshalIndent(ev, "", " ")
		err = os.WriteFile(filepath.Join(verif, "evidence", property+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("runs=%d distinct=%d nontrivial=%d simulated=%ds faults=%d wall=%.1fs exit=%d\n", ran, len(digests), nontriv, sim/1000, sum(faults), wall, code)
	return code
}

func knownHits(k []*finding) int {
	n := 0
	for _, f := range k {
		n += f.hits
	}
	return n
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

// report confirms a failure, minimises it and writes the replay file.
func report(verif, property, tier string, r Result, ncpu int) bool {
	rr := &runner{}
	defer rr.close()
	base := Job{Scenario: r.Scenario, Seed: r.Seed, Tier: tier, Trace: true}
	hard := r.Sig == "hang" || r.Sig == "fatal"
	conf := r
	if !hard { // those were confirmed in a second process already
		var err error
		conf, err = rr.do(base)
		if err != nil || conf.OK || conf.Sig != r.Sig {
			return false
		}
	}
	best := conf
	if !hard {
		best = minimise(conf, tier, ncpu)
	}
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return false
	}
	name := filepath.Join(dir, fmt.Sprintf("%s-%d.json", property, r.Seed))
	nz := 0
	for _, c := range best.Choices {
		if c != 0 {
			nz++
		}
	}
	rf := replayFile{Property: property, Scenario: r.Scenario, Seed: r.Seed, Tier: tier, Sig: best.Sig, Violation: best.Msg, Digest: best.Digest,
		Original: len(conf.Choices), NonZero: nz, Choices: best.Choices, Trace: best.Trace}
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(name, append(b, '\n'), 0o644); err != nil {
		return false
	}
	fmt.Printf("violated: %s: %s\n", best.Sig, best.Msg)
	fmt.Printf("seed=%d minimised: %d choices -> %d, %d not the default\n", r.Seed, len(conf.Choices), len(best.Choices), nz)
	fmt.Printf("VIOLATION property=%s replay=%s\n", property, name)
	return true
}

// minimise shrinks the list of choices while the same violation persists.
func minimise(r Result, tier string, ncpu int) Result {
	limit := 45
	if n, err := strconv.Atoi(os.Getenv("VERIF_MINIMISE")); err == nil {
		limit = n
	}
	deadline := time.Now().Add(time.Duration(limit) * time.Second)
	runners := make([]*runner, ncpu)
	for i := range runners {
		runners[i] = &runner{}
		defer runners[i].close()
	}
	best := r
	// try runs the candidates in parallel and takes the first that still fails
	try := func(cands [][]uint32) bool {
		for lo := 0; lo < len(cands) && time.Now().Before(deadline); lo += ncpu {
			hi := lo + ncpu
			if hi > len(cands) {
				hi = len(cands)
			}
			out := make([]Result, hi-lo)
			ok := make([]bool, hi-lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					x, err := runners[i-lo].do(Job{Scenario: r.Scenario, Seed: r.Seed, Tier: tier, Replay: true, Choices: cands[i], Trace: true})
					if err == nil && x.Infra == "" && !x.OK && x.Sig == r.Sig {
						out[i-lo], ok[i-lo] = x, true
					}
				}()
			}
			wg.Wait()
			for i := range out {
				if ok[i] {
					best = out[i]
					best.Choices = trimZero(best.Choices)
					return true
				}
			}
		}
		return false
	}
	// cut the tail: everything after a point takes the benign default
	for time.Now().Before(deadline) {
		n := len(best.Choices)
		var c [][]uint32
		for _, f := range []int{8, 4, 2} {
			c = append(c, best.Choices[:n-n/f])
		}
		c = append([][]uint32{best.Choices[:n/4], best.Choices[:n/2]}, c...)
		if n < 4 || !try(c) || len(best.Choices) >= n {
			break
		}
	}
	// zero blocks of choices, large to small
	for size := len(best.Choices) / 2; size >= 1 && time.Now().Before(deadline); {
		progress := false
		var c [][]uint32
		for lo := 0; lo < len(best.Choices); lo += size {
			hi := lo + size
			if hi > len(best.Choices) {
				hi = len(best.Choices)
			}
			z := append([]uint32(nil), best.Choices...)
			dirty := false
			for i := lo; i < hi; i++ {
				if z[i] != 0 {
					dirty = true
				}
				z[i] = 0
			}
			if dirty {
				c = append(c, z)
			}
		}
		before := nonzero(best.Choices)
		if try(c) && nonzero(best.Choices) < before {
			progress = true
		}
		if !progress {
			size /= 2
		}
	}
	// the minimised list has to fail again, identically, in a fresh process
	fresh := &runner{}
	defer fresh.close()
	x, err := fresh.do(Job{Scenario: r.Scenario, Seed: r.Seed, Tier: tier, Replay: true, Choices: best.Choices, Trace: true})
	if err != nil || x.OK || x.Sig != r.Sig {
		return r
	}
	x.Choices = best.Choices
	return x
}

func trimZero(c []uint32) []uint32 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

func nonzero(c []uint32) int {
	n := 0
	for _, v := range c {
		if v != 0 {
			n++
		}
	}
	return n
}

func replayMain(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := mkScratch(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratchDir)
	rr := &runner{}
	defer rr.close()
	j := Job{Scenario: rf.Scenario, Seed: rf.Seed, Tier: rf.Tier, Replay: true, Choices: rf.Choices, Trace: true}
	if rf.Sig == "hang" || rf.Sig == "fatal" {
		j.Replay, j.Choices = false, nil
	}
	x, err := rr.do(j)
	if err != nil || x.Infra != "" {
		fmt.Fprintln(os.Stderr, err, x.Infra)
		return 2
	}
	for _, l := range x.Trace {
		fmt.Println(l)
	}
	if x.OK {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Printf("violated: %s: %s\n", x.Sig, x.Msg)
	fmt.Printf("identical execution: %v\n", x.Digest == rf.Digest)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}
