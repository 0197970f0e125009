package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs/internal/vrt"
)

// check decides one property.
type check struct {
	id    string
	level string // model_checking or fault_enumeration
	rule  string // what is enumerated and what makes a case non-trivial
	run   func(c *ctx)
	// budget is the number of statements a case may execute.
	budget int64
	// bounds describes the space, for the evidence.
	bounds []string
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

// violation is one failing case.
type violation struct {
	Space  string `json:"space"`
	Index  int64  `json:"index"`
	Sig    string `json:"sig"`
	Msg    string `json:"msg"`
	Desc   string `json:"desc"`
	Path   []int  `json:"path,omitempty"`
	Reruns string `json:"reruns"`
}

// ctx is the state of one worker.
type ctx struct {
	chk      *check
	thorough bool
	shard    int
	shards   int
	only     string // space:index
	verbose  bool
	deadline time.Time
	out      *bufio.Writer
	mm       []byte

	space     string
	index     int64
	perSpace  map[string]*spaceStat
	spaces    []string
	states    map[uint64]struct{}
	cases     int64
	prog      uint64
	trans     int64
	traces    int64
	nviol     int
	truncated bool
	samples   []string
	extra     map[string]int64
	sigs      map[string]int
}

type spaceStat struct {
	Cases   int64 `json:"cases"`
	Skipped int64 `json:"skipped_by_deadline,omitempty"`
	next    int64
}

// t is one case.
type t struct {
	c      *ctx
	fails  []failure
	states []uint64
	trans  int64
	path   []int
	alloc0 uint64
	nstop  bool
	prefix string // of messages
}

type failure struct{ sig, msg string }

type stopCase struct{}

// fail records a violation; sig identifies the kind of failure.
func (t *t) fail(sig, format string, args ...any) {
	if len(t.fails) < 10 {
		t.fails = append(t.fails, failure{sig, t.prefix + fmt.Sprintf(format, args...)})
	}
}

// fatal records a violation and ends the case.
func (t *t) fatal(sig, format string, args ...any) {
	t.fail(sig, format, args...)
	panic(stopCase{})
}

// state records that the case reached a state (of the reference model).
func (t *t) state(parts ...any) { t.states = append(t.states, hashOf(parts...)) }

// step counts operations performed on the implementation and compared.
func (t *t) step(n int) { t.trans += int64(n) }

func hashOf(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			h.Write([]byte(p))
		case []byte:
			h.Write(p)
		case tree:
			h.Write([]byte(p.String()))
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xff, 0})
	}
	return h.Sum64()
}

const maxViolations = 12

// done reports whether the worker should stop.
func (c *ctx) done() bool { return c.nviol >= maxViolations }

func (c *ctx) enter(space string) *spaceStat {
	c.space = space
	s := c.perSpace[space]
	if s == nil {
		s = &spaceStat{}
		c.perSpace[space] = s
		c.spaces = append(c.spaces, space)
	}
	c.index = s.next
	s.next++
	return s
}

// mine reports whether this worker executes the case that was just entered.
func (c *ctx) mine(s *spaceStat) bool {
	if c.only != "" {
		return c.only == fmt.Sprintf("%s:%d", c.space, c.index)
	}
	if int(uint64(c.index)*0x9e3779b97f4a7c15>>33)%c.shards != c.shard || c.done() {
		return false
	}
	if c.cases&63 == 0 && time.Now().After(c.deadline) {
		c.truncated = true
	}
	if c.truncated {
		s.Skipped++
		return false
	}
	return true
}

// each runs one case of a space. desc describes the case, it is only called
// when needed.
func (c *ctx) each(space string, desc func() string, f func(t *t)) {
	s := c.enter(space)
	if !c.mine(s) {
		return
	}
	s.Cases++
	c.cases++
	c.setCurrent()
	defer c.clearCurrent()

	start := time.Now()
	t := c.runOnce(f)
	if d := time.Since(start); d > 3*time.Second && os.Getenv("VMC_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "slow: %s:%d %.1fs\n", c.space, c.index, d.Seconds())
	}
	c.trans += t.trans
	c.traces++
	for _, h := range t.states {
		c.states[h] = struct{}{}
	}
	if len(c.samples) < 3 || (c.cases%5003 == 0 && len(c.samples) < 12) {
		c.samples = append(c.samples, fmt.Sprintf("%s:%d %s", c.space, c.index, trunc(desc(), 300)))
	}
	if c.only != "" && c.verbose {
		fmt.Fprintf(os.Stderr, "case %s:%d\n%s\n", c.space, c.index, desc())
	}
	if len(t.fails) == 0 {
		return
	}

	// A violation must be reproducible.
	again := 0
	for i := 0; i < 5; i++ {
		if u := c.runOnce(f); len(u.fails) > 0 {
			again++
		}
	}
	if again < 2 {
		c.extra["unreproducible"]++
		return
	}
	for _, fl := range t.fails {
		c.report(fl, desc(), nil, fmt.Sprintf("%d/5", again))
	}
}

func (c *ctx) report(fl failure, desc string, path []int, reruns string) {
	if c.sigs[fl.sig]++; c.sigs[fl.sig] > 3 {
		return
	}
	c.nviol++
	c.emit("violation", violation{Space: c.space, Index: c.index, Sig: fl.sig, Msg: fl.msg, Desc: desc, Path: path, Reruns: reruns})
}

// explore runs f under the explorer: once for every sequence of choices. All
// the executions are one case, for the purpose of sharding.
func (c *ctx) explore(space string, bound int, desc func() string, setup func() func(t *t)) {
	s := c.enter(space)
	if !c.mine(s) {
		return
	}
	s.Cases++
	c.cases++
	c.setCurrent()
	defer c.clearCurrent()
	if len(c.samples) < 3 || (c.cases%503 == 0 && len(c.samples) < 12) {
		c.samples = append(c.samples, fmt.Sprintf("%s:%d %s", c.space, c.index, trunc(desc(), 300)))
	}
	if c.only != "" && c.verbose {
		fmt.Fprintf(os.Stderr, "case %s:%d\n%s\n", c.space, c.index, desc())
	}

	begun := time.Now()
	e := &vrt.Explorer{Bound: bound}
	var failed *t
	var path []int
	e.Run(func() bool {
		if e.Executions&63 == 63 && time.Now().After(c.deadline) {
			c.truncated = true
			return false
		}
		c.progress()
		t := c.runOnce(setup())
		c.trans += t.trans
		c.traces++
		for _, h := range t.states {
			c.states[h] = struct{}{}
		}
		if len(t.fails) > 0 {
			failed, path = t, e.Path()
			return false
		}
		return true
	})
	if d := time.Since(begun); d > 3*time.Second && os.Getenv("VMC_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "slow: %s:%d %.1fs %d executions\n%s\n", c.space, c.index, d.Seconds(), e.Executions, desc())
	}
	c.extra["executions"] += e.Executions
	c.extra["choice_points"] += e.Choices
	if e.Diverged != "" {
		c.extra["diverged"]++
		if failed == nil {
			fmt.Fprintf(os.Stderr, "warning: %s:%d diverged: %s\n", c.space, c.index, e.Diverged)
			c.truncated = true
		}
	}
	if failed == nil {
		return
	}
	again := 0
	for i := 0; i < 5; i++ {
		r := &vrt.Explorer{Bound: bound}
		var u *t
		r.Replay(path, func() { u = c.runOnce(setup()) })
		if len(u.fails) > 0 {
			again++
		}
	}
	// A data race is reported once per place, so that repetitions are silent.
	if again < 2 && failed.fails[0].sig != "data-race" {
		c.extra["unreproducible"]++
		return
	}
	for _, fl := range failed.fails {
		c.report(fl, desc(), path, fmt.Sprintf("%d/5", again))
	}
}

func (c *ctx) runOnce(f func(t *t)) (res *t) {
	res = &t{c: c}
	vrt.SetBudget(c.chk.budget)
	defer vrt.SetBudget(1 << 62)
	defer func() {
		v := recover()
		vrt.MapOrders, vrt.MapCost, vrt.PointScheduling, vrt.ClockShift = false, false, false, 0
		if v == nil {
			return
		}
		switch v := v.(type) {
		case stopCase:
		case vrt.BudgetExceeded:
			res.fail("hang", "%v", v)
		case vrt.Deadlock:
			res.fail("deadlock", "%v", v)
		default:
			res.fail("panic", "panic: %v\n%s", v, cleanStack(debug.Stack()))
		}
	}()
	f(res)
	return
}

// clearCurrent tells that what happens next isn't part of a case.
func (c *ctx) clearCurrent() {
	if c.mm != nil {
		binary.LittleEndian.PutUint32(c.mm[0:], 0)
	}
}

// cleanStack shortens a stack trace to the frames after the panic.
func cleanStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated returns the number of bytes allocated so far.
func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func (c *ctx) setCurrent() {
	if c.mm == nil {
		return
	}
	n := copy(c.mm[8:], c.space)
	binary.LittleEndian.PutUint32(c.mm[4:], uint32(n))
	binary.LittleEndian.PutUint64(c.mm[256:], uint64(c.index))
	binary.LittleEndian.PutUint32(c.mm[0:], 1)
	c.progress()
}

// progress tells the watchdog that something happens.
func (c *ctx) progress() {
	if c.mm != nil {
		c.prog++
		binary.LittleEndian.PutUint64(c.mm[264:], c.prog)
	}
}

func (c *ctx) emit(kind string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(c.out, "%s %s\n", kind, b)
	c.out.Flush()
}

type workerResult struct {
	Spaces    map[string]*spaceStat `json:"spaces"`
	Order     []string              `json:"order"`
	Cases     int64                 `json:"cases"`
	Trans     int64                 `json:"trans"`
	Traces    int64                 `json:"traces"`
	Truncated bool                  `json:"truncated"`
	Samples   []string              `json:"samples"`
	Extra     map[string]int64      `json:"extra"`
	Steps     int64                 `json:"steps"`
	Races     int                   `json:"races"`
}

func (c *ctx) work(statesFile string) {
	c.perSpace = map[string]*spaceStat{}
	c.states = map[uint64]struct{}{}
	c.extra = map[string]int64{}
	c.sigs = map[string]int{}
	c.chk.run(c)
	vrt.SetBudget(1 << 62)
	if statesFile != "" {
		var buf bytes.Buffer
		for h := range c.states {
			_ = binary.Write(&buf, binary.LittleEndian, h)
		}
		_ = os.WriteFile(statesFile, buf.Bytes(), 0o644)
	}
	c.emit("result", workerResult{c.perSpace, c.spaces, c.cases, c.trans, c.traces, c.truncated, c.samples, c.extra, vrt.TotalSteps, vrt.RaceErrors()})
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func main() {
	id := flag.String("check", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "shard/shards (internal)")
	only := flag.String("only", "", "run a single case, SPACE:INDEX")
	evidence := flag.String("evidence", "", "evidence file to write")
	replays := flag.String("replays", "", "directory for replay files")
	known := flag.String("known", "", "known findings file")
	tmp := flag.String("tmp", "", "scratch directory")
	seconds := flag.Int("seconds", 0, "time limit")
	jobs := flag.Int("j", runtime.NumCPU(), "number of workers")
	aux := flag.String("aux", "", "JSON file with additional evidence")
	profile := flag.String("profile", "", "write a CPU profile (with -worker)")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()

	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	chk := checks[*id]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(2)
	}
	if chk.budget == 0 {
		chk.budget = 3_000_000
	}
	if *seconds == 0 {
		*seconds = 420
		if *tier == "thorough" {
			*seconds = 2400
		}
	}

	if *worker != "" || *only != "" {
		c := &ctx{chk: chk, thorough: *tier == "thorough", shards: 1, only: *only, verbose: true, out: bufio.NewWriter(os.Stdout)}
		c.deadline = time.Now().Add(time.Duration(*seconds) * time.Second)
		statesFile := ""
		if *worker != "" {
			a, b, _ := strings.Cut(*worker, "/")
			c.shard, _ = strconv.Atoi(a)
			c.shards, _ = strconv.Atoi(b)
			c.mm = mapFile(filepath.Join(*tmp, "cur."+a))
			statesFile = filepath.Join(*tmp, "states."+a)
		}
		debug.SetMaxStack(256 << 20)
		debug.SetGCPercent(800)
		if *profile != "" {
			pf, err := os.Create(*profile)
			if err == nil && pprof.StartCPUProfile(pf) == nil {
				defer pprof.StopCPUProfile()
			}
		}
		if !vrt.RaceBuild {
			// A huge allocation must fail rather than take the machine down.
			lim := syscall.Rlimit{Cur: 5 << 30, Max: 5 << 30}
			if c.thorough {
				lim.Cur, lim.Max = 12<<30, 12<<30
			}
			_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		}
		runtime.GOMAXPROCS(2)
		if vrt.RaceBuild {
			runtime.GOMAXPROCS(1) // only one goroutine runs at a time
		}
		c.work(statesFile)
		return
	}

	os.Exit(parent(chk, *tier, *jobs, *seconds, *evidence, *replays, *known, *tmp, *aux))
}

func mapFile(name string) []byte {
	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	if err := f.Truncate(4096); err != nil {
		return nil
	}
	mm, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return mm
}

type shardRun struct {
	i      int
	result *workerResult
	viols  []violation
	stderr tail
	err    error
	killed string
}

// tail keeps the beginning and the end of what is written to it.
type tail struct {
	mu         sync.Mutex
	head, last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := 6000 - len(t.head); room > 0 {
		t.head = append(t.head, p[:min(room, len(p))]...)
	}
	t.last = append(t.last, p...)
	if len(t.last) > 4000 {
		t.last = t.last[len(t.last)-4000:]
	}
	return len(p), nil
}

func parent(chk *check, tier string, jobs, seconds int, evidence, replays, known, tmp, aux string) int {
	start := time.Now()
	self, _ := os.Executable()
	runs := make([]*shardRun, jobs)
	var wg sync.WaitGroup
	for i := range runs {
		r := &shardRun{i: i}
		runs[i] = r
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self, "-check", chk.id, "-tier", tier, "-worker", fmt.Sprintf("%d/%d", r.i, jobs), "-tmp", tmp, "-seconds", strconv.Itoa(seconds))
			cmd.Stderr = &r.stderr
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOTRACEBACK=single")
			stdout, err := cmd.StdoutPipe()
			if err != nil {
				r.err = err
				return
			}
			if r.err = cmd.Start(); r.err != nil {
				return
			}
			stop := make(chan struct{})
			go watchdog(cmd, filepath.Join(tmp, fmt.Sprintf("cur.%d", r.i)), &r.killed, stop)
			sc := bufio.NewScanner(stdout)
			sc.Buffer(nil, 64<<20)
			for sc.Scan() {
				kind, rest, _ := strings.Cut(sc.Text(), " ")
				switch kind {
				case "violation":
					var v violation
					if json.Unmarshal([]byte(rest), &v) == nil {
						r.viols = append(r.viols, v)
						if os.Getenv("VMC_FIRST") != "" {
							// For trying many changes: one violation is enough.
							fmt.Printf("VIOLATION property=%s first %s:%d [%s] %s\n", chk.id, v.Space, v.Index, v.Sig, trunc(v.Msg, 200))
							_ = syscall.Kill(0, syscall.SIGKILL)
						}
					}
				case "result":
					var w workerResult
					if json.Unmarshal([]byte(rest), &w) == nil {
						r.result = &w
					}
				}
			}
			r.err = cmd.Wait()
			close(stop)
		}()
	}
	wg.Wait()

	total := workerResult{Spaces: map[string]*spaceStat{}, Extra: map[string]int64{}}
	states := map[uint64]struct{}{}
	var viols []violation
	incomplete := false
	for _, r := range runs {
		viols = append(viols, r.viols...)
		if r.result == nil {
			incomplete = true
			if v, ok := crash(r, filepath.Join(tmp, fmt.Sprintf("cur.%d", r.i))); ok {
				viols = append(viols, v)
			} else {
				fmt.Fprintf(os.Stderr, "worker %d failed: %v\n%s\n", r.i, r.err, r.stderr.head)
			}
			continue
		}
		w := r.result
		for _, name := range w.Order {
			if total.Spaces[name] == nil {
				total.Spaces[name] = &spaceStat{}
				total.Order = append(total.Order, name)
			}
			total.Spaces[name].Cases += w.Spaces[name].Cases
			total.Spaces[name].Skipped += w.Spaces[name].Skipped
		}
		total.Cases += w.Cases
		total.Trans += w.Trans
		total.Traces += w.Traces
		total.Steps += w.Steps
		total.Races += w.Races
		total.Truncated = total.Truncated || w.Truncated
		if r.i < 2 || len(total.Samples) < 4 {
			total.Samples = append(total.Samples, w.Samples...)
		}
		for k, v := range w.Extra {
			total.Extra[k] += v
		}
		if b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("states.%d", r.i))); err == nil {
			for ; len(b) >= 8; b = b[8:] {
				states[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
	}
	if len(total.Samples) > 16 {
		total.Samples = total.Samples[:16]
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{"(none completed)"}
	}

	// Known findings.
	knownSigs := readKnown(known, chk.id)
	var fresh []violation
	reported := map[string]bool{}
	for _, v := range viols {
		key := v.Space + ":" + strconv.FormatInt(v.Index, 10) + " " + v.Sig
		if what, ok := knownSigs[key]; ok {
			if !reported[key] {
				reported[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.id, what)
			}
			continue
		}
		fresh = append(fresh, v)
	}

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"samples":                total.Samples,
		"spaces":                 total.Spaces,
		"exhaustive":             !total.Truncated && !incomplete,
		"bounds":                 chk.bounds,
		"executed_statements":    total.Steps,
		"rule":                   chk.rule,
		"evaluations":            total.Cases,
		"distinct_nontrivial":    len(states),
		"race_detector":          vrt.RaceBuild,
		"unreproducible_ignored": total.Extra["unreproducible"],
	}
	if chk.level == "model_checking" {
		delete(cov, "evaluations")
		delete(cov, "distinct_nontrivial")
		cov["cases"] = total.Cases
		cov["states"] = len(states)
		cov["transitions"] = total.Trans
		cov["traces_validated_against_impl"] = total.Traces
	} else {
		cov["operations"] = total.Trans
	}
	for k, v := range total.Extra {
		if k != "unreproducible" {
			cov[k] = v
		}
	}
	if aux != "" {
		if b, err := os.ReadFile(aux); err == nil {
			var m map[string]any
			if json.Unmarshal(b, &m) == nil {
				for k, v := range m {
					cov[k] = v
				}
			}
		}
	}
	ev := map[string]any{
		"property":   chk.id,
		"tier":       tier,
		"seed":       seed,
		"level":      chk.level,
		"coverage":   cov,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(fresh),
	}
	if evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d executions compared, exhaustive=%v, %.1fs\n",
		chk.id, tier, total.Cases, len(states), total.Trans, total.Traces, cov["exhaustive"], time.Since(start).Seconds())

	if len(fresh) == 0 {
		if incomplete {
			// Not a verdict on the property.
			fmt.Println("note: some workers did not finish, see stderr")
			return 2
		}
		return 0
	}
	seen := map[string]bool{}
	n := 0
	for _, v := range fresh {
		if seen[v.Sig] && n >= 4 {
			continue
		}
		seen[v.Sig] = true
		if n++; n > 8 {
			break
		}
		path := filepath.Join(replays, fmt.Sprintf("%s-%016x.txt", chk.id, hashOf(v.Space, v.Index, v.Sig)))
		text := fmt.Sprintf("property: %s\nfailure: %s\ncase: %s:%d\nreproduced: %s\nreplay: bin/check %s %s --only '%s:%d'\nschedule/choices: %v\n\n%s\n\ninput:\n%s\n",
			chk.id, v.Sig, v.Space, v.Index, v.Reruns, chk.id, tier, v.Space, v.Index, v.Path, v.Msg, v.Desc)
		_ = os.MkdirAll(replays, 0o755)
		_ = os.WriteFile(path, []byte(text), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.id, path)
		fmt.Printf("  [%s] %s\n", v.Sig, trunc(strings.ReplaceAll(v.Msg, "\n", "\n    "), 900))
		fmt.Printf("  case %s:%d: %s\n", v.Space, v.Index, trunc(v.Desc, 400))
	}
	return 1
}

// crash turns the death of a worker into a violation, if a case was running.
func crash(r *shardRun, cur string) (violation, bool) {
	b, err := os.ReadFile(cur)
	if err != nil || len(b) < 300 || binary.LittleEndian.Uint32(b) == 0 {
		return violation{}, false
	}
	n := binary.LittleEndian.Uint32(b[4:])
	v := violation{
		Space:  string(b[8 : 8+min(n, 200)]),
		Index:  int64(binary.LittleEndian.Uint64(b[256:])),
		Reruns: "n/a",
	}
	head := string(r.stderr.head)
	switch {
	case r.killed != "":
		v.Sig = "hang"
		v.Msg = r.killed
	case strings.Contains(head, "stack overflow"), strings.Contains(head, "stack exceeds"):
		v.Sig = "stack-overflow"
		v.Msg = trunc(head, 1500)
	case strings.Contains(head, "out of memory"), strings.Contains(head, "cannot allocate memory"):
		v.Sig = "out-of-memory"
		v.Msg = trunc(head, 1500)
	case strings.Contains(head, "fatal error:"), strings.Contains(head, "panic:"):
		v.Sig = "crash"
		v.Msg = trunc(head, 1500)
	default:
		// Ended from outside.
		return violation{}, false
	}
	v.Desc = "(the worker died while it was running this case)"
	return v, true
}

// watchdog ends a worker that makes no progress although it burns CPU: a loop
// outside of instrumented code.
func watchdog(cmd *exec.Cmd, cur string, killed *string, stop chan struct{}) {
	last := uint64(0)
	cpuAt := 0.0
	for {
		select {
		case <-stop:
			return
		case <-time.After(2 * time.Second):
		}
		b, err := os.ReadFile(cur)
		if err != nil || len(b) < 300 {
			continue
		}
		n := binary.LittleEndian.Uint64(b[264:])
		cpu := cpuSeconds(cmd.Process.Pid)
		if n != last || cpu < cpuAt {
			last, cpuAt = n, cpu
			continue
		}
		// explore() cases legitimately take long.
		if cpu-cpuAt > caseCPULimit {
			*killed = fmt.Sprintf("no progress within %.0f s of CPU time in code that executes no statement of this module", caseCPULimit)
			_ = cmd.Process.Kill()
			return
		}
	}
}

var caseCPULimit = 120.0

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

// readKnown reads the lines "known: property=ID case=SPACE:INDEX sig=SIG what".
func readKnown(file, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+id {
			continue
		}
		out[strings.TrimPrefix(f[2], "case=")+" "+strings.TrimPrefix(f[3], "sig=")] = strings.Join(f[4:], " ")
	}
	return out
}

// enterRange and one are the parts of each, for spaces that are so large that
// calls are expensive.
func (c *ctx) enterRange(space string) *spaceStat { return c.enter(space) }

func (c *ctx) one(s *spaceStat, desc func() string, f func(t *t)) {
	s.next-- // each enters again
	c.each(c.space, desc, f)
}
