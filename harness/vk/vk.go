// Package vk is the kit shared by all the checks: the supervision of the process under
// observation, the bookkeeping of what the monitors saw, the verdict and the evidence file.
//
// A check binary runs twice: as parent it only starts itself again as child and watches it; the
// child runs the code under test with the monitors. What the child can not survive (crash, fatal
// error of the runtime, report of the race detector, no progress) is observed by the parent.
package vk

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check describes one property check
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	// StallSeconds is how long a child may make no progress at all
	StallSeconds int
	// MaxHeapMB is how much memory the child may use
	MaxHeapMB int
	// MinNontrivial is how many non trivial cases must be seen, otherwise the run is inconclusive
	MinNontrivial int
	// Env is added to the environment of the child
	Env []string
	Run func(t *T)
	// Modes are other entry points a child process can be started with
	Modes map[string]func(args []string)
}

type violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

type result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []interface{}    `json:"samples"`
	Violations  []violation      `json:"violations"`
	Done        bool             `json:"done"`
	Fatal       string           `json:"fatal,omitempty"`
}

const (
	exitStall  = 97
	exitMemory = 98
)

// Main runs the check and exits
func Main(check Check) {
	if check.StallSeconds == 0 {
		check.StallSeconds = 90
	}
	if check.MaxHeapMB == 0 {
		check.MaxHeapMB = 6000
	}
	if check.MinNontrivial == 0 {
		check.MinNontrivial = 2
	}
	if mode := os.Getenv("VK_MODE"); mode != "" {
		check.Modes[mode](os.Args[1:])
		os.Exit(0)
	}
	if out := os.Getenv("VK_OUT"); out != "" {
		child(check, out)
		return
	}
	os.Exit(parent(check))
}

func tierAndSeed() (string, int64) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return tier, seed
}

// ---------------------------------------------------------------- parent

func verifDir() string {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	return dir
}

func parent(check Check) int {
	start := time.Now()
	tier, seed := tierAndSeed()
	scratch, err := os.MkdirTemp("", "verif-"+check.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "inconclusive:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	outFile := filepath.Join(scratch, "result.json")
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, "inconclusive:", err)
		return 2
	}
	cmd := exec.Command(exe, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VK_OUT="+outFile, "VK_SCRATCH="+scratch,
		"GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, check.Env...)
	stdout := &tail{limit: 1 << 16}
	stderr := &tail{limit: 1 << 18}
	cmd.Stdout = stdout
	cmd.Stderr = stderr
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "inconclusive:", err)
		return 2
	}
	limit := 820 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	timedOut := int32(0)
	timer := time.AfterFunc(limit, func() {
		atomic.StoreInt32(&timedOut, 1)
		cmd.Process.Kill()
	})
	err = cmd.Wait()
	timer.Stop()
	res := &result{}
	if data, readErr := os.ReadFile(outFile); readErr == nil {
		json.Unmarshal(data, res)
	}
	code := 0
	if err != nil {
		code = -1
		if exitErr, ok := err.(*exec.ExitError); ok {
			code = exitErr.ExitCode()
		}
	}
	if atomic.LoadInt32(&timedOut) == 1 {
		fmt.Fprintln(os.Stderr, "inconclusive: the run as a whole took too long")
		os.Stderr.Write(stderr.Bytes())
		return 2
	}
	if res.Fatal != "" {
		fmt.Fprintln(os.Stderr, "inconclusive:", res.Fatal)
		return 2
	}
	if code != 0 {
		v := violation{Sig: "crash", Detail: fmt.Sprintf("process under observation ended with code %d", code)}
		switch code {
		case 66:
			v = violation{Sig: "race", Detail: "data race reported by the race detector"}
		case exitStall:
			v = violation{Sig: "stall", Detail: fmt.Sprintf("no progress for %d seconds", check.StallSeconds)}
		case exitMemory:
			v = violation{Sig: "memory", Detail: fmt.Sprintf("more than %d MB allocated", check.MaxHeapMB)}
		}
		v.Detail += "\n" + interesting(stderr.Bytes())
		res.Violations = append(res.Violations, v)
	} else if !res.Done && len(res.Violations) == 0 {
		res.Violations = append(res.Violations, violation{"exit", "process under observation exited before the workload was done\n" + interesting(stderr.Bytes())})
	}
	known := loadKnown(check.ID)
	var unknown []violation
	reported := map[string]bool{}
	for _, v := range res.Violations {
		if desc, isKnown := known[v.Sig]; isKnown {
			if !reported[v.Sig] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", check.ID, desc)
				reported[v.Sig] = true
			}
			continue
		}
		unknown = append(unknown, v)
	}
	if err := writeEvidence(check, tier, seed, res, len(unknown), time.Since(start)); err != nil {
		fmt.Fprintln(os.Stderr, "inconclusive:", err)
		return 2
	}
	if len(unknown) > 0 {
		replay := writeReplay(check, tier, seed, unknown, stderr.Bytes())
		for i, v := range unknown {
			if i == 3 {
				break
			}
			fmt.Fprintf(os.Stderr, "[%s] %s\n", v.Sig, clip(v.Detail, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", check.ID, replay)
		return 1
	}
	if res.Distinct < int64(check.MinNontrivial) {
		fmt.Fprintf(os.Stderr, "inconclusive: only %d non trivial cases were observed\n", res.Distinct)
		return 2
	}
	fmt.Printf("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs\n", check.ID, res.Evaluations, res.Distinct, time.Since(start).Seconds())
	keys := make([]string, 0, len(res.Counters))
	for k := range res.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s=%d\n", k, res.Counters[k])
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// interesting cuts the noise before the report of the runtime or of the race detector
func interesting(out []byte) string {
	first := len(out)
	for _, mark := range []string{"WARNING: DATA RACE", "panic: ", "fatal error: ", "STALL ", "MEMORY ", "unexpected fault", "SIGSEGV"} {
		if i := bytes.Index(out, []byte(mark)); i >= 0 && i < first {
			first = i
		}
	}
	if first == len(out) {
		first = 0
		if len(out) > 8000 {
			first = len(out) - 8000
		}
	}
	return clip(string(out[first:]), 12000)
}

type tail struct {
	limit int
	head  []byte
	buf   []byte
}

func (t *tail) Write(p []byte) (int, error) {
	n := len(p)
	if room := t.limit - len(t.head); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		t.head = append(t.head, p[:room]...)
		p = p[room:]
	}
	t.buf = append(t.buf, p...)
	if len(t.buf) > 2*t.limit {
		t.buf = append([]byte(nil), t.buf[len(t.buf)-t.limit:]...)
	}
	return n, nil
}

func (t *tail) Bytes() []byte {
	return append(append([]byte(nil), t.head...), t.buf...)
}

func loadKnown(id string) map[string]string {
	known := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return known
	}
	defer f.Close()
	scanner := bufio.NewScanner(f)
	scanner.Buffer(nil, 1<<20)
	for scanner.Scan() {
		// known: property=C01 sig=<signature> <what fails>
		fields := strings.SplitN(scanner.Text(), " ", 4)
		if len(fields) == 4 && fields[0] == "known:" && fields[1] == "property="+id && strings.HasPrefix(fields[2], "sig=") {
			known[fields[2][4:]] = fields[3]
		}
	}
	return known
}

func writeEvidence(check Check, tier string, seed int64, res *result, violations int, wall time.Duration) error {
	coverage := map[string]interface{}{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": res.Distinct,
		"rule":                check.Rule,
		"samples":             res.Samples,
	}
	if res.Samples == nil {
		coverage["samples"] = []interface{}{}
	}
	if len(res.Counters) > 0 {
		coverage["observed"] = res.Counters
	}
	evidence := map[string]interface{}{
		"property":    check.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    coverage,
		"assumptions": append([]string{}, check.Assumptions...),
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	data, err := json.MarshalIndent(evidence, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, check.ID+".json"), append(data, '\n'), 0644)
}

func writeReplay(check Check, tier string, seed int64, violations []violation, stderr []byte) string {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, check.ID+".txt")
	var out bytes.Buffer
	fmt.Fprintf(&out, "property: %s\nreplay with: VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s %s\n\n", check.ID, seed, tier, check.ID, tier)
	for i, v := range violations {
		fmt.Fprintf(&out, "--- violation %d: %s\n%s\n\n", i+1, v.Sig, v.Detail)
	}
	fmt.Fprintf(&out, "--- stderr of the process under observation\n%s\n", clip(string(stderr), 100000))
	os.WriteFile(path, out.Bytes(), 0644)
	return path
}

// ---------------------------------------------------------------- child

// T is handed to the workload
type T struct {
	check    Check
	out      string
	tier     string
	seed     int64
	progress int64
	current  atomic.Value // func() string

	mutex    sync.Mutex
	evals    int64
	res      result
	distinct map[uint64]struct{}
	sampleN  map[string]int
	maxViol  int
}

type stopWorkload struct{}

func child(check Check, out string) {
	tier, seed := tierAndSeed()
	t := &T{check: check, out: out, tier: tier, seed: seed, distinct: map[uint64]struct{}{}, sampleN: map[string]int{}, maxViol: 8}
	t.res.Counters = map[string]int64{}
	go t.watch()
	func() {
		defer func() {
			recovered := recover()
			if recovered == nil {
				return
			}
			if _, isStop := recovered.(stopWorkload); isStop {
				return
			}
			t.record("panic", fmt.Sprintf("panic: %v\ncase: %s\n%s", recovered, t.currentCase(), debug.Stack()))
		}()
		check.Run(t)
		t.mutex.Lock()
		t.res.Done = true
		t.mutex.Unlock()
	}()
	t.flush()
	os.Exit(0)
}

func (t *T) currentCase() string {
	describe, _ := t.current.Load().(func() string)
	if describe == nil {
		return "?"
	}
	return describe()
}

func (t *T) watch() {
	last := int64(-1)
	since := time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		progress := atomic.LoadInt64(&t.progress)
		if progress != last {
			last = progress
			since = time.Now()
		} else if time.Since(since) > time.Duration(t.check.StallSeconds)*time.Second {
			fmt.Fprintf(os.Stderr, "STALL case: %s\n", t.currentCase())
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			t.flush()
			os.Exit(exitStall)
		}
		var stats runtime.MemStats
		runtime.ReadMemStats(&stats)
		if stats.HeapAlloc > uint64(t.check.MaxHeapMB)<<20 {
			fmt.Fprintf(os.Stderr, "MEMORY case: %s\n", t.currentCase())
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			t.flush()
			os.Exit(exitMemory)
		}
	}
}

func (t *T) flush() {
	t.mutex.Lock()
	defer t.mutex.Unlock()
	t.res.Distinct = int64(len(t.distinct))
	t.res.Evaluations = atomic.LoadInt64(&t.evals)
	data, err := json.Marshal(&t.res)
	if err != nil {
		t.res.Samples = []interface{}{"samples could not be marshaled: " + err.Error()}
		data, _ = json.Marshal(&t.res)
	}
	os.WriteFile(t.out, data, 0644)
}

// Thorough tells the tier
func (t *T) Thorough() bool { return t.tier == "thorough" }

// N picks the size of workload by tier
func (t *T) N(quick, thorough int) int {
	if t.Thorough() {
		return thorough
	}
	return quick
}

// Seed is VERIF_SEED
func (t *T) Seed() int64 { return t.seed }

// Rng is determined by seed and name
func (t *T) Rng(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", t.seed, t.check.ID, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Scratch is a directory removed after the run
func (t *T) Scratch(name string) string {
	base := os.Getenv("VK_SCRATCH")
	dir, err := os.MkdirTemp(base, name+"-")
	if err != nil {
		t.Fatal("can not create scratch directory: " + err.Error())
	}
	return dir
}

// Tick tells the watchdog that the workload is alive
func (t *T) Tick() { atomic.AddInt64(&t.progress, 1) }

// Begin tells which case is running, for the reports of watchdog and panics
func (t *T) Begin(describe func() string) {
	t.Tick()
	t.current.Store(describe)
}

// Eval counts one evaluation of the oracle. It is non trivial if key is not empty,
// distinct keys are counted.
func (t *T) Eval(key string) {
	t.Tick()
	atomic.AddInt64(&t.evals, 1)
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	sum := h.Sum64()
	t.mutex.Lock()
	t.distinct[sum] = struct{}{}
	t.mutex.Unlock()
}

// Count adds to one of the counters in the evidence
func (t *T) Count(name string, n int) {
	t.mutex.Lock()
	t.res.Counters[name] += int64(n)
	t.mutex.Unlock()
}

// CountMax keeps the maximum
func (t *T) CountMax(name string, n int) {
	t.mutex.Lock()
	if int64(n) > t.res.Counters[name] {
		t.res.Counters[name] = int64(n)
	}
	t.mutex.Unlock()
}

// Sample keeps the first few cases of every kind for the evidence
func (t *T) Sample(kind string, sample interface{}) {
	t.mutex.Lock()
	defer t.mutex.Unlock()
	if t.sampleN[kind] >= 3 || len(t.res.Samples) >= 24 {
		return
	}
	t.sampleN[kind]++
	t.res.Samples = append(t.res.Samples, map[string]interface{}{"kind": kind, "case": sample})
}

func (t *T) record(sig string, detail string) int {
	t.mutex.Lock()
	t.res.Violations = append(t.res.Violations, violation{sig, detail})
	n := len(t.res.Violations)
	t.mutex.Unlock()
	return n
}

// Violate records the violation of the property. The workload ends after several of them.
// Must be called by the goroutine running the workload, others use ViolateAsync.
func (t *T) Violate(sig string, format string, args ...interface{}) {
	if t.ViolateAsync(sig, format, args...) {
		panic(stopWorkload{})
	}
}

// ViolateAsync can be called by any goroutine, it tells if the workload should end
func (t *T) ViolateAsync(sig string, format string, args ...interface{}) bool {
	n := t.record(sig, fmt.Sprintf(format, args...)+"\ncase: "+t.currentCase())
	t.flush()
	return n >= t.maxViol
}

// Violated tells if any violation is recorded
func (t *T) Violated() bool {
	t.mutex.Lock()
	defer t.mutex.Unlock()
	return len(t.res.Violations) > 0
}

// Fatal ends the run as inconclusive
func (t *T) Fatal(msg string) {
	t.mutex.Lock()
	t.res.Fatal = msg
	t.mutex.Unlock()
	t.flush()
	os.Exit(0)
}

// Protect runs f and returns what it panicked with
func Protect(f func()) (recovered interface{}, stack string) {
	defer func() {
		recovered = recover()
		if recovered != nil {
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// Hash is a short digest of any text
func Hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, part := range parts {
		fmt.Fprintf(h, "%v|", part)
	}
	return h.Sum64()
}
