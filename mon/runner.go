package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A Check decides one property. Run executes one case, determined by c.R.
type Check struct {
	ID          string
	Quick       int    // number of cases
	Rule        string // how cases are made, what is non-trivial
	Run         func(c *Ctx)
	NeedCmds    bool // needs the built commands
	Race        bool // is run by the binary built with the race detector
	Assumptions []string
	MinDistinct int // fewer distinct non-trivial cases make the run inconclusive
	Workers     int // 0: as many as cores, at most 8
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is the context of one case.
type Ctx struct {
	R      *Rng
	Check  *Check
	Idx    int
	Tier   string
	Dir    string // scratch directory of the case
	BinDir string // built commands
	st     *workerState
	replay bool
	once   bool // of the case: its one expensive input was made
}

type failure struct{ msg string }
type setupFailure struct{ msg string }
type skip struct{ msg string }

// Fail reports a violation and ends the case.
func (c *Ctx) Fail(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Setup reports that the case could not be prepared: a violation, as all
// dictionaries and configurations of the cases are well-formed, unless the
// system is to blame.
func (c *Ctx) Setup(format string, args ...interface{}) {
	panic(setupFailure{fmt.Sprintf(format, args...)})
}

// Skip ends a case that turned out to have nothing to observe.
func (c *Ctx) Skip(format string, args ...interface{}) {
	panic(skip{fmt.Sprintf(format, args...)})
}

// Eval counts one oracle evaluation; sig identifies it up to triviality ("" if
// trivial).
func (c *Ctx) Eval(sig string) {
	c.st.evals++
	if sig != "" && len(c.st.sigs) < 1500000 { // of one worker; the count is a lower bound then
		c.st.sigs[hashStr(sig)] = struct{}{}
	}
}

// Count adds to a named counter of the evidence.
func (c *Ctx) Count(name string, n int) { c.st.counts[name] += int64(n) }

// Sample records an example for the evidence (a few per worker).
func (c *Ctx) Sample(f func() interface{}) {
	if c.st.nsamples < 2 && (c.Idx%7 == 3 || c.Idx < 8) {
		c.st.nsamples++
		c.st.samples = append(c.st.samples, f())
	}
}

func (c *Ctx) Logf(format string, args ...interface{}) {
	if c.replay {
		fmt.Printf(format+"\n", args...)
	}
}

type workerState struct {
	evals    int64
	sigs     map[uint64]struct{}
	counts   map[string]int64
	samples  []interface{}
	nsamples int
	cases    int64
	skipped  int64
	skipMsg  string
	viols    []violation
}

type violation struct {
	Idx int    `json:"index"`
	Msg string `json:"message"`
}

type workerResult struct {
	Evals   int64
	Sigs    []uint64
	Counts  map[string]int64
	Samples []interface{}
	Cases   int64
	Skipped int64
	SkipMsg string
	Viols   []violation
}

func seedOf(base int, id string, idx int) uint64 {
	r := NewRng(hashStr(id, strconv.Itoa(base), strconv.Itoa(idx)))
	r.U64()
	return r.U64()
}

// runCase executes one case and returns a violation message or "".
func runCase(ck *Check, st *workerState, seed int, tier string, idx int, scratch, binDir string, replay bool) (msg string) {
	dir := filepath.Join(scratch, fmt.Sprintf("case%d", idx))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	c := &Ctx{R: NewRng(seedOf(seed, ck.ID, idx)), Check: ck, Idx: idx, Tier: tier, Dir: dir, BinDir: binDir, st: st, replay: replay}
	defer func() {
		if e := recover(); e != nil {
			switch f := e.(type) {
			case failure:
				msg = f.msg
			case skip:
				st.skipped++
				st.skipMsg = f.msg
			case setupFailure:
				if outOfResources(f.msg) {
					st.skipped++
					st.skipMsg = f.msg
				} else {
					msg = "a well-formed setup was refused: " + f.msg
				}
			default:
				msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}
	}()
	ck.Run(c)
	return ""
}

// outOfResources: the error says that the system lacks something, not that the
// repository refuses something.
func outOfResources(msg string) bool {
	for _, e := range []syscall.Errno{syscall.ENOSPC, syscall.ENOMEM, syscall.EMFILE, syscall.ENFILE, syscall.EAGAIN, syscall.EDQUOT, syscall.EINTR, syscall.ETXTBSY, syscall.EIO} {
		if strings.Contains(msg, e.Error()) {
			return true
		}
	}
	return strings.HasPrefix(msg, "running ")
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func workers(ck *Check) int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if ck.Workers > 0 && ck.Workers < n {
		n = ck.Workers
	}
	if n < 1 {
		n = 1
	}
	return n
}

// worker process: mon worker ID seed tier shard nshards total scratch bindir first deadline
func workerMain(args []string) int {
	ck := checks[args[0]]
	seed, _ := strconv.Atoi(args[1])
	tier := args[2]
	shard, _ := strconv.Atoi(args[3])
	n, _ := strconv.Atoi(args[4])
	total, _ := strconv.Atoi(args[5])
	scratch, binDir := args[6], args[7]
	first, _ := strconv.Atoi(args[8])
	deadline, _ := strconv.ParseInt(args[9], 10, 64)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(1200 << 20)
	if dn, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = dn // the library's progress messages
	}
	journal, err := os.OpenFile(filepath.Join(scratch, fmt.Sprintf("journal%d", shard)), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	st := &workerState{sigs: map[uint64]struct{}{}, counts: map[string]int64{}}
	if !ck.Race {
		go heapWatch(journal)
	}
	for idx := first; idx < total; idx += n {
		if time.Now().Unix() > deadline {
			st.counts["cases_not_run_for_time"] += int64((total - idx + n - 1) / n)
			break
		}
		journal.WriteAt([]byte(fmt.Sprintf("%-20d\n", idx)), 0)
		msg := runCase(ck, st, seed, tier, idx, scratch, binDir, false)
		st.cases++
		if msg != "" {
			st.viols = append(st.viols, violation{idx, msg})
			if len(st.viols) >= 2 {
				break
			}
		}
	}
	sigs := make([]uint64, 0, len(st.sigs))
	for k := range st.sigs {
		sigs = append(sigs, k)
	}
	b, err := json.Marshal(&workerResult{st.evals, sigs, st.counts, st.samples, st.cases, st.skipped, st.skipMsg, st.viols})
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(scratch, fmt.Sprintf("result%d.tmp", shard)), b, 0644); err != nil {
		panic(err)
	}
	os.Rename(filepath.Join(scratch, fmt.Sprintf("result%d.tmp", shard)), filepath.Join(scratch, fmt.Sprintf("result%d", shard)))
	return 0
}

const heapLimit = 3 << 30

func heapWatch(journal *os.File) {
	var m runtime.MemStats
	for {
		time.Sleep(150 * time.Millisecond)
		if rss() < heapLimit/2 {
			continue
		}
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > heapLimit {
			os.NewFile(2, "stderr").WriteString(fmt.Sprintf("MONITOR: heap of %d bytes in one case\n", m.HeapAlloc))
			os.Exit(97)
		}
	}
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func cpuTicks(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return u + k
}

type shardOutcome struct {
	res    *workerResult
	viols  []violation
	incon  string
	deaths int
}

func superviseShard(ck *Check, seed int, tier string, shard, n, total int, scratch, binDir string, deadline int64) (out shardOutcome) {
	out.res = &workerResult{Counts: map[string]int64{}}
	first := shard
	for {
		exe, _ := os.Executable()
		cmd := exec.Command(exe, "worker", ck.ID, strconv.Itoa(seed), tier, strconv.Itoa(shard), strconv.Itoa(n), strconv.Itoa(total), scratch, binDir, strconv.Itoa(first), strconv.FormatInt(deadline, 10))
		var errb tailBuffer
		cmd.Stderr = &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if ck.Race {
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3")
		}
		os.Remove(filepath.Join(scratch, fmt.Sprintf("journal%d", shard)))
		os.Remove(filepath.Join(scratch, fmt.Sprintf("result%d", shard)))
		runtime.LockOSThread() // Pdeathsig is tied to the thread
		if err := cmd.Start(); err != nil {
			out.incon = "cannot start a worker: " + err.Error()
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		lastIdx, lastChange, lastCPU := -1, time.Now(), int64(0)
		hung, stalled := false, false
		limit := int64(90 * 100) // CPU ticks (10 ms) in one case
		if ck.Race {
			limit *= 3
		}
	wait:
		for {
			select {
			case err = <-done:
				break wait
			case <-time.After(500 * time.Millisecond):
				idx := readJournal(filepath.Join(scratch, fmt.Sprintf("journal%d", shard)))
				cpu := cpuTicks(cmd.Process.Pid)
				if idx != lastIdx {
					lastIdx, lastChange, lastCPU = idx, time.Now(), cpu
				} else if cpu-lastCPU > limit {
					hung = true
					cmd.Process.Kill()
					err = <-done
					break wait
				} else if time.Since(lastChange) > 600*time.Second {
					stalled = true
					cmd.Process.Kill()
					err = <-done
					break wait
				}
			}
		}
		runtime.UnlockOSThread()
		idx := readJournal(filepath.Join(scratch, fmt.Sprintf("journal%d", shard)))
		if races := errb.count("WARNING: DATA RACE"); ck.Race && races > 0 {
			out.viols = append(out.viols, violation{idx, fmt.Sprintf("%d data race reports; the first (the case named here is the last one run by that worker):\n%s", races, errb.after("WARNING: DATA RACE", 6000))})
		}
		if b, rerr := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("result%d", shard))); rerr == nil && err == nil {
			var r workerResult
			if jerr := json.Unmarshal(b, &r); jerr != nil {
				out.incon = "bad worker result"
				return
			}
			mergeResult(out.res, &r)
			out.viols = append(out.viols, r.Viols...)
			return
		}
		// the worker died: the case in its journal did it
		out.deaths++
		switch {
		case hung:
			out.viols = append(out.viols, violation{idx, fmt.Sprintf("no end after %d s of CPU time in one case", limit/100)})
		case stalled:
			out.incon = fmt.Sprintf("case %d made no progress for 600 s without using the CPU", idx)
			return
		case idx < 0:
			out.incon = "a worker died before its first case: " + errb.String()
			return
		default:
			out.viols = append(out.viols, violation{idx, fmt.Sprintf("the process died (%v):\n%s", err, errb.head(4000))})
		}
		if len(out.viols) >= 2 {
			return
		}
		first = idx + n
	}
}

func mergeResult(a, b *workerResult) {
	a.Evals += b.Evals
	a.Sigs = append(a.Sigs, b.Sigs...)
	for k, v := range b.Counts {
		a.Counts[k] += v
	}
	a.Samples = append(a.Samples, b.Samples...)
	a.Cases += b.Cases
	a.Skipped += b.Skipped
	if b.SkipMsg != "" {
		a.SkipMsg = b.SkipMsg
	}
}

func readJournal(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		return -1
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return -1
	}
	return n
}

// tailBuffer keeps the beginning of what is written to it.
type tailBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
	n  int
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { return t.head(4000) }
func (t *tailBuffer) head(n int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := t.b.String()
	if len(s) > n {
		s = s[:n]
	}
	return s
}
func (t *tailBuffer) count(sub string) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return strings.Count(t.b.String(), sub)
}
func (t *tailBuffer) after(sub string, n int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := t.b.String()
	i := strings.Index(s, sub)
	if i < 0 {
		return ""
	}
	s = s[i:]
	if len(s) > n {
		s = s[:n]
	}
	return s
}

type finding struct {
	Property string `json:"property"`
	Contains string `json:"contains"` // identifies the failure in its message
	What     string `json:"what"`
}

// knownFindings reads the lines of the committed file that are JSON objects with the status
// "known"; lines that start with "fixed:" only record repairs.
func knownFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var f struct {
			finding
			Status string `json:"status"`
		}
		if json.Unmarshal([]byte(l), &f) == nil && f.Status == "known" {
			fs = append(fs, f.finding)
		}
	}
	return fs
}

func scratchBase() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		t, err := os.MkdirTemp(d, "verifmon")
		if err == nil {
			return t
		}
	}
	panic("no scratch directory")
}

func superMain(id string, root, binDir string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	total := ck.Quick
	limit := int64(780)
	if tier == "thorough" {
		total = ck.Quick * 1000 // until the budget is spent
		limit = 800
		if s := os.Getenv("VERIF_BUDGET"); s != "" {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				limit = n
			}
		}
	}
	if s := os.Getenv("VERIF_CASES"); s != "" { // for development
		total, _ = strconv.Atoi(s)
	}
	scratch := scratchBase()
	defer os.RemoveAll(scratch)
	n := workers(ck)
	outs := make([]shardOutcome, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d := filepath.Join(scratch, fmt.Sprintf("w%d", i))
			os.MkdirAll(d, 0755)
			outs[i] = superviseShard(ck, seed, tier, i, n, total, d, binDir, start.Unix()+limit)
		}(i)
	}
	wg.Wait()
	all := &workerResult{Counts: map[string]int64{}}
	var viols []violation
	incon := ""
	for _, o := range outs {
		mergeResult(all, o.res)
		viols = append(viols, o.viols...)
		if o.incon != "" {
			incon = o.incon
		}
	}
	distinct := map[uint64]struct{}{}
	for _, s := range all.Sigs {
		distinct[s] = struct{}{}
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Idx < viols[j].Idx })
	known := knownFindings(root)
	var fresh []violation
	reported := map[string]bool{}
	for _, v := range viols {
		k := ""
		for _, f := range known {
			if f.Property == id && strings.Contains(v.Msg, f.Contains) {
				k = f.What
			}
		}
		if k == "" {
			fresh = append(fresh, v)
		} else if !reported[k] {
			reported[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0755)
	if len(all.Samples) > 6 {
		all.Samples = all.Samples[:6]
	}
	if all.Samples == nil {
		all.Samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"evaluations":         all.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                ck.Rule,
		"samples":             all.Samples,
		"cases":               all.Cases,
		"cases_planned":       total,
		"cases_skipped":       all.Skipped,
		"observed":            all.Counts,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": append([]string{"the Go toolchain, its standard library and golang.org/x/text are correct"}, ck.Assumptions...),
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d cases, %d evaluations, %d distinct non-trivial, %d skipped, %.1f s\n", id, all.Cases, all.Evals, len(distinct), all.Skipped, time.Since(start).Seconds())
	if os.Getenv("VERIF_COUNTS") != "" {
		ks := make([]string, 0)
		for k := range all.Counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %s=%d\n", k, all.Counts[k])
		}
	}
	if all.SkipMsg != "" {
		fmt.Printf("%s: a skipped case: %.300s\n", id, all.SkipMsg)
	}
	if len(fresh) > 0 {
		for i, v := range fresh {
			if i >= 3 {
				break
			}
			path := filepath.Join(evdir, fmt.Sprintf("replay-%s-%s-%d-%d.json", id, tier, seed, v.Idx))
			rb, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "seed": seed, "index": v.Idx, "message": v.Msg}, "", " ")
			os.WriteFile(path, append(rb, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Println(indent(clip(v.Msg, 3000)))
		}
		return 1
	}
	if incon != "" {
		fmt.Printf("INCONCLUSIVE %s: %s\n", id, incon)
		return 2
	}
	if all.Cases == 0 || all.Skipped*2 > all.Cases || len(distinct) < ck.MinDistinct && total == ck.Quick {
		fmt.Printf("INCONCLUSIVE %s: too little was observed\n", id)
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func indent(s string) string { return "  " + strings.ReplaceAll(s, "\n", "\n  ") }

// replayMain runs one recorded case again.
func replayMain(file, root, binDir string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp struct {
		Property, Tier string
		Seed, Index    int
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	ck := checks[rp.Property]
	if ck == nil {
		return 2
	}
	st := &workerState{sigs: map[uint64]struct{}{}, counts: map[string]int64{}}
	scratch := scratchBase()
	defer os.RemoveAll(scratch)
	if dn, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = dn
	}
	msg := runCase(ck, st, rp.Seed, rp.Tier, rp.Index, scratch, binDir, true)
	if msg != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", rp.Property, file, indent(msg))
		return 1
	}
	fmt.Printf("%s: case %d holds (%d evaluations)\n", rp.Property, rp.Index, st.evals)
	return 0
}

func main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: mon run ID root bindir | replay file root bindir")
		os.Exit(2)
	}
	switch args[0] {
	case "worker":
		os.Exit(workerMain(args[1:]))
	case "run":
		os.Exit(superMain(args[1], args[2], args[3]))
	case "replay":
		os.Exit(replayMain(args[1], args[2], args[3]))
	}
	os.Exit(2)
}
