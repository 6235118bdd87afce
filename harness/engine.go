package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Env is what a check may use besides the case itself.
type Env struct {
	Asn1go, Ws2bin string // commands built from /repo
	Self           string // this binary
	Scratch        string // directory owned by this worker
	Repo           string
	Race           string // this binary built with the race detector, or ""
}

// Outcome of one case.
type Outcome struct {
	NonTrivial bool
	Labels     []string
	Err        error
}

func (o *Outcome) label(l string) { o.Labels = append(o.Labels, l) }
func (o *Outcome) failf(f string, a ...interface{}) {
	if o.Err == nil {
		o.Err = fmt.Errorf(f, a...)
	}
}

// Sub is one generated-input search of a property.
type Sub struct {
	Name            string
	Quick, Thorough int // cases over all shards
	Shards          int // default 8
	Term            bool
	Race            bool // run in the binary built with the race detector
	// watchdog limits hit by a case are violations when confirmed (the property claims termination)
	Rule   string
	gen    func(*rapid.T) interface{}
	check  func(*Env, interface{}) Outcome
	decode func([]byte) (interface{}, error)
	// batch checking: all cases of a shard are generated first and checked together
	batch  func(*Env, []interface{}) []Outcome
	shrink func(interface{}) []interface{}
	bsize  int
}

type Prop struct {
	ID          string
	Assumptions []string
	Subs        []*Sub
}

var props []*Prop

func register(id string, assumptions []string, subs ...*Sub) {
	props = append(props, &Prop{id, assumptions, subs})
}

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (p *Prop) sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func sub[C any](name, rule string, quick, thorough int, gen func(*rapid.T) C, check func(*Env, C) Outcome) *Sub {
	return &Sub{Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen:    func(t *rapid.T) interface{} { return gen(t) },
		check:  func(e *Env, c interface{}) Outcome { return check(e, c.(C)) },
		decode: decoder[C](),
	}
}

func batchSub[C any](name, rule string, quick, thorough, bsize int, gen func(*rapid.T) C, batch func(*Env, []C) []Outcome, shrink func(C) []C) *Sub {
	conv := func(e *Env, cs []interface{}) []Outcome {
		xs := make([]C, len(cs))
		for i := range cs {
			xs[i] = cs[i].(C)
		}
		return batch(e, xs)
	}
	return &Sub{Name: name, Rule: rule, Quick: quick, Thorough: thorough, bsize: bsize,
		gen:    func(t *rapid.T) interface{} { return gen(t) },
		batch:  conv,
		check:  func(e *Env, c interface{}) Outcome { return conv(e, []interface{}{c})[0] },
		decode: decoder[C](),
		shrink: func(c interface{}) (r []interface{}) {
			for _, x := range shrink(c.(C)) {
				r = append(r, x)
			}
			return
		},
	}
}

func decoder[C any]() func([]byte) (interface{}, error) {
	return func(b []byte) (interface{}, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
}

func (s *Sub) term() *Sub        { s.Term = true; return s }
func (s *Sub) race() *Sub        { s.Race = true; return s }
func (s *Sub) shards(n int) *Sub { s.Shards = n; return s }

// ---- worker ----

type Failure struct {
	Case json.RawMessage
	Err  string
}

type WorkerResult struct {
	Evals   int
	Labels  map[string]int
	Samples []json.RawMessage
	Fail    *Failure
	Error   string
}

type tbStub struct {
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (t *tbStub) Helper()                           {}
func (t *tbStub) Name() string                      { return "vh" }
func (t *tbStub) Logf(f string, a ...interface{})   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tbStub) Log(a ...interface{})              { fmt.Fprintln(&t.log, a...) }
func (t *tbStub) Skipf(f string, a ...interface{})  { t.SkipNow() }
func (t *tbStub) Skip(a ...interface{})             { t.SkipNow() }
func (t *tbStub) SkipNow()                          { panic(tbStop{}) }
func (t *tbStub) Errorf(f string, a ...interface{}) { t.Logf(f, a...); t.Fail() }
func (t *tbStub) Error(a ...interface{})            { t.Log(a...); t.Fail() }
func (t *tbStub) Fatalf(f string, a ...interface{}) { t.Logf(f, a...); t.FailNow() }
func (t *tbStub) Fatal(a ...interface{})            { t.Log(a...); t.FailNow() }
func (t *tbStub) FailNow()                          { t.failed = true; panic(tbStop{}) }
func (t *tbStub) Fail()                             { t.failed = true }
func (t *tbStub) Failed() bool                      { return t.failed }

const (
	exitHang = 77
	exitHeap = 78
)

// watchdog ends the process when one case burns too much CPU time or heap, or is blocked for very long.
type watchdog struct {
	mu    sync.Mutex
	start time.Duration
	wall  time.Time
	on    bool
}

const caseCPULimit = 40 * time.Second
const caseWallLimit = 90 * time.Second
const heapLimit = 3 << 30

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *watchdog) begin() {
	w.mu.Lock()
	w.start, w.wall, w.on = cpuTime(), time.Now(), true
	w.mu.Unlock()
}
func (w *watchdog) end() {
	w.mu.Lock()
	w.on = false
	w.mu.Unlock()
}
func (w *watchdog) run() {
	for {
		time.Sleep(200 * time.Millisecond)
		w.mu.Lock()
		on, start, wall := w.on, w.start, w.wall
		w.mu.Unlock()
		if !on {
			continue
		}
		if cpuTime()-start > caseCPULimit {
			fmt.Fprintln(os.Stderr, "watchdog: one case used more than", caseCPULimit, "of CPU time")
			os.Exit(exitHang)
		}
		if time.Since(wall) > caseWallLimit {
			fmt.Fprintln(os.Stderr, "watchdog: one case took more than", caseWallLimit)
			os.Exit(exitHang)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc+ms.StackInuse > heapLimit {
			fmt.Fprintln(os.Stderr, "watchdog: one case used more than 3 GB of memory")
			os.Exit(exitHeap)
		}
	}
}

func setupProcess() *watchdog {
	debug.SetMaxStack(512 << 20)
	w := &watchdog{}
	go w.run()
	return w
}

// safeCheck turns a panic of the code under test into a failure.
func safeCheck(f func() Outcome) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.Err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func envFrom() *Env {
	return &Env{
		Asn1go: os.Getenv("VH_ASN1GO"), Ws2bin: os.Getenv("VH_WS2BIN"), Self: os.Getenv("VH_SELF"),
		Scratch: os.Getenv("VH_SCRATCH"), Repo: os.Getenv("VH_REPO"), Race: os.Getenv("VH_RACE"),
	}
}

func workerMain(prop, subName string, seed uint64, checks int, out string) {
	s := findProp(prop).sub(subName)
	w := setupProcess()
	env := envFrom()
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	shrink := os.Getenv("VH_SHRINK")
	if shrink == "" {
		shrink = "25s"
	}
	flag.Set("rapid.shrinktime", shrink)
	cur, err := os.Create(out + ".cur")
	if err != nil {
		panic(err)
	}
	res := WorkerResult{Labels: map[string]int{}}
	hashes := map[uint64]bool{}
	var fail *Failure
	account := func(js []byte, o Outcome) {
		res.Evals++
		for _, l := range o.Labels {
			res.Labels[l]++
		}
		if o.NonTrivial {
			res.Labels["(non-trivial)"]++
			hashes[hashBytes(js)] = true
			if len(res.Samples) < 3 && len(js) < 4000 {
				res.Samples = append(res.Samples, json.RawMessage(js))
			}
		}
	}
	var batchCases []interface{}
	tb := &tbStub{}
	tb2 := func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := s.gen(t)
			if s.batch != nil {
				batchCases = append(batchCases, c)
				return
			}
			js, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			writeCur(cur, js)
			w.begin()
			o := safeCheck(func() Outcome { return s.check(env, c) })
			w.end()
			if fail == nil {
				account(js, o)
			}
			if o.Err != nil {
				fail = &Failure{js, o.Err.Error()}
				t.Fatalf("property violated")
			}
		})
	}
	tb2()
	if s.batch == nil && tb.failed && fail == nil {
		res.Error = "rapid: " + tb.log.String()
	}
	if s.batch != nil {
		if tb.failed {
			res.Error = "rapid: " + tb.log.String()
		}
		for len(batchCases) > 0 && fail == nil {
			n := s.bsize
			if n > len(batchCases) {
				n = len(batchCases)
			}
			part := batchCases[:n]
			batchCases = batchCases[n:]
			os_ := s.batch(env, part)
			for i, o := range os_ {
				js, _ := json.Marshal(part[i])
				account(js, o)
				if o.Err != nil && fail == nil {
					fail = shrinkBatch(s, env, part[i], o)
				}
			}
		}
	}
	res.Fail = fail
	var hb bytes.Buffer
	for h := range hashes {
		binary.Write(&hb, binary.LittleEndian, h)
	}
	os.WriteFile(out+".hash", hb.Bytes(), 0644)
	js, _ := json.Marshal(res)
	os.WriteFile(out, js, 0644)
}

// shrinkBatch: greedy descent, all candidates of a round checked in one batch.
func shrinkBatch(s *Sub, env *Env, c interface{}, o Outcome) *Failure {
	deadline := time.Now().Add(120 * time.Second)
	size := func(c interface{}) int { b, _ := json.Marshal(c); return len(b) }
	for time.Now().Before(deadline) {
		cands := s.shrink(c)
		sort.SliceStable(cands, func(i, j int) bool { return size(cands[i]) < size(cands[j]) })
		improved := false
		for len(cands) > 0 && !improved {
			n := s.bsize
			if n > len(cands) {
				n = len(cands)
			}
			outs := s.batch(env, cands[:n])
			for i := range outs {
				if outs[i].Err != nil && size(cands[i]) < size(c) {
					c, o, improved = cands[i], outs[i], true
					break
				}
			}
			cands = cands[n:]
		}
		if !improved {
			break
		}
	}
	js, _ := json.Marshal(c)
	return &Failure{js, o.Err.Error()}
}

func writeCur(f *os.File, js []byte) {
	buf := make([]byte, 8+len(js))
	binary.LittleEndian.PutUint64(buf, uint64(len(js)))
	copy(buf[8:], js)
	f.WriteAt(buf, 0)
}

func readCur(path string) json.RawMessage {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if uint64(len(b)-8) < n {
		return nil
	}
	return json.RawMessage(b[8 : 8+n])
}

// ---- parent ----

// Replay is a failing case, or a history of cases checked one after another in one process, of which
// one fails.
type Replay struct {
	Property string
	Sub      string
	Message  string
	Case     json.RawMessage   `json:",omitempty"`
	History  []json.RawMessage `json:",omitempty"`
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

type shardJob struct {
	sub    *Sub
	shard  int
	checks int
	out    string
	res    *WorkerResult
	prop   string
	seed   uint64
	death  string // non-empty: the worker died
	code   int
	kase   json.RawMessage
}

func checkMain(id, tier string, seed int64, verifDir, work string, only string, scale float64) int {
	start := time.Now()
	p := findProp(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	var jobs []*shardJob
	for _, s := range p.Subs {
		if only != "" && s.Name != only {
			continue
		}
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * scale)
		sh := s.Shards
		if sh == 0 {
			sh = 8
		}
		if tier == "thorough" && s.batch == nil && n > 200*sh {
			sh *= 4
		}
		if n < sh {
			sh = n
		}
		for k := 0; k < sh; k++ {
			c := n / sh
			if k < n%sh {
				c++
			}
			if c > 0 {
				jobs = append(jobs, &shardJob{sub: s, shard: k, checks: c, out: filepath.Join(work, fmt.Sprintf("r-%s-%s-%d", id, s.Name, k))})
			}
		}
	}
	limit := 500 * time.Second
	if tier == "thorough" {
		limit = 40 * time.Minute
	}
	deadline := start.Add(limit)
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	stop := false
	var mu sync.Mutex
	for _, j := range jobs {
		sem <- struct{}{}
		mu.Lock()
		st := stop
		mu.Unlock()
		if st {
			<-sem
			continue
		}
		wg.Add(1)
		go func(j *shardJob) {
			defer wg.Done()
			defer func() { <-sem }()
			runWorker(p, j, seed, deadline)
			if j.death != "" || j.res != nil && j.res.Fail != nil {
				mu.Lock()
				stop = true
				mu.Unlock()
			}
		}(j)
	}
	wg.Wait()

	// merge
	type subStat struct {
		Evaluations, Distinct int
		Classes               map[string]int
	}
	stats := map[string]*subStat{}
	distinctAll := 0
	evals := 0
	var samples []interface{}
	perSub := map[*Sub]map[uint64]bool{}
	errs := []string{}
	type cand struct {
		j    *shardJob
		f    Failure
		dead bool
	}
	var cands []cand
	for _, j := range jobs {
		if j.death != "" {
			cands = append(cands, cand{j, Failure{j.kase, j.death}, true})
			continue
		}
		if j.res == nil {
			continue
		}
		st := stats[j.sub.Name]
		if st == nil {
			st = &subStat{Classes: map[string]int{}}
			stats[j.sub.Name] = st
		}
		st.Evaluations += j.res.Evals
		evals += j.res.Evals
		for l, n := range j.res.Labels {
			st.Classes[l] += n
		}
		if perSub[j.sub] == nil {
			perSub[j.sub] = map[uint64]bool{}
		}
		hb, _ := os.ReadFile(j.out + ".hash")
		for i := 0; i+8 <= len(hb); i += 8 {
			perSub[j.sub][binary.LittleEndian.Uint64(hb[i:])] = true
		}
		if j.shard == 0 {
			for i, s := range j.res.Samples {
				if i < 2 {
					var v interface{}
					json.Unmarshal(s, &v)
					samples = append(samples, map[string]interface{}{"sub": j.sub.Name, "case": v})
				}
			}
		}
		if j.res.Error != "" {
			errs = append(errs, j.sub.Name+": "+j.res.Error)
		}
		if j.res.Fail != nil {
			cands = append(cands, cand{j, *j.res.Fail, false})
		}
	}
	for s, h := range perSub {
		stats[s.Name].Distinct = len(h)
		distinctAll += len(h)
	}
	sort.SliceStable(cands, func(a, b int) bool { return len(cands[a].f.Case) < len(cands[b].f.Case) })

	violations := 0
	exit := 0
	for _, c := range cands {
		if c.dead {
			if c.j.death == "deadline" || c.f.Case == nil {
				errs = append(errs, fmt.Sprintf("%s shard %d: worker ended without result: %s", c.j.sub.Name, c.j.shard, c.j.death))
				continue
			}
		}
		path := writeReplay(verifDir, id, c.j.sub.Name, c.f, nil)
		ok, how := confirm(path, c.j.sub, work)
		if !ok && !c.dead && c.j.sub.batch == nil && c.j.res != nil {
			// the case may fail only after the cases that this process checked before it
			if hist := failingHistory(c.j, work); hist != nil {
				path = writeReplay(verifDir, id, c.j.sub.Name, c.f, hist)
				ok, how = confirm(path, c.j.sub, work)
				c.f.Err = fmt.Sprintf("(after a history of %d cases in one process; %s)\n%s", len(hist)-1, path, c.f.Err)
			}
		}
		if ok {
			violations++
			fmt.Printf("%s\n", firstLines(c.f.Err, 40))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			exit = 1
			break
		}
		errs = append(errs, fmt.Sprintf("%s: failure not confirmed by replay (%s): %s", c.j.sub.Name, how, firstLines(c.f.Err, 10)))
	}
	if exit == 0 && len(errs) > 0 {
		exit = 3
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "check error:", e)
	}
	var rules []string
	for _, s := range p.Subs {
		rules = append(rules, s.Name+": "+s.Rule)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.Since(start).Seconds(), "violations": violations,
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": distinctAll, "rule": strings.Join(rules, " || "), "samples": samples, "per_sub_check": stats,
		},
		"assumptions": p.Assumptions,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), js, 0644)
	for _, s := range p.Subs {
		if st := stats[s.Name]; st != nil {
			fmt.Printf("%s %s: %d cases, %d distinct non-trivial; %s\n", id, s.Name, st.Evaluations, st.Distinct, classLine(st.Classes))
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %.1fs, exit %d\n", id, tier, seed, evals, time.Since(start).Seconds(), exit)
	return exit
}

func classLine(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []string
	for _, k := range ks {
		b = append(b, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(b, " ")
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

func runWorker(p *Prop, j *shardJob, seed int64, deadline time.Time) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", p.ID, j.sub.Name, j.shard)
	ws := splitmix(h.Sum64() ^ splitmix(uint64(seed)))
	if ws == 0 {
		ws = 1
	}
	j.prop, j.seed = p.ID, ws
	scratch := j.out + ".d"
	os.MkdirAll(scratch, 0755)
	os.Remove(j.out)
	cmd := exec.Command(binFor(j.sub), "worker", p.ID, j.sub.Name, strconv.FormatUint(ws, 10), strconv.Itoa(j.checks), j.out)
	cmd.Env = append(os.Environ(), "VH_SCRATCH="+scratch, "GOTRACEBACK=single", "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var errb tailBuffer
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	if err := cmd.Start(); err != nil {
		j.death = err.Error()
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(time.Until(deadline)):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		j.death = "deadline"
		return
	}
	if err != nil {
		j.death = fmt.Sprintf("%v\n%s", err, errb.String())
		j.kase = readCur(j.out + ".cur")
		return
	}
	b, rerr := os.ReadFile(j.out)
	if rerr != nil {
		j.death = rerr.Error()
		return
	}
	j.res = &WorkerResult{}
	if err := json.Unmarshal(b, j.res); err != nil {
		j.death = err.Error()
		j.res = nil
	}
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { return firstLines(string(t.b), 25) }

// failingHistory generates the cases of the job again up to the one that failed first, and looks for a
// short part of them that fails in a fresh process.
func failingHistory(j *shardJob, work string) []json.RawMessage {
	deadline := time.Now().Add(150 * time.Second)
	file := j.out + ".cases"
	cmd := exec.Command(binFor(j.sub), "cases", j.prop, j.sub.Name, strconv.FormatUint(j.seed, 10), strconv.Itoa(j.checks), strconv.Itoa(j.res.Evals), file)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if cmd.Run() != nil {
		return nil
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var all []json.RawMessage
	if json.Unmarshal(b, &all) != nil || len(all) == 0 {
		return nil
	}
	fails := func(h []json.RawMessage) bool {
		path := filepath.Join(work, "history.json")
		js, _ := json.Marshal(Replay{Property: j.prop, Sub: j.sub.Name, History: h})
		os.WriteFile(path, js, 0644)
		code, _ := runReplay(path, j.sub, work)
		return code == 1
	}
	n := 2
	for n < len(all) && !fails(all[len(all)-n:]) {
		n *= 4
		if time.Now().After(deadline) {
			return nil
		}
	}
	if n >= len(all) {
		n = len(all)
		if !fails(all) {
			return nil
		}
	}
	h := all[len(all)-n:]
	for size := len(h) / 2; size > 0; size /= 2 {
		for at := 0; at+size < len(h) && time.Now().Before(deadline); {
			part := append(append([]json.RawMessage{}, h[:at]...), h[at+size:]...)
			if fails(part) {
				h = part
			} else {
				at += size
			}
		}
	}
	return h
}

// casesMain writes the first n cases that the worker with this seed generates.
func casesMain(prop, subName string, seed string, checks string, n int, out string) {
	s := findProp(prop).sub(subName)
	flag.Set("rapid.checks", checks)
	flag.Set("rapid.seed", seed)
	flag.Set("rapid.nofailfile", "true")
	var all []json.RawMessage
	write := func() {
		js, _ := json.Marshal(all)
		os.WriteFile(out, js, 0644)
		os.Exit(0)
	}
	rapid.Check(&tbStub{}, func(t *rapid.T) {
		js, err := json.Marshal(s.gen(t))
		if err != nil {
			panic(err)
		}
		all = append(all, js)
		if len(all) == n {
			write()
		}
	})
	write()
}

func writeReplay(verifDir, id, sub string, f Failure, history []json.RawMessage) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", id, sub, hashBytes(f.Case)))
	r := Replay{id, sub, firstLines(f.Err, 60), f.Case, nil}
	if history != nil {
		r.Case, r.History = nil, history
	}
	js, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, js, 0644)
	return path
}

// confirm re-runs the case in fresh processes without rapid. An ordinary failure counts when it shows
// again; a fatal crash of the runtime counts when it shows again twice; a watchdog hit counts only where
// the property claims termination, when it shows again twice.
func confirm(path string, s *Sub, work string) (bool, string) {
	how := ""
	crashes := 0
	for i := 0; i < 3; i++ {
		code, tail := runReplay(path, s, work)
		how = fmt.Sprintf("exit %d %s", code, firstLines(tail, 6))
		switch {
		case code == 1:
			return true, how
		case code == exitHang || code == exitHeap:
			if !s.Term {
				return false, "resource limit: " + how
			}
			crashes++
		case code == 2 && (strings.Contains(tail, "stack overflow") || strings.Contains(tail, "stack exceeds") || strings.Contains(tail, "fatal error: concurrent map")):
			crashes++
		case code == 66: // race detector
			return true, how
		}
		if crashes == 2 {
			return true, how
		}
	}
	return false, how
}

func binFor(s *Sub) string {
	if s.Race {
		return os.Getenv("VH_RACE")
	}
	return os.Getenv("VH_SELF")
}

func runReplay(path string, s *Sub, work string) (int, string) {
	scratch, err := os.MkdirTemp(work, "replay")
	if err != nil {
		return -1, err.Error()
	}
	cmd := exec.Command(binFor(s), "replay", path)
	cmd.Env = append(os.Environ(), "VH_SCRATCH="+scratch, "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var tb tailBuffer
	cmd.Stdout, cmd.Stderr = &tb, &tb
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	timer := time.AfterFunc(150*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err = cmd.Wait()
	timer.Stop()
	if err == nil {
		return 0, tb.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), tb.String()
	}
	return -1, err.Error()
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := findProp(r.Property)
	if p == nil || p.sub(r.Sub) == nil {
		fmt.Fprintln(os.Stderr, "no such check")
		return 3
	}
	s := p.sub(r.Sub)
	if r.History == nil {
		r.History = []json.RawMessage{r.Case}
	}
	w := setupProcess()
	for _, js := range r.History {
		c, err := s.decode(js)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		w.begin()
		o := safeCheck(func() Outcome { return s.check(envFrom(), c) })
		w.end()
		if o.Err != nil {
			fmt.Println(o.Err)
			return 1
		}
	}
	fmt.Println("case holds")
	return 0
}

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: vh check|worker|replay|...")
		os.Exit(2)
	}
	switch args[0] {
	case "check": // check ID TIER SEED VERIFDIR WORK [SUB [SCALE]]
		seed, _ := strconv.ParseInt(args[3], 10, 64)
		only, scale := "", 1.0
		if len(args) > 6 && args[6] != "-" {
			only = args[6]
		}
		if len(args) > 7 {
			scale, _ = strconv.ParseFloat(args[7], 64)
		}
		os.Exit(checkMain(args[1], args[2], seed, args[4], args[5], only, scale))
	case "worker":
		seed, _ := strconv.ParseUint(args[3], 10, 64)
		n, _ := strconv.Atoi(args[4])
		workerMain(args[1], args[2], seed, n, args[5])
	case "cases":
		n, _ := strconv.Atoi(args[5])
		casesMain(args[1], args[2], args[3], args[4], n, args[6])
	case "replay":
		os.Exit(replayMain(args[1]))
	case "list":
		for _, p := range props {
			for _, s := range p.Subs {
				fmt.Println(p.ID, s.Name, s.Quick, s.Thorough)
			}
		}
	default:
		if f := extraModes[args[0]]; f != nil {
			os.Exit(f(args[1:]))
		}
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
}

var extraModes = map[string]func([]string) int{}
