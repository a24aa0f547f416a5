package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var verifDir = "/verif"

// Ctx is one run of the check of one property.
type Ctx struct {
	ID, Tier string
	Seed     int64
	Quick    bool
	start    time.Time

	mu        sync.Mutex
	findings  map[string]*Finding // one example per class
	nFindings int64
	knownHits map[string]*Finding
	known     []Known
	tlc       []TLCStats
	samples   []string
	counters  map[string]int64

	evals     int64 // executions of the implementation
	traces    int64 // behaviours of the specification replayed
	assume    []string
	exhausted bool
	slots     []byte // in-flight inputs, shared with the parent process
	since     [maxSlots]int64
}

const maxSlots = 16
const slotSize = 1 << 16

// Known is a recorded genuine defect of the implementation.
type Known struct {
	Property string   `json:"property"`
	ID       string   `json:"id"`
	Inputs   []string `json:"inputs,omitempty"` // exact failing inputs
	What     string   `json:"what"`
	Fixed    string   `json:"fixed,omitempty"` // commit; a fixed entry suppresses nothing
}

func loadKnown(id string) []Known {
	var out []Known
	f, err := os.Open(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var k Known
		if json.Unmarshal(sc.Bytes(), &k) == nil && k.Property == id && k.Fixed == "" {
			out = append(out, k)
		}
	}
	return out
}

// report records a disagreement between the specification and the code.
func (c *Ctx) report(f *Finding) {
	if f == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		for _, in := range k.Inputs {
			if in == f.Input {
				c.knownHits[k.ID] = f
				return
			}
		}
	}
	c.nFindings++
	b := bucketOf(f)
	if o := c.findings[b]; o == nil || len(o.Input) > len(f.Input) {
		if o != nil || len(c.findings) < 400 {
			c.findings[b] = f
		}
	}
}

// deviates notes that the code showed the listed deviation id; an unlisted
// one is a violation.
func (c *Ctx) deviates(id string, f *Finding) {
	c.mu.Lock()
	for _, k := range c.known {
		if k.ID == id {
			if o := c.knownHits[id]; o == nil || len(o.Input) > len(f.Input) {
				c.knownHits[id] = f
			}
			c.mu.Unlock()
			return
		}
	}
	c.mu.Unlock()
	c.report(f)
}

func (c *Ctx) isKnown(id string) bool {
	for _, k := range c.known {
		if k.ID == id {
			return true
		}
	}
	return false
}

func (c *Ctx) count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

func (c *Ctx) sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) eval(n int64) { atomic.AddInt64(&c.evals, n) }

// enter publishes the input a worker is about to hand to the code, so that a
// crash or a hang can be attributed.
func (c *Ctx) enter(w int, sql string) {
	if c.slots != nil {
		b := c.slots[w*slotSize : (w+1)*slotSize]
		n := copy(b[4:], sql)
		binary.LittleEndian.PutUint32(b, uint32(n))
	}
	atomic.StoreInt64(&c.since[w], time.Now().UnixNano())
}

func (c *Ctx) leave(w int) { atomic.StoreInt64(&c.since[w], 0) }

func (c *Ctx) slotInput(w int) string {
	if c.slots == nil {
		return ""
	}
	b := c.slots[w*slotSize : (w+1)*slotSize]
	n := int(binary.LittleEndian.Uint32(b))
	if n > slotSize-4 {
		n = slotSize - 4
	}
	return string(b[4 : 4+n])
}

const hangAfter = 15 * time.Second
const heapLimit = 14 << 30

// watchdog turns a hang or runaway allocation into a violation.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		for w := range c.since {
			s := atomic.LoadInt64(&c.since[w])
			if s == 0 {
				continue
			}
			d := time.Duration(now - s)
			if d > hangAfter || ms.HeapAlloc > heapLimit && d > 2*time.Second {
				in := c.slotInput(w)
				c.report(&Finding{"hang", in, fmt.Sprintf("no result after %v (heap %d MB)", d.Round(time.Second), ms.HeapAlloc>>20)})
				c.finish()
			}
		}
	}
}

const thoroughTime = 780 * time.Second

// Src selects behaviours of the statement machine.
type Src struct {
	Roots         []string
	Budget        int
	Focus, Frozen string
	Sim           int // >0: about this many random behaviours instead of all of them
	Wild          bool
	Cover         bool // aim at every use of every production
	IDK           string
	draw          int
	Draws         int   // lexemes are drawn this many times per behaviour
	Pump          []int // instead: every recursion of the grammar, repeated this often
}

// W is a replay worker.
type W struct {
	c   *Ctx
	id  int
	rng *rand.Rand
	lex *Lexicon
}

// parse runs the parser with the input published.
func (w *W) parse(sql string) Outcome {
	w.c.enter(w.id, sql)
	o := parse(sql)
	w.c.leave(w.id)
	w.c.eval(1)
	return o
}

const nWorkers = 8

// stream feeds lines produced by a TLC run to workers.
func (c *Ctx) stream(r TLCRun, fn func(w *W, line string)) {
	ch := make(chan string, 4096)
	var wg sync.WaitGroup
	for i := 0; i < nWorkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &W{c: c, id: i}
			for l := range ch {
				fn(w, l)
			}
		}(i)
	}
	r.Line = func(l string) {
		if strings.HasPrefix(l, `<<"LEX`) {
			lexer.add(tlaStrings(l))
			return
		}
		ch <- l
	}
	st, err := runTLC(r)
	close(ch)
	wg.Wait()
	if err != nil {
		fatal("model checker: %v", err)
	}
	c.mu.Lock()
	c.tlc = append(c.tlc, st)
	if os.Getenv("VDRV_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s %+v\n", time.Since(c.start), st)
	}
	c.mu.Unlock()
}

// sentences replays every behaviour of the statement machine selected by src.
func (c *Ctx) sentences(src Src, fn func(w *W, s *Sentence)) {
	if src.Pump != nil {
		c.pumpedSentences(src, fn)
		return
	}
	module := "SqlMachine"
	if src.Cover {
		module = "SqlCover"
	}
	r := TLCRun{Module: module, Cfg: machineCfg(src.Roots, strconv.Itoa(src.Budget), src.Focus, src.Frozen)}
	if src.Sim > 0 {
		r.Simulate, r.Depth, r.Seed = src.Sim/120+1, 400, c.Seed*7919+int64(src.Budget)
	}
	if !c.Quick { // deep runs share the time there is
		r.MaxTime = max(thoroughTime-time.Since(c.start), 30*time.Second)
	}
	var seen sync.Map
	c.stream(r, func(w *W, line string) {
		tr := traceOf(line)
		if tr == nil {
			return
		}
		if src.Sim > 0 {
			if _, dup := seen.LoadOrStore(hash64(line), true); dup {
				return
			}
		}
		for i := 0; i < max(src.Draws, 1); i++ {
			src := src
			src.draw = i
			s := c.instance(w, tr, src)
			if s.Bad {
				continue
			}
			atomic.AddInt64(&c.traces, 1)
			fn(w, s)
		}
	})
}

// pumpedSentences replays behaviours u a^k x b^k v: long lists and deep
// nesting, with the tree the specification prescribes for them.
func (c *Ctx) pumpedSentences(src Src, fn func(w *W, s *Sentence)) {
	ys := c.cycles(src.Roots, src.Budget)
	c.count("recursive_constructs", int64(len(ys)))
	ch := make(chan *Cycle, 64)
	var wg sync.WaitGroup
	for i := 0; i < nWorkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &W{c: c, id: i}
			for y := range ch {
				for _, k := range src.Pump {
					if s := c.instance(w, y.pumped(k), src); !s.Bad {
						atomic.AddInt64(&c.traces, 1)
						fn(w, s)
					}
				}
			}
		}(i)
	}
	for _, y := range ys {
		ch <- y
	}
	close(ch)
	wg.Wait()
}

func (c *Ctx) instance(w *W, tr []string, src Src) *Sentence {
	seed := hash64(strings.Join(tr, " "), fmt.Sprint(c.Seed), fmt.Sprint(src.draw))
	w.rng = rand.New(rand.NewSource(seed))
	w.lex = &Lexicon{rng: w.rng, Wild: src.Wild, IDK: src.IDK}
	return instantiate(tr, w.lex)
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

type checkFn func(*Ctx)

var checks = map[string]checkFn{}

func newCtx(id, tier string) *Ctx {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	return &Ctx{ID: id, Tier: tier, Quick: tier == "quick", Seed: seed, start: time.Now(),
		findings: map[string]*Finding{}, knownHits: map[string]*Finding{}, counters: map[string]int64{}, known: loadKnown(id)}
}

// runCheck runs the check in a child process so that a fatal crash of the
// code under test (stack overflow, concurrent map access) is a verdict too.
func runCheck(id, tier string) {
	f := checks[id]
	if f == nil {
		fatal("unknown property %s", id)
	}
	c := newCtx(id, tier)
	slotFile := os.Getenv("VDRV_SLOTS")
	if slotFile != "" {
		c.slots = mapSlots(slotFile)
		debug.SetGCPercent(300)
		debug.SetMaxStack(256 << 20)
		go c.watchdog()
		f(c)
		c.finish()
		return
	}
	tmp, err := os.CreateTemp("", "vslots")
	if err != nil {
		fatal("%v", err)
	}
	tmp.Truncate(maxSlots * slotSize)
	tmp.Close()
	code := runChild(tmp.Name(), os.Args[1:])
	if code == 0 || code == 1 || code == 3 {
		os.Remove(tmp.Name())
		os.Exit(code)
	}
	// The child died.  Find the input that kills it.
	c.slots = mapSlots(tmp.Name())
	os.Remove(tmp.Name())
	if id == "P14" {
		var all []string
		for w := 0; w < maxSlots; w++ {
			if in := c.slotInput(w); in != "" {
				all = append(all, in)
			}
		}
		kind, what := "crash", childErr.String()
		if code == raceExit {
			kind = "race"
		}
		if i := strings.Index(what, "WARNING: DATA RACE"); i >= 0 {
			what = what[i:]
		} else if i := strings.Index(what, "fatal error:"); i >= 0 {
			what = what[i:]
		}
		if strings.Contains(what, "clickhouse-sql-parser/parser") {
			c.report(&Finding{kind, strings.Join(all, "\n"), clip(what, 3000)})
			c.finish()
		}
	}
	for w := 0; w < maxSlots; w++ {
		in := c.slotInput(w)
		if in == "" {
			continue
		}
		p := exec.Command(os.Args[0], "try")
		p.Stdin = strings.NewReader(in)
		out, err := p.CombinedOutput()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 0 {
			msg := string(out)
			if len(msg) > 300 {
				msg = msg[:300]
			}
			c.report(&Finding{"crash", in, "the process dies: " + msg})
			c.finish()
		}
	}
	fatal("check process ended with status %d and no input reproduces it", code)
}

const raceExit = 66

var childErr strings.Builder

func runChild(slots string, args []string) int {
	p := exec.Command(os.Args[0], args...)
	p.Env = append(os.Environ(), "VDRV_SLOTS="+slots, fmt.Sprintf("GORACE=halt_on_error=1 atexit_sleep_ms=0 exitcode=%d", raceExit))
	p.Stdout, p.Stderr = os.Stdout, io.MultiWriter(os.Stderr, &childErr)
	err := p.Run()
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() < 0 {
			return 9
		}
		return ee.ExitCode()
	}
	fatal("%v", err)
	return 3
}

func mapSlots(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return nil
	}
	defer f.Close()
	b, err := syscall.Mmap(int(f.Fd()), 0, maxSlots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

// finish writes the evidence and the verdict and ends the process.
func (c *Ctx) finish() {
	c.mu.Lock()
	var states, trans int64
	for _, t := range c.tlc {
		states += t.Distinct
		if t.Distinct == 0 {
			states += t.Generated
		}
		trans += t.Generated
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans,
		"traces_validated_against_impl": atomic.LoadInt64(&c.traces),
		"implementation_executions":     atomic.LoadInt64(&c.evals),
		"model_runs":                    c.tlc,
		"counters":                      c.counters,
		"samples":                       c.samples,
	}
	if c.samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": c.nFindings,
	}
	if c.assume != nil {
		ev["assumptions"] = c.assume
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	var ids []string
	for id := range c.knownHits {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		for _, k := range c.known {
			if k.ID == id {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (e.g. %s)\n", c.ID, id, k.What, oneLine(c.knownHits[id].Input))
			}
		}
	}
	var bs []string
	for k := range c.findings {
		bs = append(bs, k)
	}
	sort.Slice(bs, func(i, j int) bool { return len(c.findings[bs[i]].Input) < len(c.findings[bs[j]].Input) })
	for i, k := range bs {
		if i >= 12 && os.Getenv("VDRV_ALL") == "" {
			fmt.Printf("... and %d more kinds of disagreement\n", len(bs)-i)
			break
		}
		f := c.findings[k]
		path := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.json", c.ID, i))
		b, _ := json.MarshalIndent(map[string]string{"property": c.ID, "kind": f.Kind, "input": f.Input, "what": f.What}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  input: %s\n  %s: %s\n", c.ID, path, oneLine(f.Input), f.Kind, strings.ReplaceAll(clip(f.What, 700), "\n", "\n    "))
	}
	fmt.Printf("%s %s: %d behaviours replayed, %d executions, %d model states, %.1f s, %d disagreements\n",
		c.ID, c.Tier, c.traces, c.evals, states, time.Since(c.start).Seconds(), c.nFindings)
	if c.nFindings > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
