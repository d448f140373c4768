//go:build go1.23

package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Ctx is one execution: it answers every nondeterministic question from a choice prefix, and with 0
// beyond it. The engine enumerates all choice sequences depth first.
type Ctx struct {
	prefix  []int
	choices []int
	widths  []int
	devs    int // deviations used so far
	cost    []int
	maxDev  int
	trace   []string
	tracing bool
	eng     *Engine
	shardAt int
	sharded bool
	params  map[string]int
	sample  string
}

type violation struct{ msg string }
type skipped struct{}

func (violation) HarnessPanic() {}
func (skipped) HarnessPanic()   {}

// Choose picks a value in [0,n); every value is explored.
func (c *Ctx) Choose(n int, label string) int { return c.choose(n, label, false) }

// Dev picks a value in [0,n) where values other than 0 are deviations, of which at most
// the phase's deviation bound are explored in one execution.
func (c *Ctx) Dev(n int, label string) int { return c.choose(n, label, true) }

func (c *Ctx) choose(n int, label string, dev bool) int {
	if n <= 0 {
		panic("verifmc: empty choice " + label)
	}
	if dev && c.devs >= c.maxDev {
		return 0
	}
	if n == 1 {
		return 0
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("verifmc: replay diverged: choice %d of %d at %q", v, n, label))
		}
	}
	c.choices = append(c.choices, v)
	c.widths = append(c.widths, n)
	if dev && v != 0 {
		c.devs++
	}
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf("choice %s = %d of %d", label, v, n))
	}
	if len(c.choices) == c.shardAt && c.eng != nil && c.eng.shards > 1 {
		h := uint32(2166136261)
		for _, x := range c.choices {
			h = (h ^ uint32(x)) * 16777619
			h ^= h >> 13
		}
		h *= 0x9E3779B1
		c.sharded = true
		if int((h>>8)%uint32(c.eng.shards)) != c.eng.shard {
			panic(skipped{})
		}
	}
	return v
}

// Fail reports that the property does not hold in this execution.
func (c *Ctx) Fail(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

func (c *Ctx) Check(ok bool, format string, args ...any) {
	if !ok {
		c.Fail(format, args...)
	}
}

func (c *Ctx) Logf(format string, args ...any) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

func (c *Ctx) Sample(s string) { c.sample = s }

// Step counts a transition of the system under test, State a state reached.
func (c *Ctx) Step() {
	if c.eng != nil {
		c.eng.transitions++
	}
}

// Trace counts a model trace replayed against the implementation.
func (c *Ctx) State(s string) {
	if c.eng != nil {
		h := fnv.New64a()
		h.Write([]byte(s))
		c.eng.addState(h.Sum64())
	}
}

// alive tells the watchdog that the execution goes on.
func (c *Ctx) alive() {
	if c.eng != nil {
		c.eng.exec.Add(1)
	}
}

type Phase struct {
	Name    string
	Tier    string // "" in both tiers, "thorough" in that one only
	Shard   int    // leading choices that are distributed over the workers (default 2)
	Dev     int    // deviation bound
	Run     func(c *Ctx)
	Weight  float64 // share of the time budget (default 1)
	OneProc bool    // run in worker 0 only
}

type Check struct {
	ID          string
	Phases      []Phase
	Explanation string
	Assumptions []string
	Special     func(o *runOpts) int // runs outside the engine
	Real        bool                 // needs the unmodified server binary
	After       func(c *Ctx)         // per worker
}

type PhaseResult struct {
	Name        string  `json:"phase"`
	Executions  int64   `json:"executions"`
	Transitions int64   `json:"transitions"`
	Complete    bool    `json:"complete"`
	MaxChoices  int     `json:"max_choices"`
	WallS       float64 `json:"wall_s"`
}

type Violation struct {
	Property string   `json:"property"`
	Phase    string   `json:"phase"`
	Message  string   `json:"message"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace"`
	Repro    string   `json:"reproduced"`
}

type Engine struct {
	shard, shards int
	deadline      time.Time
	cur           *os.File
	exec          atomic.Int64
	curChoices    []int

	transitions int64
	states      map[uint64]struct{}
	samples     []string
	results     []PhaseResult
	violations  []Violation
	unstable    int
}

const maxStates = 3_000_000

func (e *Engine) addState(h uint64) {
	if len(e.states) < maxStates {
		e.states[h] = struct{}{}
	}
}

func (e *Engine) persist(phase int, prefix []int) {
	if e.cur == nil {
		return
	}
	b := make([]byte, 0, 8+4*len(prefix))
	b = binary.LittleEndian.AppendUint32(b, uint32(phase))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(prefix)))
	for _, v := range prefix {
		b = binary.LittleEndian.AppendUint32(b, uint32(v))
	}
	e.cur.WriteAt(b, 0)
}

func readPersisted(path string) (int, []int, bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return 0, nil, false
	}
	ph := int(binary.LittleEndian.Uint32(b))
	n := int(binary.LittleEndian.Uint32(b[4:]))
	if len(b) < 8+4*n {
		return 0, nil, false
	}
	var p []int
	for i := 0; i < n; i++ {
		p = append(p, int(binary.LittleEndian.Uint32(b[8+4*i:])))
	}
	return ph, p, true
}

// runOne executes one choice prefix. It returns the violation message, if any.
func runOne(c *Ctx, p *Phase) (msg string, skip bool) {
	c.maxDev = p.Dev
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case violation:
				msg = r.msg
			case skipped:
				skip = true
			default:
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
				if s, ok := r.(string); ok && strings.HasPrefix(s, "verifmc:") {
					fmt.Fprintln(os.Stderr, "HARNESS-ERROR", msg, c.choices)
					os.Exit(2)
				}
			}
		}
	}()
	p.Run(c)
	return "", false
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "IfanTsai/metis/") && !strings.Contains(lines[i], "verif") && !strings.HasPrefix(lines[i], "\t") {
			f := strings.TrimSpace(lines[i])
			if j := strings.LastIndex(f, "/"); j >= 0 {
				f = f[j+1:]
			}
			if k := strings.Index(f, "("); k > 0 && strings.HasPrefix(f, "server.") {
				_ = k
			}
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(loc, "/"); j >= 0 {
				loc = loc[j+1:]
			}
			if j := strings.Index(loc, " "); j >= 0 {
				loc = loc[:j]
			}
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			out = append(out, f+" "+loc)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const hangExit = 7

func (e *Engine) watchdog() {
	last, cpu0, t0 := int64(-1), time.Duration(0), time.Now()
	factor := time.Duration(1)
	if curOpts != nil && curOpts.tier == "thorough" {
		factor = 5 // its largest executions take long
	}
	for {
		time.Sleep(500 * time.Millisecond)
		n := e.exec.Load()
		if n != last {
			last, cpu0, t0 = n, cpuTime(), time.Now()
			continue
		}
		if n == 0 {
			continue
		}
		if w := time.Since(t0); (w > factor*20*time.Second && cpuTime()-cpu0 > factor*18*time.Second) || w > factor*90*time.Second {
			os.Exit(hangExit)
		}
	}
}

// explore enumerates the executions of one phase.
func (e *Engine) explore(id string, pi int, p *Phase, known *KnownFindings, deadline time.Time) {
	start := time.Now()
	res := PhaseResult{Name: p.Name}
	t0 := e.transitions
	shard := p.Shard
	if shard == 0 {
		shard = 2
	}
	prefix := []int{}
	complete := true
	seen, seenRaw := map[string]bool{}, map[string]bool{}
	for n := 0; ; n++ {
		if n&15 == 0 && time.Now().After(deadline) {
			complete = false
			break
		}
		c := &Ctx{prefix: prefix, eng: e, shardAt: shard}
		e.exec.Add(1)
		e.persist(pi, prefix)
		tr := e.transitions
		msg, skip := runOne(c, p)
		if !skip {
			if !c.sharded && e.shard != 0 {
				e.transitions = tr // counted by worker 0
			} else {
				res.Executions++
				if len(e.samples) < 3 && c.sample != "" && res.Executions%97 == 1 {
					e.samples = append(e.samples, p.Name+": "+c.sample)
				}
			}
			if len(c.choices) > res.MaxChoices {
				res.MaxChoices = len(c.choices)
			}
		}
		if msg != "" && !seenRaw[signature(msg)] {
			seenRaw[signature(msg)] = true
			v := e.confirm(id, p, c.choices, msg)
			if v == nil {
				delete(seenRaw, signature(msg))
				e.unstable++
			} else if known.match(v) {
				delete(seenRaw, signature(msg)) // listed; another one may look alike
			} else {
				sig := signature(v.Message)
				if !seen[sig] {
					seen[sig] = true
					e.violations = append(e.violations, *v)
					if d := time.Now().Add(2 * time.Second); d.Before(deadline) {
						deadline = d
					}
				}
				if len(seen) >= 3 {
					complete = false
					break
				}
			}
		}
		// odometer
		ch, wd := c.choices, c.widths
		i := len(ch) - 1
		for i >= 0 && ch[i]+1 >= wd[i] {
			i--
		}
		if i < 0 {
			break
		}
		next := make([]int, i+1)
		copy(next, ch[:i+1])
		next[i]++
		prefix = next
	}
	res.Complete = complete
	res.Transitions = e.transitions - t0
	res.WallS = time.Since(start).Seconds()
	e.results = append(e.results, res)
}

func signature(m string) string {
	if len(m) > 60 {
		m = m[:60]
	}
	return m
}

func (e *Engine) confirm(id string, p *Phase, choices []int, msg string) *Violation {
	v := &Violation{Property: id, Phase: p.Name, Message: msg, Choices: append([]int(nil), choices...)}
	hits := 0
	const tries = 5
	for i := 0; i < tries; i++ {
		c := &Ctx{prefix: v.Choices, tracing: true}
		m, _ := runOne(c, p)
		if m != "" {
			hits++
			v.Message = m
			v.Trace = c.trace
		}
	}
	v.Repro = fmt.Sprintf("%d of %d re-runs", hits, tries)
	if hits == 0 {
		fmt.Fprintf(os.Stderr, "UNSTABLE %s %s: %s %v\n", id, p.Name, msg, choices)
		return nil
	}
	return v
}

// KnownFindings are the recorded, unrepaired defects of the code under test.
type KnownFindings struct {
	Entries []KnownEntry `json:"findings"`
	hit     map[int]bool
}

type KnownEntry struct {
	Property string `json:"property"`
	Phase    string `json:"phase,omitempty"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

func loadKnown(path string) *KnownFindings {
	k := &KnownFindings{hit: map[int]bool{}}
	b, err := os.ReadFile(path)
	if err == nil {
		if err := json.Unmarshal(b, k); err != nil {
			fmt.Fprintln(os.Stderr, "bad known findings file:", err)
			os.Exit(2)
		}
	}
	return k
}

func (k *KnownFindings) match(v *Violation) bool {
	for i, e := range k.Entries {
		if e.Property == v.Property && (e.Phase == "" || e.Phase == v.Phase) && e.Contains != "" &&
			(strings.Contains(v.Message, e.Contains) || strings.Contains(strings.Join(v.Trace, "\n"), e.Contains)) {
			k.hit[i] = true
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
}
