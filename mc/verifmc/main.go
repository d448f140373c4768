//go:build go1.23

package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	stdlog "log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var checks = map[string]*Check{}

func register(c *Check) {
	checks[c.ID] = c
	for _, p := range c.Phases {
		if strings.HasPrefix(p.Name, "real binary") {
			c.Real = true
		}
	}
}

type runOpts struct {
	id, tier  string
	seed      int
	verif     string
	repo      string
	build     string
	budget    float64
	workers   int
	phase     string
	allPhases bool
	atEnd     []func() // of a worker
}

type workerOut struct {
	Results     []PhaseResult `json:"results"`
	Violations  []Violation   `json:"violations"`
	Samples     []string      `json:"samples"`
	Transitions int64         `json:"transitions"`
	Unstable    int           `json:"unstable"`
	KnownHits   []int         `json:"known_hits"`
}

func main() {
	stdlog.SetOutput(io.Discard)
	if len(os.Args) < 2 {
		fmt.Println("usage: verifmc run|worker|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	var o runOpts
	fs.StringVar(&o.id, "id", "", "property")
	fs.StringVar(&o.tier, "tier", "quick", "")
	fs.IntVar(&o.seed, "seed", 1, "")
	fs.StringVar(&o.verif, "verif", "/verif", "")
	fs.StringVar(&o.repo, "repo", "/repo", "")
	fs.StringVar(&o.build, "build", "", "build directory")
	fs.Float64Var(&o.budget, "budget", 0, "seconds")
	fs.IntVar(&o.workers, "workers", 8, "")
	fs.StringVar(&o.phase, "phase", "", "only this phase")
	shard := fs.Int("shard", 0, "")
	out := fs.String("out", "", "")
	prof := fs.String("prof", "", "")
	cmd := os.Args[1]
	_ = fs.Parse(os.Args[2:])
	switch cmd {
	case "list":
		for _, id := range sortedKeys(checks) {
			fmt.Println(id)
		}
	case "run":
		os.Exit(run(&o))
	case "worker":
		if *prof != "" {
			f, _ := os.Create(*prof)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		worker(&o, *shard, *out)
	case "replay":
		os.Exit(replay(fs.Arg(0), &o))
	default:
		os.Exit(2)
	}
}

func (o *runOpts) phases(c *Check) []int {
	var r []int
	for i, p := range c.Phases {
		if p.Tier == "thorough" && o.tier != "thorough" && o.phase != p.Name {
			continue
		}
		if p.Tier == "quick" && o.tier != "quick" && o.phase != p.Name {
			continue
		}
		if o.phase != "" && o.phase != p.Name {
			continue
		}
		r = append(r, i)
	}
	return r
}

func limitMemory() {
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

func worker(o *runOpts, shard int, out string) {
	limitMemory()
	curOpts = o
	c := checks[o.id]
	e := &Engine{shard: shard, shards: o.workers, states: map[uint64]struct{}{}}
	curEngine = e
	if out != "" {
		f, err := os.Create(out + ".cur")
		if err == nil {
			e.cur = f
		}
	}
	go e.watchdog()
	known := loadKnown(filepath.Join(o.verif, "known_findings.json"))
	start := time.Now()
	end := start.Add(time.Duration(o.budget * float64(time.Second)))
	idx := o.phases(c)
	var total float64
	w := func(p *Phase) float64 {
		if p.Weight > 0 {
			return p.Weight
		}
		return 1
	}
	for _, i := range idx {
		total += w(&c.Phases[i])
	}
	for _, i := range idx {
		p := &c.Phases[i]
		if p.OneProc && shard != 0 {
			e.results = append(e.results, PhaseResult{Name: p.Name, Complete: true})
			total -= w(p)
			continue
		}
		// a phase may use its share of what is left
		left := time.Until(end)
		dl := time.Now().Add(time.Duration(float64(left) * w(p) / total))
		total -= w(p)
		if p.OneProc {
			e.shards = 1
		}
		e.explore(o.id, i, p, known, dl)
		e.shards = o.workers
	}
	for _, f := range o.atEnd {
		f()
	}
	wo := workerOut{Results: e.results, Violations: e.violations, Samples: e.samples, Transitions: e.transitions, Unstable: e.unstable}
	for i := range known.hit {
		wo.KnownHits = append(wo.KnownHits, i)
	}
	sort.Ints(wo.KnownHits)
	if out == "" {
		b, _ := json.MarshalIndent(wo, "", " ")
		fmt.Println(string(b))
		return
	}
	var sb []byte
	for h := range e.states {
		sb = binary.LittleEndian.AppendUint64(sb, h)
	}
	_ = os.WriteFile(out+".states", sb, 0o644)
	b, _ := json.Marshal(wo)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func (o *runOpts) defaults() {
	if o.budget == 0 {
		o.budget = 60
		if o.tier == "thorough" {
			o.budget = 420
		}
	}
}

func run(o *runOpts) int {
	c := checks[o.id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", o.id)
		return 2
	}
	o.defaults()
	start := time.Now()
	ev := newEvidence(o)
	if c.Special != nil {
		return c.Special(o)
	}
	if c.Real {
		old, _ := filepath.Glob(filepath.Join(o.build, "real*"))
		for _, d := range old {
			os.RemoveAll(d)
		}
		if err := buildReal(o); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	dir, err := os.MkdirTemp(o.build, "w")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	type proc struct {
		cmd *exec.Cmd
		out string
		err error
	}
	var procs []*proc
	done := make(chan *proc, o.workers)
	for i := 0; i < o.workers; i++ {
		out := filepath.Join(dir, strconv.Itoa(i))
		cmd := exec.Command(os.Args[0], "worker", "-id", o.id, "-tier", o.tier, "-seed", strconv.Itoa(o.seed),
			"-verif", o.verif, "-repo", o.repo, "-build", o.build, "-budget", fmt.Sprint(o.budget), "-workers", strconv.Itoa(o.workers),
			"-phase", o.phase, "-shard", strconv.Itoa(i), "-out", out)
		ef, _ := os.Create(out + ".err")
		cmd.Stderr = ef
		cmd.Stdout = ef
		p := &proc{cmd: cmd, out: out}
		procs = append(procs, p)
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func() { p.err = cmd.Wait(); done <- p }()
	}
	harness := ""
	slow := 0
	var viols []Violation
	limit := time.After(time.Duration(o.budget*float64(time.Second)) + 240*time.Second)
	for range procs {
		select {
		case p := <-done:
			if p.err == nil {
				continue
			}
			code := p.cmd.ProcessState.ExitCode()
			se, _ := os.ReadFile(p.out + ".err")
			if code == 2 && len(se) > 0 && !isRuntimeCrash(se) {
				harness = string(se)
				continue
			}
			// the worker died inside an execution: that execution is the suspect
			pi, prefix, ok := readPersisted(p.out + ".cur")
			if !ok {
				harness = fmt.Sprintf("worker ended with %v\n%s", p.err, tail(se, 2000))
				continue
			}
			msg := "the process dies: " + firstLine(se)
			if code == hangExit {
				msg = "the execution does not end (no end within many seconds of processor time)"
			}
			if len(viols) > 0 {
				continue // one confirmed suspect is enough
			}
			v := Violation{Property: o.id, Phase: c.Phases[pi].Name, Message: msg, Choices: prefix}
			if confirmDeath(o, &v) {
				viols = append(viols, v)
			} else if code == hangExit {
				slow++ // it ends when it has the machine for itself; what this worker had left is not covered
			} else {
				harness = fmt.Sprintf("worker ended with %v, not reproduced\n%s", p.err, tail(se, 2000))
			}
		case <-limit:
			for _, p := range procs {
				p.cmd.Process.Kill()
			}
			harness = "workers did not finish in time"
		}
		if harness != "" && len(viols) == 0 && harness == "workers did not finish in time" {
			break
		}
	}
	states := map[uint64]struct{}{}
	agg := map[string]*PhaseResult{}
	var order []string
	known := loadKnown(filepath.Join(o.verif, "known_findings.json"))
	unstable := 0
	for _, p := range procs {
		b, err := os.ReadFile(p.out)
		if err != nil {
			continue
		}
		var wo workerOut
		if json.Unmarshal(b, &wo) != nil {
			continue
		}
		unstable += wo.Unstable
		for _, r := range wo.Results {
			a := agg[r.Name]
			if a == nil {
				a = &PhaseResult{Name: r.Name, Complete: true}
				agg[r.Name] = a
				order = append(order, r.Name)
			}
			a.Executions += r.Executions
			a.Transitions += r.Transitions
			a.Complete = a.Complete && r.Complete
			if r.MaxChoices > a.MaxChoices {
				a.MaxChoices = r.MaxChoices
			}
			if r.WallS > a.WallS {
				a.WallS = r.WallS
			}
		}
		viols = append(viols, wo.Violations...)
		ev.samples = append(ev.samples, wo.Samples...)
		for _, h := range wo.KnownHits {
			known.hit[h] = true
		}
		sb, _ := os.ReadFile(p.out + ".states")
		for i := 0; i+8 <= len(sb); i += 8 {
			states[binary.LittleEndian.Uint64(sb[i:])] = struct{}{}
		}
		if se, _ := os.ReadFile(p.out + ".err"); len(se) > 0 {
			os.Stderr.Write(tail(se, 1500))
		}
	}
	ev.states = len(states)
	for _, n := range order {
		if slow > 0 {
			agg[n].Complete = false
		}
		ev.phases = append(ev.phases, *agg[n])
	}
	if slow > 0 {
		ev.extra["workers_given_up_on_a_slow_execution"] = slow
		fmt.Printf("%s: %d workers gave up on an execution that was slow but ends\n", o.id, slow)
	}
	ev.unstable = unstable
	ev.wall = time.Since(start).Seconds()
	ev.violations = len(viols)
	ev.write(c)
	var hits []int
	for i := range known.hit {
		hits = append(hits, i)
	}
	sort.Ints(hits)
	for _, i := range hits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.id, known.Entries[i].What)
	}
	for _, r := range ev.phases {
		fmt.Printf("%s %-28s executions=%d transitions=%d complete=%v (%.1fs)\n", o.id, r.Name, r.Executions, r.Transitions, r.Complete, r.WallS)
	}
	if len(viols) > 0 {
		reportViolations(o, viols)
		return 1
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, "harness error:", harness)
		return 2
	}
	fmt.Printf("%s held: %d states, %d transitions, %d executions\n", o.id, ev.states, ev.transitions(), ev.executions())
	return 0
}

func reportViolations(o *runOpts, viols []Violation) {
	dir := filepath.Join(o.verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	// the shortest one is the one to look at
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Trace) < len(viols[j].Trace) })
	seen := map[string]bool{}
	n := 0
	for _, v := range viols {
		sig := v.Phase + "|" + signature(v.Message)
		if seen[sig] || n >= 5 {
			continue
		}
		seen[sig] = true
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", o.id, o.tier, n))
		b, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		n++
		fmt.Printf("  %s: %s\n", v.Phase, v.Message)
		for _, t := range v.Trace {
			if len(t) > 300 {
				t = t[:300] + "..."
			}
			fmt.Printf("      %s\n", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.id, path)
	}
}

func isRuntimeCrash(b []byte) bool {
	s := string(b)
	return contains(s, "fatal error:") || contains(s, "runtime:") || contains(s, "goroutine ")
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func firstLine(b []byte) string {
	s := string(b)
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	return s
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

// confirmDeath re-runs an execution that ended or hung its process in processes of its own.
func confirmDeath(o *runOpts, v *Violation) bool {
	f, err := os.CreateTemp(o.build, "rp")
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(v)
	f.Write(b)
	f.Close()
	hits, i := 0, 0
	for ; i < 2 && hits == 0; i++ {
		cmd := exec.Command(os.Args[0], "replay", "-verif", o.verif, "-build", o.build, f.Name())
		if err := cmd.Run(); err != nil && cmd.ProcessState.ExitCode() != 0 {
			hits++
		}
	}
	v.Repro = fmt.Sprintf("%d of %d re-runs", hits, i)
	return hits > 0
}

func replay(path string, o *runOpts) int {
	limitMemory()
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[v.Property]
	if c == nil {
		return 2
	}
	if o.build == "" {
		o.build = filepath.Dir(os.Args[0])
	}
	curOpts = o
	if _, err := os.Stat(realBin()); err != nil && c.Real {
		if err := buildReal(o); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for i := range c.Phases {
		p := &c.Phases[i]
		if p.Name != v.Phase {
			continue
		}
		ctx := &Ctx{prefix: v.Choices, tracing: true}
		e := &Engine{states: map[uint64]struct{}{}}
		go e.watchdog()
		e.exec.Add(1)
		msg, _ := runOne(ctx, p)
		for _, f := range o.atEnd {
			f()
		}
		for _, t := range ctx.trace {
			fmt.Println("  ", t)
		}
		if msg != "" {
			fmt.Println("violated:", msg)
			return 1
		}
		fmt.Println("held")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such phase", v.Phase)
	return 2
}

var curEngine *Engine

type evidence struct {
	o          *runOpts
	phases     []PhaseResult
	states     int
	samples    []string
	wall       float64
	violations int
	unstable   int
	extra      map[string]any
}

func newEvidence(o *runOpts) *evidence { return &evidence{o: o, extra: map[string]any{}} }

func (e *evidence) transitions() (n int64) {
	for _, p := range e.phases {
		n += p.Transitions
	}
	return
}
func (e *evidence) executions() (n int64) {
	for _, p := range e.phases {
		n += p.Executions
	}
	return
}

func (e *evidence) write(c *Check) {
	complete := true
	for _, p := range e.phases {
		complete = complete && p.Complete
	}
	s := e.samples
	if len(s) > 6 {
		s = s[:6]
	}
	if s == nil {
		s = []string{}
	}
	cov := map[string]any{
		"states":                        e.states,
		"transitions":                   e.transitions(),
		"traces_validated_against_impl": e.executions(),
		"executions":                    e.executions(),
		"samples":                       s,
		"exhaustive":                    complete,
		"phases":                        e.phases,
		"explanation":                   c.Explanation,
	}
	delete(cov, "executions") // the same count as the traces: every trace is run on the implementation itself
	if e.unstable > 0 {
		cov["unstable"] = e.unstable
	}
	for k, v := range e.extra {
		cov[k] = v
	}
	doc := map[string]any{
		"property": e.o.id, "tier": e.o.tier, "seed": e.o.seed, "level": "model_checking",
		"coverage": cov, "wall_s": e.wall, "violations": e.violations,
	}
	if len(c.Assumptions) > 0 {
		doc["assumptions"] = c.Assumptions
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	_ = os.MkdirAll(filepath.Join(e.o.verif, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(e.o.verif, "evidence", e.o.id+".json"), append(b, '\n'), 0o644)
}
