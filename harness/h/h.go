// Package h drives generated-input search: a property owns a generator and a
// judge; the driver spreads cases over shard processes, shrinks failures with
// rapid, replays saved cases, and writes the evidence.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"pkgrverif/w"
)

// Result of judging one case.
type Result struct {
	Viol       string   // "" when the property held
	Nontrivial bool     // by the property's rule
	Classes    []string // what the case exercised
	Skip       bool     // the case did not apply (generator produced something outside the quantifier)
}

// Prop is one executable property.
type Prop struct {
	ID            string
	Rule          string // when a case counts as non-trivial
	Level         string
	Gen           func(t *rapid.T) interface{}
	New           func() interface{}
	Run           func(env *w.Env, c interface{}) Result
	Quick         int // cases over all shards
	Thorough      int
	Assumptions   []string
	Setup         func()
	Deterministic bool
}

var props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { props[p.ID] = p }

// Failure is a saved failing case.
type Failure struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type shardOut struct {
	Evals    int               `json:"evals"`
	Skipped  int               `json:"skipped"`
	Hashes   []uint64          `json:"hashes"`
	Samples  []json.RawMessage `json:"samples"`
	Classes  map[string]int    `json:"classes"`
	Fail     *Failure          `json:"fail,omitempty"`
	Known    []string          `json:"known,omitempty"`
	Harness  string            `json:"harness,omitempty"`
	TimedOut bool              `json:"timedout,omitempty"`
}

type tb struct {
	failed bool
	msg    string
}

func (t *tb) Helper()                      {}
func (t *tb) Name() string                 { return "check" }
func (t *tb) Logf(string, ...interface{})  {}
func (t *tb) Log(...interface{})           {}
func (t *tb) Skipf(string, ...interface{}) {}
func (t *tb) Skip(...interface{})          {}
func (t *tb) SkipNow()                     {}
func (t *tb) Errorf(f string, a ...interface{}) {
	t.failed = true
	if t.msg == "" {
		t.msg = fmt.Sprintf(f, a...)
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
func (t *tb) Error(a ...interface{})            { t.failed = true }
func (t *tb) Fatalf(f string, a ...interface{}) { t.failed = true }
func (t *tb) Fatal(a ...interface{})            { t.failed = true }
func (t *tb) FailNow()                          { t.failed = true }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }

func newEnv() *w.Env {
	e := &w.Env{Pkgr: os.Getenv("VERIF_PKGR"), FakeR: os.Getenv("VERIF_FAKER"), Scratch: os.Getenv("VERIF_SCRATCH"), CrashAt: os.Getenv("VERIF_CRASHAT")}
	if e.Pkgr == "" || e.FakeR == "" || e.Scratch == "" {
		fmt.Println("VERIF_PKGR, VERIF_FAKER and VERIF_SCRATCH must be set (use check.sh)")
		os.Exit(2)
	}
	d, err := os.MkdirTemp(e.Scratch, "sh")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.Scratch = d
	return e
}

// judge runs one case, retrying when the harness itself had trouble.
func judge(p *Prop, env *w.Env, c interface{}) (r Result, herr string) {
	for try := 0; try < 3; try++ {
		herr = ""
		func() {
			defer func() {
				if x := recover(); x != nil {
					if he, ok := x.(w.HarnessError); ok {
						herr = he.Error()
						return
					}
					panic(x)
				}
			}()
			// run on a private copy: judges may not leak changes into the case
			b, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			cc := p.New()
			if err := json.Unmarshal(b, cc); err != nil {
				panic(err)
			}
			r = p.Run(env, cc)
		}()
		if herr == "" {
			return r, ""
		}
		time.Sleep(time.Duration(500*(try+1)) * time.Millisecond)
	}
	return r, herr
}

func hashOf(b []byte) uint64 {
	f := fnv.New64a()
	_, _ = f.Write(b)
	return f.Sum64()
}

func runShard(p *Prop, seed uint64, n int, limit time.Duration, out string) {
	if p.Setup != nil {
		p.Setup()
	}
	env := newEnv()
	so := shardOut{Classes: map[string]int{}}
	seen := map[uint64]bool{}
	start := time.Now()
	var best []byte
	var bestMsg string
	failing := false
	note := func(c interface{}, b []byte) Result {
		r, herr := judge(p, env, c)
		if herr != "" {
			so.Harness = herr
			return Result{Skip: true}
		}
		if !failing {
			so.Evals++
			if r.Skip {
				so.Skipped++
			}
			for _, k := range r.Classes {
				so.Classes[k]++
			}
			if r.Nontrivial {
				h := hashOf(b)
				if !seen[h] {
					seen[h] = true
					so.Hashes = append(so.Hashes, h)
					if len(so.Samples) < 2 && len(b) < 6000 {
						so.Samples = append(so.Samples, b)
					}
				}
			}
		}
		return r
	}
	save := func() {
		if best != nil {
			so.Fail = &Failure{Property: p.ID, Message: bestMsg, Case: best}
		}
		j, _ := json.Marshal(so)
		if err := os.WriteFile(out+".new", j, 0644); err == nil {
			err = os.Rename(out+".new", out)
			if err == nil {
				return
			}
		}
		os.Exit(2)
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", os.Getenv("VERIF_SHRINK"))
	t := &tb{}
	rapid.Check(t, func(rt *rapid.T) {
		if so.Harness != "" {
			return
		}
		if !failing && time.Since(start) > limit {
			so.TimedOut = true
			return
		}
		c := p.Gen(rt)
		b, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		r := note(c, b)
		if r.Viol != "" {
			failing = true
			if best == nil || len(b) <= len(best) {
				best, bestMsg = b, r.Viol
				save() // should shrinking take too long, this is what counts
			}
			rt.Fatalf("%s", r.Viol)
		}
	})
	if best == nil && t.failed && so.Harness == "" {
		so.Harness = "rapid failed without a violation (generator trouble): " + t.msg
	}
	save()
}

func seedOf() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

func check(p *Prop, root string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	total, limit, shrink := p.Quick, 240*time.Second, "25s"
	if tier == "thorough" {
		total, limit, shrink = p.Thorough, 40*time.Minute, "120s"
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	shards := 8
	if runtime.NumCPU() < 8 {
		shards = runtime.NumCPU()
	}
	if s := os.Getenv("VERIF_SHARDS"); s != "" {
		shards, _ = strconv.Atoi(s)
	}
	if total < shards {
		shards = total
	}
	seed := seedOf()
	self, _ := os.Executable()
	scratch := os.Getenv("VERIF_SCRATCH")

	// saved cases first: they are inputs like any other, kept because they
	// once failed or cover a corner the generator reaches rarely
	var fail *Failure
	corpus, _ := filepath.Glob(filepath.Join(root, "corpus", p.ID, "*.json"))
	sort.Strings(corpus)
	ncorpus := 0
	known := loadKnown(root, p.ID)
	if len(corpus) > 0 {
		if p.Setup != nil {
			p.Setup()
		}
		env := newEnv()
		for _, f := range corpus {
			fl, err := readFailure(f)
			if err != nil {
				fmt.Println("corpus:", err)
				return 2
			}
			c := p.New()
			if err := json.Unmarshal(fl.Case, c); err != nil {
				fmt.Println("corpus:", f, err)
				return 2
			}
			r, herr := judge(p, env, c)
			if herr != "" {
				fmt.Println("harness trouble:", herr)
				return 2
			}
			ncorpus++
			if r.Viol != "" && fail == nil {
				fail = &Failure{Property: p.ID, Message: r.Viol, Case: fl.Case}
			}
		}
	}
	var outs []shardOut
	if fail == nil {
		type job struct {
			cmd *exec.Cmd
			out string
		}
		var jobs []job
		for i := 0; i < shards; i++ {
			n := total / shards
			if i < total%shards {
				n++
			}
			out := filepath.Join(scratch, fmt.Sprintf("shard%d.json", i))
			s := seed*1000003 + uint64(i)*7919 + 17
			cmd := exec.Command(self, "shard", p.ID, strconv.FormatUint(s, 10), strconv.Itoa(n), limit.String(), out)
			cmd.Env = append(os.Environ(), "VERIF_SHRINK="+shrink)
			cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			if err := cmd.Start(); err != nil {
				fmt.Println("cannot start shard:", err)
				return 2
			}
			jobs = append(jobs, job{cmd, out})
		}
		// a shard writes its result when it ends, and before that as soon as it has
		// found a violation: then all of them get the time to shrink, and no more
		quit := make(chan struct{})
		go func() {
			end := time.Now().Add(limit + 3*time.Minute)
			found := false
			for {
				select {
				case <-quit:
					return
				case <-time.After(500 * time.Millisecond):
				}
				for _, j := range jobs {
					if found {
						break
					}
					var so shardOut
					if b, err := os.ReadFile(j.out); err == nil && json.Unmarshal(b, &so) == nil && so.Fail != nil {
						found = true
						d, _ := time.ParseDuration(shrink)
						if e := time.Now().Add(d + 45*time.Second); e.Before(end) {
							end = e
						}
					}
				}
				if time.Now().After(end) {
					for _, j := range jobs {
						_ = j.cmd.Process.Kill()
					}
					return
				}
			}
		}()
		defer close(quit)
		bad := ""
		for _, j := range jobs {
			err := j.cmd.Wait()
			b, rerr := os.ReadFile(j.out)
			var so shardOut
			if rerr != nil || json.Unmarshal(b, &so) != nil {
				bad = fmt.Sprintf("shard gave no result: %v", err)
				continue
			}
			outs = append(outs, so)
		}
		for _, so := range outs {
			if so.Fail != nil && (fail == nil || len(so.Fail.Case) < len(fail.Case)) {
				fail = so.Fail
			}
			if so.Harness != "" && bad == "" {
				bad = so.Harness
			}
		}
		if fail == nil && bad != "" {
			fmt.Println("harness trouble:", bad)
			return 2
		}
	}
	// evidence
	evals, skipped := ncorpus, 0
	hs := map[uint64]bool{}
	var samples []json.RawMessage
	classes := map[string]int{}
	timedOut := false
	for _, so := range outs {
		evals += so.Evals
		skipped += so.Skipped
		for _, x := range so.Hashes {
			hs[x] = true
		}
		if len(so.Samples) > 0 && len(samples) < 4 {
			samples = append(samples, so.Samples[0])
		}
		for k, v := range so.Classes {
			classes[k] += v
		}
		timedOut = timedOut || so.TimedOut
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": level(p),
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(hs), "rule": p.Rule, "samples": toAny(samples),
			"classes": classes, "outside_quantifier": skipped, "corpus_cases": ncorpus, "time_limit_reached": timedOut,
		},
		"wall_s":      time.Since(t0).Seconds(),
		"assumptions": append([]string{}, p.Assumptions...),
	}
	code := 0
	var viols []interface{}
	if fail != nil {
		rd := filepath.Join(root, "replays")
		_ = os.MkdirAll(rd, 0755)
		rp := filepath.Join(rd, fmt.Sprintf("%s-%016x.json", p.ID, hashOf(fail.Case)))
		b, _ := json.MarshalIndent(fail, "", " ")
		_ = os.WriteFile(rp, b, 0644)
		fmt.Println(fail.Message)
		if k := matchKnown(known, fail); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
		} else {
			rel, err := filepath.Rel(root, rp)
			if err != nil {
				rel = rp
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rel)
			viols = append(viols, map[string]interface{}{"message": fail.Message, "replay": rel})
			code = 1
		}
	}
	if viols != nil {
		ev["violations"] = len(viols)
		ev["violation_details"] = viols
	} else {
		ev["violations"] = 0
	}
	ed := filepath.Join(root, "evidence")
	_ = os.MkdirAll(ed, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(ed, p.ID+".json"), b, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	var cl []string
	for k, v := range classes {
		cl = append(cl, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cl)
	fmt.Printf("property=%s tier=%s seed=%d evaluations=%d nontrivial=%d skipped=%d wall=%.1fs\n  classes: %s\n", p.ID, tier, seed, evals, len(hs), skipped, time.Since(t0).Seconds(), strings.Join(cl, " "))
	for _, k := range known {
		if code == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
		}
	}
	return code
}

func level(p *Prop) string {
	if p.Level == "" {
		return "exploration"
	}
	return p.Level
}

func toAny(r []json.RawMessage) []interface{} {
	out := []interface{}{}
	for _, x := range r {
		var v interface{}
		_ = json.Unmarshal(x, &v)
		out = append(out, v)
	}
	return out
}

type knownFinding struct{ text string }

// loadKnown reads /verif/known-findings.txt: lines "known: property=<id> <text>".
func loadKnown(root, id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " "
		if strings.HasPrefix(l, pre) {
			out = append(out, knownFinding{strings.TrimPrefix(l, pre)})
		}
	}
	return out
}

func matchKnown(known []knownFinding, f *Failure) string { return "" }

func readFailure(p string) (*Failure, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, fmt.Errorf("%s: %v", p, err)
	}
	return &f, nil
}

// Main is the entry point.
func Main() {
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	usage := func() {
		fmt.Println("usage: vh check ID | shard ... | replay FILE | list | gen ID SEED N")
		os.Exit(2)
	}
	a := os.Args[1:]
	if len(a) == 0 {
		usage()
	}
	get := func(id string) *Prop {
		p := props[id]
		if p == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		return p
	}
	switch a[0] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "check":
		os.Exit(check(get(a[1]), root))
	case "shard":
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		n, _ := strconv.Atoi(a[3])
		lim, _ := time.ParseDuration(a[4])
		runShard(get(a[1]), seed, n, lim, a[5])
	case "gen":
		p := get(a[1])
		seed, _ := strconv.Atoi(a[2])
		n, _ := strconv.Atoi(a[3])
		g := rapid.Custom(func(t *rapid.T) interface{} { return p.Gen(t) })
		for i := 0; i < n; i++ {
			b, _ := json.Marshal(g.Example(seed + i))
			fmt.Println(string(b))
		}
	case "replay":
		f, err := readFailure(a[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p := get(f.Property)
		if p.Setup != nil {
			p.Setup()
		}
		n := 1
		if len(a) > 2 {
			n, _ = strconv.Atoi(a[2])
		}
		for i := 0; i < n; i++ {
			c := p.New()
			if err := json.Unmarshal(f.Case, c); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			r, herr := judge(p, newEnv(), c)
			if herr != "" {
				fmt.Println("harness trouble:", herr)
				os.Exit(2)
			}
			if r.Viol != "" {
				fmt.Println(r.Viol)
				fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, a[1])
				os.Exit(1)
			}
		}
		fmt.Println("held")
	default:
		usage()
	}
}
