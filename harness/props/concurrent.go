package props

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// concRun is one of the commands that run at the same time, each for a project
// of its own.
type concRun struct {
	Cmd   string               `json:"cmd"`
	Pkgs  []string             `json:"pkgs"`
	Tar   int                  `json:"tar,omitempty"`   // number of local archives, the same for all
	Start int                  `json:"start,omitempty"` // ms
	Kill  int                  `json:"kill,omitempty"`  // ms
	Fault map[string][]w.Fault `json:"fault,omitempty"`
	Lib   []w.Inst             `json:"lib,omitempty"`
}

type concCase struct {
	W    *w.World  `json:"w"`
	Warm string    `json:"warm,omitempty"` // what was cached by an earlier command: "", plan, install, expired
	Runs []concRun `json:"runs"`
}

func init() {
	prop("C35", "a case is two to four commands (install, plan, inspect) run at the same time for projects of their own that share repositories, caches and local archives, some of them failing or killed, then an installation of everything into a fresh project; non-trivial: at least two installations overlapped in time and had packages in common",
		220, 5000,
		func(t *rapid.T) *concCase {
			o := gen.Default()
			o.HTTP, o.Bin, o.MaxPkgs, o.MinPkgs, o.MaxRepos, o.Pre, o.Tarballs, o.Descs, o.NoLib, o.Stray, o.NoRec = 80, 30, 7, 2, 3, 0, 50, 0, 50, 0, 0
			wd := gen.World(t, o)
			wd.NoLib, wd.Lib, wd.Faults = true, nil, nil
			wd.Cfg.NoRollback, wd.Cfg.Strict, wd.Cfg.NoCache = false, false, false
			for i := range wd.Repos {
				if wd.Repos[i].HTTP && gen.Chance(t, 40) {
					wd.Repos[i].Slow = gen.R(t, 1, 15)
				}
				for k := range wd.Repos[i].Pkgs {
					if gen.Chance(t, 15) {
						wd.Repos[i].Pkgs[k].Big = gen.R(t, 1, 40) * 5000
					}
				}
			}
			for i := range wd.Tarballs {
				if gen.Chance(t, 50) {
					wd.Tarballs[i].Big = gen.R(t, 1, 40) * 20000
				}
			}
			c := &concCase{W: wd, Warm: gen.Pick(t, "", "", "", "plan", "install", "expired")}
			pl := w.NewModel(wd).Plan()
			all := sorted(keysOf(pl.All))
			for i, n := 0, gen.R(t, 2, 4); i < n; i++ {
				r := concRun{Cmd: gen.Pick(t, "install", "install", "install", "install", "plan", "inspect"), Pkgs: wd.Cfg.Pkgs, Tar: len(wd.Tarballs)}
				if gen.Chance(t, 40) {
					if x := gen.Subset(t, all, 60); len(x) > 0 {
						r.Pkgs = x
					}
				}
				if gen.Chance(t, 35) {
					r.Start = gen.R(t, 1, 40)
				}
				if gen.Chance(t, 20) && i > 0 {
					r.Kill = gen.R(t, 1, 120)
				} else if gen.Chance(t, 15) && len(all) > 0 {
					r.Fault = map[string][]w.Fault{all[gen.U(t, len(all))]: {{Stage: "any", Mode: "exit", Code: 1}}}
				}
				c.Runs = append(c.Runs, r)
			}
			return c
		}, runConcurrent)
}

func runConcurrent(env *w.Env, c *concCase) h.Result {
	first := clone(c.W)
	b := first.Build(env)
	defer b.Close()
	switch c.Warm {
	case "plan", "expired":
		if r := b.Run(w.RunOpt{}, "plan"); r.Exit != 0 {
			return viol("plan of a satisfiable configuration failed: %s", r.Brief())
		}
		if c.Warm == "expired" {
			tm := time.Now().Add(-2 * time.Hour)
			for _, f := range dbFiles(b) {
				_ = os.Chtimes(f, tm, tm)
			}
		}
	case "install":
		if r := b.Run(w.RunOpt{}, "install"); r.Exit != 0 {
			return viol("installation of a satisfiable configuration failed: %s", r.Brief())
		}
	}
	// project makes a project that shares repositories and caches
	project := func(x concRun) *w.Box {
		wd := clone(c.W)
		wd.Cfg.Pkgs, wd.Faults = x.Pkgs, x.Fault
		wd.Tarballs = wd.Tarballs[:x.Tar]
		for i := range wd.Repos {
			wd.Repos[i].HTTP = false
		}
		p := wd.Build(env)
		p.CacheDir, p.XDG, p.Tmp, p.URLs = b.CacheDir, b.XDG, b.Tmp, b.URLs
		p.WriteConfig()
		return p
	}
	boxes := make([]*w.Box, len(c.Runs))
	res := make([]*w.RunRes, len(c.Runs))
	began, ended := make([]time.Time, len(c.Runs)), make([]time.Time, len(c.Runs))
	before := make([]w.Tree, len(c.Runs))
	for i, x := range c.Runs {
		boxes[i] = project(x)
		defer boxes[i].Close()
		before[i] = w.Snap(boxes[i].Lib)
	}
	var wg sync.WaitGroup
	var trouble interface{}
	var mu sync.Mutex
	for i := range c.Runs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					trouble = e
					mu.Unlock()
				}
			}()
			x := c.Runs[i]
			time.Sleep(time.Duration(x.Start) * time.Millisecond)
			args := []string{x.Cmd}
			if x.Cmd == "inspect" {
				args = append(args, "--deps", "--json")
			}
			began[i] = time.Now()
			res[i] = boxes[i].Run(w.RunOpt{Kill: x.Kill}, args...)
			ended[i] = time.Now()
		}(i)
	}
	wg.Wait()
	if trouble != nil {
		panic(trouble)
	}
	out := h.Result{}
	seen := map[string]bool{"warm-" + c.Warm: true}
	judge := func(i int, p *w.Box, x concRun, r *w.RunRes, before w.Tree) string {
		if x.Kill > 0 && r.Signal != "" {
			seen["killed"] = true
			return ""
		}
		if m := crashed(r); m != "" {
			return sprintf("command %d (%s): %s", i, x.Cmd, m)
		}
		pl := w.NewModel(p.W).Plan()
		fails := false
		for n := range x.Fault {
			fails = fails || pl.All[n].Pkg.N == n
			for _, t := range p.W.Tarballs {
				fails = fails || t.N == n
			}
		}
		after := w.Snap(p.Lib)
		if fails && x.Cmd == "install" {
			seen["failed"] = true
			if d := w.Diff(before, after); d != "" {
				return sprintf("command %d: a package could not be installed, but the library did not come back to what it was: %s\n%s", i, d, r.Brief())
			}
			return ""
		}
		if r.Exit != 0 {
			return sprintf("command %d (%s) failed although nothing is wrong with it: %s", i, x.Cmd, r.Brief())
		}
		if x.Cmd != "install" {
			if d := w.Diff(before, after); d != "" {
				return sprintf("command %d (%s) changed the library: %s", i, x.Cmd, d)
			}
			return ""
		}
		if m := checkSuccess(p, pl, before, after); m != "" {
			return sprintf("command %d: %s\n%s", i, m, r.Out)
		}
		if m := checkOrder(p, pl, r); m != "" {
			return sprintf("command %d: %s\n%s", i, m, r.Out)
		}
		return ""
	}
	for i, x := range c.Runs {
		if m := judge(i, boxes[i], x, res[i], before[i]); m != "" {
			return viol("%s", m)
		}
		for j := 0; j < i; j++ {
			if x.Cmd == "install" && c.Runs[j].Cmd == "install" && began[i].Before(ended[j]) && began[j].Before(ended[i]) && (len(common(x.Pkgs, c.Runs[j].Pkgs)) > 0 || x.Tar > 0) {
				out.Nontrivial = true
			}
		}
	}
	// whatever they left in the caches serves the next project well
	last := concRun{Cmd: "install", Pkgs: c.W.Cfg.Pkgs, Tar: len(c.W.Tarballs)}
	p := project(last)
	defer p.Close()
	bl := w.Snap(p.Lib)
	r := p.Run(w.RunOpt{}, "install")
	if m := judge(len(c.Runs), p, last, r, bl); m != "" {
		return viol("afterwards, in a fresh project: %s", m)
	}
	// nothing unfinished stays in the caches, unless a command was killed
	if !seen["killed"] {
		for _, d := range []string{b.CacheDir, b.XDG} {
			for f := range w.Snap(d) {
				if strings.Contains(filepath.Base(f), ".part") {
					return viol("an unfinished file stayed in the cache: %s", f)
				}
			}
		}
	}
	for k := range seen {
		out.Classes = append(out.Classes, k)
	}
	return out
}
