package props

import (
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type crashStep struct {
	Op    string               `json:"op"`              // install, plan, add, remove, clean
	At    int                  `json:"at"`              // the change to a file before which pkgr is killed; 0: not killed
	InLib bool                 `json:"inlib,omitempty"` // counting only those in the library
	Torn  bool                 `json:"torn,omitempty"`
	Fail  map[string][]w.Fault `json:"fail,omitempty"` // R fails meanwhile
	Fresh bool                 `json:"fresh,omitempty"`
}

type crashCase struct {
	W     *w.World    `json:"w"`
	Steps []crashStep `json:"steps"`
}

// crashPoint draws the number of the change before which pkgr is killed.
func crashPoint(t *rapid.T, n int) int {
	switch gen.U(t, 4) {
	case 0:
		return gen.R(t, 1, 12)
	case 1:
		return gen.R(t, 1, 60)
	}
	return gen.R(t, 1, 30+20*n)
}

func init() {
	prop("C27", "a case is a world and one to three commands of pkgr, each killed before or in the middle of one of its changes to the file system (some while R fails and the library is being restored), followed by undisturbed runs; non-trivial: pkgr was killed after it had begun to change files",
		600, 12000,
		func(t *rapid.T) *crashCase {
			o := gen.Default()
			o.MaxPkgs, o.MaxRepos, o.Delays, o.Pre, o.ForeignOld, o.Tarballs, o.NoUpdate, o.Stray, o.Roots = 6, 2, 0, 80, 70, 30, 10, 15, 60
			wd := gen.World(t, o)
			wd.Cfg.Threads = gen.R(t, 1, 3)
			c := &crashCase{W: wd}
			n := len(w.NewModel(wd).Plan().All) + len(wd.Tarballs)
			for i, k := 0, gen.R(t, 1, 3); i < k; i++ {
				s := crashStep{Op: "install", At: crashPoint(t, n), Torn: gen.Chance(t, 50), Fresh: gen.Chance(t, 20)}
				switch gen.U(t, 12) {
				case 9:
					s.Op = "plan"
				case 10:
					s.Op = gen.Pick(t, "add", "remove")
					s.At = gen.R(t, 1, 6)
				case 11:
					s.Op = "clean"
				}
				if s.Op == "install" && gen.Chance(t, 50) {
					s.InLib, s.At = true, gen.R(t, 1, 3+8*n)
				}
				if s.Op == "install" && gen.Chance(t, 40) {
					x := clone(wd)
					installFaults(t, x, 2)
					s.Fail = x.Faults
					for _, fs := range s.Fail {
						for i := range fs {
							if fs[i].Mode == "partial" {
								// R cleans up after itself
								fs[i].Mode = "exit"
							}
						}
					}
					if gen.Chance(t, 30) {
						s.At = 0
					}
				}
				if s.Op == "install" && gen.Chance(t, 30) {
					// killed while R is at work
					pl := w.NewModel(wd).Plan()
					var cands []string
					for _, n := range append(append([]string{}, pl.New...), pl.Update...) {
						if sel := pl.All[n]; !sel.Bin {
							cands = append(cands, n+" build")
						}
						cands = append(cands, n+" final")
					}
					for _, p := range wd.Tarballs {
						cands = append(cands, p.N+" tarball")
					}
					if len(cands) > 0 {
						n, stage, _ := strings.Cut(cands[gen.U(t, len(cands))], " ")
						mode := gen.Pick(t, "kill-before", "kill-mid", "kill-after")
						if mode == "kill-mid" && stage == "final" && !set(pl.Update)[n] {
							// what R leaves of a new package it could not finish is not for pkgr to know
							mode = "kill-before"
						}
						s.Fail = map[string][]w.Fault{n: {{Stage: stage, Mode: mode}}}
						if gen.Chance(t, 60) {
							s.At = 0
						}
					}
				}
				c.Steps = append(c.Steps, s)
			}
			if gen.Chance(t, 40) {
				// and an installation that fails and is rolled back
				x := clone(wd)
				installFaults(t, x, 2)
				for _, fs := range x.Faults {
					for i := range fs {
						if fs[i].Mode == "partial" {
							fs[i].Mode = "exit"
						}
					}
				}
				c.Steps = append(c.Steps, crashStep{Op: "install", Fail: x.Faults})
			}
			return c
		}, runCrash)
}

func runCrash(env *w.Env, c *crashCase) h.Result {
	wd := clone(c.W)
	b := wd.Build(env)
	defer b.Close()
	pl := w.NewModel(wd).Plan()
	before := w.Snap(b.Lib)
	config := w.ReadFile(filepath.Join(b.Proj, "pkgr.yml"))
	repos := w.Snap(filepath.Join(b.Dir, "repos"))
	var hits []string
	nt := false
	touched := set(append(append([]string{}, pl.New...), pl.Update...))
	for _, t := range wd.Tarballs {
		touched[t.N] = true
	}
	for i, s := range c.Steps {
		wd.Faults = s.Fail
		b.WriteCtl()
		opt := w.RunOpt{Crash: s.At, Torn: s.Torn}
		if s.Fresh {
			opt.Env = []string{NoAge}
		}
		if s.InLib {
			opt.Below = b.Lib
		}
		args := []string{s.Op}
		changed := ""
		switch s.Op {
		case "add":
			args = []string{"add", "notyet"}
			changed = "notyet"
		case "remove":
			if len(wd.Cfg.Pkgs) == 0 {
				continue
			}
			args = []string{"remove", wd.Cfg.Pkgs[0]}
			changed = wd.Cfg.Pkgs[0]
		case "clean":
			args = []string{"clean", "--all"}
		}
		r := b.Run(opt, args...)
		if r.Deadlock || r.Panic && s.At == 0 {
			return viol("step %d: %s", i, r.Brief())
		}
		if r.Hit != "" {
			hits = append(hits, sprintf("%s #%d before %q", s.Op, s.At, r.Hit))
			nt = nt || r.Changes > 1 || s.InLib
		}
		where := sprintf("after step %d (%s)", i, strings.Join(hits, ", "))
		if changed != "" {
			// the configuration is the old one or the new one
			got := w.ReadFile(filepath.Join(b.Proj, "pkgr.yml"))
			if got != config {
				if s.At != 0 {
					// what an undisturbed run makes of it
					putFile(filepath.Join(b.Proj, "pkgr.yml"), config)
					if r := b.Run(w.RunOpt{}, args...); r.Exit != 0 {
						return viol("%s: %s failed: %s", where, s.Op, r.Brief())
					}
					if want := w.ReadFile(filepath.Join(b.Proj, "pkgr.yml")); got != want {
						return viol("%s: the configuration is damaged: %q", where, got)
					}
				}
				putFile(filepath.Join(b.Proj, "pkgr.yml"), config)
			}
			continue
		}
		if d := w.Diff(repos, w.Snap(filepath.Join(b.Dir, "repos"))); d != "" {
			return viol("%s: a repository was changed: %s", where, d)
		}
		if got := w.ReadFile(filepath.Join(b.Proj, "pkgr.yml")); got != config {
			return viol("%s: the configuration was changed: %q", where, got)
		}
		after := w.Snap(b.Lib)
		for _, n := range before.Tops() {
			if !touched[n] {
				if d := w.Diff(before.Sub(n), after.Sub(n)); d != "" {
					return viol("%s: %s is not concerned but changed: %s", where, n, d)
				}
			}
		}
		if r.Signal == "killed" && r.Hit == "" {
			hits = append(hits, "install during "+killedIn(r))
			nt = true
			where = sprintf("after step %d (%s)", i, strings.Join(hits, ", "))
		} else if s.Op == "install" && s.At == 0 {
			// this run ended by itself, with or without rolling back: no
			// package that was there may be missing or damaged
			for _, in := range wd.Lib {
				if in.NoDesc {
					continue
				}
				if m := intact(b, pl, wd, in, before, after); m != "" {
					return viol("%s, and another installation: %s\n%s", where, m, r.Brief())
				}
			}
			if x := scratchDirs(after); len(x) > 0 {
				return viol("%s, and another installation: %v left in the library", where, x)
			}
		}
	}
	wd.Faults = nil
	b.WriteCtl()
	where := sprintf("after %s", strings.Join(hits, ", "))
	r := b.Run(w.RunOpt{}, "install")
	if r.Exit != 0 || r.Deadlock {
		return viol("%s: installing failed: %s", where, r.Brief())
	}
	if m := checkSuccess(b, pl, before, w.Snap(b.Lib)); m != "" {
		return viol("%s: %s\n%s", where, m, r.Brief())
	}
	if m, _ := checkCache(b); m != "" {
		return viol("%s: %s", where, m)
	}
	return h.Result{Nontrivial: nt}
}

// killedIn names the R process that killed pkgr.
func killedIn(r *w.RunRes) string {
	for i := len(r.Events) - 1; i >= 0; i-- {
		if e := r.Events[i]; e.Ev == "killed" {
			return e.Stage + " of " + e.Pkg
		}
	}
	return "R"
}

// intact tells what is wrong with a package that was installed beforehand: it
// must be there as it was, or as planned.
func intact(b *w.Box, pl *w.Plan, wd *w.World, in w.Inst, before, after w.Tree) string {
	if w.Diff(before.Sub(in.N), after.Sub(in.N)) == "" {
		return ""
	}
	p := payload(b.Lib, in.N)
	if s, ok := pl.All[in.N]; ok && p == s.Payload() && instVersion(b.Lib, in.N) == s.Pkg.V {
		return ""
	}
	for _, t := range wd.Tarballs {
		if t.N == in.N && p == w.Payload("tarball", false, t) && instVersion(b.Lib, in.N) == t.V {
			return ""
		}
	}
	return sprintf("%s is neither as it was nor as planned: %s", in.N, w.Diff(before.Sub(in.N), after.Sub(in.N)))
}
