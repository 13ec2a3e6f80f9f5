package props

import (
	"path/filepath"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type diskStep struct {
	Op    string               `json:"op"` // install, plan, add, remove, clean
	At    int                  `json:"at"`
	How   string               `json:"how"`            // once:ERRNO, full
	Fail  map[string][]w.Fault `json:"fail,omitempty"` // R fails meanwhile
	Fresh bool                 `json:"fresh,omitempty"`
	InLib bool                 `json:"inlib,omitempty"` // At counts the changes in the library only
}

type diskCase struct {
	W     *w.World   `json:"w"`
	Steps []diskStep `json:"steps"`
}

func init() {
	prop("C36", "a case is a world and one or two commands of pkgr, in each of which one change to the file system fails (no space, I/O error, no permission, quota), or nothing can be written any more from some point on, anywhere or below some folder, followed by an undisturbed installation; non-trivial: a change failed",
		500, 14000,
		func(t *rapid.T) *diskCase {
			o := gen.Default()
			o.MaxPkgs, o.MaxRepos, o.Delays, o.Pre, o.ForeignOld, o.Tarballs, o.NoUpdate, o.Stray, o.Roots = 6, 2, 0, 80, 70, 30, 10, 15, 60
			wd := gen.World(t, o)
			wd.Cfg.Threads = gen.R(t, 1, 3)
			c := &diskCase{W: wd}
			n := len(w.NewModel(wd).Plan().All) + len(wd.Tarballs)
			for i, k := 0, gen.R(t, 1, 2); i < k; i++ {
				s := diskStep{Op: "install", At: crashPoint(t, n), Fresh: gen.Chance(t, 20)}
				s.How = gen.Pick(t, "full", "full", "once:28", "once:5", "once:13", "once:122")
				if gen.Chance(t, 20) {
					s.How = "under:" + gen.Pick(t, "lib", "cache", "xdg", "tmp", "proj")
				}
				switch gen.U(t, 12) {
				case 9:
					s.Op = "plan"
				case 10:
					s.Op = gen.Pick(t, "add", "remove")
					s.At = gen.R(t, 1, 6)
				case 11:
					s.Op = "clean"
				}
				if s.Op == "install" && gen.Chance(t, 40) {
					s.InLib, s.At = true, gen.R(t, 1, 3+6*n)
				}
				if s.Op == "install" && gen.Chance(t, 40) {
					x := clone(wd)
					installFaults(t, x, 2)
					s.Fail = x.Faults
					for _, fs := range s.Fail {
						for i := range fs {
							if fs[i].Mode == "partial" {
								// R cleans up after itself
								fs[i].Mode = "exit"
							}
						}
					}
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runDisk)
}

func runDisk(env *w.Env, c *diskCase) h.Result {
	wd := clone(c.W)
	b := wd.Build(env)
	defer b.Close()
	pl := w.NewModel(wd).Plan()
	before := w.Snap(b.Lib)
	config := w.ReadFile(filepath.Join(b.Proj, "pkgr.yml"))
	repos := w.Snap(filepath.Join(b.Dir, "repos"))
	var hits []string
	nt := false
	var cl []string
	touched := set(append(append([]string{}, pl.New...), pl.Update...))
	for _, t := range wd.Tarballs {
		touched[t.N] = true
	}
	for i, s := range c.Steps {
		wd.Faults = s.Fail
		b.WriteCtl()
		opt := w.RunOpt{Crash: s.At, Fail: s.How}
		if d, ok := strings.CutPrefix(s.How, "under:"); ok {
			opt.Fail = "under:" + map[string]string{"lib": b.Lib, "cache": b.CacheDir, "xdg": b.XDG, "tmp": b.Tmp, "proj": b.Proj}[d]
		}
		if s.InLib {
			opt.Below = b.Lib
		}
		if s.Fresh {
			opt.Env = []string{NoAge}
		}
		args := []string{s.Op}
		changed := ""
		switch s.Op {
		case "add":
			args = []string{"add", "notyet"}
			changed = "notyet"
		case "remove":
			if len(wd.Cfg.Pkgs) == 0 {
				continue
			}
			args = []string{"remove", wd.Cfg.Pkgs[0]}
			changed = wd.Cfg.Pkgs[0]
		case "clean":
			args = []string{"clean", "--all"}
		}
		r := b.Run(opt, args...)
		if r.Deadlock {
			return viol("step %d: %s", i, r.Brief())
		}
		if r.Hit != "" {
			nt = true
			cl = append(cl, "hit-"+strings.Fields(r.Hit)[0])
			hits = append(hits, sprintf("%s %s #%d at %q %q", s.Op, s.How, s.At, r.Hit, r.More))
		}
		where := sprintf("after step %d (%s)", i, strings.Join(hits, ", "))
		if r.Panic && strings.Contains(r.Err, "panic: runtime error") {
			return viol("%s: %s", where, r.Brief())
		}
		if changed != "" {
			got := w.ReadFile(filepath.Join(b.Proj, "pkgr.yml"))
			if got == config && (r.Exit == 0 && !r.Blamed()) {
				return viol("%s: %s reported success, but the configuration is unchanged", where, s.Op)
			}
			if got != config {
				putFile(filepath.Join(b.Proj, "pkgr.yml"), config)
				if r := b.Run(w.RunOpt{}, args...); r.Exit != 0 {
					return viol("%s: %s failed: %s", where, s.Op, r.Brief())
				}
				if want := w.ReadFile(filepath.Join(b.Proj, "pkgr.yml")); got != want {
					return viol("%s: the configuration is damaged: %q", where, got)
				}
				putFile(filepath.Join(b.Proj, "pkgr.yml"), config)
			}
			continue
		}
		if d := w.Diff(repos, w.Snap(filepath.Join(b.Dir, "repos"))); d != "" {
			return viol("%s: a repository was changed: %s", where, d)
		}
		if got := w.ReadFile(filepath.Join(b.Proj, "pkgr.yml")); got != config {
			return viol("%s: the configuration was changed: %q", where, got)
		}
		after := w.Snap(b.Lib)
		for _, n := range before.Tops() {
			if !touched[n] {
				if d := w.Diff(before.Sub(n), after.Sub(n)); d != "" {
					return viol("%s: %s is not concerned but changed: %s", where, n, d)
				}
			}
		}
		if s.Op == "install" && r.Exit == 0 && !r.Blamed() {
			if x := scratchDirs(after); len(x) > 0 {
				// a backup that could not be removed must be named
				for _, n := range x {
					if !reported(r, strings.TrimPrefix(n, "__OLD__")) {
						return viol("%s: no error or warning was reported, but %s was left in the library\n%s", where, n, r.Brief())
					}
					for f := range after {
						if f == n || strings.HasPrefix(f, n+"/") {
							delete(after, f)
						}
					}
				}
				cl = append(cl, "remnants")
			}
			if m := checkSuccess(b, pl, before, after); m != "" {
				return viol("%s: no error was reported, but %s\n%s", where, m, r.Brief())
			}
			cl = append(cl, "succeeded")
		}
		if s.Op == "install" && len(s.Fail) > 0 {
			// the same again without a failing change: whatever was there is
			// there again, or as planned
			r := b.Run(w.RunOpt{}, "install")
			if r.Deadlock || r.Panic {
				return viol("%s: %s", where, r.Brief())
			}
			after := w.Snap(b.Lib)
			for _, in := range wd.Lib {
				if in.NoDesc {
					continue
				}
				if m := intact(b, pl, wd, in, before, after); m != "" {
					return viol("%s, and another installation that fails: %s\n%s", where, m, r.Brief())
				}
			}
			if x := scratchDirs(after); len(x) > 0 {
				return viol("%s, and another installation that fails: %v left in the library", where, x)
			}
			cl = append(cl, "R-fails")
		}
	}
	wd.Faults = nil
	b.WriteCtl()
	where := sprintf("after %s", strings.Join(hits, ", "))
	r := b.Run(w.RunOpt{}, "install")
	if r.Exit != 0 || r.Deadlock {
		return viol("%s: installing failed: %s", where, r.Brief())
	}
	if m := checkSuccess(b, pl, before, w.Snap(b.Lib)); m != "" {
		return viol("%s: %s\n%s", where, m, r.Brief())
	}
	if m, _ := checkCache(b); m != "" {
		return viol("%s: %s", where, m)
	}
	return h.Result{Nontrivial: nt, Classes: append(uniq(cl), "steps-"+strconv.Itoa(len(c.Steps)))}
}
