package props

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// hstep is one step of a history.
type hstep struct {
	Op     string               `json:"op"`
	Flags  []string             `json:"flags,omitempty"`
	Faults map[string][]w.Fault `json:"faults,omitempty"`
	HTTP   []RepoFault          `json:"http,omitempty"`
	Pkg    string               `json:"pkg,omitempty"`
	V      string               `json:"v,omitempty"`
	Repo   string               `json:"repo,omitempty"`
	Pkgs   []string             `json:"pkgs,omitempty"`
	Cust   *w.PkgCust           `json:"cust,omitempty"`
	B      bool                 `json:"b,omitempty"`
}

type history struct {
	W     *w.World `json:"w"`
	Steps []hstep  `json:"steps"`
}

// satisfiable tells whether a correct install of the world must succeed.
func satisfiable(wd *w.World) bool {
	pl := w.NewModel(wd).Plan()
	if len(pl.Missing) > 0 || pl.Cyclic {
		return false
	}
	site := set(wd.Site)
	ok := func(ds ...[]string) bool {
		for _, l := range ds {
			for _, n := range w.Names(l) {
				if _, in := pl.All[n]; !in && !w.BasePkgs[n] && !site[n] {
					return false
				}
			}
		}
		return true
	}
	for _, s := range pl.All {
		if !ok(s.Pkg.Dep, s.Pkg.Imp, s.Pkg.Lnk) {
			return false
		}
	}
	for _, p := range wd.Tarballs {
		if !ok(p.Dep, p.Imp, p.Lnk) {
			return false
		}
	}
	return len(pl.All)+len(wd.Tarballs) > 0
}

// applyStep changes the world; false when the step does not change it.
func applyStep(wd *w.World, s hstep) bool {
	switch s.Op {
	case "roots":
		wd.Cfg.Pkgs = s.Pkgs
	case "noupdate":
		wd.Cfg.NoUpdate = s.B
	case "suggests":
		wd.Cfg.Suggests = s.B
	case "cust":
		var cs []w.PkgCust
		for _, c := range wd.Cfg.Cust {
			if c.N != s.Cust.N {
				cs = append(cs, c)
			}
		}
		if s.Cust.Repo != "" || s.Cust.Type != "" || s.Cust.Suggests != nil {
			cs = append(cs, *s.Cust)
		}
		wd.Cfg.Cust = cs
	case "swap":
		if len(wd.Repos) > 1 {
			wd.Repos[0], wd.Repos[1] = wd.Repos[1], wd.Repos[0]
		}
	case "suffix":
		for i := range wd.Repos {
			r := &wd.Repos[i]
			if r.Name != s.Repo || !r.HasBin {
				continue
			}
			r.Suffix = s.V
			for k := range r.Bins {
				r.Bins[k].Salt = strings.TrimSuffix(strings.SplitN(r.Bins[k].Salt, "-", 2)[0]+"-"+s.V, "-")
			}
		}
	case "publish":
		for i := range wd.Repos {
			if wd.Repos[i].Name != s.Repo {
				continue
			}
			for _, l := range [][]w.Pkg{wd.Repos[i].Pkgs, wd.Repos[i].Bins} {
				for k := range l {
					if l[k].N == s.Pkg && l[k].Path == "" && l[k].Salt != "wrongR" {
						l[k].V = s.V
					}
				}
			}
		}
	default:
		return false
	}
	return true
}

func repoOf(wd *w.World, name string) *w.Repo {
	for i := range wd.Repos {
		if wd.Repos[i].Name == name {
			return &wd.Repos[i]
		}
	}
	return nil
}

func genHistory(t *rapid.T, wd *w.World, n int, faults bool) []hstep {
	var out []hstep
	cur := clone(wd)
	var all []string
	for _, r := range wd.Repos {
		for _, p := range r.Pkgs {
			if p.Path == "" && p.Salt != "wrongR" {
				all = append(all, p.N)
			}
		}
	}
	all = uniq(all)
	add := func(s hstep) {
		c := clone(cur)
		if applyStep(c, s) && !satisfiable(c) {
			return
		}
		applyStep(cur, s)
		out = append(out, s)
	}
	for len(out) < n {
		switch k := gen.U(t, 17); {
		case k < 5 || len(out) == n-1:
			s := hstep{Op: "install"}
			if gen.Chance(t, 20) {
				s.Flags = []string{gen.Pick(t, "--update", "--no-update")}
			}
			if faults && gen.Chance(t, 35) {
				c := clone(cur)
				// what is installed is not known here: any package may fail
				c.NoLib, c.Lib = true, nil
				if gen.Chance(t, 25) {
					s.HTTP = httpFaults(t, c, 2, "status", "truncate", "reset")
				} else {
					installFaults(t, c, 2)
					s.Faults = c.Faults
				}
			}
			out = append(out, s)
		case k == 5:
			out = append(out, hstep{Op: "plan"})
		case k < 9 && len(all) > 0:
			r := cur.Repos[gen.U(t, len(cur.Repos))]
			var ps []w.Pkg
			for _, p := range r.Pkgs {
				if p.Path == "" && p.Salt != "wrongR" {
					ps = append(ps, p)
				}
			}
			if len(ps) == 0 {
				out = append(out, hstep{Op: "plan"})
				continue
			}
			p := ps[gen.U(t, len(ps))]
			rel := 1
			if gen.Chance(t, 25) {
				rel = -1
			}
			add(hstep{Op: "publish", Repo: r.Name, Pkg: p.N, V: gen.Rel(t, p.V, rel)})
		case k == 9 && len(all) > 0:
			out = append(out, hstep{Op: "rmpkg", Pkg: all[gen.U(t, len(all))]})
		case k == 10 && len(all) > 0:
			rs := gen.Subset(t, all, 45)
			if len(rs) == 0 {
				rs = all[:1]
			}
			n0 := len(out)
			add(hstep{Op: "roots", Pkgs: rs})
			if len(out) == n0 {
				out = append(out, hstep{Op: "plan"})
			}
		case k == 11:
			add(hstep{Op: "noupdate", B: !cur.Cfg.NoUpdate})
		case k == 12 && len(all) > 0:
			pc := w.PkgCust{N: all[gen.U(t, len(all))], Type: gen.Pick(t, "", "", "source", "binary")}
			if gen.Chance(t, 50) {
				pc.Repo = cur.Repos[gen.U(t, len(cur.Repos))].Name
			}
			n0 := len(out)
			add(hstep{Op: "cust", Cust: &pc})
			if len(out) == n0 {
				out = append(out, hstep{Op: "plan"})
			}
		case k == 13:
			n0 := len(out)
			add(hstep{Op: "swap"})
			if len(out) == n0 {
				out = append(out, hstep{Op: "plan"})
			}
		case k == 16:
			r := cur.Repos[gen.U(t, len(cur.Repos))]
			if r.HasBin {
				// binaries installed before, and again from below another suffix
				if gen.Chance(t, 70) {
					out = append(out, hstep{Op: "install"})
				}
				v := gen.Pick(t, "", "prod", "test")
				if v == r.Suffix {
					v = map[string]string{"": "test", "test": "prod", "prod": ""}[v]
				}
				add(hstep{Op: "suffix", Repo: r.Name, V: v})
				for _, n := range gen.Subset(t, w.PkgNames(r.Bins), 60) {
					out = append(out, hstep{Op: "rmpkg", Pkg: n})
				}
				out = append(out, hstep{Op: "install"})
			} else {
				out = append(out, hstep{Op: "rmpkg", Pkg: gen.Names[gen.U(t, len(gen.Names))]})
			}
		case k == 14:
			out = append(out, hstep{Op: gen.Pick(t, "rmcache", "rmxdg")})
		default:
			n0 := len(out)
			add(hstep{Op: "suggests", B: !cur.Cfg.Suggests})
			if len(out) == n0 {
				out = append(out, hstep{Op: "plan"})
			}
		}
	}
	return out
}

func init() {
	prop("C05", "a case is one world and a history of 3 to 8 steps (installs with flags and injected failures, plans, newly published versions, configuration changes, packages and caches removed by hand); non-trivial: at least two installs ran and at least one of them changed the library or was rolled back",
		700, 12000,
		func(t *rapid.T) *history {
			o := gen.Default()
			o.Delays, o.MaxPkgs, o.MinPkgs, o.Tarballs, o.Descs, o.Stray, o.Bin, o.MaxRepos = 0, 6, 2, 20, 10, 20, 35, 3
			o.HTTP = 50
			wd := gen.World(t, o)
			return &history{W: wd, Steps: genHistory(t, wd, gen.R(t, 3, 8), true)}
		},
		func(env *w.Env, c *history) h.Result {
			wd := c.W
			if !satisfiable(wd) {
				return h.Result{Skip: true}
			}
			b := wd.Build(env)
			defer b.Close()
			installs, changed := 0, 0
			cl := map[string]bool{}
			for i, s := range c.Steps {
				at := sprintf("step %d (%s): ", i, s.Op)
				switch s.Op {
				case "plan":
					before := w.Snap(b.Lib)
					r := b.Run(w.RunOpt{Env: []string{NoAge}}, "plan")
					if r.Exit != 0 || r.Deadlock {
						return viol("%splan failed: %s", at, r.Brief())
					}
					if d := w.Diff(before, w.Snap(b.Lib)); d != "" {
						return viol("%splan changed the library: %s", at, d)
					}
				case "rmpkg":
					_ = os.RemoveAll(filepath.Join(b.Lib, s.Pkg))
				case "rmcache":
					_ = os.RemoveAll(b.CacheDir)
				case "rmxdg":
					_ = os.RemoveAll(b.XDG)
				case "install":
					installs++
					eff := clone(wd)
					eff.Lib, eff.NoLib = scanLib(b)
					for _, f := range s.Flags {
						eff.Cfg.NoUpdate = f == "--no-update"
					}
					pl := w.NewModel(eff).Plan()
					before := w.Snap(b.Lib)
					wd.Faults, eff.Faults = s.Faults, s.Faults
					b.WriteCtl()
					setFaults(b, s.HTTP)
					for _, sv := range b.Servers {
						sv.Requests()
					}
					r := b.Run(w.RunOpt{Env: []string{NoAge}}, append([]string{"install"}, s.Flags...)...)
					wd.Faults = nil
					setFaults(b, nil)
					if r.Deadlock {
						return viol("%s%s", at, crashed(r))
					}
					after := w.Snap(b.Lib)
					if od := scratchDirs(after); len(od) > 0 {
						return viol("%sbackups left behind: %v\n%s", at, od, r.Brief())
					}
					fp, ft := failing(eff, pl)
					dl := dlFails(eff, pl, s.HTTP)
					// a package in the cache is neither downloaded nor built again,
					// so an injected failure may not come to pass
					hit := false
					for _, e := range r.Events {
						hit = hit || e.Ev == "end" && e.Code != 0
					}
					if len(fp)+len(ft) > 0 || dl {
						if d := w.Diff(before, after); d == "" {
							cl["rolled-back"] = true
							if hit || r.Exit != 0 {
								changed++
							}
							continue
						} else if hit || r.Exit != 0 {
							return viol("%sthe failed installation changed the library: %s\n%s", at, d, r.Brief())
						}
						cl["failure-avoided"] = true
					} else if r.Exit != 0 || hit {
						return viol("%sinstall of a satisfiable configuration failed: %s", at, r.Brief())
					}
					if before == nil {
						before = w.Tree{}
					}
					if v := checkSuccess(b, pl, before, after); v != "" {
						return viol("%s%s\nplan: new %v update %v keep %v\n%s", at, v, pl.New, pl.Update, pl.Keep, r.Brief())
					}
					if v := checkOrder(b, pl, r); v != "" {
						return viol("%s%s", at, v)
					}
					if w.Diff(before, after) != "" {
						changed++
						cl["changed"] = true
					}
					if len(pl.Update) > 0 {
						cl["update"] = true
					}
				default:
					eff := clone(wd)
					if !applyStep(eff, s) || !satisfiable(eff) {
						continue
					}
					applyStep(wd, s)
					if s.Op == "publish" || s.Op == "suffix" {
						_ = os.RemoveAll(filepath.Join(b.Dir, "repos", s.Repo))
						b.WriteRepo(*repoOf(wd, s.Repo))
					}
					b.WriteConfig()
					cl[strings.TrimSpace(s.Op)] = true
				}
			}
			return h.Result{Nontrivial: installs > 1 && changed > 0, Classes: sorted(cl)}
		})
}
