package props

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// buildStep changes something and installs into a library.
type buildStep struct {
	R      string               `json:"r,omitempty"`     // another version of R
	Pkg    string               `json:"pkg,omitempty"`   // a version that is published
	V      string               `json:"v,omitempty"`     //
	Repo   string               `json:"repo,omitempty"`  // in this repository
	Cust   *w.PkgCust           `json:"cust,omitempty"`  // a customization
	Swap   bool                 `json:"swap,omitempty"`  // the order of the repositories
	Move   *string              `json:"move,omitempty"`  // Repo is now in this folder, with other contents
	Roots  []string             `json:"roots,omitempty"` // what is requested
	Clean  []string             `json:"clean,omitempty"` // arguments of clean cache
	Lib    int                  `json:"lib"`             // the library
	Faults map[string][]w.Fault `json:"faults,omitempty"`
}

type buildsCase struct {
	W     *w.World    `json:"w"`
	Steps []buildStep `json:"steps"`
}

var buildRs = []string{"4.3.3", "4.3.1", "4.2.3", "4.4.0", "3.6.3"}

func minor(r string) string {
	p := strings.SplitN(r, ".", 3)
	return p[0] + "." + p[1]
}

// builtUnder is the version of R an installed package was built with.
func builtUnder(lib, n string) string {
	b, _ := os.ReadFile(filepath.Join(lib, n, "DESCRIPTION"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "Built: R ") {
			return minor(strings.SplitN(strings.TrimPrefix(l, "Built: R "), ";", 2)[0] + ".0")
		}
	}
	return ""
}

func init() {
	prop("C34", "a case is one world and 2 to 6 installations that share a package cache, into the same or other libraries, between which the version of R, the published versions, the requested packages, customizations and the order of the repositories change, parts of the cache are cleaned and packages fail; non-trivial: a build was reused and a package was built after the first installation",
		400, 8000,
		func(t *rapid.T) *buildsCase {
			o := gen.Default()
			o.Delays, o.MaxPkgs, o.MinPkgs, o.Tarballs, o.Descs, o.Stray, o.Bin, o.MaxRepos, o.Pre, o.HTTP = 0, 6, 2, 15, 5, 0, 30, 3, 0, 25
			c := &buildsCase{W: gen.World(t, o)}
			var all []string
			for _, r := range c.W.Repos {
				for _, p := range r.Pkgs {
					if p.Path == "" && p.Salt != "wrongR" {
						all = append(all, p.N)
					}
				}
			}
			all = uniq(all)
			cur := clone(c.W)
			for i, n := 0, gen.R(t, 2, 6); i < n; i++ {
				s := buildStep{Lib: gen.U(t, 3)}
				if i > 0 {
					switch gen.U(t, 11) {
					case 9, 10:
						// the same name for another location
						r := cur.Repos[gen.U(t, len(cur.Repos))]
						shared := r.HTTP || r.Of != ""
						for _, r2 := range cur.Repos {
							shared = shared || r2.Of == r.Name
						}
						if !shared {
							to := gen.Pick(t, "", "a/"+r.Name, "A/"+r.Name, "a/"+r.Name+"2", "a/ "+r.Name)
							s.Repo, s.Move = r.Name, &to
						}
					case 0, 1, 2:
						s.R = buildRs[gen.U(t, len(buildRs))]
					case 3, 4:
						r := cur.Repos[gen.U(t, len(cur.Repos))]
						if len(r.Pkgs) > 0 {
							p := r.Pkgs[gen.U(t, len(r.Pkgs))]
							if p.Path == "" && p.Salt != "wrongR" {
								s.Repo, s.Pkg, s.V = r.Name, p.N, gen.Rel(t, p.V, 1-2*gen.U(t, 2))
								for _, r2 := range cur.Repos {
									for _, p2 := range r2.Pkgs {
										if r2.Name != r.Name && p2.N == p.N && p2.Path == "" && p2.Salt != "wrongR" && gen.Chance(t, 70) {
											// the same version elsewhere, and preferred from now on
											s.V, s.Swap = p2.V, true
										}
									}
								}
							}
						}
					case 5:
						if len(all) > 0 {
							s.Cust = &w.PkgCust{N: all[gen.U(t, len(all))], Type: gen.Pick(t, "", "source", "binary")}
							if gen.Chance(t, 50) {
								s.Cust.Repo = cur.Repos[gen.U(t, len(cur.Repos))].Name
							}
						}
					case 6:
						s.Swap = true
					case 7:
						s.Roots = gen.Subset(t, all, 60)
					case 8:
						switch gen.U(t, 5) {
						case 0:
							s.Clean = []string{"--src-only"}
						case 1:
							s.Clean = []string{"--binaries-only"}
						case 2:
							s.Clean = []string{"--repos=" + cur.Repos[gen.U(t, len(cur.Repos))].Name}
						case 3:
							s.Clean = []string{"--src-only", "--repos=" + cur.Repos[gen.U(t, len(cur.Repos))].Name}
						default:
							s.Clean = []string{}
						}
					}
				}
				if gen.Chance(t, 20) {
					x := clone(cur)
					x.NoLib, x.Lib = true, nil
					installFaults(t, x, 2)
					s.Faults = x.Faults
				}
				c.Steps = append(c.Steps, s)
				nx := clone(cur)
				if changeFor(nx, s) && satisfiable(nx) {
					cur = nx
				}
			}
			return c
		},
		func(env *w.Env, c *buildsCase) h.Result {
			wd := c.W
			wd.Lib, wd.NoLib = nil, true
			wd.Cfg.Lib = "lib0"
			changeFor(wd, buildStep{R: wd.R})
			if !satisfiable(wd) {
				return h.Result{Skip: true}
			}
			b := wd.Build(env)
			defer b.Close()
			// builds that are in the cache (true), or may be (false)
			have := map[string]bool{}
			cl := map[string]bool{}
			reused, rebuilt := 0, 0
			for i, s := range c.Steps {
				at := sprintf("step %d: ", i)
				if s.Clean != nil {
					args := []string{"clean", "cache"}
					for _, f := range s.Clean {
						if strings.HasPrefix(f, "--repos=") {
							// the folders of that repository in the cache
							ds, _ := filepath.Glob(filepath.Join(b.CacheDir, strings.TrimPrefix(f, "--repos=")+"-*"))
							for i := range ds {
								ds[i] = filepath.Base(ds[i])
							}
							f = "--repos=" + strings.Join(append(ds, "none"), ",")
						}
						args = append(args, f)
					}
					r := b.Run(w.RunOpt{Env: []string{NoAge}}, args...)
					if r.Exit != 0 || r.Deadlock {
						return viol("%sclean cache failed: %s", at, r.Brief())
					}
					only, src := "", false
					for _, f := range s.Clean {
						src = src || f == "--src-only"
						if strings.HasPrefix(f, "--repos=") {
							only = strings.TrimPrefix(f, "--repos=")
						}
					}
					for k := range have {
						if !src && (only == "" || strings.HasPrefix(k, only+"\x00")) {
							delete(have, k)
						}
					}
					cl["cleaned"] = true
				} else {
					nx := clone(wd)
					if changeFor(nx, s) && satisfiable(nx) {
						changeFor(wd, s)
						for _, r := range wd.Repos {
							_ = os.RemoveAll(filepath.Join(b.Dir, "repos", r.Name))
							if r.Dir != "" {
								_ = os.RemoveAll(filepath.Join(b.Dir, "repos", r.Dir))
							}
							b.WriteRepo(r)
						}
					}
				}
				wd.Cfg.Lib = sprintf("lib%d", s.Lib)
				b.Lib = filepath.Join(b.Proj, wd.Cfg.Lib)
				eff := clone(wd)
				eff.Lib, eff.NoLib = scanLib(b)
				pl := w.NewModel(eff).Plan()
				before := w.Snap(b.Lib)
				wd.Faults, eff.Faults = s.Faults, s.Faults
				b.WriteConfig()
				b.WriteCtl()
				r := b.Run(w.RunOpt{Env: []string{NoAge}}, "install")
				wd.Faults = nil
				if r.Deadlock {
					return viol("%s%s", at, crashed(r))
				}
				builds, failed := map[string]int{}, false
				for _, e := range r.Events {
					if e.Ev == "end" && e.Code != 0 {
						failed = true
					}
					if e.Ev == "end" && e.Stage == "build" {
						builds[e.Pkg]++
						for _, f := range s.Faults[e.Pkg] {
							if f.Mode == "nobinary" {
								failed = true
							}
						}
					}
				}
				key := func(sel w.Sel) string {
					rp := repoOf(wd, sel.Repo)
					return strings.Join([]string{sel.Repo, rp.Suffix, sel.Pkg.N, sel.Pkg.V, minor(wd.R), rp.Dir}, "\x00")
				}
				todo := set(append(append([]string{}, pl.New...), pl.Update...))
				for _, n := range sorted(keysOf(builds)) {
					sel, in := pl.All[n]
					if !in || !todo[n] {
						if localArchive(wd, n) {
							continue
						}
						return viol("%s%s was built, which is not to be installed: %s", at, n, r.Brief())
					}
					if sel.Bin {
						return viol("%s%s was built, although it is installed as binary: %s", at, n, r.Brief())
					}
					if have[key(sel)] {
						return viol("%s%s %s from %s was built again for R %s, although it had been built before\n%s", at, n, sel.Pkg.V, sel.Repo, wd.R, r.Brief())
					}
				}
				fp, ft := failing(eff, pl)
				if len(fp)+len(ft) > 0 || failed {
					if !failed && r.Exit == 0 {
						// what was to fail was not built again
						cl["failure-avoided"] = true
					} else {
						if len(fp)+len(ft) == 0 {
							return viol("%sinstall of a satisfiable configuration failed: %s", at, r.Brief())
						}
						cl["failed"] = true
						for n := range builds {
							if sel, in := pl.All[n]; in && !have[key(sel)] {
								have[key(sel)] = false
							}
						}
						continue
					}
				} else if r.Exit != 0 {
					return viol("%sinstall of a satisfiable configuration failed: %s", at, r.Brief())
				}
				if before == nil {
					before = w.Tree{}
				}
				if v := checkSuccess(b, pl, before, w.Snap(b.Lib)); v != "" {
					return viol("%s%s\n%s", at, v, r.Brief())
				}
				for _, n := range sorted(todo) {
					sel := pl.All[n]
					if localArchive(wd, n) {
						continue
					}
					if got := builtUnder(b.Lib, n); got != minor(wd.R) {
						return viol("%s%s %s was installed as it was built for R %s, under R %s\n%s", at, n, sel.Pkg.V, got, wd.R, r.Brief())
					}
					if sel.Bin {
						continue
					}
					k := key(sel)
					known, any := have[k]
					if builds[n] == 0 && !any {
						return viol("%s%s %s from %s was not built for R %s, although it never had been\n%s", at, n, sel.Pkg.V, sel.Repo, wd.R, r.Brief())
					}
					if builds[n] == 0 && known {
						reused++
						cl["reused"] = true
					}
					if builds[n] > 0 && i > 0 {
						rebuilt++
						for k2 := range have {
							p := strings.Split(k2, "\x00")
							if p[2] == n && p[3] == sel.Pkg.V && p[4] != minor(wd.R) {
								cl["built-for-another-r"] = true
							}
							if p[2] == n && p[3] == sel.Pkg.V && p[0] == sel.Repo && p[5] != repoOf(wd, sel.Repo).Dir {
								cl["built-from-another-location"] = true
							}
							if p[2] == n && p[3] == sel.Pkg.V && p[0] != sel.Repo {
								cl["built-from-another-repository"] = true
							}
						}
					}
					have[k] = true
				}
			}
			return h.Result{Nontrivial: reused > 0 && rebuilt > 0, Classes: sorted(cl)}
		})
}

func localArchive(wd *w.World, n string) bool {
	for _, p := range wd.Tarballs {
		if p.N == n {
			return true
		}
	}
	return false
}

// changeFor applies what a step changes.
func changeFor(wd *w.World, s buildStep) bool {
	if s.R != "" {
		wd.R = s.R
		for i := range wd.Repos {
			for k := range wd.Repos[i].Bins {
				p := &wd.Repos[i].Bins[k]
				if p.Salt != "wrongR" {
					p.Salt = strings.SplitN(p.Salt, "~", 2)[0] + "~" + minor(s.R)
				}
			}
		}
	}
	if s.Move != nil {
		for i := range wd.Repos {
			r := &wd.Repos[i]
			if r.Name != s.Repo {
				continue
			}
			r.Dir = *s.Move
			for _, ps := range [][]w.Pkg{r.Pkgs, r.Bins} {
				for k := range ps {
					if ps[k].Salt == "wrongR" {
						continue
					}
					salt, built, cut := strings.Cut(ps[k].Salt, "~")
					salt, _, _ = strings.Cut(salt, "@")
					if r.Dir != "" {
						salt += "@" + r.Dir
					}
					if cut {
						salt += "~" + built
					}
					ps[k].Salt = salt
				}
			}
		}
	}
	if s.Pkg != "" {
		applyStep(wd, hstep{Op: "publish", Repo: s.Repo, Pkg: s.Pkg, V: s.V})
	}
	if s.Cust != nil {
		applyStep(wd, hstep{Op: "cust", Cust: s.Cust})
	}
	if s.Swap {
		applyStep(wd, hstep{Op: "swap"})
	}
	if len(s.Roots) > 0 {
		wd.Cfg.Pkgs = s.Roots
	}
	return true
}
