package props

import (
	"os"
	"path/filepath"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// idxFault makes one index of a repository unusable.
type idxFault struct {
	Repo string `json:"repo"`
	Bin  bool   `json:"bin,omitempty"`
	Kind string `json:"kind"` // status, reset, truncate, garbage, gone
	N    int    `json:"n,omitempty"`
}

type repoFailCase struct {
	W      *w.World   `json:"w"`
	Faults []idxFault `json:"faults"`
	Cmd    string     `json:"cmd"`
	Warm   bool       `json:"warm,omitempty"` // the other databases are cached already
	Rounds int        `json:"rounds"`
}

var garbage = []string{
	"<html><head><title>Sign in</title></head><body>You need to sign in.</body></html>\n",
	"this is not an index\n",
	"<html><body><a href=\"https://proxy.example/login\">log in</a></body></html>\n",
	"Package: aa\nVersion 1.0 without colon\n\n",
	"\x1f\x8b\x08\x00 not really gzip",
	"{\"error\": \"not available\"}",
	"Package: aa\nVersion: 1.0\nImports: bb (>= \n\nPackage",
}

func init() {
	prop("C14", "a case is one world in which the index of one or more repositories cannot be fetched or read (HTTP errors, resets, truncation, foreign content, missing directories) for one to three runs of install or plan, and is then restored; non-trivial: a run had to be refused",
		520, 12000,
		func(t *rapid.T) *repoFailCase {
			o := gen.Default()
			o.HTTP, o.Bin, o.MaxPkgs, o.MinPkgs, o.Pre, o.Delays, o.NoLib = 75, 40, 6, 2, 80, 0, 15
			c := &repoFailCase{W: gen.World(t, o), Cmd: gen.Pick(t, "install", "install", "plan"), Warm: gen.Chance(t, 35), Rounds: gen.R(t, 1, 2)}
			for i, n := 0, gen.R(t, 1, 2); i < n; i++ {
				r := c.W.Repos[gen.U(t, len(c.W.Repos))]
				f := idxFault{Repo: r.Name, Bin: r.HasBin && gen.Chance(t, 40)}
				if r.HTTP {
					f.Kind = gen.Pick(t, "status", "status", "reset", "truncate", "garbage", "truncate")
				} else {
					f.Kind = gen.Pick(t, "gone", "garbage")
				}
				switch f.Kind {
				case "status":
					f.N = []int{404, 500, 503, 403, 502, 504, 206, 204, 202}[gen.U(t, 9)]
				case "truncate":
					f.N = []int{0, 1, 20, 60, 150, 1 << 20}[gen.U(t, 6)]
				case "garbage":
					f.N = gen.U(t, len(garbage))
				}
				c.Faults = append(c.Faults, f)
			}
			return c
		},
		func(env *w.Env, c *repoFailCase) h.Result {
			wd := c.W
			b := wd.Build(env)
			defer b.Close()
			before := w.Snap(b.Lib)
			if c.Warm {
				// a plan caches the databases, then those to fail expire
				if r := b.Run(w.RunOpt{}, "plan"); r.Exit != 0 {
					return viol("plan of a satisfiable configuration failed: %s", r.Brief())
				}
			}
			idx := func(f idxFault) (string, *w.Repo) {
				r := repoOf(wd, f.Repo)
				p := "src/contrib/PACKAGES"
				if f.Bin {
					p = filepath.Join(w.BinDir(wd.R, r.Suffix), "PACKAGES")
				}
				return p, r
			}
			// eff: what the repositories offer while the faults last; gone4: an
			// index that the server says does not exist
			eff := clone(wd)
			must := false
			var http []RepoFault
			missing := map[string]map[bool]bool{}
			seenIdx := map[string]bool{}
			for _, f := range c.Faults {
				p, r := idx(f)
				key := f.Repo + p
				if seenIdx[key] {
					continue
				}
				n := len(r.Pkgs)
				if f.Bin {
					n = len(r.Bins)
				}
				if (f.Kind == "truncate" || f.N == 206) && n == 0 {
					continue
				}
				seenIdx[key] = true
				miss := false
				switch f.Kind {
				case "status":
					miss = f.N >= 400 && f.N < 500
					http = append(http, RepoFault{f.Repo, w.HTTPFault{Suffix: "/" + p, Kind: "status", N: f.N}})
				case "reset", "truncate":
					http = append(http, RepoFault{f.Repo, w.HTTPFault{Suffix: "/" + p, Kind: f.Kind, N: f.N}})
				case "garbage":
					if r.HTTP {
						http = append(http, RepoFault{f.Repo, w.HTTPFault{Suffix: "/" + p, Kind: "body", Body: garbage[f.N]}})
					} else if err := os.WriteFile(filepath.Join(b.Dir, "repos", f.Repo, p), []byte(garbage[f.N]), 0644); err != nil {
						panic(w.HarnessError{Msg: err.Error()})
					}
				case "gone":
					miss = true
					if err := os.Remove(filepath.Join(b.Dir, "repos", f.Repo, p)); err != nil {
						panic(w.HarnessError{Msg: err.Error()})
					}
				}
				if !miss {
					must = true
					continue
				}
				if missing[f.Repo] == nil {
					missing[f.Repo] = map[bool]bool{}
				}
				missing[f.Repo][f.Bin] = true
				e := repoOf(eff, f.Repo)
				if f.Bin {
					e.Bins = nil
				} else {
					e.Pkgs = nil
				}
				if missing[f.Repo][false] && (missing[f.Repo][true] || !e.HasBin) {
					must = true
				}
			}
			setFaults(b, http)
			epl := w.NewModel(eff).Plan()
			cl := map[string]bool{}
			for _, f := range c.Faults {
				cl[f.Kind] = true
			}
			refuse := must || len(epl.Missing) > 0
			lib := before
			if refuse || satisfiable(eff) {
				for i := 0; i < c.Rounds; i++ {
					var ev []string
					if c.Warm {
						ev = []string{NoAge}
					}
					r := b.Run(w.RunOpt{Env: ev}, c.Cmd)
					if r.Deadlock {
						return viol("%s", crashed(r))
					}
					after := w.Snap(b.Lib)
					if refuse {
						cl["refused"] = true
						if r.Exit == 0 {
							return viol("a repository index could not be read, but %s exited 0: %s", c.Cmd, r.Brief())
						}
						if d := w.Diff(before, after); d != "" {
							return viol("a repository index could not be read, but the library changed: %s\n%s", d, r.Brief())
						}
						if k := r.Installs(); len(k) > 0 {
							return viol("a repository index could not be read, but R was asked to install %s: %s", k[0].Pkg, r.Brief())
						}
						if q := pkgRequests(b); len(q) > 0 {
							return viol("a repository index could not be read, but packages were downloaded: %v", q)
						}
						continue
					}
					if c.Cmd == "install" && i == 0 {
						cl["partly"] = true
						if r.Exit != 0 {
							return viol("a repository without the one or the other index is usable, but install failed: %s", r.Brief())
						}
						if v := checkSuccess(b, epl, before, after); v != "" {
							return viol("%s\n%s", v, r.Brief())
						}
					}
				}
			}
			lib = w.Snap(b.Lib)
			// everything is restored
			setFaults(b, nil)
			for _, f := range c.Faults {
				if r := repoOf(wd, f.Repo); !r.HTTP {
					b.WriteRepo(*r)
				}
			}
			fin := clone(wd)
			fin.Lib, fin.NoLib = scanLib(b)
			pl := w.NewModel(fin).Plan()
			var ev []string
			for n, m := range missing {
				// a database without the missing index may be cached
				if e := repoOf(wd, n); e.HasBin && len(m) == 1 {
					ev = []string{NoAge}
				}
			}
			r := b.Run(w.RunOpt{Env: ev}, "install")
			if r.Exit != 0 || r.Deadlock {
				return viol("after the repositories recovered, install failed: %s", r.Brief())
			}
			if lib == nil {
				lib = w.Tree{}
			}
			if v := checkSuccess(b, pl, lib, w.Snap(b.Lib)); v != "" {
				return viol("after the repositories recovered: %s\n%s", v, r.Brief())
			}
			return h.Result{Nontrivial: refuse, Classes: sorted(cl)}
		})
}
