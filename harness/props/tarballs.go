package props

import (
	"os"
	"path/filepath"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type tarStep struct {
	Salt  map[string]string `json:"salt,omitempty"` // new contents of tarballs
	Vers  map[string]string `json:"vers,omitempty"` // new versions inside, the file keeps its name
	Clean bool              `json:"clean,omitempty"`
	Touch bool              `json:"touch,omitempty"` // a changed archive keeps its modification time
	Wipe  []string          `json:"wipe,omitempty"`  // packages removed from the library by hand
}

type tarCase struct {
	W     *w.World  `json:"w"`
	Steps []tarStep `json:"steps"`
}

func init() {
	prop("C20", "a case is a configuration with one to four local archives that may need one another and packages of the repositories, installed repeatedly while archives change; non-trivial: an archive needs another one, or an archive changed between two runs",
		330, 8000,
		func(t *rapid.T) *tarCase {
			o := gen.Default()
			o.MaxPkgs, o.MaxRepos, o.HTTP, o.Bin, o.Pre, o.Tarballs, o.Descs, o.Roots, o.Ignore, o.Suggests, o.NoRec, o.Stray = 6, 2, 0, 15, 40, 0, 0, 20, 0, 10, 0, 10
			wd := gen.World(t, o)
			m := w.NewModel(wd)
			var avail []string
			for _, n := range gen.Names {
				if _, ok := m.Select(n); ok {
					avail = append(avail, n)
				}
			}
			names := []string{"zlast", "tb.one", "Tb2", "afirst"}
			k := gen.R(t, 1, 4)
			// in any order of names and of the list
			perm := []int{0, 1, 2, 3}
			for i := range perm {
				j := gen.R(t, i, 3)
				perm[i], perm[j] = perm[j], perm[i]
			}
			for i := 0; i < k; i++ {
				p := w.Pkg{N: names[perm[i]], V: gen.Version(t), Salt: "v0", Fold: gen.Chance(t, 20)}
				add := func(n string) {
					switch gen.U(t, 4) {
					case 0:
						p.Dep = append(p.Dep, n)
					case 1:
						p.Lnk = append(p.Lnk, n)
					default:
						p.Imp = append(p.Imp, n)
					}
				}
				for j := 0; j < i; j++ {
					if gen.Chance(t, 45) {
						add(wd.Tarballs[j].N)
					}
				}
				for _, n := range gen.Subset(t, avail, 30) {
					add(n)
				}
				if gen.Chance(t, 30) {
					p.RC = "R (>= 3.5.0)"
				}
				if gen.Chance(t, 40) {
					p.Big = []int{-20000, -100000, -400000, 50000, -3000000}[gen.U(t, 5)]
				}
				p.Sug = gen.Subset(t, append([]string{"notthere"}, avail...), 20)
				wd.Tarballs = append(wd.Tarballs, p)
				if !gen.Has(wd.Cfg.Ignore, p.N) {
					wd.Cfg.Ignore = append(wd.Cfg.Ignore, p.N)
				}
			}
			if gen.Chance(t, 70) {
				for i := range wd.Tarballs {
					j := gen.R(t, i, len(wd.Tarballs)-1)
					wd.Tarballs[i], wd.Tarballs[j] = wd.Tarballs[j], wd.Tarballs[i]
				}
			}
			if gen.Chance(t, 30) {
				wd.Lib = append(wd.Lib, w.Inst{N: names[perm[0]], V: "0.1", Pkgr: gen.Chance(t, 50)})
			}
			if wd.NoLib {
				wd.Lib = nil
			}
			c := &tarCase{W: wd}
			for i, n := 0, gen.R(t, 1, 3); i < n; i++ {
				s := tarStep{Salt: map[string]string{}, Vers: map[string]string{}, Clean: gen.Chance(t, 15), Touch: gen.Chance(t, 50)}
				for _, p := range wd.Tarballs {
					if gen.Chance(t, 45) {
						s.Salt[p.N] = gen.Pick(t, "v0", "v1", "v2")
					}
					if gen.Chance(t, 30) {
						s.Vers[p.N] = gen.Version(t)
					}
					if gen.Chance(t, 10) {
						s.Wipe = append(s.Wipe, p.N)
					}
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		},
		func(env *w.Env, c *tarCase) h.Result {
			wd := clone(c.W)
			files := map[string]string{}
			for _, p := range wd.Tarballs {
				files[p.N] = p.SrcName()
			}
			b := wd.Build(env)
			defer b.Close()
			needs := map[string][]string{}
			related := false
			for _, p := range wd.Tarballs {
				for _, l := range [][]string{p.Dep, p.Imp, p.Lnk} {
					for _, n := range w.Names(l) {
						if files[n] != "" {
							needs[p.N] = append(needs[p.N], n)
							related = true
						}
					}
				}
			}
			changed := false
			for i := 0; i <= len(c.Steps); i++ {
				if i > 0 {
					s := c.Steps[i-1]
					for k := range wd.Tarballs {
						p := &wd.Tarballs[k]
						was := p.Salt + p.V
						if x, ok := s.Salt[p.N]; ok {
							p.Salt = x
						}
						if x, ok := s.Vers[p.N]; ok {
							p.V = x
						}
						if was != p.Salt+p.V {
							changed = true
							f := filepath.Join(b.Proj, "tb", files[p.N])
							fi, _ := os.Stat(f)
							putFile(f, string(w.TarGz(p.N, p.Files("tarball", false, wd.R))))
							if s.Touch {
								// the time of the file tells nothing
								_ = os.Chtimes(f, fi.ModTime(), fi.ModTime())
							}
						}
					}
					if s.Clean {
						if r := b.Run(w.RunOpt{}, "clean", "cache"); r.Exit != 0 {
							return viol("cleaning the cache failed: %s", r.Brief())
						}
					}
					for _, n := range s.Wipe {
						_ = os.RemoveAll(filepath.Join(b.Lib, n))
					}
					wd.Lib, wd.NoLib = scanLib(b)
				}
				pl := w.NewModel(wd).Plan()
				if pl.Cyclic {
					return h.Result{Skip: true}
				}
				before := w.Snap(b.Lib)
				r := b.Run(w.RunOpt{}, "install")
				if m := crashed(r); m != "" {
					return viol("run %d: %s", i, m)
				}
				if r.Exit != 0 {
					return viol("run %d failed: %s", i, r.Brief())
				}
				ended := map[string]bool{}
				for _, e := range r.Events {
					if e.Stage != "tarball" {
						continue
					}
					if e.Ev == "start" {
						for _, n := range needs[e.Pkg] {
							if !ended[n] {
								return viol("run %d: %s was installed before %s, which it needs", i, e.Pkg, n)
							}
						}
					} else if e.Ev == "end" && e.Code == 0 {
						ended[e.Pkg] = true
					}
				}
				if m := checkSuccess(b, pl, before, w.Snap(b.Lib)); m != "" {
					return viol("run %d: %s\n%s", i, m, r.Brief())
				}
			}
			return h.Result{Nontrivial: related || changed}
		})
}
