package props

import (
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// planned runs plan and says what it announced and whether it succeeded.
func planned(b *w.Box, args ...string) (string, *w.RunRes) {
	r := b.Run(w.RunOpt{}, append([]string{"plan"}, args...)...)
	return announced(r), r
}

// twin plans for two worlds that have to lead to the same plan.
func twin(env *w.Env, a, c *w.World, what string) (string, bool) {
	ba := a.Build(env)
	defer ba.Close()
	bc := c.Build(env)
	defer bc.Close()
	pa, ra := planned(ba)
	pc, rc := planned(bc)
	if ra.Exit != rc.Exit {
		return sprintf("%s: exit status %d and %d: %s\n%s", what, ra.Exit, rc.Exit, ra.Brief(), rc.Brief()), false
	}
	if pa != pc {
		return sprintf("%s: %s, but %s", what, pa, pc), false
	}
	return "", ra.Exit == 0
}

type ignoreCase struct {
	W       *w.World `json:"w"`
	Install bool     `json:"install,omitempty"`
}

// installed installs what was planned, if the case asks for it, and compares
// the library with the plan of the model.
func (c *ignoreCase) installed(b *w.Box, pl *w.Plan) string {
	if !c.Install || len(pl.Roots)+len(c.W.Tarballs) == 0 {
		return ""
	}
	descs := filepath.Join(b.Proj, "descs")
	before, was := w.Snap(b.Lib), w.Snap(descs)
	r := b.Run(w.RunOpt{}, "install")
	if r.Exit != 0 || r.Deadlock || r.Panic {
		return "install fails: " + r.Brief()
	}
	if m := checkSuccess(b, pl, before, w.Snap(b.Lib)); m != "" {
		return m
	}
	if m := checkOrder(b, pl, r); m != "" {
		return m
	}
	if d := w.Diff(was, w.Snap(descs)); d != "" {
		return "the DESCRIPTION files changed: " + d
	}
	return ""
}

func without(ds []string, drop func(string) bool) []string {
	var out []string
	for _, d := range ds {
		if !drop(w.DepName(d)) {
			out = append(out, d)
		}
	}
	return out
}

func init() {
	prop("C26", "a case is a world with ignored packages, recommended packages (also requested ones) and packages of R itself among the published ones; it is planned, planned with these deleted from the repositories, and installed; non-trivial: something that is needed is left out",
		330, 9000,
		func(t *rapid.T) *ignoreCase {
			o := gen.Default()
			o.MaxPkgs, o.MaxRepos, o.Delays, o.Ignore, o.NoRec, o.Density, o.Descs, o.Tarballs, o.Suggests, o.RConstraints, o.Bin = 9, 3, 20, 70, 60, 40, 30, 30, 60, 0, 20
			wd := gen.World(t, o)
			// packages of R and recommended ones, everywhere
			var rec []string
			for _, n := range []string{"MASS", "Matrix", "survival", "boot", "lattice", "stats", "methods", "tools"} {
				if gen.Chance(t, 35) {
					rec = append(rec, n)
				}
			}
			more := uniq(append(sorted(w.BasePkgs), sorted(w.Recommended)...))
			for i := 0; i < 3; i++ {
				rec = append(rec, more[gen.U(t, len(more))])
			}
			rec = uniq(rec)
			add := func(ps []w.Pkg) {
				for i := range ps {
					for _, n := range rec {
						if ps[i].N == n || w.Recommended[ps[i].N] && w.Recommended[n] && ps[i].N <= n {
							continue
						}
						switch gen.U(t, 12) {
						case 8:
							ps[i].Imp = append(ps[i].Imp, n)
						case 9:
							ps[i].Dep = append(ps[i].Dep, n+" (>= 0.0)")
						case 10:
							ps[i].Lnk = append(ps[i].Lnk, n)
						case 11:
							ps[i].Sug = append(ps[i].Sug, n)
						}
					}
				}
			}
			for i := range wd.Repos {
				r := &wd.Repos[i]
				add(r.Pkgs)
				for _, n := range rec {
					has := false
					for _, p := range r.Pkgs {
						has = has || p.N == n
					}
					if !has && gen.Chance(t, 70) {
						r.Pkgs = append(r.Pkgs, w.Pkg{N: n, V: gen.Version(t), Salt: sprintf("rec%d", i)})
					}
				}
			}
			add(wd.Tarballs)
			add(wd.Descs)
			for _, n := range rec {
				if gen.Chance(t, 35) && !gen.Has(wd.Cfg.Pkgs, n) && !gen.Has(wd.Cfg.Ignore, n) {
					wd.Cfg.Pkgs = append(wd.Cfg.Pkgs, n)
				}
				// many an R has them, not all
				if w.Recommended[n] && gen.Chance(t, 50) && !gen.Has(wd.Site, n) {
					wd.Site = append(wd.Site, n)
				}
			}
			gen.Resolve(wd)
			wd.Lib = nil
			gen.Library(t, o, wd, nil)
			return &ignoreCase{W: wd}
		},
		func(env *w.Env, c *ignoreCase) h.Result {
			wd := c.W
			pl := w.NewModel(wd).Plan()
			if len(pl.Missing) > 0 || pl.Cyclic || len(pl.Roots)+len(wd.Tarballs) == 0 {
				return h.Result{Skip: true}
			}
			requested := set(wd.Cfg.Pkgs)
			ignored := set(wd.Cfg.Ignore)
			left := false
			drop := func(n string) bool {
				x := ignored[n] || w.BasePkgs[n] || wd.Cfg.NoRec && w.Recommended[n] && !requested[n]
				left = left || x && !w.BasePkgs[n]
				return x
			}
			// the same, with everything deleted that is not to be considered
			x := clone(wd)
			x.Cfg.Ignore, x.Cfg.NoRec = nil, false
			for i := range x.Repos {
				for _, ps := range []*[]w.Pkg{&x.Repos[i].Pkgs, &x.Repos[i].Bins} {
					var keep []w.Pkg
					for _, p := range *ps {
						if !drop(p.N) {
							p.Dep, p.Imp, p.Lnk, p.Sug = without(p.Dep, drop), without(p.Imp, drop), without(p.Lnk, drop), without(p.Sug, drop)
							keep = append(keep, p)
						}
					}
					*ps = keep
				}
			}
			for _, ps := range [][]w.Pkg{x.Tarballs, x.Descs} {
				for i := range ps {
					p := &ps[i]
					p.Dep, p.Imp, p.Lnk, p.Sug = without(p.Dep, drop), without(p.Imp, drop), without(p.Lnk, drop), without(p.Sug, drop)
				}
			}
			x.Cfg.Pkgs = without(x.Cfg.Pkgs, func(n string) bool { return w.BasePkgs[n] })
			if len(x.Cfg.Pkgs)+len(x.Tarballs)+len(x.Descs) > 0 {
				if m, _ := twin(env, wd, x, "ignoring and deleting packages differ"); m != "" {
					return viol("%s", m)
				}
			}
			b := wd.Build(env)
			defer b.Close()
			before := w.Snap(b.Lib)
			r := b.Run(w.RunOpt{}, "install")
			if r.Exit != 0 || r.Deadlock {
				return viol("install failed: %s", r.Brief())
			}
			if m := checkSuccess(b, pl, before, w.Snap(b.Lib)); m != "" {
				return viol("%s", m)
			}
			if m := checkOrder(b, pl, r); m != "" {
				return viol("%s", m)
			}
			return h.Result{Nontrivial: left}
		})

	prop("C28", "a case is a world whose packages are requested through DESCRIPTION files written in various ways; the plan is compared with that of listing what they name, with and without them; non-trivial: the files request something that is not requested otherwise",
		420, 12000,
		func(t *rapid.T) *ignoreCase {
			o := gen.Default()
			o.MaxPkgs, o.Delays, o.Descs, o.Tarballs, o.Roots, o.Pre, o.Density = 10, 0, 100, 10, 15, 20, 20
			wd := gen.World(t, o)
			for i := range wd.Descs {
				d := &wd.Descs[i]
				d.Style = gen.U(t, 7)
				d.More = gen.Pick(t, "", "", "Enhances: enhanced\n", "Config/Needs/website: needed\n", "Remotes: some/where\n", "VignetteBuilder: knitr\nRoxygenNote: 7.1.1\n", "Authors@R:\n    person(\"A\", \"B\", email = \"a@b.c\",\n    comment = c(ORCID = \"0\"))\n")
			}
			return &ignoreCase{W: wd, Install: gen.Chance(t, 30)}
		},
		func(env *w.Env, c *ignoreCase) h.Result {
			wd := c.W
			pl := w.NewModel(wd).Plan()
			if len(pl.Missing) > 0 || pl.Cyclic {
				return h.Result{Skip: true}
			}
			// Suggests concerns what is listed under Packages only
			x := clone(wd)
			x.Descs = nil
			listed := set(x.Cfg.Pkgs)
			extra := false
			for _, n := range pl.Roots {
				if !listed[n] {
					x.Cfg.Pkgs = append(x.Cfg.Pkgs, n)
					extra = true
					if x.Cfg.Suggests {
						no := false
						done := false
						for i := range x.Cfg.Cust {
							if x.Cfg.Cust[i].N == n {
								if x.Cfg.Cust[i].Suggests == nil {
									x.Cfg.Cust[i].Suggests = &no
								}
								done = true
							}
						}
						if !done {
							x.Cfg.Cust = append(x.Cfg.Cust, w.PkgCust{N: n, Suggests: &no})
						}
					}
				}
			}
			if len(x.Cfg.Pkgs)+len(x.Tarballs) > 0 {
				m, ok := twin(env, wd, x, "requesting through DESCRIPTION files and listing differ")
				if m != "" {
					return viol("%s", m)
				}
				if !ok {
					return viol("planning fails")
				}
			}
			b := wd.Build(env)
			defer b.Close()
			got, r := planned(b)
			if want := expected(wd); got != want {
				return viol("planned %s, expected %s: %s", got, want, r.Brief())
			}
			if m := c.installed(b, pl); m != "" {
				return viol("%s", m)
			}
			// a DESCRIPTION that does not exist or cannot be read is no reason to install less
			if len(wd.Descs) > 0 && extra {
				removeTree(filepath.Join(b.Proj, "descs", "d0"))
				before := w.Snap(b.Lib)
				r := b.Run(w.RunOpt{}, "install")
				if r.Exit == 0 {
					return viol("a DESCRIPTION file is missing, install succeeds: %s", r.Brief())
				}
				if d := w.Diff(before, w.Snap(b.Lib)); d != "" {
					return viol("a DESCRIPTION file is missing, the library changed: %s", d)
				}
			}
			return h.Result{Nontrivial: extra}
		})

	prop("C32", "a case is a world in which packages suggest others and Suggests is set globally, for single packages, both or not at all; non-trivial: some suggestion of a planned package is to be followed and some is not",
		500, 15000,
		func(t *rapid.T) *ignoreCase {
			o := gen.Default()
			o.MaxPkgs, o.MaxRepos, o.Delays, o.Suggests, o.Density, o.Roots, o.Descs, o.Tarballs, o.Pre, o.Bin = 12, 2, 0, 100, 12, 25, 15, 15, 10, 15
			return &ignoreCase{W: gen.World(t, o), Install: gen.Chance(t, 25)}
		},
		func(env *w.Env, c *ignoreCase) h.Result {
			wd := c.W
			m := w.NewModel(wd)
			pl := m.Plan()
			if len(pl.Missing) > 0 || pl.Cyclic {
				return h.Result{Skip: true}
			}
			b := wd.Build(env)
			defer b.Close()
			got, r := planned(b)
			if r.Exit != 0 {
				return viol("planning fails: %s", r.Brief())
			}
			if want := expected(wd); got != want {
				return viol("planned %s, expected %s", got, want)
			}
			if m := c.installed(b, pl); m != "" {
				return viol("%s", m)
			}
			// without any Suggests there is less, but what remains is the same
			x := clone(wd)
			x.Cfg.Suggests = false
			for i := range x.Cfg.Cust {
				x.Cfg.Cust[i].Suggests = nil
			}
			bx := x.Build(env)
			defer bx.Close()
			less, _ := planned(bx)
			all := set(strings.Split(got, "; "))
			for _, p := range strings.Split(less, "; ") {
				if p != "" && !all[p] {
					return viol("planned without suggestions only: %s", p)
				}
			}
			yes, no := false, false
			for n, s := range pl.All {
				for _, d := range w.Names(s.Pkg.Sug) {
					if _, ok := m.Select(d); ok {
						if m.Suggests(n) {
							yes = true
						} else if _, in := pl.All[d]; !in {
							no = true
						}
					}
				}
			}
			return h.Result{Nontrivial: yes && no}
		})
}
