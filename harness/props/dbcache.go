package props

import (
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// dbRepo is a repository with binaries for any number of suffixes.
type dbRepo struct {
	Name string             `json:"name"`
	Pkgs []w.Pkg            `json:"pkgs"`
	Bins map[string][]w.Pkg `json:"bins"`
}

// dbVar is one configuration through which the repositories are seen.
type dbVar struct {
	R     string            `json:"r"`
	Swap  bool              `json:"swap,omitempty"`
	MPN   map[string]bool   `json:"mpn,omitempty"`
	Type  map[string]string `json:"type,omitempty"`
	Suf   map[string]string `json:"suf,omitempty"`
	Names map[string]string `json:"names,omitempty"`
	Roots []string          `json:"roots"`
}

type dbStep struct {
	Op   string `json:"op"` // plan, fresh, publish, age, offline, corrupt, clean
	Var  int    `json:"var"`
	N    int    `json:"n,omitempty"`
	Repo int    `json:"repo,omitempty"`
	Pkg  string `json:"pkg,omitempty"`
	V    string `json:"v,omitempty"`
	Suf  string `json:"suf,omitempty"`
	Bin  bool   `json:"bin,omitempty"`
}

type dbCase struct {
	Repos []dbRepo `json:"repos"`
	Age   string   `json:"age,omitempty"` // the maximal age that is set, in seconds
	Vars  []dbVar  `json:"vars"`
	Steps []dbStep `json:"steps"`
}

var dbSuffixes = []string{"", "prod", "test"}

func (c *dbCase) world(v dbVar, state []dbRepo) *w.World {
	wd := &w.World{R: v.R, NoLib: true}
	for _, r := range state {
		x := w.Repo{Name: r.Name, HTTP: true, Pkgs: r.Pkgs, Type: v.Type[r.Name], Suffix: v.Suf[r.Name]}
		if n := v.Names[r.Name]; n != "" {
			x.Name = n
		}
		if v.MPN[r.Name] {
			x.RepoType, x.HasBin = "MPN", true
			x.Bins = r.Bins[x.Suffix]
		}
		wd.Repos = append(wd.Repos, x)
	}
	if v.Swap && len(wd.Repos) > 1 {
		wd.Repos[0], wd.Repos[1] = wd.Repos[1], wd.Repos[0]
	}
	wd.Cfg.Pkgs = v.Roots
	return wd
}

// limit is the age up to which a cached database may be used.
func (c *dbCase) limit() int {
	if n, err := strconv.Atoi(c.Age); err == nil {
		return n
	}
	return 3600
}

// announced is the plan as announced by pkgr, or as expected.
func announced(r *w.RunRes) string {
	m := map[string]bool{}
	for _, l := range r.LogMsgs("package repository set") {
		ty := "source"
		if n, _ := num(l, "type"); n == 2 {
			ty = "binary"
		}
		m[str(l, "pkg")+" "+str(l, "version")+" "+str(l, "repo")+" "+ty] = true
	}
	return strings.Join(sorted(m), "; ")
}

func expected(wd *w.World) string {
	pl := w.NewModel(wd).Plan()
	if len(pl.Missing) > 0 {
		return "missing"
	}
	m := map[string]bool{}
	for n, s := range pl.All {
		m[n+" "+s.Pkg.V+" "+s.Repo+" "+s.Type()] = true
	}
	return strings.Join(sorted(m), "; ")
}

func genDbCase(t *rapid.T) *dbCase {
	c := &dbCase{}
	names := gen.PickNames(t, gen.R(t, 2, 5))
	rs := []string{"4.3.3", "4.3.1", "4.1.0", "3.6.3"}
	mk := func(k int) w.Pkg {
		p := w.Pkg{N: names[k], V: gen.Version(t)}
		for j := 0; j < k; j++ {
			if gen.Chance(t, 25) {
				p.Imp = append(p.Imp, names[j])
			}
		}
		if gen.Chance(t, 40) {
			p.RC = gen.Pick(t, "R (>= 4.1)", "R (>= 4.3.2)", "R (< 4.3.2)", "R (>= 3.5)", "R (< 4.0)", "R (== 4.3.1)")
		}
		return p
	}
	for i, n := 0, gen.R(t, 1, 2); i < n; i++ {
		r := dbRepo{Name: []string{"CRAN", "MPN"}[i], Bins: map[string][]w.Pkg{}}
		for k := range names {
			if gen.Chance(t, 80) {
				p := mk(k)
				r.Pkgs = append(r.Pkgs, p)
				if p.RC != "" && gen.Chance(t, 60) {
					q := mk(k)
					q.RC = map[string]string{"R (>= 4.1)": "R (< 4.1)", "R (>= 4.3.2)": "R (< 4.3.2)", "R (< 4.3.2)": "R (>= 4.3.2)", "R (>= 3.5)": "R (< 3.5)", "R (< 4.0)": "R (>= 4.0)", "R (== 4.3.1)": "R (!= 4.3.1)"}[p.RC]
					r.Pkgs = append(r.Pkgs, q)
				}
			}
			for _, s := range dbSuffixes {
				if gen.Chance(t, 70) {
					r.Bins[s] = append(r.Bins[s], mk(k))
				}
			}
		}
		c.Repos = append(c.Repos, r)
	}
	for i, n := 0, gen.R(t, 1, 3); i < n; i++ {
		v := dbVar{R: rs[gen.U(t, 4)], MPN: map[string]bool{}, Type: map[string]string{}, Suf: map[string]string{}, Names: map[string]string{}, Roots: gen.Subset(t, names, 70)}
		if i > 0 && gen.Chance(t, 60) {
			v.R = c.Vars[0].R
		}
		for _, r := range c.Repos {
			v.MPN[r.Name] = gen.Chance(t, 50)
			if gen.Chance(t, 30) {
				v.Type[r.Name] = gen.Pick(t, "source", "binary")
			}
			if v.MPN[r.Name] && gen.Chance(t, 50) {
				v.Suf[r.Name] = gen.Pick(t, "prod", "test")
			}
			if gen.Chance(t, 20) {
				v.Names[r.Name] = gen.Pick(t, "alpha", "beta") + r.Name
			}
		}
		v.Swap = gen.Chance(t, 30)
		if i > 0 && gen.Chance(t, 50) {
			// differs from the first configuration in one respect only
			v = *clone(&c.Vars[0])
			r := c.Repos[gen.U(t, len(c.Repos))].Name
			for _, m := range []*map[string]string{&v.Type, &v.Suf, &v.Names} {
				if *m == nil {
					*m = map[string]string{}
				}
			}
			if v.MPN == nil {
				v.MPN = map[string]bool{}
			}
			switch gen.U(t, 8) {
			case 0, 1, 2:
				v.R = map[string]string{"4.3.3": "4.3.1", "4.3.1": "4.3.3"}[v.R]
				if v.R == "" {
					v.R = "4.3.3"
				}
			case 3:
				v.MPN[r] = !v.MPN[r]
			case 4:
				v.Suf[r] = gen.Pick(t, "prod", "test", "")
			case 5, 7:
				if len(c.Repos) > 1 && gen.Chance(t, 60) {
					// every name now stands for the URL of the other one
					eff := func(n string) string {
						if v.Names[n] != "" {
							return v.Names[n]
						}
						return n
					}
					x, y := c.Repos[0].Name, c.Repos[1].Name
					v.Names[x], v.Names[y] = eff(y), eff(x)
				} else {
					v.Names[r] = "other" + r
				}
			case 6:
				v.Type[r] = gen.Pick(t, "source", "binary", "")
			}
			if v.Suf[r] != "" {
				v.MPN[r] = true
			}
		}
		if len(v.Roots) == 0 {
			v.Roots = names[:1]
		}
		c.Vars = append(c.Vars, v)
	}
	if gen.Chance(t, 40) {
		c.Age = gen.Pick(t, "600", "3600", "5000", "86400", "100000", "2000000", "1h", "7200s", "60.5", "1e3", "never")
	}
	n := gen.R(t, 3, 9)
	for i := 0; i < n; i++ {
		s := dbStep{Op: gen.Pick(t, "plan", "plan", "plan", "plan", "plan", "publish", "publish", "age", "offline", "fresh", "corrupt", "clean"), Var: gen.U(t, len(c.Vars))}
		switch s.Op {
		case "publish":
			s.Repo, s.Pkg, s.V, s.Bin, s.Suf = gen.U(t, len(c.Repos)), names[gen.U(t, len(names))], gen.Version(t), gen.Chance(t, 40), dbSuffixes[gen.U(t, 3)]
			if gen.Chance(t, 15) {
				s.V = "" // withdrawn
			}
		case "age":
			s.N = []int{60, 1800, 3500, 3700, 7200, 90000}[gen.U(t, 6)]
			if c.Age != "" && gen.Chance(t, 60) {
				s.N = max(60, c.limit()+[]int{-200, -200, 200, 4000}[gen.U(t, 4)])
			}
		case "corrupt":
			s.N = gen.R(t, 0, 3)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func dbFiles(b *w.Box) []string {
	fs, _ := filepath.Glob(filepath.Join(b.XDG, "pkgr", "r_packagedb_caches", "*"))
	sort.Strings(fs)
	return fs
}

func init() {
	prop("C13", "a case is one or two repositories seen through one to three configurations (R version, repository type, suffix, form, name, order), possibly with a maximal age of cached databases (or nonsense in its place), and 3 to 9 steps: plans, forced refreshes, newly published indices, cached databases ageing or damaged or cleaned, servers going offline; non-trivial: at least two plans and an event or another configuration in between",
		600, 15000,
		genDbCase,
		func(env *w.Env, c *dbCase) h.Result {
			cur := clone(&c.Repos)
			base := c.world(c.Vars[0], *cur)
			for i := range base.Repos {
				base.Repos[i].Name = c.Repos[i].Name
			}
			base.Repos = base.Repos[:0]
			b := base.Build(env)
			defer b.Close()
			publish := func(r dbRepo) {
				dir := filepath.Join(b.Dir, "repos", r.Name)
				_ = os.RemoveAll(dir)
				for _, rv := range []string{"4.3.3", "4.1.0", "3.6.3"} {
					for _, s := range dbSuffixes {
						(w.Repo{Name: r.Name, Pkgs: r.Pkgs, Bins: r.Bins[s], HasBin: true, Suffix: s}).WriteIndex(dir, rv)
					}
				}
				if b.Servers[r.Name] == nil {
					b.Servers[r.Name] = w.NewServer(dir)
				}
			}
			// snapshots a cached database may stem from, per repository
			snaps := map[string][]dbRepo{}
			for _, r := range *cur {
				publish(r)
				snaps[r.Name] = []dbRepo{r}
			}
			forget := func() {
				for _, r := range *cur {
					snaps[r.Name] = []dbRepo{*clone(&r)}
				}
			}
			// damaged: cached files may be unreadable; seen: variants planned since
			// everything was last forgotten
			damaged := false
			seen := map[int]string{}
			plans, events := 0, 0
			cl := map[string]bool{}
			var combos func(i int, st []dbRepo, f func([]dbRepo) bool) bool
			combos = func(i int, st []dbRepo, f func([]dbRepo) bool) bool {
				if i == len(*cur) {
					return f(st)
				}
				for _, s := range snaps[(*cur)[i].Name] {
					if combos(i+1, append(append([]dbRepo{}, st...), s), f) {
						return true
					}
				}
				return false
			}
			var age []string
			if c.Age != "" {
				age = []string{strings.Replace(NoAge, "=0", "="+c.Age, 1)}
			}
			run := func(k int, envv ...string) *w.RunRes {
				v := c.Vars[k]
				wd := c.world(v, *cur)
				b.W = wd
				b.URLs = map[string]string{}
				for _, r := range *cur {
					n := r.Name
					if x := v.Names[n]; x != "" {
						n = x
					}
					b.URLs[n] = b.Servers[r.Name].URL()
				}
				b.WriteCtl()
				b.WriteConfig()
				plans++
				if len(envv) == 0 {
					envv = age
				}
				return b.Run(w.RunOpt{Env: envv}, "plan")
			}
			for i, s := range c.Steps {
				at := sprintf("step %d (%s, configuration %d): ", i, s.Op, s.Var)
				cl[s.Op] = true
				switch s.Op {
				case "publish":
					r := &(*cur)[s.Repo%len(*cur)]
					edit := func(l []w.Pkg) []w.Pkg {
						var out []w.Pkg
						found := false
						for _, p := range l {
							if p.N == s.Pkg {
								if found || s.V == "" {
									continue
								}
								found = true
								p.V, p.RC = s.V, ""
							}
							out = append(out, p)
						}
						if !found && s.V != "" {
							out = append(out, w.Pkg{N: s.Pkg, V: s.V})
						}
						return out
					}
					if s.Bin {
						r.Bins[s.Suf] = edit(r.Bins[s.Suf])
					} else {
						r.Pkgs = edit(r.Pkgs)
					}
					publish(*r)
					snaps[r.Name] = append(snaps[r.Name], *clone(r))
					events++
				case "age":
					tm := time.Now().Add(-time.Duration(s.N) * time.Second)
					for _, f := range dbFiles(b) {
						_ = os.Chtimes(f, tm, tm)
					}
					if s.N > c.limit() {
						forget()
						damaged = false
						seen = map[int]string{}
					} else {
						// successive ageing is absolute, so nothing expires
					}
					events++
				case "corrupt":
					fs := dbFiles(b)
					if len(fs) == 0 {
						continue
					}
					f := fs[s.N%len(fs)]
					x, _ := os.ReadFile(f)
					switch s.N {
					case 0:
						x = x[:len(x)/2]
					case 1:
						x = nil
					case 2:
						x = []byte("not a database")
					default:
						x = x[:max(0, len(x)-1)]
					}
					_ = os.WriteFile(f, x, 0644)
					damaged = true
					seen = map[int]string{}
					events++
				case "clean":
					r := run(s.Var)
					got := announced(r)
					if r.Exit != 0 && !damaged && got != "" {
						return viol("%splan failed: %s", at, r.Brief())
					}
					q := b.Run(w.RunOpt{Env: age}, "clean", "pkgdbs")
					if q.Deadlock {
						return viol("%s%s", at, crashed(q))
					}
					if q.Exit == 0 {
						if len(dbFiles(b)) == 0 {
							forget()
							damaged = false
						}
						seen = map[int]string{}
					}
					events++
				case "offline":
					was, ok := seen[s.Var]
					for _, sv := range b.Servers {
						sv.SetFaults([]w.HTTPFault{{Suffix: "", Kind: "reset"}})
					}
					r := run(s.Var)
					for _, sv := range b.Servers {
						sv.SetFaults(nil)
					}
					if r.Deadlock {
						return viol("%s%s", at, crashed(r))
					}
					got := announced(r)
					if ok && was != "missing" {
						cl["offline-cached"] = true
						if r.Exit != 0 {
							return viol("%swith the databases cached, plan failed although nothing had to be downloaded: %s", at, r.Brief())
						}
						if got != was {
							return viol("%splan from the cached databases announces %q, before it was %q", at, got, was)
						}
					} else if r.Exit == 0 {
						match := combos(0, nil, func(st []dbRepo) bool { return expected(c.world(c.Vars[s.Var], st)) == got })
						if !match {
							return viol("%swith the servers offline, plan succeeded and announces %q, which was never published: %s", at, got, r.Brief())
						}
					}
					events++
				case "plan", "fresh":
					var ev []string
					if s.Op == "fresh" {
						ev = append(ev, NoAge)
					}
					if len(seen) > 0 {
						if _, ok := seen[s.Var]; !ok {
							events++
						}
					}
					r := run(s.Var, ev...)
					if r.Deadlock {
						return viol("%s%s", at, crashed(r))
					}
					got := announced(r)
					if damaged && s.Op == "plan" && r.Exit != 0 {
						cl["damaged-refused"] = true
						continue
					}
					if r.Panic {
						return viol("%s%s", at, crashed(r))
					}
					if r.Exit != 0 {
						got = "missing"
					}
					var wants []string
					if s.Op == "fresh" {
						wants = append(wants, expected(c.world(c.Vars[s.Var], *cur)))
						seen = map[int]string{}
					} else {
						combos(0, nil, func(st []dbRepo) bool {
							wants = append(wants, expected(c.world(c.Vars[s.Var], st)))
							return false
						})
						if was, ok := seen[s.Var]; ok {
							// nothing forgot the databases of this configuration
							wants = []string{was}
						}
					}
					if !gen.Has(wants, got) {
						return viol("%splan announces %q, expected %q\n%s", at, got, uniq(wants), r.Brief())
					}
					if r.Exit != 0 && got == "missing" && len(r.LogMsgs("Package installation cache directory")) > 0 {
						continue
					}
					seen[s.Var] = got
					if s.Op == "fresh" {
						// the other databases keep their age
						seen = map[int]string{s.Var: got}
					}
				}
			}
			return h.Result{Nontrivial: plans > 1 && events > 0, Classes: sorted(cl)}
		})
}
