package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// faultCase is a world with faults in R and in the servers.
type faultCase struct {
	W    *w.World    `json:"w"`
	HTTP []RepoFault `json:"http,omitempty"`
}

// httpFaults picks faults for the downloads of selected packages.
func httpFaults(t *rapid.T, wd *w.World, max int, kinds ...string) []RepoFault {
	pl := w.NewModel(wd).Plan()
	var cands []string
	for _, n := range uniq(append(append([]string{}, pl.New...), pl.Update...)) {
		for _, r := range wd.Repos {
			if r.Name == pl.All[n].Repo && r.HTTP {
				cands = append(cands, n)
			}
		}
	}
	if len(cands) == 0 {
		return nil
	}
	var out []RepoFault
	for i, k := 0, gen.R(t, 1, max); i < k; i++ {
		n := cands[gen.U(t, len(cands))]
		s := pl.All[n]
		f := w.HTTPFault{Suffix: "/" + fileOf(s), Kind: gen.Pick(t, kinds...)}
		switch f.Kind {
		case "status":
			f.N = []int{404, 403, 500, 503, 502, 206, 204, 202}[gen.U(t, 8)]
		case "truncate", "kill":
			f.N = []int{0, 1, 17, 100, 250, 400}[gen.U(t, 6)]
		}
		out = append(out, RepoFault{s.Repo, f})
	}
	return out
}

func fileOf(s w.Sel) string {
	if s.Bin {
		return s.Pkg.BinName()
	}
	return s.Pkg.SrcName()
}

func genSelection(t *rapid.T) *w.World {
	o := gen.Default()
	o.MinPkgs, o.MaxPkgs, o.MaxRepos, o.Bin, o.Pins, o.Types = 2, 7, 4, 50, 35, 30
	o.Tarballs, o.Descs, o.Pre, o.Delays, o.Density, o.Stray = 5, 5, 10, 0, 20, 0
	wd := gen.World(t, o)
	for i := range wd.Repos {
		if wd.Repos[i].HTTP && gen.Chance(t, 50) {
			wd.Repos[i].Slow = gen.R(t, 1, 12)
		}
	}
	if gen.Chance(t, 25) {
		// two repositories below one URL, with binaries of their own
		for i, r := range wd.Repos {
			if !r.HasBin {
				continue
			}
			x := r
			x.Name, x.Of, x.Suffix = r.Name+"-"+gen.Pick(t, "prod", "test"), r.Name, gen.Pick(t, "prod", "test")
			if x.Suffix == r.Suffix {
				x.Suffix += "2"
			}
			x.Type = gen.Pick(t, "", "source", "binary")
			x.Bins = nil
			for _, p := range r.Bins {
				if gen.Chance(t, 80) {
					p.Salt += x.Suffix
					x.Bins = append(x.Bins, p)
				}
			}
			for _, n := range wd.Cfg.Pkgs {
				if gen.Chance(t, 40) && !w.BasePkgs[n] {
					var cs []w.PkgCust
					for _, c := range wd.Cfg.Cust {
						if c.N != n {
							cs = append(cs, c)
						}
					}
					wd.Cfg.Cust = append(cs, w.PkgCust{N: n, Repo: gen.Pick(t, x.Name, r.Name)})
				}
			}
			if gen.Chance(t, 50) {
				wd.Repos = append(wd.Repos, x)
			} else {
				wd.Repos = append(append(append([]w.Repo{}, wd.Repos[:i+1]...), x), wd.Repos[i+1:]...)
			}
			gen.Resolve(wd)
			return wd
		}
	}
	if gen.Chance(t, 12) && len(wd.Cfg.Pkgs) > 0 {
		// pin one to a repository that does not have it
		n := wd.Cfg.Pkgs[gen.U(t, len(wd.Cfg.Pkgs))]
		for _, r := range wd.Repos {
			hasIt := false
			for _, p := range append(append([]w.Pkg{}, r.Pkgs...), r.Bins...) {
				hasIt = hasIt || p.N == n
			}
			if !hasIt && !w.BasePkgs[n] {
				var cs []w.PkgCust
				for _, c := range wd.Cfg.Cust {
					if c.N != n {
						cs = append(cs, c)
					}
				}
				wd.Cfg.Cust = append(cs, w.PkgCust{N: n, Repo: r.Name})
				break
			}
		}
	}
	return wd
}

func init() {
	worldProp("C03", "a case is one world with several repositories offering different versions of the same packages; non-trivial: some planned package is offered by more than one repository, pinned, or both as source and binary",
		900, 25000, genSelection,
		func(env *w.Env, wd *w.World) h.Result {
			b := wd.Build(env)
			defer b.Close()
			pl := w.NewModel(wd).Plan()
			before := w.Snap(b.Lib)
			r := b.Run(w.RunOpt{}, "install")
			if v := crashed(r); v != "" {
				return viol("%s", v)
			}
			after := w.Snap(b.Lib)
			if len(pl.Missing) > 0 {
				if r.Exit == 0 {
					return viol("%v cannot be taken from where the configuration says, but install exited 0: %s", pl.Missing, r.Brief())
				}
				if d := w.Diff(before, after); d != "" {
					return viol("install refused %v but changed the library: %s", pl.Missing, d)
				}
				return h.Result{Nontrivial: true, Classes: []string{"pinned-away"}}
			}
			if r.Exit != 0 {
				return viol("install of a satisfiable configuration failed: %s", r.Brief())
			}
			if v := checkSuccess(b, pl, before, after); v != "" {
				return viol("%s\n%s", v, r.Brief())
			}
			// downloads come only from the selected repository
			for _, rp := range wd.Repos {
				s := b.Servers[rp.Name]
				if s == nil {
					continue
				}
				for _, q := range s.Requests() {
					f := filepath.Base(q)
					if !strings.HasSuffix(f, ".gz") || f == "PACKAGES.gz" {
						continue
					}
					ok := false
					for _, sel := range pl.All {
						for _, x := range wd.Repos {
							if x.Name == sel.Repo && x.Origin() == rp.Name && fileOf(sel) == f {
								ok = ok || !sel.Bin || strings.Contains(q, w.BinDir(wd.R, x.Suffix)+"/")
							}
						}
					}
					if !ok {
						return viol("downloaded %s from repository %s, which is not the selected source of that package", q, rp.Name)
					}
				}
			}
			nt := false
			for n := range pl.All {
				k := 0
				for _, rp := range wd.Repos {
					for _, p := range append(append([]w.Pkg{}, rp.Pkgs...), rp.Bins...) {
						if p.N == n && p.Path == "" {
							k++
						}
					}
				}
				nt = nt || k > 1
			}
			return h.Result{Nontrivial: nt, Classes: classes(wd, pl)}
		})

	prop("C04", "a case is one world with failures injected into R (exit codes, half-written packages, missing binaries) or into downloads; non-trivial: something was really attempted and failed",
		850, 25000,
		func(t *rapid.T) *faultCase {
			o := gen.Default()
			o.Pre, o.NoLib, o.Tarballs, o.Delays, o.NoUpdate, o.Density = 75, 18, 35, 20, 12, 20
			o.Roots = 60
			c := &faultCase{W: gen.World(t, o)}
			switch gen.U(t, 8) {
			case 0:
				if c.HTTP = httpFaults(t, c.W, 2, "status", "truncate", "reset"); c.HTTP == nil {
					installFaults(t, c.W, 3)
				}
			case 1:
				installFaults(t, c.W, 2)
				c.HTTP = httpFaults(t, c.W, 1, "status", "truncate", "reset")
			default:
				installFaults(t, c.W, 3)
			}
			if c.W.Cfg.NoUpdate && gen.Chance(t, 50) {
				c.W.Cfg.NoUpdate = false
			}
			if gen.Chance(t, 12) && c.HTTP == nil {
				// somebody cleans the cache while a package is installed
				x := clone(c.W)
				installFaults(t, x, 1)
				for n := range x.Faults {
					c.W.Faults = map[string][]w.Fault{n: {{Stage: gen.Pick(t, "any", "build", "final", "tarball"), Mode: "evict"}}}
				}
			}
			return c
		},
		func(env *w.Env, c *faultCase) h.Result {
			wd := c.W
			b := wd.Build(env)
			defer b.Close()
			pl := w.NewModel(wd).Plan()
			before := w.Snap(b.Lib)
			setFaults(b, c.HTTP)
			r := b.Run(w.RunOpt{}, "install")
			if r.Deadlock {
				return viol("%s", crashed(r))
			}
			after := w.Snap(b.Lib)
			fp, ft := failing(wd, pl)
			fails := len(fp)+len(ft) > 0
			dl := dlFails(wd, pl, c.HTTP)
			cl := classes(wd, pl)
			if fails || dl {
				if d := w.Diff(before, after); d != "" {
					return viol("library is not what it was before the failed installation: %s\nfailing: %v %v\nplan: new %v update %v\n%s", d, sorted(fp), sorted(ft), pl.New, pl.Update, r.Brief())
				}
				cl = append(cl, "rolled-back")
				if len(ft) > 0 {
					cl = append(cl, "tarball-failed")
				}
				if dl {
					cl = append(cl, "download-failed")
				}
				if len(pl.Update) > 0 {
					cl = append(cl, "failed-with-updates")
				}
				return h.Result{Nontrivial: true, Classes: cl}
			}
			if r.Exit != 0 {
				return viol("install without failures exited non-zero: %s", r.Brief())
			}
			for _, fs := range wd.Faults {
				if fs[0].Mode == "evict" {
					cl = append(cl, "cache-cleaned")
					if w.Diff(before, after) == "" && r.Blamed() {
						// something needed was no longer there
						return h.Result{Nontrivial: true, Classes: append(cl, "rolled-back")}
					}
				}
			}
			if v := checkSuccess(b, pl, before, after); v != "" {
				return viol("no failure was injected into what is needed, but: %s\n%s", v, r.Brief())
			}
			return h.Result{Classes: append(cl, "no-failure")}
		})

	worldProp("C06", "a case is one world whose library holds older, equal and newer versions of planned and unplanned packages, installed with a generated combination of NoUpdate, --no-update and --update; non-trivial: some planned package is installed in another version than the selected one",
		800, 25000,
		func(t *rapid.T) *w.World {
			o := gen.Default()
			o.AlwaysPre, o.NoLib, o.Density, o.Stray, o.Delays, o.NoUpdate = true, 0, 18, 10, 0, 35
			o.Tarballs, o.Descs, o.ForeignOld, o.Roots, o.MaxPkgs, o.MinPkgs = 5, 5, 70, 55, 8, 2
			wd := gen.World(t, o)
			wd.Cfg.Extra = map[string]string{"flags": gen.Pick(t, "", "", "", "--no-update", "--update", "--no-update --update")}
			return wd
		},
		func(env *w.Env, wd *w.World) h.Result {
			b := wd.Build(env)
			defer b.Close()
			fl := strings.Fields(wd.Cfg.Extra["flags"])
			eff := clone(wd)
			for _, f := range fl {
				eff.Cfg.NoUpdate = f == "--no-update" // --update comes last and wins
			}
			pl := w.NewModel(eff).Plan()
			before := w.Snap(b.Lib)
			r := b.Run(w.RunOpt{}, append([]string{"install"}, fl...)...)
			if v := crashed(r); v != "" {
				return viol("%s", v)
			}
			if r.Exit != 0 {
				return viol("install failed: %s", r.Brief())
			}
			if v := checkSuccess(b, pl, before, w.Snap(b.Lib)); v != "" {
				return viol("%s (effective NoUpdate %v, plan: new %v update %v keep %v)\n%s", v, eff.Cfg.NoUpdate, pl.New, pl.Update, pl.Keep, r.Brief())
			}
			cl := classes(eff, pl)
			nt := len(pl.Old) > 0
			for _, in := range wd.Lib {
				if s, ok := pl.All[in.N]; ok && w.VerCmp(in.V, s.Pkg.V) > 0 {
					nt, cl = true, append(cl, "newer-installed")
					break
				}
			}
			if len(fl) > 0 {
				cl = append(cl, "flags")
			}
			return h.Result{Nontrivial: nt, Classes: cl}
		})

	worldProp("C08", "a case is one world installed twice (sometimes from a different directory or with a fresh package index the second time); non-trivial: the first run installed or updated something",
		500, 15000,
		func(t *rapid.T) *w.World {
			o := gen.Default()
			o.Delays = 0
			wd := gen.World(t, o)
			wd.Cfg.Extra = map[string]string{"second": gen.Pick(t, "same", "same", "age0", "nocache", "nopkgcache")}
			return wd
		},
		func(env *w.Env, wd *w.World) h.Result {
			b := wd.Build(env)
			defer b.Close()
			pl := w.NewModel(wd).Plan()
			if r := b.Run(w.RunOpt{}, "install"); r.Exit != 0 || r.Deadlock {
				return viol("install of a satisfiable configuration failed: %s", r.Brief())
			}
			first := w.Snap(b.Lib)
			opt := w.RunOpt{}
			switch wd.Cfg.Extra["second"] {
			case "age0":
				opt.Env = []string{NoAge}
			case "nocache":
				_ = os.RemoveAll(b.XDG)
			case "nopkgcache":
				_ = os.RemoveAll(b.CacheDir)
			}
			tb := map[string]bool{}
			for _, t := range wd.Tarballs {
				tb[t.N] = true
			}
			p := b.Run(opt, "plan")
			if p.Exit != 0 {
				return viol("plan after install failed: %s", p.Brief())
			}
			if len(tb) == 0 {
				for _, m := range p.LogMsgs("package installation plan") {
					for _, k := range []string{"to_install", "to_update"} {
						if n, ok := num(m, k); ok && n != 0 && !(k == "to_update" && wd.Cfg.NoUpdate) {
							return viol("after a successful install, plan reports %s=%d: %s", k, n, p.Brief())
						}
					}
				}
			}
			r := b.Run(opt, "install")
			if r.Exit != 0 || r.Deadlock {
				return viol("second install failed: %s", r.Brief())
			}
			for _, e := range r.Installs() {
				if !tb[e.Pkg] {
					return viol("second install asked R to install %s again (%s)\n%s", e.Pkg, e.Stage, r.Brief())
				}
			}
			if d := w.Diff(first, w.Snap(b.Lib)); d != "" {
				return viol("second install changed the library: %s\n%s", d, r.Brief())
			}
			return h.Result{Nontrivial: len(pl.New)+len(pl.Update) > 0, Classes: append(classes(wd, pl), "second-"+wd.Cfg.Extra["second"])}
		})

	worldProp("C09", "a case is one world on which 'pkgr plan' and then 'pkgr install' run; non-trivial: the plan has something to install, update or keep",
		650, 20000,
		func(t *rapid.T) *w.World {
			o := gen.Default()
			o.Delays, o.NoUpdate, o.Pre, o.Tarballs = 0, 30, 75, 15
			return gen.World(t, o)
		},
		func(env *w.Env, wd *w.World) h.Result {
			b := wd.Build(env)
			defer b.Close()
			pl := w.NewModel(wd).Plan()
			lib, proj, cache := w.Snap(b.Lib), w.Snap(b.Proj), w.Snap(b.CacheDir)
			p := b.Run(w.RunOpt{}, "plan")
			if v := crashed(p); v != "" {
				return viol("%s", v)
			}
			if p.Exit != 0 {
				return viol("plan of a satisfiable configuration failed: %s", p.Brief())
			}
			if d := w.Diff(lib, w.Snap(b.Lib)); d != "" {
				return viol("plan changed the library: %s", d)
			}
			if d := w.Diff(proj, w.Snap(b.Proj)); d != "" {
				return viol("plan changed the project: %s", d)
			}
			if d := w.Diff(cache, w.Snap(b.CacheDir)); d != "" && len(wd.Tarballs) == 0 {
				return viol("plan changed the package cache: %s", d)
			}
			if n := p.Installs(); len(n) > 0 {
				return viol("plan asked R to install %s", n[0].Pkg)
			}
			for n, s := range b.Servers {
				for _, q := range s.Requests() {
					if strings.HasSuffix(q, ".tar.gz") {
						return viol("plan downloaded %s from %s", q, n)
					}
				}
			}
			// what was announced
			tb := map[string]bool{}
			for _, t := range wd.Tarballs {
				tb[t.N] = true
			}
			announced := map[string]string{}
			for _, m := range p.LogMsgs("package repository set") {
				announced[str(m, "pkg")] = str(m, "repo") + " " + str(m, "version")
			}
			toUpdate := []string{}
			for _, m := range p.LogMsgs("package will be updated") {
				toUpdate = append(toUpdate, str(m, "pkg")+" "+str(m, "installed_version")+" "+str(m, "update_version"))
			}
			warned := []string{}
			for _, m := range p.LogMsgs("outdated package found") {
				warned = append(warned, str(m, "pkg")+" "+str(m, "installed_version")+" "+str(m, "update_version"))
			}
			old := map[string]string{}
			for _, in := range wd.Lib {
				old[in.N] = in.V
			}
			var wantOld []string
			for _, n := range pl.Old {
				wantOld = append(wantOld, n+" "+old[n]+" "+pl.All[n].Pkg.V)
			}
			if wd.Cfg.NoUpdate {
				if !same(warned, wantOld) || len(toUpdate) > 0 {
					return viol("with updates disabled, plan should report as outdated %v, reported %v, to update %v", wantOld, warned, toUpdate)
				}
			} else if !same(toUpdate, wantOld) || len(warned) > 0 {
				return viol("plan should announce updates of %v, announced %v, outdated %v", wantOld, toUpdate, warned)
			}
			overlap := false
			for n := range tb {
				if _, ok := pl.All[n]; ok {
					overlap = true
				}
			}
			if ms := p.LogMsgs("package installation plan"); len(ms) == 1 && !overlap {
				ti, _ := num(ms[0], "to_install")
				tu, _ := num(ms[0], "to_update")
				// updated packages are counted as to be installed as well
				if want := len(pl.New) + len(pl.Update) + len(tb); ti != want || tu != len(pl.Update) {
					return viol("plan announces to_install=%d to_update=%d, expected %d and %d (new %v update %v tarballs %v)", ti, tu, want, len(pl.Update), pl.New, pl.Update, sorted(tb))
				}
			} else if len(ms) != 1 {
				return viol("plan did not announce what would be installed: %s", p.Brief())
			}
			if v := announcedNumbers(wd, pl, p, overlap); v != "" {
				return viol("%s\n%s", v, p.Brief())
			}
			for n, s := range pl.All {
				if announced[n] != s.Repo+" "+s.Pkg.V {
					return viol("plan announces %q for package %s, expected %q", announced[n], n, s.Repo+" "+s.Pkg.V)
				}
			}
			for n := range announced {
				if _, ok := pl.All[n]; !ok {
					return viol("plan announces package %s which is not part of it", n)
				}
			}
			// install does what plan announced
			before := w.Snap(b.Lib)
			r := b.Run(w.RunOpt{}, "install")
			if r.Exit != 0 || r.Deadlock {
				return viol("install after plan failed: %s", r.Brief())
			}
			if v := checkSuccess(b, pl, before, w.Snap(b.Lib)); v != "" {
				return viol("install did not do what plan announced: %s", v)
			}
			return h.Result{Nontrivial: len(pl.All) > 0, Classes: classes(wd, pl)}
		})
}

// announcedNumbers checks what plan says about the library, the repositories
// and the workers.
func announcedNumbers(wd *w.World, pl *w.Plan, p *w.RunRes, overlap bool) string {
	tb := map[string]bool{}
	for _, t := range wd.Tarballs {
		tb[t.N] = true
	}
	present, foreign := map[string]bool{}, map[string]bool{}
	for _, in := range wd.Lib {
		if !in.NoDesc {
			present[in.N] = true
			if !in.Pkgr {
				foreign[in.N] = true
			}
		}
	}
	for _, m := range p.LogMsgs("package installation status") {
		for k, want := range map[string]int{"total_packages_required": len(pl.All) + len(tb), "installed": len(present), "outdated": len(pl.Old), "not_from_pkgr": len(foreign)} {
			if k == "total_packages_required" && overlap {
				continue
			}
			if got, ok := num(m, k); ok && got != want {
				return sprintf("plan announces %s=%d, expected %d", k, got, want)
			}
		}
	}
	for _, m := range p.LogMsgs("package installation sources") {
		want := map[string]int{"tarballs": len(tb)}
		for _, s := range pl.All {
			want[s.Repo]++
		}
		for k, x := range want {
			if got, ok := num(m, k); ok && got != x || !ok && x > 0 {
				return sprintf("plan announces %d packages from %s, expected %d", got, k, x)
			}
		}
	}
	for _, m := range p.LogMsgs("Packages not installed by pkgr") {
		if l, ok := m["packages"].([]interface{}); ok {
			var got []string
			for _, x := range l {
				got = append(got, sprintf("%v", x))
			}
			if !same(got, sorted(foreign)) {
				return sprintf("plan lists %v as not installed by pkgr, expected %v", got, sorted(foreign))
			}
		}
	}
	if len(foreign) == 0 && len(p.LogMsgs("Packages not installed by pkgr")) > 0 {
		return "plan warns of packages not installed by pkgr, there are none"
	}
	if ms := p.LogMsgs("to install"); len(ms) > 0 && !overlap {
		got := map[string]string{}
		for _, m := range ms {
			if _, dup := got[str(m, "package")]; dup {
				return "plan announces " + str(m, "package") + " twice"
			}
			got[str(m, "package")] = str(m, "repo") + " " + str(m, "version")
		}
		for _, n := range pl.New {
			if s := pl.All[n]; got[n] != s.Repo+" "+s.Pkg.V {
				return sprintf("plan announces to install %s from %q, expected %q", n, got[n], s.Repo+" "+s.Pkg.V)
			}
			delete(got, n)
		}
		for n := range got {
			if !tb[n] {
				return sprintf("plan announces to install %q, which is not to be installed", n)
			}
		}
	}
	n := wd.Cfg.Threads
	if n < 1 {
		if n = wd.Procs; n > 8 {
			n = 8
		}
	}
	for _, l := range p.Logs {
		var k int
		if c, _ := fmt.Sscanf(str(l, "msg"), "Installation would launch %d workers", &k); c == 1 && n > 0 && k != n {
			return sprintf("plan announces %d workers, expected %d", k, n)
		}
	}
	return ""
}
