// Package props holds the executable properties.
package props

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

func viol(f string, a ...interface{}) h.Result { return h.Result{Viol: fmt.Sprintf(f, a...)} }

func set(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// view is one installed package as found on disk.
func payload(lib, pkg string) string { return w.ReadFile(filepath.Join(lib, pkg, "R", "payload.R")) }

func dcfField(text, field string) string {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, field+":") {
			return strings.TrimSpace(strings.TrimPrefix(l, field+":"))
		}
	}
	return ""
}

func instVersion(lib, pkg string) string {
	return dcfField(w.ReadFile(filepath.Join(lib, pkg, "DESCRIPTION")), "Version")
}

// crashed reports a run that ended in an uncontrolled way.
func crashed(r *w.RunRes) string {
	if r.Deadlock {
		return "pkgr did not terminate: " + r.Brief()
	}
	if r.Panic {
		return "pkgr crashed: " + r.Brief()
	}
	return ""
}

// checkSuccess compares the library after a successful install with the plan.
func checkSuccess(b *w.Box, pl *w.Plan, before, after w.Tree) string {
	want := map[string]bool{}
	for _, n := range before.Tops() {
		want[n] = true
	}
	for _, n := range pl.New {
		want[n] = true
	}
	for _, t := range b.W.Tarballs {
		want[t.N] = true
	}
	got := set(after.Tops())
	for _, n := range sorted(want) {
		if !got[n] {
			return "missing from the library after a successful install: " + n
		}
	}
	for _, n := range sorted(got) {
		if !want[n] {
			return "unexpected entry in the library after install: " + n
		}
	}
	touched := map[string]bool{}
	for _, t := range b.W.Tarballs {
		touched[t.N] = true
		if p := payload(b.Lib, t.N); p != w.Payload("tarball", false, t) {
			return fmt.Sprintf("tarball package %s: installed content is %q, tarball has %q", t.N, p, w.Payload("tarball", false, t))
		}
		if v := instVersion(b.Lib, t.N); v != t.V {
			return fmt.Sprintf("tarball package %s: installed version %s, tarball has %s", t.N, v, t.V)
		}
	}
	for _, n := range append(append([]string{}, pl.New...), pl.Update...) {
		if touched[n] {
			continue
		}
		touched[n] = true
		s := pl.All[n]
		if p := payload(b.Lib, n); p != s.Payload() {
			return fmt.Sprintf("package %s: installed content is %q, selected package has %q", n, p, s.Payload())
		}
		if v := instVersion(b.Lib, n); v != s.Pkg.V {
			return fmt.Sprintf("package %s: installed version %s, selected %s", n, v, s.Pkg.V)
		}
		// every file of the package arrived
		for f := range s.Pkg.Files(s.Repo, s.Bin, b.W.R) {
			if _, ok := after[filepath.Join(n, f)]; !ok {
				return fmt.Sprintf("package %s: file %s missing after install", n, f)
			}
		}
	}
	for _, n := range before.Tops() {
		if touched[n] {
			continue
		}
		if d := w.Diff(before.Sub(n), after.Sub(n)); d != "" {
			return fmt.Sprintf("entry %s of the library should not have been touched: %s", n, d)
		}
	}
	return ""
}

// checkOrder checks what R was asked to do.
func checkOrder(b *w.Box, pl *w.Plan, r *w.RunRes) string { return checkOrderOf(b, pl, r, false) }

// checkOrderOf with failed set does not expect the plan to be complete before
// tarballs are tried.
func checkOrderOf(b *w.Box, pl *w.Plan, r *w.RunRes, failed bool) string {
	work := set(append(append([]string{}, pl.New...), pl.Update...))
	tb := map[string]bool{}
	for _, t := range b.W.Tarballs {
		tb[t.N] = true
	}
	done := map[string]bool{}
	for _, n := range pl.Keep {
		// a tarball replaces what is installed, so the old package is set aside first
		if !tb[n] {
			done[n] = true
		}
	}
	count := map[string]int{}
	for _, e := range r.Events {
		switch e.Ev {
		case "start":
			if e.Pkg == "" {
				return "R was asked to install something unreadable: " + e.Src + " " + e.Msg
			}
			if e.Stage == "tarball" {
				if !tb[e.Pkg] {
					return "R was asked to install directory " + e.Src + " which is no configured tarball"
				}
				for n := range work {
					if !done[n] && !failed {
						return fmt.Sprintf("tarball package %s was started before planned package %s was installed", e.Pkg, n)
					}
				}
				continue
			}
			if !work[e.Pkg] {
				if _, in := pl.All[e.Pkg]; in && !tb[e.Pkg] {
					return fmt.Sprintf("R was asked to install %s which is already installed", e.Pkg)
				}
				if _, in := pl.All[e.Pkg]; !in {
					return fmt.Sprintf("R was asked to install %s which is not part of the plan", e.Pkg)
				}
			}
			count[e.Stage+" "+e.Pkg]++
			if count[e.Stage+" "+e.Pkg] > 1 {
				return fmt.Sprintf("package %s went through stage %s twice", e.Pkg, e.Stage)
			}
			for d := range pl.Closure(e.Pkg) {
				if !done[d] {
					return fmt.Sprintf("installation (%s) of %s was started before its dependency %s was installed", e.Stage, e.Pkg, d)
				}
			}
		case "end":
			if e.Code == 0 && e.Lib == b.Lib {
				done[e.Pkg] = true
			}
		}
	}
	return ""
}

func worldProp(id, rule string, quick, thorough int, g func(t *rapid.T) *w.World, run func(env *w.Env, wd *w.World) h.Result) {
	h.Register(&h.Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) interface{} { return g(t) },
		New: func() interface{} { return &w.World{} },
		Run: func(env *w.Env, c interface{}) h.Result { return run(env, c.(*w.World)) },
	})
}

func classes(wd *w.World, pl *w.Plan) []string {
	var c []string
	add := func(ok bool, s string) {
		if ok {
			c = append(c, s)
		}
	}
	add(len(pl.New) > 0, "new")
	add(len(pl.Update) > 0, "update")
	add(len(pl.Keep) > 0, "keep")
	add(len(wd.Tarballs) > 0, "tarball")
	add(len(wd.Descs) > 0, "descriptions")
	add(wd.NoLib, "no-library")
	add(len(wd.Repos) > 1, "multi-repo")
	add(len(wd.Cfg.Ignore) > 0, "ignore")
	add(wd.Cfg.Suggests || len(wd.Cfg.Cust) > 0, "custom")
	add(len(wd.Faults) > 0, "fault")
	add(wd.Cfg.NoUpdate, "noupdate")
	bin, http, edges := false, false, 0
	for n, s := range pl.All {
		bin = bin || s.Bin
		edges += len(pl.Deps[n])
	}
	for _, r := range wd.Repos {
		http = http || r.HTTP
	}
	add(bin, "binary")
	add(http, "http")
	add(edges > 0, "deps")
	add(edges > 3, "deps>3")
	return c
}

func init() {
	worldProp("C01", "a case is one generated world (repositories, configuration, library, delays) on which 'pkgr install' runs; non-trivial: at least two packages to install with at least one dependency between planned packages",
		900, 25000,
		func(t *rapid.T) *w.World {
			o := gen.Default()
			o.Density, o.MinPkgs, o.MaxPkgs, o.Delays, o.Roots = 35, 2, 11, 55, 30
			o.Deep = gen.Chance(t, 25)
			o.Tarballs, o.Descs = 15, 10
			return gen.World(t, o)
		},
		func(env *w.Env, wd *w.World) h.Result {
			b := wd.Build(env)
			defer b.Close()
			pl := w.NewModel(wd).Plan()
			r := b.Run(w.RunOpt{}, "install")
			if v := crashed(r); v != "" {
				return viol("%s", v)
			}
			if v := checkOrder(b, pl, r); v != "" {
				return viol("%s\n%s", v, r.Brief())
			}
			if r.Exit != 0 {
				return viol("install of a satisfiable configuration failed: %s", r.Brief())
			}
			nt := false
			work := set(append(append([]string{}, pl.New...), pl.Update...))
			for n := range work {
				for _, d := range pl.Deps[n] {
					if work[d] {
						nt = true
					}
				}
			}
			return h.Result{Nontrivial: nt && len(work) > 1, Classes: classes(wd, pl)}
		})
	worldProp("C02", "a case is one generated world on which 'pkgr install' runs once without injected faults; non-trivial: something had to be installed or updated",
		900, 25000,
		func(t *rapid.T) *w.World { return gen.World(t, gen.Default()) },
		func(env *w.Env, wd *w.World) h.Result {
			b := wd.Build(env)
			defer b.Close()
			pl := w.NewModel(wd).Plan()
			before := w.Snap(b.Lib)
			r := b.Run(w.RunOpt{}, "install")
			if v := crashed(r); v != "" {
				return viol("%s", v)
			}
			after := w.Snap(b.Lib)
			if r.Exit != 0 {
				return viol("install of a satisfiable configuration failed: %s", r.Brief())
			}
			if v := checkSuccess(b, pl, before, after); v != "" {
				return viol("%s\nplan: new %v update %v keep %v\n%s", v, pl.New, pl.Update, pl.Keep, r.Brief())
			}
			if strings.Contains(r.Out, "did not install") {
				return viol("a successful installation claims not to have installed something: %s", r.Brief())
			}
			for _, l := range r.Logs {
				if lv := str(l, "level"); lv == "error" || lv == "fatal" {
					for n := range pl.All {
						// folders that are no packages are remarked upon
						if wordIn(fmt.Sprint(l), n) && !hasRemnant(wd, n) {
							return viol("a successful installation reports an error about %s: %v\n%s", n, l, r.Brief())
						}
					}
				}
			}
			return h.Result{Nontrivial: len(pl.New)+len(pl.Update)+len(wd.Tarballs) > 0, Classes: classes(wd, pl)}
		})
}

func hasRemnant(wd *w.World, n string) bool {
	for _, in := range wd.Lib {
		if in.N == n && in.NoDesc {
			return true
		}
	}
	return false
}
