package props

import (
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

func init() {
	prop("C10", "a case is one world with delays and one to four failing packages, installed with or without rollback; non-trivial: a package failed while others depended on it or were still to be installed",
		700, 25000,
		func(t *rapid.T) *faultCase {
			o := gen.Default()
			o.MinPkgs, o.MaxPkgs, o.Density, o.Delays, o.Roots, o.Pre, o.Tarballs, o.Descs, o.Stray = 3, 12, 30, 60, 30, 35, 15, 5, 10
			o.Deep = gen.Chance(t, 30)
			c := &faultCase{W: gen.World(t, o)}
			c.W.Cfg.NoRollback = gen.Chance(t, 40)
			if gen.Chance(t, 15) {
				c.HTTP = httpFaults(t, c.W, 2, "status", "truncate", "reset")
			}
			if c.HTTP == nil {
				installFaults(t, c.W, 4)
			}
			return c
		},
		func(env *w.Env, c *faultCase) h.Result {
			wd := c.W
			b := wd.Build(env)
			defer b.Close()
			pl := w.NewModel(wd).Plan()
			before := w.Snap(b.Lib)
			setFaults(b, c.HTTP)
			r := b.Run(w.RunOpt{}, "install")
			if v := crashed(r); v != "" {
				return viol("%s", v)
			}
			after := w.Snap(b.Lib)
			if v := checkOrderOf(b, pl, r, true); v != "" {
				return viol("%s\n%s", v, r.Brief())
			}
			tb := map[string]bool{}
			for _, t := range wd.Tarballs {
				tb[t.N] = true
			}
			// what R reported as failed has to be reported as failed, by name
			failed := map[string]bool{}
			done := map[string]bool{}
			for _, e := range r.Events {
				if e.Ev == "end" && e.Code != 0 {
					failed[e.Pkg] = true
				}
				if e.Ev == "end" && e.Code == 0 && e.Lib == b.Lib && e.Stage != "tarball" {
					done[e.Pkg] = true
				}
			}
			for _, n := range sorted(failed) {
				if !reported(r, n) {
					return viol("package %s failed to install but no warning or error names it: %s", n, r.Brief())
				}
			}
			fp, ft := failing(wd, pl)
			// the closing list of failures is that of the packages that failed
			for _, l := range r.Logs {
				list := strings.TrimPrefix(str(l, "msg"), "installation failed for packages: ")
				if list == str(l, "msg") {
					continue
				}
				named := set(strings.Split(list, ", "))
				for n := range failed {
					if _, planned := pl.All[n]; planned && !named[n] && !tb[n] {
						return viol("package %s failed to install but is not listed as failed: %s", n, list)
					}
				}
				for n := range named {
					if _, planned := pl.All[n]; !planned || done[n] && !failed[n] && !fp[n] {
						return viol("package %s is listed as failed but did not fail: %s", n, list)
					}
				}
			}
			dl := dlFails(wd, pl, c.HTTP)
			any := len(fp)+len(ft) > 0 || dl
			work := set(append(append([]string{}, pl.New...), pl.Update...))
			if any {
				// whatever could not be installed is named
				for _, n := range sorted(work) {
					if !done[n] && !reported(r, n) {
						return viol("package %s was not installed but no warning or error names it: %s", n, r.Brief())
					}
				}
				for _, e := range r.Installs() {
					if fp[e.Pkg] && !done[e.Pkg] || ft[e.Pkg] {
						if failed[e.Pkg] = true; !reported(r, e.Pkg) {
							return viol("package %s failed to install but no warning or error names it: %s", e.Pkg, r.Brief())
						}
					}
				}
				blamed := false
				for _, l := range r.Logs {
					switch str(l, "level") {
					case "error", "fatal", "panic":
						blamed = true
					}
				}
				if !blamed {
					return viol("a failed installation was not reported as an error: %s", r.Brief())
				}
			} else {
				if r.Exit != 0 || len(failed) > 0 {
					return viol("install of a satisfiable configuration failed: %s", r.Brief())
				}
				if v := checkSuccess(b, pl, before, after); v != "" {
					return viol("%s\n%s", v, r.Brief())
				}
				return h.Result{Classes: append(classes(wd, pl), "no-failure")}
			}
			cl := append(classes(wd, pl), "failed")
			if wd.Cfg.NoRollback {
				cl = append(cl, "no-rollback")
				// what was completed stays and is complete, what does not
				// concern the plan is untouched
				for _, n := range sorted(done) {
					if tb[n] {
						continue
					}
					s := pl.All[n]
					if p := payload(b.Lib, n); p != s.Payload() || instVersion(b.Lib, n) != s.Pkg.V {
						return viol("without rollback, package %s, which was installed, should be kept as %q, found %q", n, s.Payload(), p)
					}
					for f := range s.Pkg.Files(s.Repo, s.Bin, wd.R) {
						if _, ok := after[filepath.Join(n, f)]; !ok {
							return viol("without rollback, package %s lost file %s", n, f)
						}
					}
				}
				for _, n := range before.Tops() {
					if work[n] || tb[n] {
						continue
					}
					if d := w.Diff(before.Sub(n), after.Sub(n)); d != "" {
						return viol("a failed installation changed %s, which was not to be touched: %s", n, d)
					}
				}
				for _, n := range after.Tops() {
					if work[n] || tb[n] {
						continue
					}
					if _, ok := before[n]; !ok {
						return viol("a failed installation left %s behind: %s", n, r.Brief())
					}
				}
			} else if d := w.Diff(before, after); d != "" {
				return viol("the failed installation changed the library: %s\n%s", d, r.Brief())
			}
			nt := false
			for n := range work {
				if failed[n] {
					continue
				}
				nt = true
				for d := range pl.Closure(n) {
					if failed[d] {
						cl = append(cl, "dependents")
					}
				}
			}
			return h.Result{Nontrivial: nt, Classes: uniq(cl)}
		})
}
