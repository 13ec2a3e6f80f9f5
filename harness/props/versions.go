package props

import (
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// verCase holds independent pairs of versions, each judged through its own package.
type verCase struct {
	R     string      `json:"r"`
	Pairs [][2]string `json:"pairs"` // installed, available
	RCs   []string    `json:"rcs"`   // R entries of Depends
	Bin   bool        `json:"bin,omitempty"`
}

func wideVersion(t *rapid.T) string {
	if gen.Chance(t, 55) {
		return gen.Version(t)
	}
	n := gen.R(t, 2, 5)
	var p []string
	for i := 0; i < n; i++ {
		switch gen.U(t, 6) {
		case 0, 1, 2:
			p = append(p, sprintf("%d", gen.U(t, 12)))
		case 3:
			p = append(p, sprintf("%d", gen.R(t, 90, 110)))
		case 4:
			p = append(p, sprintf("%d", gen.R(t, 1990, 2030)))
		case 5:
			p = append(p, []string{"20190101", "20191231", "9000", "2147483647", "01", "007"}[gen.U(t, 6)])
		}
	}
	s := p[0]
	for _, x := range p[1:] {
		s += gen.Pick(t, ".", ".", ".", "-") + x
	}
	return s
}

// undecided: the versions differ in trailing zeros only, which R and pkgr see
// differently and no documentation settles.
func undecided(a, b string) bool {
	return w.VerCmp(a, b) == 0 && len(w.VerParts(a)) != len(w.VerParts(b))
}

func init() {
	prop("C07", "a case is one plan run over 20 to 60 independent packages, each with its own pair of installed and available versions, and up to 25 packages with a generated requirement on the version of R; evaluations count runs, not pairs; non-trivial: at least one pair differs first in a later component or in its separators, or has components of different lengths",
		330, 12000,
		func(t *rapid.T) *verCase {
			c := &verCase{R: gen.Pick(t, "4.3.3", "4.1.0", "4.0.5", "3.6.3", "4.3.10", "4.10.1", "3.10.0")}
			c.Bin = gen.Chance(t, 20)
			for i, n := 0, gen.R(t, 20, 60); i < n; i++ {
				a := wideVersion(t)
				b := a
				switch gen.U(t, 6) {
				case 0:
					b = wideVersion(t)
				case 1:
					b = strings.NewReplacer(".", "-").Replace(a)
				case 2, 3, 4:
					b = gen.Near(t, a)
				}
				if undecided(a, b) {
					b = a
				}
				c.Pairs = append(c.Pairs, [2]string{a, b})
			}
			for i, n := 0, gen.R(t, 0, 35); i < n; i++ {
				op := gen.Pick(t, ">=", ">=", ">", "<=", "<", "==", "!=")
				v := c.R
				if gen.Chance(t, 75) {
					v = gen.Near(t, c.R)
				}
				if gen.Chance(t, 15) {
					v = gen.Pick(t, "4.10.0", "4.3.9", "3.10", "4.2", "10.0.0", "0.9")
				}
				if undecided(c.R, v) {
					v = c.R
				}
				var rc string
				switch gen.U(t, 9) {
				case 0, 1:
					rc = "R(" + op + v + ")"
				case 2, 3:
					rc = "R ( " + op + " " + v + " )"
				case 4:
					rc = "R"
				default:
					rc = "R (" + op + " " + v + ")"
				}
				if k := len(c.RCs) - 1; k >= 0 && gen.Chance(t, 35) {
					// several requirements of one package
					c.RCs[k] += ", " + rc
				} else {
					c.RCs = append(c.RCs, rc)
				}
			}
			return c
		},
		func(env *w.Env, c *verCase) h.Result {
			wd := &w.World{R: c.R, Repos: []w.Repo{{Name: "CRAN"}}}
			r0 := &wd.Repos[0]
			nt := false
			cl := map[string]bool{}
			for i, p := range c.Pairs {
				n := sprintf("p%02d", i)
				r0.Pkgs = append(r0.Pkgs, w.Pkg{N: n, V: p[1]})
				wd.Lib = append(wd.Lib, w.Inst{N: n, V: p[0], Pkgr: i%2 == 0})
				wd.Cfg.Pkgs = append(wd.Cfg.Pkgs, n)
				x, y := w.VerParts(p[0]), w.VerParts(p[1])
				for k := range x {
					if k < len(y) && x[k] != y[k] {
						if k > 1 {
							nt = true
							cl["late-component"] = true
						}
						if xs, ys := sprintf("%d", x[k]), sprintf("%d", y[k]); (x[k] > y[k]) != (xs > ys) {
							cl["numeric-not-lexical"] = true
						}
						break
					}
				}
				if len(x) != len(y) {
					nt = true
					cl["different-length"] = true
				}
				if p[0] != p[1] && w.VerCmp(p[0], p[1]) == 0 {
					nt = true
					cl["equal-with-other-separators"] = true
				}
			}
			for i, rc := range c.RCs {
				n := sprintf("r%02d", i)
				r0.Pkgs = append(r0.Pkgs, w.Pkg{N: n, V: "1.0"}, w.Pkg{N: n, V: "2.0", RC: rc})
				wd.Cfg.Pkgs = append(wd.Cfg.Pkgs, n)
				cl["requirement-on-R"] = true
			}
			if c.Bin {
				r0.HasBin, r0.RepoType, r0.Bins = true, "MPN", r0.Pkgs
				cl["binary"] = true
			}
			b := wd.Build(env)
			defer b.Close()
			r := b.Run(w.RunOpt{}, "plan", "--update")
			if r.Exit != 0 || r.Deadlock {
				return viol("plan failed: %s", r.Brief())
			}
			got := map[string]string{}
			for _, m := range r.LogMsgs("package will be updated") {
				got[str(m, "pkg")] = str(m, "installed_version") + " -> " + str(m, "update_version")
			}
			for i, p := range c.Pairs {
				n := sprintf("p%02d", i)
				want := ""
				if w.VerCmp(p[1], p[0]) > 0 {
					want = p[0] + " -> " + p[1]
				}
				if got[n] != want {
					return viol("installed version %s, available version %s: announced update is %q, expected %q", p[0], p[1], got[n], want)
				}
			}
			ver := map[string]string{}
			for _, m := range r.LogMsgs("package repository set") {
				ver[str(m, "pkg")] = str(m, "version")
			}
			for i, rc := range c.RCs {
				want := "1.0"
				if w.RCompatible(rc, c.R) {
					want = "2.0"
				}
				if g := ver[sprintf("r%02d", i)]; g != want {
					return viol("with R %s, of version 1.0 and version 2.0 depending on %q the selected one is %q, expected %s", c.R, rc, g, want)
				}
			}
			return h.Result{Nontrivial: nt, Classes: sorted(cl)}
		})
}
