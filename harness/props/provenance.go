package props

import (
	"encoding/json"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// dcfFields reads a DESCRIPTION; values keep their continuation lines.
func dcfFields(text string) (m map[string]string, dup string) {
	m = map[string]string{}
	cur := ""
	for _, l := range strings.Split(strings.TrimRight(text, "\n"), "\n") {
		switch {
		case l == "":
			return m, "an empty line ends the record"
		case l[0] == ' ' || l[0] == '\t':
			m[cur] += "\n" + l
		default:
			i := strings.IndexByte(l, ':')
			if i < 0 {
				return m, "no field: " + l
			}
			cur = l[:i]
			if _, ok := m[cur]; ok {
				dup = "field " + cur + " twice"
			}
			m[cur] = strings.TrimSpace(l[i+1:])
		}
	}
	return m, dup
}

type provCase struct {
	W     *w.World `json:"w"`
	Again bool     `json:"again,omitempty"` // installed again from the cache
}

func init() {
	prop("C22", "a case is a world whose packages have unusual DESCRIPTION files (repository fields, remarks of earlier pkgr versions, fields that look alike, folded text); non-trivial: a package with such fields was installed",
		500, 12000,
		func(t *rapid.T) *provCase {
			o := gen.Default()
			o.MaxPkgs, o.Delays, o.Bin, o.Tarballs = 6, 0, 50, 30
			c := &provCase{W: gen.World(t, o), Again: gen.Chance(t, 30)}
			dress := func(p *w.Pkg, repo string) {
				if gen.Chance(t, 60) {
					p.Repo = gen.Pick(t, "CRAN", "RSPM", repo, "MPN", repo+"2", "a b")
				}
				for i, n := 0, gen.R(t, 0, 3); i < n; i++ {
					x := gen.Pick(t,
						gen.Pick(t, "X", "Old", "Remote", "")+gen.Pick(t, "Pkgr", "Repository", "PkgrVersion", "PkgrInstallType", "PkgrRepository", "PkgrRepositoryURL", "Original", "OriginalRepository")+gen.Pick(t, "Note", "s", "2", "-x", "/Field")+": "+gen.Pick(t, "internal", "a: b", "x\n\tsecond line", "PkgrVersion: 1")+"\n",
						"Repository/R-Forge/Project: foo\nRepository/R-Forge/Revision: 1234\n",
						"RepositoryX: CRAN\n",
						"PkgrVersionOther: 1\n",
						"PkgrVersion: 0.9.0\nPkgrInstallType: binary\nPkgrRepositoryURL: https://old.example/x\n",
						"PkgrRepositoryURL: https://old.example/x\n",
						"Authors@R: c(person(\"A\", \"B\",\n    role = c(\"aut\", \"cre\"),\n\temail = \"x@y.z\"))\n",
						"Note: first line\n    PkgrVersion: inside a folded field\n    Repository: also inside\n",
						"URL: https://a.example, https://b.example/?x=y&z=%20\n",
						"Title2: \u00fcml\u00e4ut \u4e2d\u6587\n",
						"Empty:\n",
						"RemoteRepos: https://cran.example\nRemoteSha: 0123abc\n",
						"Collate:\n    'a.R'\n    'b.R'\n",
						"OriginalRepository: SomewhereElse\n",
					)
					if f, _, _ := strings.Cut(x, ":"); !strings.Contains(p.More, f+":") {
						if f != "PkgrVersion" || !strings.Contains(p.More, "PkgrRepositoryURL") {
							p.More += x
						}
					}
				}
			}
			for i := range c.W.Repos {
				r := &c.W.Repos[i]
				for j := range r.Pkgs {
					dress(&r.Pkgs[j], r.Name)
				}
				for j := range r.Bins {
					dress(&r.Bins[j], r.Name)
				}
			}
			for j := range c.W.Tarballs {
				dress(&c.W.Tarballs[j], "CRAN")
			}
			return c
		},
		func(env *w.Env, c *provCase) h.Result {
			wd := c.W
			b := wd.Build(env)
			defer b.Close()
			pl := w.NewModel(wd).Plan()
			r := b.Run(w.RunOpt{}, "install")
			if r.Exit != 0 || r.Deadlock {
				return viol("install failed: %s", r.Brief())
			}
			if c.Again {
				// the library is rebuilt from what is cached
				for _, n := range pl.New {
					removeTree(filepath.Join(b.Lib, n))
				}
				if r = b.Run(w.RunOpt{}, "install"); r.Exit != 0 {
					return viol("second install failed: %s", r.Brief())
				}
			}
			version := strings.TrimSpace(b.Run(w.RunOpt{NoLog: true}, "--version").Out)
			if f := strings.Fields(version); len(f) > 0 {
				version = f[len(f)-1]
			}
			nt := false
			check := func(p w.Pkg, repo, url string, bin, tarball bool) string {
				text := w.ReadFile(filepath.Join(b.Lib, p.N, "DESCRIPTION"))
				got, dup := dcfFields(text)
				if dup != "" {
					return sprintf("DESCRIPTION of %s: %s: %q", p.N, dup, text)
				}
				src, _ := dcfFields(p.Description(p.Repo, bin, wd.R))
				for f, v := range src {
					switch f {
					case "PkgrVersion", "PkgrInstallType", "PkgrRepositoryURL":
						continue
					case "Repository":
						if !tarball && got[f] != repo {
							return sprintf("DESCRIPTION of %s: Repository is %q, it came from %s: %q", p.N, got[f], repo, text)
						}
						if src[f] != got[f] && got["OriginalRepository"] == "" {
							return sprintf("DESCRIPTION of %s: the original repository %s was lost: %q", p.N, src[f], text)
						}
						if src["OriginalRepository"] == "" && src[f] != got[f] && got["OriginalRepository"] != src[f] {
							return sprintf("DESCRIPTION of %s: the original repository was %q, not %q", p.N, src[f], got["OriginalRepository"])
						}
						continue
					case "OriginalRepository":
						if got[f] == v || got[f] == src["Repository"] {
							continue
						}
					}
					if got[f] != v {
						return sprintf("DESCRIPTION of %s: field %s is %q, in the package it was %q", p.N, f, got[f], v)
					}
				}
				for f := range got {
					if _, ok := src[f]; !ok && f != "PkgrVersion" && f != "PkgrInstallType" && f != "PkgrRepositoryURL" && f != "OriginalRepository" && f != "Built" {
						return sprintf("DESCRIPTION of %s: unexpected field %s: %q", p.N, f, text)
					}
				}
				if got["PkgrVersion"] == "" || version != "" && got["PkgrVersion"] != version {
					return sprintf("DESCRIPTION of %s: PkgrVersion %q, pkgr is %q", p.N, got["PkgrVersion"], version)
				}
				if !tarball {
					if got["PkgrRepositoryURL"] != url {
						return sprintf("DESCRIPTION of %s: PkgrRepositoryURL %q, it came from %s", p.N, got["PkgrRepositoryURL"], url)
					}
					ty := got["PkgrInstallType"]
					if bin && ty != "binary" || !bin && !c.Again && ty != "source" || ty != "binary" && ty != "source" {
						return sprintf("DESCRIPTION of %s: PkgrInstallType %q, binary package: %v", p.N, ty, bin)
					}
				}
				return ""
			}
			tb := map[string]bool{}
			for _, p := range wd.Tarballs {
				tb[p.N] = true
				if m := check(p, "", "", false, true); m != "" {
					return viol("%s", m)
				}
				nt = nt || p.Repo != "" || p.More != ""
			}
			for _, n := range append(append([]string{}, pl.New...), pl.Update...) {
				if tb[n] {
					continue
				}
				s := pl.All[n]
				if m := check(s.Pkg, s.Repo, b.URLs[s.Repo], s.Bin, false); m != "" {
					return viol("%s", m)
				}
				nt = nt || s.Pkg.Repo != "" || s.Pkg.More != ""
			}
			// pkgr knows its own packages again
			foreign := 0
			lib, _ := scanLib(b)
			var own, others []string
			for _, in := range lib {
				if !in.Pkgr {
					foreign++
					others = append(others, in.N)
				} else {
					own = append(own, in.N)
				}
			}
			if q := b.Run(w.RunOpt{NoLog: true}, "inspect", "--installed-from", "--loglevel=fatal"); q.Exit != 0 {
				return viol("inspect --installed-from failed: %s", q.Brief())
			} else {
				var from struct{ Pkgr, Packrat, Unknown []string }
				if err := json.Unmarshal([]byte(q.Out), &from); err != nil {
					return viol("inspect --installed-from: %v: %q", err, q.Out)
				}
				if !same(uniq(from.Pkgr), uniq(own)) || !same(uniq(append(from.Packrat, from.Unknown...)), uniq(others)) {
					return viol("inspect --installed-from names %v as packages of pkgr and %v as others, the library has %v and %v", from.Pkgr, append(from.Packrat, from.Unknown...), own, others)
				}
			}
			p := b.Run(w.RunOpt{}, "plan")
			for _, l := range p.LogMsgs("package installation status") {
				if k, ok := num(l, "not_from_pkgr"); ok && k != foreign {
					return viol("%d packages of the library are not from pkgr, plan says %d", foreign, k)
				}
			}
			return h.Result{Nontrivial: nt}
		})
}
