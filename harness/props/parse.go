package props

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// rawPkg is an index entry with the way it is written down.
type rawPkg struct {
	P     w.Pkg `json:"p"`
	Order []int `json:"order"` // order of the fields
	Fold  int   `json:"fold"`
	Comma int   `json:"comma"` // superfluous commas
	Colon int   `json:"colon"`
	Extra int   `json:"extra"`
	Gap   int   `json:"gap"` // blank lines after the entry
}

type parseRepo struct {
	Name string   `json:"name"`
	HTTP bool     `json:"http,omitempty"`
	CRLF bool     `json:"crlf,omitempty"`
	Bin  bool     `json:"bin,omitempty"`
	Lead int      `json:"lead,omitempty"`
	Tail int      `json:"tail,omitempty"`
	Src  []rawPkg `json:"src"`
	Bins []rawPkg `json:"bins,omitempty"`
}

type parseCase struct {
	R        string      `json:"r"`
	Repos    []parseRepo `json:"repos"`
	Roots    []string    `json:"roots"`
	Suggests bool        `json:"suggests,omitempty"`
	NoRec    bool        `json:"norec,omitempty"`
}

func (p rawPkg) depField(name string, ds []string) string {
	if len(ds) == 0 {
		if p.Comma == 5 && name == "Suggests" {
			return "Suggests:\n"
		}
		return ""
	}
	sep := []string{", ", ",", ",\n        ", "\n    , ", ",\n\t", " , "}[p.Fold]
	v := strings.Join(ds, sep)
	switch p.Comma {
	case 1:
		v += ","
	case 2:
		v += sep
	case 3:
		v = strings.Join(ds, ","+sep)
	}
	colon := ": "
	switch p.Colon {
	case 1:
		colon = ":"
	case 2:
		colon = ":\n        "
	case 3:
		colon = ":  "
	case 4:
		colon = ":\t"
	}
	return name + colon + v + "\n"
}

func (p rawPkg) text() string {
	var dep []string
	for _, c := range strings.Split(p.P.RC, ",") {
		if strings.TrimSpace(c) != "" {
			dep = append(dep, strings.TrimSpace(c))
		}
	}
	if p.Extra%2 == 0 {
		dep = append(dep, p.P.Dep...)
	} else {
		dep = append(append([]string{}, p.P.Dep...), dep...)
	}
	f := []string{
		"Version: " + p.P.V + "\n",
		p.depField("Depends", dep),
		p.depField("Imports", p.P.Imp),
		p.depField("LinkingTo", p.P.Lnk),
		p.depField("Suggests", p.P.Sug),
		"License: GPL (>= 2) | file LICENSE\n",
		"NeedsCompilation: yes\n",
		[]string{"", "MD5sum: 0123456789abcdef0123456789abcdef\n", "Title: Tools: a b, c (d)\n", "SystemRequirements: C++11, libx (>= 2:1.0),\n        liby\n",
			"Description: Läßt sich nicht erraten:\n    zweite Zeile, (c) 2020\n", "Enhances: nothere, orhere (>= 9)\nPriority: optional\n", "License_restricts_use: no\nOS_type: unix\nArchs: i386, x64\n",
			"Author: O'Neil [aut] (<https://orcid.org/0000-0000>), \"A. B.\" <a@b.c>\nMaintainer: x <y@z>\n"}[p.Extra],
	}
	if p.P.Path != "" {
		f = append(f, "Path: "+p.P.Path+"\n")
	}
	if p.P.Repo != "" {
		f = append(f, "Repository: "+p.P.Repo+"\n")
	}
	s := "Package: " + p.P.N + "\n"
	done := map[int]bool{}
	for _, i := range p.Order {
		if i < len(f) && !done[i] {
			done[i] = true
			s += f[i]
		}
	}
	for i := range f {
		if !done[i] {
			s += f[i]
		}
	}
	return s
}

func (r parseRepo) index(ps []rawPkg) []byte {
	s := strings.Repeat("\n", r.Lead)
	for _, p := range ps {
		s += p.text() + strings.Repeat("\n", 1+p.Gap)
	}
	s = strings.TrimRight(s, "\n") + strings.Repeat("\n", r.Tail)
	if r.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}

func genParse(t *rapid.T) *parseCase {
	c := &parseCase{R: gen.Pick(t, "4.3.3", "4.1.0", "4.0.5", "3.6.3", "4.3.10")}
	names := gen.PickNames(t, gen.R(t, 2, 7))
	deco := func(n string) string {
		return n + gen.Pick(t, "", "", "", " (>= 1.0)", "(>=0.1)", " ( >= 1.2-3 )", " (> 0.0.1)", "\n        (>= 1.0)", " (>=  2019.1)", " (== 1.0)", " (!= 1.0)", " (<= 99)", "(< 99.0)")
	}
	mk := func(k int, bin bool) rawPkg {
		p := rawPkg{P: w.Pkg{N: names[k], V: gen.Version(t)}, Fold: gen.U(t, 6), Colon: []int{0, 0, 0, 1, 2, 3, 4}[gen.U(t, 7)], Extra: gen.U(t, 8)}
		p.Comma = []int{0, 0, 0, 0, 1, 2, 3, 5}[gen.U(t, 8)]
		for i, n := 0, gen.R(t, 0, 5); i < n; i++ {
			p.Order = append(p.Order, gen.U(t, 9))
		}
		p.Gap = []int{1, 1, 1, 1, 2, 3}[gen.U(t, 6)]
		for j := 0; j < k; j++ {
			if gen.Chance(t, 35) {
				l := []*[]string{&p.P.Imp, &p.P.Dep, &p.P.Lnk, &p.P.Sug}[gen.U(t, 4)]
				*l = append(*l, deco(names[j]))
			}
		}
		if gen.Chance(t, 20) {
			p.P.Imp = append(p.P.Imp, gen.Pick(t, "methods", "stats", "utils (>= 3.5)", "grid"))
		}
		if gen.Chance(t, 30) {
			p.P.RC = gen.Pick(t, "R", "R (>= 3.5.0)", "R(>=3.0)", "R ( >= 4.0 )", "R (>= 4.1)", "R (< 4.1)", "R (>= 3.5), R (< 4.1)", "R (>= 4.3.3), R (<= 4.3.9)", "R (!= 4.0.5)", "R (== "+c.R+")", "R (> 4.3.3)", "R (>= 3.0), R (!= 3.6.3), R (< 4.3.4)", "R (<= 4.2)", "R (>= 4.3.4)")
		}
		if gen.Chance(t, 8) {
			p.P.Path = gen.Pick(t, "4.99.0/Recommended", "Older", "3.6.0/Other")
		}
		if gen.Chance(t, 10) {
			p.P.Repo = "CRAN"
		}
		return p
	}
	fill := func(bin bool) []rawPkg {
		var out []rawPkg
		for k := range names {
			for i, n := 0, []int{0, 1, 1, 1, 1, 2, 3}[gen.U(t, 7)]; i < n; i++ {
				out = append(out, mk(k, bin))
			}
		}
		return out
	}
	for i, n := 0, gen.R(t, 1, 2); i < n; i++ {
		r := parseRepo{Name: []string{"CRAN", "MPN"}[i], HTTP: gen.Chance(t, 15), CRLF: gen.Chance(t, 15), Bin: gen.Chance(t, 25), Lead: []int{0, 0, 0, 1, 2}[gen.U(t, 5)], Tail: []int{1, 1, 2, 3, 0}[gen.U(t, 5)]}
		for len(r.Src) == 0 {
			r.Src = fill(false)
		}
		if r.Bin {
			for len(r.Bins) == 0 {
				r.Bins = fill(true)
			}
		}
		c.Repos = append(c.Repos, r)
	}
	c.Suggests = gen.Chance(t, 30)
	c.NoRec = gen.Chance(t, 15)
	wd := c.world()
	m := w.NewModel(wd)
	for i := len(names) - 1; i >= 0; i-- {
		if _, ok := m.Select(names[i]); ok && (len(c.Roots) == 0 || gen.Chance(t, 30)) {
			c.Roots = append(c.Roots, names[i])
		}
	}
	return c
}

func (c *parseCase) world() *w.World {
	wd := &w.World{R: c.R, NoLib: true}
	for _, r := range c.Repos {
		x := w.Repo{Name: r.Name, HTTP: r.HTTP}
		for _, p := range r.Src {
			x.Pkgs = append(x.Pkgs, p.P)
		}
		if r.Bin {
			x.HasBin, x.RepoType = true, "MPN"
			for _, p := range r.Bins {
				x.Bins = append(x.Bins, p.P)
			}
		}
		wd.Repos = append(wd.Repos, x)
	}
	wd.Cfg.Pkgs = c.Roots
	wd.Cfg.Suggests = c.Suggests
	wd.Cfg.NoRec = c.NoRec
	return wd
}

func init() {
	prop("C15", "a case is one set of repository indices written in a generated style (order of fields, folding, spacing, superfluous commas and blank lines, several versions per package, constraints on R) under which planning runs; non-trivial: at least two packages are planned and an index has several versions of a package or a package that does not suit the R version",
		3500, 100000, genParse,
		func(env *w.Env, c *parseCase) h.Result {
			wd := c.world()
			empty := clone(wd)
			for i := range empty.Repos {
				empty.Repos[i].Pkgs, empty.Repos[i].Bins = nil, nil
			}
			b := empty.Build(env)
			defer b.Close()
			for _, r := range c.Repos {
				dir := filepath.Join(b.Dir, "repos", r.Name)
				if err := os.WriteFile(filepath.Join(dir, "src", "contrib", "PACKAGES"), r.index(r.Src), 0644); err != nil {
					panic(w.HarnessError{Msg: err.Error()})
				}
				if r.Bin {
					if err := os.WriteFile(filepath.Join(dir, w.BinDir(c.R, ""), "PACKAGES"), r.index(r.Bins), 0644); err != nil {
						panic(w.HarnessError{Msg: err.Error()})
					}
				}
			}
			r := b.Run(w.RunOpt{}, "plan")
			if v := crashed(r); v != "" {
				return viol("%s", v)
			}
			pl := w.NewModel(wd).Plan()
			if len(pl.Missing) > 0 || len(c.Roots) == 0 {
				// every version is unsuitable
				if len(c.Roots) > 0 && r.Exit == 0 {
					return viol("planning succeeded although no suitable version of %v exists\n%s", pl.Missing, r.Brief())
				}
				return h.Result{Classes: []string{"nothing-suitable"}}
			}
			if r.Exit != 0 {
				return viol("planning with a valid index failed: %s", r.Brief())
			}
			if got, want := announced(r), expected(wd); got != want {
				return viol("planned: %s\nwanted:  %s\n%s", got, want, r.Brief())
			}
			var cl []string
			multi, unsuitable := false, false
			for _, x := range wd.Repos {
				seen := map[string]bool{}
				for _, p := range append(append([]w.Pkg{}, x.Pkgs...), x.Bins...) {
					multi = multi || seen[p.N]
					seen[p.N] = true
					unsuitable = unsuitable || p.Path != "" || !w.RCompatible(p.RC, c.R)
				}
			}
			if multi {
				cl = append(cl, "several-versions")
			}
			if unsuitable {
				cl = append(cl, "unsuitable")
			}
			if c.Suggests {
				cl = append(cl, "suggests")
			}
			return h.Result{Nontrivial: len(pl.All) > 1 && (multi || unsuitable), Classes: cl}
		})
}
