// Package gen generates worlds.
package gen

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/w"
)

var boolGen = rapid.Bool()

// U draws uniformly from [0,n); shrinks towards 0.
func U(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	bits := 4
	for 1<<uint(bits-4) < n {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if boolGen.Draw(t, "b") {
			v |= 1
		}
	}
	return v * n >> uint(bits)
}

// R draws uniformly from [a,b].
func R(t *rapid.T, a, b int) int { return a + U(t, b-a+1) }

// Chance is true with probability pct/100; shrinks to false.
func Chance(t *rapid.T, pct int) bool { return U(t, 100) >= 100-pct }

// Pick draws an element.
func Pick(t *rapid.T, xs ...string) string { return xs[U(t, len(xs))] }

// Subset keeps every element with the probability.
func Subset(t *rapid.T, xs []string, pct int) []string {
	var out []string
	for _, x := range xs {
		if Chance(t, pct) {
			out = append(out, x)
		}
	}
	return out
}

// Names is the pool of package names: prefixes of one another, dots, digits,
// differing only in case, recommended packages.
var Names = []string{"aa", "bb", "R6", "R6extra", "data.table", "data.tab", "Rcpp", "RcppX", "glue", "glue.ext", "Glue", "zoo", "zoo2",
	"MASS", "Matrix", "survival", "xml2", "A3", "a.b.c", "lme4", "rlang", "cli", "pillar", "vctrs", "pkgX", "OLD", "tarball", "x1"}

// PickNames draws n distinct names.
func PickNames(t *rapid.T, n int) []string {
	pool := append([]string{}, Names...)
	var out []string
	for i := 0; i < n && len(pool) > 0; i++ {
		k := U(t, len(pool))
		out = append(out, pool[k])
		pool = append(pool[:k], pool[k+1:]...)
	}
	return out
}

var comps = []int{0, 1, 2, 3, 5, 9, 10, 11, 20, 99, 100, 2019}

// Version draws a version with 2 to 5 components.
func Version(t *rapid.T) string {
	n := 2
	switch U(t, 10) {
	case 4, 5, 6, 7:
		n = 3
	case 8:
		n = 4
	case 9:
		n = 5
	}
	s := fmt.Sprint(comps[U(t, len(comps))])
	for i := 1; i < n; i++ {
		sep := "."
		if Chance(t, 20) {
			sep = "-"
		}
		s += sep + fmt.Sprint(comps[U(t, len(comps))])
	}
	return s
}

// Near draws a version close to v: one component changed, one dropped or added.
func Near(t *rapid.T, v string) string {
	p := w.VerParts(v)
	switch U(t, 4) {
	case 0, 1:
		i := U(t, len(p))
		d := R(t, -2, 2)
		if p[i]+d >= 0 {
			p[i] += d
		}
	case 2:
		if len(p) > 2 {
			p = p[:len(p)-1]
		}
	case 3:
		if len(p) < 5 {
			p = append(p, U(t, 3))
		}
	}
	s := fmt.Sprint(p[0])
	for _, x := range p[1:] {
		sep := "."
		if Chance(t, 15) {
			sep = "-"
		}
		s += sep + fmt.Sprint(x)
	}
	return s
}

// Rel draws a version with the wanted relation (-1 older, 0 equal, 1 newer) to v.
func Rel(t *rapid.T, v string, rel int) string {
	if rel == 0 {
		if Chance(t, 25) {
			// the same version, written differently
			b := []byte(v)
			for i := range b {
				if b[i] == '.' && Chance(t, 50) {
					b[i] = '-'
				} else if b[i] == '-' {
					b[i] = '.'
				}
			}
			return string(b)
		}
		return v
	}
	for i := 0; i < 6; i++ {
		n := Near(t, v)
		if k := w.VerCmp(n, v); k != 0 && (k < 0) == (rel < 0) {
			return n
		}
	}
	if rel > 0 {
		p := w.VerParts(v)
		return fmt.Sprintf("%d.%d", p[0]+1, U(t, 3))
	}
	if w.VerCmp(v, "0.0.0.1") > 0 {
		return "0.0.0.1"
	}
	return v
}

func decorate(t *rapid.T, n string) string {
	switch U(t, 8) {
	case 5:
		return n + " (>= 0.1)"
	case 6:
		return n + "(>= 0.0.1)"
	case 7:
		return n + " ( >= 0.1 )"
	}
	return n
}

// Opts steers World.
type Opts struct {
	MinPkgs, MaxPkgs  int
	MaxRepos          int
	HTTP              int // percent of repositories served over HTTP
	Bin               int // percent of repositories with binaries
	Density           int // percent chance of a hard dependency per earlier package
	Pre               int // percent of worlds with a populated library
	Stray             int
	NoLib             int
	Tarballs          int // percent
	Descs             int
	Suggests          int // percent that suggestions are enabled somewhere
	Ignore            int
	NoRec             int
	NoUpdate          int
	NoUpdateOff       bool
	Pins              int // percent per package of a repo pin
	Types             int // percent per package of a type pin
	RConstraints      int // percent per stanza of duplicates/constraints
	Delays            int
	Roots             int // percent of packages requested
	Deep              bool
	Strict            int
	ForeignOld        int
	AlwaysPre         bool
	NoTarballsInRepos bool
	Threads           int // percent of worlds with an explicit Threads
}

// Default is a broad mix.
func Default() Opts {
	return Opts{MinPkgs: 1, MaxPkgs: 9, MaxRepos: 3, HTTP: 35, Bin: 25, Density: 28, Pre: 65, Stray: 30, NoLib: 20, Tarballs: 25, Descs: 20,
		Suggests: 35, Ignore: 20, NoRec: 20, NoUpdate: 25, Pins: 10, Types: 6, RConstraints: 12, Delays: 25, Roots: 45, ForeignOld: 30, Threads: 60}
}

var basePool = []string{"methods", "stats", "utils", "tools", "grid", "parallel",
	"base", "compiler", "datasets", "graphics", "grDevices", "splines", "stats4", "tcltk"}

// rconstraint is a requirement on R that r fulfils or not, sometimes one of several entries.
func rconstraint(t *rapid.T, r string, ok bool) string {
	c := rconstraint1(t, r, ok)
	if Chance(t, 20) {
		d := rconstraint1(t, r, ok || Chance(t, 70))
		if Chance(t, 50) {
			c, d = d, c
		}
		return c + ", " + d
	}
	return c
}

func rconstraint1(t *rapid.T, r string, ok bool) string {
	cands := []string{"R (>= 3.5.0)", "R (>= 4.0)", "R (>= 2.10)", "R(>= 3.0.2)", "R (< 9.9.9)", "R (<= " + r + ")", "R (>= " + r + ")", "R (== " + r + ")", "R (> 3.6.3)"}
	bad := []string{"R (>= 9.0.0)", "R (< 3.0)", "R (> " + r + ")", "R (< " + r + ")", "R (>= 4.99)", "R (<= 3.6.3)"}
	l := cands
	if !ok {
		l = bad
	}
	for i := 0; i < 4; i++ {
		c := l[U(t, len(l))]
		if w.RCompatible(c, r) == ok {
			return c
		}
	}
	if ok {
		return "R (>= 3.0.0)"
	}
	return "R (>= 9.0.0)"
}

// World draws a world.
func World(t *rapid.T, o Opts) *w.World {
	wd := &w.World{R: Pick(t, "4.3.3", "4.1.0", "4.0.5", "3.6.3", "4.3.10")}
	n := R(t, o.MinPkgs, o.MaxPkgs)
	names := PickNames(t, n)
	nr := R(t, 1, o.MaxRepos)
	for i := 0; i < nr; i++ {
		r := w.Repo{Name: []string{"CRAN", "MPN", "local_1"}[i%3], HTTP: Chance(t, o.HTTP), CRLF: Chance(t, 10), Slash: Chance(t, 15)}
		if i >= 3 {
			r.Name = fmt.Sprintf("repo%d", i)
		} else if i > 0 && Chance(t, 15) {
			// told from another one by case only
			r.Name = []string{"", "Cran", "cran"}[i]
		}
		if Chance(t, o.Bin) {
			r.HasBin = true
			r.RepoType = Pick(t, "MPN", "mpn")
			r.Type = Pick(t, "", "", "source", "binary")
			if Chance(t, 25) {
				r.Suffix = Pick(t, "prod", "test")
			}
		} else if Chance(t, 10) {
			r.Type = Pick(t, "source", "Source")
		} else if Chance(t, 8) {
			// no binaries for Linux either
			r.RepoType = Pick(t, "RSPM", "rspm", "CRAN")
		}
		for k, nm := range names {
			if nr > 1 && !(i == nr-1 && !anyHas(wd.Repos, nm)) && Chance(t, 40) {
				continue
			}
			p := genPkg(t, o, names, k)
			p.Salt = fmt.Sprintf("s%d", i)
			if Chance(t, o.RConstraints) {
				p.RC = rconstraint(t, wd.R, true)
			}
			// other versions of the same package in the same index that this
			// R version must not see
			var extra []w.Pkg
			if Chance(t, o.RConstraints) {
				e := genPkg(t, o, names, k)
				e.Salt = "wrongR"
				e.RC = rconstraint(t, wd.R, false)
				if e.V != p.V {
					extra = append(extra, e)
				}
			}
			if Chance(t, o.RConstraints/2) {
				e := genPkg(t, o, names, k)
				e.Salt = "path"
				e.Path = Pick(t, "3.6.0/Recommended", "4.99.0/Recommended", "Older")
				if e.V != p.V {
					extra = append(extra, e)
				}
			}
			if len(extra) > 0 && Chance(t, 50) {
				r.Pkgs = append(append(r.Pkgs, extra...), p)
			} else {
				r.Pkgs = append(append(r.Pkgs, p), extra...)
			}
			if r.HasBin && Chance(t, 75) {
				b := p
				if Chance(t, 40) {
					b.V = Near(t, p.V)
				}
				r.Bins = append(r.Bins, b)
			}
		}
		wd.Repos = append(wd.Repos, r)
	}
	c := &wd.Cfg
	c.NoRec = Chance(t, o.NoRec)
	c.NoUpdate = Chance(t, o.NoUpdate)
	c.Strict = Chance(t, o.Strict)
	if Chance(t, o.Threads) {
		c.Threads = R(t, 1, 6)
	}
	if Chance(t, 30) {
		wd.Procs = R(t, 1, 8)
	}
	// packages that are part of the R installation
	for _, nm := range names {
		if w.Recommended[nm] && Chance(t, 50) {
			wd.Site = append(wd.Site, nm)
		}
	}
	if Chance(t, o.Ignore) {
		for _, nm := range names {
			if Chance(t, 20) {
				c.Ignore = append(c.Ignore, nm)
				if Chance(t, 60) && !has(wd.Site, nm) {
					wd.Site = append(wd.Site, nm)
				}
			}
		}
	}
	for _, nm := range names {
		var pc w.PkgCust
		if Chance(t, o.Pins) && nr > 1 {
			// a repository that has it
			var rs []string
			for _, r := range wd.Repos {
				if anyHas([]w.Repo{r}, nm) {
					rs = append(rs, r.Name)
				}
			}
			if len(rs) > 0 {
				pc.Repo = rs[U(t, len(rs))]
			}
		}
		if Chance(t, o.Types) {
			pc.Type = Pick(t, "source", "binary", "Source", "BINARY")
		}
		if Chance(t, o.Suggests/3) {
			v := Chance(t, 60)
			pc.Suggests = &v
		}
		if pc.Repo != "" || pc.Type != "" || pc.Suggests != nil {
			pc.N = nm
			c.Cust = append(c.Cust, pc)
		}
	}
	c.Suggests = Chance(t, o.Suggests/2)
	// tarballs and DESCRIPTION files
	if Chance(t, o.Tarballs) {
		used := map[string]bool{}
		for i, k := 0, few(t); i < k; i++ {
			var nm string
			if Chance(t, 35) && !o.NoTarballsInRepos {
				nm = names[U(t, len(names))]
			} else {
				nm = Pick(t, "mytar", "tarB", "tar.pkg")
			}
			if used[nm] {
				continue
			}
			used[nm] = true
			p := genPkg(t, o, names, len(names))
			p.N, p.Salt = nm, "tb"
			p.Dep, p.Imp, p.Lnk, p.Sug = drop(p.Dep, nm), drop(p.Imp, nm), drop(p.Lnk, nm), drop(p.Sug, nm)
			wd.Tarballs = append(wd.Tarballs, p)
		}
	}
	if Chance(t, o.Descs) {
		for i, k := 0, few(t); i < k; i++ {
			p := genPkg(t, o, names, len(names))
			p.N = fmt.Sprintf("proj%d", i)
			wd.Descs = append(wd.Descs, p)
		}
	}
	for _, nm := range names {
		if Chance(t, o.Roots) {
			c.Pkgs = append(c.Pkgs, nm)
		}
	}
	if Chance(t, 10) {
		c.Pkgs = append(c.Pkgs, Pick(t, basePool...))
	}
	Resolve(wd)
	if len(c.Pkgs) == 0 && len(wd.Tarballs) == 0 && len(wd.Descs) == 0 {
		m := w.NewModel(wd)
		for i := len(names) - 1; i >= 0; i-- {
			if _, ok := m.Select(names[i]); ok {
				c.Pkgs = []string{names[i]}
				break
			}
		}
	}
	Library(t, o, wd, names)
	if Chance(t, o.Delays) {
		wd.Delays = map[string]int{}
		for _, nm := range names {
			if Chance(t, 50) {
				wd.Delays[nm] = R(t, 0, 40)
			}
		}
	}
	return wd
}

// few is mostly one or two.
func few(t *rapid.T) int { return []int{1, 1, 1, 2, 2, 2, 3, 4}[U(t, 8)] }

func drop(ds []string, n string) []string {
	var out []string
	for _, d := range ds {
		if w.DepName(d) != n {
			out = append(out, d)
		}
	}
	return out
}

func anyHas(rs []w.Repo, n string) bool {
	for _, r := range rs {
		for _, p := range r.Pkgs {
			if p.N == n {
				return true
			}
		}
	}
	return false
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// Has tells membership.
func Has(xs []string, x string) bool { return has(xs, x) }

// genPkg draws a package that may hard-depend on names[:k] and suggest any.
func genPkg(t *rapid.T, o Opts, names []string, k int) w.Pkg {
	p := w.Pkg{V: Version(t), Fold: Chance(t, 20)}
	if k < len(names) {
		p.N = names[k]
	}
	lo := 0
	if o.Deep && k > 0 && k < len(names) {
		p.Imp = append(p.Imp, decorate(t, names[k-1]))
	}
	for j := lo; j < k; j++ {
		if !Chance(t, o.Density) {
			continue
		}
		d := decorate(t, names[j])
		switch U(t, 6) {
		case 0, 1, 2:
			p.Imp = append(p.Imp, d)
		case 3:
			p.Dep = append(p.Dep, d)
		case 4:
			p.Lnk = append(p.Lnk, d)
		case 5:
			p.Imp = append(p.Imp, d)
			p.Lnk = append(p.Lnk, names[j])
		}
	}
	if Chance(t, 20) {
		p.Imp = append(p.Imp, Pick(t, basePool...))
	}
	if Chance(t, 10) {
		p.Dep = append(p.Dep, Pick(t, basePool...))
	}
	if Chance(t, 35) {
		p.RC = Pick(t, "R (>= 3.5.0)", "R (>= 2.15)", "R (>= 3.0.2)")
	}
	for j := range names {
		if j != k && Chance(t, 15) {
			p.Sug = append(p.Sug, decorate(t, names[j]))
		}
	}
	if Chance(t, 25) {
		p.Sug = append(p.Sug, Pick(t, "testthat", "knitr", "notthere", "stats"))
	}
	if Chance(t, 15) {
		p.Repo = Pick(t, "CRAN", "MPN", "https://cloud.r-project.org", "RSPM")
	}
	return p
}

// Resolve drops hard dependencies and requested packages that could not be
// satisfied by anything, so that a correct install succeeds.
func Resolve(wd *w.World) {
	m := w.NewModel(wd)
	ign := map[string]bool{}
	for _, i := range wd.Cfg.Ignore {
		ign[i] = true
	}
	site := map[string]bool{}
	for _, s := range wd.Site {
		site[s] = true
	}
	ok := func(d string) bool {
		n := w.DepName(d)
		if w.BasePkgs[n] || site[n] {
			return true
		}
		if ign[n] || (wd.Cfg.NoRec && w.Recommended[n] && !has(wd.Cfg.Pkgs, n)) {
			return false
		}
		_, found := m.Select(n)
		return found
	}
	keep := func(ds []string) []string {
		var out []string
		for _, d := range ds {
			if ok(d) {
				out = append(out, d)
			}
		}
		return out
	}
	fix := func(ps []w.Pkg) {
		for i := range ps {
			ps[i].Dep, ps[i].Imp, ps[i].Lnk = keep(ps[i].Dep), keep(ps[i].Imp), keep(ps[i].Lnk)
		}
	}
	for i := range wd.Repos {
		fix(wd.Repos[i].Pkgs)
		fix(wd.Repos[i].Bins)
	}
	// what tarballs and DESCRIPTION files need has to be available or ignored
	resolvable := func(ds []string) []string {
		var out []string
		for _, d := range ds {
			n := w.DepName(d)
			_, found := m.Select(n)
			if w.BasePkgs[n] || found || (ign[n] && site[n]) || wd.Cfg.NoRec && w.Recommended[n] && !has(wd.Cfg.Pkgs, n) {
				out = append(out, d)
			}
		}
		return out
	}
	for i := range wd.Tarballs {
		p := &wd.Tarballs[i]
		p.Dep, p.Imp, p.Lnk = keep(resolvable(p.Dep)), keep(resolvable(p.Imp)), keep(resolvable(p.Lnk))
		var ds []string
		for _, d := range p.Sug {
			ds = append(ds, d)
		}
		p.Sug = ds
	}
	for i := range wd.Descs {
		p := &wd.Descs[i]
		p.Dep, p.Imp, p.Lnk, p.Sug = resolvable(p.Dep), resolvable(p.Imp), resolvable(p.Lnk), resolvable(p.Sug)
	}
	var roots []string
	for _, r := range wd.Cfg.Pkgs {
		if _, found := m.Select(r); found || w.BasePkgs[r] {
			roots = append(roots, r)
		}
	}
	wd.Cfg.Pkgs = roots
}

// Library draws the contents of the library.
func Library(t *rapid.T, o Opts, wd *w.World, names []string) {
	if Chance(t, o.NoLib) && !o.AlwaysPre {
		wd.NoLib = true
		return
	}
	m := w.NewModel(wd)
	pl := m.Plan()
	if o.AlwaysPre || Chance(t, o.Pre) {
		var ns []string
		for n := range pl.All {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if !Chance(t, 45) {
				continue
			}
			in := w.Inst{N: n, Pkgr: Chance(t, 70)}
			in.V = Rel(t, pl.All[n].Pkg.V, R(t, 0, 2)-1)
			in.NoDesc = Chance(t, 5)
			wd.Lib = append(wd.Lib, in)
		}
		for _, tb := range wd.Tarballs {
			if _, in := pl.All[tb.N]; !in && Chance(t, 40) {
				wd.Lib = append(wd.Lib, w.Inst{N: tb.N, V: Version(t), Pkgr: Chance(t, 50)})
			}
		}
		if Chance(t, o.ForeignOld) {
			for _, n := range names {
				if s, ok := m.Select(n); ok && Chance(t, 40) {
					if _, in := pl.All[n]; !in && !instHas(wd.Lib, n) {
						wd.Lib = append(wd.Lib, w.Inst{N: n, V: Rel(t, s.Pkg.V, R(t, 0, 2)-1), Pkgr: Chance(t, 50)})
					}
				}
			}
		}
		if Chance(t, 30) {
			wd.Lib = append(wd.Lib, w.Inst{N: Pick(t, "foreign", "aa2", "R6ex"), V: Version(t), Imp: []string{"methods"}})
		}
	}
	for i := range wd.Lib {
		if Chance(t, 50) {
			// as R itself notes it
			wd.Lib[i].Repo = Pick(t, "CRAN", "MPN", "RSPM", "https://cloud.r-project.org")
		}
	}
	if Chance(t, o.Stray) {
		wd.StrayFiles = Subset(t, []string{"README.txt", ".keep", "R6.txt", "aa_1.0.tar.gz"}, 40)
		wd.StrayDirs = Subset(t, []string{"_build", "file.dir", "not-a-package", ".hidden", "00LOCK-other"}, 40)
		// copies of packages under another name
		for _, nm := range names {
			if Chance(t, 12) {
				wd.Copies = append(wd.Copies, w.Inst{N: nm, V: Version(t), Pkgr: Chance(t, 60), As: Pick(t, nm+".bak", nm+"_old", "old-"+nm, nm+" (copy)", "zz."+nm, nm+"1.0")})
			}
		}
	}
}

func instHas(l []w.Inst, n string) bool {
	for _, i := range l {
		if i.N == n {
			return true
		}
	}
	return false
}

// Lower is a helper for case-insensitive pools.
func Lower(s string) string { return strings.ToLower(s) }
