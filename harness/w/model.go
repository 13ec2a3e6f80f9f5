package w

import (
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// BasePkgs are part of R itself; Recommended ships with R.
var BasePkgs = set("base compiler datasets graphics grDevices grid methods parallel splines stats stats4 tcltk tools utils")

// Recommended packages.
var Recommended = set("Matrix boot class cluster codetools foreign KernSmooth lattice MASS mgcv nlme nnet rpart spatial survival")

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

var reSep = regexp.MustCompile(`[.-]`)

// VerParts splits an R version into its integer components.
func VerParts(v string) []int {
	var out []int
	for _, p := range reSep.Split(v, -1) {
		n, _ := strconv.Atoi(p)
		out = append(out, n)
	}
	return out
}

// VerCmp orders versions component by component; missing components are zero.
func VerCmp(a, b string) int {
	x, y := VerParts(a), VerParts(b)
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q int
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			if p < q {
				return -1
			}
			return 1
		}
	}
	return 0
}

// RCompatible decides "R (>= x)" entries, separated by commas, for R version r.
func RCompatible(rc, r string) bool {
	for _, c := range strings.Split(rc, ",") {
		if !rCompatible(c, r) {
			return false
		}
	}
	return true
}

func rCompatible(rc, r string) bool {
	i := strings.IndexByte(rc, '(')
	if i < 0 {
		return true
	}
	c := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(rc[i+1:]), ")"))
	var op string
	for _, o := range []string{">=", "<=", "==", "!=", ">", "<"} {
		if strings.HasPrefix(c, o) {
			op = o
			break
		}
	}
	k := VerCmp(r, strings.TrimSpace(c[len(op):]))
	switch op {
	case ">=":
		return k >= 0
	case "<=":
		return k <= 0
	case "==":
		return k == 0
	case "!=":
		return k != 0
	case ">":
		return k > 0
	case "<":
		return k < 0
	}
	return true
}

// DepName strips the version constraint.
func DepName(d string) string {
	if i := strings.IndexByte(d, '('); i >= 0 {
		d = d[:i]
	}
	return strings.TrimSpace(d)
}

// Names of a dependency list.
func Names(ds []string) []string {
	var out []string
	for _, d := range ds {
		out = append(out, DepName(d))
	}
	return out
}

// Sel is a selected package: which version, from which repository, which type.
type Sel struct {
	Pkg  Pkg
	Repo string
	From string // name under which the repository publishes
	Bin  bool
}

// Type as pkgr names it.
func (s Sel) Type() string {
	if s.Bin {
		return "binary"
	}
	return "source"
}

// Payload of the selected package.
func (s Sel) Payload() string { return Payload(s.From, s.Bin, s.Pkg) }

func index(ps []Pkg, r string) map[string]Pkg {
	m := map[string]Pkg{}
	for _, p := range ps {
		if p.Path == "" && RCompatible(p.RC, r) {
			// the newest of several suitable versions counts
			if q, ok := m[p.N]; ok && VerCmp(q.V, p.V) > 0 {
				continue
			}
			m[p.N] = p
		}
	}
	return m
}

// Model answers questions about a world from the documentation.
type Model struct {
	W   *World
	src []map[string]Pkg
	bin []map[string]Pkg
	ign map[string]bool
}

// NewModel indexes the world.
func NewModel(w *World) *Model {
	m := &Model{W: w, ign: map[string]bool{}}
	for _, r := range w.Repos {
		m.src = append(m.src, index(r.Pkgs, w.R))
		if strings.EqualFold(r.RepoType, "MPN") && r.HasBin {
			m.bin = append(m.bin, index(r.Bins, w.R))
		} else {
			m.bin = append(m.bin, nil)
		}
	}
	for _, i := range w.Cfg.Ignore {
		m.ign[i] = true
	}
	return m
}

// repoDefaultBin: an MPN repository defaults to binaries on Linux unless the
// repository is customised to source.
func repoDefaultBin(r Repo) bool {
	if strings.EqualFold(r.Type, "source") {
		return false
	}
	if strings.EqualFold(r.Type, "binary") || strings.EqualFold(r.RepoType, "MPN") {
		return true
	}
	return false
}

// Select picks the repository for a package.
func (m *Model) Select(name string) (Sel, bool) {
	if m.ign[name] {
		return Sel{}, false
	}
	var pin, typ string
	for _, c := range m.W.Cfg.Cust {
		if c.N == name {
			if c.Repo != "" {
				pin = c.Repo
			}
			if c.Type != "" {
				typ = c.Type
			}
		}
	}
	for i, r := range m.W.Repos {
		if pin != "" && r.Name != pin {
			continue
		}
		bin := repoDefaultBin(r)
		if strings.EqualFold(typ, "source") {
			bin = false
		} else if strings.EqualFold(typ, "binary") {
			bin = true
		}
		idx := m.src[i]
		if bin {
			idx = m.bin[i]
		}
		if p, ok := idx[name]; ok {
			return Sel{Pkg: p, Repo: r.Name, From: r.Origin(), Bin: bin}, true
		}
	}
	return Sel{}, false
}

func (m *Model) excluded(n string) bool {
	if n == "R" || BasePkgs[n] {
		return true
	}
	if m.W.Cfg.NoRec && Recommended[n] {
		// unless they are requested
		for _, p := range m.W.Cfg.Pkgs {
			if p == n {
				return false
			}
		}
		return true
	}
	return false
}

// Suggests tells whether a package's Suggests are to be installed.
func (m *Model) Suggests(name string) bool {
	s := false
	if m.W.Cfg.Suggests {
		for _, p := range m.W.Cfg.Pkgs {
			if p == name {
				s = true
			}
		}
	}
	for _, c := range m.W.Cfg.Cust {
		if c.N == name && c.Suggests != nil {
			s = *c.Suggests
		}
	}
	return s
}

// Plan is what the documentation says an install of the world does.
type Plan struct {
	Roots   []string
	Missing []string
	Cyclic  bool
	All     map[string]Sel
	Deps    map[string][]string // direct hard dependencies within All
	New     []string            // not installed yet
	Update  []string            // installed, older than selected, update enabled
	Old     []string            // installed, older than selected (reported either way)
	Keep    []string            // installed, to be left alone
}

// Roots are the requested packages: Packages, dependencies of Tarballs, of Descriptions.
func (m *Model) Roots() []string {
	var out []string
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] && n != "R" && !BasePkgs[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for _, p := range m.W.Cfg.Pkgs {
		add(p)
	}
	skip := func(n string) bool {
		return m.ign[n] || m.W.Cfg.NoRec && Recommended[n]
	}
	for _, t := range m.W.Tarballs {
		for _, l := range [][]string{t.Dep, t.Imp, t.Lnk} {
			for _, n := range Names(l) {
				if !skip(n) {
					add(n)
				}
			}
		}
	}
	for _, t := range m.W.Descs {
		for _, l := range [][]string{t.Dep, t.Imp, t.Lnk, t.Sug} {
			for _, n := range Names(l) {
				if !skip(n) {
					add(n)
				}
			}
		}
	}
	return out
}

// Plan computes the plan.
func (m *Model) Plan() *Plan {
	pl := &Plan{All: map[string]Sel{}, Deps: map[string][]string{}}
	pl.Roots = m.Roots()
	work := append([]string{}, pl.Roots...)
	for _, r := range pl.Roots {
		if _, ok := m.Select(r); !ok {
			pl.Missing = append(pl.Missing, r)
		}
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if _, ok := pl.All[n]; ok {
			continue
		}
		s, ok := m.Select(n)
		if !ok {
			continue
		}
		pl.All[n] = s
		seen := map[string]bool{}
		for _, l := range [][]string{s.Pkg.Dep, s.Pkg.Imp, s.Pkg.Lnk} {
			for _, d := range Names(l) {
				if m.excluded(d) || seen[d] {
					continue
				}
				if _, ok := m.Select(d); !ok {
					continue
				}
				seen[d] = true
				pl.Deps[n] = append(pl.Deps[n], d)
				work = append(work, d)
			}
		}
		if m.Suggests(n) {
			for _, d := range Names(s.Pkg.Sug) {
				if m.excluded(d) {
					continue
				}
				if _, ok := m.Select(d); ok {
					work = append(work, d)
				}
			}
		}
	}
	pl.Cyclic = cyclic(pl.Deps)
	inst := map[string]Inst{}
	if !m.W.NoLib {
		for _, i := range m.W.Lib {
			if !i.NoDesc {
				inst[i.N] = i
			}
		}
	}
	for n, s := range pl.All {
		in, ok := inst[n]
		if !ok {
			pl.New = append(pl.New, n)
			continue
		}
		if VerCmp(s.Pkg.V, in.V) > 0 {
			pl.Old = append(pl.Old, n)
			if !m.W.Cfg.NoUpdate {
				pl.Update = append(pl.Update, n)
				continue
			}
		}
		pl.Keep = append(pl.Keep, n)
	}
	sort.Strings(pl.New)
	sort.Strings(pl.Old)
	sort.Strings(pl.Update)
	sort.Strings(pl.Keep)
	return pl
}

// Closure returns the transitive hard dependencies of n within the plan.
func (p *Plan) Closure(n string) map[string]bool {
	out := map[string]bool{}
	work := append([]string{}, p.Deps[n]...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if out[x] {
			continue
		}
		out[x] = true
		work = append(work, p.Deps[x]...)
	}
	return out
}

func cyclic(g map[string][]string) bool {
	state := map[string]int{}
	var visit func(string) bool
	visit = func(n string) bool {
		switch state[n] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n] = 1
		for _, d := range g[n] {
			if visit(d) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range g {
		if visit(n) {
			return true
		}
	}
	return false
}

// PkgNames returns the distinct names of the packages.
func PkgNames(ps []Pkg) []string {
	var out []string
	seen := map[string]bool{}
	for _, p := range ps {
		if !seen[p.N] {
			seen[p.N] = true
			out = append(out, p.N)
		}
	}
	return out
}
