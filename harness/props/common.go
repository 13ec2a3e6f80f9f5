package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// NoAge makes pkgr read the repository indices afresh.
const NoAge = "R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE=0"

func prop[T any](id, rule string, quick, thorough int, g func(t *rapid.T) *T, run func(env *w.Env, c *T) h.Result) *h.Prop {
	p := &h.Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) interface{} { return g(t) },
		New: func() interface{} { return new(T) },
		Run: func(env *w.Env, c interface{}) h.Result { return run(env, c.(*T)) },
	}
	h.Register(p)
	return p
}

// clone copies a world deeply.
func clone[T any](x *T) *T {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	y := new(T)
	if err := json.Unmarshal(b, y); err != nil {
		panic(err)
	}
	return y
}

// RepoFault is an HTTP fault of one repository.
type RepoFault struct {
	Repo string      `json:"repo"`
	F    w.HTTPFault `json:"f"`
}

func setFaults(b *w.Box, fs []RepoFault) {
	by := map[string][]w.HTTPFault{}
	for _, f := range fs {
		by[f.Repo] = append(by[f.Repo], f.F)
	}
	for n, s := range b.Servers {
		s.SetFaults(by[n])
	}
}

// installFaults picks faults for packages that will be worked on.
func installFaults(t *rapid.T, wd *w.World, max int) {
	pl := w.NewModel(wd).Plan()
	work := append(append([]string{}, pl.New...), pl.Update...)
	tb := map[string]bool{}
	for _, p := range wd.Tarballs {
		tb[p.N] = true
		if !gen.Has(work, p.N) {
			work = append(work, p.N)
		}
	}
	if len(work) == 0 {
		return
	}
	wd.Faults = map[string][]w.Fault{}
	for i, n := 0, gen.R(t, 1, max); i < n; i++ {
		p := work[gen.U(t, len(work))]
		f := w.Fault{Stage: gen.Pick(t, "any", "any", "final", "build", "tarball"), Mode: gen.Pick(t, "exit", "partial", "partial", "nobinary")}
		if tb[p] {
			if _, planned := pl.All[p]; !planned {
				f.Stage = gen.Pick(t, "any", "tarball")
			}
		} else if f.Stage == "tarball" {
			f.Stage = "any"
		}
		if s, ok := pl.All[p]; ok && s.Bin && f.Stage == "build" {
			f.Stage = "final"
		}
		if f.Mode == "nobinary" && (f.Stage == "final" || f.Stage == "tarball") {
			f.Mode = "partial"
		}
		if gen.Chance(t, 30) {
			f.Code = []int{2, 3, 127, 255, 512 + 9, 512 + 15}[gen.U(t, 6)] // from 512: a signal
		}
		wd.Faults[p] = append(wd.Faults[p], f)
	}
}

// failing lists the packages of the plan for which R will report trouble.
func failing(wd *w.World, pl *w.Plan) (plan, tarball map[string]bool) {
	plan, tarball = map[string]bool{}, map[string]bool{}
	inst := set(append(append([]string{}, pl.New...), pl.Update...))
	// a tarball package that is installed is set aside, so that the planned
	// one is installed again before it
	for _, t := range wd.Tarballs {
		if _, ok := pl.All[t.N]; ok {
			inst[t.N] = true
		}
	}
	for n := range inst {
		s := pl.All[n]
		// the last matching fault applies
		for _, st := range []string{"build", "final"} {
			if st == "build" && s.Bin {
				continue
			}
			var f *w.Fault
			for i := range wd.Faults[n] {
				x := wd.Faults[n][i]
				if x.Stage == st || x.Stage == "any" {
					f = &wd.Faults[n][i]
				}
			}
			if f != nil && (f.Mode == "exit" || f.Mode == "partial" || (f.Mode == "nobinary" && st == "build")) {
				plan[n] = true
			}
		}
	}
	for _, t := range wd.Tarballs {
		var f *w.Fault
		for i := range wd.Faults[t.N] {
			x := wd.Faults[t.N][i]
			if x.Stage == "tarball" || x.Stage == "any" {
				f = &wd.Faults[t.N][i]
			}
		}
		if f != nil && (f.Mode == "exit" || f.Mode == "partial") {
			tarball[t.N] = true
		}
	}
	return plan, tarball
}

// scanLib reads the library as the model sees it.
func scanLib(b *w.Box) (lib []w.Inst, noLib bool) {
	es, err := os.ReadDir(b.Lib)
	if err != nil {
		return nil, true
	}
	for _, e := range es {
		if !e.IsDir() {
			continue
		}
		d, err := os.ReadFile(filepath.Join(b.Lib, e.Name(), "DESCRIPTION"))
		if err != nil {
			continue
		}
		n := dcfField(string(d), "Package")
		if n == "" || n != e.Name() {
			continue
		}
		lib = append(lib, w.Inst{N: n, V: dcfField(string(d), "Version"), Pkgr: dcfField(string(d), "PkgrVersion") != ""})
	}
	return lib, false
}

func scratchDirs(t w.Tree) []string {
	var out []string
	for _, n := range t.Tops() {
		if strings.HasPrefix(n, "__OLD__") {
			out = append(out, n)
		}
	}
	return out
}

func num(m map[string]interface{}, k string) (int, bool) {
	f, ok := m[k].(float64)
	return int(f), ok
}

func str(m map[string]interface{}, k string) string {
	s, _ := m[k].(string)
	return s
}

// reported tells whether a record of level warning or worse names the package.
func reported(r *w.RunRes, pkg string) bool {
	for _, l := range r.Logs {
		switch str(l, "level") {
		case "warning", "error", "fatal", "panic":
			b, _ := json.Marshal(l)
			if wordIn(string(b), pkg) {
				return true
			}
		}
	}
	return false
}

// wordIn finds pkg in s not embedded in a longer package name.
func wordIn(s, pkg string) bool {
	isName := func(c byte) bool {
		return c == '.' || c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; ; {
		k := strings.Index(s[i:], pkg)
		if k < 0 {
			return false
		}
		a, e := i+k, i+k+len(pkg)
		if (a == 0 || !isName(s[a-1])) && (e == len(s) || !isName(s[e]) || s[e] == '.' || s[e] == '_') {
			return true
		}
		i = a + 1
	}
}

func same(a, b []string) bool {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func uniq(a []string) []string { return sorted(set(a)) }

func minus(a []string, b map[string]bool) []string {
	var out []string
	for _, x := range a {
		if !b[x] {
			out = append(out, x)
		}
	}
	return out
}

func list(xs []string) string { return "[" + strings.Join(xs, " ") + "]" }

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

// dlFails tells whether the download of a package that has to be installed is
// hit by a fault. What is installed already is not needed, unless a tarball
// sets it aside.
func dlFails(wd *w.World, pl *w.Plan, fs []RepoFault) bool {
	work := append(append([]string{}, pl.New...), pl.Update...)
	for _, t := range wd.Tarballs {
		if _, ok := pl.All[t.N]; ok {
			work = append(work, t.N)
		}
	}
	for _, f := range fs {
		for _, n := range work {
			if s := pl.All[n]; s.Repo == f.Repo && "/"+fileOf(s) == f.F.Suffix {
				return true
			}
		}
	}
	return false
}

func removeTree(p string) {
	if err := os.RemoveAll(p); err != nil {
		panic(w.HarnessError{Msg: err.Error()})
	}
}
