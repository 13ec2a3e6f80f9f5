package props

import (
	"encoding/json"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type loadCase struct {
	W     *w.World `json:"w"`
	All   bool     `json:"all,omitempty"`
	JSON  bool     `json:"json,omitempty"`
	Drop  []string `json:"drop,omitempty"`  // deleted after the installation
	Extra []w.Inst `json:"extra,omitempty"` // in a library that R searches first
	Via   string   `json:"via"`             // how R is told of the library
	From  int      `json:"from"`            // 0 project, 1 below it, 2 elsewhere
	Gone  bool     `json:"gone,omitempty"`  // a requested package is in no repository any more
}

type loadReport struct {
	RMetadata struct {
		LibPaths []string
		RPath    string
		RVersion string
	}
	LoadResults map[string]struct {
		Package, Version, Path, Exiterr, Stdout, Stderr string
		Success                                         bool
	}
	Failures int
}

func init() {
	prop("C24", "a case is an installed world in which packages are broken (R reports why, ends without a word or dies of a signal), removed, shadowed by another library or print while they are loaded, and one load command; non-trivial: a package fails to load, or R has several libraries, or output is to be reported",
		420, 9000,
		func(t *rapid.T) *loadCase {
			o := gen.Default()
			o.MaxPkgs, o.Delays, o.Pre, o.Bin, o.Tarballs, o.Descs, o.Roots = 8, 0, 30, 20, 20, 10, 60
			wd := gen.World(t, o)
			c := &loadCase{W: wd, All: gen.Chance(t, 50), JSON: gen.Chance(t, 70), Via: gen.Pick(t, "R_LIBS", "R_LIBS_SITE", "R_LIBS_USER"), From: gen.U(t, 3), Gone: gen.Chance(t, 8)}
			wd.Ctl = map[string]int{"width": []int{80, 120, 200, 400}[gen.U(t, 4)]}
			pl := w.NewModel(wd).Plan()
			var all []string
			for n := range pl.All {
				all = append(all, n)
			}
			all = uniq(all)
			wd.LoadFail, wd.LoadOut, wd.LoadErr = map[string]int{}, map[string]string{}, map[string]string{}
			texts := []string{"Loading required package: x\n", "[1] a\n[2]  b \n", "\n\n one\n\ntwo\n", "\"q\" \\ <&> 'x'\n", "> not a prompt\n", "no end of line", "\u00fcml\u00e4ut\n", strings.Repeat("0123456789", 100) + "\n", strings.Repeat("long line ", 9000) + "\nafter it\n", strings.Repeat("Attaching\n", 120), strings.Repeat("The following objects are masked from 'package:base'\n\n", 40)}
			for _, n := range all {
				switch gen.U(t, 8) {
				case 4:
					wd.LoadFail[n] = []int{1, 2, 255, 257, 258, 512 + 9, 512 + 15}[gen.U(t, 7)]
				case 5:
					c.Drop = append(c.Drop, n)
				case 6:
					c.Extra = append(c.Extra, w.Inst{N: n, V: gen.Version(t)})
				}
				if gen.Chance(t, 25) {
					wd.LoadOut[n] = texts[gen.U(t, len(texts))]
				}
				if gen.Chance(t, 25) {
					wd.LoadErr[n] = texts[gen.U(t, len(texts))]
				}
			}
			return c
		}, runLoad)
}

// rLines is how output is reported: without blank lines and indices of vectors.
func rLines(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.IndexByte(l, ']'); i > 1 && l[0] == '[' && strings.Trim(l[1:i], "0123456789") == "" {
			l = l[i+1:]
		}
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func runLoad(env *w.Env, c *loadCase) h.Result {
	wd := c.W
	m := w.NewModel(wd)
	pl := m.Plan()
	if len(pl.Missing) > 0 || pl.Cyclic || len(pl.Roots) == 0 && len(wd.Tarballs) == 0 {
		return h.Result{Skip: true}
	}
	b := wd.Build(env)
	defer b.Close()
	if r := b.Run(w.RunOpt{}, "install"); r.Exit != 0 {
		return viol("install failed: %s", r.Brief())
	}
	for _, n := range c.Drop {
		removeTree(filepath.Join(b.Lib, n))
	}
	libs := []string{b.Lib, filepath.Join(b.Dir, "site")}
	if len(c.Extra) > 0 {
		first := filepath.Join(b.Dir, "first")
		for _, in := range c.Extra {
			for n, text := range in.Files() {
				putFile(filepath.Join(first, in.N, n), text)
			}
		}
		libs = append([]string{first}, libs...)
	}
	path := libs[0]
	if len(c.Extra) > 0 {
		path += ":" + b.Lib
	}
	if c.Gone {
		// what the configuration asks for is in no repository
		for i := range wd.Cfg.Pkgs {
			wd.Cfg.Pkgs[i] = strings.TrimSpace(wd.Cfg.Pkgs[i])
		}
		wd.Cfg.Pkgs = append(wd.Cfg.Pkgs, "nowhere")
		putFile(filepath.Join(b.Proj, "pkgr.yml"), b.ConfigText())
	}

	want := set(wd.Cfg.Pkgs)
	if c.All {
		if !c.Gone {
			for n := range pl.All {
				want[n] = true
			}
			for _, p := range wd.Tarballs {
				want[p.N] = true
			}
		}
	}
	args := []string{"load"}
	opt := w.RunOpt{Env: []string{c.Via + "=" + path}}
	switch c.From {
	case 1:
		opt.Cwd = filepath.Join(b.Proj, "below")
		putDir(opt.Cwd)
		args = append(args, "--config", "../pkgr.yml")
	case 2:
		opt.Cwd = b.Home
		args = append(args, "--config", filepath.Join(b.Proj, "pkgr.yml"))
	}
	if c.All {
		args = append(args, "--all")
	}
	if c.JSON {
		args = append(args, "--json")
	}
	before := w.Snap(b.Lib)
	r := b.Run(opt, args...)
	if r.Deadlock || r.Panic || r.Signal != "" {
		return viol("%v ended abnormally: %s", args, r.Brief())
	}
	if d := w.Diff(before, w.Snap(b.Lib)); d != "" {
		return viol("%v changed the library: %s", args, d)
	}

	// what R finds
	find := func(n string) string {
		for _, l := range libs {
			if exists(filepath.Join(l, n, "DESCRIPTION")) {
				return filepath.Join(l, n)
			}
		}
		return ""
	}
	var broken func(n string, seen map[string]bool) bool
	broken = func(n string, seen map[string]bool) bool {
		if seen[n] || w.BasePkgs[n] || n == "R" {
			return false
		}
		seen[n] = true
		p := find(n)
		if p == "" {
			return true
		}
		d, _ := dcfFields(w.ReadFile(filepath.Join(p, "DESCRIPTION")))
		for _, f := range []string{"Depends", "Imports"} {
			for _, x := range strings.Split(strings.ReplaceAll(d[f], "\n", " "), ",") {
				if x = w.DepName(x); x != "" && broken(x, seen) {
					return true
				}
			}
		}
		return false
	}
	fails := map[string]bool{}
	for n := range want {
		if wd.LoadFail[n] != 0 || find(n) == "" || broken(n, map[string]bool{}) {
			fails[n] = true
		}
	}
	nt := len(fails) > 0 || len(libs) > 2 || len(wd.LoadOut)+len(wd.LoadErr) > 0

	// R is asked once for each package, from the project
	tried := map[string]int{}
	for _, e := range r.Events {
		if e.Ev == "exprend" {
			tried[e.Pkg]++
		}
		if e.Ev == "expr" && strings.Contains(e.Expr, "library(") && !samePath(e.Cwd, b.Proj) {
			return viol("%v: packages were loaded from %s, not from the folder of the configuration", args, e.Cwd)
		}
	}
	for n := range want {
		if tried[n] == 0 {
			return viol("%v: %s was not loaded: %s", args, n, r.Brief())
		}
	}
	for n, k := range tried {
		if !want[n] {
			return viol("%v: %s was loaded without being asked for", args, n)
		}
		if k > 1 {
			return viol("%v: %s was loaded %d times", args, n, k)
		}
	}
	if !c.JSON {
		good, bad := len(r.LogMsgs("all packages loaded successfully")) > 0, len(r.LogMsgs("some packages failed to load.")) > 0
		if good == bad || bad != (len(fails) > 0) {
			return viol("%v: %v do not load, but pkgr says good=%v bad=%v: %s", args, sorted(fails), good, bad, r.Brief())
		}
		named := map[string]bool{}
		for _, l := range r.Logs {
			if n, ok := l["pkg"]; ok && l["level"] == "error" {
				named[str(l, "pkg")] = true
				_ = n
			}
		}
		if !same(sorted(named), sorted(fails)) {
			return viol("%v: %v do not load, but errors name %v", args, sorted(fails), sorted(named))
		}
		return h.Result{Nontrivial: nt}
	}
	out := r.Out
	if i := strings.Index(out, "{\n"); i > 0 {
		out = out[i:]
	}
	var rep loadReport
	if err := json.Unmarshal([]byte(out), &rep); err != nil {
		return viol("%v: no report: %v: %s", args, err, r.Brief())
	}
	if rep.Failures != len(fails) {
		return viol("%v: report counts %d failures, %d packages do not load: %v", args, rep.Failures, len(fails), sorted(fails))
	}
	if rep.RMetadata.RVersion != wd.R {
		return viol("%v: report for R %q, R is %s", args, rep.RMetadata.RVersion, wd.R)
	}
	if len(rep.RMetadata.LibPaths) != len(libs) {
		return viol("%v: reported libraries %q, R searches %q", args, rep.RMetadata.LibPaths, libs)
	}
	for i := range libs {
		if rep.RMetadata.LibPaths[i] != libs[i] {
			return viol("%v: reported libraries %q, R searches %q", args, rep.RMetadata.LibPaths, libs)
		}
	}
	for n, x := range rep.LoadResults {
		if !want[n] {
			return viol("%v: report on %s, which was not asked for", args, n)
		}
		if x.Package != n {
			return viol("%v: report on %s is filed under %s", args, x.Package, n)
		}
	}
	for n := range want {
		x, ok := rep.LoadResults[n]
		if !ok {
			return viol("%v: no report on %s", args, n)
		}
		if x.Success == fails[n] || (x.Exiterr == "") == fails[n] {
			return viol("%v: %s fails to load: %v, report: success %v, error %q", args, n, fails[n], x.Success, x.Exiterr)
		}
		if c := wd.LoadFail[n]; c >= 512 {
			if !strings.Contains(x.Exiterr, "signal: ") {
				return viol("%v: R died of a signal for %s, reported %q", args, n, x.Exiterr)
			}
		} else if c &= 255; c != 0 && x.Exiterr != sprintf("exit status %d", c) {
			return viol("%v: R ended with status %d for %s, reported %q", args, c, n, x.Exiterr)
		}
		if p := find(n); p != "" {
			d, _ := dcfFields(w.ReadFile(filepath.Join(p, "DESCRIPTION")))
			if x.Path != p || x.Version != d["Version"] {
				return viol("%v: %s %s is in %s, reported %s in %s", args, n, d["Version"], p, x.Version, x.Path)
			}
		} else if strings.Contains(x.Path, "/") || x.Version != "" && x.Version[0] >= '0' && x.Version[0] <= '9' {
			return viol("%v: %s is in no library, reported %s in %s", args, n, x.Version, x.Path)
		}
		if x.Stdout != rLines(wd.LoadOut[n]) {
			return viol("%v: output of %s is reported as %.300q, it was %.300q", args, n, x.Stdout, wd.LoadOut[n])
		}
		if e := rLines(wd.LoadErr[n]); !strings.HasPrefix(x.Stderr, e) || !fails[n] && x.Stderr != e {
			return viol("%v: messages of %s are reported as %.300q, they were %.300q", args, n, x.Stderr, wd.LoadErr[n])
		}
	}
	return h.Result{Nontrivial: nt}
}
