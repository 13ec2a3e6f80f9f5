package props

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type refuseCase struct {
	W    *w.World `json:"w"`
	Kind string   `json:"kind"`
	Cmd  string   `json:"cmd"` // install, plan
	Pos  int      `json:"pos"`
	Flag bool     `json:"flag,omitempty"`
	Bak  bool     `json:"bak,omitempty"`
}

var refuseKinds = []string{
	"no-such-package", "no-such-package", "unsuitable-package", "ignored-package", "wrong-type", "pinned-elsewhere", "two-missing",
	"pin-unknown-repo", "strict-no-library", "strict-flag-no-library", "no-tarball", "bad-tarball", "no-description", "bad-yaml", "wrong-yaml-type",
	"no-config", "bad-flag", "bad-command", "no-r", "r-not-executable", "r-dies", "library-is-file", "no-repos", "no-library", "bad-description", "cyclic",
	"tarball-is-dir", "needs-missing-tarball-dep",
}

func init() {
	prop("C29", "a case is a world with one request that cannot be met (packages in no suitable repository, unknown repositories, files that are missing or unreadable, a library that may not be created, a broken configuration or R, a cycle) and install or plan; non-trivial: the library holds packages or there are several packages to install",
		1800, 30000,
		func(t *rapid.T) *refuseCase {
			o := gen.Default()
			o.MaxPkgs, o.MaxRepos, o.Delays, o.Pre, o.NoLib, o.Tarballs, o.Descs = 6, 2, 0, 75, 15, 30, 20
			c := &refuseCase{W: gen.World(t, o), Kind: refuseKinds[gen.U(t, len(refuseKinds))], Cmd: gen.Pick(t, "install", "install", "plan"), Pos: gen.U(t, 8)}
			return c
		}, runRefuse)
}

func insertAt(xs []string, i int, x string) []string {
	i %= len(xs) + 1
	out := append([]string{}, xs[:i]...)
	out = append(out, x)
	return append(out, xs[i:]...)
}

func runRefuse(env *w.Env, c *refuseCase) h.Result {
	wd := clone(c.W)
	m := w.NewModel(wd)
	pl := m.Plan()
	if len(pl.Missing) > 0 || pl.Cyclic {
		return h.Result{Skip: true}
	}
	names := []string{} // what has to be named in the refusal
	args := []string{c.Cmd}
	cmdPlan := c.Cmd == "plan"
	kind := c.Kind
	cfgText := ""
	mutate := func(b *w.Box) {}
	strictPlan := false
	switch kind {
	case "no-such-package":
		wd.Cfg.Pkgs = insertAt(wd.Cfg.Pkgs, c.Pos, "nowhere.pkg")
		names = []string{"nowhere.pkg"}
	case "two-missing":
		wd.Cfg.Pkgs = insertAt(insertAt(wd.Cfg.Pkgs, c.Pos, "nowhere.pkg"), c.Pos/2, "nowhere2")
		names = []string{"nowhere.pkg", "nowhere2"}
	case "unsuitable-package":
		wd.Repos[c.Pos%len(wd.Repos)].Pkgs = append(wd.Repos[c.Pos%len(wd.Repos)].Pkgs, w.Pkg{N: "toonew", V: "1.0", RC: "R (>= 9.1)"})
		wd.Cfg.Pkgs = insertAt(wd.Cfg.Pkgs, c.Pos, "toonew")
		names = []string{"toonew"}
	case "ignored-package":
		wd.Repos[0].Pkgs = append(wd.Repos[0].Pkgs, w.Pkg{N: "leftout", V: "1.0"})
		wd.Cfg.Ignore = append(wd.Cfg.Ignore, "leftout")
		wd.Cfg.Pkgs = insertAt(wd.Cfg.Pkgs, c.Pos, "leftout")
		names = []string{"leftout"}
	case "wrong-type":
		// only the source package exists, a binary one is asked for
		wd.Repos[0].Pkgs = append(wd.Repos[0].Pkgs, w.Pkg{N: "srconly", V: "1.0"})
		wd.Cfg.Pkgs = insertAt(wd.Cfg.Pkgs, c.Pos, "srconly")
		wd.Cfg.Cust = append(wd.Cfg.Cust, w.PkgCust{N: "srconly", Type: "binary"})
		names = []string{"srconly"}
	case "pinned-elsewhere":
		if len(wd.Repos) < 2 {
			return h.Result{Skip: true}
		}
		wd.Repos[0].Pkgs = append(wd.Repos[0].Pkgs, w.Pkg{N: "onlyhere", V: "1.0"})
		wd.Cfg.Pkgs = insertAt(wd.Cfg.Pkgs, c.Pos, "onlyhere")
		wd.Cfg.Cust = append(wd.Cfg.Cust, w.PkgCust{N: "onlyhere", Repo: wd.Repos[1].Name})
		names = []string{"onlyhere"}
	case "pin-unknown-repo":
		if len(pl.Roots) == 0 {
			return h.Result{Skip: true}
		}
		wd.Cfg.Cust = append([]w.PkgCust{{N: "somepkg", Repo: "NoSuchRepo"}}, wd.Cfg.Cust...)
		names = []string{"NoSuchRepo"}
	case "strict-no-library", "strict-flag-no-library":
		wd.NoLib, wd.Lib, wd.StrayDirs, wd.StrayFiles, wd.Copies = true, nil, nil, nil, nil
		if kind == "strict-no-library" {
			wd.Cfg.Strict = true
		} else {
			args = append(args, "--strict")
		}
		strictPlan = cmdPlan
		names = []string{"strict"}
	case "no-tarball", "bad-tarball", "tarball-is-dir":
		if len(wd.Tarballs) == 0 {
			wd.Tarballs = []w.Pkg{{N: "mytar", V: "1.0"}}
		}
		f := filepath.Join("tb", wd.Tarballs[c.Pos%len(wd.Tarballs)].SrcName())
		mutate = func(b *w.Box) {
			p := filepath.Join(b.Proj, f)
			removeTree(p)
			if kind == "bad-tarball" {
				putFile(p, strings.Repeat("no archive\n", c.Pos))
			}
			if kind == "tarball-is-dir" {
				putDir(p)
			}
		}
		names = []string{filepath.Base(f)}
	case "needs-missing-tarball-dep":
		wd.Tarballs = append(wd.Tarballs, w.Pkg{N: "needy", V: "1.0", Imp: []string{"nowhere.dep"}})
		names = []string{"nowhere.dep"}
	case "no-description", "bad-description":
		wd.Descs = append(wd.Descs, w.Pkg{N: "projx", V: "1.0"})
		f := filepath.Join("descs", sprintf("d%d", len(wd.Descs)-1), "DESCRIPTION")
		mutate = func(b *w.Box) {
			if kind == "no-description" {
				removeTree(filepath.Join(b.Proj, f))
			} else {
				putFile(filepath.Join(b.Proj, f), []string{"no field here\n", "\x1f\x8b\x08\x00\x00\x00\x00"}[c.Pos%2])
			}
		}
		if kind == "no-description" {
			names = []string{f}
		}
	case "bad-yaml":
		cfgText = []string{"Packages:\n  - a\n b: [\n", "\tVersion: 1\n", "Packages: [a, b\nRepos: }\n", "%%%\n"}[c.Pos%4]
	case "wrong-yaml-type":
		cfgText = "append:" + []string{"Threads: many\n", "Tarballs: {a: b}\n", "NoUpdate: perhaps\n", "Repos: here\n"}[c.Pos%4]
	case "no-config":
		mutate = func(b *w.Box) { removeTree(filepath.Join(b.Proj, "pkgr.yml")) }
	case "bad-flag":
		args = append(args, "--no-such-flag")
		names = []string{"no-such-flag"}
	case "bad-command":
		args = []string{"instal1"}
		names = []string{"instal1"}
	case "no-r":
		mutate = func(b *w.Box) { removeTree(filepath.Join(b.Dir, "bin", "R")) }
	case "r-not-executable":
		mutate = func(b *w.Box) {
			removeTree(filepath.Join(b.Dir, "bin", "R"))
			putFile(filepath.Join(b.Dir, "bin", "R"), "not a program\n")
		}
	case "r-dies":
		mutate = func(b *w.Box) {
			p := filepath.Join(b.Dir, "bin", "R")
			removeTree(p)
			putFile(p, []string{"#!/bin/sh\nexit 3\n", "#!/bin/sh\necho garbage\n", "#!/bin/sh\nkill -9 $$\n"}[c.Pos%3])
			_ = os.Chmod(p, 0755)
		}
	case "library-is-file":
		wd.NoLib, wd.Lib, wd.StrayDirs, wd.StrayFiles, wd.Copies = true, nil, nil, nil, nil
		mutate = func(b *w.Box) { putFile(b.Lib, "in the way\n") }
		strictPlan = cmdPlan
	case "no-repos":
		cfgText = "drop:Repos"
	case "no-library":
		cfgText = "drop:Library"
	case "cyclic":
		wd.Repos[0].Pkgs = append(wd.Repos[0].Pkgs, w.Pkg{N: "cyc1", V: "1.0", Imp: []string{"cyc2"}}, w.Pkg{N: "cyc2", V: "1.0", Imp: []string{"cyc3"}}, w.Pkg{N: "cyc3", V: "1.0", Dep: []string{"cyc1"}})
		wd.Repos[0].HasBin, wd.Repos[0].RepoType, wd.Repos[0].Type = false, "", ""
		wd.Cfg.Pkgs = insertAt(wd.Cfg.Pkgs, c.Pos, "cyc2")
	}
	if kind == "wrong-type" || kind == "unsuitable-package" || kind == "ignored-package" {
		if mm := w.NewModel(wd).Plan(); !gen.Has(mm.Missing, names[0]) {
			return h.Result{Skip: true}
		}
	}
	b := wd.Build(env)
	defer b.Close()
	mutate(b)
	cfgFile := filepath.Join(b.Proj, "pkgr.yml")
	switch {
	case strings.HasPrefix(cfgText, "append:"):
		key, _, _ := strings.Cut(cfgText[7:], ":")
		putFile(cfgFile, dropSection(w.ReadFile(cfgFile), key)+cfgText[7:])
	case strings.HasPrefix(cfgText, "drop:"):
		putFile(cfgFile, dropSection(w.ReadFile(cfgFile), cfgText[5:]))
	case cfgText != "":
		putFile(cfgFile, cfgText)
	}
	before := w.Snap(b.Proj)
	r := b.Run(w.RunOpt{}, args...)
	what := kind + ", " + strings.Join(args, " ")
	if r.Deadlock || r.Signal != "" {
		return viol("%s: ended abnormally: %s", what, r.Brief())
	}
	for _, e := range r.Events {
		if e.Ev == "start" {
			return viol("%s: R was asked to install %s", what, e.Pkg)
		}
	}
	if d := w.Diff(before, w.Snap(b.Proj)); d != "" {
		return viol("%s: the project changed: %s", what, d)
	}
	if r.Exit == 0 && !strictPlan {
		return viol("%s: exit status 0: %s", what, r.Brief())
	}
	all := r.Out + r.Err
	for _, n := range names {
		if !strings.Contains(strings.ToLower(all), strings.ToLower(n)) {
			return viol("%s: the refusal does not name %s: %s", what, n, r.Brief())
		}
	}
	return h.Result{Nontrivial: len(wd.Lib) > 0 || len(pl.New) > 1, Classes: []string{kind}}
}

// dropSection removes a top-level section from a configuration.
func dropSection(text, key string) string {
	var out []string
	in := false
	for _, l := range strings.Split(text, "\n") {
		if l != "" && l[0] != ' ' && l[0] != '-' && l[0] != '#' {
			in = strings.HasPrefix(l, key+":")
		}
		if !in {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
