package props

import (
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type lockCase struct {
	W        *w.World `json:"w"`
	Type     string   `json:"type"`
	Platform string   `json:"platform"`
	Dir      string   `json:"dir"`            // where renv keeps its packages
	Mode     string   `json:"mode,omitempty"` // what happens when it is asked
	Over     string   `json:"over,omitempty"` // a library named besides: config, flag, env
	NewR     string   `json:"newr,omitempty"` // R of the second installation
	Cwd      bool     `json:"cwd,omitempty"`
}

var renvDirs = []string{"renv/library/R-4.3/x86_64-pc-linux-gnu", "my cache/renv lib", "r_pkgr_libs/x", "renv/_pkgr_", "lib=old/é", "a  b", "renv/lib (2)", "[1] x/y", "it's"}

func init() {
	prop("C33", "a case is a project whose library is the one of renv or packrat, an answer of renv (with other output around it, failing, or unusable), a library named besides or not, and two installations, the second possibly with another R; non-trivial: the library is that of the lock file manager, or the command must be refused",
		300, 6000,
		func(t *rapid.T) *lockCase {
			o := gen.Default()
			o.HTTP, o.Bin, o.MaxPkgs, o.MinPkgs, o.MaxRepos, o.Pre, o.Tarballs, o.Descs, o.NoLib, o.Stray, o.Delays = 10, 0, 5, 1, 2, 50, 15, 10, 30, 5, 0
			c := &lockCase{W: gen.World(t, o), Type: gen.Pick(t, "renv", "renv", "renv", "packrat", "packrat", "pkgr", "none")}
			c.Platform = gen.Pick(t, w.Platform, "aarch64-unknown-linux-gnu", "powerpc64le-unknown-linux-gnu", "s390x-ibm-linux-gnu")
			c.Dir = renvDirs[gen.U(t, len(renvDirs))]
			c.Mode = gen.Pick(t, "", "", "noise", "around", "stderr", "fail", "silent", "half", "empty", "late")
			c.Over = gen.Pick(t, "", "", "", "", "config", "flag", "env")
			if c.Mode == "half" && c.Dir == "renv/_pkgr_" {
				c.Dir = renvDirs[0] // an answer cut off after the marker would look complete
			}
			if gen.Chance(t, 30) {
				c.NewR = gen.Pick(t, "4.4.1", "4.3.2", "4.10.0")
			}
			c.Cwd = gen.Chance(t, 30)
			return c
		}, runLock)
}

func runLock(env *w.Env, c *lockCase) h.Result {
	wd := clone(c.W)
	if c.NewR != "" {
		// what there is suits every R
		for i := range wd.Repos {
			wd.Repos[i].HasBin, wd.Repos[i].RepoType, wd.Repos[i].Bins, wd.Repos[i].Type = false, "", nil, ""
			var ps []w.Pkg
			for _, p := range wd.Repos[i].Pkgs {
				if p.Salt == "wrongR" || p.Salt == "path" {
					continue
				}
				p.RC = ""
				ps = append(ps, p)
			}
			wd.Repos[i].Pkgs = ps
		}
		wd.Cfg.Cust = nil
	}
	where := func(rv string) string {
		switch {
		case c.Over != "":
			return "other/lib"
		case c.Type == "renv":
			return c.Dir
		case c.Type == "packrat":
			return filepath.Join("packrat/lib", c.Platform, rv)
		}
		return ""
	}
	refuse := c.Over == "" && (where("") == "" || c.Type == "renv" && (c.Mode == "fail" || c.Mode == "silent" || c.Mode == "half" || c.Mode == "empty" || c.Mode == "late"))
	wd.Cfg.Lib = where(wd.R)
	if wd.Cfg.Lib == "" {
		wd.Cfg.Lib = "nowhere"
	}
	b := wd.Build(env)
	defer b.Close()
	wd.CtlS = map[string]string{"platform": c.Platform, "renvlib": filepath.Join(b.Proj, c.Dir), "renvmode": c.Mode}
	b.WriteCtl()
	wd.Cfg.Lockfile = c.Type
	if c.Over == "config" {
		wd.Cfg.Raw += "Library: other/lib\n"
	}
	b.WriteConfig()
	opt := w.RunOpt{}
	var more []string
	switch c.Over {
	case "flag":
		more = append(more, "--library="+filepath.Join(b.Proj, "other/lib"))
	case "env":
		opt.Env = append(opt.Env, "PKGR_LIBRARY="+filepath.Join(b.Proj, "other/lib"))
	}
	if c.Cwd {
		opt.Cwd = b.Home
		more = append(more, "--config="+filepath.Join(b.Proj, "pkgr.yml"))
	}
	res := h.Result{Nontrivial: c.Over == "", Classes: []string{"type-" + c.Type, "mode-" + c.Mode, "over-" + c.Over}}
	what := sprintf("%s (%s, %q)", c.Type, c.Mode, c.Over)
	if refuse {
		res.Classes = append(res.Classes, "refused")
		before := w.Snap(b.Dir)
		for _, cmd := range []string{"plan", "install", "load"} {
			r := b.Run(opt, append([]string{cmd}, more...)...)
			if r.Deadlock || r.Panic {
				return viol("%s: %s", what, r.Brief())
			}
			if r.Exit == 0 {
				return viol("%s: %s did not fail although there is no library: %s", what, cmd, r.Brief())
			}
			for _, e := range r.Events {
				if e.Ev == "start" {
					return viol("%s: %s installed %s although there is no library", what, cmd, e.Pkg)
				}
			}
		}
		after := w.Snap(b.Dir)
		for _, x := range []w.Tree{before, after} {
			for f := range x {
				if f == "ctl" || f == "tmp" || f == "xdg" || strings.HasPrefix(f, "ctl/") || strings.HasPrefix(f, "tmp/") || strings.HasPrefix(f, "xdg/") {
					delete(x, f)
				}
			}
		}
		if d := w.Diff(before, after); d != "" {
			return viol("%s: although there is no library, files changed: %s", what, d)
		}
		return res
	}
	round := func(rv string) string {
		wd.R = rv
		wd.Cfg.Lib = where(rv)
		b.Lib = filepath.Join(b.Proj, wd.Cfg.Lib)
		model := clone(wd)
		model.Lib, model.NoLib = scanLib(b)
		b.WriteCtl()
		pl := w.NewModel(model).Plan()
		before, out := w.Snap(b.Lib), w.Snap(b.Proj)
		r := b.Run(opt, append([]string{"plan"}, more...)...)
		if m := crashed(r); m != "" {
			return m
		}
		if r.Exit != 0 {
			return "plan failed: " + r.Brief()
		}
		if d := w.Diff(out, w.Snap(b.Proj)); d != "" {
			return "plan changed files of the project: " + d
		}
		r = b.Run(opt, append([]string{"install"}, more...)...)
		if m := crashed(r); m != "" {
			return m
		}
		if r.Exit != 0 {
			return "install failed: " + r.Brief()
		}
		if m := checkSuccess(b, pl, before, w.Snap(b.Lib)); m != "" {
			return wd.Cfg.Lib + ": " + m + "\n" + r.Brief()
		}
		// nothing appears elsewhere
		after := w.Snap(b.Proj)
		for _, x := range []w.Tree{out, after} {
			for f := range x {
				if f == wd.Cfg.Lib || strings.HasPrefix(f, wd.Cfg.Lib+"/") || strings.HasPrefix(wd.Cfg.Lib, f+"/") {
					delete(x, f)
				}
			}
		}
		if d := w.Diff(out, after); d != "" {
			return "other files of the project changed: " + d
		}
		// the other commands look there, too
		r = b.Run(w.RunOpt{Cwd: opt.Cwd, Env: opt.Env, NoLog: true}, append([]string{"inspect", "--installed-from", "--loglevel=fatal"}, more...)...)
		if r.Exit != 0 {
			return "inspect failed: " + r.Brief()
		}
		for _, n := range append(append([]string{}, pl.New...), pl.Update...) {
			if !strings.Contains(r.Out, `"`+n+`"`) {
				return sprintf("inspect --installed-from does not mention %s, which is in %s: %s", n, b.Lib, r.Out)
			}
		}
		return ""
	}
	if m := round(wd.R); m != "" {
		return viol("%s: %s", what, m)
	}
	if c.NewR != "" {
		res.Classes = append(res.Classes, "another-R")
		old := w.Snap(b.Lib)
		first := b.Lib
		if m := round(c.NewR); m != "" {
			return viol("%s, then with R %s: %s", what, c.NewR, m)
		}
		if b.Lib != first {
			if d := w.Diff(old, w.Snap(first)); d != "" {
				return viol("%s: the library of the other R changed: %s", what, d)
			}
		}
	}
	return res
}
