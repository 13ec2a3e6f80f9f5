package props

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// spot is a place in the case directory and the way it is written down.
type spot struct {
	At  string `json:"at"`  // relative to the case directory
	How string `json:"how"` // abs, rel, tilde, env, envb
}

type pathCase struct {
	Conf  spot   `json:"conf"` // the configuration file; How "default": found without being named
	Cwd   string `json:"cwd"`  // relative to the case directory
	Lib   spot   `json:"lib"`
	Flag  spot   `json:"flag,omitempty"` // --library
	Env   spot   `json:"env,omitempty"`  // PKGR_LIBRARY
	NoLib bool   `json:"nolib,omitempty"`
	Lock  string `json:"lock,omitempty"`  // Lockfile type instead of Library
	Cache spot   `json:"cache,omitempty"` // At "": not set
	NoXDG bool   `json:"noxdg,omitempty"`
	Repo  spot   `json:"repo"`
	RPath spot   `json:"rpath"`
	REnv  bool   `json:"renv,omitempty"` // PKGR_RPATH names the right R, RPath another one
	Tar   spot   `json:"tar,omitempty"`
	Desc  spot   `json:"desc,omitempty"`
	Log   spot   `json:"log,omitempty"`
	LogI  spot   `json:"logi,omitempty"`
	Home  bool   `json:"home,omitempty"`
}

var spotDirs = []string{"proj", "proj/sub", "home", "home/deep/er", "home/.cfg/x", "ext", "ext dir/x", "proj/.hidden"}

func genSpot(t *rapid.T, leaf string) spot {
	s := spot{At: filepath.Join(spotDirs[gen.U(t, len(spotDirs))], leaf)}
	s.How = gen.Pick(t, "abs", "rel", "rel", "dotrel", "env", "envb")
	if strings.HasPrefix(s.At, "home/") {
		s.How = gen.Pick(t, "abs", "rel", "tilde", "tilde", "env")
	}
	return s
}

// text is how the place is written in a file or argument relative to dir.
func (s spot) text(root, dir string) string {
	abs := filepath.Join(root, s.At)
	rel, err := filepath.Rel(dir, abs)
	if err != nil {
		panic(w.HarnessError{Msg: err.Error()})
	}
	switch s.How {
	case "rel":
		return rel
	case "dotrel":
		return "./" + rel
	case "tilde":
		return "~/" + strings.TrimPrefix(s.At, "home/")
	case "env":
		return "$VERIF_ROOT_DIR/" + s.At
	case "envb":
		return "${VERIF_ROOT_DIR}/" + s.At
	}
	return abs
}

func init() {
	prop("C18", "a case places the configuration file, the library, the cache, a repository, R, a tarball, a description file and log files anywhere below the working or home directory, names each in some way (absolute, relative, with ~, with environment variables, by flag or environment), and starts pkgr somewhere; non-trivial: the working directory is not the folder of the configuration file, or the library is named more than once",
		350, 7000,
		func(t *rapid.T) *pathCase {
			c := &pathCase{}
			c.Conf = genSpot(t, gen.Pick(t, "pkgr.yml", "pkgr.yml", "other.yaml", "my conf.yml"))
			if c.Conf.How == "env" || c.Conf.How == "envb" {
				c.Conf.How = "rel"
			}
			c.Cwd = spotDirs[gen.U(t, len(spotDirs))]
			if gen.Chance(t, 25) {
				c.Conf.At = filepath.Join(filepath.Dir(c.Conf.At), "pkgr.yml")
				c.Conf.How, c.Cwd = "default", filepath.Dir(c.Conf.At)
			}
			c.Lib = genSpot(t, gen.Pick(t, "lib", "library", "my lib", "a=b"))
			if gen.Chance(t, 20) {
				c.Flag = genSpot(t, "flaglib")
				c.Flag.How = "abs"
			}
			if gen.Chance(t, 20) {
				c.Env = genSpot(t, "envlib")
				c.Env.How = "abs"
			}
			if gen.Chance(t, 12) && c.Flag.At == "" && c.Env.At == "" {
				c.Lock = gen.Pick(t, "packrat", "renv", "renv")
			}
			if gen.Chance(t, 80) {
				c.Cache = genSpot(t, gen.Pick(t, "cache", "pkg cache"))
			} else {
				c.NoXDG = gen.Chance(t, 40)
			}
			c.Repo = genSpot(t, "therepo")
			c.RPath = genSpot(t, "bin/R")
			if gen.Chance(t, 15) {
				c.RPath = spot{How: "path"}
			}
			c.REnv = gen.Chance(t, 15)
			if gen.Chance(t, 40) {
				c.Tar = genSpot(t, "tarp_1.0.tar.gz")
			}
			if gen.Chance(t, 40) {
				c.Desc = genSpot(t, "d/DESCRIPTION")
			}
			if gen.Chance(t, 35) {
				c.Log = genSpot(t, "all.log")
			}
			if gen.Chance(t, 20) {
				c.LogI = genSpot(t, "inst.log")
			}
			return c
		}, runPaths)
}

func runPaths(env *w.Env, c *pathCase) h.Result {
	wd := &w.World{R: "4.3.3", NoLib: true}
	b := wd.Build(env)
	defer b.Close()
	root := b.Dir
	at := func(s spot) string { return filepath.Join(root, s.At) }
	_ = os.Remove(filepath.Join(b.Proj, "pkgr.yml"))
	for _, d := range spotDirs {
		putDir(filepath.Join(root, d))
	}
	conf := at(c.Conf)
	cd := filepath.Dir(conf)
	repo := w.Repo{Name: "CRAN"}
	dd := w.Pkg{N: "dd", V: "1.0"}
	p := w.Pkg{N: "pp", V: "1.2", Imp: []string{"dd"}}
	q := w.Pkg{N: "qq", V: "2.0"}
	repo.Pkgs = []w.Pkg{p, dd, q}
	repo.Write(at(c.Repo), wd.R)
	want := []string{"dd", "pp"}
	var s strings.Builder
	yq := func(x string) string { return `"` + x + `"` }
	s.WriteString("Version: 1\nPackages:\n  - pp\nRepos:\n  - CRAN: " + yq(c.Repo.text(root, cd)) + "\n")
	// what the lock file manager says
	lib := at(c.Lib)
	if c.Lock != "" {
		s.WriteString("Lockfile:\n  Type: " + c.Lock + "\n")
		if c.Lock == "packrat" {
			lib = filepath.Join(cd, "packrat", "lib", w.Platform, wd.R)
		}
	} else {
		s.WriteString("Library: " + yq(c.Lib.text(root, cd)) + "\n")
	}
	extra := []string{"VERIF_ROOT_DIR=" + root}
	var args []string
	if c.Env.At != "" {
		lib = at(c.Env)
		extra = append(extra, "PKGR_LIBRARY="+lib)
	}
	if c.Flag.At != "" {
		lib = at(c.Flag)
		args = append(args, "--library="+lib)
	}
	cache := filepath.Join(b.XDG, "pkgr")
	if c.NoXDG {
		extra = append(extra, "XDG_CACHE_HOME=")
		cache = filepath.Join(b.Home, ".cache", "pkgr")
	}
	if c.Cache.At != "" {
		s.WriteString("Cache: " + yq(c.Cache.text(root, cd)) + "\n")
		cache = at(c.Cache)
	}
	// R and its stand-in's control directory
	rbin := filepath.Join(root, "bin", "R")
	if c.RPath.How == "path" {
		extra = append(extra, "PATH="+filepath.Join(root, "bin")+":/usr/bin:/bin")
	} else {
		rbin = at(c.RPath)
		rd := filepath.Dir(rbin)
		putDir(rd)
		for _, n := range []string{"R", "Rscript"} {
			link(env.FakeR, filepath.Join(rd, n))
		}
		link(b.Ctl, filepath.Join(filepath.Dir(rd), "ctl"))
		if c.REnv {
			s.WriteString("RPath: " + filepath.Join(root, "no", "such", "R") + "\n")
			extra = append(extra, "PKGR_RPATH="+rbin)
		} else {
			s.WriteString("RPath: " + yq(c.RPath.text(root, cd)) + "\n")
		}
	}
	if c.Lock == "renv" {
		wd.RenvLib = lib
		b.WriteCtl()
	}
	if c.Tar.At != "" {
		tp := w.Pkg{N: "tarp", V: "1.0", Imp: []string{"dd"}}
		putFile(at(c.Tar), string(w.TarGz("tarp", tp.Files("tarball", false, wd.R))))
		s.WriteString("Tarballs:\n  - " + yq(c.Tar.text(root, cd)) + "\n")
		want = append(want, "tarp")
	}
	if c.Desc.At != "" {
		dp := w.Pkg{N: "proj", V: "1.0", Imp: []string{"qq"}}
		putFile(at(c.Desc), dp.Description("", false, wd.R))
		s.WriteString("Descriptions:\n  - " + yq(c.Desc.text(root, cd)) + "\n")
		want = append(want, "qq")
	}
	var logs []string
	if c.Log.At != "" || c.LogI.At != "" {
		s.WriteString("Logging:\n")
		if c.Log.At != "" {
			s.WriteString("  all: " + yq(c.Log.text(root, cd)) + "\n")
			logs = append(logs, at(c.Log))
		}
		if c.LogI.At != "" {
			s.WriteString("  install: " + yq(c.LogI.text(root, cd)) + "\n")
			logs = append(logs, at(c.LogI))
		}
	}
	putFile(conf, s.String())
	cwd := filepath.Join(root, c.Cwd)
	if c.Conf.How != "default" {
		args = append(args, "--config="+c.Conf.text(root, cwd))
	}
	before := w.Snap(root)
	desc := sprintf("configuration %s, started in %s with %v\n%s", conf, cwd, args, s.String())
	for _, cmd := range []string{"plan", "install", "install"} {
		r := b.Run(w.RunOpt{Cwd: cwd, Env: extra}, append([]string{cmd}, args...)...)
		if m := crashed(r); m != "" {
			return viol("%s", m)
		}
		if r.Exit != 0 {
			return viol("%s: %s failed: %s", desc, cmd, r.Brief())
		}
		if cmd == "plan" {
			if exists(lib) {
				return viol("%s: planning created the library", desc)
			}
			continue
		}
		if got := w.Snap(lib).Tops(); !same(got, want) {
			return viol("%s: the library %s holds %v, expected %v", desc, lib, got, want)
		}
	}
	for _, l := range logs {
		if !exists(l) && !(l == at(c.Log) && c.LogI.At != "" && false) {
			return viol("%s: there is no log %s", desc, l)
		}
	}
	// nothing appears anywhere else
	allowed := []string{lib, cache, b.XDG, filepath.Join(b.Home, ".cache", "pkgr"), b.Tmp, b.Ctl}
	allowed = append(allowed, logs...)
	after := w.Snap(root)
	var stray []string
	for k := range after {
		if _, ok := before[k]; ok {
			continue
		}
		full := filepath.Join(root, k)
		ok := false
		for _, a := range allowed {
			if full == a || strings.HasPrefix(full, a+"/") || strings.HasPrefix(a, full+"/") {
				ok = true
			}
		}
		if !ok {
			stray = append(stray, k)
		}
	}
	sort.Strings(stray)
	if len(stray) > 0 {
		return viol("%s: unexpected files appeared: %v", desc, stray)
	}
	if as, _ := filepath.Glob(filepath.Join(cache, "*", "src", "*.tar.gz")); len(as) < 2 {
		return viol("%s: the package cache %s does not hold the archives", desc, cache)
	}
	return h.Result{Nontrivial: filepath.Clean(cwd) != filepath.Clean(cd) || c.Flag.At != "" || c.Env.At != ""}
}

func putDir(p string) {
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(w.HarnessError{Msg: err.Error()})
	}
}

func link(target, p string) {
	if exists(p) {
		return
	}
	if err := os.Symlink(target, p); err != nil {
		panic(w.HarnessError{Msg: err.Error()})
	}
}
