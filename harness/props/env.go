package props

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// envCase is a world together with the environment pkgr is started in.
type envCase struct {
	W *w.World `json:"w"`
	// Sys is the environment; %D stands for the directory of the case.
	Sys map[string]string `json:"sys"`
	// How R is found: "" RPath, "path" by PATH, "env" PKGR_RPATH.
	How string `json:"how,omitempty"`
	// Path is where on PATH that R is found: "" nowhere, "first", "later",
	// "shadowed" behind another R.
	Path string `json:"path,omitempty"`
	// Run starts sessions with the settings of these packages ("-": none).
	Run []string `json:"run,omitempty"`
}

var envNames = []string{"FOO", "BAR_BAZ", "MAKEFLAGS", "R_MAKEVARS_USER", "MY_GITHUB_TOKEN", "R_LIBS_EXTRA", "R_PROFILE_X", "lower_case", "PATHX"}

func envValue(t *rapid.T) string {
	return gen.Pick(t, "1", "a=b=c", "two words", "x:y:z", "/some/dir", "~/.R/Makevars", "a'b", `a"b`, `back\slash`, "über", "--flag=1 -O2", "=", "#no", "- x", "{a: b}", "%x", "true", "0", " before", "after ", " ", "two\nlines", "\t")
}

func init() {
	prop("C16", "a case is one world with package-specific environment settings, started in an environment with decoy libraries and other variables, and some R sessions; non-trivial: some package has settings of its own and some other package is built or installed without them",
		450, 8000,
		func(t *rapid.T) *envCase {
			o := gen.Default()
			o.MaxPkgs, o.HTTP, o.Stray, o.Delays, o.Pre, o.Descs = 6, 0, 0, 20, 30, 0
			o.Roots = 70
			c := &envCase{W: gen.World(t, o), Sys: map[string]string{}}
			c.W.LogEnv = true
			c.W.Cfg.Lib = gen.Pick(t, "", "", "lib", "a=b", "with space", "nested/dir", "./dot", "lib/")
			for _, v := range []string{"R_LIBS", "R_LIBS_USER", "R_LIBS_SITE"} {
				if gen.Chance(t, 60) {
					c.Sys[v] = gen.Pick(t, "%D/decoy1", "%D/decoy2", "%D/decoy1:%D/decoy2", "%D/nowhere", "%D/decoy1:")
				}
			}
			for _, n := range envNames {
				if gen.Chance(t, 45) {
					c.Sys[n] = envValue(t)
				}
			}
			c.How = gen.Pick(t, "", "", "path", "env")
			if c.How != "path" {
				c.Path = gen.Pick(t, "", "", "", "first", "later", "shadowed", "shadowed", "last")
			}
			var names []string
			for _, s := range c.W.Repos {
				for _, p := range s.Pkgs {
					names = append(names, p.N)
				}
			}
			for _, p := range c.W.Tarballs {
				names = append(names, p.N)
			}
			names = uniq(names)
			for _, n := range names {
				if !gen.Chance(t, 40) {
					continue
				}
				e := map[string]string{}
				for _, k := range envNames {
					if gen.Chance(t, 35) {
						e[k] = envValue(t)
						if gen.Chance(t, 8) {
							e[k] = ""
						}
					}
				}
				if c.How != "path" && gen.Chance(t, 10) {
					e["PATH"] = "/opt/special/bin:/usr/bin:/bin"
				}
				if len(e) == 0 {
					continue
				}
				found := false
				for i := range c.W.Cfg.Cust {
					if c.W.Cfg.Cust[i].N == n {
						c.W.Cfg.Cust[i].Env, found = e, true
					}
				}
				if !found {
					c.W.Cfg.Cust = append(c.W.Cfg.Cust, w.PkgCust{N: n, Env: e})
				}
			}
			for i, k := 0, gen.U(t, 3); i < k; i++ {
				c.Run = append(c.Run, gen.Pick(t, append([]string{"-", "unknownpkg"}, names...)...))
			}
			return c
		},
		func(env *w.Env, c *envCase) h.Result {
			wd := clone(c.W)
			wd.Cfg.NoRPath = c.How != ""
			pl := w.NewModel(wd).Plan()
			if pl.Cyclic || len(pl.Missing) > 0 {
				return h.Result{}
			}
			b := wd.Build(env)
			defer b.Close()
			for _, d := range []string{"decoy1", "decoy2"} {
				// different versions of everything, and something nobody has
				for n := range pl.All {
					putFile(filepath.Join(b.Dir, d, n, "DESCRIPTION"), "Package: "+n+"\nVersion: 0.0.1\n")
				}
				putFile(filepath.Join(b.Dir, d, "ghost", "DESCRIPTION"), "Package: ghost\nVersion: 0.0.1\n")
			}
			sys := map[string]string{}
			var extra []string
			for k, v := range c.Sys {
				sys[k] = strings.ReplaceAll(v, "%D", b.Dir)
			}
			bin := filepath.Join(b.Dir, "bin")
			sysPath := "/usr/local/bin:/usr/bin:/bin"
			switch c.Path {
			case "first":
				sysPath = bin + ":" + sysPath
			case "later":
				sysPath = "/usr/local/bin:" + bin + ":/usr/bin:/bin"
			case "last":
				sysPath += ":" + bin
			case "shadowed":
				other := filepath.Join(b.Dir, "otherR")
				putFile(filepath.Join(other, "R"), "#!/bin/sh\nexit 97\n")
				_ = os.Chmod(filepath.Join(other, "R"), 0755)
				sysPath = other + ":" + bin + ":" + sysPath
			}
			if c.Path != "" {
				sys["PATH"] = sysPath
			}
			switch c.How {
			case "path":
				sysPath = "/usr/local/bin:" + bin + ":/usr/bin:/bin"
				// whatever R is found under, it has to be the one on the path
				sys["PATH"] = sysPath
			case "env":
				sys["PKGR_RPATH"] = filepath.Join(bin, "R")
			}
			for k, v := range sys {
				extra = append(extra, k+"="+v)
			}
			sort.Strings(extra)
			cust := map[string]map[string]string{}
			for _, pc := range wd.Cfg.Cust {
				if len(pc.Env) > 0 {
					cust[pc.N] = pc.Env
				}
			}
			judge := func(ev w.Event, who, what string) string {
				libs := libsOf(ev)
				if ev.Lib != "" {
					// R puts the library it installs to in front
					libs = append([]string{ev.Lib}, libs...)
				}
				found := wd.NoLib && ev.Ev != "start"
				for _, l := range libs {
					if samePath(l, b.Lib) {
						found = true
					} else if l != ev.Lib || !buildDir(l, b) {
						return sprintf("%s: R looks for packages in %s besides the library", what, l)
					}
				}
				if !found {
					return sprintf("%s: R looks for packages in %v, not in the library %s", what, libs, b.Lib)
				}
				e := cust[who]
				for _, k := range append([]string{"PATH"}, envNames...) {
					got, has := ev.Env[k]
					want, wantHas := sys[k], sys[k] != ""
					if v, ok := e[k]; ok {
						want, wantHas = v, true
					} else if k == "PATH" {
						// R started by R is the same one, all else is found as before
						if f := firstR(got); f != filepath.Join(bin, "R") || !strings.HasSuffix(got, sysPath) {
							return sprintf("%s: PATH is %q, where R is %q, expected %q and then %q", what, got, f, bin, sysPath)
						}
						continue
					}
					if has != wantHas || got != want {
						return sprintf("%s: %s is %q (set: %v), expected %q (set: %v)", what, k, got, has, want, wantHas)
					}
				}
				return ""
			}
			res := b.Run(w.RunOpt{Env: extra}, "install")
			if m := crashed(res); m != "" {
				return viol("%s", m)
			}
			custom, plain := false, false
			for _, ev := range res.Events {
				if ev.Ev != "start" {
					continue
				}
				if _, ok := cust[ev.Pkg]; ok {
					custom = true
				} else {
					plain = true
				}
				if m := judge(ev, ev.Pkg, "installing "+ev.Pkg+" ("+ev.Stage+")"); m != "" {
					return viol("%s", m)
				}
			}
			for _, p := range c.Run {
				args := []string{"run"}
				who := ""
				if p != "-" {
					args = append(args, "--pkg="+p)
					who = p
				}
				r := b.Run(w.RunOpt{Env: extra}, args...)
				if m := crashed(r); m != "" {
					return viol("%s", m)
				}
				n := 0
				for _, ev := range r.Events {
					if ev.Ev == "session" {
						n++
						if m := judge(ev, who, "session "+p); m != "" {
							return viol("%s", m)
						}
					}
				}
				if n != 1 {
					return viol("pkgr run started %d R sessions: %s", n, r.Brief())
				}
			}
			return h.Result{Nontrivial: custom && plain}
		})
}

// firstR is the R a program is started with by its name.
func firstR(path string) string {
	for _, d := range filepath.SplitList(path) {
		f := filepath.Join(d, "R")
		if st, err := os.Stat(f); err == nil && st.Mode().IsRegular() && st.Mode()&0111 != 0 {
			return f
		}
	}
	return ""
}

// buildDir: a directory made for this one build is fine, a decoy is not.
func buildDir(l string, b *w.Box) bool {
	return strings.HasPrefix(l, b.Tmp+"/")
}

// libsOf are the libraries R would search besides its own, leaving out what
// is empty.
func libsOf(ev w.Event) []string {
	var out []string
	for _, v := range []string{"R_LIBS", "R_LIBS_USER", "R_LIBS_SITE"} {
		for _, p := range strings.Split(ev.Env[v], ":") {
			if p == "" {
				continue
			}
			if !filepath.IsAbs(p) {
				p = filepath.Join(ev.Cwd, p)
			}
			es, err := os.ReadDir(p)
			if err != nil || (len(es) == 0 && v != "R_LIBS_SITE") {
				continue
			}
			out = append(out, filepath.Clean(p))
		}
	}
	return out
}

func samePath(a, b string) bool {
	x, e1 := filepath.EvalSymlinks(a)
	y, e2 := filepath.EvalSymlinks(b)
	return e1 == nil && e2 == nil && x == y
}

func putFile(p, text string) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		panic(w.HarnessError{Msg: err.Error()})
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		panic(w.HarnessError{Msg: err.Error()})
	}
}
