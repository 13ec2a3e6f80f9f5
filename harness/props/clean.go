package props

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type cleanCase struct {
	W       *w.World `json:"w"`
	Other   bool     `json:"other,omitempty"`   // another project shares the cache
	Default bool     `json:"default,omitempty"` // the default cache is used
	Op      string   `json:"op"`                // none, all, cache, pkgdbs
	Src     bool     `json:"src,omitempty"`
	Bin     bool     `json:"bin,omitempty"`
	Repos   []int    `json:"repos,omitempty"` // of the folders or repositories, sorted; -1 one that does not exist
	NewRoot bool     `json:"newroot,omitempty"`
	Cwd     bool     `json:"cwd,omitempty"`  // run from elsewhere
	Lost    int      `json:"lost,omitempty"` // this local archive is not there while cleaning
}

func init() {
	prop("C21", "a case is a populated cache, possibly shared with another project, and one clean command with generated options, followed by new publications and a plan; non-trivial: the command is to delete something but not everything",
		260, 7000,
		func(t *rapid.T) *cleanCase {
			o := gen.Default()
			o.MaxPkgs, o.MaxRepos, o.Bin, o.Pre, o.Tarballs, o.Descs, o.Delays, o.Roots, o.HTTP = 6, 3, 60, 20, 50, 0, 0, 70, 20
			c := &cleanCase{W: gen.World(t, o), Other: gen.Chance(t, 60), Default: gen.Chance(t, 25), Op: gen.Pick(t, "none", "all", "cache", "cache", "cache", "pkgdbs", "pkgdbs"), NewRoot: gen.Chance(t, 30), Cwd: gen.Chance(t, 30)}
			if c.Op == "cache" {
				switch gen.U(t, 7) {
				case 3, 4:
					c.Src = true
				case 5:
					c.Bin = true
				case 6:
					c.Src, c.Bin = gen.Chance(t, 50), true
				}
			}
			if n := len(c.W.Tarballs); n > 0 && c.Op == "cache" && gen.Chance(t, 50) {
				c.Lost = gen.R(t, 1, n)
			}
			if c.Op == "cache" || c.Op == "pkgdbs" {
				if gen.Chance(t, 60) {
					for i := 0; i < 4; i++ {
						if gen.Chance(t, 40) {
							c.Repos = append(c.Repos, i)
						}
					}
					if len(c.Repos) == 0 || gen.Chance(t, 35) {
						k := gen.U(t, 30)
						if gen.Chance(t, 40) {
							// in other case
							k = []int{12, 24}[gen.U(t, 2)] + gen.U(t, 3)
						}
						c.Repos = append(c.Repos, -1-k)
					}
					if gen.Chance(t, 20) {
						c.Repos = append(c.Repos, c.Repos[0])
					}
				}
			}
			return c
		}, runClean)
}

// nearly makes a name that resembles one of those that exist.
func nearly(from []string, i int) string {
	i = -i - 1
	if i < 0 || len(from) == 0 {
		return ""
	}
	x := from[i%len(from)]
	head, tail, _ := strings.Cut(x, "-")
	switch i / 3 {
	case 1:
		return head
	case 2:
		return x[:len(x)-1]
	case 3:
		return x + "x"
	case 4:
		return strings.ToLower(x)
	case 5:
		return tail
	case 6:
		return "*"
	case 7:
		return x[:1]
	case 8:
		return strings.ToUpper(x)
	}
	return ""
}

func runClean(env *w.Env, c *cleanCase) h.Result {
	wd := clone(c.W)
	wd.Cfg.NoCache = c.Default
	b := wd.Build(env)
	defer b.Close()
	if len(w.NewModel(wd).Plan().Missing) > 0 {
		return h.Result{Skip: true}
	}
	cache := b.CacheDir
	dbs := filepath.Join(b.XDG, "pkgr", "r_packagedb_caches")
	if c.Default {
		cache = filepath.Join(b.XDG, "pkgr")
	}
	if r := b.Run(w.RunOpt{}, "install"); r.Exit != 0 {
		return viol("install failed: %s", r.Brief())
	}
	config := filepath.Join(b.Proj, "pkgr.yml")
	// another project with one repository of its own and another tarball
	other := clone(wd)
	if c.Other {
		x := clone(&wd.Repos[0])
		x.Name, x.Of = "other", wd.Repos[0].Name
		other.Repos = append([]w.Repo{*x}, other.Repos...)
		other.Cfg.Lib, other.Lib, other.NoLib = "lib2", nil, true
		other.Tarballs = []w.Pkg{{N: "othertar", V: "1.0", Salt: "x"}}
		b.W = other
		b.WriteRepo(*x)
		putFile(filepath.Join(b.Proj, "tb", other.Tarballs[0].SrcName()), string(w.TarGz("othertar", other.Tarballs[0].Files("tarball", false, wd.R))))
		b.WriteConfig()
		if r := b.Run(w.RunOpt{}, "install"); r.Exit != 0 {
			return viol("install of the other project failed: %s", r.Brief())
		}
		b.W = wd
		b.WriteConfig()
	}
	putFile(filepath.Join(cache, "notes.txt"), "mine\n")
	putFile(filepath.Join(cache, "mydir", "src.txt"), "mine\n")
	roots := wd.Cfg.Pkgs
	if c.NewRoot {
		wd.Cfg.Pkgs = append(append([]string{}, roots...), "brandnew")
		b.WriteConfig()
	}

	// what there is
	var folders []string
	ds, _ := os.ReadDir(cache)
	for _, d := range ds {
		if exists(filepath.Join(cache, d.Name(), "src")) || exists(filepath.Join(cache, d.Name(), "binary")) {
			folders = append(folders, d.Name())
		}
	}
	lost, lostPkg := "", ""
	if c.Lost > 0 && c.Lost <= len(wd.Tarballs) {
		lostPkg = wd.Tarballs[c.Lost-1].N
		lost = filepath.Join(b.Proj, "tb", wd.Tarballs[c.Lost-1].SrcName())
		if err := os.Rename(lost, lost+".away"); err != nil {
			panic(w.HarnessError{Msg: err.Error()})
		}
	}
	before := w.Snap(b.Dir)
	args := []string{"clean"}
	sel := map[string]bool{}
	var names []string
	pick := func(from []string) {
		for _, i := range c.Repos {
			if i >= 0 && i < len(from) {
				names = append(names, from[i])
				sel[from[i]] = true
			} else if x := nearly(from, i); x != "" && !gen.Has(from, x) && !strings.Contains(x, ",") && x != "ALL" {
				names = append(names, x)
			} else {
				names = append(names, "nosuch-"+num36(i))
			}
		}
	}
	var repos []string
	for _, r := range wd.Repos {
		repos = append(repos, r.Name)
	}
	switch c.Op {
	case "all":
		args = append(args, "--all")
	case "cache":
		args = append(args, "cache")
		if c.Src {
			args = append(args, "--src-only")
		}
		if c.Bin {
			args = append(args, "--binaries-only")
		}
		pick(folders)
	case "pkgdbs":
		args = append(args, "pkgdbs")
		pick(repos)
	}
	if len(names) > 0 {
		args = append(args, "--repos="+strings.Join(names, ","))
	}
	opt := w.RunOpt{}
	if c.Cwd {
		opt.Cwd = b.Home
		args = append(args, "--config="+config)
	}
	r := b.Run(opt, args...)
	if m := crashed(r); m != "" {
		return viol("%s", m)
	}
	invalid := c.Op == "cache" && c.Src && c.Bin
	if r.Exit != 0 && !invalid {
		return viol("%v failed: %s", args, r.Brief())
	}
	after := w.Snap(b.Dir)
	rel := func(p string) string { x, _ := filepath.Rel(b.Dir, p); return x }
	rc, rdb := rel(cache), rel(dbs)

	// which entries were to go
	archives := (c.Op == "all" || c.Op == "cache") && !invalid
	gone := func(p string) bool {
		if !archives || !strings.HasPrefix(p, rc+"/") {
			return false
		}
		parts := strings.Split(strings.TrimPrefix(p, rc+"/"), "/")
		if len(parts) < 2 || !set(folders)[parts[0]] {
			return false
		}
		if len(c.Repos) > 0 && !sel[parts[0]] {
			return false
		}
		return parts[1] == "src" && !c.Bin || parts[1] == "binary" && !c.Src
	}
	own, foreign, unknown := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for p := range before {
		if !strings.HasPrefix(p, rc+"/") || !strings.HasSuffix(p, "/R/payload.R") {
			continue
		}
		top := strings.Split(strings.TrimPrefix(p, rc+"/"), "/")[0]
		if strings.Contains(p, "/othertar/") {
			foreign[top] = true
		} else if lostPkg != "" && strings.Contains(p, "/"+lostPkg+"/") {
			// nobody can tell any more where it was unpacked
			unknown[top] = true
		} else {
			own[top] = true
		}
	}
	removed := 0
	for p, n := range before {
		_, still := after[p]
		if strings.HasPrefix(n.Mode, "d") || p == rdb || strings.HasPrefix(p, rdb+"/") || strings.HasPrefix(p, "ctl/") || strings.HasPrefix(p, "tmp/") {
			continue
		}
		top := ""
		if strings.HasPrefix(p, rc+"/") {
			top = strings.Split(strings.TrimPrefix(p, rc+"/"), "/")[0]
		}
		if unknown[top] {
			continue
		}
		want := gone(p) || archives && own[top]
		if want {
			removed++
		}
		if want && still {
			return viol("%v left %s\n%s", args, p, r.Brief())
		}
		if !want && !still {
			return viol("%v deleted %s\n%s", args, p, r.Brief())
		}
		if still && after[p] != n {
			return viol("%v changed %s", args, p)
		}
	}
	for p, n := range after {
		if _, ok := before[p]; !ok && !strings.HasPrefix(n.Mode, "d") && !strings.HasPrefix(p, rdb) && !strings.HasPrefix(p, "ctl/") && !strings.HasPrefix(p, "tmp/") {
			return viol("%v created %s", args, p)
		}
	}

	if lost != "" {
		_ = os.Rename(lost+".away", lost)
	}

	// which package databases are read again
	fresh := func(name string) bool {
		switch c.Op {
		case "all":
			return true
		case "pkgdbs":
			return len(c.Repos) == 0 || sel[name]
		}
		return false
	}
	bump := func(ps []w.Pkg) []w.Pkg {
		out := append([]w.Pkg{}, ps...)
		for i := range out {
			out[i].V = "77." + out[i].V
		}
		return out
	}
	next := clone(wd)
	next.Repos[len(next.Repos)-1].Pkgs = append(next.Repos[len(next.Repos)-1].Pkgs, w.Pkg{N: "brandnew", V: "0.5"})
	for i := range next.Repos {
		next.Repos[i].Pkgs, next.Repos[i].Bins = bump(next.Repos[i].Pkgs), bump(next.Repos[i].Bins)
		next.Repos[i].WriteIndex(filepath.Join(b.Dir, "repos", next.Repos[i].Name), wd.R)
	}
	expect := func(x *w.World) *w.World {
		m := clone(x)
		for i := range m.Repos {
			for _, n := range next.Repos {
				// the other project's own repository is never asked to be cleaned
				if m.Repos[i].Name == n.Name && fresh(n.Name) {
					m.Repos[i].Pkgs, m.Repos[i].Bins = n.Pkgs, n.Bins
				}
			}
		}
		return m
	}
	look := func(what string, x *w.World) string {
		m := expect(x)
		want := expected(m)
		r := b.Run(w.RunOpt{}, "plan")
		if want == "missing" {
			if r.Exit == 0 {
				return sprintf("after %v, planning %s found a package that only a fresh index has: %s", args, what, r.Brief())
			}
			return ""
		}
		if r.Exit != 0 {
			return sprintf("after %v, planning %s failed: %s", args, what, r.Brief())
		}
		if got := announced(r); got != want {
			return sprintf("after %v, planning %s announces\n %s\nexpected\n %s", args, what, got, want)
		}
		return ""
	}
	if m := look("the project", wd); m != "" {
		return viol("%s", m)
	}
	if c.Other {
		b.W = other
		b.WriteConfig()
		if m := look("the other project", other); m != "" {
			return viol("%s", m)
		}
	}
	_ = foreign
	return h.Result{Nontrivial: removed > 0 || c.Op == "pkgdbs"}
}

func num36(i int) string { return string(rune('a' + (i+52)%26)) }
