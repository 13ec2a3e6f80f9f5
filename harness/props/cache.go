package props

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"io"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// archivePayload reads a package archive completely; "" when it is damaged.
func archivePayload(b []byte) string {
	gz, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return ""
	}
	tr := tar.NewReader(gz)
	pl, n := "", 0
	for {
		hd, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return ""
		}
		c, err := io.ReadAll(tr)
		if err != nil {
			return ""
		}
		n++
		if strings.HasSuffix(hd.Name, "/R/payload.R") {
			pl = string(c)
		}
	}
	if _, err := io.Copy(io.Discard, gz); err != nil || n < 5 {
		return ""
	}
	return pl
}

// checkCache looks at every package file in the cache: it must be exactly what
// a repository publishes, or a complete build of it.
func checkCache(b *w.Box) (string, int) {
	src, bin, built := map[string][][]byte{}, map[string][][]byte{}, map[string][]string{}
	for _, r := range b.W.Repos {
		for _, p := range r.Pkgs {
			src[p.SrcName()] = append(src[p.SrcName()], w.TarGz(p.N, p.Files(r.Name, false, b.W.R)))
			built[p.BinName()] = append(built[p.BinName()], w.Payload(r.Name, false, p))
		}
		for _, p := range r.Bins {
			bin[p.BinName()] = append(bin[p.BinName()], w.TarGz(p.N, p.Files(r.Name, true, b.W.R)))
		}
	}
	bad, n := "", 0
	_ = filepath.Walk(b.CacheDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() || bad != "" {
			return nil
		}
		if rel, _ := filepath.Rel(b.CacheDir, p); !strings.Contains(rel, "/src/") && !strings.Contains(rel, "/binary/") {
			// R leaves what it makes of a local archive beside it
			return nil
		}
		name := filepath.Base(p)
		want, isSrc := src[name]
		_, isBuilt := built[name]
		wb, isBin := bin[name]
		if !isSrc && !isBuilt && !isBin {
			return nil
		}
		n++
		c, err := os.ReadFile(p)
		if err != nil {
			bad = err.Error()
			return nil
		}
		for _, x := range append(append([][]byte{}, want...), wb...) {
			if bytes.Equal(x, c) {
				return nil
			}
		}
		if isBuilt {
			pl := archivePayload(c)
			for _, x := range built[name] {
				if x == pl {
					return nil
				}
			}
		}
		bad = sprintf("cache file %s (%d bytes) is neither what the repository publishes nor a complete build of it", strings.TrimPrefix(p, b.Dir), len(c))
		return nil
	})
	return bad, n
}

// pkgRequests are the package downloads since the last call.
func pkgRequests(b *w.Box) []string {
	var out []string
	for _, r := range b.W.Repos {
		if s := b.Servers[r.Name]; s != nil {
			for _, q := range s.Requests() {
				if strings.HasSuffix(q, ".tar.gz") {
					out = append(out, r.Name+q)
				}
			}
		}
	}
	return out
}

type cacheCase struct {
	W      *w.World      `json:"w"`
	Rounds [][]RepoFault `json:"rounds"`
}

// planFaults picks faults for the downloads of planned packages.
func planFaults(t *rapid.T, wd *w.World, pl *w.Plan, max int, kinds ...string) []RepoFault {
	var cands []string
	for _, n := range sorted(keysOf(pl.All)) {
		if r := repoOf(wd, pl.All[n].Repo); r != nil && r.HTTP {
			cands = append(cands, n)
		}
	}
	if len(cands) == 0 {
		return nil
	}
	var out []RepoFault
	for i, k := 0, gen.R(t, 1, max); i < k; i++ {
		s := pl.All[cands[gen.U(t, len(cands))]]
		f := w.HTTPFault{Suffix: "/" + fileOf(s), Kind: gen.Pick(t, kinds...)}
		switch f.Kind {
		case "status":
			f.N = []int{404, 403, 500, 503, 429, 206, 204, 202}[gen.U(t, 8)]
		case "slow":
			f.N = gen.R(t, 1, 60)
		default:
			f.N = []int{0, 1, 17, 100, 250, 400, 1 << 20}[gen.U(t, 7)]
		}
		out = append(out, RepoFault{s.Repo, f})
	}
	return out
}

func keysOf[V any](m map[string]V) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

func init() {
	prop("C12", "a case is one world served over HTTP, one to three installations with failing, truncated, reset or killed downloads into the same cache, one undisturbed installation, and one into a second library; non-trivial: a fault hit a download",
		360, 12000,
		func(t *rapid.T) *cacheCase {
			o := gen.Default()
			o.HTTP, o.Bin, o.Pre, o.Tarballs, o.Descs, o.Stray, o.Delays, o.Ignore, o.NoRec, o.MaxPkgs, o.MinPkgs = 100, 45, 0, 0, 5, 0, 0, 5, 5, 7, 2
			c := &cacheCase{W: gen.World(t, o)}
			for i := range c.W.Repos {
				for k := range c.W.Repos[i].Pkgs {
					if gen.Chance(t, 15) {
						c.W.Repos[i].Pkgs[k].Big = gen.R(t, 1, 40) * 5000
					}
				}
			}
			pl := w.NewModel(c.W).Plan()
			for i, n := 0, gen.R(t, 1, 3); i < n; i++ {
				c.Rounds = append(c.Rounds, planFaults(t, c.W, pl, 3, "status", "truncate", "truncate", "reset", "kill", "kill", "slow"))
			}
			return c
		},
		func(env *w.Env, c *cacheCase) h.Result {
			wd := c.W
			b := wd.Build(env)
			defer b.Close()
			nt := false
			cl := map[string]bool{}
			for i, fs := range c.Rounds {
				at := sprintf("round %d: ", i)
				eff := clone(wd)
				eff.Lib, eff.NoLib = scanLib(b)
				pl := w.NewModel(eff).Plan()
				setFaults(b, fs)
				r := b.Run(w.RunOpt{}, "install")
				if r.Deadlock {
					return viol("%s%s", at, crashed(r))
				}
				if v, _ := checkCache(b); v != "" {
					return viol("%s%s (faults %v)\n%s", at, v, fs, r.Brief())
				}
				for _, n := range sorted(keysOf(pl.All)) {
					if p := payload(b.Lib, n); p != "" && p != pl.All[n].Payload() && !strings.HasPrefix(p, "preinstalled") {
						return viol("%spackage %s is installed with content %q, expected %q", at, n, p, pl.All[n].Payload())
					}
				}
				for _, f := range fs {
					cl[f.F.Kind] = true
				}
				if r.Signal != "" {
					cl["killed"] = true
				}
				nt = nt || r.Signal != "" || dlFails(eff, pl, fs)
				pkgRequests(b)
			}
			setFaults(b, nil)
			eff := clone(wd)
			eff.Lib, eff.NoLib = scanLib(b)
			before := w.Snap(b.Lib)
			if before == nil {
				before = w.Tree{}
			}
			pl := w.NewModel(eff).Plan()
			r := b.Run(w.RunOpt{}, "install")
			if r.Exit != 0 || r.Deadlock {
				return viol("the undisturbed installation failed: %s", r.Brief())
			}
			if v := checkSuccess(b, pl, before, w.Snap(b.Lib)); v != "" {
				return viol("after disturbed downloads, the undisturbed installation is wrong: %s\n%s", v, r.Brief())
			}
			if v, _ := checkCache(b); v != "" {
				return viol("%s", v)
			}
			pkgRequests(b)
			// everything comes from the cache now
			wd.Cfg.Lib = "lib2"
			b.Lib = filepath.Join(b.Proj, "lib2")
			b.WriteConfig()
			eff = clone(wd)
			eff.Lib, eff.NoLib = nil, true
			pl = w.NewModel(eff).Plan()
			r = b.Run(w.RunOpt{}, "install")
			if r.Exit != 0 || r.Deadlock {
				return viol("installation from the cache failed: %s", r.Brief())
			}
			if v := checkSuccess(b, pl, w.Tree{}, w.Snap(b.Lib)); v != "" {
				return viol("installation from the cache is wrong: %s\n%s", v, r.Brief())
			}
			if q := pkgRequests(b); len(q) > 0 {
				return viol("packages in the cache were downloaded again: %v", q)
			}
			_, n := checkCache(b)
			if n < len(pl.All) {
				return viol("cache holds %d package files for %d packages", n, len(pl.All))
			}
			return h.Result{Nontrivial: nt, Classes: sorted(cl)}
		})
}
