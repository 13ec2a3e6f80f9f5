package props

import (
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// tlsStep is one command.
type tlsStep struct {
	Cmd       string `json:"cmd"`
	Flag      string `json:"flag,omitempty"`
	WipeIdx   bool   `json:"wipeidx,omitempty"`
	WipeCache bool   `json:"wipecache,omitempty"`
	WipeLib   bool   `json:"wipelib,omitempty"` // put the library back to what it was at first
}

type tlsCase struct {
	W     *w.World  `json:"w"`
	Cfg   string    `json:"cfg,omitempty"`   // NoSecure in the configuration
	Redir string    `json:"redir,omitempty"` // repository with a redirection
	Idx   bool      `json:"idx,omitempty"`   // of its index rather than of its packages
	To    string    `json:"to,omitempty"`    // certificate of the server it leads to
	Code  int       `json:"code,omitempty"`
	Steps []tlsStep `json:"steps"`
}

func init() {
	prop("C25", "a case is one world with repositories over TLS (certificates that can be verified, self-signed, of another authority, for other hosts, expired, not yet valid, for other uses, by a non-authority) or redirected there, a setting, and one to three commands with or without --no-secure; non-trivial: a command had to refuse a certificate, or had to accept one because verification is disabled",
		600, 12000,
		func(t *rapid.T) *tlsCase {
			o := gen.Default()
			o.HTTP, o.Bin, o.MaxPkgs, o.MinPkgs, o.MaxRepos, o.Pre, o.Delays, o.Tarballs, o.Descs, o.NoLib = 100, 30, 5, 2, 3, 50, 0, 10, 10, 15
			c := &tlsCase{W: gen.World(t, o)}
			// a certificate that is not accepted is rare enough that all others are seen, too
			for i := range c.W.Repos {
				if c.W.Repos[i].Of != "" {
					continue
				}
				switch gen.U(t, 8) {
				case 0, 1:
				case 2, 3, 4, 5:
					c.W.Repos[i].TLS = gen.Pick(t, w.TLSGood...)
				default:
					c.W.Repos[i].TLS = gen.Pick(t, w.TLSBad...)
				}
			}
			for i := range c.W.Repos {
				if c.W.Repos[i].HasBin && gen.Chance(t, 25) {
					c.W.Repos[i].Suffix = gen.Pick(t, "prod", "test")
				}
			}
			if gen.Chance(t, 30) {
				r := c.W.Repos[gen.U(t, len(c.W.Repos))]
				c.Redir, c.Idx, c.Code = r.Origin(), gen.Chance(t, 40), []int{302, 301, 307, 308}[gen.U(t, 4)]
				c.To = gen.Pick(t, append(append([]string{}, w.TLSBad...), "ok", "ok")...)
			}
			c.Cfg = gen.Pick(t, "", "", "", "false", "true")
			for i, n := 0, gen.R(t, 1, 3); i < n; i++ {
				s := tlsStep{Cmd: gen.Pick(t, "install", "install", "install", "plan", "inspect")}
				s.Flag = gen.Pick(t, "", "", "", "--no-secure", "--no-secure", "--no-secure=true", "--no-secure=false")
				if i > 0 {
					s.WipeIdx, s.WipeCache, s.WipeLib = gen.Chance(t, 60), gen.Chance(t, 60), gen.Chance(t, 60)
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runTLS)
}

func runTLS(env *w.Env, c *tlsCase) h.Result {
	wd := clone(c.W)
	wd.Cfg.NoSecure = false
	if c.Cfg != "" {
		wd.Cfg.Raw += "NoSecure: " + c.Cfg + "\n"
	}
	b := wd.Build(env)
	defer b.Close()
	ca, none := filepath.Join(b.Dir, "ca.pem"), filepath.Join(b.Dir, "certs")
	putFile(ca, string(w.TLSRoot()))
	putDir(none)
	opt := w.RunOpt{Env: []string{"SSL_CERT_FILE=" + ca, "SSL_CERT_DIR=" + none}}
	isBad := func(kind string) bool { return gen.Has(w.TLSBad, kind) }
	badIdx := map[string]bool{}  // repositories whose index is behind a bad certificate
	badPkgs := map[string]bool{} // and those whose packages are
	var bad []*w.Server
	for _, r := range wd.Repos {
		if isBad(r.TLS) {
			badIdx[r.Name], badPkgs[r.Name] = true, true
			bad = append(bad, b.Servers[r.Name])
		}
	}
	if c.Redir != "" {
		s := w.NewTLSServer(filepath.Join(b.Dir, "repos", c.Redir), c.To)
		defer s.Close()
		var fs []w.HTTPFault
		if c.Idx {
			fs = append(fs, w.HTTPFault{Suffix: "/PACKAGES", Kind: "redirect", N: c.Code, Body: s.URL()})
		} else {
			fs = append(fs, w.HTTPFault{Suffix: ".gz", Kind: "redirect", N: c.Code, Body: s.URL()})
		}
		b.Servers[c.Redir].SetFaults(fs)
		if isBad(c.To) {
			bad = append(bad, s)
			if c.Idx {
				badIdx[c.Redir] = true
			} else {
				badPkgs[c.Redir] = true
			}
		}
	}
	for _, r := range wd.Repos {
		if r.Of != "" {
			badIdx[r.Name], badPkgs[r.Name] = badIdx[r.Of], badPkgs[r.Of]
		}
	}
	pl := w.NewModel(wd).Plan()
	needBad := false
	for _, n := range append(append([]string{}, pl.New...), pl.Update...) {
		if badPkgs[pl.All[n].Repo] {
			needBad = true
		}
	}
	anyBad := false
	for _, r := range wd.Repos {
		anyBad = anyBad || badIdx[r.Name]
	}
	res := h.Result{Classes: []string{}}
	haveIdx, havePkgs, installed := false, false, false
	seen := map[string]bool{}
	for i, s := range c.Steps {
		if s.WipeIdx {
			removeTree(filepath.Join(b.XDG, "pkgr"))
			haveIdx = false
		}
		if s.WipeCache {
			removeTree(b.CacheDir)
			havePkgs = false
		}
		if s.WipeLib {
			removeTree(b.Lib)
			b.PutLib()
			installed = false
		}
		secure := c.Cfg != "true"
		switch s.Flag {
		case "--no-secure", "--no-secure=true":
			secure = false
		case "--no-secure=false":
			secure = true
		}
		var args []string
		if s.Flag != "" {
			args = append(args, s.Flag)
		}
		args = append(args, s.Cmd)
		if s.Cmd == "inspect" {
			args = append(args, "--deps", "--json")
		}
		for _, x := range bad {
			x.Requests()
		}
		before := w.Snap(b.Lib)
		r := b.Run(opt, args...)
		after := w.Snap(b.Lib)
		what := sprintf("step %d: %v (NoSecure: %q)", i, args, c.Cfg)
		if r.Deadlock || r.Panic {
			return viol("%s: %s", what, r.Brief())
		}
		refuse := secure && (!haveIdx && anyBad || s.Cmd == "install" && !installed && !havePkgs && needBad)
		if secure {
			for _, x := range bad {
				if q := x.Requests(); len(q) > 0 {
					return viol("%s: verification of certificates is enabled, but a server whose certificate cannot be verified was asked for %v", what, q)
				}
			}
		}
		if refuse {
			res.Nontrivial = true
			seen["refused"] = true
			if r.Exit == 0 && !haveIdx && anyBad {
				return viol("%s: exit status 0 although a certificate cannot be verified: %s", what, r.Brief())
			}
			if wd.Cfg.NoRollback && (haveIdx || !anyBad) {
				for _, n := range append(append([]string{}, pl.New...), pl.Update...) {
					if badPkgs[pl.All[n].Repo] && w.Diff(before.Sub(n), after.Sub(n)) != "" && !isTarball(wd, n) {
						return viol("%s: package %s changed although it cannot be downloaded: %s", what, n, r.Brief())
					}
				}
				continue
			}
			if d := w.Diff(before, after); d != "" {
				return viol("%s: the library was changed although a certificate cannot be verified: %s", what, d)
			}
			continue
		}
		if !secure && (anyBad && !haveIdx || needBad && s.Cmd == "install" && !installed && !havePkgs) {
			res.Nontrivial = true
			seen["accepted"] = true
		}
		if r.Exit != 0 {
			return viol("%s: failed: %s", what, r.Brief())
		}
		haveIdx = true
		if s.Cmd == "install" {
			havePkgs = true
			if !installed {
				if m := checkSuccess(b, pl, before, after); m != "" {
					return viol("%s: %s", what, m)
				}
				installed = true
			}
		} else if d := w.Diff(before, after); d != "" {
			return viol("%s changed the library: %s", what, d)
		}
		seen["done"] = true
	}
	for k := range seen {
		res.Classes = append(res.Classes, k)
	}
	for _, r := range wd.Repos {
		if r.TLS != "" {
			res.Classes = append(res.Classes, "tls-"+r.TLS)
		}
	}
	if c.Redir != "" {
		res.Classes = append(res.Classes, "redirect-"+strings.TrimSpace(c.To))
	}
	return res
}

func isTarball(wd *w.World, n string) bool {
	for _, t := range wd.Tarballs {
		if t.N == n {
			return true
		}
	}
	return false
}
