package props

import (
	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type threadCase struct {
	Threads int  `json:"threads"`        // configuration, 0: not set
	Flag    int  `json:"flag,omitempty"` // command line, 0: not given
	Procs   int  `json:"procs"`
	Free    int  `json:"free"` // packages without dependencies beyond the expected number of workers
	Chain   int  `json:"chain"`
	Bin     bool `json:"bin,omitempty"`
}

func (c *threadCase) want() int {
	n := c.Threads
	if c.Flag > 0 {
		n = c.Flag
	}
	if n < 1 {
		n = c.Procs
		if n > 8 {
			n = 8
		}
	}
	return n
}

func init() {
	prop("C11", "a case is one combination of Threads, --threads and available processors with more independent packages than workers, installed while every R process waits for the expected number of others; non-trivial: at least two workers are expected",
		240, 3000,
		func(t *rapid.T) *threadCase {
			c := &threadCase{Procs: gen.R(t, 1, 16), Free: gen.R(t, 0, 5), Chain: gen.R(t, 0, 3), Bin: gen.Chance(t, 20)}
			if gen.Chance(t, 40) {
				c.Procs = gen.R(t, 6, 10)
			}
			if gen.Chance(t, 45) {
				c.Threads = gen.R(t, 1, 14)
			}
			if gen.Chance(t, 30) {
				c.Flag = gen.R(t, 1, 14)
			}
			return c
		},
		func(env *w.Env, c *threadCase) h.Result {
			n := c.want()
			wd := &w.World{R: "4.3.3", Repos: []w.Repo{{Name: "CRAN", HasBin: c.Bin}}, NoLib: true, Procs: c.Procs, Ctl: map[string]int{"barrier": n}}
			wd.Cfg.Threads = c.Threads
			r0 := &wd.Repos[0]
			if c.Bin {
				r0.RepoType = "MPN"
			}
			for i := 0; i < n+c.Free; i++ {
				p := w.Pkg{N: sprintf("p%02d", i), V: "1.0"}
				r0.Pkgs = append(r0.Pkgs, p)
				wd.Cfg.Pkgs = append(wd.Cfg.Pkgs, p.N)
			}
			for i := 0; i < c.Chain; i++ {
				p := w.Pkg{N: sprintf("q%02d", i), V: "1.0", Imp: []string{sprintf("p%02d", i%n)}}
				if i > 0 {
					p.Imp = append(p.Imp, sprintf("q%02d", i-1))
				}
				r0.Pkgs = append(r0.Pkgs, p)
				wd.Cfg.Pkgs = append(wd.Cfg.Pkgs, p.N)
			}
			if c.Bin {
				r0.Bins = r0.Pkgs
			}
			b := wd.Build(env)
			defer b.Close()
			args := []string{"install"}
			if c.Flag > 0 {
				args = append(args, sprintf("--threads=%d", c.Flag))
			}
			r := b.Run(w.RunOpt{}, args...)
			if v := crashed(r); v != "" {
				return viol("%s", v)
			}
			if r.Exit != 0 {
				return viol("install failed: %s", r.Brief())
			}
			open, max := 0, 0
			for _, e := range r.Events {
				switch e.Ev {
				case "start":
					open++
				case "end":
					open--
				}
				if open > max {
					max = open
				}
			}
			if max != n {
				return viol("Threads %d, --threads %d, %d processors: %d packages were installed at the same time, expected %d", c.Threads, c.Flag, c.Procs, max, n)
			}
			for _, p := range wd.Cfg.Pkgs {
				if payload(b.Lib, p) == "" {
					return viol("package %s is missing: %s", p, r.Brief())
				}
			}
			cl := []string{"default"}
			switch {
			case c.Flag > 0:
				cl = []string{"flag"}
			case c.Threads > 0:
				cl = []string{"config"}
			case c.Procs > 8:
				cl = []string{"default-capped"}
			}
			return h.Result{Nontrivial: n > 1, Classes: cl}
		})
}
