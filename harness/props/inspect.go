package props

import (
	"encoding/json"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type inspectCase struct {
	W       *w.World `json:"w"`
	Reverse bool     `json:"reverse,omitempty"`
	Tree    bool     `json:"tree,omitempty"`
	Plan    bool     `json:"plan,omitempty"` // plan --show-deps
	JSON    bool     `json:"json,omitempty"`
	Args    []string `json:"args,omitempty"`
	Before  bool     `json:"before,omitempty"` // the library is filled by then
}

type treeNode struct {
	name string
	kids []*treeNode
}

// parseTree reads a tree drawn with lines; nil if it is none.
func parseTree(out string) *treeNode {
	lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
	if len(lines) == 0 || strings.TrimSpace(lines[0]) != "." {
		return nil
	}
	root := &treeNode{}
	stack := []*treeNode{root}
	for _, l := range lines[1:] {
		rs := []rune(l)
		i := 0
		for i < len(rs) && strings.ContainsRune("│├└─ \u00a0", rs[i]) {
			i++
		}
		if i == 0 || i%4 != 0 || i/4 > len(stack) {
			return nil
		}
		n := &treeNode{name: strings.TrimSpace(string(rs[i:]))}
		p := stack[i/4-1]
		p.kids = append(p.kids, n)
		stack = append(stack[:i/4], n)
	}
	return root
}

func init() {
	prop("C23", "a case is a world and one way of asking for dependencies (forward or reverse, as a record, as a tree, by plan), for all or some packages; non-trivial: an expected answer has at least two packages for one",
		600, 15000,
		func(t *rapid.T) *inspectCase {
			o := gen.Default()
			o.MaxPkgs, o.Delays, o.Pre, o.Bin = 10, 0, 30, 20
			c := &inspectCase{W: gen.World(t, o), Reverse: gen.Chance(t, 40), Tree: gen.Chance(t, 30), Plan: gen.Chance(t, 15), JSON: gen.Chance(t, 30), Before: gen.Chance(t, 15)}
			if c.Plan {
				c.Reverse, c.Tree = false, false
			} else if gen.Chance(t, 40) {
				var all []string
				for n := range w.NewModel(c.W).Plan().All {
					all = append(all, n)
				}
				all = uniq(all)
				for i, n := 0, gen.R(t, 1, 3); i < n && len(all) > 0; i++ {
					c.Args = append(c.Args, all[gen.U(t, len(all))])
				}
				c.Args = uniq(c.Args)
			}
			return c
		}, runInspect)
}

func runInspect(env *w.Env, c *inspectCase) h.Result {
	wd := c.W
	pl := w.NewModel(wd).Plan()
	if len(pl.Missing) > 0 || pl.Cyclic {
		return h.Result{Skip: true}
	}
	b := wd.Build(env)
	defer b.Close()
	if c.Before {
		if r := b.Run(w.RunOpt{}, "install"); r.Exit != 0 {
			return viol("install failed: %s", r.Brief())
		}
	}
	want := map[string]map[string]bool{}
	for n := range pl.All {
		for d := range pl.Closure(n) {
			a, x := n, d
			if c.Reverse {
				a, x = d, n
			}
			if want[a] == nil {
				want[a] = map[string]bool{}
			}
			want[a][x] = true
		}
	}
	nt := false
	for _, m := range want {
		nt = nt || len(m) > 1
	}
	before := w.Snap(b.Lib)
	args := []string{"inspect", "--deps"}
	if c.Reverse {
		args = append(args, "--reverse")
	}
	if c.Tree {
		args = append(args, "--tree")
	}
	opt := w.RunOpt{NoLog: true}
	if c.Plan {
		args = []string{"--loglevel=fatal", "plan", "--show-deps"}
	} else if c.JSON {
		args = append(args, "--json")
	} else {
		args = append([]string{"--loglevel=fatal"}, args...)
	}
	args = append(args, c.Args...)
	r := b.Run(opt, args...)
	if r.Exit != 0 {
		return viol("%v failed: %s", args, r.Brief())
	}
	if d := w.Diff(before, w.Snap(b.Lib)); d != "" {
		return viol("%v changed the library: %s", args, d)
	}
	keys := map[string]bool{}
	for n := range want {
		keys[n] = true
	}
	if len(c.Args) > 0 {
		keys = set(c.Args)
	}
	compare := func(got map[string][]string) h.Result {
		for n := range keys {
			if x := uniq(got[n]); len(x) != len(got[n]) {
				return viol("%v: %s lists a package twice: %v", args, n, got[n])
			}
			if !same(got[n], sorted(want[n])) {
				return viol("%v: %s has %v, expected %v", args, n, got[n], sorted(want[n]))
			}
		}
		for n := range got {
			if !keys[n] && (len(c.Args) > 0 || len(got[n]) > 0 || !inPlan(pl, n)) {
				return viol("%v: unexpected entry %s: %v", args, n, got[n])
			}
		}
		return h.Result{Nontrivial: nt}
	}
	switch {
	case c.Plan:
		got := map[string][]string{}
		ls := strings.Split(r.Out, "\n")
		for i, l := range ls {
			if f := strings.Fields(l); strings.HasPrefix(l, "-----------") && len(f) == 3 && i+1 < len(ls) {
				if _, dup := got[f[1]]; dup {
					return viol("%v lists %s twice", args, f[1])
				}
				got[f[1]] = strings.Fields(strings.Trim(ls[i+1], "[]"))
			}
		}
		return compare(got)
	case c.Tree:
		root := parseTree(r.Out)
		if root == nil {
			return viol("%v: cannot read the tree: %s", args, r.Brief())
		}
		tops := map[string][]string{}
		var bad string
		var below func(n *treeNode, m map[string]bool)
		below = func(n *treeNode, m map[string]bool) {
			seen := map[string]bool{}
			for _, k := range n.kids {
				m[k.name] = true
				if !want[n.name][k.name] {
					bad = sprintf("%s below %s", k.name, n.name)
				}
				if seen[k.name] {
					bad = sprintf("%s twice below %s", k.name, n.name)
				}
				seen[k.name] = true
				below(k, m)
			}
			// whatever is directly needed hangs directly below
			if !c.Reverse {
				for _, d := range pl.Deps[n.name] {
					if !seen[d] {
						bad = sprintf("%s not directly below %s", d, n.name)
					}
				}
			}
		}
		for _, k := range root.kids {
			if _, dup := tops[k.name]; dup {
				return viol("%v: %s twice at the top", args, k.name)
			}
			m := map[string]bool{}
			below(k, m)
			tops[k.name] = sorted(m)
		}
		if bad != "" {
			return viol("%v: %s:\n%s", args, bad, r.Out)
		}
		return compare(tops)
	}
	got := map[string][]string{}
	if err := json.Unmarshal([]byte(r.Out), &got); err != nil {
		return viol("%v: no JSON: %v: %s", args, err, r.Brief())
	}
	return compare(got)
}

func inPlan(pl *w.Plan, n string) bool {
	_, ok := pl.All[n]
	return ok
}
