package props

import (
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// editOp is one add or remove.
type editOp struct {
	Op   string   `json:"op"`
	Pkgs []string `json:"pkgs"`
	Inst bool     `json:"inst,omitempty"`
}

type editCase struct {
	Text string   `json:"text"` // %D: directory of the case, %L: very long
	Mode int      `json:"mode,omitempty"`
	Name string   `json:"name,omitempty"` // file name, given with --config
	Far  bool     `json:"far,omitempty"`  // run from another directory
	Ops  []editOp `json:"ops"`
}

var editNames = []string{"aa", "aab", "R6", "R6extra", "data.table", "data.tab", "Rcpp", "RcppX", "rcpp", "glue", "a.b.c", "abc", "Packages", "OLD"}

// packagesSection renders the section in one of the legal styles.
func packagesSection(t *rapid.T, items []string) string {
	quote := func(n string) string {
		switch gen.U(t, 8) {
		case 6:
			return `"` + n + `"`
		case 7:
			return "'" + n + "'"
		}
		return n
	}
	note := func() string {
		if gen.Chance(t, 20) {
			return gen.Pick(t, " # keep", "  # see Packages: below", " # - glue", " #x [a]", " # aa]")
		}
		return ""
	}
	switch style := gen.U(t, 10); {
	case len(items) == 0:
		return gen.Pick(t, "", "Packages:\n", "Packages: []\n", "Packages: # none yet\n", "Packages: ~\n", "Packages: [ ] # none\n", "Packages: null\n")
	case style < 6:
		ind := strings.Repeat(" ", []int{0, 2, 4, 1}[gen.U(t, 4)])
		s := gen.Pick(t, "Packages:", "Packages:", "Packages: ", "Packages:  # what we need", `"Packages":`, "Packages :") + "\n"
		for _, n := range items {
			if gen.Chance(t, 12) {
				s += gen.Pick(t, "\n", ind+"# a remark\n", "# - glue\n", "  \n")
			}
			s += ind + gen.Pick(t, "- ", "- ", "-   ", "-  ") + quote(n) + note() + gen.Pick(t, "", "", "", " ") + "\n"
		}
		return s
	case style < 8:
		var q []string
		for _, n := range items {
			q = append(q, quote(n))
		}
		return "Packages: [" + strings.Join(q, gen.Pick(t, ", ", ",", " , ")) + gen.Pick(t, "]", " ]", ", ]") + note() + "\n"
	default:
		s := "Packages: [" + gen.Pick(t, "", "\n  ")
		for i, n := range items {
			s += quote(n)
			if i < len(items)-1 {
				s += "," + gen.Pick(t, note()+"\n  ", " ", "\n\n   ")
			}
		}
		return s + gen.Pick(t, "]", "\n]", "\n  ]", ",\n]") + note() + "\n"
	}
}

func init() {
	prop("C17", "a case is one configuration file in any legal style and a sequence of add and remove commands with one or several names each; non-trivial: some command changes the list of packages and another one finds nothing to do for one of its names",
		450, 9000,
		func(t *rapid.T) *editCase {
			c := &editCase{Far: gen.Chance(t, 30)}
			items := gen.Subset(t, editNames, 35)
			if gen.Chance(t, 10) {
				items = nil
			}
			// in any order
			for i := range items {
				j := gen.R(t, i, len(items)-1)
				items[i], items[j] = items[j], items[i]
			}
			if len(items) > 0 && gen.Chance(t, 15) {
				// listed twice
				x := items[gen.U(t, len(items))]
				i := gen.R(t, 0, len(items))
				items = append(items[:i:i], append([]string{x}, items[i:]...)...)
			}
			names := func() []string { return gen.Subset(t, editNames, 25) }
			block := func(key string, xs []string) string {
				if len(xs) == 0 {
					return ""
				}
				s := key + ":\n"
				for _, x := range xs {
					s += "  - " + x + "\n"
				}
				return s
			}
			secs := []string{
				"Repos:\n  - CRAN: \"%D/repo\"\n  - Packages: \"%D/repo2\"\n",
				"Library: lib\n",
				"Cache: \"%D/cache\"\n",
				"RPath: \"%D/bin/R\"\n",
				packagesSection(t, items),
			}
			if x := names(); gen.Chance(t, 40) {
				secs = append(secs, block("IgnorePackages", x))
			}
			if x := names(); gen.Chance(t, 40) && len(x) > 0 {
				s := "Customizations:\n  Packages:\n"
				for _, n := range x {
					s += "    - " + n + ":\n        Suggests: true\n"
				}
				secs = append(secs, s)
			}
			if gen.Chance(t, 25) {
				secs = append(secs, "Threads: 2\n")
			}
			if gen.Chance(t, 40) {
				secs = append(secs, gen.Pick(t, "# Packages:\n# - aa\n", "# the end\n", "\n\n", "#Packages: [aa]\n", "Suggests: true # Packages: all\n"))
			}
			if x := names(); gen.Chance(t, 25) && len(x) > 0 {
				s := "Logging:\n  all: \"Packages:\"\n"
				secs = append(secs, s)
			}
			if gen.Chance(t, 4) {
				secs = append(secs, gen.Pick(t, "# %L\n", "Logging:\n  install: inst.log # %L\n"))
			}
			for i := range secs {
				j := gen.R(t, i, len(secs)-1)
				secs[i], secs[j] = secs[j], secs[i]
			}
			c.Text = gen.Pick(t, "", "---\n", "# pkgr\n") + "Version: 1\n" + strings.Join(secs, gen.Pick(t, "", "", "\n"))
			if gen.Chance(t, 20) {
				c.Text = strings.TrimRight(c.Text, "\n")
			}
			if gen.Chance(t, 10) {
				c.Text = strings.ReplaceAll(c.Text, "\n", "\r\n")
			}
			c.Mode = []int{0644, 0600, 0664}[gen.U(t, 3)]
			if gen.Chance(t, 30) {
				c.Name = gen.Pick(t, "other.yml", "my config.yml", "sub/pkgr.yml")
			}
			for i, n := 0, gen.R(t, 1, 5); i < n; i++ {
				op := editOp{Op: gen.Pick(t, "add", "remove")}
				for j, k := 0, gen.R(t, 1, 4); j < k; j++ {
					op.Pkgs = append(op.Pkgs, editNames[gen.U(t, len(editNames))])
				}
				c.Ops = append(c.Ops, op)
			}
			if last := &c.Ops[len(c.Ops)-1]; last.Op == "add" && !strings.Contains(c.Text, "IgnorePackages") {
				last.Inst = gen.Chance(t, 25)
			}
			return c
		},
		func(env *w.Env, c *editCase) h.Result {
			wd := &w.World{R: "4.3.3"}
			b := wd.Build(env)
			defer b.Close()
			name := c.Name
			if name == "" {
				name = "pkgr.yml"
			}
			_ = os.Remove(filepath.Join(b.Proj, "pkgr.yml"))
			f := filepath.Join(b.Proj, name)
			putFile(f, strings.NewReplacer("%D", b.Dir, "%L", strings.Repeat("0123456789abcdef", 5000)).Replace(c.Text))
			_ = os.Chmod(f, os.FileMode(c.Mode))
			for i, ps := range [][]string{editNames, {"zzz"}} {
				r := w.Repo{Name: "x"}
				for _, n := range ps {
					r.Pkgs = append(r.Pkgs, w.Pkg{N: n, V: "1.0"})
				}
				r.Write(filepath.Join(b.Dir, []string{"repo", "repo2"}[i]), "4.3.3")
			}
			rest, pkgs, ok := readConfig(f)
			if !ok {
				return h.Result{Skip: true}
			}
			changed, noop := false, false
			for i, op := range c.Ops {
				args := append([]string{op.Op}, op.Pkgs...)
				opt := w.RunOpt{}
				if c.Name != "" || c.Far {
					if c.Far {
						opt.Cwd = b.Home
						args = append([]string{"--config=" + f}, args...)
					} else {
						args = append([]string{"--config=" + name}, args...)
					}
				}
				if op.Inst {
					args = append(args, "--install")
				}
				before := w.ReadFile(f)
				r := b.Run(opt, args...)
				if m := crashed(r); m != "" {
					return viol("step %d: %s", i, m)
				}
				if r.Exit != 0 {
					return viol("step %d: %s %v failed: %s", i, op.Op, op.Pkgs, r.Brief())
				}
				want := append([]string{}, pkgs...)
				had := set(pkgs)
				did := false
				for _, p := range op.Pkgs {
					if op.Op == "add" {
						if had[p] {
							noop = true
						} else {
							want = append(want, p)
							had[p], did = true, true
						}
					} else if had[p] {
						var left []string
						for _, x := range want {
							if x != p {
								left = append(left, x)
							}
						}
						want, did = left, true
						delete(had, p)
					} else {
						noop = true
					}
				}
				after := w.ReadFile(f)
				rest2, pkgs2, ok := readConfig(f)
				if !ok {
					return viol("step %d: after %s %v the configuration cannot be read any more:\n%s\nbefore:\n%s", i, op.Op, op.Pkgs, after, before)
				}
				if !same(pkgs2, want) {
					return viol("step %d: after %s %v of %v the packages are %v, expected %v\nbefore:\n%s\nafter:\n%s", i, op.Op, op.Pkgs, pkgs, pkgs2, want, before, after)
				}
				// those that were there before keep their order
				if x, y := common(pkgs, pkgs2), common(pkgs2, pkgs); !reflect.DeepEqual(x, y) {
					return viol("step %d: %s %v changed the order of the packages from %v to %v", i, op.Op, op.Pkgs, x, y)
				}
				if !reflect.DeepEqual(rest, rest2) {
					return viol("step %d: %s %v changed other settings\nbefore:\n%s\nafter:\n%s", i, op.Op, op.Pkgs, before, after)
				}
				if !did && strings.TrimRight(norm(before), "\n") != strings.TrimRight(norm(after), "\n") {
					if !strings.Contains(before, "[") {
						return viol("step %d: %s %v had nothing to do but changed the file\nbefore:\n%s\nafter:\n%s", i, op.Op, op.Pkgs, before, after)
					}
				}
				// whatever is not part of the list stays as it is, remarks included
				if x, y := outside(before), outside(after); x != y {
					return viol("step %d: %s %v changed other lines of the file\nbefore:\n%s\nafter:\n%s", i, op.Op, op.Pkgs, before, after)
				}
				if fi, err := os.Stat(f); err != nil || int(fi.Mode().Perm()) != c.Mode {
					return viol("step %d: permissions of the file changed", i)
				}
				if op.Inst {
					lib := filepath.Join(filepath.Dir(f), "lib")
					if got := w.Snap(lib).Tops(); !same(got, uniq(want)) {
						return viol("step %d: add --install of %v left the library with %v, expected %v", i, op.Pkgs, got, want)
					}
				}
				pkgs, changed = pkgs2, changed || did
			}
			return h.Result{Nontrivial: changed && noop}
		})
}

func norm(s string) string { return strings.ReplaceAll(s, "\r\n", "\n") }

// common are the elements of a also in b.
func common(a, b []string) []string {
	m := set(b)
	out := []string{}
	for _, x := range a {
		if m[x] {
			out = append(out, x)
		}
	}
	return out
}

// readConfig returns the packages and everything else.
func readConfig(f string) (map[string]interface{}, []string, bool) {
	m := map[string]interface{}{}
	if err := yaml.Unmarshal([]byte(w.ReadFile(f)), &m); err != nil {
		return nil, nil, false
	}
	var out []string
	switch l := m["Packages"].(type) {
	case nil:
	case []interface{}:
		for _, x := range l {
			s, ok := x.(string)
			if !ok {
				return nil, nil, false
			}
			out = append(out, s)
		}
	default:
		return nil, nil, false
	}
	delete(m, "Packages")
	return m, out, true
}

// outside returns the lines of the file that do not belong to the Packages
// section, blank lines aside.
func outside(text string) string {
	var out []string
	in := false
	for _, l := range strings.Split(norm(text), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if l[0] != ' ' && l[0] != '-' && l[0] != ']' && l[0] != '#' || strings.HasPrefix(l, "---") {
			k := strings.TrimSpace(strings.SplitN(l, ":", 2)[0])
			in = strings.Trim(k, `"`) == "Packages"
			if in {
				continue
			}
		}
		if in && l[0] != '#' {
			continue
		}
		out = append(out, strings.TrimRight(l, " "))
	}
	return strings.Join(out, "\n")
}
