package props

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

// tarEntry is one entry of an archive.
type tarEntry struct {
	Name string `json:"name"` // %D: directory of the case
	Type string `json:"type"` // reg, dir, sym, hard, fifo, char, pax
	Link string `json:"link,omitempty"`
	Seed uint32 `json:"seed,omitempty"`
	Size int    `json:"size,omitempty"`
	Exec bool   `json:"exec,omitempty"`
	Text string `json:"text,omitempty"`
	Mode int64  `json:"mode,omitempty"`
}

type archive struct {
	Pkg     string     `json:"pkg"`
	Entries []tarEntry `json:"entries"`
	Ext     string     `json:"ext"`
	Format  int        `json:"format"` // 0 PAX, 1 GNU
	Cut     int        `json:"cut,omitempty"`
	Hostile bool       `json:"hostile,omitempty"`
	Root    string     `json:"root"`
}

type archiveCase struct {
	As    []archive `json:"as"`
	Again bool      `json:"again,omitempty"` // a damaged archive is replaced and the run repeated
}

func body(e tarEntry) []byte {
	if e.Text != "" {
		return []byte(e.Text)
	}
	b := make([]byte, e.Size)
	x := e.Seed | 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 8)
	}
	return b
}

func (a archive) bytes(root string) []byte {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, e := range a.Entries {
		hd := &tar.Header{Name: strings.ReplaceAll(e.Name, "%D", root), ModTime: time.Unix(1600000000, 0), Mode: 0644, Linkname: strings.ReplaceAll(e.Link, "%D", root), Format: tar.FormatPAX}
		if a.Format == 1 {
			hd.Format = tar.FormatGNU
		}
		if e.Exec {
			hd.Mode = 0755
		}
		if e.Mode != 0 {
			hd.Mode = e.Mode
		}
		switch e.Type {
		case "dir":
			hd.Typeflag, hd.Mode = tar.TypeDir, 0755
			if e.Mode != 0 {
				hd.Mode = e.Mode
			}
		case "sym":
			hd.Typeflag = tar.TypeSymlink
		case "hard":
			hd.Typeflag = tar.TypeLink
		case "fifo":
			hd.Typeflag = tar.TypeFifo
		case "char":
			hd.Typeflag, hd.Devmajor, hd.Devminor = tar.TypeChar, 1, 3
		case "pax":
			hd = &tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: "pax_global_header", PAXRecords: map[string]string{"comment": "0123456789abcdef"}, Format: tar.FormatPAX}
		default:
			hd.Typeflag, hd.Size = tar.TypeReg, int64(len(body(e)))
		}
		if err := tw.WriteHeader(hd); err != nil {
			panic(w.HarnessError{Msg: err.Error()})
		}
		if hd.Typeflag == tar.TypeReg {
			_, _ = tw.Write(body(e))
		}
	}
	_ = tw.Close()
	out := buf.Bytes()
	tool := map[string][]string{".tar.bz2": {"bzip2", "-c"}, ".tar.xz": {"xz", "-c", "-0"}, ".tar.zst": {"zstd", "-c", "-q"}}[a.Ext]
	switch {
	case tool != nil:
		cmd := exec.Command(tool[0], tool[1:]...)
		cmd.Stdin = bytes.NewReader(out)
		o, err := cmd.Output()
		if err != nil {
			panic(w.HarnessError{Msg: tool[0] + ": " + err.Error()})
		}
		out = o
	case a.Ext != ".tar":
		var z bytes.Buffer
		gz := gzip.NewWriter(&z)
		_, _ = gz.Write(out)
		_ = gz.Close()
		out = z.Bytes()
	}
	if a.Cut > 0 {
		out = out[:len(out)*a.Cut/1000]
	}
	return out
}

// want are the files the package consists of.
func (a archive) want() map[string]tarEntry {
	m := map[string]tarEntry{}
	for _, e := range a.Entries {
		n := strings.TrimPrefix(e.Name, "./")
		if e.Type == "reg" && strings.HasPrefix(n, a.Root+"/") {
			m[strings.TrimPrefix(n, a.Root+"/")] = e
		}
	}
	return m
}

func genArchive(t *rapid.T, pkg string) archive {
	a := archive{Pkg: pkg, Root: pkg, Ext: gen.Pick(t, ".tar.gz", ".tar.gz", ".tar.gz", ".tar.zst", ".tar.bz2", ".tar.xz", ".tar"), Format: gen.U(t, 2)}
	if gen.Chance(t, 15) {
		a.Root = gen.Pick(t, pkg+"-main", "src", "zz")
	}
	pre := ""
	if gen.Chance(t, 15) {
		pre = "./"
	}
	if gen.Chance(t, 10) {
		a.Entries = append(a.Entries, tarEntry{Type: "pax"})
	}
	if pre != "" && gen.Chance(t, 50) {
		a.Entries = append(a.Entries, tarEntry{Name: "./", Type: "dir"})
	}
	dirs := []string{"", "R/", "man/", "inst/extdata/", "inst/", "src/", "tests/testthat/", "R/deep/er/est/", "data/"}
	var es []tarEntry
	es = append(es, tarEntry{Name: pre + a.Root + "/DESCRIPTION", Type: "reg", Text: "Package: " + pkg + "\nVersion: 1.0\nTitle: x\n"})
	used := map[string]bool{"DESCRIPTION": true}
	withDirs := gen.Chance(t, 60)
	for i, n := 0, gen.R(t, 0, 8); i < n; i++ {
		d := dirs[gen.U(t, len(dirs))]
		f := gen.Pick(t, "a.R", "b.R", "DESCRIPTION", "x y.txt", "ünï.Rd", ".hidden", "a.r", "NEWS.md", "configure", "Makefile", "z..z", "...", "tool.sh") + ""
		if gen.Chance(t, 15) {
			f = strings.Repeat("long-", gen.R(t, 10, 40)) + ".txt"
		}
		if used[d+f] || d == "" && (f == "src" || f == "DESCRIPTION") {
			continue
		}
		used[d+f] = true
		e := tarEntry{Name: pre + a.Root + "/" + d + f, Type: "reg", Seed: uint32(gen.U(t, 1<<16)), Exec: gen.Chance(t, 25)}
		switch gen.U(t, 5) {
		case 0:
		case 1, 2:
			e.Size = gen.R(t, 1, 2000)
		case 3:
			e.Size = []int{511, 512, 513, 1024, 10240}[gen.U(t, 5)]
		case 4:
			e.Size = gen.R(t, 30000, 200000)
		}
		if gen.Chance(t, 10) {
			e.Mode = []int64{0400, 0600, 0444, 0640, 0700, 0555}[gen.U(t, 6)]
			e.Exec = e.Mode&0100 != 0
		}
		es = append(es, e)
		if withDirs && d != "" && !used["d"+d] {
			used["d"+d] = true
			de := tarEntry{Name: pre + a.Root + "/" + d, Type: "dir"}
			if gen.Chance(t, 10) {
				de.Mode = []int64{0700, 0555, 0500}[gen.U(t, 3)]
			}
			es = append(es, de)
		}
	}
	if gen.Chance(t, 50) {
		for i := range es {
			j := gen.R(t, i, len(es)-1)
			es[i], es[j] = es[j], es[i]
		}
	}
	if gen.Chance(t, 10) {
		es = append(es, tarEntry{Name: pre + "stray.txt", Type: "reg", Text: "stray\n"})
	}
	switch gen.U(t, 10) {
	case 6, 7, 8: // entries that must not be followed
		a.Hostile = true
		ups := strings.Repeat("../", gen.R(t, 1, 5))
		bad := [][]tarEntry{
			{{Name: ups + "evil.txt", Type: "reg", Text: "evil\n"}},
			{{Name: a.Root + "/" + strings.Repeat("../", gen.R(t, 2, 6)) + "evil.txt", Type: "reg", Text: "evil\n"}},
			{{Name: "%D/evil.txt", Type: "reg", Text: "evil\n"}},
			{{Name: "%D/victim.txt", Type: "reg", Text: "evil\n"}},
			{{Name: ups + "evildir/", Type: "dir"}},
			{{Name: ups + "evildir/evil.txt", Type: "reg", Text: "evil\n"}},
			{{Name: a.Root + "/lnk", Type: "sym", Link: "%D/outside"}, {Name: a.Root + "/lnk/evil.txt", Type: "reg", Text: "evil\n"}},
			{{Name: a.Root + "/lnk", Type: "sym", Link: "%D/victim.txt"}, {Name: a.Root + "/lnk", Type: "reg", Text: "evil\n"}},
			{{Name: a.Root + "/lnk", Type: "sym", Link: "../../../../.."}, {Name: a.Root + "/lnk/evil.txt", Type: "reg", Text: "evil\n"}},
			{{Name: a.Root + "/hard", Type: "hard", Link: "%D/victim.txt"}, {Name: a.Root + "/hard", Type: "reg", Text: "evil\n"}},
			{{Name: a.Root + "/R/link.R", Type: "sym", Link: "a.R"}},
			{{Name: a.Root + "/fifo", Type: "fifo"}},
			{{Name: a.Root + "/null", Type: "char"}},
			{{Name: a.Root, Type: "sym", Link: "%D/outside"}},
			{{Name: "..", Type: "dir"}, {Name: "../evil.txt", Type: "reg", Text: "evil\n"}},
		}[gen.U(t, 15)]
		at := 0
		if gen.Chance(t, 60) {
			at = gen.R(t, 0, len(es))
		}
		rest := append([]tarEntry{}, es[at:]...)
		es = append(append(es[:at:at], bad...), rest...)
	case 9: // cut off
		a.Cut = gen.R(t, 0, 999)
		if a.Cut > 500 {
			a.Cut = gen.R(t, 900, 999)
		}
		if a.Ext == ".tar" {
			// without compression nothing tells the end of the archive
			a.Ext = ".tar.gz"
		}
	}
	a.Entries = append(a.Entries, es...)
	return a
}

func init() {
	prop("C19", "a case is one or two local package archives of any supported compression and layout, some of them cut off or with entries that point elsewhere; non-trivial: an archive is damaged or hostile, or holds nested folders",
		500, 12000,
		func(t *rapid.T) *archiveCase {
			c := &archiveCase{Again: gen.Chance(t, 60)}
			for i, n := 0, gen.R(t, 1, 2); i < n; i++ {
				c.As = append(c.As, genArchive(t, []string{"tpkg", "other.pkg"}[i]))
			}
			return c
		}, runArchives)
}

func runArchives(env *w.Env, c *archiveCase) h.Result {
	wd := &w.World{R: "4.3.3", Repos: []w.Repo{{Name: "CRAN", Pkgs: []w.Pkg{{N: "aa", V: "1.0"}}}}, Lib: []w.Inst{{N: "kept", V: "1.0"}}}
	wd.Cfg.Pkgs = []string{"aa"}
	deep := "l1/l2/l3/l4/l5/l6/l7/cache"
	raw := "Tarballs:\n"
	for _, a := range c.As {
		raw += "  - tb/" + a.Pkg + "_1.0" + a.Ext + "\n"
	}
	wd.Cfg.Raw = raw
	wd.Cfg.NoCache = true
	b := wd.Build(env)
	defer b.Close()
	cache := filepath.Join(b.Dir, deep)
	wd.Cfg.Raw += "Cache: \"" + cache + "\"\n"
	b.WriteConfig()
	putDir(filepath.Join(b.Dir, "outside"))
	putFile(filepath.Join(b.Dir, "victim.txt"), "victim\n")
	file := func(a archive) string { return filepath.Join(b.Proj, "tb", a.Pkg+"_1.0"+a.Ext) }
	bad, nested := false, false
	for _, a := range c.As {
		putFile(file(a), string(a.bytes(b.Dir)))
		bad = bad || a.Hostile || a.Cut > 0
		for _, e := range a.Entries {
			nested = nested || strings.Count(e.Name, "/") > 1
		}
	}
	check := func(step string) string {
		before := w.Snap(b.Dir)
		libBefore := w.Snap(b.Lib)
		r := b.Run(w.RunOpt{}, "install")
		if r.Deadlock {
			return r.Brief()
		}
		after := w.Snap(b.Dir)
		if d := w.Diff(outsideOf(before, b, cache), outsideOf(after, b, cache)); d != "" {
			return step + ": files outside the cache and the library changed: " + d
		}
		lib := w.Snap(b.Lib)
		if r.Exit != 0 {
			if !bad {
				return sprintf("%s: installing sound archives failed: %s", step, r.Brief())
			}
			if d := w.Diff(libBefore, lib); d != "" {
				return sprintf("%s: a refused archive left the library changed: %s", step, d)
			}
			return ""
		}
		if step == "repaired" && bad {
			return "harness"
		}
		want := []string{"kept", "aa"}
		for _, a := range c.As {
			if a.Hostile {
				return sprintf("%s: an archive with entries that are not plain files inside of it was accepted: %s", step, r.Brief())
			}
			want = append(want, a.Pkg)
		}
		if got := lib.Tops(); !same(got, want) {
			return sprintf("%s: the library holds %v, expected %v: %s", step, got, want, r.Brief())
		}
		for _, a := range c.As {
			files := a.want()
			got := lib.Sub(a.Pkg)
			for n, e := range files {
				p := filepath.Join(b.Lib, a.Pkg, n)
				fi, err := os.Stat(p)
				if err != nil {
					return sprintf("%s: %s: file %s did not arrive", step, a.Pkg, n)
				}
				data := []byte(w.ReadFile(p))
				if n == "DESCRIPTION" {
					if !bytes.HasPrefix(data, bytes.TrimRight(body(e), "\n")) {
						return sprintf("%s: %s: DESCRIPTION is not the one of the archive: %q", step, a.Pkg, data)
					}
				} else if !bytes.Equal(data, body(e)) {
					return sprintf("%s: %s: file %s has other content than in the archive", step, a.Pkg, n)
				}
				if (fi.Mode()&0100 != 0) != e.Exec {
					return sprintf("%s: %s: file %s has mode %v, executable in the archive: %v", step, a.Pkg, n, fi.Mode(), e.Exec)
				}
			}
			for n, nd := range got {
				rel := strings.TrimPrefix(strings.TrimPrefix(n, a.Pkg), "/")
				if _, ok := files[rel]; !ok && !strings.HasPrefix(nd.Mode, "d") {
					return sprintf("%s: %s: file %s is not in the archive", step, a.Pkg, rel)
				}
			}
		}
		return ""
	}
	if m := check("first run"); m != "" {
		return viol("%s", m)
	}
	if bad && c.Again {
		// replaced by a sound archive of the same name
		for i := range c.As {
			a := &c.As[i]
			a.Hostile, a.Cut = false, 0
			a.Entries = []tarEntry{{Name: a.Root + "/DESCRIPTION", Type: "reg", Text: "Package: " + a.Pkg + "\nVersion: 1.1\n"}, {Name: a.Root + "/R/new.R", Type: "reg", Text: "new\n"}}
			putFile(file(*a), string(a.bytes(b.Dir)))
		}
		was := bad
		bad = false
		if m := check("second run"); m != "" {
			return viol("%s", m)
		}
		bad = was
	}
	return h.Result{Nontrivial: bad || nested}
}

// outsideOf is what is neither library, cache nor scratch space.
func outsideOf(t w.Tree, b *w.Box, cache string) w.Tree {
	out := w.Tree{}
	for k, n := range t {
		p := filepath.Join(b.Dir, k)
		skip := false
		for _, d := range []string{b.Lib, cache, b.XDG, b.Tmp, b.Ctl} {
			if p == d || strings.HasPrefix(p, d+"/") || strings.HasPrefix(d, p+"/") && strings.HasPrefix(n.Mode, "d") {
				skip = true
			}
		}
		if !skip {
			out[k] = n
		}
	}
	return out
}
