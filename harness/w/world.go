// Package w holds the generated worlds (repositories, configuration, library,
// faults), their materialisation on disk, the runner that drives the real pkgr
// binary in them, and the reference model the runs are judged against.
package w

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Pkg is one package version as published by a repository (or tarball).
type Pkg struct {
	N    string   `json:"n"`
	V    string   `json:"v"`
	Dep  []string `json:"dep,omitempty"` // raw dependency strings, without R
	Imp  []string `json:"imp,omitempty"`
	Lnk  []string `json:"lnk,omitempty"`
	Sug  []string `json:"sug,omitempty"`
	RC   string   `json:"rc,omitempty"`   // the R entry of Depends, e.g. "R (>= 4.0)"
	Path string   `json:"path,omitempty"` // Path field of the PACKAGES stanza
	Repo string   `json:"repo,omitempty"` // Repository field of the DESCRIPTION
	Salt string   `json:"salt,omitempty"` // distinguishes contents
	Fold bool     `json:"fold,omitempty"` // fold dependency fields over lines
	Note string   `json:"note,omitempty"` // Title text of the DESCRIPTION
	Big  int      `json:"big,omitempty"`  // bytes of extra incompressible data, in front if negative
	More string   `json:"more,omitempty"` // further fields of the DESCRIPTION
	// how the dependency fields of the DESCRIPTION are written: 1 comma first,
	// 2 trailing comma, 3 no blanks, 4 tabs, 5 one per line, 6 CRLF
	Style int `json:"style,omitempty"`
}

// Repo is one CRAN-like repository.
type Repo struct {
	Name     string `json:"name"`
	HTTP     bool   `json:"http,omitempty"`
	TLS      string `json:"tls,omitempty"`  // with HTTP: over TLS with this certificate
	Pkgs     []Pkg  `json:"pkgs"`           // source packages
	Bins     []Pkg  `json:"bins,omitempty"` // binary packages for this platform
	HasBin   bool   `json:"hasbin,omitempty"`
	RepoType string `json:"repotype,omitempty"`
	Type     string `json:"type,omitempty"`
	CRLF     bool   `json:"crlf,omitempty"`
	Slash    bool   `json:"slash,omitempty"`  // trailing slash in the URL
	Suffix   string `json:"suffix,omitempty"` // RepoSuffix of the binaries
	Slow     int    `json:"slow,omitempty"`   // ms before an index is served
	Of       string `json:"of,omitempty"`     // has the URL of that repository
	Dir      string `json:"dir,omitempty"`    // the folder it is in, if not its name
}

// Inst is a package installed in the library beforehand.
type Inst struct {
	N      string   `json:"n"`
	V      string   `json:"v"`
	Imp    []string `json:"imp,omitempty"`
	Pkgr   bool     `json:"pkgr,omitempty"`
	Repo   string   `json:"repo,omitempty"`
	NoDesc bool     `json:"nodesc,omitempty"`
	As     string   `json:"as,omitempty"` // name of the folder, if different
}

// PkgCust is one Customizations: Packages entry.
type PkgCust struct {
	N        string            `json:"n"`
	Suggests *bool             `json:"suggests,omitempty"`
	Repo     string            `json:"repo,omitempty"`
	Type     string            `json:"type,omitempty"`
	Env      map[string]string `json:"env,omitempty"`
}

// Cfg is the configuration file.
type Cfg struct {
	Pkgs       []string          `json:"pkgs"`
	Ignore     []string          `json:"ignore,omitempty"`
	Suggests   bool              `json:"suggests,omitempty"`
	NoRec      bool              `json:"norec,omitempty"`
	NoUpdate   bool              `json:"noupdate,omitempty"`
	NoRollback bool              `json:"norollback,omitempty"`
	Strict     bool              `json:"strict,omitempty"`
	NoSecure   bool              `json:"nosecure,omitempty"`
	Threads    int               `json:"threads,omitempty"`
	Cust       []PkgCust         `json:"cust,omitempty"`
	Lib        string            `json:"lib,omitempty"`      // Library value, default "lib"
	Cache      string            `json:"cache,omitempty"`    // Cache value, "" = absolute default of the world
	NoCache    bool              `json:"nocache,omitempty"`  // do not set Cache
	LogAll     string            `json:"logall,omitempty"`   // Logging.all
	LogInst    string            `json:"loginst,omitempty"`  // Logging.install
	LogOver    bool              `json:"logover,omitempty"`  // Logging.overwrite
	Raw        string            `json:"raw,omitempty"`      // appended verbatim
	RPath      string            `json:"rpath,omitempty"`    // RPath value, default <case>/bin/R
	NoRPath    bool              `json:"norpath,omitempty"`  // leave RPath out
	Lockfile   string            `json:"lockfile,omitempty"` // Lockfile type; leaves Library out
	Extra      map[string]string `json:"extra,omitempty"`
}

// Fault mirrors fakeR's Fault.
type Fault struct {
	Stage string `json:"stage"`
	Mode  string `json:"mode"`
	Nth   int    `json:"nth,omitempty"`
	Code  int    `json:"code,omitempty"`
}

// World is a complete generated starting point.
type World struct {
	R          string             `json:"r"`
	Repos      []Repo             `json:"repos"`
	Cfg        Cfg                `json:"cfg"`
	Lib        []Inst             `json:"lib,omitempty"`
	NoLib      bool               `json:"nolib,omitempty"` // library directory does not exist
	StrayFiles []string           `json:"strayfiles,omitempty"`
	Copies     []Inst             `json:"copies,omitempty"` // under other names
	StrayDirs  []string           `json:"straydirs,omitempty"`
	Tarballs   []Pkg              `json:"tarballs,omitempty"`
	Descs      []Pkg              `json:"descs,omitempty"`
	Site       []string           `json:"site,omitempty"` // packages present in the R installation's library
	Delays     map[string]int     `json:"delays,omitempty"`
	Faults     map[string][]Fault `json:"faults,omitempty"`
	LoadFail   map[string]int     `json:"loadfail,omitempty"`
	LoadOut    map[string]string  `json:"loadout,omitempty"` // what packages print when loaded
	LoadErr    map[string]string  `json:"loaderr,omitempty"`
	Procs      int                `json:"procs,omitempty"` // GOMAXPROCS of pkgr
	Ctl        map[string]int     `json:"ctl,omitempty"`   // further settings of fakeR
	RenvLib    string             `json:"renvlib,omitempty"`
	CtlS       map[string]string  `json:"ctls,omitempty"`   // and those that are texts
	LogEnv     bool               `json:"logenv,omitempty"` // record all of R's environment
}

const Platform = "x86_64-pc-linux-gnu"

// BinDir is the binary contrib path pkgr derives on this machine.
func BinDir(r, suffix string) string {
	id, code := osRelease()
	p := strings.Split(r, ".")
	return filepath.Join("bin", "linux", id, code, suffix, "contrib", p[0]+"."+p[1])
}

func osRelease() (id, code string) {
	b, _ := os.ReadFile("/etc/os-release")
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(l, '='); i > 0 {
			m[l[:i]] = strings.Trim(l[i+1:], `"`)
		}
	}
	return m["ID"], m["VERSION_CODENAME"]
}

func foldDeps(field string, ds []string, fold bool) string {
	if len(ds) == 0 {
		return ""
	}
	sep := ", "
	if fold {
		sep = ",\n        "
	}
	return field + ": " + strings.Join(ds, sep) + "\n"
}

func (p Pkg) allDepends() []string {
	var d []string
	if p.RC != "" {
		d = append(d, p.RC)
	}
	return append(d, p.Dep...)
}

// Stanza is the PACKAGES entry.
func (p Pkg) Stanza() string {
	s := "Package: " + p.N + "\nVersion: " + p.V + "\n"
	s += foldDeps("Depends", p.allDepends(), p.Fold)
	s += foldDeps("Imports", p.Imp, p.Fold)
	s += foldDeps("LinkingTo", p.Lnk, p.Fold)
	s += foldDeps("Suggests", p.Sug, p.Fold)
	s += "License: GPL-3\nNeedsCompilation: no\n"
	if p.Path != "" {
		s += "Path: " + p.Path + "\n"
	}
	return s
}

// Description is the DESCRIPTION file content.
func (p Pkg) Description(repo string, binary bool, r string) string {
	s := "Package: " + p.N + "\nType: Package\nTitle: " + p.N + " " + p.Note + "\nVersion: " + p.V + "\n"
	s += p.depField("Depends", p.allDepends())
	s += p.depField("Imports", p.Imp)
	s += p.depField("LinkingTo", p.Lnk)
	s += p.depField("Suggests", p.Sug)
	s += "License: GPL-3\nNeedsCompilation: no\nDescription: generated package\n    with a folded description.\n"
	if repo != "" {
		s += "Repository: " + repo + "\n"
	}
	s += p.More
	if binary {
		s += "Built: R " + r + "; ; 2099-01-01 00:00:00 UTC; unix\n"
	}
	if p.Style == 6 {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func (p Pkg) depField(field string, ds []string) string {
	if len(ds) == 0 {
		return ""
	}
	switch p.Style {
	case 1:
		return field + ":\n    " + strings.Join(ds, "\n  , ") + "\n"
	case 2:
		return field + ": " + strings.Join(ds, ",  ") + ",\n"
	case 3:
		return field + ":" + strings.Join(ds, ",") + "\n"
	case 4:
		return field + ":\t" + strings.Join(ds, ",\n\t\t") + "\t\n"
	case 5:
		return field + ":\n    " + strings.Join(ds, ",\n    ") + ",\n"
	}
	return foldDeps(field, ds, p.Fold)
}

// Payload is the content that identifies a package build.
func Payload(origin string, binary bool, p Pkg) string {
	k := "src"
	if binary {
		k = "bin"
	}
	return fmt.Sprintf("payload %s %s %s %s %s\n", origin, k, p.N, p.V, p.Salt)
}

// Files are the files of the package (relative to its root).
func (p Pkg) Files(origin string, binary bool, r string) map[string]string {
	f := map[string]string{
		"DESCRIPTION":     p.Description(p.Repo, binary, r),
		"NAMESPACE":       "exportPattern(\".\")\n",
		"R/payload.R":     Payload(origin, binary, p),
		"inst/extra/a.md": "docs of " + p.N + "\n",
		"man/x.Rd":        "%% " + p.V + "\n",
	}
	if p.Big != 0 {
		var sb strings.Builder
		x := uint32(2463534242)
		name, n := "data/big.txt", p.Big
		if n < 0 { // before all other files
			name, n = "AAA/big.txt", -n
		}
		for sb.Len() < n {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			fmt.Fprintf(&sb, "%08x", x)
		}
		f[name] = sb.String()
	}
	return f
}

// TarGz packs files under root/.
func TarGz(root string, files map[string]string) []byte {
	var buf bytes.Buffer
	gz, _ := gzip.NewWriterLevel(&buf, gzip.BestSpeed)
	tw := tar.NewWriter(gz)
	mt := time.Unix(1600000000, 0)
	dirs := map[string]bool{}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	_ = tw.WriteHeader(&tar.Header{Name: root + "/", Typeflag: tar.TypeDir, Mode: 0755, ModTime: mt})
	for _, n := range names {
		for i, c := range n {
			if c == '/' && !dirs[n[:i]] {
				dirs[n[:i]] = true
				_ = tw.WriteHeader(&tar.Header{Name: root + "/" + n[:i] + "/", Typeflag: tar.TypeDir, Mode: 0755, ModTime: mt})
			}
		}
		_ = tw.WriteHeader(&tar.Header{Name: root + "/" + n, Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(files[n])), ModTime: mt})
		_, _ = tw.Write([]byte(files[n]))
	}
	_ = tw.Close()
	_ = gz.Close()
	return buf.Bytes()
}

// SrcName and BinName are the file names within a repository.
func (p Pkg) SrcName() string { return p.N + "_" + p.V + ".tar.gz" }
func (p Pkg) BinName() string { return p.N + "_" + p.V + "_R_" + Platform + ".tar.gz" }

// PackagesFile renders the index.
func PackagesFile(ps []Pkg, crlf bool) []byte {
	var parts []string
	for _, p := range ps {
		parts = append(parts, p.Stanza())
	}
	s := strings.Join(parts, "\n")
	if crlf {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}

func must(err error) {
	if err != nil {
		panic(HarnessError{err.Error()})
	}
}

// HarnessError marks trouble with the check itself, never a violation.
type HarnessError struct{ Msg string }

func (h HarnessError) Error() string { return "harness error: " + h.Msg }

func write(p string, b []byte) {
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, b, 0644))
}

// Origin is the name under which the contents are published.
func (r Repo) Origin() string {
	if r.Of != "" {
		return r.Of
	}
	return r.Name
}

// WriteRepo lays a repository out under dir.
func (r Repo) Write(dir, rver string) {
	write(filepath.Join(dir, "src", "contrib", "PACKAGES"), PackagesFile(r.Pkgs, r.CRLF))
	for _, p := range r.Pkgs {
		sub := ""
		if p.Path != "" {
			sub = p.Path
		}
		write(filepath.Join(dir, "src", "contrib", sub, p.SrcName()), TarGz(p.N, p.Files(r.Origin(), false, rver)))
	}
	if r.HasBin {
		bd := filepath.Join(dir, BinDir(rver, r.Suffix))
		write(filepath.Join(bd, "PACKAGES"), PackagesFile(r.Bins, r.CRLF))
		for _, p := range r.Bins {
			sub := ""
			if p.Path != "" {
				sub = p.Path
			}
			write(filepath.Join(bd, sub, p.BinName()), TarGz(p.N, p.Files(r.Origin(), true, rver)))
		}
	}
}

// WriteIndex writes the indices only.
func (r Repo) WriteIndex(dir, rver string) {
	write(filepath.Join(dir, "src", "contrib", "PACKAGES"), PackagesFile(r.Pkgs, r.CRLF))
	if r.HasBin {
		write(filepath.Join(dir, BinDir(rver, r.Suffix), "PACKAGES"), PackagesFile(r.Bins, r.CRLF))
	}
}

func yq(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// Box is a materialised world.
type Box struct {
	W    *World
	Env  *Env
	Dir  string // <case>
	Proj string // directory of pkgr.yml
	Lib  string // absolute library
	CacheDir,
	XDG, Home, Tmp, Ctl string
	Servers  map[string]*Server // by repo name
	URLs     map[string]string  // by repo name
	evOffset int64
}

// Env tells where the binaries are.
type Env struct {
	Pkgr    string // pkgr binary
	FakeR   string // fakeR binary
	CrashAt string // crashat binary
	Scratch string // scratch directory of this shard
	n       int
}

// NewDir makes a fresh case directory.
func (e *Env) NewDir() string {
	e.n++
	d := filepath.Join(e.Scratch, fmt.Sprintf("c%d", e.n))
	must(os.MkdirAll(d, 0755))
	return d
}

// Build materialises the world.
func (w *World) Build(e *Env) *Box {
	d := e.NewDir()
	b := &Box{W: w, Env: e, Dir: d, Proj: filepath.Join(d, "proj"), CacheDir: filepath.Join(d, "cache"), XDG: filepath.Join(d, "xdg"),
		Home: filepath.Join(d, "home"), Tmp: filepath.Join(d, "tmp"), Ctl: filepath.Join(d, "ctl"),
		Servers: map[string]*Server{}, URLs: map[string]string{}}
	for _, p := range []string{b.Proj, b.XDG, b.Home, b.Tmp, b.Ctl, filepath.Join(d, "bin"), filepath.Join(d, "site")} {
		must(os.MkdirAll(p, 0755))
	}
	must(os.Symlink(e.FakeR, filepath.Join(d, "bin", "R")))
	must(os.Symlink(e.FakeR, filepath.Join(d, "bin", "Rscript")))
	lib := w.Cfg.Lib
	if lib == "" {
		lib = "lib"
	}
	if filepath.IsAbs(lib) {
		b.Lib = lib
	} else {
		b.Lib = filepath.Join(b.Proj, lib)
	}
	for _, r := range w.Repos {
		b.WriteRepo(r)
	}
	for _, s := range w.Site {
		write(filepath.Join(d, "site", s, "DESCRIPTION"), []byte("Package: "+s+"\nVersion: 1.0\nPriority: recommended\n"))
	}
	b.PutLib()
	for _, t := range w.Tarballs {
		write(filepath.Join(b.Proj, "tb", t.SrcName()), TarGz(t.N, t.Files("tarball", false, w.R)))
	}
	for i, t := range w.Descs {
		write(filepath.Join(b.Proj, "descs", fmt.Sprintf("d%d", i), "DESCRIPTION"), []byte(t.Description("", false, w.R)))
	}
	b.WriteCtl()
	b.WriteConfig()
	return b
}

// PutLib fills the library with what it contains at first.
func (b *Box) PutLib() {
	if !b.W.NoLib {
		must(os.MkdirAll(b.Lib, 0755))
		for _, in := range b.W.Lib {
			b.PutInst(in)
		}
		for _, f := range b.W.StrayFiles {
			write(filepath.Join(b.Lib, f), []byte("stray "+f+"\n"))
		}
		for _, in := range b.W.Copies {
			for n, c := range in.Files() {
				write(filepath.Join(b.Lib, in.As, n), []byte(c))
			}
		}
		for _, f := range b.W.StrayDirs {
			write(filepath.Join(b.Lib, f, "notes.txt"), []byte("stray dir "+f+"\n"))
		}
	}
}

// WriteRepo (re)writes one repository and its server.
func (b *Box) WriteRepo(r Repo) {
	rd := filepath.Join(b.Dir, "repos", r.Origin())
	if r.Dir != "" {
		rd = filepath.Join(b.Dir, "repos", r.Dir)
	}
	r.Write(rd, b.W.R)
	if r.Of != "" {
		b.URLs[r.Name] = b.URLs[r.Of]
		return
	}
	if r.HTTP {
		if b.Servers[r.Name] == nil {
			if r.TLS != "" {
				b.Servers[r.Name] = NewTLSServer(rd, r.TLS)
			} else {
				b.Servers[r.Name] = NewServer(rd)
			}
		}
		b.Servers[r.Name].Slow = r.Slow
		b.URLs[r.Name] = b.Servers[r.Name].URL()
	} else {
		b.URLs[r.Name] = rd
	}
	if r.Slash {
		b.URLs[r.Name] += "/"
	}
}

// InstFiles are the files of a preinstalled package.
func (in Inst) Files() map[string]string {
	f := map[string]string{
		"R/payload.R": "preinstalled " + in.N + " " + in.V + "\n",
		"Meta/x.rds":  "meta " + in.N + "\n",
	}
	if !in.NoDesc {
		s := "Package: " + in.N + "\nVersion: " + in.V + "\n"
		if len(in.Imp) > 0 {
			s += "Imports: " + strings.Join(in.Imp, ", ") + "\n"
		}
		if in.Repo != "" {
			s += "Repository: " + in.Repo + "\n"
		}
		s += "Built: R 4.0.0; ; 2098-01-01 00:00:00 UTC; unix\n"
		if in.Pkgr {
			s += "PkgrVersion: 3.0.0\nPkgrInstallType: source\nPkgrRepositoryURL: https://old.example\n"
		}
		f["DESCRIPTION"] = s
	}
	return f
}

// PutInst writes a preinstalled package into the library.
func (b *Box) PutInst(in Inst) {
	for n, c := range in.Files() {
		write(filepath.Join(b.Lib, in.N, n), []byte(c))
	}
}

// WriteCtl writes fakeR's control file.
func (b *Box) WriteCtl() {
	c := map[string]interface{}{"rversion": b.W.R, "platform": Platform, "sitelibs": []string{filepath.Join(b.Dir, "site")},
		"delays": b.W.Delays, "faults": b.W.Faults, "loadfail": b.W.LoadFail, "loadout": b.W.LoadOut, "loaderr": b.W.LoadErr}
	if b.CacheDir != "" {
		c["cache"] = b.CacheDir
	}
	if b.W.RenvLib != "" {
		c["renvlib"] = b.W.RenvLib
	}
	if b.W.LogEnv {
		c["logenv"] = true
	}
	for k, v := range b.ctlExtra() {
		c[k] = v
	}
	for k, v := range b.W.Ctl {
		c[k] = v
	}
	for k, v := range b.W.CtlS {
		c[k] = v
	}
	j, err := json.Marshal(c)
	must(err)
	tmp := filepath.Join(b.Ctl, "ctl.json.tmp")
	write(tmp, j)
	must(os.Rename(tmp, filepath.Join(b.Ctl, "ctl.json")))
}

func (b *Box) ctlExtra() map[string]interface{} { return CtlExtra }

// CtlExtra is merged into every control file (set by a property, constant
// during a shard).
var CtlExtra = map[string]interface{}{}

// ConfigText renders pkgr.yml.
func (b *Box) ConfigText() string {
	w, c := b.W, b.W.Cfg
	var s strings.Builder
	s.WriteString("Version: 1\n")
	list := func(k string, xs []string) {
		if len(xs) == 0 {
			return
		}
		s.WriteString(k + ":\n")
		for _, x := range xs {
			s.WriteString("  - " + x + "\n")
		}
	}
	list("Packages", c.Pkgs)
	s.WriteString("Repos:\n")
	for _, r := range w.Repos {
		s.WriteString("  - " + r.Name + ": " + yq(b.URLs[r.Name]) + "\n")
	}
	if c.Lockfile != "" {
		s.WriteString("Lockfile:\n  Type: " + c.Lockfile + "\n")
	} else {
		lib := c.Lib
		if lib == "" {
			lib = "lib"
		}
		s.WriteString("Library: " + yq(lib) + "\n")
	}
	if !c.NoCache {
		cd := c.Cache
		if cd == "" {
			cd = b.CacheDir
		}
		s.WriteString("Cache: " + yq(cd) + "\n")
	}
	if !c.NoRPath {
		rp := c.RPath
		if rp == "" {
			rp = filepath.Join(b.Dir, "bin", "R")
		}
		s.WriteString("RPath: " + yq(rp) + "\n")
	}
	list("IgnorePackages", c.Ignore)
	if len(w.Tarballs) > 0 {
		var t []string
		for _, p := range w.Tarballs {
			t = append(t, "tb/"+p.SrcName())
		}
		list("Tarballs", t)
	}
	if len(w.Descs) > 0 {
		var t []string
		for i := range w.Descs {
			t = append(t, fmt.Sprintf("descs/d%d/DESCRIPTION", i))
		}
		list("Descriptions", t)
	}
	flag := func(k string, v bool) {
		if v {
			s.WriteString(k + ": true\n")
		}
	}
	flag("Suggests", c.Suggests)
	flag("NoRecommended", c.NoRec)
	flag("NoUpdate", c.NoUpdate)
	flag("NoRollback", c.NoRollback)
	flag("Strict", c.Strict)
	flag("NoSecure", c.NoSecure)
	if c.Threads != 0 {
		fmt.Fprintf(&s, "Threads: %d\n", c.Threads)
	}
	if c.LogAll != "" || c.LogInst != "" {
		s.WriteString("Logging:\n")
		if c.LogAll != "" {
			s.WriteString("  all: " + yq(c.LogAll) + "\n")
		}
		if c.LogInst != "" {
			s.WriteString("  install: " + yq(c.LogInst) + "\n")
		}
		if c.LogOver {
			s.WriteString("  overwrite: true\n")
		}
	}
	var rc []string
	for _, r := range w.Repos {
		if r.RepoType != "" || r.Type != "" || r.Suffix != "" {
			l := "    - " + r.Name + ":\n"
			if r.RepoType != "" {
				l += "        RepoType: " + r.RepoType + "\n"
			}
			if r.Type != "" {
				l += "        Type: " + r.Type + "\n"
			}
			if r.Suffix != "" {
				l += "        RepoSuffix: " + r.Suffix + "\n"
			}
			rc = append(rc, l)
		}
	}
	if len(rc)+len(c.Cust) > 0 {
		s.WriteString("Customizations:\n")
		if len(c.Cust) > 0 {
			s.WriteString("  Packages:\n")
			for _, pc := range c.Cust {
				s.WriteString("    - " + pc.N + ":\n")
				if pc.Suggests != nil {
					fmt.Fprintf(&s, "        Suggests: %v\n", *pc.Suggests)
				}
				if pc.Repo != "" {
					s.WriteString("        Repo: " + pc.Repo + "\n")
				}
				if pc.Type != "" {
					s.WriteString("        Type: " + pc.Type + "\n")
				}
				if len(pc.Env) > 0 {
					s.WriteString("        Env:\n")
					var ks []string
					for k := range pc.Env {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						s.WriteString("          " + k + ": " + yq(pc.Env[k]) + "\n")
					}
				}
			}
		}
		if len(rc) > 0 {
			s.WriteString("  Repos:\n" + strings.Join(rc, ""))
		}
	}
	s.WriteString(c.Raw)
	return s.String()
}

// WriteConfig writes pkgr.yml.
func (b *Box) WriteConfig() {
	write(filepath.Join(b.Proj, "pkgr.yml"), []byte(b.ConfigText()))
}

// Close stops servers and removes the case directory.
func (b *Box) Close() {
	for _, s := range b.Servers {
		s.Close()
	}
	if os.Getenv("VERIF_KEEP") == "" {
		_ = os.RemoveAll(b.Dir)
	}
}
