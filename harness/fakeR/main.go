// fakeR is a stand-in for the R executable. It is linked into each generated
// scenario as <case>/bin/R (and Rscript) and models the R command lines pkgr
// uses: --version, CMD INSTALL (source and binary packages, --build,
// --library), -e library('x') and friends, and the interactive session.
// Every invocation appends JSON events to <case>/ctl/events.jsonl; behaviour
// (delays, injected failures, killing the calling pkgr) comes from
// <case>/ctl/ctl.json. It never touches anything outside the paths it is given.
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Fault describes what happens to one package at one stage.
type Fault struct {
	Stage string `json:"stage"`          // "build", "final", "tarball", "any"
	Mode  string `json:"mode"`           // exit, partial, nobinary, kill-before, kill-after, kill-mid, evict
	Nth   int    `json:"nth,omitempty"`  // 0 = every time, n = only the n-th matching call
	Code  int    `json:"code,omitempty"` // exit status for exit/partial (default 1)
}

// Ctl is the control file.
type Ctl struct {
	RVersion string             `json:"rversion"`
	Platform string             `json:"platform"`
	SiteLibs []string           `json:"sitelibs"` // default .Library(.site) directories
	Delays   map[string]int     `json:"delays"`   // ms, per package, for build and final
	Faults   map[string][]Fault `json:"faults"`
	NoDeps   bool               `json:"nodeps"` // do not check dependencies
	Cache    string             `json:"cache"`  // the package cache
	RenvLib  string             `json:"renvlib"`
	RenvMode string             `json:"renvmode"` // "", "fail", "noise"
	LoadFail map[string]int     `json:"loadfail"` // package -> exit code
	LoadOut  map[string]string  `json:"loadout"`  // what a package prints when it is loaded
	LoadErr  map[string]string  `json:"loaderr"`
	LogEnv   bool               `json:"logenv"`
	Width    int                `json:"width"` // columns of output, normally 80
	Quote    bool               `json:"quote"`
	Barrier  int                `json:"barrier"` // hold every install until that many ran at once
}

// Event is one line of the event log.
type Event struct {
	Ev      string            `json:"ev"` // start, end, version, expr, session, rscript
	Pid     int               `json:"pid"`
	PPid    int               `json:"ppid"`
	Pkg     string            `json:"pkg,omitempty"`
	Version string            `json:"version,omitempty"`
	Payload string            `json:"payload,omitempty"`
	Stage   string            `json:"stage,omitempty"` // build (source), final (binary), tarball (source dir)
	Lib     string            `json:"lib,omitempty"`
	Src     string            `json:"src,omitempty"`
	Args    []string          `json:"args,omitempty"`
	Env     map[string]string `json:"env,omitempty"`
	Cwd     string            `json:"cwd,omitempty"`
	Code    int               `json:"code"`
	Msg     string            `json:"msg,omitempty"`
	Missing []string          `json:"missing,omitempty"`
	Expr    string            `json:"expr,omitempty"`
	LibDir  map[string]string `json:"libdir,omitempty"`
}

var (
	base   string // <case>
	ctl    Ctl
	logFh  *os.File
	script bool
)

func emit(e Event) {
	e.Pid = os.Getpid()
	e.PPid = os.Getppid()
	b, _ := json.Marshal(e)
	b = append(b, '\n')
	if logFh != nil {
		_, _ = logFh.Write(b)
	}
}

func die(code int, format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

func self() string {
	p := os.Args[0]
	if !strings.Contains(p, "/") {
		if q, err := exec.LookPath(p); err == nil {
			p = q
		}
	}
	a, _ := filepath.Abs(p)
	return a
}

func main() {
	s := self()
	script = strings.HasSuffix(s, "script")
	base = filepath.Dir(filepath.Dir(s))
	cd := filepath.Join(base, "ctl")
	b, err := os.ReadFile(filepath.Join(cd, "ctl.json"))
	if err != nil {
		die(97, "fakeR: no control file: %v", err)
	}
	if err := json.Unmarshal(b, &ctl); err != nil {
		die(97, "fakeR: bad control file: %v", err)
	}
	logFh, _ = os.OpenFile(filepath.Join(cd, "events.jsonl"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	args := os.Args[1:]
	cwd, _ := os.Getwd()
	if len(args) == 1 && args[0] == "--version" {
		emit(Event{Ev: "version", Cwd: cwd, Env: envMap()})
		fmt.Printf("R version %s (2099-01-01) -- \"Fake\"\nCopyright (C) 2099\nPlatform: %s (64-bit)\n\nR is free software.\n", ctl.RVersion, ctl.Platform)
		return
	}
	for i := 0; i+1 < len(args); i++ {
		if args[i] == "CMD" && args[i+1] == "INSTALL" {
			install(args, args[i+2:], cwd)
			return
		}
	}
	for i := 0; i+1 < len(args); i++ {
		if args[i] == "-e" {
			expr(args, args[i+1], cwd)
			return
		}
	}
	emit(Event{Ev: "session", Args: args, Cwd: cwd, Env: envMap()})
}

func envMap() map[string]string {
	m := map[string]string{}
	for _, kv := range os.Environ() {
		if i := strings.IndexByte(kv, '='); i > 0 {
			k := kv[:i]
			if ctl.LogEnv || strings.HasPrefix(k, "R_") || k == "PATH" {
				// getenv() returns the first definition in the block
				if _, dup := m[k]; !dup {
					m[k] = kv[i+1:]
				}
			}
		}
	}
	return m
}

// libPaths models .libPaths(): R_LIBS, R_LIBS_USER, R_LIBS_SITE (existing
// directories only), then the library of the R installation.
func libPaths(first string) []string {
	var out []string
	add := func(p string) {
		if p == "" {
			return
		}
		if fi, err := os.Stat(p); err != nil || !fi.IsDir() {
			return
		}
		if a, err := filepath.Abs(p); err == nil {
			p = a
		}
		for _, o := range out {
			if o == p {
				return
			}
		}
		out = append(out, p)
	}
	add(first)
	for _, v := range []string{"R_LIBS", "R_LIBS_USER", "R_LIBS_SITE"} {
		for _, p := range strings.Split(os.Getenv(v), ":") {
			add(p)
		}
	}
	for _, p := range ctl.SiteLibs {
		add(p)
	}
	return out
}

func findPkg(pkg string, libs []string) string {
	for _, l := range libs {
		if _, err := os.Stat(filepath.Join(l, pkg, "DESCRIPTION")); err == nil {
			return filepath.Join(l, pkg)
		}
	}
	return ""
}

type entry struct {
	name string
	mode int64
	data []byte
	dir  bool
}

func readTar(p string) ([]entry, error) {
	f, err := os.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	gz, err := gzip.NewReader(f)
	if err != nil {
		return nil, err
	}
	tr := tar.NewReader(gz)
	var out []entry
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch h.Typeflag {
		case tar.TypeDir:
			out = append(out, entry{name: strings.TrimSuffix(h.Name, "/"), mode: h.Mode, dir: true})
		case tar.TypeReg:
			b, err := io.ReadAll(tr)
			if err != nil {
				return nil, err
			}
			out = append(out, entry{name: h.Name, mode: h.Mode, data: b})
		}
	}
	// consume the trailer so that a damaged checksum is noticed
	if _, err := io.Copy(io.Discard, gz); err != nil {
		return nil, err
	}
	return out, nil
}

func readDir(p string) ([]entry, error) {
	var out []entry
	root := filepath.Base(p)
	err := filepath.Walk(p, func(q string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(p, q)
		n := filepath.Join(root, rel)
		if fi.IsDir() {
			out = append(out, entry{name: n, mode: int64(fi.Mode().Perm()), dir: true})
			return nil
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(q)
		if err != nil {
			return err
		}
		out = append(out, entry{name: n, mode: int64(fi.Mode().Perm()), data: b})
		return nil
	})
	return out, err
}

// dcf parses the first stanza of a DESCRIPTION file.
func dcf(b []byte) map[string]string {
	m := map[string]string{}
	var cur string
	for _, l := range strings.Split(strings.ReplaceAll(string(b), "\r\n", "\n"), "\n") {
		if l == "" {
			if len(m) > 0 {
				break
			}
			continue
		}
		if l[0] == ' ' || l[0] == '\t' {
			if cur != "" {
				m[cur] += "\n" + l
			}
			continue
		}
		if i := strings.IndexByte(l, ':'); i > 0 {
			cur = l[:i]
			m[cur] = strings.TrimSpace(l[i+1:])
		}
	}
	return m
}

var basePkgs = map[string]bool{"R": true, "base": true, "compiler": true, "datasets": true, "graphics": true, "grDevices": true, "grid": true, "methods": true, "parallel": true, "splines": true, "stats": true, "stats4": true, "tcltk": true, "tools": true, "utils": true}

func depNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if i := strings.IndexByte(p, '('); i >= 0 {
			p = p[:i]
		}
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func nthCall(pkg, stage string) int {
	// count matching start events already in the log (including ours)
	b, _ := os.ReadFile(filepath.Join(base, "ctl", "events.jsonl"))
	n := 0
	for _, l := range bytes.Split(b, []byte("\n")) {
		var e Event
		if json.Unmarshal(l, &e) == nil && e.Ev == "start" && e.Pkg == pkg && (stage == "any" || e.Stage == stage) {
			n++
		}
	}
	return n
}

func install(all, args []string, cwd string) {
	var lib, src string
	build := false
	for _, a := range args {
		switch {
		case strings.HasPrefix(a, "--library="):
			lib = strings.TrimPrefix(a, "--library=")
		case a == "--build":
			build = true
		case strings.HasPrefix(a, "-"):
		default:
			src = a
		}
	}
	ev := Event{Ev: "start", Args: all, Cwd: cwd, Lib: lib, Src: src, Env: envMap()}
	fi, err := os.Stat(src)
	var ents []entry
	if err == nil {
		if fi.IsDir() {
			ents, err = readDir(src)
		} else {
			ents, err = readTar(src)
		}
	}
	if err != nil || lib == "" {
		ev.Msg = fmt.Sprint("unreadable package: ", err)
		ev.Code = 1
		emit(ev)
		ev.Ev = "end"
		emit(ev)
		die(1, "ERROR: cannot extract package from '%s': %v", src, err)
	}
	if lfi, lerr := os.Stat(lib); lerr != nil || !lfi.IsDir() {
		ev.Msg = "no library"
		ev.Code = 1
		emit(ev)
		ev.Ev = "end"
		emit(ev)
		die(1, "ERROR: cannot cd to directory '%s'", lib)
	}
	var root string
	var descB []byte
	for _, e := range ents {
		parts := strings.SplitN(e.name, "/", 2)
		if !e.dir && len(parts) == 2 && parts[1] == "DESCRIPTION" {
			root, descB = parts[0], e.data
			break
		}
	}
	d := dcf(descB)
	pkg, ver := d["Package"], d["Version"]
	if root == "" || pkg == "" || ver == "" {
		ev.Msg = "no DESCRIPTION"
		ev.Code = 1
		emit(ev)
		ev.Ev = "end"
		emit(ev)
		die(1, "ERROR: no valid DESCRIPTION in '%s'", src)
	}
	stage := "build"
	binary := d["Built"] != ""
	if binary {
		stage = "final"
	} else if fi.IsDir() {
		stage = "tarball"
	}
	ev.Pkg, ev.Version, ev.Stage = pkg, ver, stage
	for _, e := range ents {
		if e.name == root+"/R/payload.R" {
			ev.Payload = string(e.data)
		}
	}
	libs := libPaths(lib)
	if !binary && !ctl.NoDeps {
		seen := map[string]bool{}
		for _, f := range []string{"Depends", "Imports", "LinkingTo"} {
			for _, n := range depNames(d[f]) {
				if basePkgs[n] || seen[n] {
					continue
				}
				seen[n] = true
				if findPkg(n, libs) == "" {
					ev.Missing = append(ev.Missing, n)
				}
			}
		}
		sort.Strings(ev.Missing)
	}
	emit(ev)
	end := func(code int, msg string) {
		ev.Ev, ev.Code, ev.Msg = "end", code, msg
		ev.Env, ev.Args = nil, nil
		emit(ev)
		if code >= 512 {
			// R dies of a signal
			_ = syscall.Kill(os.Getpid(), syscall.Signal(code-512))
			time.Sleep(time.Second)
		}
		if code != 0 {
			die(code, "ERROR: %s", msg)
		}
	}
	var fault *Fault
	for i := range ctl.Faults[pkg] {
		f := ctl.Faults[pkg][i]
		if f.Stage == stage || f.Stage == "any" {
			if f.Nth == 0 || nthCall(pkg, f.Stage) == f.Nth {
				fault = &ctl.Faults[pkg][i]
			}
		}
	}
	kill := func() {
		_ = syscall.Kill(os.Getppid(), syscall.SIGKILL)
		ev.Ev, ev.Code, ev.Msg = "killed", 0, "killed the calling process"
		ev.Env, ev.Args = nil, nil
		emit(ev)
		os.Exit(1)
	}
	if fault != nil && fault.Mode == "kill-before" {
		kill()
	}
	if ms := ctl.Delays[pkg]; ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
	if ctl.Barrier > 0 {
		barrier()
	}
	if fault != nil && fault.Mode == "evict" {
		// meanwhile, somebody cleans the package cache
		tops, _ := filepath.Glob(filepath.Join(ctl.Cache, "*"))
		for _, d := range tops {
			_, a := os.Stat(filepath.Join(d, "src"))
			_, b := os.Stat(filepath.Join(d, "binary"))
			if a != nil && b != nil {
				// an unpacked archive
				if src != d && !strings.HasPrefix(src, d+"/") {
					_ = os.RemoveAll(d)
				}
				continue
			}
			_ = filepath.Walk(d, func(f string, fi os.FileInfo, err error) error {
				if err == nil && fi.Mode().IsRegular() && f != src {
					_ = os.Remove(f)
				}
				return nil
			})
		}
	}
	if len(ev.Missing) > 0 {
		end(1, fmt.Sprintf("dependencies %s are not available for package '%s'", strings.Join(ev.Missing, ", "), pkg))
	}
	if f, err := os.ReadFile(filepath.Join(base, "ctl", "full")); err == nil && (len(f) == 0 || strings.HasPrefix(lib+"/", string(f)+"/") || build && strings.HasPrefix(cwd+"/", string(f)+"/")) {
		end(1, "cannot write package "+pkg+": No space left on device")
	}
	code := 1
	if fault != nil && fault.Code != 0 {
		code = fault.Code
	}
	if fault != nil && fault.Mode == "exit" {
		end(code, "injected failure for package "+pkg)
	}
	dest := filepath.Join(lib, pkg)
	inst := make([]entry, 0, len(ents))
	for _, e := range ents {
		rel := strings.TrimPrefix(strings.TrimPrefix(e.name, root), "/")
		e.name = rel
		if rel == "" {
			continue
		}
		if rel == "DESCRIPTION" && !binary {
			e.data = append(bytes.TrimRight(e.data, "\n"), []byte(fmt.Sprintf("\nBuilt: R %s; ; 2099-01-01 00:00:00 UTC; unix\n", ctl.RVersion))...)
		}
		// a source directory may hold build products of an earlier install
		inst = append(inst, e)
	}
	_ = os.RemoveAll(dest)
	for i, e := range inst {
		if fault != nil && fault.Mode == "partial" && i >= len(inst)/2 {
			end(code, "injected failure for package "+pkg)
		}
		if fault != nil && fault.Mode == "kill-mid" && i >= len(inst)/2 {
			kill()
		}
		if err := put(dest, e); err != nil {
			end(1, err.Error())
		}
	}
	if build && (fault == nil || fault.Mode != "nobinary") {
		if err := writeTar(filepath.Join(cwd, fmt.Sprintf("%s_%s_R_%s.tar.gz", pkg, ver, ctl.Platform)), pkg, inst); err != nil {
			end(1, err.Error())
		}
	}
	end(0, "")
	if fault != nil && fault.Mode == "kill-after" {
		_ = syscall.Kill(os.Getppid(), syscall.SIGKILL)
	}
	fmt.Printf("* DONE (%s)\n", pkg)
}

// barrier waits until the wanted number of installations ran at the same time,
// and then a little longer to see whether there are more.
func barrier() {
	given := filepath.Join(base, "ctl", "nobarrier") // one waited in vain: nobody else needs to
	for i := 0; i < 1500; i++ {
		if _, err := os.Stat(given); err == nil {
			return
		}
		b, _ := os.ReadFile(filepath.Join(base, "ctl", "events.jsonl"))
		open, max := map[int]bool{}, 0
		for _, l := range bytes.Split(b, []byte("\n")) {
			var e Event
			if json.Unmarshal(l, &e) != nil {
				continue
			}
			switch e.Ev {
			case "start":
				open[e.Pid] = true
			case "end", "killed":
				delete(open, e.Pid)
			}
			if len(open) > max {
				max = len(open)
			}
		}
		if max >= ctl.Barrier {
			if len(open) >= ctl.Barrier {
				time.Sleep(60 * time.Millisecond)
			}
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	_ = os.WriteFile(given, nil, 0644)
}

func put(dest string, e entry) error {
	p := filepath.Join(dest, e.name)
	if e.dir {
		return os.MkdirAll(p, 0755)
	}
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		return err
	}
	mode := os.FileMode(0644)
	if e.mode&0100 != 0 {
		mode = 0755
	}
	return os.WriteFile(p, e.data, mode)
}

func writeTar(p, root string, ents []entry) error {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	tw := tar.NewWriter(gz)
	_ = tw.WriteHeader(&tar.Header{Name: root + "/", Typeflag: tar.TypeDir, Mode: 0755})
	for _, e := range ents {
		if e.dir {
			_ = tw.WriteHeader(&tar.Header{Name: root + "/" + e.name + "/", Typeflag: tar.TypeDir, Mode: 0755})
			continue
		}
		_ = tw.WriteHeader(&tar.Header{Name: root + "/" + e.name, Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(e.data))})
		_, _ = tw.Write(e.data)
	}
	_ = tw.Close()
	_ = gz.Close()
	return os.WriteFile(p, buf.Bytes(), 0644)
}

var (
	reLib  = regexp.MustCompile(`^\s*(?:library|require|requireNamespace|loadNamespace)\(\s*['"]([^'"]*)['"].*\)\s*;?\s*$`)
	reFind = regexp.MustCompile(`find\.package\(\s*['"]([^'"]*)['"]`)
)

func expr(all []string, e, cwd string) {
	emit(Event{Ev: "expr", Args: all, Expr: e, Cwd: cwd, Env: envMap()})
	if script {
		if strings.Contains(e, "renv::paths$library()") {
			switch ctl.RenvMode {
			case "fail":
				die(1, "Error in loadNamespace(x) : there is no package called 'renv'")
			case "noise":
				fmt.Print("* Project loaded. [renv]\nsome other line\n")
			case "around":
				fmt.Print("[1] \"a _pkgr_ remark\"\n> _pkgr_/not/here_pkgr_ or so\n")
				defer fmt.Print("* The project is out-of-sync. _pkgr_\n")
			case "stderr":
				fmt.Fprint(os.Stderr, "Warning message:\n_pkgr_/not/here_pkgr_\n")
			case "silent":
				return
			case "half":
				fmt.Printf("\n_pkgr_%s\n", ctl.RenvLib)
				return
			case "empty":
				fmt.Print("\n_pkgr__pkgr_\n")
				return
			case "late":
				fmt.Printf("\n_pkgr_%s_pkgr_\n", ctl.RenvLib)
				die(1, "Error: something else")
			}
			fmt.Printf("\n_pkgr_%s_pkgr_\n", ctl.RenvLib)
		}
		return
	}
	libs := libPaths("")
	if m := reLib.FindStringSubmatch(e); m != nil {
		p := findPkg(m[1], libs)
		if ms := ctl.Delays[m[1]]; ms > 0 {
			time.Sleep(time.Duration(ms) * time.Millisecond)
		}
		done := func(c int) {
			emit(Event{Ev: "exprend", Expr: e, Pkg: m[1], Code: c})
			os.Exit(c)
		}
		fmt.Print(ctl.LoadOut[m[1]])
		fmt.Fprint(os.Stderr, ctl.LoadErr[m[1]])
		if c := ctl.LoadFail[m[1]]; c >= 512 {
			// R dies of a signal
			emit(Event{Ev: "exprend", Expr: e, Pkg: m[1], Code: c})
			_ = syscall.Kill(os.Getpid(), syscall.Signal(c-512))
			time.Sleep(time.Second)
		} else if c > 256 {
			// quit(status = 1)
			done(c - 256)
		} else if c != 0 {
			fmt.Fprintf(os.Stderr, "Error: package or namespace load failed for '%s'\n", m[1])
			done(c)
		}
		if p == "" {
			fmt.Fprintf(os.Stderr, "Error in library(\"%s\") : there is no package called '%s'\n", m[1], m[1])
			done(1)
		}
		if d := missingNS(p, libs, map[string]bool{}); d != "" {
			fmt.Fprintf(os.Stderr, "Error: package or namespace load failed for '%s':\n there is no package called '%s'\n", m[1], d)
			done(1)
		}
		done(0)
	}
	if m := reFind.FindStringSubmatch(e); m != nil {
		p := findPkg(m[1], libs)
		if p == "" {
			die(1, "Error in find.package(\"%s\") : there is no package called '%s'", m[1], m[1])
		}
		b, _ := os.ReadFile(filepath.Join(p, "DESCRIPTION"))
		fmt.Printf("[1] \"%s\"\n[1] \"%s\"\n", p, dcf(b)["Version"])
		return
	}
	if strings.Contains(e, ".libPaths()") {
		printVector(libs)
		return
	}
}

// missingNS names a package that is needed to load the one in dir but absent.
func missingNS(dir string, libs []string, seen map[string]bool) string {
	if seen[dir] {
		return ""
	}
	seen[dir] = true
	b, _ := os.ReadFile(filepath.Join(dir, "DESCRIPTION"))
	d := dcf(b)
	for _, f := range []string{"Depends", "Imports"} {
		for _, n := range strings.Split(d[f], ",") {
			if i := strings.IndexByte(n, '('); i >= 0 {
				n = n[:i]
			}
			n = strings.TrimSpace(n)
			if n == "" || n == "R" || basePkgs[n] {
				continue
			}
			p := findPkg(n, libs)
			if p == "" {
				return n
			}
			if x := missingNS(p, libs, seen); x != "" {
				return x
			}
		}
	}
	return ""
}

// printVector prints strings as R prints a character vector: as many as fit
// on a line, each padded to the same width.
func printVector(xs []string) {
	width := 0
	var qs []string
	for _, x := range xs {
		q := "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(x) + "\""
		qs = append(qs, q)
		if len(q) > width {
			width = len(q)
		}
	}
	lab := len(fmt.Sprintf("[%d]", len(xs)))
	cols := ctl.Width
	if cols == 0 {
		cols = 80
	}
	per := (cols - lab) / (width + 1)
	if per < 1 {
		per = 1
	}
	for i := 0; i < len(qs); i += per {
		fmt.Printf("%*s", lab, fmt.Sprintf("[%d]", i+1))
		for j := i; j < i+per && j < len(qs); j++ {
			fmt.Printf(" %-*s", width, qs[j])
		}
		fmt.Println()
	}
}
