package w

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Event mirrors fakeR's Event.
type Event struct {
	Ev      string            `json:"ev"`
	Pid     int               `json:"pid"`
	PPid    int               `json:"ppid"`
	Pkg     string            `json:"pkg,omitempty"`
	Version string            `json:"version,omitempty"`
	Payload string            `json:"payload,omitempty"`
	Stage   string            `json:"stage,omitempty"`
	Lib     string            `json:"lib,omitempty"`
	Src     string            `json:"src,omitempty"`
	Args    []string          `json:"args,omitempty"`
	Env     map[string]string `json:"env,omitempty"`
	Cwd     string            `json:"cwd,omitempty"`
	Code    int               `json:"code"`
	Msg     string            `json:"msg,omitempty"`
	Missing []string          `json:"missing,omitempty"`
	Expr    string            `json:"expr,omitempty"`
}

// RunRes is the outcome of one pkgr invocation.
type RunRes struct {
	Args     []string
	Exit     int // -1: killed by a signal
	Signal   string
	Out, Err string
	Logs     []map[string]interface{}
	Plain    []string // stdout lines that are not JSON log records
	Events   []Event
	Deadlock bool
	Dump     string
	Panic    bool
	Changes  int    // changes to files made or begun (Crash only)
	Hit      string // the one at which pkgr was killed, or the first that failed
	More     []string
}

// RunOpt tunes Run.
type RunOpt struct {
	Cwd     string
	Env     []string // appended; "K=" with nothing removes K
	NoLog   bool     // do not add --logjson --loglevel=debug
	Stdin   string
	BaseEnv []string
	Crash   int    // kill pkgr before its n-th change to a file (-1: only count them)
	Below   string // count only the changes below this folder
	Torn    bool   // in the middle of it, if that is a write
	Fail    string // instead of killing it, let that change fail: "once:ERRNO", or "full": nothing can be written any more
	Kill    int    // ms after which pkgr is killed
}

// HangAfter is how long a pkgr process may make no progress at all.
var HangAfter = 45 * time.Second

func (b *Box) env(extra []string) []string {
	procs := b.W.Procs
	if procs == 0 {
		procs = 4
	}
	m := map[string]string{
		"PATH":            "/usr/local/bin:/usr/bin:/bin",
		"HOME":            b.Home,
		"XDG_CACHE_HOME":  b.XDG,
		"TMPDIR":          b.Tmp,
		"LANG":            "C.UTF-8",
		"GOMAXPROCS":      strconv.Itoa(procs),
		"GOTRACEBACK":     "all",
		"NO_PROXY":        "*",
		"TERM":            "dumb",
		"VERIF_CASE_MARK": "1",
	}
	for _, kv := range extra {
		i := strings.IndexByte(kv, '=')
		if kv[i+1:] == "" {
			delete(m, kv[:i])
		} else {
			m[kv[:i]] = kv[i+1:]
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, k+"="+m[k])
	}
	return out
}

func cpuTicks(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i > 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseInt(f[11], 10, 64)
			v, _ := strconv.ParseInt(f[12], 10, 64)
			return u + v
		}
	}
	return -1
}

// Run invokes pkgr.
func (b *Box) Run(opt RunOpt, args ...string) *RunRes {
	full := args
	if !opt.NoLog {
		full = append([]string{"--logjson", "--loglevel=debug"}, args...)
	}
	cmd := exec.Command(b.Env.Pkgr, full...)
	report := filepath.Join(b.Dir, "crash.json")
	if opt.Crash != 0 {
		how := "clean"
		if opt.Torn {
			how = "torn"
		}
		if opt.Fail != "" {
			how = opt.Fail
			_ = os.Remove(filepath.Join(b.Ctl, "full"))
		}
		cmd = exec.Command(b.Env.CrashAt, append([]string{report, strconv.Itoa(opt.Crash), how, b.Env.Pkgr}, full...)...)
	}
	cmd.Dir = opt.Cwd
	if cmd.Dir == "" {
		cmd.Dir = b.Proj
	}
	cmd.Env = b.env(opt.Env)
	if opt.Below != "" {
		cmd.Env = append(cmd.Env, "CRASHAT_ONLY="+opt.Below)
	}
	if opt.Fail != "" {
		cmd.Env = append(cmd.Env, "CRASHAT_FULL="+filepath.Join(b.Ctl, "full"))
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if opt.Stdin != "" {
		cmd.Stdin = strings.NewReader(opt.Stdin)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 20 * time.Second
	res := &RunRes{Args: full}
	if err := cmd.Start(); err != nil {
		panic(HarnessError{"cannot start pkgr: " + err.Error()})
	}
	for _, s := range b.Servers {
		s.setPid(cmd.Process.Pid)
	}
	if opt.Kill > 0 {
		pid := cmd.Process.Pid
		tm := time.AfterFunc(time.Duration(opt.Kill)*time.Millisecond, func() { _ = syscall.Kill(pid, syscall.SIGKILL) })
		defer tm.Stop()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	last, lastAt := int64(-2), time.Now()
	evSize := int64(-1)
	start := time.Now()
	hung := false
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-time.After(500 * time.Millisecond):
			c := cpuTicks(cmd.Process.Pid)
			var es int64
			if fi, e := os.Stat(filepath.Join(b.Ctl, "events.jsonl")); e == nil {
				es = fi.Size()
			}
			// an idle Go runtime still burns a tick now and then: tolerate 2
			if c > last+2 || es != evSize {
				last, evSize, lastAt = c, es, time.Now()
			}
			if !hung && time.Since(lastAt) > HangAfter {
				hung = true
				res.Deadlock = true
				_ = syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				lastAt = time.Now()
			} else if time.Since(start) > 5*time.Minute || (hung && time.Since(lastAt) > 10*time.Second) {
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				if !hung {
					<-done
					panic(HarnessError{"pkgr still busy after 5 minutes"})
				}
			}
		}
	}
	for _, s := range b.Servers {
		s.setPid(0)
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				res.Exit, res.Signal = -1, ws.Signal().String()
			} else {
				res.Exit = ws.ExitStatus()
			}
		} else {
			panic(HarnessError{"waiting for pkgr: " + err.Error()})
		}
	}
	res.Out, res.Err = so.String(), se.String()
	if opt.Crash != 0 {
		var rep struct {
			Seen int
			Hit  string
			More []string
		}
		raw, rerr := os.ReadFile(report)
		if rerr != nil || json.Unmarshal(raw, &rep) != nil || strings.Contains(res.Err, "crashat:") {
			panic(HarnessError{"crashat gave no report: " + tail(res.Err, 300)})
		}
		_ = os.Remove(report)
		res.Changes, res.Hit = rep.Seen, strings.ReplaceAll(rep.Hit, b.Dir, "")
		for _, m := range rep.More {
			res.More = append(res.More, strings.ReplaceAll(m, b.Dir, ""))
		}
		_ = os.Remove(filepath.Join(b.Ctl, "full"))
		if res.Signal == "killed" && rep.Hit == "" && !b.expectKill() {
			panic(HarnessError{"pkgr was killed by someone else"})
		}
	}
	if res.Deadlock {
		res.Dump = res.Err
	}
	res.Panic = strings.Contains(res.Err, "panic:") || strings.Contains(res.Err, "fatal error:")
	if opt.Fail == "" && (strings.Contains(res.Err, "out of memory") || strings.Contains(res.Err, "resource temporarily unavailable") ||
		strings.Contains(res.Err, "cannot allocate memory") || strings.Contains(res.Err, "no space left") ||
		strings.Contains(res.Out, "no space left on device") || strings.Contains(res.Out, "cannot allocate memory") ||
		(res.Signal == "killed" && opt.Crash == 0 && opt.Kill == 0 && !b.expectKill())) {
		panic(HarnessError{"environment trouble: " + res.Signal + " " + tail(res.Err, 300)})
	}
	for _, l := range strings.Split(res.Out, "\n") {
		if strings.HasPrefix(l, "{") {
			var m map[string]interface{}
			if json.Unmarshal([]byte(l), &m) == nil && m["level"] != nil {
				res.Logs = append(res.Logs, m)
				continue
			}
		}
		if l != "" {
			res.Plain = append(res.Plain, l)
		}
	}
	if res.Signal != "" {
		b.orphans()
	}
	b.settle()
	res.Events = b.events()
	for _, e := range res.Events {
		if e.Code == 97 {
			panic(HarnessError{"fakeR: " + e.Msg})
		}
	}
	return res
}

func (b *Box) expectKill() bool {
	for _, fs := range b.W.Faults {
		for _, f := range fs {
			if strings.HasPrefix(f.Mode, "kill") {
				return true
			}
		}
	}
	for _, s := range b.Servers {
		for _, f := range s.faults {
			if f.Kind == "kill" {
				return true
			}
		}
	}
	return false
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// orphans waits for R processes a killed pkgr left behind, including those
// that have not logged anything yet.
func (b *Box) orphans() {
	mark := []byte(filepath.Join(b.Dir, "bin") + "/R")
	for i := 0; i < 4000; i++ {
		alive := false
		ps, _ := filepath.Glob("/proc/[0-9]*/cmdline")
		for _, p := range ps {
			if c, err := os.ReadFile(p); err == nil && bytes.HasPrefix(c, mark) {
				alive = true
			}
		}
		if !alive {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	panic(HarnessError{"R stand-in outlives pkgr"})
}

// settle waits until every R process of a killed pkgr has ended.
func (b *Box) settle() {
	for i := 0; i < 4000; i++ {
		open := map[int]bool{}
		raw, _ := os.ReadFile(filepath.Join(b.Ctl, "events.jsonl"))
		for _, l := range bytes.Split(raw, []byte("\n")) {
			var e Event
			if json.Unmarshal(l, &e) != nil {
				continue
			}
			switch e.Ev {
			case "start":
				open[e.Pid] = true
			case "end", "killed":
				delete(open, e.Pid)
			}
		}
		alive := false
		for p := range open {
			if syscall.Kill(p, 0) == nil {
				alive = true
			}
		}
		if !alive {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	panic(HarnessError{"R stand-in did not end"})
}

func (b *Box) events() []Event {
	f, err := os.Open(filepath.Join(b.Ctl, "events.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	_, _ = f.Seek(b.evOffset, 0)
	var buf bytes.Buffer
	n, _ := buf.ReadFrom(f)
	b.evOffset += n
	var out []Event
	for _, l := range bytes.Split(buf.Bytes(), []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var e Event
		if json.Unmarshal(l, &e) == nil {
			out = append(out, e)
		}
	}
	return out
}

// Installs are the CMD INSTALL start events.
func (r *RunRes) Installs() []Event {
	var out []Event
	for _, e := range r.Events {
		if e.Ev == "start" {
			out = append(out, e)
		}
	}
	return out
}

// LogMsgs returns the log records with exactly this message.
func (r *RunRes) LogMsgs(msg string) []map[string]interface{} {
	var out []map[string]interface{}
	for _, l := range r.Logs {
		if s, _ := l["msg"].(string); strings.TrimSpace(s) == msg {
			out = append(out, l)
		}
	}
	return out
}

// Text is everything printed.
func (r *RunRes) Text() string { return r.Out + "\n" + r.Err }

// Brief describes the run for a violation message.
func (r *RunRes) Brief() string {
	return fmt.Sprintf("pkgr %s: exit %d %s; stdout tail: %s; stderr tail: %s", strings.Join(r.Args, " "), r.Exit, r.Signal, tail(r.Out, 600), tail(r.Err, 600))
}

// Node is one entry of a tree snapshot.
type Node struct {
	Mode string
	Sum  string
	Size int64
	Link string
}

// Tree is a snapshot of a directory tree; nil when it does not exist.
type Tree map[string]Node

// Snap takes a snapshot of dir ("." is the root itself).
func Snap(dir string) Tree {
	if _, err := os.Lstat(dir); err != nil {
		return nil
	}
	t := Tree{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		n := Node{Mode: fi.Mode().String()}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			n.Link, _ = os.Readlink(p)
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			h := sha256.Sum256(b)
			n.Sum, n.Size = fmt.Sprintf("%x", h[:8]), fi.Size()
		}
		t[rel] = n
		return nil
	})
	must(err)
	return t
}

// Diff describes how b differs from a ("" when equal).
func Diff(a, b Tree) string {
	if a == nil && b == nil {
		return ""
	}
	if a == nil {
		return "exists now, did not before: " + strings.Join(keys(b, 6), ", ")
	}
	if b == nil {
		return "no longer exists"
	}
	var d []string
	for _, k := range keys(a, 0) {
		n, ok := b[k]
		if !ok {
			d = append(d, "missing "+k)
		} else if n != a[k] {
			d = append(d, "changed "+k)
		}
	}
	for _, k := range keys(b, 0) {
		if _, ok := a[k]; !ok {
			d = append(d, "extra "+k)
		}
	}
	if len(d) > 8 {
		d = append(d[:8], fmt.Sprintf("and %d more", len(d)-8))
	}
	return strings.Join(d, "; ")
}

func keys(t Tree, max int) []string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if max > 0 && len(ks) > max {
		ks = ks[:max]
	}
	return ks
}

// Sub is the part of the snapshot under top.
func (t Tree) Sub(top string) Tree {
	out := Tree{}
	for k, v := range t {
		if k == top || strings.HasPrefix(k, top+"/") {
			out[k] = v
		}
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// Tops are the first-level names.
func (t Tree) Tops() []string {
	m := map[string]bool{}
	for k := range t {
		if k == "." {
			continue
		}
		if i := strings.IndexByte(k, '/'); i >= 0 {
			k = k[:i]
		}
		m[k] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ReadFile reads a file of the case, "" when absent.
func ReadFile(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	return string(b)
}

// Blamed tells whether an error was reported.
func (r *RunRes) Blamed() bool {
	for _, l := range r.Logs {
		switch l["level"] {
		case "error", "fatal", "panic":
			return true
		}
	}
	return false
}
