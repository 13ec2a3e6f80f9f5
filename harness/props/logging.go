package props

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"pkgrverif/gen"
	"pkgrverif/h"
	"pkgrverif/w"
)

type logStep struct {
	Op    string `json:"op"`
	Level string `json:"level"`
	Plain bool   `json:"plain,omitempty"` // console without JSON
}

type logCase struct {
	W     *w.World  `json:"w"`
	All   string    `json:"all,omitempty"` // spelled as in the configuration
	Inst  string    `json:"inst,omitempty"`
	Over  bool      `json:"over,omitempty"`
	Old   bool      `json:"old,omitempty"` // files exist before
	Away  bool      `json:"away,omitempty"`
	Steps []logStep `json:"steps"`
}

const secret = "s3cr3t-t0ken-Value"

var tokens = []string{"GITHUB_TOKEN", "GITHUB_PAT", "GHE_TOKEN", "GHE_PAT", "AWS_ACCESS_KEY_ID", "AWS_SECRET_KEY"}

func init() {
	prop("C30", "a case is a world, log files in various places and spellings, and one to four commands at generated levels, some failing; non-trivial: a command wrote at least three messages into a configured file",
		420, 11000,
		func(t *rapid.T) *logCase {
			o := gen.Default()
			o.MaxPkgs, o.MaxRepos, o.Bin, o.Delays, o.HTTP = 5, 2, 15, 10, 15
			c := &logCase{W: gen.World(t, o), Over: gen.Chance(t, 40), Old: gen.Chance(t, 40), Away: gen.Chance(t, 30)}
			place := func(n string) string {
				return gen.Pick(t, n+".log", "logs/"+n+".log", "~/"+n+".log", "$LOGDIR/"+n+".log", "../"+n+".log", "ABS/"+n+".log")
			}
			if gen.Chance(t, 75) {
				c.All = place("all")
			}
			if gen.Chance(t, 50) {
				c.Inst = place("inst")
			}
			if gen.Chance(t, 8) {
				c.Inst = c.All
			}
			for i, n := 0, gen.R(t, 1, 4); i < n; i++ {
				c.Steps = append(c.Steps, logStep{Op: gen.Pick(t, "install", "install", "plan", "inspect", "load", "clean", "clean-cache", "clean-pkgdbs", "add", "add-install", "remove", "run", "fail", "missing"),
					Level: gen.Pick(t, "trace", "debug", "info", "warn", "error", "", "fatal"), Plain: gen.Chance(t, 20)})
			}
			return c
		}, runLogging)
}

type logLine struct {
	Msg   string `json:"msg"`
	Level string `json:"level"`
}

func logLines(text string) (out []logLine, bad string) {
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if l == "" {
			continue
		}
		var x logLine
		if json.Unmarshal([]byte(l), &x) != nil || x.Level == "" {
			return out, l
		}
		out = append(out, x)
	}
	return out, ""
}

func runLogging(env *w.Env, c *logCase) h.Result {
	wd := clone(c.W)
	pl := w.NewModel(wd).Plan()
	if len(pl.Missing) > 0 || pl.Cyclic || len(pl.All) == 0 || len(wd.Cfg.Pkgs) == 0 {
		return h.Result{Skip: true}
	}
	wd.Cfg.LogAll, wd.Cfg.LogInst, wd.Cfg.LogOver = "", "", false
	b := wd.Build(env)
	defer b.Close()
	logdir := filepath.Join(b.Dir, "logdir")
	for _, d := range []string{logdir, filepath.Join(b.Proj, "logs"), filepath.Join(b.Dir, "abs")} {
		putDir(d)
	}
	spell := func(s string) string { return strings.Replace(s, "ABS/", b.Dir+"/abs/", 1) }
	where := func(s string) string {
		switch {
		case s == "":
			return ""
		case strings.HasPrefix(s, "~/"):
			return filepath.Join(b.Home, s[2:])
		case strings.HasPrefix(s, "$LOGDIR/"):
			return filepath.Join(logdir, s[8:])
		case strings.HasPrefix(s, "ABS/"):
			return filepath.Join(b.Dir, "abs", s[4:])
		}
		return filepath.Join(b.Proj, s)
	}
	wd.Cfg.LogAll, wd.Cfg.LogInst, wd.Cfg.LogOver = spell(c.All), spell(c.Inst), c.Over
	b.WriteConfig()
	all, inst := where(c.All), where(c.Inst)
	files := uniq([]string{all, inst})
	old := map[string]string{}
	for _, f := range files {
		if f != "" && c.Old {
			old[f] = "{\"level\":\"info\",\"msg\":\"from before\"}\n"
			putFile(f, old[f])
		}
	}
	nt := false
	for i, s := range c.Steps {
		opt := w.RunOpt{NoLog: true, Env: []string{"LOGDIR=" + logdir}}
		for _, tk := range tokens {
			opt.Env = append(opt.Env, tk+"="+secret)
			if i%2 == 1 {
				opt.Env = append(opt.Env, strings.ToLower(tk)+"="+secret)
			}
		}
		var args []string
		if !s.Plain {
			args = append(args, "--logjson")
		}
		if s.Level != "" {
			args = append(args, "--loglevel="+s.Level)
		}
		if c.Away {
			opt.Cwd = b.Home
			args = append(args, "--config="+filepath.Join(b.Proj, "pkgr.yml"))
		}
		target := []string{all}
		op := s.Op
		switch op {
		case "install", "fail", "missing":
			if inst != "" {
				target = []string{inst}
			}
			if op == "fail" {
				wd.Faults = map[string][]w.Fault{}
				for n := range pl.All {
					wd.Faults[n] = []w.Fault{{Stage: "any", Mode: "exit", Code: 1}}
				}
				b.WriteCtl()
			}
			if op == "missing" {
				args = append(args, "--strict", "--library="+filepath.Join(b.Dir, "nolib"))
			}
			args = append(args, "install")
		case "inspect":
			args = append(args, "inspect", "--deps")
		case "clean-cache":
			args = append(args, "clean", "cache")
		case "clean-pkgdbs":
			args = append(args, "clean", "pkgdbs")
		case "clean":
			args = append(args, "clean", "--all")
		case "add", "remove":
			args = append(args, op, wd.Cfg.Pkgs[0])
		case "add-install":
			args = append(args, "add", "--install", wd.Cfg.Pkgs[0])
			if inst != "" {
				target = append(target, inst)
			}
		default:
			args = append(args, op)
		}
		if op == "remove" && len(wd.Cfg.Pkgs) == 1 {
			continue
		}
		r := b.Run(opt, args...)
		what := sprintf("step %d, %s", i+1, strings.Join(args, " "))
		if r.Deadlock || r.Panic || r.Signal != "" {
			return viol("%s ended abnormally: %s", what, r.Brief())
		}
		if op == "fail" {
			wd.Faults = nil
			b.WriteCtl()
		}
		if op == "remove" {
			// put it back for the next steps
			b.WriteConfig()
		}
		if strings.Contains(r.Out+r.Err, secret) {
			return viol("%s prints a token", what)
		}
		// what was printed
		var shown []logLine
		if !s.Plain {
			for _, l := range strings.Split(r.Out, "\n") {
				var x logLine
				if strings.HasPrefix(l, "{\"") && json.Unmarshal([]byte(l), &x) == nil && x.Level != "" {
					shown = append(shown, x)
				}
			}
		}
		for _, f := range files {
			if f == "" {
				continue
			}
			now := w.ReadFile(f)
			if strings.Contains(now, secret) {
				return viol("%s: a token is written to the log", what)
			}
			if !gen.Has(target, f) {
				if now != old[f] {
					return viol("%s: %s was changed", what, f)
				}
				continue
			}
			if !exists(f) {
				return viol("%s: %s was not written", what, f)
			}
			fresh := now
			if c.Over {
				if c.Old && i == 0 && strings.Contains(now, "from before") {
					return viol("%s: %s was not overwritten", what, f)
				}
			} else {
				if !strings.HasPrefix(now, old[f]) {
					return viol("%s: earlier content of %s was lost", what, f)
				}
				fresh = now[len(old[f]):]
			}
			old[f] = now
			lines, bad := logLines(fresh)
			if bad != "" {
				return viol("%s: not a record in %s: %q", what, f, bad)
			}
			nt = nt || len(lines) > 2
			if s.Plain || strings.Contains(strings.Join(args, " "), "load --json") {
				continue
			}
			if m := logged(lines, shown, op == "add-install"); m != "" {
				return viol("%s: %s: %s\n%s\n%s", what, f, m, fresh, r.Brief())
			}
		}
		// no other log files
		for _, d := range []string{b.Proj, b.Home, logdir, filepath.Join(b.Dir, "abs"), b.Dir, filepath.Join(b.Proj, "logs")} {
			es, _ := os.ReadDir(d)
			for _, e := range es {
				if p := filepath.Join(d, e.Name()); strings.HasSuffix(p, ".log") && !gen.Has(files, p) {
					return viol("%s: unexpected log file %s", what, p)
				}
			}
		}
	}
	return h.Result{Nontrivial: nt}
}

// logged compares a log with what was printed: all messages, once each, apart
// from those printed before the log was opened.
func logged(file, shown []logLine, part bool) string {
	count := map[logLine]int{}
	for _, l := range shown {
		count[l]++
	}
	for _, l := range file {
		count[l]--
		if count[l] < 0 {
			return sprintf("%q is logged more often than it is printed", l.Msg)
		}
	}
	if part {
		return ""
	}
	// what is only printed precedes everything that is logged
	missing := 0
	for _, n := range count {
		missing += n
	}
	for i, l := range shown {
		if i >= missing && count[l] > 0 {
			return sprintf("%q is printed, but not logged", l.Msg)
		}
	}
	if missing > 6 {
		return sprintf("%d messages are missing", missing)
	}
	return ""
}
