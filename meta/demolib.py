"""Helpers of the demonstrations: scratch worlds for the pkgr binary built from
the current directory, with a small stand-in for R."""
import functools, http.server, io, json, os, shutil, socketserver, stat, subprocess, sys, tarfile, tempfile, threading, gzip, time

FAKE = r'''#!/usr/bin/env python3
import gzip, io, json, os, re, shutil, signal, sys, tarfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ctl = json.load(open(here + "/ctl.json"))
args = sys.argv[1:]
def log(**k):
    with open(here + "/events.jsonl", "a") as f:
        f.write(json.dumps(k) + "\n")
if args == ["--version"]:
    print('R version %s (2099-01-01) -- "Fake"\nCopyright (C) 2099\nPlatform: x86_64-pc-linux-gnu (64-bit)\n' % ctl["r"])
    sys.exit(0)
def dcf(t):
    d, cur = {}, None
    for l in t.split("\n"):
        if not l.strip():
            if d: break
            continue
        if l[0] in " \t":
            if cur: d[cur] += " " + l.strip()
        elif ":" in l:
            cur, v = l.split(":", 1)
            d[cur] = v.strip()
    return d
BASE = "R base compiler datasets graphics grDevices grid methods parallel splines stats stats4 tcltk tools utils".split()
def libs(first=""):
    out = []
    for p in [first] + sum([os.environ.get(v, "").split(":") for v in ("R_LIBS", "R_LIBS_USER", "R_LIBS_SITE")], []) + [here + "/site"]:
        if p and os.path.isdir(p) and p not in out: out.append(p)
    return out
if "CMD" in args and "INSTALL" in args:
    rest = args[args.index("INSTALL") + 1:]
    lib, src, build = "", "", False
    for a in rest:
        if a.startswith("--library="): lib = a[10:]
        elif a == "--build": build = True
        elif not a.startswith("-"): src = a
    files = {}
    try:
        if os.path.isdir(src):
            for dp, dn, fn in os.walk(src):
                for f in fn:
                    p = os.path.join(dp, f)
                    files[os.path.relpath(p, src)] = open(p, "rb").read()
        else:
            with tarfile.open(src, "r:gz") as t:
                for m in t:
                    if m.isreg(): files[m.name.split("/", 1)[1]] = t.extractfile(m).read()
    except Exception as e:
        log(ev="start", pkg="", src=src, msg=str(e)); print(e, file=sys.stderr); sys.exit(1)
    d = dcf(files["DESCRIPTION"].decode())
    pkg, ver = d["Package"], d["Version"]
    binary = "Built" in d
    stage = "final" if binary else ("tarball" if os.path.isdir(src) else "build")
    log(ev="start", pkg=pkg, version=ver, stage=stage, lib=lib, src=src, t=time.time(), env=dict(os.environ))
    def end(c, msg=""):
        log(ev="end", pkg=pkg, stage=stage, lib=lib, code=c, t=time.time(), msg=msg)
        if c: print("ERROR: " + msg, file=sys.stderr); sys.exit(c)
    time.sleep(ctl["delay"].get(pkg, 0))
    f = ctl["fail"].get(pkg, "")
    if f == "exit" or f == "exit-" + stage: end(1, "injected")
    if f == "kill-" + stage:
        os.kill(os.getppid(), signal.SIGKILL); sys.exit(1)
    if not os.path.isdir(lib): end(1, "no library " + lib)
    if not binary:
        for fld in ("Depends", "Imports", "LinkingTo"):
            for n in d.get(fld, "").split(","):
                n = n.split("(")[0].strip()
                if n and n not in BASE and not any(os.path.exists(l + "/" + n + "/DESCRIPTION") for l in libs(lib)):
                    end(1, "dependency %s not available for %s" % (n, pkg))
        files["DESCRIPTION"] = files["DESCRIPTION"].rstrip() + ("\nBuilt: R %s; ; 2099-01-01; unix\n" % ctl["r"]).encode()
    dest = lib + "/" + pkg
    shutil.rmtree(dest, ignore_errors=True)
    for n, (k, v) in enumerate(sorted(files.items())):
        if f == "partial-" + stage and n >= 1: end(1, "injected, half written")
        os.makedirs(os.path.dirname(dest + "/" + k), exist_ok=True)
        open(dest + "/" + k, "wb").write(v)
    if build:
        with tarfile.open("%s_%s_R_x86_64-pc-linux-gnu.tar.gz" % (pkg, ver), "w:gz") as t:
            for k, v in files.items():
                i = tarfile.TarInfo(pkg + "/" + k); i.size = len(v); t.addfile(i, io.BytesIO(v))
    end(0)
    sys.exit(0)
if "-e" in args:
    e = args[args.index("-e") + 1]
    log(ev="expr", expr=e, env=dict(os.environ), cwd=os.getcwd(), t=time.time())
    if "renv" in e:
        print("\n_pkgr_%s_pkgr_" % ctl.get("renvlib", "")); sys.exit(0)
    if e == ".libPaths()":
        for i, l in enumerate(libs()): print('[%d] "%s"' % (i + 1, l))
        sys.exit(0)
    m = re.search(r"find\.package\('([^']*)'\)", e)
    if m:
        for l in libs():
            if os.path.exists(l + "/" + m.group(1) + "/DESCRIPTION"):
                print('[1] "%s"\n[1] "%s"' % (l + "/" + m.group(1), dcf(open(l + "/" + m.group(1) + "/DESCRIPTION").read())["Version"])); sys.exit(0)
        sys.exit(1)
    m = re.search(r"library\('([^']*)'\)", e)
    if m:
        time.sleep(ctl["delay"].get(m.group(1), 0))
        ok = any(os.path.exists(l + "/" + m.group(1) + "/DESCRIPTION") for l in libs()) and m.group(1) not in ctl.get("loadfail", [])
        if not ok: print("Error: cannot load " + m.group(1), file=sys.stderr)
        log(ev="exprend", pkg=m.group(1), t=time.time())
        sys.exit(0 if ok else 1)
log(ev="session", args=args, env=dict(os.environ), cwd=os.getcwd())
'''

def description(p):
    s = "Package: %s\nVersion: %s\n" % (p["n"], p["v"])
    for k, f in (("dep", "Depends"), ("imp", "Imports"), ("lnk", "LinkingTo"), ("sug", "Suggests")):
        if p.get(k): s += "%s: %s\n" % (f, ", ".join(p[k]))
    return s + p.get("extra", "") + "License: GPL-3\n"

def pkg(n, v="1.0", imp=(), **k):
    return dict(n=n, v=v, imp=list(imp), **k)

def targz(root, files):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz", compresslevel=1) as t:
        for k in sorted(files):
            i = tarfile.TarInfo(root + "/" + k); i.size = len(files[k]); i.mode = 0o644
            t.addfile(i, io.BytesIO(files[k]))
    return b.getvalue()

def pkgtar(p, origin, built=False):
    d = description(p) + ("Built: R 4.3.3; ; 2099-01-01; unix\n" if built else "")
    return targz(p["n"], {"DESCRIPTION": d.encode(), "NAMESPACE": b"exportPattern('.')\n", "R/code.R": ("%s %s %s %s\n" % (origin, "bin" if built else "src", p["n"], p["v"])).encode()})

class Demo:
    def __init__(self, r="4.3.3"):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="demo"))
        d = self.dir
        for s in ("bin", "proj", "cache", "xdg", "home", "tmp", "site", "repos"): os.makedirs(d + "/" + s)
        for n in ("R", "Rscript"):
            with open(d + "/bin/" + n, "w") as f: f.write(FAKE)
            os.chmod(d + "/bin/" + n, 0o755)
        self.pkgr = d + "/pkgr"
        subprocess.run(["bash", "-c", ". /opt/vp/env.sh; go build -buildvcs=false -o %s ./cmd/pkgr" % self.pkgr], check=True)
        self.ctl = dict(r=r, delay={}, fail={})
        self.proj, self.lib, self.cache = d + "/proj", d + "/proj/lib", d + "/cache"
        self.repos, self.urls, self.srv, self.requests, self.http_fault = [], {}, {}, [], {}
    def __enter__(self): return self
    def __exit__(self, *a):
        for s in self.srv.values(): s.shutdown()
        shutil.rmtree(self.dir, ignore_errors=True)
    def bindir(self, suffix=""):
        o = dict(l.strip().split("=", 1) for l in open("/etc/os-release") if "=" in l)
        return os.path.join("bin", "linux", o["ID"].strip('"'), o["VERSION_CODENAME"].strip('"'), suffix, "contrib", ".".join(self.ctl["r"].split(".")[:2]))
    def repo(self, name, pkgs, bins=None, http=False, suffix=""):
        base = "%s/repos/%s" % (self.dir, name)
        for sub, ps, built in (("src/contrib", pkgs, False), (self.bindir(suffix), bins, True)):
            if ps is None: continue
            os.makedirs(base + "/" + sub, exist_ok=True)
            with open(base + "/" + sub + "/PACKAGES", "w") as f: f.write("\n".join(description(p) for p in ps))
            for p in ps:
                with open("%s/%s/%s_%s%s.tar.gz" % (base, sub, p["n"], p["v"], "_R_x86_64-pc-linux-gnu" if built else ""), "wb") as f: f.write(pkgtar(p, name, built))
        if name not in self.repos: self.repos.append(name)
        if http and name not in self.srv:
            demo = self
            class H(http_handler()):
                def log_message(self, *a): pass
                def do_GET(self):
                    demo.requests.append(self.path)
                    f = next((v for k, v in demo.http_fault.items() if self.path.endswith(k)), None)
                    if f is None: return super().do_GET()
                    f(self)
            self.srv[name] = socketserver.ThreadingTCPServer(("127.0.0.1", 0), functools.partial(H, directory=base))
            self.srv[name].daemon_threads = True
            threading.Thread(target=self.srv[name].serve_forever, daemon=True).start()
            self.urls[name] = "http://127.0.0.1:%d" % self.srv[name].server_address[1]
        elif not http: self.urls[name] = base
    def config(self, packages, extra="", lib="lib", threads=None):
        t = "Version: 1\n"
        if packages: t += "Packages:\n" + "".join("  - %s\n" % p for p in packages)
        t += "Repos:\n" + "".join('  - %s: "%s"\n' % (r, self.urls[r]) for r in self.repos)
        if lib: t += "Library: %s\n" % lib
        t += "Cache: %s\nRPath: %s/bin/R\n" % (self.cache, self.dir)
        if threads: t += "Threads: %d\n" % threads
        self.write("pkgr.yml", t + extra)
    def write(self, path, text):
        p = os.path.join(self.proj, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode())
        return p
    def installed(self, n, v, content="old", extra=""):
        self.write("lib/%s/DESCRIPTION" % n, "Package: %s\nVersion: %s\n%sBuilt: R 4.0.0; ; 2098; unix\n" % (n, v, extra))
        self.write("lib/%s/R/code.R" % n, content + "\n")
    def run(self, *args, timeout=60, cwd=None, env=None):
        json.dump(self.ctl, open(self.dir + "/ctl.json", "w"))
        open(self.dir + "/events.jsonl", "w").close()
        d = self.dir
        e = dict(PATH="/usr/bin:/bin", HOME=d + "/home", XDG_CACHE_HOME=d + "/xdg", TMPDIR=d + "/tmp", LANG="C.UTF-8", NO_PROXY="*", R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE="0")
        e.update(env or {})
        e = {k: v for k, v in e.items() if v is not None}
        try:
            p = subprocess.run([self.pkgr, *args], cwd=cwd or self.proj, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
            self.out, self.exit = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            self.out, self.exit = (x.stdout or b"").decode(errors="replace"), "timeout"
        self.events = [json.loads(l) for l in open(self.dir + "/events.jsonl") if l.strip()]
        return self.exit
    def tree(self, path=None):
        root, out = path or self.lib, {}
        for dp, dn, fn in os.walk(root):
            for f in fn + [x for x in dn if not os.listdir(os.path.join(dp, x))]:
                p = os.path.join(dp, f)
                out[os.path.relpath(p, root)] = open(p, "rb").read() if os.path.isfile(p) else None
        return out
    def code(self, n):
        try: return open("%s/%s/R/code.R" % (self.lib, n)).read().strip()
        except OSError: return None
    def version(self, n):
        try: return next(l.split(":")[1].strip() for l in open("%s/%s/DESCRIPTION" % (self.lib, n)) if l.startswith("Version:"))
        except OSError: return None
    def libpkgs(self): return sorted(os.listdir(self.lib)) if os.path.isdir(self.lib) else []
    def started(self, stage=None): return [e["pkg"] for e in self.events if e["ev"] == "start" and (stage is None or e.get("stage") == stage)]
    def check(self, ok, what):
        if not ok:
            print("FAILED:", what); print(self.out[-3000:]); self.__exit__(); sys.exit(1)

def http_handler(): return http.server.SimpleHTTPRequestHandler
