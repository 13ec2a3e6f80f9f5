PROP = "C10"
EDITS = [("rcmd/worker.go", "	wq := make(chan InstallRequest, 2000)\n	uq := make(chan InstallUpdate, 500)\n", "	wq := make(chan InstallRequest, n)\n	uq := make(chan InstallUpdate)\n")]
NEEDS = "one package whose installation makes more packages ready at once than the queue and the workers hold together (over twice the number of workers)"
BREAKS = "The handler of finished installations waits for room in the queue of requests, and all workers wait for the handler: pkgr hangs."
DEMO = '''
with Demo() as d:
    n = 40
    d.repo("CRAN", [pkg("base0")] + [pkg("p%02d" % i, imp=["base0"]) for i in range(n)])
    d.config(["p%02d" % i for i in range(n)], threads=2)
    d.run("install", timeout=120)
    d.check(d.exit == 0, "the installation ends")
    d.check(len(d.libpkgs()) == n + 1, "all packages are installed")
'''
