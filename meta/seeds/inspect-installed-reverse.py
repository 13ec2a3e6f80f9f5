PROP = "C23"
EDITS = [("gpsr/dependencies.go", """	for pkg, deps := range ddb {
		for _, p := range deps {
			d := idb[p]
""", """	for pkg, deps := range ddb {
		if _, found := ip.InstalledPackages[pkg]; found {
			// nothing waits for what is there already
			continue
		}
		for _, p := range deps {
			d := idb[p]
""")]
NEEDS = "a library that contains a package of the plan which has dependencies"
BREAKS = "inspect --deps --reverse leaves out packages that are installed."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("top", imp=["mid"]), pkg("mid", imp=["low"]), pkg("low")])
    d.config(["top"])
    d.run("inspect", "--deps", "--reverse", "--json")
    before = d.out
    d.check(d.exit == 0 and "mid" in before and "top" in before, "inspect works on an empty library")
    d.run("install")
    d.check(d.exit == 0 and d.libpkgs() == ["low", "mid", "top"], "install works")
    d.run("inspect", "--deps", "--reverse", "--json")
    d.check(d.out == before, "the dependencies are the same after the installation")
'''
