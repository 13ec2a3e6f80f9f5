PROP = "C32"
EDITS = [("gpsr/helpers.go", "	m[d.Package] = NewNode(d.Package, reqs)\n	if dependencyConfig.Suggests {\n", "	if dependencyConfig.Suggests {\n"),
 ("gpsr/helpers.go", "	if len(reqs) > 0 {\n		for _, pn := range reqs {\n", "	m[d.Package] = NewNode(d.Package, reqs)\n	if len(reqs) > 0 {\n		for _, pn := range reqs {\n")]
NEEDS = "two packages that suggest each other, both with suggestions switched on"
BREAKS = "Resolving the suggestions never ends, pkgr runs out of stack."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa", sug=["bb"]), pkg("bb", sug=["cc", "aa"]), pkg("cc")])
    d.config(["aa", "bb"], "Suggests: true\\n")
    d.run("install")
    d.check(d.exit == 0 and d.libpkgs() == ["aa", "bb", "cc"], "all three are installed")
'''
