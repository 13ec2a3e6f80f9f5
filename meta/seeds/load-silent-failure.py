PROP = "C24"
EDITS = [("cmd/load.go", """	if cmdErr != nil {
		didSucceed = false
""", """	if cmdErr != nil {
		// R explains on stderr why a package cannot be loaded
		didSucceed = len(errLines) == 0 && errors.As(cmdErr, &exitError)
""")]
NEEDS = "a package whose loading ends R without a message, e.g. with quit(status = 1) or a crash"
BREAKS = "The package is reported as loaded."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa"), pkg("bb")])
    d.config(["aa", "bb"])
    d.run("install")
    fake = open(d.dir + "/bin/R").read()
    for n in ("R", "Rscript"):
        open(d.dir + "/bin/" + n, "w").write(fake.replace('        if not ok: print("Error: cannot load " + m.group(1), file=sys.stderr)\\n', ""))
    d.ctl["loadfail"] = ["bb"]
    d.run("load", "--json", env={"R_LIBS": d.lib})
    r = json.loads(d.out)
    d.check(r["LoadResults"]["aa"]["Success"] and not r["LoadResults"]["bb"]["Success"] and r["Failures"] == 1, "only the package that cannot be loaded is reported")
'''
