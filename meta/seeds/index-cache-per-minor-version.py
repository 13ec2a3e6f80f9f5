PROP = "C13"
EDITS = [("cran/repodb.go", """	pkgdbFile := repoDb.GetRepoDbCacheFilePath(rVersion.ToFullString())

	if fi""", """	pkgdbFile := repoDb.GetRepoDbCacheFilePath(rVersion.ToString())

	if fi""")]
NEEDS = "two R versions that differ in the patch level only, used one after the other within an hour, and a package whose constraint on R distinguishes them"
BREAKS = "The cached index is filed under the minor version of R, so the packages that suited one patch release are used for the other."
DEMO = '''
with Demo(r="4.3.1") as d:
    d.repo("CRAN", [pkg("aa", "1.0", dep=["R (< 4.3.2)"]), pkg("aa", "2.0", dep=["R (>= 4.3.2)"])])
    d.config(["aa"])
    env = dict(R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE=None)
    d.run("plan", "--loglevel=debug", env=env)
    d.check("version=1.0" in d.out or "1.0" in d.out, "R 4.3.1 gets version 1.0")
    d.ctl["r"] = "4.3.3"
    d.run("install", env=env)
    d.check(d.exit == 0 and d.version("aa") == "2.0", "R 4.3.3 gets version 2.0, not %s" % d.version("aa"))
'''
