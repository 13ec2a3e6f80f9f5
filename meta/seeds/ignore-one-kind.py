PROP = "C26"
EDITS = [("cmd/plan.go", """			delete(db.DescriptionsBySourceType[cran.Binary], pkg)
			delete(db.DescriptionsBySourceType[cran.Source], pkg)
""", """			if _, found := db.DescriptionsBySourceType[cran.Source][pkg]; found {
				delete(db.DescriptionsBySourceType[cran.Source], pkg)
			} else {
				delete(db.DescriptionsBySourceType[cran.Binary], pkg)
			}
""")]
NEEDS = "an ignored dependency that a repository with binaries provides as source package, too"
BREAKS = "The ignored package is installed as binary nevertheless."
DEMO = '''
with Demo() as d:
    d.repo("MPN", [pkg("top", imp=["low"]), pkg("low")], [pkg("top", imp=["low"]), pkg("low")])
    d.config(["top"], "IgnorePackages:\\n  - low\\nCustomizations:\\n  Repos:\\n    - MPN:\\n        RepoType: MPN\\n")
    d.run("plan", "--show-deps", "--loglevel=debug")
    d.run("install")
    d.check(not any(e.get("pkg") == "low" for e in d.events) and "low" not in d.libpkgs(), "an ignored package is not installed")
'''
