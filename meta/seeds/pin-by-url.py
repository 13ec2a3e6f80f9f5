PROP = "C03"
EDITS = [("cran/pkg_nexus.go", """		if pkgcfg.Repo.Name == r.Name {
""", """		if pkgcfg.Repo.URL == r.URL {
""")]
NEEDS = "two repositories with the same URL that differ in the suffix of their binaries, and a package pinned to the second one"
BREAKS = "A package pinned to a repository is taken from the first repository with the same URL."
DEMO = '''
with Demo() as d:
    d.repo("MPNprod", [pkg("aa", "1.0")], bins=[pkg("aa", "1.0")], suffix="prod")
    d.repo("MPNprod", [pkg("aa", "1.0")], bins=[pkg("aa", "1.1")], suffix="test")
    d.repos.append("MPNtest"); d.urls["MPNtest"] = d.urls["MPNprod"]
    d.config(["aa"], "Customizations:\\n  Packages:\\n    - aa:\\n        Repo: MPNtest\\n  Repos:\\n    - MPNprod:\\n        RepoType: MPN\\n        RepoSuffix: prod\\n    - MPNtest:\\n        RepoType: MPN\\n        RepoSuffix: test\\n")
    d.run("install")
    d.check(d.exit == 0 and d.version("aa") == "1.1", "aa comes from MPNtest (1.1), not %s" % d.version("aa"))
'''
