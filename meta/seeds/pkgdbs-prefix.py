PROP = "C21"
EDITS = [("cmd/cleanPkgdb.go", """			if repoDatabase.Repo.Name == dbToClear {
""", """			if strings.HasPrefix(repoDatabase.Repo.Name, dbToClear) {
""")]
NEEDS = "clean pkgdbs for a repository while another one has a name that starts with its name"
BREAKS = "The databases of the other repository are deleted, too."
DEMO = '''
with Demo() as d:
    d.repo("MPN", [pkg("aa")])
    d.repo("MPN2", [pkg("bb")])
    d.config(["aa"])
    e = dict(R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE="3600")
    d.run("plan", env=e)
    dbs = lambda: len(os.listdir(d.dir + "/xdg/pkgr/r_packagedb_caches"))
    d.check(dbs() == 2, "both databases are kept")
    d.run("clean", "pkgdbs", "--repos=MPN", env=e)
    d.check(dbs() == 1, "only the database of the named repository is deleted")
'''
