PROP = "C14"
EDITS = [("cran/repodb.go", "				if res.StatusCode != 200 {\n", "				if res.StatusCode >= 300 {\n")]
NEEDS = "a server that answers the request for an index with another success status, such as 204 or 206"
BREAKS = "An empty or partial index is taken for the complete one and kept in the cache."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa")], http=True)
    d.repo("OTHER", [pkg("aa", "0.5"), pkg("bb")])
    d.config(["aa", "bb"])
    def empty(h):
        h.send_response(204); h.end_headers()
    d.http_fault["PACKAGES"] = empty
    d.run("install")
    d.check(d.libpkgs() == [] and d.exit != 0, "no installation while a repository has no index")
    d.http_fault.clear()
    d.run("install")
    d.check(d.code("aa") == "CRAN src aa 1.0", "aa is from CRAN")
'''
