PROP = "C12"
EDITS = [("cran/download-package.go", "		if resp.StatusCode != 200 {\n", "		if resp.StatusCode >= 300 {\n")]
NEEDS = "a server or proxy that answers the request for a package with another success status, such as 206 with a part of the file"
BREAKS = "A partial file is kept in the cache as the package and used by all later installations."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa")], http=True)
    d.config(["aa"])
    def part(h):
        h.send_response(206); h.send_header("Content-Length", "20"); h.end_headers()
        h.wfile.write(open(d.dir + "/repos/CRAN/src/contrib/aa_1.0.tar.gz", "rb").read()[:20])
    d.http_fault["aa_1.0.tar.gz"] = part
    d.run("install")
    d.check(d.libpkgs() == [], "nothing is installed")
    d.http_fault.clear()
    d.run("install")
    d.check(d.exit == 0 and d.code("aa") == "CRAN src aa 1.0", "the next installation works")
'''
