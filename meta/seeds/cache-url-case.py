PROP = "C34"
EDITS = [("cran/utils.go", """	io.WriteString(h, r.URL)
""", """	io.WriteString(h, strings.ToLower(r.URL))
"""), ("cran/utils.go", """	"runtime"
""", """	"runtime"
	"strings"
""")]
NEEDS = "two repositories of the same name one after the other, with locations that differ in case only"
BREAKS = "The builds made for the first repository are installed for the second one."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa")])
    d.config(["aa"])
    d.run("install")
    first = d.code("aa")
    base = d.urls["CRAN"]
    other = os.path.dirname(base) + "/cran"
    os.makedirs(other + "/src/contrib")
    with open(other + "/src/contrib/PACKAGES", "w") as f: f.write(description(pkg("aa")))
    with open(other + "/src/contrib/aa_1.0.tar.gz", "wb") as f: f.write(pkgtar(pkg("aa"), "other"))
    d.urls["CRAN"] = other
    d.config(["aa"])
    shutil.rmtree(d.lib)
    d.run("install")
    d.check(first == "CRAN src aa 1.0" and d.code("aa") == "other src aa 1.0", "each repository provides its own package")
'''
