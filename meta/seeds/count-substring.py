PROP = "C09"
EDITS = [("gpsr/dependencies.go", """		if funk.Contains(requiredPackages, p) && !isAdditionalPkgInstallation {
""", """		if strings.Contains(required, p) && !isAdditionalPkgInstallation {
"""), ("gpsr/dependencies.go", """	requiredPackages := ip.GetAllPackages()
""", """	requiredPackages := ip.GetAllPackages()
	required := strings.Join(requiredPackages, " ")
"""), ("gpsr/dependencies.go", """	"sort"
""", """	"sort"
	"strings"
""")]
NEEDS = "a package in the library that is not required but whose name is part of the name of a required package"
BREAKS = "The plan counts one package too few to install."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("data.table"), pkg("bb")])
    d.config(["data.table", "bb"])
    d.installed("data", "1.0")
    d.run("plan", "--logjson")
    n = [json.loads(l)["to_install"] for l in d.out.split("\\n") if '"to_install"' in l]
    d.check(n == [2], "both packages are to be installed")
'''
