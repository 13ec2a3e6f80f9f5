PROP = "C06"
EDITS = [("pacman/utils.go", """			if desc.CompareVersionStrings(availableVersion, installedPkg.Version) > 0 {
""", """			if availableVersion != installedPkg.Version && desc.CompareVersionStrings(availableVersion, installedPkg.Version) >= 0 {
""")]
NEEDS = "an installed version that is written differently from the available one but equal to it, such as 1.0-1 and 1.0.1"
BREAKS = "Packages whose version only differs in the separators are taken for outdated and reinstalled on every run."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa", "1.0-1"), pkg("bb", "1.0")])
    d.installed("aa", "1.0.1", content="mine")
    d.config(["aa", "bb"])
    d.run("install")
    d.check(d.exit == 0 and d.code("bb") == "CRAN src bb 1.0", "bb is installed")
    d.check(d.code("aa") == "mine", "aa 1.0.1 is not older than 1.0-1 and stays as it is")
'''
