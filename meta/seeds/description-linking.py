PROP = "C28"
EDITS = [("desc/structs.go", """	for key, value := range d.LinkingTo {
		combined[key] = value
	}
""", """	if d.NeedsCompilation {
		// headers are of no use without anything to compile
		for key, value := range d.LinkingTo {
			combined[key] = value
		}
	}
""")]
NEEDS = "a DESCRIPTION file under development, i.e. without the field NeedsCompilation that R adds to built packages, that links to a package"
BREAKS = "The packages it links to are not installed."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa"), pkg("bb"), pkg("headers")])
    d.config(["aa"], "Descriptions:\\n  - DESCRIPTION\\n")
    d.write("DESCRIPTION", "Package: mine\\nVersion: 0.1\\nImports: bb\\nLinkingTo: headers\\nLicense: GPL-3\\n")
    d.run("install")
    d.check(d.exit == 0 and d.libpkgs() == ["aa", "bb", "headers"], "all dependencies of the DESCRIPTION are installed")
'''
