PROP = "C22"
EDITS = [("rcmd/install.go", """if strings.HasPrefix(line, "Repository:") && ""","""if strings.HasPrefix(strings.TrimSpace(line), "Repository:") && """)]
NEEDS = "a DESCRIPTION with a folded field, one of whose continuation lines starts with Repository:"
BREAKS = "The continuation line is replaced by a field, so that the field that was folded is cut short."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa", extra="Notes: where it is from.\\n  Repository: the archive of the group\\n  and so on.\\n"), pkg("bb")])
    d.config(["aa", "bb"])
    d.run("install")
    d.check(d.exit == 0 and d.libpkgs() == ["aa", "bb"], "both are installed")
    t = open(d.lib + "/aa/DESCRIPTION").read()
    d.check("PkgrRepositoryURL: " in t and "PkgrVersion: " in t, "the origin is recorded")
    d.check("  Repository: the archive of the group\\n  and so on." in t, "the other field is kept")
'''
