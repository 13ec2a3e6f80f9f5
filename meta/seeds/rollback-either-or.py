PROP = "C04"
EDITS = [("rollback/operations.go", """		if err2 != nil {
			return err2
		}
	}
""", """		if err2 != nil {
			return err2
		}
		return nil
	}
""")]
NEEDS = "a failing installation in which one package is being updated while a configured tarball replaces another installed package"
BREAKS = "The rollback stops after restoring the updated packages, so that packages set aside for a tarball are not restored and their backup is deleted."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa", "2.0"), pkg("bb", "1.0")])
    d.write("tb/tarp_1.0.tar.gz", pkgtar(pkg("tarp", "1.0"), "tarball"))
    d.installed("aa", "1.0"); d.installed("tarp", "0.5", extra="PkgrVersion: 3.0.0\\n")
    d.config(["aa", "bb"], "Tarballs:\\n  - tb/tarp_1.0.tar.gz\\n")
    d.ctl["fail"] = {"bb": "exit"}
    before = d.tree()
    d.run("install")
    d.check(d.tree() == before, "the library is as before the failed installation: %s" % d.libpkgs())
    d.ctl["fail"] = {}
    d.run("install")
    d.check(d.version("aa") == "2.0" and d.version("tarp") == "1.0" and d.version("bb") == "1.0", "a later installation succeeds")
'''
