PROP = "C19"
EDITS = [("internal/archive/extract.go", """	if !filepath.IsLocal(fi.NameInArchive) {
		return fmt.Errorf("path not local to archive: %q", fi.NameInArchive)
	}

	filename := filepath.Join(root.Name(), fi.NameInArchive)
	mode := fi.Mode()
""", """	mode := fi.Mode()
	if mode.IsRegular() && !filepath.IsLocal(fi.NameInArchive) {
		return fmt.Errorf("path not local to archive: %q", fi.NameInArchive)
	}

	filename := filepath.Join(root.Name(), fi.NameInArchive)
""")]
NEEDS = "an archive with an entry for a directory outside of it"
BREAKS = "The archive is accepted, and the directory is created outside the folder of the archive."
DEMO = '''
def tar(extra):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        for n in extra:
            i = tarfile.TarInfo(n); i.type = tarfile.DIRTYPE; i.mode = 0o755
            t.addfile(i)
        for k, v in (("DESCRIPTION", description(pkg("aa")).encode()), ("R/code.R", b"x\\n")):
            i = tarfile.TarInfo("aa/" + k); i.size = len(v); i.mode = 0o644
            t.addfile(i, io.BytesIO(v))
    return b.getvalue()
with Demo() as d:
    d.repo("CRAN", [pkg("bb")])
    d.config(["bb"], "Tarballs:\\n  - aa_1.0.tar.gz\\n")
    d.write("aa_1.0.tar.gz", tar(["aa", "aa/inst"]))
    d.run("install")
    d.check(d.code("aa") == "x", "the archive is installed")
    d.write("aa_1.0.tar.gz", tar(["../../escaped"]))
    d.run("install")
    d.check(d.exit != 0, "an archive with a name leading elsewhere is refused")
    d.check(not os.path.exists(d.dir + "/escaped"), "nothing is created outside")
'''
