PROP = "C20"
EDITS = [("cmd/tarballOps.go", "	_, err := io.Copy(hash, tgzFile)\n", "	// the first part tells tarballs apart, no need to read data sets\n	_, err := io.Copy(hash, io.LimitReader(tgzFile, 32*1024))\n")]
NEEDS = "a local archive of more than 32 KB that changes only behind its first 32 KB between two installations"
BREAKS = "The second installation uses the old content of the archive from the cache."
DEMO = '''
import random
def tar(last):
    b = io.BytesIO()
    files = [("DESCRIPTION", description(pkg("aa", "1.0")).encode()), ("NAMESPACE", b""), ("data/big.bin", random.Random(1).randbytes(100000)), ("R/code.R", last)]
    with tarfile.open(fileobj=b, mode="w") as t:
        for k, v in files:
            i = tarfile.TarInfo("aa/" + k); i.size = len(v); i.mode = 0o644
            t.addfile(i, io.BytesIO(v))
    return gzip.compress(b.getvalue(), 1, mtime=0)
with Demo() as d:
    d.repo("CRAN", [pkg("bb")])
    d.config(["bb"], "Tarballs:\\n  - aa_1.0.tar.gz\\n")
    d.write("aa_1.0.tar.gz", tar(b"one\\n"))
    d.run("install")
    d.check(d.code("aa") == "one", "the archive is installed")
    d.write("aa_1.0.tar.gz", tar(b"two\\n"))
    d.run("install")
    d.check(d.code("aa") == "two", "the changed archive is installed")
'''
