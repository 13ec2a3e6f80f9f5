PROP = "C16"
EDITS = [("rcmd/configure.go", '		evs := strings.SplitN(ev, "=", 2)\n', '		evs := strings.Split(strings.TrimRight(ev, "="), "=")\n')]
NEEDS = "an environment variable whose value contains or ends with an equals sign, such as CXXFLAGS=-std=c++17"
BREAKS = "R gets the value only up to the equals sign."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa")])
    d.config(["aa"])
    d.run("install", env={"MYFLAGS": "-std=c++17 -DX=1", "MYOPT": "on"})
    d.check(d.exit == 0 and d.libpkgs() == ["aa"], "aa is installed")
    e = next(e["env"] for e in d.events if e["ev"] == "start")
    d.check(e.get("MYOPT") == "on", "MYOPT is passed on")
    d.check(e.get("MYFLAGS") == "-std=c++17 -DX=1", "MYFLAGS is passed on unchanged")
'''
