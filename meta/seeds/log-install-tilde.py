PROP = "C18"
EDITS = [("configlib/config.go", """	cfg.Logging.Install = expandTilde(cfg.Logging.Install)
""", """	if cfg.Logging.Install == "" {
		cfg.Logging.Install = expandTilde(cfg.Logging.All)
	}
""")]
NEEDS = "an install log below the home directory, written with ~"
BREAKS = "The log is not written to the home directory."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa")])
    d.config(["aa"], "Logging:\\n  install: ~/install.log\\n")
    d.run("install")
    d.check(os.path.exists(d.dir + "/home/install.log"), "the log is in the home directory")
'''
