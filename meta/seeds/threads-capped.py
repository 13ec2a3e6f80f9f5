PROP = "C11"
EDITS = [("cmd/utils.go", """than the threads""", """""")]
EDITS = [("cmd/utils.go", """			log.Warn("number of workers exceeds the number of threads on machine by at least 2, this may result in degraded performance")
""", """			log.Warn("number of workers exceeds the number of threads on machine by at least 2, this may result in degraded performance")
			if nworkers > 4*numCpus {
				nworkers = 4 * numCpus
			}
""")]
NEEDS = "more than four times as many threads as the machine has processors"
BREAKS = "Fewer packages are installed at the same time than requested."
DEMO = '''
with Demo() as d:
    d.repo("CRAN", [pkg("aa")])
    d.config(["aa"], threads=5000)
    d.run("plan")
    d.check("5000 workers" in d.out, "the requested number of workers is used")
'''
