#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, note=level_note, level=level, state=state or []))

ORACLE = ("Generated-input search on the real pkgr binary built from /repo, with a stand-in for the R executable that enforces R's own rules "
          "(dependencies must be visible, library must exist, archives must be readable) and records every call. ")

prop("C01", "Dependencies are installed before dependents, each package once",
 "During an installation, R is asked to build or install a package only after every package it needs (directly or indirectly through Depends, Imports or LinkingTo) is completely installed in the target library, whatever the number of workers and however long each package takes. Every package of the plan goes through each installation step exactly once, and nothing outside the plan is installed. Individually configured tarballs are installed after all packages from repositories.",
 ["schedules","programs"], "every acyclic dependency graph, worker count, per-package duration and interleaving of parallel installations, including partly populated libraries",
 "Tests install a handful of small real packages with one timing; ordering errors only show for particular graph shapes and completion orders.",
 ["rcmd/install.go","gpsr/solution.go","gpsr/dependencies.go","rcmd/worker.go"],
 [("plan layering and release of dependents","InstallPackagePlan, ResolveLayers")],
 ["sequence of R CMD INSTALL invocations"],
 ORACLE+"Oracle: transitive dependency closure of an independent model, checked against the recorded start/end events under random delays.")

prop("C02", "A successful install yields exactly the planned library",
 "After an installation without failures, the library holds every requested package, all their required dependencies (and enabled suggestions), each with the content and version of the selected repository package, complete. Packages, files and directories that the configuration does not concern are byte for byte what they were. Nothing else is added, and nothing is removed.",
 ["inputs","configurations","histories"], "all repository contents, dependency graphs, configurations (pins, types, suggestions, ignored packages, tarballs, DESCRIPTION files) and starting libraries that are satisfiable",
 "Tests cover a few fixed configurations against real snapshots (not reachable offline) and inspect package names only.",
 ["cmd/install.go","cmd/plan.go","gpsr/solution.go","gpsr/helpers.go","rcmd/install.go","cran/pkg_nexus.go"],
 [("resolution of the required packages","ResolveInstallationReqs"),("installation of the plan","InstallPackagePlan")],
 ["files of the library"],
 ORACLE+"Oracle: an independent reference model of selection and dependency resolution; library trees are compared by content hash.")

if __name__ == "__main__":
    import importlib.util
    more = os.path.join(ROOT, "meta", "more.py")
    if os.path.exists(more):
        exec(open(more).read())
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=list(dict.fromkeys(p["files"])), mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                             state=[dict(name=x) for x in p["state"]], observe_at=p["observe"], hook_needed=None)))+"\n")
    checks = [dict(property=p["id"], quick_cmd="./check.sh "+p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh "+p["id"],
                   technique="property-based testing (rapid), generated cases against a reference model with shrinking",
                   level=p["level"], level_note=p["note"]) for p in P]
    json.dump(dict(version=1, setup_cmd="./check.sh list", checks=checks,
                   hooks=dict(guard="none", enable="no hooks: the checks build the unmodified /repo working tree", source_commits=[]),
                   not_applicable=[], notes="See DESIGN.md. Seeds come from VERIF_SEED; cases of a failing run are saved under replays/ and replayed with ./check.sh replay FILE."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties")
