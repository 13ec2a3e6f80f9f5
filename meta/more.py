prop("C03", "Packages come from the first offering or the pinned repository and type",
 "Each package is taken from the first configured repository that offers it in the wanted form, or only from the repository and in the form (source or binary) its customization names; repository-wide form settings apply to all packages not customized. A package pinned to a repository that does not offer it is not silently taken from elsewhere. Downloads go to the selected repository only.",
 ["configurations","inputs"], "every list of repositories (order, contents, source and binary indices), per-package and per-repository customizations in any combination",
 "Tests cover single customizations against fixed repository snapshots, not the interplay of order, pins and forms.",
 ["cran/pkg_nexus.go","cran/pkg_nexus.go","cmd/plan.go","cran/pkgdl.go"],
 [("selection of the repository for a package","GetPackage, GetPackageFromRepo"),("applying customizations","planInstall")],
 ["installed content, requested URLs"],
 ORACLE+"Oracle: independent selection model; installed payloads name their repository, form and version; the HTTP request log is checked.")

prop("C04", "A failed installation leaves the library as it was",
 "With rollback enabled, an installation in which any package fails to build, to install or to download leaves the library exactly as it was before: new packages are gone, updated packages are back in their previous version and content, untouched entries are unchanged, and a library that did not exist holds nothing. This holds whatever packages fail, at whatever step, and however many of them.",
 ["fault_sequences","configurations"], "every set of failing packages and steps (exit codes, half-written packages, missing build products, HTTP errors, truncated or reset downloads) in every world, including tarballs and updates",
 "Tests exercise one failing package in one fixed library; combinations of updates, tarballs, partially written packages and several failures are not reached.",
 ["rollback/operations.go","rollback/structs.go","cmd/install.go","rcmd/install.go","pacman/utils.go"],
 [("backup of packages before updating","RollbackPlan"),("restoring","RollbackPackageEnvironment")],
 ["files of the library"],
 ORACLE+"Oracle: content hash of the complete library tree before and after the failed run.", level="fault_enumeration")

prop("C06", "Only outdated packages are updated, and only when updates are enabled",
 "An installed package is replaced exactly when it is part of the plan, the selected version is newer, and updates are enabled by the configuration as overridden by the command line. Installed packages that are equal or newer, or that the configuration does not concern, are never touched, and a package is never downgraded.",
 ["histories","configurations","inputs"], "all pairs of installed and available versions, all combinations of update settings and flags",
 "Tests use a few fixed version pairs and one flag at a time.",
 ["cmd/install.go","cmd/root.go","pacman/utils.go","desc/version.go","cmd/plan.go"],
 [("detecting outdated packages","GetOutdatedPackages"),("NoUpdate / --update","rInstall, initConfig")],
 ["versions and files in the library"],
 ORACLE+"Oracle: independent version order and plan model.")

prop("C08", "Installing again changes nothing",
 "After a successful installation, running it again with the same configuration and repositories succeeds, asks R to install nothing but the individually configured tarballs, and leaves the library byte for byte as it was, whether or not the caches are still there. A plan made in between announces nothing to install or update.",
 ["histories","configurations"], "all satisfiable worlds, with caches kept, aged or removed between the runs",
 "Tests rarely run twice, and never over the breadth of configurations.",
 ["cmd/install.go","cmd/plan.go","pacman/utils.go","rcmd/install.go"],
 [("skipping installed packages","InstallPackagePlan, GetPriorInstalledPackages")],
 ["library files, R invocations of the second run"],
 ORACLE+"Oracle: metamorphic (second run is the identity).")

prop("C09", "Planning changes nothing and announces exactly what installing does",
 "Planning leaves the library, the project directory and the downloaded packages as they were, asks R to install nothing and downloads no package. The packages, versions and repositories it announces, the updates it lists and the numbers of packages to install and update are those of the installation that follows.",
 ["configurations","inputs"], "all satisfiable worlds and update settings",
 "Tests compare a few counts for fixed configurations and never check that planning is free of side effects.",
 ["cmd/plan.go","cmd/structs.go","pacman/utils.go"],
 [("plan and its announcements","planInstall, rPlan, logUserPackageRepos")],
 ["log records of plan, file system"],
 ORACLE+"Oracle: file-tree hashes around the plan run, plan model, and the library after the installation that follows.")

prop("C05", "Editing the configuration and installing again converges",
 "Whatever was installed, planned, published, cleaned or edited before, an installation that succeeds leaves the library as the current configuration and repositories require: everything planned is there in the right version and form, packages that were already there stay unless they are to be updated, and nothing else changes. Caches filled by earlier runs under other settings never change what is installed.",
 ["histories"], "all sequences of edits to the configuration, new releases in the repositories, cache clean-ups, removals from the library, plans and installations",
 "Tests start from an empty library and cache; stale state left by earlier runs under another configuration is never reached.",
 ["cmd/install.go","cran/pkg_nexus.go","cran/repodb.go","cran/pkgdl.go","rcmd/install.go","rcmd/cache.go"],
 [("cached package databases and archives","NewRepoDb, DownloadPackages, BinaryCachePath"),("installed packages","GetPriorInstalledPackages")],
 ["library after every step"],
 ORACLE+"Oracle: stateful comparison with the reference model after every successful installation; histories shrink step by step.",
 state=["library","package cache","package database cache"])

prop("C07", "Versions and dependency constraints are compared as R compares them",
 "Package versions are ordered by R's rules whatever the number of components, the separators used and the size of the numbers. A package whose constraints on another package (>=, >, <=, <, ==, !=) hold is accepted, and updates follow the same order.",
 ["inputs"], "all pairs of version strings of up to five components with separators '.' and '-', and all relations",
 "Tests check a few version strings with at most four components.",
 ["desc/version.go","pacman/utils.go","desc/dep.go","desc/dep.go"],
 [("version parsing and order","ParseVersion, CompareVersionStrings")],
 ["announced updates, versions in the library"],
 ORACLE+"Oracle: an independent implementation of R's package_version order.")

prop("C10", "A failed package is contained and reported, and installing terminates",
 "An installation always terminates, whatever packages fail: no package is attempted after one it needs has failed or before one it needs is installed, everything that was not installed is named in a warning or error, and the failure is reported as an error. Without rollback, what was installed successfully stays, complete, in the library; with rollback nothing changes; what the plan does not concern is never touched.",
 ["fault_sequences","schedules","programs"], "every dependency graph, set of failing packages, failing step, worker count and completion order",
 "Tests contain no build that fails while others run; hangs only show for particular graphs and completion orders.",
 ["rcmd/install.go","gpsr/solution.go","gpsr/dependencies.go","cmd/install.go"],
 [("releasing and blocking of dependents","InstallPackagePlan")],
 ["library, report of failed packages, termination"],
 ORACLE+"Oracle: closure of the failing packages in the dependency graph; a deadline stands for termination.", level="fault_enumeration")

prop("C11", "Exactly as many installations run in parallel as configured",
 "The number of R processes that build or install packages at the same time is limited by the threads given on the command line, else in the configuration, else by the number of available processors, at most eight; when enough packages are ready, that many do run in parallel.",
 ["schedules","configurations"], "all worker counts from the configuration, the command line or the default, and numbers of independent and dependent packages",
 "Tests never observe how many R processes run at the same time.",
 ["rcmd/install.go","rcmd/worker.go","cmd/root.go","cmd/install.go"],
 [("worker pool","InstallQueue, getWorkerCount")],
 ["overlap of R processes"],
 ORACLE+"Oracle: largest number of overlapping R processes, computed from the recorded events; a barrier in the stand-in makes each wait for the others.")

prop("C12", "The package cache only ever holds complete, correct archives",
 "Whatever happens to downloads (errors, truncation, resets, delays, the process being killed), every archive in the package cache is complete and is what the repository it is filed under published, and none is ever installed under another name, version or repository. A later run without faults succeeds, and archives that are already cached are not downloaded again.",
 ["fault_sequences","histories"], "all sequences of runs with HTTP faults of every kind at every point of a download",
 "Tests download from a working server only; interrupted downloads poison later runs only.",
 ["cran/pkgdl.go","cran/pkg_nexus.go","cran/download-package.go","cmd/install.go"],
 [("downloading to the cache","DownloadPackage, DownloadPackages")],
 ["files in the cache after each run, requested URLs"],
 ORACLE+"Oracle: content of every cached file compared with what the servers publish, the HTTP request log, and the result of a fault-free run afterwards.", level="fault_enumeration",
 state=["package cache"])

prop("C13", "Cached repository indices never describe another configuration",
 "Planning with indices that were cached by earlier runs announces exactly what planning with freshly read indices would announce, as long as the repositories have not changed: an index read for another R version, another set of repositories or other binary settings is never used in its place. Once the cached copy has expired, been cleaned or been switched off, changes of the repositories become visible; a repository that cannot be reached meanwhile is served from the cached copy.",
 ["histories","configurations"], "all sequences of planning under several configurations (R versions, repository names and order, types, suffixes), publications, expiry, clean-ups and outages",
 "Tests plan with one configuration; a copy that is reused for another configuration only shows when several share a machine.",
 ["cran/repodb.go","cran/pkg_nexus.go","cmd/cleanPkgdb.go"],
 [("cached package databases","NewRepoDb, Hash, Decode, Encode")],
 ["announced plan under each configuration"],
 ORACLE+"Oracle: differential against a planning run with an empty cache, and an independent selection model; stateful histories shrink step by step.",
 state=["package database cache"])

prop("C14", "An unreadable repository index stops the run instead of shrinking the plan",
 "When the index of any configured repository cannot be fetched or read completely (server errors, broken connections, truncated or foreign content), installing and planning fail, name the trouble and leave the library untouched, rather than continue with fewer packages. What was read from a broken index is never used by later runs: as soon as the repository works again, so does installing.",
 ["fault_sequences","inputs"], "every repository, index kind and way of failing, over one or several runs, with and without indices that are cached already",
 "Tests need working servers; no test makes an index fail.",
 ["cran/repodb.go","cran/pkg_nexus.go","cran/sync.go","cmd/plan.go"],
 [("fetching and parsing indices","FetchPackages, NewPkgDb")],
 ["exit status and library of the failing run, outcome of the run after the repair"],
 ORACLE+"Oracle: a run that depends on a broken index must be refused and leave the library alone; a fault-free run afterwards must yield the library of the reference model.", level="fault_enumeration")

prop("C15", "Repository indices are understood as R understands them",
 "Whatever legal way an index is written in (order, folding and spacing of fields, superfluous commas and blank lines, line ends), planning sees exactly the packages, versions and dependencies it describes. A version is only considered if every constraint it puts on R holds for the R version in use; of several suitable versions the newest counts, and special versions kept in separate folders never do.",
 ["inputs"], "all indices over generated packages, in all generated styles, with several versions per package and several constraints on R",
 "Tests parse a few fixed snapshots written by one tool; unusual but legal entries and combinations of constraints are not reached.",
 ["cran/repodb.go","desc/desc.go","desc/structs.go","cran/r_version.go"],
 [("reading of indices","FetchPackages, ParseDesc, NewDesc, ParseDep"),("suitability for the R version","isRVersionCompatible")],
 ["announced plan"],
 ORACLE+"Oracle: the data the index was rendered from, with an independent selection and dependency model.")

prop("C16", "R sees exactly the configured library and environment",
 "Whenever packages are built or installed, and in the sessions pkgr starts, R searches for packages in the configured library and its own installation only, whatever library settings the calling environment has, and runs with its own directory first on the executable path. Environment settings made for a package reach its build and installation exactly as written, override the calling environment, and reach no other package; all other variables of the calling environment arrive unchanged.",
 ["configurations","inputs"], "every calling environment with library settings, every set of package-specific settings, library paths and ways of naming R",
 "Tests compare one list of variables in one function; leaks between packages and from the calling environment depend on the combination.",
 ["rcmd/configure.go","rcmd/nvp.go","rcmd/Rsettings.go","rcmd/RunR.go","rcmd/install.go","cmd/run.go","configlib/config.go"],
 [("environment of R","configureEnv, LibPathsEnv, SetCustomizations")],
 ["environment recorded by the R stand-in"],
 ORACLE+"Oracle: the environment computed from the case, and the library search order of R. Variables known to hold tokens, which pkgr withholds from R, are left out, as are values with leading or trailing blanks.")

prop("C17", "Adding and removing packages edits exactly the package list",
 "After any sequence of additions and removals the configuration lists exactly the packages that result, in their previous order, however the list was written before. All other settings, remarks outside the list and the permissions of the file stay as they were, other occurrences of the names are untouched, and packages that are added with installation end up in the library.",
 ["histories","inputs"], "all sequences of additions and removals on configuration files in all generated styles",
 "Tests edit a few tidy files; style, names contained in one another and repeated edits are combinations they lack.",
 ["configlib/add_package.go","configlib/config.go","cmd/add.go","cmd/remove.go"],
 [("editing of the configuration","AddPackages, insertPackages, RemovePackage")],
 ["configuration file after each command"],
 ORACLE+"Oracle: a list model of the packages; an independent reading of the file as YAML and line by line.",
 state=["configuration file"])

prop("C18", "Configured paths mean the same wherever pkgr is started",
 "The library, package cache, local repositories, R, tarballs, DESCRIPTION files and logs named in the configuration are found relative to the configuration file, with the home directory and environment variables expanded, from whatever directory pkgr is run; paths on the command line follow the directory they were typed in. The command line overrides the environment, which overrides the configuration. Nothing is created anywhere else.",
 ["configurations","inputs"], "all combinations of places and spellings (absolute, relative, home directory, environment variable) for each configurable path, of working directories and of ways of naming the configuration",
 "Tests run from the directory of the configuration with one spelling each.",
 ["cmd/root.go","configlib/config.go","cmd/install.go","cmd/utils.go","rcmd/Rsettings.go","logger/logger.go"],
 [("expansion of paths","NewConfig, initConfig"),("library of lock files","getLibraryPath")],
 ["files that appear after an installation, library R is given"],
 ORACLE+"Oracle: the places are chosen first and then spelled; everything must appear there and nowhere else in the case directory.")

prop("C19", "Archives are unpacked completely and never outside their own folder",
 "Every regular file of a local package archive reaches R with its name, content and executability, in whatever supported compression and layout it comes, and nothing else does. Archives that are cut off, or that hold links, special files or names leading elsewhere, are refused before the library changes; no file outside the package cache and the library is ever created or overwritten.",
 ["inputs"], "all generated archives: compressions, name lengths, sizes around block borders, nesting, order and kind of entries, damage at any place",
 "Tests unpack one well-formed archive.",
 ["internal/archive/extract.go","cmd/tarballOps.go","cmd/install.go"],
 [("extraction","extractFile, unpackTarballs")],
 ["files of the installed package, files outside cache and library"],
 ORACLE+"Oracle: the entries the archive was written from, and hashes of all files outside the cache and the library. Archives without compression that are cut off are left out, as nothing marks their end.")

prop("C20", "Local archives are installed as they are now, in the order they need",
 "Each installation installs every configured local archive from its present content, whatever was installed or cached before, even if the file kept its name, and only after everything it needs, including other local archives and packages from repositories. What they need from repositories is planned and installed as for requested packages.",
 ["histories","configurations","programs"], "all sets of local archives with dependencies among one another and on repositories, changed, cached and cleaned between repeated installations",
 "Tests install one archive once from a clean cache.",
 ["cmd/tarballOps.go","cmd/install.go","cmd/plan.go","rcmd/install.go","gpsr/structs.go"],
 [("unpacking by content","unpackTarballs, getHashedTarballName"),("installation of tarballs","installAdditionalPackages")],
 ["library after each installation, sequence of R invocations"],
 ORACLE+"Oracle: the reference model with the present content of each archive; recorded start and end events of R.",
 state=["unpacked archives in the package cache"])

prop("C21", "Cleaning deletes exactly what it was asked to",
 "Each clean command removes exactly the cached data its options name: the folders of the named repositories (all by default), sources or binaries only when so restricted, indices of the named repositories, unpacked local archives. Everything else, that is other repositories, what other projects keep in a shared cache, the library and the configuration, stays as it is, and names that do not exist delete nothing. After the indices are cleaned planning sees what is published now, and whatever was cleaned is obtained again by the next installation.",
 ["configurations","histories"], "all clean commands and options over populated caches, shared or not, default or configured, run from any directory",
 "Tests clean mocked folders; what else a deletion takes along only shows on caches with several repositories and projects.",
 ["cmd/clean.go","cmd/cleanCache.go","cmd/cleanPkgdb.go","cran/repodb.go","cmd/tarballOps.go"],
 [("deletion","deleteCacheSubfolders, cleanPackageDatabases, cleanCacheFolders")],
 ["files of caches, library and configuration before and after the command"],
 ORACLE+"Oracle: the set of files each option names, computed from the world; all other files are compared by content.",
 state=["package cache","package database cache"])

prop("C22", "An installed package records where it came from, and nothing else changes",
 "After installation the DESCRIPTION of every package from a repository names that repository, its address, the version of pkgr and whether a source or binary package was used, once each. The repository it was published in originally is kept, and every other field, also folded, similar or previously recorded ones, is exactly what the package contains; packages that were installed this way are recognised as such later.",
 ["inputs","configurations"], "all generated DESCRIPTION files with repository, provenance and look-alike fields, of source and binary packages from repositories and local archives, installed freshly or from the cache",
 "Tests rewrite two or three tidy fields and compare lines.",
 ["rcmd/install.go","pacman/utils.go","rcmd/cache.go"],
 [("recording of the origin","updateDescriptionInfo, updateDescriptionInfoByLines")],
 ["DESCRIPTION files in the library after the installation, packages reported as foreign by planning"],
 ORACLE+"Oracle: an independent reader of DESCRIPTION files compares each field with the package the repository serves.")

prop("C27", "A killed run never leaves anything that later runs trip over",
 "If pkgr is killed at any moment, whichever command it runs and even while it restores the library after a failure, the next undisturbed installation succeeds without manual repair and yields the library it would have yielded otherwise. No package that was there before is lost: it is present in its old or its new version or restored by that installation; the caches hold nothing incomplete, and the configuration is the old or the new one.",
 ["crash_points","histories"], "every change pkgr makes to the file system, before it or halfway through a write, in sequences of up to three killed commands, with and without failing packages",
 "Tests never kill pkgr; a window of one system call is not hit by chance.",
 ["rcmd/install.go","rcmd/cache.go","rollback/operations.go","cran/pkgdl.go","cran/repodb.go","cmd/install.go","cmd/tarballOps.go","configlib/add_package.go","cmd/cleanCache.go"],
 [("restoring","RollbackPackageEnvironment, PreparePackagesForUpdate"),("atomic replacement","updateDescriptionInfo, DownloadPackage, Encode")],
 ["file system after each kill and after the undisturbed run"],
 ORACLE+"A tracer that follows only pkgr itself kills it before its n-th file-changing system call, or after half of a write. Oracle: the library of the reference model after an undisturbed run, content of caches and configuration after each kill.",
 level="fault_enumeration", state=["library","caches","configuration file"])

prop("C23", "Inspection and planning tell exactly what depends on what",
 "For every package of the plan, or for those named, inspection reports exactly the packages of the plan it needs, directly or through others, or with the reverse option those that need it, as a record, a tree or text. The tree shows every path of dependencies and no other, and what planning reports agrees. Nothing but the answer is written to standard output when it is to be read by programs, and the library is left alone.",
 ["inputs","configurations"], "all generated dependency graphs (with all fields, versions, suggestions and packages of R) and all options, for all packages, some, or unknown ones",
 "Tests print the tree of one repository and leave the reading to a human.",
 ["cmd/inspect.go","gpsr/dependencies.go","gpsr/helpers.go","gpsr/solution.go","cmd/plan.go"],
 [("reverse dependencies","InvertDependencies"),("trees","printDeps"),("dependency records","ResolveInstallationReqs")],
 ["standard output of inspect and plan"],
 ORACLE+"Oracle: closure and reverse closure of the reference graph.")

prop("C24", "Loading reports exactly the packages that do not load",
 "Each package requested, or each of the plan with the option for all, is loaded in a session of its own with the configured library, and the report names each once with its outcome, complete output, version, path and the libraries R searched. The counts and the overall outcome agree with the individual ones: a success is reported only if all loaded. The library is left as it is.",
 ["inputs","fault_sequences"], "all sets of broken, missing and shadowed packages, exit codes, and outputs of any length and content, with one or several libraries of R",
 "Tests load packages that exist and print nothing.",
 ["cmd/load.go","rcmd/RunR.go","rcmd/rp/lines.go","rcmd/configure.go"],
 [("report","load, makeLoadReport, addToReport"),("reading the output of R","ScanLines")],
 ["standard output of load, sessions of R"],
 ORACLE+"Oracle: which packages the stand-in for R was told to break, and what it printed.", level="fault_enumeration")

prop("C26", "What is to be ignored plays no part, and nothing else is left out",
 "Packages the configuration ignores, packages that belong to R itself and, if so configured, recommended packages that were not requested are neither planned nor installed, whoever asks for them: requested packages, dependencies, suggestions, local archives or DESCRIPTION files. Everything else is planned, and planned alike, as if the packages left out were not there.",
 ["configurations","inputs"], "all combinations of ignored, recommended and base packages in any role, requested or not, present in R's own library or not",
 "Tests ignore one dependency of one package.",
 ["cmd/plan.go","gpsr/dependencies.go","gpsr/install.go","gpsr/pkgs.go","cmd/tarballOps.go","cmd/descriptionOps.go","configlib/config.go"],
 [("ignoring packages","isExcludedPackage, ResolveInstallationReqs"),("packages of R","removeBasePackages, DefaultPackages")],
 ["plan, sequence of R invocations, library"],
 ORACLE+"Oracle: metamorphic, the plan for repositories from which the packages and all mention of them are deleted; and the reference model.")

prop("C28", "Packages named by DESCRIPTION files are requested like listed ones",
 "All that the configured DESCRIPTION files name under Depends, Imports, LinkingTo and Suggests is planned and installed exactly as if it were listed as requested, in whatever way these files are written, and in addition to what is listed. The package a file describes is not installed itself, and neither the file nor its folder changes.",
 ["inputs","configurations"], "all generated DESCRIPTION files (order of fields, folding, spacing, commas, version constraints, line ends) together with lists, ignored packages and customizations",
 "Tests read tidy files with one field each.",
 ["cmd/descriptionOps.go","desc/desc.go","desc/dep.go","cmd/plan.go"],
 [("reading","ParseDesc"),("combination of fields","GetCombinedDependencies, unpackDescriptions")],
 ["plan, library after the installation"],
 ORACLE+"Oracle: differential, the configuration that lists the same packages instead of naming the files; and the reference model.")

prop("C29", "What cannot be done is refused by name before the library changes",
 "If a request cannot be met (a package that no suitable repository offers, an unknown repository or customization, local files that are missing or unreadable, a library that may not be created, circular dependencies, an unusable configuration or R), planning and installing stop with an error that names what is wrong. The exit code tells, no package is installed, and neither the library nor any other file of the project changes.",
 ["configurations","fault_sequences"], "all kinds of unsatisfiable requests at any position among satisfiable ones, over libraries in any state",
 "Tests expect one or two messages; that nothing was touched before the error is not checked.",
 ["cmd/plan.go","cmd/install.go","cmd/root.go","cran/pkg_nexus.go","configlib/config.go","cmd/tarballOps.go","cmd/descriptionOps.go","gpsr/dependencies.go"],
 [("missing packages","planInstall, logUserPackageRepos"),("checks of the configuration","NewConfig, initConfig")],
 ["exit code, messages, files of the project and library"],
 ORACLE+"Oracle: the obstacle that was built in must be named, and file hashes must be the same before and after.", level="fault_enumeration")

prop("C30", "Log files hold what was reported, once and without secrets",
 "Each command appends every message it reports from the time the configuration is read, at the level asked for, exactly once and as one record a line to the configured log file, for installations to their own if there is one. Earlier content is kept unless overwriting is configured, no other file is written, and no access token from the environment appears in any log or on the screen.",
 ["configurations","histories"], "all sequences of up to four commands, successful or not, at all levels, with log files in any place and spelling, shared or apart, existing or not",
 "Tests write one message to one file.",
 ["logger/logger.go","cmd/install.go","cmd/add.go","cmd/plan.go","cmd/run.go","cmd/root.go","rcmd/RunR.go"],
 [("log files","AddLogFile, Fire"),("which file","initInstallLog")],
 ["log files and standard output"],
 ORACLE+"Oracle: the messages shown on the console, and tokens with known values.", state=["log files"])

prop("C32", "Suggested packages are followed exactly where asked for",
 "Suggestions of a requested package are planned and installed exactly if suggestions are switched on for it by its own customization or, failing that, for all; suggestions of those suggested packages and of mere dependencies are not followed unless switched on for them. What is followed is treated like any other request, together with everything it needs.",
 ["configurations","inputs"], "all combinations of global and individual settings over all generated graphs of dependencies and suggestions",
 "Tests switch suggestions on for one package.",
 ["cmd/plan.go","gpsr/dependencies.go","gpsr/structs.go","configlib/get_customization.go"],
 [("settings","setCfgCustomizations, setUserCustomizations"),("following suggestions","ResolveInstallationReqs")],
 ["plan, library after the installation"],
 ORACLE+"Oracle: reference model, and metamorphic: with suggestions switched off the plan is a part of this one.")

prop("C25", "Servers are trusted only if their certificates can be verified",
 "Nothing is asked of an https server whose certificate cannot be verified, be it configured or reached by redirection, unless verification is switched off by the configuration or on the command line, where the command line prevails. If such a server would have been needed, the command does not succeed and the library stays as it was; with verification switched off, or with certificates that can be verified, everything is as over plain http.",
 ["configurations","fault_sequences","histories"], "all kinds of certificates (other authority, self-signed, other host, expired, not yet valid, other use, issued by a non-authority, with an intermediate authority), for any of the repositories or targets of redirections, over sequences of commands with all settings, with and without caches",
 "No test uses TLS.",
 ["cran/repodb.go","cran/download-package.go","cran/pkg_nexus.go","cmd/root.go","cmd/plan.go","cmd/install.go"],
 [("indexes","FetchPackages"),("packages","DownloadPackage"),("settings","rootInit, NoSecure")],
 ["requests that the servers received, exit code, library"],
 ORACLE+"Oracle: which certificates are good is known by construction; servers with others must not see a single request; otherwise the reference model decides.", level="fault_enumeration", state=["database cache","package cache"])
prop("C33", "Packages go into the library of renv or packrat",
 "When the configuration names no library but renv or packrat, everything is planned, installed and shown for the library folder that renv reports when asked through R in the project, whatever else R prints, or the one that packrat has for the platform and version of R; a library named besides prevails. When neither a library nor a usable answer is there, the command fails and nothing changes. After a change of the version of R the library of the other version stays as it was.",
 ["configurations","inputs","histories"], "all kinds of lock files, folder names, platforms and versions of R, answers (amid other output, on stderr, late, cut off, empty, none, failing), libraries named in the configuration, environment or on the command line, working directories, and installations in sequence with different R",
 "The tests look at one canned answer of renv and one path of packrat.",
 ["configlib/config.go","configlib/structs.go","cmd/plan.go","cmd/install.go","cmd/inspect.go"],
 [("library of the lock file manager","getLibraryPath"),("question to renv","getRenvLibrary"),("precedence","NewConfig")],
 ["all files of the project before and after","exit code","output of inspect"],
 ORACLE+"Oracle: the folder is known by construction; installations are compared with the reference model for that folder, and all else in the project must stay the same.", state=["library","package cache"])
prop("C35", "Commands that run at the same time do not disturb each other",
 "Commands for different projects that run at the same time and share repositories, caches and local archives each have the result they would have alone, even if others of them fail or are killed at any moment. The caches they leave are good for everything that is installed later.",
 ["schedules","crash_points","fault_sequences","histories"], "two to four commands (install, plan, inspect) with generated starting times, slow and fast servers, packages and archives of all sizes, faults of R and kills at generated times, with cold, warm, and expired caches, followed by an installation of everything",
 "Tests run one command at a time, and never in several processes.",
 ["cran/download-package.go","cran/pkg_nexus.go","cran/repodb.go","cmd/install.go","cmd/plan.go","rcmd/install.go"],
 [("package cache","DownloadPackage, copies of built binaries"),("database cache","FetchPackages, Encode"),("unpacked archives","unpackTarballs")],
 ["exit code","library of each project","library of the final installation"],
 ORACLE+"Oracle: each command is compared with the reference model of its own project, and the final installation with that of all packages.", level="fault_enumeration", state=["package cache","database cache","unpacked archives"])
prop("C36", "Failing file operations neither pass for success nor cause losses",
 "Whenever a change to the file system fails or nothing more can be written, a command that reports no error has done all it was to do, packages that were installed are kept, restored, or restorable by the next installation, and packages that are not concerned, the configuration and the repositories stay as they were. Once the trouble is over the next installation does exactly what was planned, and the caches contain nothing that is damaged.",
 ["fault_sequences","histories","configurations"], "every change to a file or folder that pkgr makes (creating, writing, copying, renaming, removing, changing modes), failing once with various errors, or from some point on everywhere (no space, half of the last piece written) or below one of the folders, in sequences of commands with and without failures of R",
 "Tests never let file operations fail.",
 ["cmd/install.go","rollback/operations.go","rollback/types.go","rcmd/install.go","cran/download-package.go","cran/repodb.go","configlib/add_package.go","cmd/tarballOps.go"],
 [("backups and their restoration","PreparePackagesForUpdate, RollbackPackageEnvironment, DeleteBackupPackageFolders, RecoverBackups"),("package cache","DownloadPackage, copies of built binaries"),("database cache","Encode"),("configuration","writeConfig")],
 ["library, caches and configuration before and after","exit code and messages"],
 ORACLE+"Oracle: system calls of pkgr are made to fail by a tracer; the library is compared with the one before and the reference model, and so is that of an undisturbed run afterwards.", level="fault_enumeration", state=["library","package cache","database cache","configuration","unpacked archives"])
prop("C34", "A build is reused for what it was built for, and for nothing else",
 "A package that was built from source is not built again by later installations that use the same package cache, whatever library they install into, as long as the release of R (major and minor version), the repository and the version of the package are the same. A build made under another release of R, of another version, or of what another repository offers is never used in its place, nor is anything that was not built completely. After cleaning, packages are built again.",
 ["histories","configurations","fault_sequences"], "all sequences of up to six installations into up to three libraries, between which the version of R, the published versions, requests, customizations, order of repositories and contents of the cache change, with and without failing builds",
 "Tests install once, with one version of R.",
 ["rcmd/install.go","cran/pkgdl.go","cmd/cleanCache.go"],
 [("lookup and storage of built packages","isInCache, InstallPackagePlan"),("build","InstallThroughBinary")],
 ["what R is asked to build","release of R recorded in installed packages","library"],
 ORACLE+"Oracle: a model of which builds exist, kept over the history; installed packages must name the release of R in use and hold what the reference model selects.", state=["package cache"])
