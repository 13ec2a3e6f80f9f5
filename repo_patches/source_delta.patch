From 6aa40807dd6fb1e3f4613ba0ff33b0b3a5fbd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 01/64] fix: compare all version components and accept versions
 with a single one

The fifth component was never split off, so 1.0.0.1.2 and 1.0.0.1.3 parsed
as equal to 1.0.0.0, and a version without a separator crashed.
---
 desc/version.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index 84dda6c..e69fd7f 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -8,9 +8,11 @@ import (
 // ParseVersion parses a package string to a version
 func ParseVersion(v string) Version {
 	ver := Version{String: v}
-	parts := regexp.MustCompile(`[\.-]`).Split(v, 4)
+	parts := regexp.MustCompile(`[\.-]`).Split(v, -1)
 	ver.Major, _ = strconv.Atoi(parts[0])
-	ver.Minor, _ = strconv.Atoi(parts[1])
+	if len(parts) > 1 {
+		ver.Minor, _ = strconv.Atoi(parts[1])
+	}
 	if len(parts) > 2 {
 		ver.Patch, _ = strconv.Atoi(parts[2])
 	}
-- 
2.43.0


From 6bff8f6c96f0e3b859e7eb2786e1f52e86d98cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 02/64] fix: a bare R dependency does not make a package
 incompatible

'Depends: R' without a version constraint hid the package from every
version of R.
---
 cran/repodb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 07014ee..dac9f0e 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -292,6 +292,9 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 	// v2 for R >= 3.5
 	packageValid := false
 	switch pkgRConstraint.Constraint {
+	case desc.None:
+		// "Depends: R" without a version places no restriction
+		packageValid = true
 	case desc.GT:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) > 0
 	case desc.GTE:
-- 
2.43.0


From f1e67d7b71b948bb7981d9e81e94a7437af79b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 03/64] fix: accept '!=' version constraints

R allows '!=' in dependency fields; one such entry in a repository's
PACKAGES file crashed every command that reads the repository.
---
 cran/repodb.go  | 2 ++
 desc/desc.go    | 3 +++
 desc/structs.go | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index dac9f0e..e7ad68a 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -305,6 +305,8 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) <= 0
 	case desc.Equals:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) == 0
+	case desc.NotEquals:
+		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) != 0
 	default:
 		break
 	}
diff --git a/desc/desc.go b/desc/desc.go
index 7203ead..9bc31b4 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -25,6 +25,9 @@ func ParseDep(d string) Dep {
 		if strings.Contains(pv, "==") {
 			dep.Constraint = Equals
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "==", "", 1)))
+		} else if strings.Contains(pv, "!=") {
+			dep.Constraint = NotEquals
+			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "!=", "", 1)))
 		} else if strings.Contains(pv, ">=") {
 			dep.Constraint = GTE
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, ">=", " ", 1)))
diff --git a/desc/structs.go b/desc/structs.go
index 01806d7..de0c04f 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -15,6 +15,8 @@ func (c Constraint) ToString() string {
 		return "<="
 	case Equals:
 		return "=="
+	case NotEquals:
+		return "!="
 	default:
 		return "Unknown constraint"
 	}
@@ -29,6 +31,7 @@ const (
 	Equals
 	LTE
 	LT
+	NotEquals
 )
 
 // Version represents a package version
-- 
2.43.0


From 2b123c4cd311172c44f4dd2cb1c7518317562fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 04/64] fix: do not treat an unreadable repository index as an
 empty one

A repository with a single source type whose PACKAGES file could not be
fetched, was cut off or could not be parsed counted as a repository without
packages, and that was cached for an hour. Only a source type that is not
present next to one that is may be skipped.
---
 cran/repodb.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index e7ad68a..ef457b8 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -145,6 +145,8 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		St                    SourceType
 		AvailableDescriptions map[string]desc.Desc
 		Err                   error
+		// the repository does not provide this source type
+		NotPresent bool
 	}
 
 	client := &http.Client{}
@@ -175,7 +177,8 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 					downloadChannel <- downloadDatabase{
 						St:                    st,
 						AvailableDescriptions: descriptionMap,
-						Err:                   fmt.Errorf("failed fetching PACKAGES file from %s, with status %s", pkgURL, res.Status)}
+						Err:                   fmt.Errorf("failed fetching PACKAGES file from %s, with status %s", pkgURL, res.Status),
+						NotPresent:            res.StatusCode >= 400 && res.StatusCode < 500}
 					return
 				}
 				if err != nil {
@@ -195,11 +198,18 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 			} else {
 				pkgdir, _ := homedir.Expand(pkgURL)
 				pkgdir, _ = filepath.Abs(pkgdir)
-				if fi, err := os.Open(pkgdir); !os.IsNotExist(err) {
+				fi, err := os.Open(pkgdir)
+				if os.IsNotExist(err) {
+					err = fmt.Errorf("no package file found at: %s", pkgdir)
+					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err, NotPresent: true}
+					return
+				}
+				if err == nil {
 					body, err = ioutil.ReadAll(fi)
 					fi.Close()
-				} else {
-					err = fmt.Errorf("no package file found at: %s", pkgdir)
+				}
+				if err != nil {
+					err = fmt.Errorf("error reading %s: %s", pkgdir, err)
 					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
 					return
 				}
@@ -250,21 +260,27 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 
 	}
 	errorCount := 0
-	var lasterr error
+	var lasterr, fetcherr error
 	for i := 0; i < len(repoDb.DescriptionsBySourceType); i++ {
 		result := <-downloadChannel
 		if result.Err != nil {
 			log.Warnf("error downloading repo %s, type: %s, with information: %s\n", repoDb.Repo.Name, result.St, result.Err)
 			errorCount++
 			lasterr = result.Err
+			if !result.NotPresent {
+				fetcherr = result.Err
+			}
 			// if one repo fails should return the error and not continue
 			// as don't want a partial repodb as it might cause improperly pulled packages
 		} else {
 			repoDb.DescriptionsBySourceType[result.St] = result.AvailableDescriptions
 		}
 	}
+	if fetcherr != nil {
+		return fetcherr
+	}
 	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if len(repoDb.DescriptionsBySourceType) > 1 && errorCount == len(repoDb.DescriptionsBySourceType) {
+	if errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
 
-- 
2.43.0


From 78932c9e87f5bf53dc8fb0e2d41a4f28314c4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 05/64] fix: never leave an incomplete package download in the
 cache

An interrupted or failed transfer left a partial file under the final name,
which later runs took for the package. Server errors were reported as
success, and a package without a download made R install the working
directory.
---
 cran/download-package.go | 17 ++++++++++++++---
 rcmd/install.go          | 10 ++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 538efbc..123a57c 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -216,7 +216,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			}).Warn("bad server response")
 			b, _ := ioutil.ReadAll(resp.Body)
 			log.WithField("package", d.Package.Package).Println("body: ", string(b))
-			return Download{Metadata: d}, err
+			return Download{Metadata: d}, fmt.Errorf("bad server response for %s: %s", pkgdl, resp.Status)
 		}
 		from = resp.Body
 		// not sure if we need to close both from and resp.Body but shouldn't be problematic to call twice just in case
@@ -232,7 +232,9 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		defer from.Close()
 	}
 
-	file, err := fs.Create(dest)
+	// the presence of dest marks a finished download, so only move a complete
+	// file there
+	file, err := afero.TempFile(fs, filepath.Dir(dest), filepath.Base(dest)+".part")
 	if err != nil {
 		log.WithFields(log.Fields{
 			"package": d.Package,
@@ -240,9 +242,18 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		}).Warn("error downloading package, no tarball created")
 		return Download{}, err
 	}
-	defer file.Close()
 	size, err := io.Copy(file, from)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = fs.Chmod(file.Name(), 0644)
+	}
+	if err == nil {
+		err = fs.Rename(file.Name(), dest)
+	}
 	if err != nil {
+		fs.Remove(file.Name())
 		return Download{Metadata: d}, err
 	}
 
diff --git a/rcmd/install.go b/rcmd/install.go
index 28a40b3..82971a1 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -294,6 +294,16 @@ func InstallThroughBinary(
 		return res, "", err
 	}
 
+	if ir.Metadata.Path == "" {
+		// without a download there is nothing to install, an empty path would
+		// end up as the working directory
+		err := fmt.Errorf("package %s was not downloaded", ir.Package)
+		return CmdResult{
+			ExitCode: 1,
+			Stderr:   err.Error(),
+		}, "", err
+	}
+
 	tmpdir := filepath.Join(
 		os.TempDir(),
 		randomString(12),
-- 
2.43.0


From 35c1ec44ef017302d505781fc75db41b7e06dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 06/64] fix: write package database caches atomically

A run that ended while writing the cache left a truncated file that made
every run of the next hour fail.
---
 cran/repodb.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index ef457b8..27cfed5 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -69,7 +69,8 @@ func (repoDb *RepoDb) Encode(file string) error {
 	if err != nil {
 		return err
 	}
-	f, err := os.Create(file)
+	// a concurrent or later run must never see a partially written database
+	f, err := ioutil.TempFile(filepath.Dir(file), filepath.Base(file)+".part")
 	if err != nil {
 		return err
 	}
@@ -77,7 +78,17 @@ func (repoDb *RepoDb) Encode(file string) error {
 
 	// Encoding the map
 	err = e.Encode(repoDb.DescriptionsBySourceType)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Chmod(f.Name(), 0644)
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), file)
+	}
 	if err != nil {
+		os.Remove(f.Name())
 		return err
 	}
 	return nil
-- 
2.43.0


From 426cba47fda6123d3c93c3208d69c0daef0e4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 07/64] fix: put built binaries into the cache only when
 complete

A run that ended while copying a binary left a truncated file that every
later run preferred over the source package.
---
 rcmd/install.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 82971a1..669fe5a 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -489,7 +489,12 @@ func InstallPackagePlan(
 						rs.Version.ToString(),
 						filepath.Base(iu.BinaryPath),
 					)
-					_, err := goutils.Copy(iu.BinaryPath, bpath)
+					// a binary in the cache is used as is, so it must never be a partial one
+					part := bpath + "." + randomString(12)
+					_, err := goutils.Copy(iu.BinaryPath, part)
+					if err == nil {
+						err = os.Rename(part, bpath)
+					}
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
-- 
2.43.0


From d24b81c298d4c1fdde486e04b67a73a53705c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 08/64] fix: download packages before changing the library

A missing local package ended the run after outdated packages had already
been renamed to their backups and after the library had been created.
---
 cmd/install.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index b8ad05a..736c8f8 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -67,13 +67,26 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	//  as well as a master install plan to guide our process.
 	_, installPlan, rollbackPlan := planInstall(rVersion, true)
 
-	if installPlan.CreateLibrary {
-		if cfg.Strict {
-			log.WithFields(log.Fields{
-				"library": cfg.Library,
-			}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
-		}
+	if installPlan.CreateLibrary && cfg.Strict {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+		}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
+	}
+
+	// Nothing is changed in the library before all packages have been downloaded.
+	// Create a list of package download objects using our install plan and our "nexus" object.
+	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
+
+	// Retrieve a cache to store any packages we need to download for the install.
+	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
 
+	// Create a pkgMap object, which helps us with parallel downloads (?)
+	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
+	if err != nil {
+		log.Fatalf("error downloading packages: %s", err)
+	}
+
+	if installPlan.CreateLibrary {
 		err := fs.MkdirAll(cfg.Library, 0755)
 		if err != nil {
 			log.WithFields(log.Fields{
@@ -89,18 +102,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	}
 	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
-	// Create a list of package download objects using our install plan and our "nexus" object.
-	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
-
-	// Retrieve a cache to store any packages we need to download for the install.
-	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
-
-	// Create a pkgMap object, which helps us with parallel downloads (?)
-	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
-	if err != nil {
-		log.Fatalf("error downloading packages: %s", err)
-	}
-
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
 	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
-- 
2.43.0


From 43fffeaecddaf01f0958044b96376e7e8bddbad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 09/64] fix: only use completely extracted tarballs from the
 cache

After a failed or interrupted extraction the next run took the partial
directory for the package.
---
 cmd/tarballOps.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 4bbd650..60f9de0 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"fmt"
 	"github.com/metrumresearchgroup/pkgr/desc"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
 	"github.com/metrumresearchgroup/pkgr/internal/archive"
@@ -84,8 +85,15 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 			"source_tarball": path,
 		}).Debug("using cached tarball.")
 	} else {
-		err = archive.Extract(path, tarballDirectoryPath)
+		// the presence of the directory marks a complete extraction, so extract
+		// elsewhere first
+		partialPath := fmt.Sprintf("%s.part%d", tarballDirectoryPath, os.Getpid())
+		err = archive.Extract(path, partialPath)
+		if err == nil {
+			err = fs.Rename(partialPath, tarballDirectoryPath)
+		}
 		if err != nil {
+			fs.RemoveAll(partialPath)
 			logrus.WithFields(logrus.Fields{
 				"path": path,
 			}).Fatalf("error while unarchiving tarball: %s", err)
-- 
2.43.0


From 767c2cd76574db7087f94dfe4b5fefe5845b54c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 10/64] fix: account for every requested package so that
 install terminates

A package that was requested but skipped (after a failure, requested twice)
or whose binary could not be copied into the cache was never counted as
done, and the run waited forever with the library half updated.
---
 rcmd/install.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index 669fe5a..b4e2d22 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -498,6 +498,7 @@ func InstallPackagePlan(
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
+						wg.Done()
 						return
 					}
 					// want to delete binaries from the existing tmpdir
@@ -517,6 +518,7 @@ func InstallPackagePlan(
 		for p := range c {
 			if anyFailed {
 				// stop trying to install any more
+				wg.Done()
 				continue
 			}
 
@@ -525,6 +527,7 @@ func InstallPackagePlan(
 			_, seen := requestedPkgs[p]
 			if seen {
 				// should only need to request a package once to install
+				wg.Done()
 				continue
 			} else {
 				requestedPkgs[p] = true
-- 
2.43.0


From 50adcb4f0e27b22fbc6b3ea6abbdd2ef077ef928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 11/64] fix: back up a package only once when a tarball
 replaces an outdated one

The second backup and the second restore both failed, and a failed install
left the library without the package.
---
 rollback/types.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rollback/types.go b/rollback/types.go
index 9b827f8..7b20ecd 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -57,7 +57,8 @@ func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, libra
 	var overwriteAttempts []UpdateAttempt
 	for pkg := range rp.InstallPlan.AdditionalPackageSources {
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
-		if isPreinstalled {
+		// a package that is also being updated already has its backup
+		if isPreinstalled && !rp.hasUpdateBackup(pkg) {
 			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
 				Package:    pkg,
 				OldVersion: preinstPkg.Version,
@@ -69,6 +70,15 @@ func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, libra
 	rp.AdditionalPkgRollbacks = overwriteAttempts
 }
 
+func (rp *RollbackPlan) hasUpdateBackup(pkg string) bool {
+	for _, ua := range rp.UpdateRollbacks {
+		if ua.Package == pkg {
+			return true
+		}
+	}
+	return false
+}
+
 func (rp *RollbackPlan) DeleteBackupPackageFolders(fs afero.Fs) []error {
 	var errSlice []error
 	err1 := DeleteBackupPackageFolders(fs, rp.UpdateRollbacks)
-- 
2.43.0


From ec0ec1f67bb882bfa8a98cfb32bd2808f0078edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 12/64] fix: only report and count packages of the plan as
 outdated

---
 gpsr/dependencies.go |  4 +++-
 gpsr/solution.go     | 19 ++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index 0f1d113..c3ef8d8 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -147,7 +147,9 @@ func (ip *InstallPlan) GetAllPackages() []string {
 		toInstall = append(toInstall, depsList)
 	}
 	for pkg := range ip.AdditionalPackageSources {
-		toInstall = append(toInstall, pkg)
+		if !funk.ContainsString(toInstall, pkg) {
+			toInstall = append(toInstall, pkg)
+		}
 	}
 	return toInstall
 }
diff --git a/gpsr/solution.go b/gpsr/solution.go
index 3816786..b35673b 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -80,7 +80,16 @@ func ResolveInstallationReqs(
 		}
 	}
 
-	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
+	// only packages of the plan are of interest, other packages in the library are left alone
+	var plannedInstalled []string
+	for _, layer := range resolved {
+		for _, p := range layer {
+			if _, installed := preinstalledPkgs[p]; installed {
+				plannedInstalled = append(plannedInstalled, p)
+			}
+		}
+	}
+	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(plannedInstalled).Packages)
 
 	installPlan := InstallPlan{
 		StartingPackages:  resolved[0],
@@ -93,11 +102,3 @@ func ResolveInstallationReqs(
 	installPlan.Pack(pkgNexus)
 	return installPlan, nil
 }
-
-func extractNamesFromDesc(installedPackages map[string]desc.Desc) []string {
-	var installedPackageNames []string
-	for key := range installedPackages {
-		installedPackageNames = append(installedPackageNames, key)
-	}
-	return installedPackageNames
-}
-- 
2.43.0


From 052b41b81e7ec878bc1509e698608da027c34ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 13/64] fix: restore packages whose update was interrupted

---
 cmd/install.go         |  8 ++++++
 pacman/utils.go        |  8 ++++++
 rollback/operations.go | 57 +++++++++++++++++++++++++++++++++++++++---
 3 files changed, 70 insertions(+), 3 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 736c8f8..8e3c24b 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -63,6 +63,14 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	// most people should know what platform they are on
 	log.Debugln("OS Platform " + rSettings.Platform)
 
+	// Restore packages that an interrupted installation left behind as backups.
+	if err := rollback.RecoverBackups(fs, cfg.Library); err != nil {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+			"error":   err,
+		}).Fatal("could not restore packages from an interrupted installation")
+	}
+
 	// Get master object containing the packages available in each repository (pkgNexus),
 	//  as well as a master install plan to guide our process.
 	_, installPlan, rollbackPlan := planInstall(rVersion, true)
diff --git a/pacman/utils.go b/pacman/utils.go
index d6db434..ff1e9cc 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/dpastoor/goutils"
 	"github.com/metrumresearchgroup/pkgr/cran"
@@ -12,6 +13,10 @@ import (
 	"github.com/spf13/afero"
 )
 
+// BackupPrefix marks the directories that hold the previous installation of a
+// package while it is being updated.
+const BackupPrefix = "__OLD__"
+
 // GetPriorInstalledPackages ...
 func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[string]desc.Desc {
 	installed := make(map[string]desc.Desc)
@@ -27,6 +32,9 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
+		if strings.HasPrefix(pkgFolder, BackupPrefix) {
+			continue
+		}
 		descriptionFilePath := filepath.Join(libraryPath, pkgFolder, "DESCRIPTION")
 		installedPackage, err := scanInstalledPackage(descriptionFilePath, fileSystem)
 
diff --git a/rollback/operations.go b/rollback/operations.go
index fd901cf..493c3f0 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -1,10 +1,14 @@
 package rollback
 
 import (
+	"os"
+	"path/filepath"
+	"strings"
+
 	"github.com/metrumresearchgroup/pkgr/cran"
+	"github.com/metrumresearchgroup/pkgr/pacman"
 	"github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
-	"path/filepath"
 )
 
 // RollbackPackageEnvironment "executes" the given RollbackPlan, thereby resetting the environment to the state it was in before rbp.InstallPlan was applied.
@@ -69,7 +73,12 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
 		//_, err1 := fileSystem.Stat(info.BackupPackageDirectory) // Checking existence
 		if backupExists {
-			err1 := fileSystem.RemoveAll(info.BackupPackageDirectory)
+			// without its DESCRIPTION a backup is no longer restored, so that
+			// a partially deleted backup never replaces the package
+			err1 := fileSystem.Remove(filepath.Join(info.BackupPackageDirectory, "DESCRIPTION"))
+			if err1 == nil || os.IsNotExist(err1) {
+				err1 = fileSystem.RemoveAll(info.BackupPackageDirectory)
+			}
 			if err1 != nil {
 				logrus.WithFields(logrus.Fields{
 					"package":           info.Package,
@@ -83,6 +92,48 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 	return nil
 }
 
+// RecoverBackups restores the packages whose backup was left behind in the
+// library by an installation that was interrupted before it could complete or
+// roll back the update.
+func RecoverBackups(fileSystem afero.Fs, library string) error {
+	entries, err := afero.ReadDir(fileSystem, library)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return nil
+		}
+		return err
+	}
+
+	for _, entry := range entries {
+		if !entry.IsDir() || !strings.HasPrefix(entry.Name(), pacman.BackupPrefix) {
+			continue
+		}
+		pkg := strings.TrimPrefix(entry.Name(), pacman.BackupPrefix)
+		backup := filepath.Join(library, entry.Name())
+
+		complete, err := afero.Exists(fileSystem, filepath.Join(backup, "DESCRIPTION"))
+		if err != nil {
+			return err
+		}
+		if !complete {
+			// the installation was interrupted while it deleted the backup
+			if err := fileSystem.RemoveAll(backup); err != nil {
+				return err
+			}
+			continue
+		}
+
+		logrus.WithField("pkg", pkg).Warn("update was interrupted, restoring last-installed version")
+		if err := fileSystem.RemoveAll(filepath.Join(library, pkg)); err != nil {
+			return err
+		}
+		if err := fileSystem.Rename(backup, filepath.Join(library, pkg)); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAttempt) error {
 
 	if len(packageBackupInfo) == 0 {
@@ -138,7 +189,7 @@ func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdated
 
 func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) UpdateAttempt {
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
-	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
+	taggedPackageDir := filepath.Join(libraryPath, pacman.BackupPrefix+outdatedPackage.Package)
 
 	err := fileSystem.Rename(packageDir, taggedPackageDir)
 	//err := RenameDirRecursive(fileSystem, packageDir, taggedPackageDir)
-- 
2.43.0


From 2af46acb2a6789980286463b57dcf959530eccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 14/64] fix: do not crash when no packages are requested from
 repositories

---
 gpsr/solution.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index b35673b..79bbafb 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -91,8 +91,13 @@ func ResolveInstallationReqs(
 	}
 	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(plannedInstalled).Packages)
 
+	// there is nothing to resolve without packages, e.g. if there are only tarballs
+	var startingPackages []string
+	if len(resolved) > 0 {
+		startingPackages = resolved[0]
+	}
 	installPlan := InstallPlan{
-		StartingPackages:  resolved[0],
+		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
 		OutdatedPackages:  outdatedPackages,
-- 
2.43.0


From d1bec3404d3198b487dc345e358ab8224c6f1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 15/64] fix: install the Depends of tarballs and DESCRIPTION
 files

---
 desc/structs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desc/structs.go b/desc/structs.go
index de0c04f..a10ca0b 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -84,6 +84,12 @@ type Desc struct {
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
 	combined := map[string]Dep{}
 
+	for key, value := range d.Depends {
+		// the dependency on R itself is not a package
+		if key != "R" {
+			combined[key] = value
+		}
+	}
 	for key, value := range d.Imports {
 		combined[key] = value
 	}
-- 
2.43.0


From 34b073deb4185a5683eecabb165e8b86c26f7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 16/64] fix: ignore IgnorePackages in the dependencies of
 tarballs and DESCRIPTION files

---
 cmd/plan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 83490c7..fdd778a 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -187,7 +187,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		for _, tarballDesc := range tarballDescriptions {
 			tarballDeps := tarballDesc.GetCombinedDependencies(false)
 			for _, d := range tarballDeps {
-				if !funk.Contains(cfg.Packages, d.Name) {
+				if !funk.Contains(cfg.Packages, d.Name) && !funk.Contains(cfg.IgnorePackages, d.Name) {
 					cfg.Packages = append(cfg.Packages, d.Name)
 				}
 			}
@@ -203,7 +203,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		for _, desc := range descDescriptions {
 			descDeps := desc.GetCombinedDependencies(true)
 			for _, d := range descDeps {
-				if !funk.Contains(cfg.Packages, d.Name) {
+				if !funk.Contains(cfg.Packages, d.Name) && !funk.Contains(cfg.IgnorePackages, d.Name) {
 					cfg.Packages = append(cfg.Packages, d.Name)
 				}
 			}
-- 
2.43.0


From 956c0122365d1772e3c6e597032fac388261cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 17/64] fix: ignore recommended packages among suggested ones
 with NoRecommended

---
 gpsr/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 9258516..21f9066 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -62,7 +62,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 			if r != "R" && !ok {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
-				if exists {
+				if exists && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
 					appendToGraph(m, pkg, dependencyConfigs, pkgNexus)
 				}
 			}
-- 
2.43.0


From 33bed24d0d5618f8fd7cd1fbb4ba7b17cab46421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 18/64] fix: handle relative --config paths in add, remove and
 load

---
 cmd/root.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/root.go b/cmd/root.go
index d28905d..b09957a 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"fmt"
+	homedir "github.com/mitchellh/go-homedir"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/cobra"
@@ -127,6 +128,18 @@ func initConfig() {
 	}
 
 	log.Trace("attempting to load config file")
+	// the working directory changes below, so don't depend on it to find the file
+	if configPath := viper.GetString("config"); configPath != "" {
+		configPath, err := homedir.Expand(configPath)
+		if err != nil {
+			log.Fatalf("could not expand config path: %s", err)
+		}
+		configPath, err = filepath.Abs(configPath)
+		if err != nil {
+			log.Fatalf("could not determine config path: %s", err)
+		}
+		viper.Set("config", configPath)
+	}
 	configlib.NewConfig(viper.GetString("config"), &cfg)
 
 	if update {
-- 
2.43.0


From be75891827ecb714c48a0d2afa5d449f3df63f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 19/64] fix: add and remove exactly the named packages in the
 Packages section

---
 configlib/add_package.go | 95 ++++++++++++++++++++++++++++------------
 configlib/config.go      | 40 +++++++++++------
 2 files changed, 93 insertions(+), 42 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 75a816c..a0c23fc 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -35,7 +35,7 @@ func AddPackages(pkgs []string) error {
 	}
 
 	for _, p := range pkgs {
-		if funk.ContainsString(pc.Packages, p) {
+		if funk.ContainsString(pc.Packages, p) || funk.ContainsString(pkgsToInstall, p) {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
@@ -62,41 +62,80 @@ func AddPackages(pkgs []string) error {
 // 	Packages:
 // 	- dplyr
 // 	  - ggplot2
+
 func insertPackages(lines []string, pkgs ...string) []string {
-	var packageStartIndex int
-	var packagesSet bool
 	var outputLines []string
-	for i, line := range lines {
-		if strings.HasPrefix(line, "Packages:")	{
-			packagesSet = true
-			packageStartIndex = i
-		}
+	if len(pkgs) == 0 {
+		return lines
 	}
-	if packageStartIndex == 0 && !packagesSet {
-		outputLines = lines
+	key, value, err := findPackages([]byte(strings.Join(lines, "\n")))
+	if err != nil || key == nil {
+		outputLines = append(outputLines, lines...)
 		outputLines = append(outputLines, "", "Packages:")
 		for _, pkg := range pkgs {
-			outputLines = append(outputLines, "- " + pkg)
-		}
-	} else {
-		outputLines = append(outputLines, lines[:packageStartIndex+1]...)
-		// given comments might precede packages, we need to find the first non-comment line
-		var firstPackageIndex int
-		for i, l := range lines[packageStartIndex:] {
-			if strings.HasPrefix(strings.TrimSpace(l), "-") {
-				firstPackageIndex = i
-				break
-			}
+			outputLines = append(outputLines, "- "+pkg)
 		}
-		numPadding := strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
+		return outputLines
+	}
+	if !isBlockList(value) {
+		lines = expandPackages(lines, key, value)
+	}
+	padding := ""
+	if isBlockList(value) {
+		padding = strings.Repeat(" ", value.Column-1)
+	}
+	outputLines = append(outputLines, lines[:key.Line]...)
+	for _, pkg := range pkgs {
+		outputLines = append(outputLines, padding+"- "+pkg)
+	}
+	outputLines = append(outputLines, lines[key.Line:]...)
 
-		padding := strings.Repeat(" ", numPadding)
-		for _, pkg := range pkgs {
-			outputLines = append(outputLines, padding + "- " + pkg)
+	return outputLines
+}
+
+// findPackages returns the key and the value of the Packages section, which are nil
+// if there is no such section.
+func findPackages(yml []byte) (key, value *yaml.Node, err error) {
+	var doc yaml.Node
+	err = yaml.Unmarshal(yml, &doc)
+	if err != nil {
+		return nil, nil, err
+	}
+	if len(doc.Content) == 0 || doc.Content[0].Kind != yaml.MappingNode {
+		return nil, nil, nil
+	}
+	content := doc.Content[0].Content
+	for i := 0; i+1 < len(content); i += 2 {
+		if content[i].Value == "Packages" {
+			return content[i], content[i+1], nil
 		}
-		outputLines = append(outputLines, lines[packageStartIndex+1:]...)
 	}
+	return nil, nil, nil
+}
 
-	return outputLines
+// isBlockList reports whether the node is a list with one item per line
+func isBlockList(n *yaml.Node) bool {
+	return n.Kind == yaml.SequenceNode && n.Style&yaml.FlowStyle == 0 && len(n.Content) > 0
+}
 
-}
\ No newline at end of file
+// expandPackages rewrites a Packages section without items, or with the items in
+// brackets, to have one item per line.
+func expandPackages(lines []string, key, value *yaml.Node) []string {
+	out := append([]string{}, lines[:key.Line-1]...)
+	first := lines[key.Line-1]
+	last := key.Line - 1
+	rest := ""
+	if value.Kind == yaml.SequenceNode {
+		for last < len(lines)-1 && !strings.Contains(lines[last], "]") {
+			last++
+		}
+		rest = lines[last][strings.Index(lines[last], "]")+1:]
+	} else if i := strings.Index(first, "#"); i >= 0 {
+		rest = " " + first[i:]
+	}
+	out = append(out, strings.TrimRight(first[:strings.Index(first, ":")+1]+rest, " "))
+	for _, item := range value.Content {
+		out = append(out, "- "+item.Value)
+	}
+	return append(out, lines[last+1:]...)
+}
diff --git a/configlib/config.go b/configlib/config.go
index 72a20fe..d0e51c8 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -15,6 +15,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
+	"gopkg.in/yaml.v3"
 
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
@@ -253,23 +254,34 @@ func remove(ymlfile string, packageName string) error {
 	if err != nil {
 		return err
 	}
-	var out []byte
-	i := 0
-	lines := bytes.Split(yf, []byte("\n"))
-	for _, line := range lines {
-		i++
-		// trim the line to detect the start of the list of packages
-		// but do not write the trimmed string as it may cause an
-		// unneeded file diff to the yml file
-		sline := bytes.TrimLeft(line, " ")
-		if bytes.HasPrefix(sline, []byte("- "+packageName)) {
-			continue
+	key, value, err := findPackages(yf)
+	if err != nil {
+		return err
+	}
+	if key == nil || value.Kind != yaml.SequenceNode {
+		return nil
+	}
+	lines := strings.Split(string(yf), "\n")
+	if !isBlockList(value) {
+		lines = expandPackages(lines, key, value)
+		_, value, err = findPackages([]byte(strings.Join(lines, "\n")))
+		if err != nil {
+			return err
+		}
+	}
+	drop := make(map[int]bool)
+	for _, item := range value.Content {
+		if item.Value == packageName {
+			drop[item.Line-1] = true
 		}
-		out = append(out, line...)
-		if i < len(lines) {
-			out = append(out, []byte("\n")...)
+	}
+	var kept []string
+	for i, line := range lines {
+		if !drop[i] {
+			kept = append(kept, line)
 		}
 	}
+	out := []byte(strings.Join(kept, "\n"))
 	err = afero.WriteFile(appFS, ymlfile, out, fi.Mode())
 	if err != nil {
 		return err
-- 
2.43.0


From 5ae65bbac565451447b5d7be3194911716ed309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 20/64] fix: apply the documented limit of eight workers by
 default

---
 cmd/load.go         | 2 +-
 configlib/config.go | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/load.go b/cmd/load.go
index d57d5e7..0dc95de 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -57,7 +57,7 @@ loaded from the expected library.`,
 			}).Fatal("error getting absolute Path for R directory")
 		}
 
-		load(cfg.Packages, rs, rDir, cfg.Threads, all, json)
+		load(cfg.Packages, rs, rDir, getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)), all, json)
 	},
 }
 
diff --git a/configlib/config.go b/configlib/config.go
index d0e51c8..8165e8b 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
-	"runtime"
 	"strings"
 
 	homedir "github.com/mitchellh/go-homedir"
@@ -216,8 +215,8 @@ func loadDefaultSettings() {
 	viper.SetDefault("loglevel", "info")
 	// path to R on system, defaults to R in path
 	viper.SetDefault("rpath", "R")
-	// setting this to GOMAXPROCS(0) because NumCPU() won't work well with the scheduler.
-	viper.SetDefault("threads", runtime.GOMAXPROCS(0))
+	// the number of workers is chosen when it is needed if it is not set
+	viper.SetDefault("threads", 0)
 }
 
 // IsCustomizationSet ...
-- 
2.43.0


From 90a69e97d2971fbd99cce1da7e7544b43c25e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 21/64] fix: clean extracted tarballs of the default cache and
 handle a missing cache

---
 cmd/cleanCache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 923c19c..1c554dd 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -113,7 +113,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cfg.Cache, hashedDirectoryName))
+		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
@@ -136,10 +136,10 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
-	defer cacheDirFsObject.Close()
 	if err != nil {
 		return err
 	}
+	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
 	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
-- 
2.43.0


From 55ee99b4135b8d345d32b9e935ea774107289bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 22/64] fix: preserve the other fields and the repository of a
 DESCRIPTION

---
 rcmd/install.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index b4e2d22..85c1047 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -619,14 +619,14 @@ func updateDescriptionInfoByLines(lines []string, version, installType, repoURL,
 		//log.Info("Starting repo: " + repo)
 
 		// Don't add these lines to final set, if they exist. This way, we can add/"overwrite" them at the end.
-		if strings.Contains(line, "PkgrVersion:") ||
-			strings.Contains(line, "PkgrInstallType:") ||
-			strings.Contains(line, "PkgrRepositoryURL") {
+		if strings.HasPrefix(line, "PkgrVersion:") ||
+			strings.HasPrefix(line, "PkgrInstallType:") ||
+			strings.HasPrefix(line, "PkgrRepositoryURL:") {
 			continue
 		}
 
 		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
-			originalRepo := strings.Trim(strings.Split(line, ":")[1], " ")
+			originalRepo := strings.TrimSpace(strings.TrimPrefix(line, "Repository:"))
 			newLines = append(newLines, "OriginalRepository: "+originalRepo)
 			line = "Repository: " + repo
 		}
-- 
2.43.0


From a2dd5f3a7632332ace9a974e1505a252d308ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 23/64] fix: accept library paths that contain "="

---
 rcmd/nvp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/nvp.go b/rcmd/nvp.go
index 76b3265..cc183f5 100644
--- a/rcmd/nvp.go
+++ b/rcmd/nvp.go
@@ -12,7 +12,7 @@ func (list *NvpList) Append(name, value string) {
 
 // AppendNvp append a string of name=value pair to the list as an Nvp object
 func (list *NvpList) AppendNvp(nvp string) {
-	b := strings.Split(nvp, "=")
+	b := strings.SplitN(nvp, "=", 2)
 	if len(b) == 2 {
 		list.Append(b[0], b[1])
 	}
-- 
2.43.0


From 0edd2bf5be87f00bf2e6b219a76eeb047553579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 24/64] fix: keep the type of the repository for packages with
 a Repo customization

---
 cran/pkg_nexus.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cran/pkg_nexus.go b/cran/pkg_nexus.go
index c235fa4..d6d7146 100644
--- a/cran/pkg_nexus.go
+++ b/cran/pkg_nexus.go
@@ -126,14 +126,14 @@ func isCorrectRepo(pkg string, r RepoURL, cfg map[string]PkgConfig) bool {
 
 // GetPackage gets a package from the package database, returning the first match
 func (pkgNexus *PkgNexus) GetPackage(pkg string) (desc.Desc, PkgConfig, bool) {
-	cfg, exists := pkgNexus.Config.Packages[pkg]
+	cfg := pkgNexus.Config.Packages[pkg]
 	st := pkgNexus.DefaultSourceType
-	if exists && cfg.Type != Default {
+	if cfg.Type != Default {
 		st = cfg.Type
 	}
 	for _, db := range pkgNexus.Db {
 		rst := st
-		if db.DefaultSourceType != rst && !exists && db.DefaultSourceType != Default {
+		if db.DefaultSourceType != rst && cfg.Type == Default && db.DefaultSourceType != Default {
 			rst = db.DefaultSourceType
 		}
 		// For now package existence is checked exactly as the package is specified
-- 
2.43.0


From 56426478c9bd66f5e8a15ffb86c6fa27b6fe624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 25/64] fix: do not share a cached package database between
 repository suffixes

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 27cfed5..9f8f696 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -105,7 +105,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+repoDb.RepoSuffix+fmt.Sprint(stsum)+rVersion)
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From 42278b2cf52ccb31bda837f65893bd3eba97a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 26/64] fix: write the log of all commands to the configured
 file

---
 cmd/cleanCache.go | 3 +++
 cmd/cleanPkgdb.go | 2 ++
 cmd/load.go       | 1 +
 cmd/plan.go       | 2 ++
 cmd/run.go        | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 1c554dd..1761199 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -25,6 +25,8 @@ import (
 	"github.com/dpastoor/goutils"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
+
+	"github.com/metrumresearchgroup/pkgr/logger"
 )
 
 //var cleanAllFromCache bool
@@ -61,6 +63,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	cleanCacheFolders()
 	return nil
 }
diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index 09a5124..b444078 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -18,6 +18,7 @@ import (
 	"strings"
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	log "github.com/sirupsen/logrus"
@@ -48,6 +49,7 @@ func init() {
 // Using a "middle man" function here allows us to call the cleanPackageDatabases function from the "clean"
 // command when "pkgr clean --all" is run. Without the middle man, passing in arguments becomes strange.
 func executeCommand(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	return cleanPackageDatabases(pkgdbsToClearArgument)
 }
 
diff --git a/cmd/load.go b/cmd/load.go
index 0dc95de..1b6c5be 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -36,6 +36,7 @@ loaded from the expected library.`,
   # Load the above packages and all their dependencies
   pkgr load --json --all`,
 	Run: func(cmd *cobra.Command, args []string) {
+		logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 		all := viper.GetBool("all")
 		json := viper.GetBool("json")
 
diff --git a/cmd/plan.go b/cmd/plan.go
index fdd778a..05fadf4 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -42,6 +42,7 @@ import (
 	"github.com/metrumresearchgroup/pkgr/configlib"
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
+	"github.com/metrumresearchgroup/pkgr/logger"
 )
 
 // planCmd shows the install plan
@@ -65,6 +66,7 @@ func init() {
 }
 
 func plan(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	log.Infof("Installation would launch %v workers\n", getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)))
 	rs := rcmd.NewRSettings(cfg.RPath)
 	rVersion := rcmd.GetRVersion(&rs)
diff --git a/cmd/run.go b/cmd/run.go
index af34d99..3deb5ef 100644
--- a/cmd/run.go
+++ b/cmd/run.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 
 	"github.com/spf13/cobra"
@@ -53,6 +54,7 @@ configuration file.
 
 func rRun(cmd *cobra.Command, args []string) error {
 
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	rs := rcmd.NewRSettings(cfg.RPath)
 	// installation through binary doesn't do this exactly, but its pretty close
 	// at least for experimentation for now. If necessary can refactor out the
-- 
2.43.0


From 91d1d4a335661b21394c3b7288203dd066949477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 27/64] fix: keep library and PATH settings of the system from
 affecting R

---
 rcmd/configure.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 4a73e6b..b8e4658 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -46,6 +46,11 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			// not be representative of the hierarchy specified
 			// in Library/Libpaths in the pkgr configuration
 			// we only want R_LIBS_SITE set to control all relevant library paths for the user to
+			// R_LIBS takes precedence over both
+			if evs[0] == "R_LIBS" {
+				log.WithField("path", evs[1]).Debug("overriding system R_LIBS")
+				continue
+			}
 			if evs[0] == "R_LIBS_USER" {
 				log.WithField("path", evs[1]).Debug("overriding system R_LIBS_USER")
 				continue
@@ -56,7 +61,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			}
 			if evs[0] == "PATH" {
 				rDir := filepath.Dir(rs.Rpath)
-				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
+				if rDir != "" && rDir != "." && strings.Split(evs[1], ":")[0] != rDir {
 					evs[1] = fmt.Sprintf("%s:%s", rDir, evs[1])
 					log.WithField("path", evs[1]).Debug("adding Rpath to front of system PATH")
 				}
-- 
2.43.0


From 67aa705cf5891736315f71fc98785064405feb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 28/64] fix: keep built binaries apart from those downloaded
 from the repository

---
 rcmd/install.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 85c1047..b7f85eb 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -221,6 +221,10 @@ func Install(
 	return cmdResult, err
 }
 
+// builtDir is the cache folder of the binaries built by pkgr, below the one of
+// the binaries downloaded from the repository
+const builtDir = "built"
+
 // isInCache notes if package binary already available in cache
 // and returns a new installrequest based on the binary path if available
 func isInCache(
@@ -232,13 +236,18 @@ func isInCache(
 	pkg := ir.Metadata.Metadata.Package
 
 	repoHash := cran.RepoURLHash(meta.Metadata.Config.Repo)
-	bpath := filepath.Join(
+	bdir := filepath.Join(
 		pc.BaseDir,
 		repoHash,
 		"binary",
 		ir.RSettings.Version.ToString(),
-		binaryName(pkg.Package, pkg.Version, ir.RSettings.Platform),
 	)
+	if meta.Metadata.Config.Type == cran.Source {
+		// a binary from the repository is no substitute for a package that is
+		// to be installed from source, nor the other way around
+		bdir = filepath.Join(bdir, builtDir)
+	}
+	bpath := filepath.Join(bdir, binaryName(pkg.Package, pkg.Version, ir.RSettings.Platform))
 	exists, err := goutils.Exists(fs, bpath)
 	if !exists || err != nil {
 		log.WithFields(log.Fields{
@@ -483,12 +492,9 @@ func InstallPackagePlan(
 						filepath.Dir(filepath.Dir(pkg.Path)),
 						"binary",
 					)
-					os.Mkdir(bdir, 0777)
-					bpath := filepath.Join(
-						bdir,
-						rs.Version.ToString(),
-						filepath.Base(iu.BinaryPath),
-					)
+					bdir = filepath.Join(bdir, rs.Version.ToString(), builtDir)
+					os.MkdirAll(bdir, 0777)
+					bpath := filepath.Join(bdir, filepath.Base(iu.BinaryPath))
 					// a binary in the cache is used as is, so it must never be a partial one
 					part := bpath + "." + randomString(12)
 					_, err := goutils.Copy(iu.BinaryPath, part)
-- 
2.43.0


From 068836212f5475824094a43f1400db8a24b6ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 29/64] fix: do not share downloaded binaries between
 repository suffixes

---
 cran/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cran/utils.go b/cran/utils.go
index a9cc0d2..43f769f 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -162,6 +162,10 @@ func RepoURLHash(r RepoURL) string {
 	h := md5.New()
 	// don't hash everything as still want a reasonable identifier
 	io.WriteString(h, r.URL)
+	if r.Suffix != "" {
+		// binaries below another suffix are different ones
+		io.WriteString(h, "/"+r.Suffix)
+	}
 	urlHash := fmt.Sprintf("%x", h.Sum(nil))
 	return r.Name + "-" + urlHash[:12]
 }
-- 
2.43.0


From f1e5ba79bb496a55e5bf43ace0dc0a6ec178dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 30/64] fix: name every package that was not installed, also
 those without dependencies

---
 rcmd/install.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index b7f85eb..d838051 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -560,7 +560,8 @@ func InstallPackagePlan(
 	wg.Wait()
 
 	log.WithField("duration", time.Since(startTime)).Debug("user package install time")
-	for pkg := range plan.DepDb {
+	for _, d := range plan.PackageDownloads {
+		pkg := d.Package.Package
 		_, exists := installedPkgs[pkg]
 		if !exists {
 			log.Errorf("did not install %s", pkg)
-- 
2.43.0


From 9bb9299cbc3282e1f59141a71f8d21a66e21eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 31/64] fix: do not share a cached package database between
 configurations with and without binaries

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 9f8f696..2977a0d 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -105,7 +105,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+repoDb.RepoSuffix+fmt.Sprint(stsum)+rVersion)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+repoDb.RepoSuffix+fmt.Sprint(int(stsum))+rVersion)
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From 5ade7fda514bd8f603fcb941e00da77626b466ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 32/64] fix: refuse a repository index that does not describe
 packages

---
 cran/repodb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 2977a0d..7f33073 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -242,6 +242,10 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				}
 				reader := bytes.NewReader(pkg)
 				pkgDesc, err := desc.ParseDesc(reader)
+				if err == nil && pkgDesc.Package == "" {
+					// anything with a colon parses, e.g. the login page of a proxy
+					err = fmt.Errorf("%s does not describe packages", pkgURL)
+				}
 
 				if err != nil {
 					fmt.Println("problem parsing package with info ", string(pkg))
-- 
2.43.0


From f1d3ee8c0b5fb6192b9802df91fbe2160b32b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 33/64] fix: ignore superfluous commas in dependency fields

---
 desc/desc.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/desc/desc.go b/desc/desc.go
index 9bc31b4..3dc522d 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -76,12 +76,20 @@ func NewDesc(d desc) Desc {
 	if len(d.Imports) > 0 {
 		for _, dp := range d.Imports {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// R accepts superfluous commas
+				continue
+			}
 			dsc.Imports[dep.Name] = dep
 		}
 	}
 	if len(d.Suggests) > 0 {
 		for _, dp := range d.Suggests {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// R accepts superfluous commas
+				continue
+			}
 			dsc.Suggests[dep.Name] = dep
 		}
 
@@ -89,12 +97,20 @@ func NewDesc(d desc) Desc {
 	if len(d.Depends) > 0 {
 		for _, dp := range d.Depends {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// R accepts superfluous commas
+				continue
+			}
 			dsc.Depends[dep.Name] = dep
 		}
 	}
 	if len(d.LinkingTo) > 0 {
 		for _, dp := range d.LinkingTo {
 			dep := ParseDep(dp)
+			if dep.Name == "" {
+				// R accepts superfluous commas
+				continue
+			}
 			dsc.LinkingTo[dep.Name] = dep
 		}
 	}
-- 
2.43.0


From 81db1e0fd5bd3597452e9279f91786a3a525522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 34/64] fix: tolerate blank lines between and after the
 packages of an index

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 7f33073..80be5e6 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -233,7 +233,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				"num_pkgs": len(parsedPackagesFile),
 			}).Debug("potential packages")
 			for _, pkg := range parsedPackagesFile {
-				if len(pkg) == 0 {
+				if len(bytes.TrimSpace(pkg)) == 0 {
 					// end of file might have double spaces
 					// and thus will be one split, so want
 					// to skip that
-- 
2.43.0


From d3b1aa9b01b6f0c4f9fff9014126cc9146cc6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 35/64] fix: respect all constraints on R if a package has
 several

---
 cran/repodb.go  | 3 +++
 desc/desc.go    | 4 ++++
 desc/structs.go | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 80be5e6..3f7b689 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -308,6 +308,9 @@ func isRVersionCompatible(pkgDesc desc.Desc, rVersion RVersion) (desc.Dep, bool)
 	if present {
 		packageValid = checkRVersionCompatibility(rVersion, pkgRConstraint)
 	}
+	for _, constraint := range pkgDesc.FurtherRConstraints {
+		packageValid = packageValid && checkRVersionCompatibility(rVersion, constraint)
+	}
 	return pkgRConstraint, packageValid
 }
 
diff --git a/desc/desc.go b/desc/desc.go
index 3dc522d..f79fedc 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -101,6 +101,10 @@ func NewDesc(d desc) Desc {
 				// R accepts superfluous commas
 				continue
 			}
+			if prior, ok := dsc.Depends["R"]; ok && dep.Name == "R" {
+				// eg R (>= 3.5), R (< 4.1)
+				dsc.FurtherRConstraints = append(dsc.FurtherRConstraints, prior)
+			}
 			dsc.Depends[dep.Name] = dep
 		}
 	}
diff --git a/desc/structs.go b/desc/structs.go
index a10ca0b..cf3b4c8 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -76,6 +76,8 @@ type Desc struct {
 	Suggests           map[string]Dep
 	Depends            map[string]Dep
 	LinkingTo          map[string]Dep
+	// constraints on R besides the one in Depends, if there are several
+	FurtherRConstraints []Dep
 	PkgrVersion        string
 	PkgrInstallType    string
 	PkgrRepositoryURL  string
-- 
2.43.0


From ee7051cc2f0addb5dffb9d98749b68bdeb0585da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 36/64] fix: use the newest of several suitable versions in an
 index

---
 cran/repodb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 3f7b689..6da1255 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -261,6 +261,11 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				// as such, for now we'll just discard if its one of those until we can
 				// more comprehensively teach pkgr what it should do in such a situation
 				if packageValid && pkgDesc.Path == "" {
+					prior, listed := descriptionMap[pkgDesc.Package]
+					if listed && desc.CompareVersionStrings(prior.Version, pkgDesc.Version) > 0 {
+						// R also uses the newest of several suitable versions
+						continue
+					}
 					descriptionMap[pkgDesc.Package] = pkgDesc
 				} else {
 					log.WithFields(log.Fields{
-- 
2.43.0


From 7daf2252f64fb8bc1f062d892902b413112f0e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 37/64] fix: find the end of a bracketed Packages list despite
 remarks

---
 configlib/add_package.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index a0c23fc..922263c 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -118,6 +118,34 @@ func isBlockList(n *yaml.Node) bool {
 	return n.Kind == yaml.SequenceNode && n.Style&yaml.FlowStyle == 0 && len(n.Content) > 0
 }
 
+// endOfBrackets returns the line a list in brackets ends on, and what follows there.
+func endOfBrackets(lines []string, value *yaml.Node) (last int, rest string) {
+	for last = value.Line - 1; last < len(lines); last++ {
+		line := lines[last]
+		start := 0
+		if last == value.Line-1 {
+			start = value.Column
+		}
+		var quote byte
+		for i := start; i < len(line); i++ {
+			switch c := line[i]; {
+			case quote != 0:
+				if c == quote {
+					quote = 0
+				}
+			case c == '"' || c == '\'':
+				quote = c
+			case c == '#' && (i == 0 || line[i-1] == ' ' || line[i-1] == '\t'):
+				// the rest of the line is a comment
+				i = len(line)
+			case c == ']':
+				return last, line[i+1:]
+			}
+		}
+	}
+	return len(lines) - 1, ""
+}
+
 // expandPackages rewrites a Packages section without items, or with the items in
 // brackets, to have one item per line.
 func expandPackages(lines []string, key, value *yaml.Node) []string {
@@ -126,10 +154,7 @@ func expandPackages(lines []string, key, value *yaml.Node) []string {
 	last := key.Line - 1
 	rest := ""
 	if value.Kind == yaml.SequenceNode {
-		for last < len(lines)-1 && !strings.Contains(lines[last], "]") {
-			last++
-		}
-		rest = lines[last][strings.Index(lines[last], "]")+1:]
+		last, rest = endOfBrackets(lines, value)
 	} else if i := strings.Index(first, "#"); i >= 0 {
 		rest = " " + first[i:]
 	}
-- 
2.43.0


From d7a404cb6d2c0a54d911567ff7be7f61307c6f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 38/64] fix: find R by a path relative to the configuration
 file or to the home directory

---
 configlib/config.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index 8165e8b..6b30160 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -44,6 +44,8 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 		log.Fatalf("error parsing pkgr.yml: %s\n", err)
 	}
 
+	cfg.RPath = absoluteRPath(expandTilde(cfg.RPath), filepath.Dir(viper.ConfigFileUsed()))
+
 	if len(cfg.Library) == 0 {
 		rs := rcmd.NewRSettings(cfg.RPath)
 		rVersion := rcmd.GetRVersion(&rs)
@@ -52,7 +54,6 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 
 	// For all cfg	values that can be repos, make sure that ~ is expanded to the home directory.
 	cfg.Library = expandTilde(cfg.Library)
-	cfg.RPath = expandTilde(cfg.RPath)
 	cfg.Tarballs = expandTildes(cfg.Tarballs)
 	cfg.Descriptions = expandTildes(cfg.Descriptions)
 	cfg.Repos = expandTildesRepos(cfg.Repos)
@@ -63,6 +64,22 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 	return
 }
 
+// absoluteRPath makes the path to the R executable independent of the working directory,
+// because R is started in other directories. A plain name is looked up in PATH.
+func absoluteRPath(rpath string, dir string) string {
+	if !strings.ContainsRune(rpath, filepath.Separator) || filepath.IsAbs(rpath) {
+		return rpath
+	}
+	abs, err := filepath.Abs(filepath.Join(dir, rpath))
+	if err != nil {
+		log.WithFields(log.Fields{
+			"path":  rpath,
+			"error": err,
+		}).Fatal("problem parsing config file -- could not determine path of R")
+	}
+	return abs
+}
+
 /// expand the ~ at the beginning of a path to the home directory.
 /// consider any problems a fatal error.
 func expandTilde(p string) string {
-- 
2.43.0


From d1e1c509976f6d645ae1836ab1c5ef3ce66178a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 39/64] fix: install tarball packages after those they need

---
 cmd/install.go    | 33 ++++++++++++++++++++++++++++++++-
 cmd/tarballOps.go |  6 +++++-
 gpsr/structs.go   |  1 +
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 8e3c24b..9a0cfb3 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"time"
 
 	"github.com/metrumresearchgroup/pkgr/gpsr"
@@ -167,6 +168,34 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	return nil
 }
 
+// orderAdditionalPackages returns the names of the packages such that those that need others come after them.
+func orderAdditionalPackages(additionalPkgs map[string]gpsr.AdditionalPkg) []string {
+	var names []string
+	for name := range additionalPkgs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	var ordered []string
+	visited := make(map[string]bool)
+	var visit func(name string)
+	visit = func(name string) {
+		additionalPkg, ok := additionalPkgs[name]
+		if !ok || visited[name] {
+			return
+		}
+		visited[name] = true
+		for _, need := range additionalPkg.Needs {
+			visit(need)
+		}
+		ordered = append(ordered, name)
+	}
+	for _, name := range names {
+		visit(name)
+	}
+	return ordered
+}
+
 func installAdditionalPackages(installPlan gpsr.InstallPlan, rSettings rcmd.RSettings, library, cache string) error {
 
 	toInstallCount := len(installPlan.AdditionalPackageSources) - 1
@@ -189,7 +218,9 @@ func installAdditionalPackages(installPlan gpsr.InstallPlan, rSettings rcmd.RSet
 
 	var errorAggregator []error
 
-	for pkgName, additionalPkg := range installPlan.AdditionalPackageSources {
+	for _, pkgName := range orderAdditionalPackages(installPlan.AdditionalPackageSources) {
+
+		additionalPkg := installPlan.AdditionalPackageSources[pkgName]
 
 		log.WithFields(log.Fields{
 			"package":    pkgName,
diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 60f9de0..ef4bd39 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -42,7 +42,11 @@ func unpackTarballs(fs afero.Fs, tarballs []string, cache string) ([]desc.Desc,
 			}).Fatal("error parsing DESCRIPTION file for tarball package")
 		}
 		descriptions = append(descriptions, desc)
-		untarredMap[desc.Package] = gpsr.AdditionalPkg{InstallPath: untarredFolder, OriginPath: tarballPath, Type: "tarball"}
+		var needs []string
+		for name := range desc.GetCombinedDependencies(false) {
+			needs = append(needs, name)
+		}
+		untarredMap[desc.Package] = gpsr.AdditionalPkg{InstallPath: untarredFolder, OriginPath: tarballPath, Type: "tarball", Needs: needs}
 	}
 
 	return descriptions, untarredMap
diff --git a/gpsr/structs.go b/gpsr/structs.go
index ae4c550..9b038db 100644
--- a/gpsr/structs.go
+++ b/gpsr/structs.go
@@ -21,6 +21,7 @@ type AdditionalPkg struct {
 	InstallPath string
 	OriginPath  string
 	Type        string
+	Needs       []string // Names of the packages that have to be installed before.
 }
 
 // PkgDeps contains which dependencies should be installed
-- 
2.43.0


From 46ab2744a7badfd082596b0ce4d049042d41f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 40/64] fix: never leave a partially written configuration
 behind

---
 configlib/add_package.go | 37 +++++++++++++++++++++++++++++++++++--
 configlib/config.go      | 10 ++--------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 922263c..d1e7263 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -4,12 +4,14 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
-	"github.com/dpastoor/goutils"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
 	"github.com/thoas/go-funk"
 	"gopkg.in/yaml.v3"
+	"io/ioutil"
+	"os"
+	"path/filepath"
 	"strings"
 )
 
@@ -42,7 +44,38 @@ func AddPackages(pkgs []string) error {
 		pkgsToInstall = append(pkgsToInstall, p)
 	}
 	newYml := insertPackages(lines, pkgsToInstall...)
-	err = goutils.WriteLines(newYml, ymlfile)
+	return writeConfig(ymlfile, []byte(strings.Join(newYml, "\n")+"\n"))
+}
+
+// writeConfig replaces the content of the configuration file such that an
+// interruption leaves either the previous or the new content.
+func writeConfig(ymlfile string, content []byte) error {
+	target, err := filepath.EvalSymlinks(ymlfile)
+	if err != nil {
+		return err
+	}
+	fi, err := os.Stat(target)
+	if err != nil {
+		return err
+	}
+	tmp, err := ioutil.TempFile(filepath.Dir(target), filepath.Base(target)+".part")
+	if err != nil {
+		// no other file may be written there
+		return ioutil.WriteFile(target, content, fi.Mode())
+	}
+	_, err = tmp.Write(content)
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Chmod(tmp.Name(), fi.Mode())
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), target)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
 	return err
 }
 
diff --git a/configlib/config.go b/configlib/config.go
index 6b30160..18d65a3 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -265,8 +265,7 @@ func RemovePackage(name string) error {
 // remove remove a package from the Package section of the yml config file
 func remove(ymlfile string, packageName string) error {
 	appFS := afero.NewOsFs()
-	yf, _ := afero.ReadFile(appFS, ymlfile)
-	fi, err := os.Stat(ymlfile)
+	yf, err := afero.ReadFile(appFS, ymlfile)
 	if err != nil {
 		return err
 	}
@@ -297,12 +296,7 @@ func remove(ymlfile string, packageName string) error {
 			kept = append(kept, line)
 		}
 	}
-	out := []byte(strings.Join(kept, "\n"))
-	err = afero.WriteFile(appFS, ymlfile, out, fi.Mode())
-	if err != nil {
-		return err
-	}
-	return nil
+	return writeConfig(ymlfile, []byte(strings.Join(kept, "\n")))
 }
 
 // SetCustomizations ... set ENV values in Rsettings
-- 
2.43.0


From 4202465112c6c61dfb7082d84720d91bbeb839b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 41/64] fix: leave no part of a package behind when a rollback
 is interrupted

---
 rollback/operations.go | 52 +++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/rollback/operations.go b/rollback/operations.go
index 493c3f0..7dce688 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -11,12 +11,27 @@ import (
 	"github.com/spf13/afero"
 )
 
+// removedPrefix marks the directories of packages that are being removed. They
+// are backups as far as the other commands are concerned.
+const removedPrefix = pacman.BackupPrefix + "removed__"
+
 // RollbackPackageEnvironment "executes" the given RollbackPlan, thereby resetting the environment to the state it was in before rbp.InstallPlan was applied.
 func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 
 	//reset packages
 	logrus.Trace("Resetting package environment")
 
+	for _, pkg := range rbp.NewPackages {
+		err1 := removePackage(fileSystem, rbp.Library, pkg)
+		if err1 != nil {
+			logrus.WithFields(logrus.Fields{
+				"library": rbp.Library,
+				"package": pkg,
+			}).Warn("failed to remove package during rollback", err1)
+			return err1
+		}
+	}
+
 	if rbp.InstallPlan.CreateLibrary {
 		err0 := fileSystem.RemoveAll(rbp.Library)
 
@@ -31,17 +46,6 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 		return nil
 	}
 
-	for _, pkg := range rbp.NewPackages {
-		err1 := fileSystem.RemoveAll(filepath.Join(rbp.Library, pkg))
-		if err1 != nil {
-			logrus.WithFields(logrus.Fields{
-				"library": rbp.Library,
-				"package": pkg,
-			}).Warn("failed to remove package during rollback", err1)
-			return err1
-		}
-	}
-
 	//Rollback updated packages -- we have to do this differently than the rest, because updated packages need to be
 	//restored from backups.
 	if len(rbp.UpdateRollbacks) > 0 {
@@ -62,6 +66,24 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	return nil
 }
 
+// removePackage removes a package from the library such that an interruption
+// never leaves a part of it under its name, where it would pass for the package.
+func removePackage(fileSystem afero.Fs, library string, pkg string) error {
+	active := filepath.Join(library, pkg)
+	exists, err := afero.Exists(fileSystem, active)
+	if err != nil || !exists {
+		return err
+	}
+	aside := filepath.Join(library, removedPrefix+pkg)
+	if err := fileSystem.RemoveAll(aside); err != nil {
+		return err
+	}
+	if err := fileSystem.Rename(active, aside); err != nil {
+		return err
+	}
+	return fileSystem.RemoveAll(aside)
+}
+
 func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateAttempt) error {
 	if len(packageBackupInfo) == 0 {
 		logrus.Debug("No update-packages to restore.")
@@ -111,6 +133,14 @@ func RecoverBackups(fileSystem afero.Fs, library string) error {
 		pkg := strings.TrimPrefix(entry.Name(), pacman.BackupPrefix)
 		backup := filepath.Join(library, entry.Name())
 
+		if strings.HasPrefix(entry.Name(), removedPrefix) {
+			// the installation was interrupted while it removed the package
+			if err := fileSystem.RemoveAll(backup); err != nil {
+				return err
+			}
+			continue
+		}
+
 		complete, err := afero.Exists(fileSystem, filepath.Join(backup, "DESCRIPTION"))
 		if err != nil {
 			return err
-- 
2.43.0


From fda72e958b0fab39322e4a9b407a89f2c3943ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 42/64] fix: never leave part of an unpacked tarball in the
 cache when cleaning is interrupted

---
 cmd/cleanCache.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 1761199..28fe019 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -16,6 +16,8 @@ package cmd
 
 import (
 	"errors"
+	"fmt"
+	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -116,7 +118,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
+		err = removeUntarred(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
@@ -129,6 +131,20 @@ func cleanCacheFolders() error {
 	return nil
 }
 
+// removeUntarred removes the directory of an unpacked tarball. As the presence
+// of the directory marks a complete extraction, it never exists partially.
+func removeUntarred(dir string) error {
+	exists, err := afero.Exists(fs, dir)
+	if err != nil || !exists {
+		return err
+	}
+	aside := fmt.Sprintf("%s.part%d", dir, os.Getpid())
+	if err := fs.Rename(dir, aside); err != nil {
+		return err
+	}
+	return fs.RemoveAll(aside)
+}
+
 func deleteAllCacheSubfolders(fs afero.Fs, repos []string, cacheDirectory string) {
 	deleteCacheSubfolders(fs, repos, "src", cacheDirectory)
 	deleteCacheSubfolders(fs, repos, "binary", cacheDirectory)
-- 
2.43.0


From be2e0e21b760244f3a151f39692438424b4aefa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 43/64] fix: replace the DESCRIPTION of an installed package
 atomically

---
 rcmd/install.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index d838051..12dde5d 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -604,9 +604,21 @@ func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL,
 
 // writes a slice of strings out to a file. Adds newline characters to the end of the each line.
 func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string) error {
-	err := goutils.WriteLinesFS(fs, update, filename)
+	// a package without complete DESCRIPTION would be neither installed nor reinstalled,
+	// so an interruption must not leave one
+	part := filename + ".part"
+	err := goutils.WriteLinesFS(fs, update, part)
+	if err == nil {
+		if fi, serr := fs.Stat(filename); serr == nil {
+			err = fs.Chmod(part, fi.Mode())
+		}
+	}
+	if err == nil {
+		err = fs.Rename(part, filename)
+	}
 
 	if err != nil {
+		fs.Remove(part)
 		log.WithFields(log.Fields{
 			"filename": filename,
 		}).Error("could not update DESCRIPTION file", err)
-- 
2.43.0


From f1fb21c6d230774a31e7fb1f5a05f49b523debe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 44/64] fix: install packages whose place is taken by a folder
 that is no package

---
 rollback/types.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rollback/types.go b/rollback/types.go
index 7b20ecd..d14b7ed 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -1,6 +1,8 @@
 package rollback
 
 import (
+	"path/filepath"
+
 	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/desc"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
@@ -67,6 +69,19 @@ func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, libra
 			overwriteAttempts = append(overwriteAttempts, overwriteAttempt)
 		}
 	}
+
+	// What stands in the place of a new package is no package, as it would be
+	// among the preinstalled ones otherwise, but would pass for it.
+	for _, pkg := range rp.NewPackages {
+		if isDir, err := afero.DirExists(fs, filepath.Join(library, pkg)); err != nil || !isDir {
+			continue
+		}
+		overwriteAttempts = append(overwriteAttempts, tagOldInstallation(fs, library, cran.OutdatedPackage{
+			Package:    pkg,
+			OldVersion: "[no package]",
+			NewVersion: "[from plan]",
+		}))
+	}
 	rp.AdditionalPkgRollbacks = overwriteAttempts
 }
 
-- 
2.43.0


From 52f65929a053780b263865deedc32f31666b7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 45/64] fix: clean --all also removes the unpacked tarballs

---
 cmd/clean.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/clean.go b/cmd/clean.go
index 9ac98ff..3c17e36 100644
--- a/cmd/clean.go
+++ b/cmd/clean.go
@@ -63,11 +63,12 @@ func clean(cmd *cobra.Command, args []string) error {
 	}
 	if cleanAll {
 		fmt.Println("Cleaning all.")
-		err = cleanCacheFolders()
+		// finding the package databases unpacks tarballs to the cache, so the cache comes last
+		err = cleanPackageDatabases("ALL")
 		if err != nil {
 			return err
 		}
-		err = cleanPackageDatabases("ALL")
+		err = cleanCacheFolders()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 97c3c90d65f453917ba3b326f41539fe0f0f2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 46/64] fix: record the original repository of a package only
 once

---
 rcmd/install.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 12dde5d..de1c47e 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -633,6 +633,14 @@ func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string)
 // returns the updated string slice, still without new-line characters.
 func updateDescriptionInfoByLines(lines []string, version, installType, repoURL, repo string) []string {
 
+	// the original repository may have been recorded before
+	hasOriginal := false
+	for _, line := range lines {
+		if strings.HasPrefix(line, "OriginalRepository:") {
+			hasOriginal = true
+		}
+	}
+
 	var newLines []string
 	for _, line := range lines {
 		//log.Info("Starting repo: " + repo)
@@ -645,8 +653,10 @@ func updateDescriptionInfoByLines(lines []string, version, installType, repoURL,
 		}
 
 		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
-			originalRepo := strings.TrimSpace(strings.TrimPrefix(line, "Repository:"))
-			newLines = append(newLines, "OriginalRepository: "+originalRepo)
+			if !hasOriginal {
+				originalRepo := strings.TrimSpace(strings.TrimPrefix(line, "Repository:"))
+				newLines = append(newLines, "OriginalRepository: "+originalRepo)
+			}
 			line = "Repository: " + repo
 		}
 		newLines = append(newLines, line)
-- 
2.43.0


From e581a936b818af55a6045b0eb6d40b537f7f0553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 47/64] fix: show reverse dependencies in the tree of inspect
 --reverse --tree

---
 cmd/inspect.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/inspect.go b/cmd/inspect.go
index f74da87..73c394b 100644
--- a/cmd/inspect.go
+++ b/cmd/inspect.go
@@ -20,7 +20,6 @@ import (
 
 	"github.com/metrumresearchgroup/pkgr/logger"
 
-	"github.com/metrumresearchgroup/pkgr/gpsr"
 	"github.com/metrumresearchgroup/pkgr/pacman"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	"github.com/spf13/cobra"
@@ -62,14 +61,14 @@ var toJson bool
 var tree bool
 var installedFrom bool
 
-func recurseDeps(pkg string, ddb gpsr.InstallPlan, t treeprint.Tree) {
-	pkgDeps := ddb.DepDb[pkg]
+func recurseDeps(pkg string, allDeps map[string][]string, t treeprint.Tree) {
+	pkgDeps := allDeps[pkg]
 	sort.Strings(pkgDeps)
 	if len(pkgDeps) == 0 {
 		return
 	}
 	for _, d := range pkgDeps {
-		recurseDeps(d, ddb, t.AddBranch(d))
+		recurseDeps(d, allDeps, t.AddBranch(d))
 	}
 }
 
@@ -105,20 +104,20 @@ func inspect(cmd *cobra.Command, args []string) error {
 			for _, arg := range args {
 				keepDeps[arg] = allDeps[arg]
 			}
-			printDeps(keepDeps, tree, ip)
+			printDeps(keepDeps, tree, allDeps)
 		} else {
-			printDeps(allDeps, tree, ip)
+			printDeps(allDeps, tree, allDeps)
 		}
 	}
 	return nil
 }
 
-func printDeps(deps map[string][]string, tree bool, ip gpsr.InstallPlan) {
+func printDeps(deps map[string][]string, tree bool, allDeps map[string][]string) {
 	if tree {
 		depTree := treeprint.New()
 		for p := range deps {
 			tb := depTree.AddBranch(p)
-			recurseDeps(p, ip, tb)
+			recurseDeps(p, allDeps, tb)
 		}
 		fmt.Println(depTree.String())
 	} else {
-- 
2.43.0


From 5e47b32ed45699e6b00b9cd75bb75091c93fa05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 48/64] fix: load --all does not report success when packages
 are missing from the repositories

---
 cmd/load.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/load.go b/cmd/load.go
index 1b6c5be..ac69384 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -93,6 +93,12 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 	var toLoad []string
 	if all {
 		toLoad = installPlan.GetAllPackages()
+		// the plan is empty if packages are missing from the repositories
+		for _, pkg := range userPackages {
+			if !stringInSlice(pkg, toLoad) {
+				toLoad = append(toLoad, pkg)
+			}
+		}
 	} else {
 		toLoad = userPackages
 	}
-- 
2.43.0


From 905b25fca7f8e3bcf1869d0c327b6b91fd66e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 49/64] fix: report the complete output of R despite long lines

---
 rcmd/rp/lines.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rcmd/rp/lines.go b/rcmd/rp/lines.go
index 0e607b0..15e2376 100644
--- a/rcmd/rp/lines.go
+++ b/rcmd/rp/lines.go
@@ -18,6 +18,8 @@ func ScanLines(b []byte) []string {
 // with all input-like lines (which start with ">") excluded.
 func ScanROutput(b []byte, outputOnly bool) []string {
 	scanner := bufio.NewScanner(bytes.NewBuffer(b))
+	// lines may be longer than the scanner accepts by default
+	scanner.Buffer(nil, len(b)+bufio.MaxScanTokenSize)
 	output := []string{}
 	re := regexp.MustCompile("^\\[\\d+\\]")
 	for scanner.Scan() {
-- 
2.43.0


From 883f3d934e15f808416bae0c7dc759ede879672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 50/64] fix: report each library of R separately in load --json

---
 cmd/load.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/load.go b/cmd/load.go
index ac69384..b10a88a 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -171,6 +172,8 @@ func getRSessionMetadata(rs rcmd.RSettings, rDir string) RSessionMetadata {
 	return sessionMetadata
 }
 
+var quotedString = regexp.MustCompile(`"[^"]*"`)
+
 // Get the libPaths that will load for an R session launched in rDir.
 func getRSessionLibPaths(rs rcmd.RSettings, rDir string) []string {
 	log.Trace("attempting to get session lib paths")
@@ -184,12 +187,15 @@ func getRSessionLibPaths(rs rcmd.RSettings, rDir string) []string {
 		}).Warn("could not get LibPaths -- there was a problem running `.LibPaths()` in an R session")
 		return []string{"could not retrieve libpaths"}
 	}
-	var trimmedOutLines []string
+	// R prints several paths on a line if they fit
+	var libPaths []string
 	for _, line := range outLines {
-		trimmedOutLines = append(trimmedOutLines, strings.ReplaceAll(line, "\"", ""))
+		for _, path := range quotedString.FindAllString(line, -1) {
+			libPaths = append(libPaths, strings.ReplaceAll(path, "\"", ""))
+		}
 	}
 
-	return trimmedOutLines
+	return libPaths
 }
 
 // Print a LoadReport as a JSON object.
-- 
2.43.0


From 681f027678869594ed8068c25251006b0211c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 51/64] fix: ignore recommended packages that tarballs and
 DESCRIPTION files need with NoRecommended

---
 cmd/plan.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 05fadf4..6a1f050 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -189,7 +189,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		for _, tarballDesc := range tarballDescriptions {
 			tarballDeps := tarballDesc.GetCombinedDependencies(false)
 			for _, d := range tarballDeps {
-				if !funk.Contains(cfg.Packages, d.Name) && !funk.Contains(cfg.IgnorePackages, d.Name) {
+				if !funk.Contains(cfg.Packages, d.Name) && !isIgnoredDependency(d.Name) {
 					cfg.Packages = append(cfg.Packages, d.Name)
 				}
 			}
@@ -205,7 +205,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		for _, desc := range descDescriptions {
 			descDeps := desc.GetCombinedDependencies(true)
 			for _, d := range descDeps {
-				if !funk.Contains(cfg.Packages, d.Name) && !funk.Contains(cfg.IgnorePackages, d.Name) {
+				if !funk.Contains(cfg.Packages, d.Name) && !isIgnoredDependency(d.Name) {
 					cfg.Packages = append(cfg.Packages, d.Name)
 				}
 			}
@@ -327,6 +327,12 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 	return pkgNexus, installPlan, rollbackPlan
 }
 
+// Tells whether a dependency of a tarball or DESCRIPTION file is not to be installed.
+func isIgnoredDependency(pkg string) bool {
+	return funk.Contains(cfg.IgnorePackages, pkg) ||
+		(cfg.NoRecommended && gpsr.DefaultPackages[pkg] == "recommended")
+}
+
 // Removes any "base" packages from the given list.
 func removeBasePackages(pkgList []string) []string {
 	var nonbasePkgList []string
-- 
2.43.0


From 4d34542d3e816d1f031bf16eac279b102e57757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 52/64] fix: install requested recommended packages before
 those that need them with NoRecommended

---
 gpsr/dependencies.go | 4 +++-
 gpsr/helpers.go      | 8 ++++----
 gpsr/solution.go     | 6 ++++++
 gpsr/structs.go      | 5 +++--
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index c3ef8d8..0b262a8 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -59,7 +59,9 @@ func ResolveLayers(graph Graph, noRecommended bool) ([][]string, error) {
 
 		dependencySet := mapset.NewSet()
 		for _, dep := range node.Deps {
-			if !isExcludedPackage(dep, noRecommended) {
+			// recommended packages that are in the graph nevertheless were requested
+			_, inGraph := graph[dep]
+			if inGraph || !isExcludedPackage(dep, noRecommended) {
 				dependencySet.Add(dep)
 			}
 		}
diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 21f9066..983050f 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -24,7 +24,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 	if dependencyConfig.Depends {
 		for r := range d.Depends {
 			_, _, ok := pkgNexus.GetPackage(r)
-			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
+			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended && !dependencyConfigs.Requested[r]) {
 				reqs = append(reqs, r)
 			} else {
 				log.WithField("pkg", d.Package).WithField("dep", r).Trace("skipping Depends dep")
@@ -34,7 +34,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 	if dependencyConfig.Imports {
 		for r := range d.Imports {
 			_, _, ok := pkgNexus.GetPackage(r)
-			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
+			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended && !dependencyConfigs.Requested[r]) {
 				reqs = append(reqs, r)
 			} else {
 				log.WithField("pkg", d.Package).WithField("dep", r).Trace("skipping Imports dep")
@@ -44,7 +44,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 	if dependencyConfig.LinkingTo {
 		for r := range d.LinkingTo {
 			_, _, ok := pkgNexus.GetPackage(r)
-			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
+			if ok && !isExcludedPackage(r, dependencyConfig.NoRecommended && !dependencyConfigs.Requested[r]) {
 				reqs = append(reqs, r)
 			} else {
 				log.WithField("pkg", d.Package).WithField("dep", r).Trace("skipping LinkingTo dep")
@@ -62,7 +62,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 			if r != "R" && !ok {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
-				if exists && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
+				if exists && !isExcludedPackage(r, dependencyConfig.NoRecommended && !dependencyConfigs.Requested[r]) {
 					appendToGraph(m, pkg, dependencyConfigs, pkgNexus)
 				}
 			}
diff --git a/gpsr/solution.go b/gpsr/solution.go
index 79bbafb..d14c040 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -31,6 +31,12 @@ func ResolveInstallationReqs(
 		val.NoRecommended = noRecommended
 		dependencyConfigs.Deps[dep] = val
 	}
+	requested := make(map[string]bool)
+	for _, p := range pkgs {
+		requested[p] = true
+	}
+	dependencyConfigs.Requested = requested
+	defaultDependencyConfigs.Requested = requested
 	depDb := make(map[string][]string)
 
 	for _, p := range pkgs {
diff --git a/gpsr/structs.go b/gpsr/structs.go
index 9b038db..1dbbd07 100644
--- a/gpsr/structs.go
+++ b/gpsr/structs.go
@@ -36,6 +36,7 @@ type PkgDeps struct {
 
 // InstallDeps contains the information about dependencies to be installed
 type InstallDeps struct {
-	Deps    map[string]PkgDeps
-	Default PkgDeps
+	Deps      map[string]PkgDeps
+	Default   PkgDeps
+	Requested map[string]bool // explicitly requested packages, never ignored as recommended ones
 }
-- 
2.43.0


From 8d7d8c94174c16d10bb6f19771bbaf51b6861ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 53/64] fix: stop if the version of R cannot be determined

---
 rcmd/Rsettings.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rcmd/Rsettings.go b/rcmd/Rsettings.go
index d10f18a..f9dc8d7 100644
--- a/rcmd/Rsettings.go
+++ b/rcmd/Rsettings.go
@@ -60,6 +60,10 @@ func GetRVersion(rs *RSettings) cran.RVersion {
 			return cran.RVersion{}
 		}
 		rs.Version, rs.Platform = parseVersionData(res)
+		if rs.Version.ToString() == "0.0" {
+			// packages and caches depend on the version, so don't guess
+			log.WithField("output", string(res)).Fatal("error getting R version")
+		}
 	}
 	return rs.Version
 }
-- 
2.43.0


From a827d97d5ba592b1735c50913d72b3898deafd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 54/64] fix: write messages once to a log file that is set up
 twice

add --install sets up the log file of add and then that of install. If both
are the same file, each message of the installation was written twice, and
with overwrite those of add were lost.
---
 logger/logger.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index da5e38a..851e953 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -100,9 +100,12 @@ func SetLogLevel(level string) {
 	}
 }
 
+// logFiles holds the files that messages are already written to
+var logFiles = make(map[string]bool)
+
 func AddLogFile(outputFile string, overwrite bool) {
 
-	if outputFile != "" {
+	if outputFile != "" && !logFiles[outputFile] {
 
 		var osFlag int
 
@@ -115,6 +118,7 @@ func AddLogFile(outputFile string, overwrite bool) {
 		fileHook, err := NewLogrusFileHook(outputFile, osFlag, 0666)
 		if err == nil {
 			log.AddHook(fileHook)
+			logFiles[outputFile] = true
 		}
 	}
 }
-- 
2.43.0


From 6f7788c7ec9ebcf7eee1640598fcf82008585cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 55/64] fix: add packages to configurations with long lines

---
 configlib/add_package.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index d1e7263..13f3ae5 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -26,6 +26,8 @@ func AddPackages(pkgs []string) error {
 	}
 	var lines []string
 	scanner := bufio.NewScanner(bytes.NewReader(yf))
+	// no line may be too long, the rest of the file would be lost
+	scanner.Buffer(nil, len(yf)+bufio.MaxScanTokenSize)
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
-- 
2.43.0


From 1729425f40c381ea45d9c62ede9180de26ad53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 56/64] fix: share unpacked tarballs with other instances

---
 cmd/tarballOps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index ef4bd39..831018c 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -95,6 +95,10 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 		err = archive.Extract(path, partialPath)
 		if err == nil {
 			err = fs.Rename(partialPath, tarballDirectoryPath)
+			// another instance may have extracted the same tarball meanwhile
+			if finished, _ := afero.DirExists(fs, tarballDirectoryPath); err != nil && finished {
+				err = fs.RemoveAll(partialPath)
+			}
 		}
 		if err != nil {
 			fs.RemoveAll(partialPath)
-- 
2.43.0


From 658f694f5a931ac79a5d987e560956c3e4351f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 57/64] fix: report packages whose file vanished as not
 installed

---
 rcmd/install.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index de1c47e..f020f64 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -83,7 +83,10 @@ func Install(
 		).Trace("launch dir set to working directory")
 	} else {
 		ok, err := afero.DirExists(fs, rdir)
-		if !ok || err != nil {
+		if !ok && err == nil {
+			err = fmt.Errorf("%s does not exist", rdir)
+		}
+		if err != nil {
 			// TODO replace with better error
 			return CmdResult{
 				Stderr:   err.Error(),
@@ -112,6 +115,7 @@ func Install(
 		} else {
 			// nil error not ok
 			errs = fmt.Sprintf("%s does not exist", pkgPath)
+			err = errors.New(errs)
 		}
 		return CmdResult{
 			Stderr:   fmt.Sprintf("err: %s, ok: %v", errs, ok),
-- 
2.43.0


From fad927082390607d86b11344397d7ccf5489aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 58/64] fix: keep the configuration if there is no space to
 write it

---
 configlib/add_package.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 13f3ae5..2df9b03 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -61,10 +61,13 @@ func writeConfig(ymlfile string, content []byte) error {
 		return err
 	}
 	tmp, err := ioutil.TempFile(filepath.Dir(target), filepath.Base(target)+".part")
-	if err != nil {
+	if os.IsPermission(err) {
 		// no other file may be written there
 		return ioutil.WriteFile(target, content, fi.Mode())
 	}
+	if err != nil {
+		return err
+	}
 	_, err = tmp.Write(content)
 	if cerr := tmp.Close(); err == nil {
 		err = cerr
-- 
2.43.0


From e200d08517e20b6ef8e3dc1985acd1ed30ad8026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 59/64] fix: keep backups that could not be restored

---
 cmd/install.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/install.go b/cmd/install.go
index 9a0cfb3..c7b6748 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -146,18 +146,23 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
+	keepBackups := false
 	if !cfg.NoRollback {
 		// If anything went wrong during the installation, rollback the environment.
 		if err != nil || errInstallAdditional != nil {
 			errRollback := rollback.RollbackPackageEnvironment(fs, rollbackPlan)
 			if errRollback != nil {
 				log.WithFields(log.Fields{}).Error("failed to reset package environment after bad installation. Your package Library will be in a corrupt state. It is recommended you delete your Library and reinstall all packages.")
+				// The next installation restores what is left as backup.
+				keepBackups = true
 			}
 		}
 	}
 	// If any packages were being updated, we need to remove any leftover backup folders that were created.
 	// Errors are handled in the lower functions
-	_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	if !keepBackups {
+		_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	}
 
 	log.Info("duration:", time.Since(startTime))
 
-- 
2.43.0


From faafd003856997d87cdb82a76e6d71086932e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 60/64] fix: do not update packages that cannot be backed up

---
 cmd/install.go         | 13 +++++++++++--
 rollback/operations.go | 14 +++++++++-----
 rollback/types.go      | 38 +++++++++++++++++++++++++++++---------
 3 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index c7b6748..1bdfc73 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -107,9 +107,18 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	if !cfg.NoUpdate { // } && cfg.Rollback { We actually need this to run either way, as the "prepare packages for update" operation moves the current installations to __OLD__ folders, thus allowing updated versions to be installed.
 		log.Info("update argument passed. staging packages for update...")
-		rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
+		err = rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
+	}
+	if err == nil {
+		err = rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
+	}
+	if err != nil {
+		// Without backup a package could not be restored.
+		if errUndo := rollbackPlan.UndoPreparations(fs); errUndo != nil {
+			log.WithField("error", errUndo).Error("failed to restore the packages staged for update")
+		}
+		log.WithField("error", err).Fatal("could not stage packages for update")
 	}
-	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
diff --git a/rollback/operations.go b/rollback/operations.go
index 7dce688..9fe636b 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -206,18 +206,22 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 }
 
 // createUpdateBackupFolders ...
-func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdatedPackages []cran.OutdatedPackage) []UpdateAttempt {
+func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdatedPackages []cran.OutdatedPackage) ([]UpdateAttempt, error) {
 	var updateAttempts []UpdateAttempt
 
 	//Tag each outdated pkg directory in library with "__OLD__"
 	for _, pkg := range outdatedPackages {
-		updateAttempts = append(updateAttempts, tagOldInstallation(fileSystem, libraryPath, pkg))
+		updateAttempt, err := tagOldInstallation(fileSystem, libraryPath, pkg)
+		if err != nil {
+			return updateAttempts, err
+		}
+		updateAttempts = append(updateAttempts, updateAttempt)
 	}
 
-	return updateAttempts
+	return updateAttempts, nil
 }
 
-func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) UpdateAttempt {
+func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) (UpdateAttempt, error) {
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
 	taggedPackageDir := filepath.Join(libraryPath, pacman.BackupPrefix+outdatedPackage.Package)
 
@@ -235,5 +239,5 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 		BackupPackageDirectory: taggedPackageDir,
 		OldVersion:             outdatedPackage.OldVersion,
 		NewVersion:             outdatedPackage.NewVersion,
-	}
+	}, err
 }
diff --git a/rollback/types.go b/rollback/types.go
index d14b7ed..e102730 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -38,7 +38,7 @@ func CreateRollbackPlan(library string, installPlan gpsr.InstallPlan, preinstall
 }
 
 // createUpdateBackupFolders backs up outdated packages in the library by renaming them, thus making space for the updated versions to install.
-func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) {
+func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) error {
 
 	//InstallPlan is aware of _all_ preinstalled packages, even if they're not in pkgr.yml. We don't want to touch
 	//preinstalled packages that weren't in pkgr.yml, so we just want to take the active packages from the install plan.
@@ -51,22 +51,26 @@ func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) {
 	}
 
 	// Wrap this function for now until we're ready to move it over.
-	updateAttempts := createUpdateBackupFolders(fs, library, opFiltered)
+	updateAttempts, err := createUpdateBackupFolders(fs, library, opFiltered)
 	rp.UpdateRollbacks = updateAttempts
+	return err
 }
 
-func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) {
-	var overwriteAttempts []UpdateAttempt
+func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) error {
+	rp.AdditionalPkgRollbacks = nil
 	for pkg := range rp.InstallPlan.AdditionalPackageSources {
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
 		// a package that is also being updated already has its backup
 		if isPreinstalled && !rp.hasUpdateBackup(pkg) {
-			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
+			overwriteAttempt, err := tagOldInstallation(fs, library, cran.OutdatedPackage{
 				Package:    pkg,
 				OldVersion: preinstPkg.Version,
 				NewVersion: "[from tarball]",
 			})
-			overwriteAttempts = append(overwriteAttempts, overwriteAttempt)
+			if err != nil {
+				return err
+			}
+			rp.AdditionalPkgRollbacks = append(rp.AdditionalPkgRollbacks, overwriteAttempt)
 		}
 	}
 
@@ -76,13 +80,29 @@ func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, libra
 		if isDir, err := afero.DirExists(fs, filepath.Join(library, pkg)); err != nil || !isDir {
 			continue
 		}
-		overwriteAttempts = append(overwriteAttempts, tagOldInstallation(fs, library, cran.OutdatedPackage{
+		overwriteAttempt, err := tagOldInstallation(fs, library, cran.OutdatedPackage{
 			Package:    pkg,
 			OldVersion: "[no package]",
 			NewVersion: "[from plan]",
-		}))
+		})
+		if err != nil {
+			return err
+		}
+		rp.AdditionalPkgRollbacks = append(rp.AdditionalPkgRollbacks, overwriteAttempt)
+	}
+	return nil
+}
+
+// UndoPreparations puts the packages that were set aside back in their place
+// when nothing has been installed yet.
+func (rp *RollbackPlan) UndoPreparations(fs afero.Fs) error {
+	if rp.InstallPlan.CreateLibrary {
+		return fs.RemoveAll(rp.Library)
+	}
+	if err := rollbackChangedPackages(fs, rp.UpdateRollbacks); err != nil {
+		return err
 	}
-	rp.AdditionalPkgRollbacks = overwriteAttempts
+	return rollbackChangedPackages(fs, rp.AdditionalPkgRollbacks)
 }
 
 func (rp *RollbackPlan) hasUpdateBackup(pkg string) bool {
-- 
2.43.0


From 1dd7c729205cc22b1e4ef286f859c52474f02492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 61/64] fix: delete the other backups if one cannot be deleted

---
 rollback/operations.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rollback/operations.go b/rollback/operations.go
index 9fe636b..80e0c87 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -90,6 +90,7 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 		return nil
 	}
 
+	var err error
 	for _, info := range packageBackupInfo {
 
 		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
@@ -106,12 +107,14 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 					"package":           info.Package,
 					"problem_directory": info.BackupPackageDirectory,
 				}).Warn("could not delete directory during cleanup")
-				return err1
+				if err == nil {
+					err = err1
+				}
 			}
 		}
 	}
 
-	return nil
+	return err
 }
 
 // RecoverBackups restores the packages whose backup was left behind in the
-- 
2.43.0


From f6cb53ece45d45a46eac4eff53740b740755046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 62/64] fix: name the local archives among the packages to
 install

---
 cmd/plan.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 6a1f050..eb61073 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -310,8 +310,13 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 	if toInstall > 0 && toInstall != totalPackagesRequired {
 		// log which packages to install, but only if doing an incremental install
 		for _, pn := range pkgs {
-			//_, isAdditionalPkg := installPlan.AdditionalPackageSources[pn]
-			if !funk.ContainsString(installedPackageNames, pn) {
+			if additional, ok := installPlan.AdditionalPackageSources[pn]; ok {
+				log.WithFields(log.Fields{
+					"package": pn,
+					"origin":  additional.OriginPath,
+					"type":    additional.Type,
+				}).Info("to install")
+			} else if !funk.ContainsString(installedPackageNames, pn) {
 				pkgDesc, cfg, _ := pkgNexus.GetPackage(pn)
 				log.WithFields(log.Fields{
 					"package": pkgDesc.Package,
-- 
2.43.0


From 841d384381f91f512f0d6a8b4b1db7b50239ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 63/64] fix: do not take a copy in another folder for an
 installed package

---
 pacman/utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pacman/utils.go b/pacman/utils.go
index ff1e9cc..567c4ff 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -41,6 +41,12 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 		if err != nil {
 			log.Error(err)
 			err = nil
+		} else if installedPackage.Package != pkgFolder {
+			// R finds packages by the name of their folder, a copy is not the package
+			log.WithFields(log.Fields{
+				"package": installedPackage.Package,
+				"folder":  pkgFolder,
+			}).Warn("ignoring a folder in the library that is named differently from its package")
 		} else {
 			log.WithFields(log.Fields{
 				"package":     installedPackage.Package,
-- 
2.43.0


From 4cd018c2365b377d0b19a67ff8986d9de70728ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 64/64] fix: pass environment values on with their spaces

---
 rcmd/nvp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/nvp.go b/rcmd/nvp.go
index cc183f5..f4433be 100644
--- a/rcmd/nvp.go
+++ b/rcmd/nvp.go
@@ -7,7 +7,7 @@ import (
 
 // Append a name and value pair to the list as an Nvp object
 func (list *NvpList) Append(name, value string) {
-	list.Pairs = append(list.Pairs, Nvp{Name: strings.Trim(name, " "), Value: strings.Trim(value, " ")})
+	list.Pairs = append(list.Pairs, Nvp{Name: strings.Trim(name, " "), Value: value})
 }
 
 // AppendNvp append a string of name=value pair to the list as an Nvp object
-- 
2.43.0

