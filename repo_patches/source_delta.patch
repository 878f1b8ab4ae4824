From 1be1be255820eac60c98987101de511e843b0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 01/53] fix: read the fifth component of a version and accept
 versions of one component

---
 desc/version.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index 84dda6c..09c94f4 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -8,9 +8,11 @@ import (
 // ParseVersion parses a package string to a version
 func ParseVersion(v string) Version {
 	ver := Version{String: v}
-	parts := regexp.MustCompile(`[\.-]`).Split(v, 4)
+	parts := regexp.MustCompile(`[\.-]`).Split(v, 5)
 	ver.Major, _ = strconv.Atoi(parts[0])
-	ver.Minor, _ = strconv.Atoi(parts[1])
+	if len(parts) > 1 {
+		ver.Minor, _ = strconv.Atoi(parts[1])
+	}
 	if len(parts) > 2 {
 		ver.Patch, _ = strconv.Atoi(parts[2])
 	}
-- 
2.43.0


From 4e1f5426cc60c43d03d1f4407d1b9aeccec0a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 02/53] fix: sort versions in the order of CompareVersions

---
 desc/version.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index 09c94f4..8aafa6f 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -74,19 +74,7 @@ func CompareVersions(v1 Version, v2 Version) int {
 type Versions []Version
 
 func isLowerVersion(v1 Version, v2 Version) bool {
-	if v1.Major < v2.Major {
-		return true
-	}
-	if v1.Minor < v2.Minor {
-		return true
-	}
-	if v1.Dev < v2.Dev {
-		return true
-	}
-	if v1.Other < v2.Other {
-		return true
-	}
-	return false
+	return CompareVersions(v1, v2) < 0
 }
 func (v Versions) Len() int           { return len(v) }
 func (v Versions) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
-- 
2.43.0


From 8850c181c37515a7e117d2cbc809476c3cb111bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 03/53] fix: render a dependency without a constraint as its
 name

---
 desc/dep.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/desc/dep.go b/desc/dep.go
index c0c2750..84a0e07 100644
--- a/desc/dep.go
+++ b/desc/dep.go
@@ -5,7 +5,11 @@ import "fmt"
 // ToString provides a matching pattern needed for outputting the Constraint
 // R (>= 3.6)
 // <Name> (<constraint> <version>)
+// or only <Name> when there is no constraint
 func (d Dep) ToString() string {
+	if d.Constraint == None {
+		return d.Name
+	}
 	return fmt.Sprintf("%s (%s %s)", d.Name, d.Constraint.ToString(), d.Version.String)
 }
 
-- 
2.43.0


From 108a98faea7d1d5d677cc2a0129edd3b08df6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 04/53] fix: accept package records that depend on R without
 naming a version

---
 cran/repodb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 07014ee..0ba31a1 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -292,6 +292,9 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 	// v2 for R >= 3.5
 	packageValid := false
 	switch pkgRConstraint.Constraint {
+	case desc.None:
+		// a bare R is satisfied by every version
+		packageValid = true
 	case desc.GT:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) > 0
 	case desc.GTE:
-- 
2.43.0


From ef33e93c4e63930193534bebe2ce0cdb8c3d8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 05/53] fix: do not plan excluded packages because they are
 suggested

---
 gpsr/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 9258516..21f9066 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -62,7 +62,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 			if r != "R" && !ok {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
-				if exists {
+				if exists && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
 					appendToGraph(m, pkg, dependencyConfigs, pkgNexus)
 				}
 			}
-- 
2.43.0


From 9e337e68fc857344141f3fac8f67f0fd00a650c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 06/53] fix: use the default type of a repo for packages that
 are only pinned to it

---
 cran/pkg_nexus.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cran/pkg_nexus.go b/cran/pkg_nexus.go
index c235fa4..5124795 100644
--- a/cran/pkg_nexus.go
+++ b/cran/pkg_nexus.go
@@ -133,7 +133,9 @@ func (pkgNexus *PkgNexus) GetPackage(pkg string) (desc.Desc, PkgConfig, bool) {
 	}
 	for _, db := range pkgNexus.Db {
 		rst := st
-		if db.DefaultSourceType != rst && !exists && db.DefaultSourceType != Default {
+		// a type set for the package takes precedence over the default of the repo
+		typeSet := exists && cfg.Type != Default
+		if db.DefaultSourceType != rst && !typeSet && db.DefaultSourceType != Default {
 			rst = db.DefaultSourceType
 		}
 		// For now package existence is checked exactly as the package is specified
-- 
2.43.0


From d4f27ea59f1e692b3accb63fb472701e3de7bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 07/53] fix: leave no partial or refused download in the
 package cache

---
 cran/download-package.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 538efbc..bc466b1 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -216,7 +216,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			}).Warn("bad server response")
 			b, _ := ioutil.ReadAll(resp.Body)
 			log.WithField("package", d.Package.Package).Println("body: ", string(b))
-			return Download{Metadata: d}, err
+			return Download{Metadata: d}, fmt.Errorf("bad server response for %s: %s", pkgdl, resp.Status)
 		}
 		from = resp.Body
 		// not sure if we need to close both from and resp.Body but shouldn't be problematic to call twice just in case
@@ -232,7 +232,9 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		defer from.Close()
 	}
 
-	file, err := fs.Create(dest)
+	// download to a temporary name first, so that the destination only ever holds a complete package
+	part := fmt.Sprintf("%s.%d.part", dest, os.Getpid())
+	file, err := fs.Create(part)
 	if err != nil {
 		log.WithFields(log.Fields{
 			"package": d.Package,
@@ -240,9 +242,15 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		}).Warn("error downloading package, no tarball created")
 		return Download{}, err
 	}
-	defer file.Close()
 	size, err := io.Copy(file, from)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = fs.Rename(part, dest)
+	}
 	if err != nil {
+		fs.Remove(part)
 		return Download{Metadata: d}, err
 	}
 
-- 
2.43.0


From a9be4d96df83cbd2d68431d6aecc1af731b7070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 08/53] fix: fail when the only index of a repository cannot be
 read

---
 cran/repodb.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 0ba31a1..82e84ac 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -195,10 +195,9 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 			} else {
 				pkgdir, _ := homedir.Expand(pkgURL)
 				pkgdir, _ = filepath.Abs(pkgdir)
-				if fi, err := os.Open(pkgdir); !os.IsNotExist(err) {
-					body, err = ioutil.ReadAll(fi)
-					fi.Close()
-				} else {
+				var err error
+				body, err = ioutil.ReadFile(pkgdir)
+				if err != nil {
 					err = fmt.Errorf("no package file found at: %s", pkgdir)
 					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
 					return
@@ -263,8 +262,8 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 			repoDb.DescriptionsBySourceType[result.St] = result.AvailableDescriptions
 		}
 	}
-	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if len(repoDb.DescriptionsBySourceType) > 1 && errorCount == len(repoDb.DescriptionsBySourceType) {
+	// if only one of several sources fails, this could be because it isn't present - eg if have binary/source but only source available
+	if errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
 
-- 
2.43.0


From e5bf28a79365fd074d7cf4761b7361d6f7cef30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 09/53] fix: do not cache a package database with an index
 missing

---
 cran/repodb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 82e84ac..e0f41c7 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -267,6 +267,11 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		return lasterr
 	}
 
+	if errorCount > 0 {
+		// the database lacks what could not be fetched, so it should not be taken for the repo the next time
+		return nil
+	}
+
 	return repoDb.Encode(pkgdbFile)
 }
 
-- 
2.43.0


From 653ce30e29328f86fa83ed9acee94d5794a976b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 10/53] fix: leave no truncated package database in the cache

---
 cran/repodb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index e0f41c7..fbddbd2 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -69,7 +69,9 @@ func (repoDb *RepoDb) Encode(file string) error {
 	if err != nil {
 		return err
 	}
-	f, err := os.Create(file)
+	// write to a temporary name first, so that an interrupted write leaves no truncated database behind
+	part := fmt.Sprintf("%s.%d.part", file, os.Getpid())
+	f, err := os.Create(part)
 	if err != nil {
 		return err
 	}
@@ -77,7 +79,14 @@ func (repoDb *RepoDb) Encode(file string) error {
 
 	// Encoding the map
 	err = e.Encode(repoDb.DescriptionsBySourceType)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(part, file)
+	}
 	if err != nil {
+		os.Remove(part)
 		return err
 	}
 	return nil
-- 
2.43.0


From 2d398540ed8c95dbf0be23a824a0058d5220623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 11/53] fix: keep cached package databases of different repo
 suffixes apart

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index fbddbd2..1649429 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -103,7 +103,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion+repoDb.RepoSuffix)
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From 16c99ce9271a151600bff4075dcf7bc5d12562a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 12/53] fix: keep cached package databases with and without
 binaries apart

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 1649429..cef68e1 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -103,7 +103,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion+repoDb.RepoSuffix)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(int(stsum))+rVersion+repoDb.RepoSuffix)
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From 71039f89e9a8d998c1bf1f9f2a122810f25fe0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:15 +0000
Subject: [PATCH 13/53] fix: let an installation end after a failure or a
 package requested twice

---
 rcmd/install.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 28a40b3..510d743 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -425,6 +425,7 @@ func InstallPackagePlan(
 		ncpu,
 		InstallThroughBinary,
 		func(iu InstallUpdate) {
+			defer wg.Done()
 			if iu.Err != nil {
 				log.WithField("err", iu.Err).Warn("error installing")
 				anyFailed = true
@@ -494,7 +495,6 @@ func InstallPackagePlan(
 
 				}
 			}
-			wg.Done()
 		}, // End anonymous function
 	) // End NewInstallQueue
 	go func(c chan string) {
@@ -502,6 +502,7 @@ func InstallPackagePlan(
 		for p := range c {
 			if anyFailed {
 				// stop trying to install any more
+				wg.Done()
 				continue
 			}
 
@@ -510,6 +511,7 @@ func InstallPackagePlan(
 			_, seen := requestedPkgs[p]
 			if seen {
 				// should only need to request a package once to install
+				wg.Done()
 				continue
 			} else {
 				requestedPkgs[p] = true
-- 
2.43.0


From 8a5e74617cb9a792890b921906d56f103cbe4bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 14/53] fix: report a missing package archive as a failed
 installation

---
 rcmd/install.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 510d743..6f05fda 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -85,6 +85,9 @@ func Install(
 		ok, err := afero.DirExists(fs, rdir)
 		if !ok || err != nil {
 			// TODO replace with better error
+			if err == nil {
+				err = fmt.Errorf("directory %s does not exist", rdir)
+			}
 			return CmdResult{
 				Stderr:   err.Error(),
 				ExitCode: 1,
@@ -111,7 +114,8 @@ func Install(
 			errs = err.Error()
 		} else {
 			// nil error not ok
-			errs = fmt.Sprintf("%s does not exist", pkgPath)
+			err = fmt.Errorf("%s does not exist", pkgPath)
+			errs = err.Error()
 		}
 		return CmdResult{
 			Stderr:   fmt.Sprintf("err: %s, ok: %v", errs, ok),
-- 
2.43.0


From 2e9318c43a1f6605ba9f652733efd81f52c62d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 15/53] fix: leave no truncated binary in the package cache

---
 rcmd/install.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 6f05fda..021fa4d 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -484,10 +484,17 @@ func InstallPackagePlan(
 						rs.Version.ToString(),
 						filepath.Base(iu.BinaryPath),
 					)
-					_, err := goutils.Copy(iu.BinaryPath, bpath)
+					// copied next to its final name and renamed, such that an
+					// interrupted copy never looks like a cached binary
+					partial := fmt.Sprintf("%s.%d.part", bpath, os.Getpid())
+					_, err := goutils.Copy(iu.BinaryPath, partial)
+					if err == nil {
+						err = os.Rename(partial, bpath)
+					}
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
+						os.Remove(partial)
 						return
 					}
 					// want to delete binaries from the existing tmpdir
-- 
2.43.0


From dc31ddfff493f42e9ae6eb4329c644b35636f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 16/53] fix: remove only the named package from the package
 list

---
 configlib/config.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index 72a20fe..b3401f6 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -255,14 +255,14 @@ func remove(ymlfile string, packageName string) error {
 	}
 	var out []byte
 	i := 0
+	inPackages := false
 	lines := bytes.Split(yf, []byte("\n"))
 	for _, line := range lines {
 		i++
-		// trim the line to detect the start of the list of packages
-		// but do not write the trimmed string as it may cause an
-		// unneeded file diff to the yml file
-		sline := bytes.TrimLeft(line, " ")
-		if bytes.HasPrefix(sline, []byte("- "+packageName)) {
+		if startsSection(string(line)) {
+			inPackages = bytes.HasPrefix(line, []byte("Packages:"))
+		}
+		if inPackages && listEntry(string(line)) == packageName {
 			continue
 		}
 		out = append(out, line...)
@@ -277,6 +277,31 @@ func remove(ymlfile string, packageName string) error {
 	return nil
 }
 
+// startsSection tells if a line of the yml file starts a new top level setting,
+// rather than continuing one or being blank or a comment
+func startsSection(line string) bool {
+	return line != "" && !strings.ContainsAny(line[:1], " \t\r-#")
+}
+
+// listEntry gives the value of a line that is an entry of a list in the yml file,
+// without quotes or a trailing comment, or an empty string for any other line
+func listEntry(line string) string {
+	// only look at a trimmed copy, the line itself must be kept as is since
+	// anything else may cause an unneeded file diff to the yml file
+	line = strings.TrimSpace(line)
+	if !strings.HasPrefix(line, "- ") {
+		return ""
+	}
+	entry := strings.TrimSpace(line[1:])
+	if i := strings.Index(entry, " #"); i >= 0 {
+		entry = strings.TrimSpace(entry[:i])
+	}
+	if n := len(entry); n > 1 && (entry[0] == '"' || entry[0] == '\'') && entry[n-1] == entry[0] {
+		entry = entry[1 : n-1]
+	}
+	return entry
+}
+
 // SetCustomizations ... set ENV values in Rsettings
 func SetCustomizations(rSettings rcmd.RSettings, cfg PkgrConfig) rcmd.RSettings {
 	pkgCustomizationsSlice := cfg.Customizations.Packages
-- 
2.43.0


From 8f145f2de46c2643ac356e206eae86ea96e75c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 17/53] fix: add packages to an empty list, once each, and keep
 the other lines as they are

---
 configlib/add_package.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 75a816c..17cee1e 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -1,8 +1,6 @@
 package configlib
 
 import (
-	"bufio"
-	"bytes"
 	"fmt"
 	"github.com/dpastoor/goutils"
 	log "github.com/sirupsen/logrus"
@@ -22,11 +20,8 @@ func AddPackages(pkgs []string) error {
 	if err != nil {
 		return err
 	}
-	var lines []string
-	scanner := bufio.NewScanner(bytes.NewReader(yf))
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
-	}
+	// only split at line feeds, such that every existing line is written as it was read
+	lines := strings.Split(strings.TrimSuffix(string(yf), "\n"), "\n")
 
 	var pc PkgrConfig
 	err = yaml.Unmarshal(yf, &pc)
@@ -35,12 +30,15 @@ func AddPackages(pkgs []string) error {
 	}
 
 	for _, p := range pkgs {
-		if funk.ContainsString(pc.Packages, p) {
+		if funk.ContainsString(pc.Packages, p) || funk.ContainsString(pkgsToInstall, p) {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
 		pkgsToInstall = append(pkgsToInstall, p)
 	}
+	if len(pkgsToInstall) == 0 {
+		return nil
+	}
 	newYml := insertPackages(lines, pkgsToInstall...)
 	err = goutils.WriteLines(newYml, ymlfile)
 	return err
@@ -81,14 +79,17 @@ func insertPackages(lines []string, pkgs ...string) []string {
 	} else {
 		outputLines = append(outputLines, lines[:packageStartIndex+1]...)
 		// given comments might precede packages, we need to find the first non-comment line
-		var firstPackageIndex int
-		for i, l := range lines[packageStartIndex:] {
+		// of the list, which may be empty
+		numPadding := 0
+		for _, l := range lines[packageStartIndex+1:] {
+			if startsSection(l) {
+				break
+			}
 			if strings.HasPrefix(strings.TrimSpace(l), "-") {
-				firstPackageIndex = i
+				numPadding = strings.Index(l, "-")
 				break
 			}
 		}
-		numPadding := strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
 
 		padding := strings.Repeat(" ", numPadding)
 		for _, pkg := range pkgs {
-- 
2.43.0


From b40db2698902c002014526d0350fde31d6332575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 18/53] fix: keep the lines of a DESCRIPTION that only mention
 a pkgr field and the full original repository

---
 rcmd/install.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 021fa4d..1e820cc 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -614,14 +614,14 @@ func updateDescriptionInfoByLines(lines []string, version, installType, repoURL,
 		//log.Info("Starting repo: " + repo)
 
 		// Don't add these lines to final set, if they exist. This way, we can add/"overwrite" them at the end.
-		if strings.Contains(line, "PkgrVersion:") ||
-			strings.Contains(line, "PkgrInstallType:") ||
-			strings.Contains(line, "PkgrRepositoryURL") {
+		if strings.HasPrefix(line, "PkgrVersion:") ||
+			strings.HasPrefix(line, "PkgrInstallType:") ||
+			strings.HasPrefix(line, "PkgrRepositoryURL:") {
 			continue
 		}
 
 		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
-			originalRepo := strings.Trim(strings.Split(line, ":")[1], " ")
+			originalRepo := strings.Trim(strings.TrimPrefix(line, "Repository:"), " ")
 			newLines = append(newLines, "OriginalRepository: "+originalRepo)
 			line = "Repository: " + repo
 		}
-- 
2.43.0


From 3a76985152e5eed53300e8574a65de85f6770c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 19/53] fix: keep values of environment variables that contain
 an equal sign

---
 rcmd/nvp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/nvp.go b/rcmd/nvp.go
index 76b3265..cc183f5 100644
--- a/rcmd/nvp.go
+++ b/rcmd/nvp.go
@@ -12,7 +12,7 @@ func (list *NvpList) Append(name, value string) {
 
 // AppendNvp append a string of name=value pair to the list as an Nvp object
 func (list *NvpList) AppendNvp(nvp string) {
-	b := strings.Split(nvp, "=")
+	b := strings.SplitN(nvp, "=", 2)
 	if len(b) == 2 {
 		list.Append(b[0], b[1])
 	}
-- 
2.43.0


From 7cafa26f8b55f47987214347b905f3fa0a3bd45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 20/53] fix: put the directory of R first on PATH when another
 one merely starts like it

---
 rcmd/configure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 4a73e6b..126a9a0 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -56,7 +56,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			}
 			if evs[0] == "PATH" {
 				rDir := filepath.Dir(rs.Rpath)
-				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
+				if rDir != "" && rDir != "." && filepath.Clean(strings.SplitN(evs[1], ":", 2)[0]) != rDir {
 					evs[1] = fmt.Sprintf("%s:%s", rDir, evs[1])
 					log.WithField("path", evs[1]).Debug("adding Rpath to front of system PATH")
 				}
-- 
2.43.0


From 0750bdd5ae1707e8bf309ca4a6cd27134528f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 21/53] fix: cap the default number of workers at eight and let
 load run without a thread count

---
 cmd/load.go         | 1 +
 configlib/config.go | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/load.go b/cmd/load.go
index d57d5e7..ea8f2bd 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -99,6 +99,7 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 	report := InitLoadReport(getRSessionMetadata(rs, rDir))
 
 	resultsChannel := make(chan LoadResult, len(toLoad))
+	threads = getWorkerCount(threads, runtime.GOMAXPROCS(0))
 	sem := make(chan int, threads*2)
 
 	log.WithFields(
diff --git a/configlib/config.go b/configlib/config.go
index b3401f6..5c5c69e 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
-	"runtime"
 	"strings"
 
 	homedir "github.com/mitchellh/go-homedir"
@@ -215,8 +214,9 @@ func loadDefaultSettings() {
 	viper.SetDefault("loglevel", "info")
 	// path to R on system, defaults to R in path
 	viper.SetDefault("rpath", "R")
-	// setting this to GOMAXPROCS(0) because NumCPU() won't work well with the scheduler.
-	viper.SetDefault("threads", runtime.GOMAXPROCS(0))
+	// 0 means not set by the user, so that the number of workers is chosen
+	// (and capped) when they are started
+	viper.SetDefault("threads", 0)
 }
 
 // IsCustomizationSet ...
-- 
2.43.0


From 6aa0bd6840f8c0a9bc5605daecd043ec374cad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 22/53] fix: announce only the packages of the plan as to be
 installed or updated

---
 cmd/plan.go          | 10 +++----
 gpsr/dependencies.go | 63 +++++++++++++++++++++++++++++++++-----------
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 83490c7..224f213 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -262,18 +262,18 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 
 	pkgs := installPlan.GetAllPackages()
 
-	pkgsToUpdateCount := 0
+	packagesToUpdate := installPlan.GetPackagesToUpdate()
+	pkgsToUpdateCount := len(packagesToUpdate)
 	for _, p := range installPlan.OutdatedPackages {
 		updateLogFields := log.Fields{
 			"pkg":               p.Package,
 			"installed_version": p.OldVersion,
 			"update_version":    p.NewVersion,
 		}
-		if cfg.NoUpdate {
-			log.WithFields(updateLogFields).Warn("outdated package found")
-		} else {
+		if funk.Contains(packagesToUpdate, p) {
 			log.WithFields(updateLogFields).Info("package will be updated")
-			pkgsToUpdateCount = len(installPlan.OutdatedPackages)
+		} else {
+			log.WithFields(updateLogFields).Warn("outdated package found")
 		}
 	}
 
diff --git a/gpsr/dependencies.go b/gpsr/dependencies.go
index 0f1d113..b981d12 100644
--- a/gpsr/dependencies.go
+++ b/gpsr/dependencies.go
@@ -153,25 +153,58 @@ func (ip *InstallPlan) GetAllPackages() []string {
 }
 
 func (ip *InstallPlan) GetNumPackagesToInstall() int {
-	requiredPackages := ip.GetAllPackages()
-
-	// Handle the case where packages not requested via pkgr.yml (or dependencies) are present in directory.
-	installedRequired := 0
-	for p := range ip.InstalledPackages {
+	update := make(map[string]bool)
+	for _, op := range ip.GetPackagesToUpdate() {
+		update[op.Package] = true
+	}
 
-		// AdditionalPackageSources are always installed, even if they're already present.
-		_, isAdditionalPkgInstallation := ip.AdditionalPackageSources[p]
+	// AdditionalPackageSources are always installed, even if they're already present.
+	toInstall := len(ip.AdditionalPackageSources)
 
-		if funk.Contains(requiredPackages, p) && !isAdditionalPkgInstallation {
-			installedRequired = installedRequired + 1
+	// Packages not requested via pkgr.yml (or dependencies) may be present in the library, so start from what is required.
+	for _, pkg := range ip.requiredFromRepos() {
+		_, installed := ip.InstalledPackages[pkg]
+		// These are moved out of the way before anything is installed, so their version from the repository is installed too.
+		_, overwritten := ip.AdditionalPackageSources[pkg]
+		if !installed || overwritten || update[pkg] {
+			toInstall++
 		}
 	}
-	toUpdate := 0
-	// Everything in OutdatedPackages should be required, otherwise pkgr wouldn't have checked for an updated version.
-	if ip.Update {
-		toUpdate = len(ip.OutdatedPackages)
-	}
 
-	return len(requiredPackages) - installedRequired + toUpdate
+	return toInstall
+}
+
+// GetPackagesToUpdate returns the outdated packages that installing the plan will update.
+func (ip *InstallPlan) GetPackagesToUpdate() []cran.OutdatedPackage {
+	var toUpdate []cran.OutdatedPackage
+	if !ip.Update {
+		return toUpdate
+	}
+	// OutdatedPackages covers the whole library, including packages that are not part of the plan
+	required := ip.requiredFromRepos()
+	for _, op := range ip.OutdatedPackages {
+		if funk.ContainsString(required, op.Package) {
+			toUpdate = append(toUpdate, op)
+		}
+	}
+	return toUpdate
+}
 
+// requiredFromRepos returns the packages of the plan that come from a repository, each once.
+func (ip *InstallPlan) requiredFromRepos() []string {
+	var required []string
+	seen := make(map[string]bool)
+	for _, pkg := range ip.StartingPackages {
+		if !seen[pkg] {
+			seen[pkg] = true
+			required = append(required, pkg)
+		}
+	}
+	for pkg := range ip.DepDb {
+		if !seen[pkg] {
+			seen[pkg] = true
+			required = append(required, pkg)
+		}
+	}
+	return required
 }
-- 
2.43.0


From 4fd2095c14ddb411315858d6b94074aa0994b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 23/53] fix: never lose an installed package in a rollback

---
 cmd/install.go         |  7 ++++++-
 rollback/operations.go | 41 ++++++++++++++++++++++++++++++-----------
 rollback/types.go      | 18 +++++++++++++++---
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index b8ad05a..d75e1a7 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -136,18 +136,23 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
+	keepBackups := false
 	if !cfg.NoRollback {
 		// If anything went wrong during the installation, rollback the environment.
 		if err != nil || errInstallAdditional != nil {
 			errRollback := rollback.RollbackPackageEnvironment(fs, rollbackPlan)
 			if errRollback != nil {
+				// the backups may be all that is left of a package
+				keepBackups = true
 				log.WithFields(log.Fields{}).Error("failed to reset package environment after bad installation. Your package Library will be in a corrupt state. It is recommended you delete your Library and reinstall all packages.")
 			}
 		}
 	}
 	// If any packages were being updated, we need to remove any leftover backup folders that were created.
 	// Errors are handled in the lower functions
-	_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	if !keepBackups {
+		_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	}
 
 	log.Info("duration:", time.Since(startTime))
 
diff --git a/rollback/operations.go b/rollback/operations.go
index fd901cf..5774b0a 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -27,6 +27,9 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 		return nil
 	}
 
+	// Keep going after an error, such that everything else is still restored.
+	var err error
+
 	for _, pkg := range rbp.NewPackages {
 		err1 := fileSystem.RemoveAll(filepath.Join(rbp.Library, pkg))
 		if err1 != nil {
@@ -34,7 +37,7 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 				"library": rbp.Library,
 				"package": pkg,
 			}).Warn("failed to remove package during rollback", err1)
-			return err1
+			err = err1
 		}
 	}
 
@@ -43,7 +46,7 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	if len(rbp.UpdateRollbacks) > 0 {
 		err2 := rollbackChangedPackages(fileSystem, rbp.UpdateRollbacks)
 		if err2 != nil {
-			return err2
+			err = err2
 		}
 	}
 
@@ -51,11 +54,11 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	if len(rbp.AdditionalPkgRollbacks) > 0 {
 		err3 := rollbackChangedPackages(fileSystem, rbp.AdditionalPkgRollbacks)
 		if err3 != nil {
-			return err3
+			err = err3
 		}
 	}
 
-	return nil
+	return err
 }
 
 func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateAttempt) error {
@@ -90,6 +93,7 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 		return nil
 	}
 
+	var err error
 	for _, info := range packageBackupInfo {
 
 		logrus.WithFields(logrus.Fields{
@@ -98,7 +102,18 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 			"failed_to_update_to": info.NewVersion,
 		}).Warn("did not update package, restoring last-installed version")
 
-		_, err1 := fileSystem.Stat(info.ActivePackageDirectory) // Checking existence
+		// Never remove a package that cannot be restored.
+		_, err1 := fileSystem.Stat(info.BackupPackageDirectory)
+		if err1 != nil {
+			logrus.WithFields(logrus.Fields{
+				"package":        info.Package,
+				"missing_backup": info.BackupPackageDirectory,
+			}).Warn("no backup to restore during package rollback")
+			err = err1
+			continue
+		}
+
+		_, err1 = fileSystem.Stat(info.ActivePackageDirectory) // Checking existence
 		if err1 == nil {
 			err1 = fileSystem.RemoveAll(info.ActivePackageDirectory)
 			if err1 != nil {
@@ -106,7 +121,8 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 					"package":           info.Package,
 					"problem_directory": info.ActivePackageDirectory,
 				}).Warn("could not delete directory during package rollback")
-				return err1
+				err = err1
+				continue
 			}
 		}
 
@@ -116,12 +132,12 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 			logrus.WithFields(logrus.Fields{
 				"pkg": info.Package,
 			}).Warn("could not rollback package -- package will need reinstallation.")
-			return err2
+			err = err2
 		}
 
 	}
 
-	return nil
+	return err
 }
 
 // createUpdateBackupFolders ...
@@ -130,13 +146,16 @@ func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdated
 
 	//Tag each outdated pkg directory in library with "__OLD__"
 	for _, pkg := range outdatedPackages {
-		updateAttempts = append(updateAttempts, tagOldInstallation(fileSystem, libraryPath, pkg))
+		updateAttempt, err := tagOldInstallation(fileSystem, libraryPath, pkg)
+		if err == nil {
+			updateAttempts = append(updateAttempts, updateAttempt)
+		}
 	}
 
 	return updateAttempts
 }
 
-func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) UpdateAttempt {
+func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) (UpdateAttempt, error) {
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
 	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
 
@@ -154,5 +173,5 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 		BackupPackageDirectory: taggedPackageDir,
 		OldVersion:             outdatedPackage.OldVersion,
 		NewVersion:             outdatedPackage.NewVersion,
-	}
+	}, err
 }
diff --git a/rollback/types.go b/rollback/types.go
index 9b827f8..b554df5 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -57,18 +57,30 @@ func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, libra
 	var overwriteAttempts []UpdateAttempt
 	for pkg := range rp.InstallPlan.AdditionalPackageSources {
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
-		if isPreinstalled {
-			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
+		// An outdated package has already been backed up for its update.
+		if isPreinstalled && !rp.isBackedUp(pkg) {
+			overwriteAttempt, err := tagOldInstallation(fs, library, cran.OutdatedPackage{
 				Package:    pkg,
 				OldVersion: preinstPkg.Version,
 				NewVersion: "[from tarball]",
 			})
-			overwriteAttempts = append(overwriteAttempts, overwriteAttempt)
+			if err == nil {
+				overwriteAttempts = append(overwriteAttempts, overwriteAttempt)
+			}
 		}
 	}
 	rp.AdditionalPkgRollbacks = overwriteAttempts
 }
 
+func (rp *RollbackPlan) isBackedUp(pkg string) bool {
+	for _, attempt := range rp.UpdateRollbacks {
+		if attempt.Package == pkg {
+			return true
+		}
+	}
+	return false
+}
+
 func (rp *RollbackPlan) DeleteBackupPackageFolders(fs afero.Fs) []error {
 	var errSlice []error
 	err1 := DeleteBackupPackageFolders(fs, rp.UpdateRollbacks)
-- 
2.43.0


From ce5f0daefc463d4b8dd0f6abf74b1165bf09b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 24/53] fix: download packages before the library is touched

---
 cmd/install.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index d75e1a7..70c668b 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -67,13 +67,27 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	//  as well as a master install plan to guide our process.
 	_, installPlan, rollbackPlan := planInstall(rVersion, true)
 
-	if installPlan.CreateLibrary {
-		if cfg.Strict {
-			log.WithFields(log.Fields{
-				"library": cfg.Library,
-			}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
-		}
+	if installPlan.CreateLibrary && cfg.Strict {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+		}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
+	}
+
+	// Fetch everything before the library is touched, such that a failure here leaves it as it is.
+
+	// Create a list of package download objects using our install plan and our "nexus" object.
+	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
+
+	// Retrieve a cache to store any packages we need to download for the install.
+	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
+
+	// Create a pkgMap object, which helps us with parallel downloads (?)
+	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
+	if err != nil {
+		log.Fatalf("error downloading packages: %s", err)
+	}
 
+	if installPlan.CreateLibrary {
 		err := fs.MkdirAll(cfg.Library, 0755)
 		if err != nil {
 			log.WithFields(log.Fields{
@@ -89,18 +103,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	}
 	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
-	// Create a list of package download objects using our install plan and our "nexus" object.
-	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
-
-	// Retrieve a cache to store any packages we need to download for the install.
-	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
-
-	// Create a pkgMap object, which helps us with parallel downloads (?)
-	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
-	if err != nil {
-		log.Fatalf("error downloading packages: %s", err)
-	}
-
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
 	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
-- 
2.43.0


From 3f18780b8c3bd577aed3e1cda52743158e2ee562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 25/53] fix: plan the packages a tarball or DESCRIPTION file
 lists under Depends

---
 desc/structs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/desc/structs.go b/desc/structs.go
index 01806d7..fd2b478 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -81,6 +81,13 @@ type Desc struct {
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
 	combined := map[string]Dep{}
 
+	for key, value := range d.Depends {
+		// R is the platform, not a package to install.
+		if key == "R" {
+			continue
+		}
+		combined[key] = value
+	}
 	for key, value := range d.Imports {
 		combined[key] = value
 	}
-- 
2.43.0


From 1023702ddf0099b10ebc97cf0628928437b9cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 26/53] fix: pkgr load attempts every selected package exactly
 once

---
 cmd/load.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/load.go b/cmd/load.go
index ea8f2bd..fa03a2c 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -89,11 +89,18 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 
 	log.Info("finished getting packages from `pkgr plan`__________________")
 
-	var toLoad []string
+	selected := userPackages
 	if all {
-		toLoad = installPlan.GetAllPackages()
-	} else {
-		toLoad = userPackages
+		// The plan doesn't have the user packages if any of them is missing from the repositories.
+		selected = append(installPlan.GetAllPackages(), userPackages...)
+	}
+
+	// A package can be listed more than once, or be both in a repository and a tarball.
+	var toLoad []string
+	for _, pkg := range selected {
+		if !stringInSlice(pkg, toLoad) {
+			toLoad = append(toLoad, pkg)
+		}
 	}
 
 	report := InitLoadReport(getRSessionMetadata(rs, rDir))
-- 
2.43.0


From e8924551fbab2aa629932fd3f16cb53723357355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 27/53] fix: cleaning a cache that does not exist does not
 crash

---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 923c19c..0b2ca7d 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -136,10 +136,10 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
-	defer cacheDirFsObject.Close()
 	if err != nil {
 		return err
 	}
+	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
 	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
-- 
2.43.0


From 1526be2460fb31c28241eb01bce8effafaae0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 28/53] fix: clean unpacked tarballs from the default cache
 directory

---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 0b2ca7d..1c554dd 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -113,7 +113,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cfg.Cache, hashedDirectoryName))
+		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
-- 
2.43.0


From a587f36247afa8597f14100ccc7ae456e91f3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 29/53] fix: a plan without repository packages does not crash

---
 gpsr/solution.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index 3816786..7548c5d 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -82,8 +82,13 @@ func ResolveInstallationReqs(
 
 	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
 
+	var startingPackages []string
+	if len(resolved) > 0 { // there are no layers if there is nothing to install from the repositories
+		startingPackages = resolved[0]
+	}
+
 	installPlan := InstallPlan{
-		StartingPackages:  resolved[0],
+		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
 		OutdatedPackages:  outdatedPackages,
-- 
2.43.0


From 35c1d477fe68afa042b8b4fa7ec134dd94832752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 30/53] fix: refuse hard links in tarballs instead of writing
 empty files

---
 internal/archive/extract.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/archive/extract.go b/internal/archive/extract.go
index bc25c50..4f1b226 100644
--- a/internal/archive/extract.go
+++ b/internal/archive/extract.go
@@ -85,6 +85,11 @@ func extractFile(ctx context.Context, fi archives.FileInfo, root *os.Root) error
 	case mode.IsDir():
 		return os.MkdirAll(filename, 0o777)
 	case mode.IsRegular():
+		// A hard link has the mode of a regular file, but its entry has no content.
+		if fi.LinkTarget != "" {
+			return fmt.Errorf("unsupported link: %q -> %q", fi.NameInArchive, fi.LinkTarget)
+		}
+
 		// Don't assume that an entry for each parent directory was already
 		// encountered or that an entry even exists (issue 259).
 		if err := os.MkdirAll(filepath.Dir(filename), 0o777); err != nil {
-- 
2.43.0


From c3d6eedf3e8715c04e8b7d4c29494c589b8dbc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 31/53] fix: do not take a partially extracted tarball in the
 cache for the whole

---
 cmd/tarballOps.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 4bbd650..f508355 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -84,7 +84,7 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 			"source_tarball": path,
 		}).Debug("using cached tarball.")
 	} else {
-		err = archive.Extract(path, tarballDirectoryPath)
+		err = extractTarball(path, tarballDirectoryPath)
 		if err != nil {
 			logrus.WithFields(logrus.Fields{
 				"path": path,
@@ -136,6 +136,32 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 	return filepath.Join(tarballDirectoryPath, extractedDirs[0].Name())
 }
 
+// extractTarball extracts the tarball at path to the directory dir.  dir does not exist before all of the tarball has
+// been extracted, because an existing dir is taken for the complete tarball by later runs.
+func extractTarball(path string, dir string) error {
+	if err := os.MkdirAll(filepath.Dir(dir), 0777); err != nil {
+		return err
+	}
+	tmp, err := os.MkdirTemp(filepath.Dir(dir), filepath.Base(dir)+".partial")
+	if err != nil {
+		return err
+	}
+	defer os.RemoveAll(tmp)
+
+	// Extract into a subdirectory, because the temporary directory is not accessible for other users.
+	extracted := filepath.Join(tmp, filepath.Base(dir))
+	if err := archive.Extract(path, extracted); err != nil {
+		return err
+	}
+	if err := os.Rename(extracted, dir); err != nil {
+		if fi, errStat := os.Stat(dir); errStat == nil && fi.IsDir() {
+			return nil // extracted by another process in the meantime
+		}
+		return err
+	}
+	return nil
+}
+
 func getHashedTarballName(tgzFile afero.File) (string, error) {
 	hash := md5.New()
 	_, err := io.Copy(hash, tgzFile)
-- 
2.43.0


From d88e395b555337d06e3ccb249aedbb25b52cb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 32/53] fix: do not take the backup of a package for an
 installed one

---
 pacman/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pacman/utils.go b/pacman/utils.go
index d6db434..cb7f6b1 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/dpastoor/goutils"
 	"github.com/metrumresearchgroup/pkgr/cran"
@@ -27,6 +28,10 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
+		if strings.HasPrefix(pkgFolder, "__OLD__") {
+			// the backup of a package, left behind by an installation that was killed
+			continue
+		}
 		descriptionFilePath := filepath.Join(libraryPath, pkgFolder, "DESCRIPTION")
 		installedPackage, err := scanInstalledPackage(descriptionFilePath, fileSystem)
 
-- 
2.43.0


From ab7ae3587becb6a4a7656d56d92d3462d749ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 33/53] fix: leave no part of a package behind when a rollback
 is interrupted, nor keep a new backup from being made

---
 rollback/operations.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/rollback/operations.go b/rollback/operations.go
index 5774b0a..b1986e3 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -14,6 +14,10 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	logrus.Trace("Resetting package environment")
 
 	if rbp.InstallPlan.CreateLibrary {
+		for _, pkg := range rbp.NewPackages {
+			_ = removePackage(fileSystem, filepath.Join(rbp.Library, pkg))
+		}
+
 		err0 := fileSystem.RemoveAll(rbp.Library)
 
 		if err0 != nil {
@@ -31,7 +35,7 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	var err error
 
 	for _, pkg := range rbp.NewPackages {
-		err1 := fileSystem.RemoveAll(filepath.Join(rbp.Library, pkg))
+		err1 := removePackage(fileSystem, filepath.Join(rbp.Library, pkg))
 		if err1 != nil {
 			logrus.WithFields(logrus.Fields{
 				"library": rbp.Library,
@@ -61,6 +65,21 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	return err
 }
 
+// removePackage removes the directory of a package. It is moved out of the way first, such that no part of the package
+// stays behind under its name, where it would be taken for the package, when the removal does not come to its end.
+func removePackage(fileSystem afero.Fs, packageDir string) error {
+	removedDir := filepath.Join(filepath.Dir(packageDir), "__OLD__removed-"+filepath.Base(packageDir))
+	if err := fileSystem.RemoveAll(removedDir); err == nil {
+		if err = fileSystem.Rename(packageDir, removedDir); err == nil {
+			if err = fileSystem.RemoveAll(removedDir); err != nil {
+				logrus.WithField("problem_directory", removedDir).Warn("could not delete removed package")
+			}
+			return nil
+		}
+	}
+	return fileSystem.RemoveAll(packageDir)
+}
+
 func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateAttempt) error {
 	if len(packageBackupInfo) == 0 {
 		logrus.Debug("No update-packages to restore.")
@@ -115,7 +134,7 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 
 		_, err1 = fileSystem.Stat(info.ActivePackageDirectory) // Checking existence
 		if err1 == nil {
-			err1 = fileSystem.RemoveAll(info.ActivePackageDirectory)
+			err1 = removePackage(fileSystem, info.ActivePackageDirectory)
 			if err1 != nil {
 				logrus.WithFields(logrus.Fields{
 					"package":           info.Package,
@@ -159,6 +178,13 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
 	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
 
+	// A backup left behind by an installation that was killed would be in the way.
+	if ok, _ := afero.DirExists(fileSystem, packageDir); ok {
+		if err := fileSystem.RemoveAll(taggedPackageDir); err != nil {
+			logrus.WithField("backup dir", taggedPackageDir).Warn("could not remove old backup of package")
+		}
+	}
+
 	err := fileSystem.Rename(packageDir, taggedPackageDir)
 	//err := RenameDirRecursive(fileSystem, packageDir, taggedPackageDir)
 
-- 
2.43.0


From 95650eb50db436066e7594155140e7d4db8fd2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 34/53] fix: keep the DESCRIPTION of a package when its update
 is interrupted

---
 rcmd/install.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 1e820cc..11ac042 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -592,9 +592,20 @@ func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL,
 
 // writes a slice of strings out to a file. Adds newline characters to the end of the each line.
 func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string) error {
-	err := goutils.WriteLinesFS(fs, update, filename)
+	// write to a temporary name first, so that the package always has a complete DESCRIPTION
+	part := fmt.Sprintf("%s.%d.part", filename, os.Getpid())
+	err := goutils.WriteLinesFS(fs, update, part)
+	if err == nil {
+		if fi, errStat := fs.Stat(filename); errStat == nil {
+			err = fs.Chmod(part, fi.Mode())
+		}
+	}
+	if err == nil {
+		err = fs.Rename(part, filename)
+	}
 
 	if err != nil {
+		fs.Remove(part)
 		log.WithFields(log.Fields{
 			"filename": filename,
 		}).Error("could not update DESCRIPTION file", err)
-- 
2.43.0


From 7b7f0dc45cfa1ef4896cf3f4a5fda8ccce0a3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 35/53] fix: keep the configuration file when an edit of it
 fails or is interrupted

---
 configlib/add_package.go |  4 +---
 configlib/config.go      | 31 ++++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 17cee1e..9d2dca4 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -2,7 +2,6 @@ package configlib
 
 import (
 	"fmt"
-	"github.com/dpastoor/goutils"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
@@ -40,8 +39,7 @@ func AddPackages(pkgs []string) error {
 		return nil
 	}
 	newYml := insertPackages(lines, pkgsToInstall...)
-	err = goutils.WriteLines(newYml, ymlfile)
-	return err
+	return replaceFile(appFS, ymlfile, []byte(strings.Join(newYml, "\n")+"\n"))
 }
 
 
diff --git a/configlib/config.go b/configlib/config.go
index 5c5c69e..5b08dc5 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -248,8 +248,7 @@ func RemovePackage(name string) error {
 // remove remove a package from the Package section of the yml config file
 func remove(ymlfile string, packageName string) error {
 	appFS := afero.NewOsFs()
-	yf, _ := afero.ReadFile(appFS, ymlfile)
-	fi, err := os.Stat(ymlfile)
+	yf, err := afero.ReadFile(appFS, ymlfile)
 	if err != nil {
 		return err
 	}
@@ -270,13 +269,39 @@ func remove(ymlfile string, packageName string) error {
 			out = append(out, []byte("\n")...)
 		}
 	}
-	err = afero.WriteFile(appFS, ymlfile, out, fi.Mode())
+	err = replaceFile(appFS, ymlfile, out)
 	if err != nil {
 		return err
 	}
 	return nil
 }
 
+// replaceFile gives an existing file new content.  The file has either its old or its new content, even when the
+// writing fails or is interrupted.
+func replaceFile(fs afero.Fs, path string, content []byte) error {
+	path, err := filepath.EvalSymlinks(path)
+	if err != nil {
+		return err
+	}
+	fi, err := fs.Stat(path)
+	if err != nil {
+		return err
+	}
+	part := fmt.Sprintf("%s.%d.part", path, os.Getpid())
+	err = afero.WriteFile(fs, part, content, fi.Mode())
+	if err == nil {
+		// regardless of the umask
+		err = fs.Chmod(part, fi.Mode())
+	}
+	if err == nil {
+		err = fs.Rename(part, path)
+	}
+	if err != nil {
+		fs.Remove(part)
+	}
+	return err
+}
+
 // startsSection tells if a line of the yml file starts a new top level setting,
 // rather than continuing one or being blank or a comment
 func startsSection(line string) bool {
-- 
2.43.0


From 26dc8cd4af6d1b435be784e3fd7ae0917721b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 36/53] fix: find a configuration file given by a relative path
 after changing to its directory

add, remove and load used the path given by --config, which is relative to
the directory pkgr was started in, after changing to the directory of the
configuration file. Outside of that directory, add and remove did not find
the file (nor did the second reading of add --install) and load started R in
a directory that does not exist.
---
 cmd/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/root.go b/cmd/root.go
index d28905d..bf1cfba 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -133,6 +133,10 @@ func initConfig() {
 		cfg.NoUpdate = false
 	}
 	configFilePath, _ := filepath.Abs(viper.ConfigFileUsed())
+	// A relative path to the configuration file is not valid anymore once the
+	// directory is changed, but commands still need to find the file.
+	viper.SetConfigFile(configFilePath)
+	viper.Set("config", configFilePath)
 	cwd, _ := os.Getwd()
 	log.WithFields(log.Fields{
 		"cwd": cwd,
-- 
2.43.0


From b5a5c64e2611b91fc7f58bd7ae418dccead49b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 37/53] fix: start the configured R when RPath is relative or
 needed for the library

A relative RPath was passed on as it is and so did not name the executable
any more whenever R is started in another directory, as it is for every
build. With Lockfile, R was started to determine the library before the ~ in
RPath was expanded.
---
 configlib/config.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index 5b08dc5..fa8190e 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -43,6 +43,9 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 		log.Fatalf("error parsing pkgr.yml: %s\n", err)
 	}
 
+	// R may be needed to determine the library.
+	cfg.RPath = resolveRPath(cfg.RPath)
+
 	if len(cfg.Library) == 0 {
 		rs := rcmd.NewRSettings(cfg.RPath)
 		rVersion := rcmd.GetRVersion(&rs)
@@ -51,7 +54,6 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 
 	// For all cfg	values that can be repos, make sure that ~ is expanded to the home directory.
 	cfg.Library = expandTilde(cfg.Library)
-	cfg.RPath = expandTilde(cfg.RPath)
 	cfg.Tarballs = expandTildes(cfg.Tarballs)
 	cfg.Descriptions = expandTildes(cfg.Descriptions)
 	cfg.Repos = expandTildesRepos(cfg.Repos)
@@ -62,6 +64,25 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 	return
 }
 
+// resolveRPath returns the R executable for the configured value. A plain name
+// is left for the look up in PATH. Any other relative path is relative to the
+// configuration file; it is made absolute because R is not always started in
+// that directory.
+func resolveRPath(rpath string) string {
+	rpath = expandTilde(rpath)
+	if filepath.IsAbs(rpath) || !strings.ContainsAny(strings.TrimRight(rpath, "/"), "/"+string(filepath.Separator)) {
+		return rpath
+	}
+	abs, err := filepath.Abs(filepath.Join(filepath.Dir(viper.ConfigFileUsed()), rpath))
+	if err != nil {
+		log.WithFields(log.Fields{
+			"path":  rpath,
+			"error": err,
+		}).Fatal("problem parsing config file -- could not determine path of R")
+	}
+	return abs
+}
+
 /// expand the ~ at the beginning of a path to the home directory.
 /// consider any problems a fatal error.
 func expandTilde(p string) string {
-- 
2.43.0


From 0c42739c38a5eaede539c2b5e1de246ce32bd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 38/53] fix: ask renv for the library of the configuration
 file's project

With --config naming a file in another directory, renv was run in the
directory pkgr was started in and so reported the library of a different
project.
---
 configlib/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index fa8190e..802a203 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -126,7 +126,7 @@ func expandTildesRepos(repos []map[string]string) []map[string]string {
 }
 
 // getRenvLibrary calls renv to discover the library path for the
-// current working directory.  This enables matching renv's location
+// directory of the configuration file.  This enables matching renv's location
 // without trying to implement custom logic that needs to align and
 // stay up to date with renv's own.
 func getRenvLibrary(rpath string) (string, error) {
@@ -136,7 +136,9 @@ func getRenvLibrary(rpath string) (string, error) {
 	res, err := rcmd.RunRscriptWithArgs(
 		afero.NewOsFs(), "", rs,
 		[]string{"-e", "cat('\n_pkgr_', renv::paths$library(), '_pkgr_\n', sep = '')"},
-		"")
+		// the project of the configuration file, which the current directory
+		// may not be yet
+		filepath.Dir(viper.ConfigFileUsed()))
 
 	if err != nil {
 		if exerr, ok := err.(*exec.ExitError); ok {
-- 
2.43.0


From 323d8621d836a9847b4c66eb16ded36d9f247aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:36 +0000
Subject: [PATCH 39/53] fix: do not panic on a package customization without
 settings

An entry such as '- dplyr:' in Customizations: Packages: is null rather than
a map, and asking whether one of its settings is set panicked.
---
 configlib/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index 802a203..50a9f1f 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -247,7 +247,9 @@ func IsCustomizationSet(key string, elems []interface{}, elem string) bool {
 	for _, v := range elems {
 		for k, iv := range v.(map[interface{}]interface{}) {
 			if k == elem {
-				for k2 := range iv.(map[interface{}]interface{}) {
+				// an entry without any setting is not a map
+				settings, _ := iv.(map[interface{}]interface{})
+				for k2 := range settings {
 					if k2 == key {
 						return true
 					}
-- 
2.43.0


From 17bb1e6969af19788e14874e97862618c1eb080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 40/53] fix: understand the != operator of a dependency

Writing R Extensions lists it among the comparison operators, and a single
record using it in an index made every command panic.
---
 cran/repodb.go  | 2 ++
 desc/desc.go    | 3 +++
 desc/structs.go | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index cef68e1..0846afa 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -318,6 +318,8 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) <= 0
 	case desc.Equals:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) == 0
+	case desc.NotEquals:
+		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) != 0
 	default:
 		break
 	}
diff --git a/desc/desc.go b/desc/desc.go
index 7203ead..9bc31b4 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -25,6 +25,9 @@ func ParseDep(d string) Dep {
 		if strings.Contains(pv, "==") {
 			dep.Constraint = Equals
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "==", "", 1)))
+		} else if strings.Contains(pv, "!=") {
+			dep.Constraint = NotEquals
+			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "!=", "", 1)))
 		} else if strings.Contains(pv, ">=") {
 			dep.Constraint = GTE
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, ">=", " ", 1)))
diff --git a/desc/structs.go b/desc/structs.go
index fd2b478..ebabe4c 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -15,6 +15,8 @@ func (c Constraint) ToString() string {
 		return "<="
 	case Equals:
 		return "=="
+	case NotEquals:
+		return "!="
 	default:
 		return "Unknown constraint"
 	}
@@ -29,6 +31,7 @@ const (
 	Equals
 	LTE
 	LT
+	NotEquals
 )
 
 // Version represents a package version
-- 
2.43.0


From c0af8722bf7b477977c73ac708c4b90d6d9f1ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 41/53] fix: write the log records of all commands to the
 configured file

---
 cmd/cleanCache.go | 2 ++
 cmd/cleanPkgdb.go | 2 ++
 cmd/load.go       | 2 ++
 cmd/plan.go       | 2 ++
 cmd/run.go        | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 1c554dd..bcd88a1 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -23,6 +23,7 @@ import (
 	"github.com/spf13/afero"
 
 	"github.com/dpastoor/goutils"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
 )
@@ -61,6 +62,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	cleanCacheFolders()
 	return nil
 }
diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index 09a5124..b444078 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -18,6 +18,7 @@ import (
 	"strings"
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	log "github.com/sirupsen/logrus"
@@ -48,6 +49,7 @@ func init() {
 // Using a "middle man" function here allows us to call the cleanPackageDatabases function from the "clean"
 // command when "pkgr clean --all" is run. Without the middle man, passing in arguments becomes strange.
 func executeCommand(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	return cleanPackageDatabases(pkgdbsToClearArgument)
 }
 
diff --git a/cmd/load.go b/cmd/load.go
index fa03a2c..399a34c 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -36,6 +36,8 @@ loaded from the expected library.`,
   # Load the above packages and all their dependencies
   pkgr load --json --all`,
 	Run: func(cmd *cobra.Command, args []string) {
+		logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
+
 		all := viper.GetBool("all")
 		json := viper.GetBool("json")
 
diff --git a/cmd/plan.go b/cmd/plan.go
index 224f213..fafb072 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -32,6 +32,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 
 	"github.com/sajari/fuzzy"
@@ -65,6 +66,7 @@ func init() {
 }
 
 func plan(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	log.Infof("Installation would launch %v workers\n", getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)))
 	rs := rcmd.NewRSettings(cfg.RPath)
 	rVersion := rcmd.GetRVersion(&rs)
diff --git a/cmd/run.go b/cmd/run.go
index af34d99..3deb5ef 100644
--- a/cmd/run.go
+++ b/cmd/run.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/logger"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 
 	"github.com/spf13/cobra"
@@ -53,6 +54,7 @@ configuration file.
 
 func rRun(cmd *cobra.Command, args []string) error {
 
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	rs := rcmd.NewRSettings(cfg.RPath)
 	// installation through binary doesn't do this exactly, but its pretty close
 	// at least for experimentation for now. If necessary can refactor out the
-- 
2.43.0


From 9b06ebf360e9f54bf6e23f67e20d62f5d87d2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 42/53] fix: log each record once when 'pkgr add --install'
 uses the same file twice

---
 logger/logger.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index da5e38a..60454fb 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -100,9 +100,12 @@ func SetLogLevel(level string) {
 	}
 }
 
+// logFiles are the files that log records are already written to.
+var logFiles = make(map[string]bool)
+
 func AddLogFile(outputFile string, overwrite bool) {
 
-	if outputFile != "" {
+	if outputFile != "" && !logFiles[outputFile] {
 
 		var osFlag int
 
@@ -115,6 +118,7 @@ func AddLogFile(outputFile string, overwrite bool) {
 		fileHook, err := NewLogrusFileHook(outputFile, osFlag, 0666)
 		if err == nil {
 			log.AddHook(fileHook)
+			logFiles[outputFile] = true
 		}
 	}
 }
-- 
2.43.0


From c2057598abebda625cb5178da7ada62f2c65bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 43/53] fix: list packages from tarballs by their name, once,
 as to be installed

---
 cmd/plan.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index fafb072..c0b968f 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -310,7 +310,10 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 	if toInstall > 0 && toInstall != totalPackagesRequired {
 		// log which packages to install, but only if doing an incremental install
 		for _, pn := range pkgs {
-			//_, isAdditionalPkg := installPlan.AdditionalPackageSources[pn]
+			if _, isAdditionalPkg := installPlan.AdditionalPackageSources[pn]; isAdditionalPkg {
+				// these do not come from a repository, and are listed below
+				continue
+			}
 			if !funk.ContainsString(installedPackageNames, pn) {
 				pkgDesc, cfg, _ := pkgNexus.GetPackage(pn)
 				log.WithFields(log.Fields{
@@ -321,6 +324,13 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 				}).Info("to install")
 			}
 		}
+		for pn, additionalPkg := range installPlan.AdditionalPackageSources {
+			log.WithFields(log.Fields{
+				"package": pn,
+				"origin":  additionalPkg.OriginPath,
+				"method":  additionalPkg.Type,
+			}).Info("to install")
+		}
 	}
 
 	log.Infoln("resolution time", time.Since(startTime))
-- 
2.43.0


From 733833e98fba3db9f179d5876069a63a494b87ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 44/53] fix: clean package databases without fetching them and
 without unpacking tarballs

---
 cmd/cleanPkgdb.go | 41 +++++++++++++++------------
 cmd/plan.go       | 70 +++++++++++++++++++++++++----------------------
 cran/repodb.go    |  8 +++++-
 3 files changed, 68 insertions(+), 51 deletions(-)

diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index b444078..9047699 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -15,9 +15,11 @@
 package cmd
 
 import (
+	"os"
 	"strings"
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/cran"
 	"github.com/metrumresearchgroup/pkgr/logger"
 
 	"github.com/metrumresearchgroup/pkgr/rcmd"
@@ -72,45 +74,48 @@ func cleanPackageDatabases(pkgdbs string) error {
 	}
 
 	totalPackageDbsProvided := len(pkgdbsToClear)
-	totalPackageDbsDeleted := removePackageDatabases(pkgdbsToClear, cfg)
+	totalPackageDbsDeleted, err := removePackageDatabases(pkgdbsToClear, cfg)
 
 	log.WithFields(log.Fields{
 		"Packages specified": totalPackageDbsProvided,
 		"Packages removed":   totalPackageDbsDeleted,
 	}).Info("finished cleaning package dbs.")
 
-	return nil
+	return err
 }
 
-func removePackageDatabases(pkgdbsToClear []string, cfg configlib.PkgrConfig) error {
-	var err error
+// removePackageDatabases removes the cached databases of the named repositories and returns how many there were.
+// The repositories are not accessed for that, and nothing is planned.
+func removePackageDatabases(pkgdbsToClear []string, cfg configlib.PkgrConfig) (int, error) {
 	var lastErr error
+	deleted := 0
 
 	rs := rcmd.NewRSettings(cfg.RPath)
 
-	pkgNexus, _, _ := planInstall(rs.Version, false)
-	repoDatabases := pkgNexus.Db
+	repos, cic := configuredRepos()
 
 	for _, dbToClear := range pkgdbsToClear {
-		for _, repoDatabase := range repoDatabases {
-			if repoDatabase.Repo.Name == dbToClear {
+		for _, repo := range repos {
+			if repo.Name == dbToClear {
 				log.WithField("dbToClear", dbToClear).Trace("clearing pkgdb from cache")
+				repoDatabase := cran.NewUnfetchedRepoDb(repo, cran.DefaultType(), cic.Repos[repo.Name])
 				filepathToRemove := repoDatabase.GetRepoDbCacheFilePath(rs.Version.ToFullString())
-				_, err = fs.Stat(filepathToRemove)
+				_, err := fs.Stat(filepathToRemove)
+				if os.IsNotExist(err) {
+					log.WithField("file", filepathToRemove).Debug("no cached pkgdb to remove")
+					continue
+				}
+				log.Trace("attempting to remove " + filepathToRemove)
+				err = fs.Remove(filepathToRemove)
 				if err != nil {
+					log.Error(err)
 					lastErr = err
-					log.WithField("file", filepathToRemove).Warn("could not find file for removal")
-				} else {
-					log.Trace("attempting to remove " + filepathToRemove)
-					err = fs.Remove(filepathToRemove)
-					if err != nil {
-						log.Error(err)
-						lastErr = err
-					}
+					continue
 				}
+				deleted++
 			}
 		} //end inner for loop
 	} //end outer foor loop
 
-	return lastErr
+	return deleted, lastErr
 }
diff --git a/cmd/plan.go b/cmd/plan.go
index c0b968f..68de3a3 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -125,39 +125,8 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		//fs.Chmod(cfg.Library, 0755)
 	}
 
-	var repos []cran.RepoURL
-	for _, r := range cfg.Repos {
-		for nm, url := range r {
-			repo, _ := configlib.GetRepoCustomizationByName(nm, cfg.Customizations)
-			// for now no need to check if customization exists as the repo will have a default empty string
-			// regardless so no additional logic needed
-			repos = append(repos, cran.RepoURL{Name: nm, URL: url, Suffix: repo.RepoSuffix})
-		}
-	}
 	st := cran.DefaultType()
-	cic := cran.NewInstallConfig()
-	for _, repoSlice := range cfg.Customizations.Repos {
-		for rn, val := range repoSlice {
-			rc := cran.RepoConfig{}
-			if strings.EqualFold(val.RepoType, "MPN") {
-				rc.RepoType = cran.MPN
-				rc.DefaultSourceType = cran.Binary
-			}
-			if strings.EqualFold(val.RepoType, "RSPM") {
-				rc.RepoType = cran.RSPM
-			}
-			if strings.EqualFold(val.Type, "binary") {
-				rc.DefaultSourceType = cran.Binary
-			}
-			if strings.EqualFold(val.Type, "source") {
-				rc.DefaultSourceType = cran.Source
-			}
-			if val.RepoSuffix != "" {
-				rc.RepoSuffix = val.RepoSuffix
-			}
-			cic.Repos[rn] = rc
-		}
-	}
+	repos, cic := configuredRepos()
 	pkgNexus, err := cran.NewPkgDb(repos, st, cic, rv, cfg.NoSecure)
 	if err != nil {
 		log.Panicln("error getting pkgdb ", err)
@@ -353,6 +322,43 @@ func removeBasePackages(pkgList []string) []string {
 	return nonbasePkgList
 }
 
+// configuredRepos returns the repositories of the configuration and their customizations.
+func configuredRepos() ([]cran.RepoURL, *cran.InstallConfig) {
+	var repos []cran.RepoURL
+	for _, r := range cfg.Repos {
+		for nm, url := range r {
+			repo, _ := configlib.GetRepoCustomizationByName(nm, cfg.Customizations)
+			// for now no need to check if customization exists as the repo will have a default empty string
+			// regardless so no additional logic needed
+			repos = append(repos, cran.RepoURL{Name: nm, URL: url, Suffix: repo.RepoSuffix})
+		}
+	}
+	cic := cran.NewInstallConfig()
+	for _, repoSlice := range cfg.Customizations.Repos {
+		for rn, val := range repoSlice {
+			rc := cran.RepoConfig{}
+			if strings.EqualFold(val.RepoType, "MPN") {
+				rc.RepoType = cran.MPN
+				rc.DefaultSourceType = cran.Binary
+			}
+			if strings.EqualFold(val.RepoType, "RSPM") {
+				rc.RepoType = cran.RSPM
+			}
+			if strings.EqualFold(val.Type, "binary") {
+				rc.DefaultSourceType = cran.Binary
+			}
+			if strings.EqualFold(val.Type, "source") {
+				rc.DefaultSourceType = cran.Source
+			}
+			if val.RepoSuffix != "" {
+				rc.RepoSuffix = val.RepoSuffix
+			}
+			cic.Repos[rn] = rc
+		}
+	}
+	return repos, cic
+}
+
 func logAdditionalPackageOrigins(additionalPackages map[string]gpsr.AdditionalPkg) {
 	for pkg, details := range additionalPackages {
 		log.WithFields(log.Fields{
diff --git a/cran/repodb.go b/cran/repodb.go
index 0846afa..556826d 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -26,6 +26,12 @@ import (
 // This occasionally is needed for repos that have self signed or certs not fully verifiable
 // which will return errors such as x509: certificate signed by unknown authority
 func NewRepoDb(url RepoURL, dst SourceType, rc RepoConfig, rv RVersion, noSecure bool) (*RepoDb, error) {
+	repoDatabasePointer := NewUnfetchedRepoDb(url, dst, rc)
+	return repoDatabasePointer, repoDatabasePointer.FetchPackages(rv, noSecure)
+}
+
+// NewUnfetchedRepoDb returns the Repo database NewRepoDb does, but without fetching any packages
+func NewUnfetchedRepoDb(url RepoURL, dst SourceType, rc RepoConfig) *RepoDb {
 	repoDatabasePointer := &RepoDb{
 		DescriptionsBySourceType: make(map[SourceType]map[string]desc.Desc),
 		Time:                     time.Now(),
@@ -48,7 +54,7 @@ func NewRepoDb(url RepoURL, dst SourceType, rc RepoConfig, rv RVersion, noSecure
 
 	repoDatabasePointer.DescriptionsBySourceType[Source] = make(map[string]desc.Desc)
 
-	return repoDatabasePointer, repoDatabasePointer.FetchPackages(rv, noSecure)
+	return repoDatabasePointer
 }
 
 // Decode decodes the package database
-- 
2.43.0


From c1bb714eb2e2d84e4609a8d474c09434042d324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 45/53] fix: report a failure to clean the cache

---
 cmd/cleanCache.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index bcd88a1..3e53276 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -16,6 +16,7 @@ package cmd
 
 import (
 	"errors"
+	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -63,12 +64,12 @@ func init() {
 
 func cache(cmd *cobra.Command, args []string) error {
 	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
-	cleanCacheFolders()
-	return nil
+	return cleanCacheFolders()
 }
 
 func cleanCacheFolders() error {
 	cachePath := userCache(cfg.Cache)
+	var lastErr error
 	var repos []string // make empty
 	if reposToClear != "ALL" {
 		repos = strings.Split(reposToClear, ",")
@@ -85,17 +86,17 @@ func cleanCacheFolders() error {
 
 	if !srcOnly && !binariesOnly {
 		log.Info("clearing source and binary files from the cache")
-		deleteAllCacheSubfolders(fs, repos, cachePath)
+		lastErr = deleteAllCacheSubfolders(fs, repos, cachePath)
 	} else if srcOnly && binariesOnly {
 		err := errors.New("invalid argument combination -- cannot combine srcOnly and binaryOnly flags")
 		log.Error(err)
 		return err
 	} else if srcOnly {
 		log.Info("clearing source files only from the cache")
-		deleteCacheSubfolders(fs, repos, "src", cachePath)
+		lastErr = deleteCacheSubfolders(fs, repos, "src", cachePath)
 	} else if binariesOnly {
 		log.Info("clearing binary files only from the cache")
-		deleteCacheSubfolders(fs, repos, "binary", cachePath)
+		lastErr = deleteCacheSubfolders(fs, repos, "binary", cachePath)
 	} else {
 		return errors.New("'what? that's impossible! my logic is flawless!'")
 	}
@@ -121,23 +122,32 @@ func cleanCacheFolders() error {
 				"file":  tgzFile,
 				"error": err,
 			}).Error("error removing tarball from cache")
+			lastErr = err
 		}
 
 	}
 
-	return nil
+	return lastErr
 }
 
-func deleteAllCacheSubfolders(fs afero.Fs, repos []string, cacheDirectory string) {
-	deleteCacheSubfolders(fs, repos, "src", cacheDirectory)
-	deleteCacheSubfolders(fs, repos, "binary", cacheDirectory)
+func deleteAllCacheSubfolders(fs afero.Fs, repos []string, cacheDirectory string) error {
+	srcErr := deleteCacheSubfolders(fs, repos, "src", cacheDirectory)
+	err := deleteCacheSubfolders(fs, repos, "binary", cacheDirectory)
+	if err == nil {
+		err = srcErr
+	}
+	return err
 }
 
 func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheDirectory string) error {
-	var err error
+	var lastErr error
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
+	if os.IsNotExist(err) {
+		// there is nothing to delete
+		return nil
+	}
 	if err != nil {
 		return err
 	}
@@ -157,6 +167,7 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 			err = fs.RemoveAll(subfolderPath)
 			if err != nil {
 				log.Error(err)
+				lastErr = err
 			}
 
 			absoluteRepoPath, _ := filepath.Abs(filepath.Join(cacheDirectory, repoFolder))
@@ -165,6 +176,7 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 				err = fs.Remove(absoluteRepoPath)
 				if err != nil {
 					log.Error(err)
+					lastErr = err
 				}
 			}
 
@@ -191,6 +203,7 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 					err = fs.RemoveAll(subfolderPath)
 					if err != nil {
 						log.Error(err)
+						lastErr = err
 					}
 
 					absoluteRepoPath, _ := filepath.Abs(filepath.Join(cacheDirectory, repoFolder))
@@ -199,13 +212,14 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 						err = fs.Remove(absoluteRepoPath)
 						if err != nil {
 							log.Error(err)
+							lastErr = err
 						}
 					}
 				}
 			}
 		}
 	}
-	return err
+	return lastErr
 }
 
 func sliceToString(str []string) string {
-- 
2.43.0


From 9ede6e1edbbbbb5b0e31755b5adbb98133d084c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 46/53] fix: do not crash on a dependency with a version but no
 operator

---
 desc/desc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/desc/desc.go b/desc/desc.go
index 9bc31b4..98c5c29 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -1,11 +1,11 @@
 package desc
 
 import (
-	"fmt"
 	"io"
 	"os"
 	"strings"
 
+	log "github.com/sirupsen/logrus"
 	"pault.ag/go/debian/control"
 )
 
@@ -41,8 +41,8 @@ func ParseDep(d string) Dep {
 			dep.Constraint = LT
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "<", " ", 1)))
 		} else {
-			fmt.Println(pv)
-			panic(pv)
+			// one malformed record must not keep all others from being used
+			log.WithField("dependency", strings.TrimSpace(d)).Warn("ignoring version constraint without an operator")
 		}
 	}
 	return dep
-- 
2.43.0


From 44c240f16a17094c8c8fb9da51416af9c827ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:44 +0000
Subject: [PATCH 47/53] fix: do not crash on R output without a platform

---
 rcmd/Rsettings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/Rsettings.go b/rcmd/Rsettings.go
index d10f18a..58ba7fa 100644
--- a/rcmd/Rsettings.go
+++ b/rcmd/Rsettings.go
@@ -88,7 +88,7 @@ func parseVersionData(data []byte) (version cran.RVersion, platform string) {
 			}
 		} else if strings.HasPrefix(line, "Platform:") {
 			rsp := strings.Split(line, " ")
-			if len(rsp) > 0 {
+			if len(rsp) > 1 {
 				platform = strings.Trim(rsp[1], " ")
 			} else {
 				log.Fatal("error getting R platform")
-- 
2.43.0


From 264e1bb7608ed585feb57d4bcd0405b946be492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 48/53] fix: read package indices with additional empty lines

---
 cran/repodb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 556826d..bc18749 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -226,11 +226,12 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				"num_pkgs": len(parsedPackagesFile),
 			}).Debug("potential packages")
 			for _, pkg := range parsedPackagesFile {
+				// there might be more than one empty line between two records
+				pkg = bytes.Trim(pkg, "\n")
 				if len(pkg) == 0 {
 					// end of file might have double spaces
 					// and thus will be one split, so want
 					// to skip that
-					//todo: trim this before the loop
 					continue
 				}
 				reader := bytes.NewReader(pkg)
-- 
2.43.0


From feab44804ef56045a588b222b7264e188e4f3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 49/53] fix: do not crash on package customizations that are no
 list or have an empty entry

---
 configlib/config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index 50a9f1f..a395703 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -245,7 +245,9 @@ func loadDefaultSettings() {
 // IsCustomizationSet ...
 func IsCustomizationSet(key string, elems []interface{}, elem string) bool {
 	for _, v := range elems {
-		for k, iv := range v.(map[interface{}]interface{}) {
+		// an empty entry is not a map
+		pkgs, _ := v.(map[interface{}]interface{})
+		for k, iv := range pkgs {
 			if k == elem {
 				// an entry without any setting is not a map
 				settings, _ := iv.(map[interface{}]interface{})
@@ -372,7 +374,10 @@ func SetPlanCustomizations(cfg PkgrConfig, dependencyConfigurations gpsr.Install
 
 	//if viper.Sub("Customizations") != nil && viper.Sub("Customizations").AllSettings()["packages"] != nil {
 	if len(cfg.Customizations.Packages) > 0 {
-		pkgSettings := viper.Sub("Customizations").AllSettings()["packages"].([]interface{})
+		pkgSettings, ok := viper.Sub("Customizations").AllSettings()["packages"].([]interface{})
+		if !ok {
+			log.Fatal("Packages in Customizations must be a list")
+		}
 		setViperCustomizations(cfg, pkgSettings, dependencyConfigurations, pkgNexus)
 	}
 }
-- 
2.43.0


From 849ab5488e5e921e22fc57ad4a77469fbe0f41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:06 +0000
Subject: [PATCH 50/53] fix: refuse to edit a package list that can't be
 edited, rather than break the configuration file

---
 configlib/add_package.go | 59 ++++++++++++++++++++++++++++++++++++----
 configlib/config.go      | 14 ++++++++--
 2 files changed, 66 insertions(+), 7 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 9d2dca4..9573823 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -22,14 +22,13 @@ func AddPackages(pkgs []string) error {
 	// only split at line feeds, such that every existing line is written as it was read
 	lines := strings.Split(strings.TrimSuffix(string(yf), "\n"), "\n")
 
-	var pc PkgrConfig
-	err = yaml.Unmarshal(yf, &pc)
+	listed, err := listedPackages(yf)
 	if err != nil {
 		return err
 	}
 
 	for _, p := range pkgs {
-		if funk.ContainsString(pc.Packages, p) || funk.ContainsString(pkgsToInstall, p) {
+		if funk.ContainsString(listed, p) || funk.ContainsString(pkgsToInstall, p) {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
@@ -38,8 +37,58 @@ func AddPackages(pkgs []string) error {
 	if len(pkgsToInstall) == 0 {
 		return nil
 	}
-	newYml := insertPackages(lines, pkgsToInstall...)
-	return replaceFile(appFS, ymlfile, []byte(strings.Join(newYml, "\n")+"\n"))
+	newYml := []byte(strings.Join(insertPackages(lines, pkgsToInstall...), "\n") + "\n")
+	err = checkListedPackages(newYml, append(listed, pkgsToInstall...))
+	if err != nil {
+		return fmt.Errorf("can't add to the package list of <%s>, its layout isn't supported: %w", ymlfile, err)
+	}
+	return replaceFile(appFS, ymlfile, newYml)
+}
+
+// listedPackages gives the packages listed in the content of the yml config file.  As when the settings are read, the
+// capitalization of the key doesn't matter.
+func listedPackages(yml []byte) ([]string, error) {
+	var settings map[string]yaml.Node
+	err := yaml.Unmarshal(yml, &settings)
+	if err != nil {
+		return nil, err
+	}
+	var pkgs []string
+	found := false
+	for key, value := range settings {
+		if !strings.EqualFold(key, "Packages") {
+			continue
+		}
+		if found {
+			return nil, fmt.Errorf("more than one package list")
+		}
+		found = true
+		err = value.Decode(&pkgs)
+		if err != nil {
+			return nil, err
+		}
+	}
+	return pkgs, nil
+}
+
+// checkListedPackages tells if the packages listed in the content of the yml config file are the wanted ones, in any
+// order.
+func checkListedPackages(yml []byte, want []string) error {
+	listed, err := listedPackages(yml)
+	if err != nil {
+		return err
+	}
+	for _, p := range want {
+		if !funk.ContainsString(listed, p) {
+			return fmt.Errorf("package <%s> would not be listed", p)
+		}
+	}
+	for _, p := range listed {
+		if !funk.ContainsString(want, p) {
+			return fmt.Errorf("package <%s> would be listed", p)
+		}
+	}
+	return nil
 }
 
 
diff --git a/configlib/config.go b/configlib/config.go
index a395703..cd869f6 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -296,11 +296,21 @@ func remove(ymlfile string, packageName string) error {
 			out = append(out, []byte("\n")...)
 		}
 	}
-	err = replaceFile(appFS, ymlfile, out)
+	listed, err := listedPackages(yf)
 	if err != nil {
 		return err
 	}
-	return nil
+	var want []string
+	for _, p := range listed {
+		if p != packageName {
+			want = append(want, p)
+		}
+	}
+	err = checkListedPackages(out, want)
+	if err != nil {
+		return fmt.Errorf("can't remove from the package list of <%s>, its layout isn't supported: %w", ymlfile, err)
+	}
+	return replaceFile(appFS, ymlfile, out)
 }
 
 // replaceFile gives an existing file new content.  The file has either its old or its new content, even when the
-- 
2.43.0


From 18d0f5d7928224436338ab68226c02c882045795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:55 +0000
Subject: [PATCH 51/53] fix: use repositories that are listed together in the
 same order every time

---
 cmd/plan.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 68de3a3..2399459 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"runtime"
+	"sort"
 
 	"github.com/spf13/afero"
 	"github.com/thoas/go-funk"
@@ -326,7 +327,14 @@ func removeBasePackages(pkgList []string) []string {
 func configuredRepos() ([]cran.RepoURL, *cran.InstallConfig) {
 	var repos []cran.RepoURL
 	for _, r := range cfg.Repos {
-		for nm, url := range r {
+		// usually there is one, several of them need an order that is the same every time
+		names := make([]string, 0, len(r))
+		for nm := range r {
+			names = append(names, nm)
+		}
+		sort.Strings(names)
+		for _, nm := range names {
+			url := r[nm]
 			repo, _ := configlib.GetRepoCustomizationByName(nm, cfg.Customizations)
 			// for now no need to check if customization exists as the repo will have a default empty string
 			// regardless so no additional logic needed
-- 
2.43.0


From 5216d82819aa01b34bc8898ce84f88cc7257f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 52/53] fix: do not install the package in the working
 directory in place of one that could not be downloaded

---
 rcmd/install.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index 11ac042..c46e0f8 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -297,6 +297,15 @@ func InstallThroughBinary(
 		// don't pass binaryball path back since already in cache
 		return res, "", err
 	}
+	if ir.Metadata.Path == "" {
+		// an empty path would be taken for the working directory, and the package in there be installed instead
+		err := fmt.Errorf("package %s has not been downloaded", ir.Package)
+		log.WithField("package", ir.Package).Error("package tarball not found")
+		return CmdResult{
+			Stderr:   err.Error(),
+			ExitCode: 1,
+		}, "", err
+	}
 
 	tmpdir := filepath.Join(
 		os.TempDir(),
-- 
2.43.0


From 5a5180e9560560cce06e53bf4eafd81e7e2a84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:26 +0000
Subject: [PATCH 53/53] fix: create the cache directories of all repositories
 when several have the same name

---
 cran/download-package.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index bc466b1..b7e3131 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -59,10 +59,11 @@ const (
 	Binary
 )
 
+// getRepos returns the repositories by their directories in the cache
 func getRepos(ds []PkgDl) map[string]RepoURL {
 	rpm := make(map[string]RepoURL)
 	for _, d := range ds {
-		rpm[d.Config.Repo.Name] = d.Config.Repo
+		rpm[RepoURLHash(d.Config.Repo)] = d.Config.Repo
 	}
 	return rpm
 }
@@ -77,8 +78,7 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 	sem := make(chan struct{}, 10)
 	wg := sync.WaitGroup{}
 	rpm := getRepos(ds)
-	for _, r := range rpm {
-		urlHash := RepoURLHash(r)
+	for urlHash := range rpm {
 		for _, pt := range []string{"src", filepath.Join("binary", rv.ToString())} {
 			pkgdir := filepath.Join(baseDir, urlHash, pt)
 			err := fs.MkdirAll(pkgdir, 0777)
-- 
2.43.0

