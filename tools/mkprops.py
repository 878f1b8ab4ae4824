#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the list stays reviewable).
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Package versions compare numerically, component by component",
 "For any two R package versions written as one to five non-negative integers separated by '.' or '-', the comparison result is the numeric, left-to-right comparison of the components with missing trailing components counted as zero. The comparison is therefore a total order (antisymmetric and transitive), sorting a list of versions follows the same order, and no such version string makes pkgr crash.",
 ["inputs"],"every pair (and triple) of version strings of up to five components within the stated digit bounds",
 "A dozen literal versions are compared; no test has five components, a single component or mixed widths, and order laws quantify over all pairs and triples.",
 ["desc/version.go"],[("parse","desc/version.go ParseVersion"),("compare","desc/version.go CompareVersions, CompareVersionStrings"),("sort","desc/version.go Versions")])
p("C02","Dependency specifications are parsed faithfully",
 "A dependency written as a package name with an optional parenthesised constraint (one of >=, >, ==, !=, <=, < followed by a version) is read as exactly that name, that operator and that version, whatever white space surrounds the pieces. Rendering the result and parsing it again gives the same dependency.",
 ["inputs"],"every name, operator, version and placement of white space within the stated lengths",
 "Tests parse a handful of DESCRIPTION files with well formed constraints; operator overlap (> vs >=, < vs <=) and white space placement are open ended.",
 ["desc/desc.go","desc/dep.go","desc/structs.go"],[("parse","desc/desc.go ParseDep"),("render","desc/dep.go ToString")])
p("C03","Repository records needing another R version are never offered",
 "A package record read from a repository index is offered for installation if and only if the R in use satisfies the R requirement in its Depends field (no requirement, or a bare 'R', is satisfied by every R) and it is not a specially pathed variant. When an index holds several records of one package with different R requirements, the record whose requirement is satisfied is the one used, whatever the order of the records.",
 ["inputs","configurations"],"every R version, every operator and required version, every order of two records",
 "Tests check a few literal constraints; none covers a bare 'R' dependency, single-component requirements such as 'R (>= 4)', or multi-record indexes.",
 ["cran/repodb.go","desc/version.go"],[("filter","cran/repodb.go isRVersionCompatible, checkRVersionCompatibility"),("index reading","cran/repodb.go FetchPackages")])
p("C04","A package is updated exactly when the repository has a newer version",
 "An installed package is reported as outdated, and with updates enabled replaced, if and only if the version offered by the selected repository is strictly newer than the installed one. Equal or older offered versions never cause a replacement, and the reported old and new versions are the installed and offered ones.",
 ["inputs","configurations"],"every pair of installed and offered versions, every set of installed packages within bounds",
 "Two literal cases are tested; the decision depends on every pair of version strings and on the mix of installed packages.",
 ["pacman/utils.go","desc/version.go","gpsr/solution.go"],[("decision","pacman/utils.go GetOutdatedPackages"),("use","gpsr/solution.go ResolveInstallationReqs")])
p("C05","The plan is exactly the dependency closure of the requested packages",
 "The set of packages planned from repositories equals the requested packages plus everything reachable from them through Depends, Imports and LinkingTo, plus the Suggests of packages for which suggested dependencies are switched on, restricted to packages some configured repository offers and that are not excluded. Nothing reachable is dropped and nothing else is added, and each planned package is downloaded in the version and from the repository that offers it.",
 ["inputs","configurations"],"every dependency graph over the bounded package universe, every kind of edge, every Suggests setting",
 "Tests resolve a few fixed snapshots; the number of graphs, edge kinds and per-package settings is exponential.",
 ["gpsr/dependencies.go","gpsr/solution.go","gpsr/helpers.go","cmd/plan.go"],[("closure","gpsr/helpers.go appendToGraph"),("plan","gpsr/solution.go ResolveInstallationReqs")])
p("C06","Every planned package lists all its dependencies and cycles are refused",
 "In the plan, a package is a starting package only if it has no planned dependencies, and every other package is recorded with the complete set of its direct and indirect planned dependencies, never itself. If the required dependencies of the requested packages contain a cycle, planning reports an error instead of producing a plan.",
 ["inputs"],"every dependency graph, acyclic or cyclic, over the bounded package universe",
 "Fixed graphs are tested and map iteration order hides ordering mistakes; cycles of every shape cannot be enumerated by hand.",
 ["gpsr/dependencies.go","gpsr/solution.go"],[("layers","gpsr/dependencies.go ResolveLayers"),("dependency lists","gpsr/solution.go ResolveInstallationReqs"),("inverse","gpsr/dependencies.go InvertDependencies")])
p("C07","Base, recommended and ignored packages are excluded as configured",
 "Packages that ship with R as 'base' are never planned; packages R ships as 'recommended' are planned when needed unless the configuration switches recommended packages off, in which case they are never pulled in as anyone's dependency; packages listed to be ignored are never planned or downloaded. This holds whichever dependency kind (including suggested ones) leads to the package.",
 ["inputs","configurations"],"every graph, package class, edge kind and setting of the two options within bounds",
 "The options are covered by single fixed configurations; interaction of edge kind, per-package customization and exclusion is not.",
 ["gpsr/helpers.go","gpsr/pkgs.go","cmd/plan.go"],[("exclusion","gpsr/helpers.go isExcludedPackage"),("base removal","cmd/plan.go removeBasePackages"),("ignore","cmd/plan.go planInstall")])
p("C08","Repository order and customizations decide where a package comes from",
 "A package is taken from the first configured repository that offers it in the type selected for it; a package-level repository pins it to that repository and a package-level type pins its type, while otherwise the repository's own default type (or else the platform default) applies. If no repository offers it that way it is reported missing rather than taken from elsewhere.",
 ["configurations","inputs"],"every combination of repositories, per-repository types, package customizations and availability within bounds",
 "Tests cover isolated settings; combinations such as a package pinned to a repository that has its own default type are not covered.",
 ["cran/pkg_nexus.go","configlib/config.go","cmd/plan.go"],[("lookup","cran/pkg_nexus.go GetPackage, SetPackageRepo, SetPackageType"),("config","cmd/plan.go planInstall")])
p("C09","Packages install after their dependencies, once, and failures stop the run",
 "During installation no package's install starts before the installs of all its planned dependencies have succeeded, and no package is installed twice. Once the failure of one package has been processed no further package is queued, and the installation as a whole reports an error exactly when some package failed; when none fails every planned package has been installed.",
 ["schedules","fault_sequences","inputs"],"every dependency graph, every assignment of failing packages and every interleaving of workers within bounds",
 "Integration tests run one schedule of one package set with a working R; failures and completion orders are not explored.",
 ["rcmd/install.go","rcmd/worker.go","gpsr/dependencies.go"],[("dispatcher","rcmd/install.go InstallPackagePlan"),("workers","rcmd/worker.go")])
p("C10","Installation always terminates",
 "Whatever packages fail, in whatever order installs complete and however many workers run, the installation step returns: it never deadlocks or waits for work that will never come. This includes failures while storing a freshly built binary in the cache.",
 ["schedules","fault_sequences"],"every interleaving of workers and every assignment of failures within bounds",
 "A hang needs a particular completion order or a fault at a particular point, which tests with a working R never produce.",
 ["rcmd/install.go","rcmd/worker.go"],[("wait group and channels","rcmd/install.go InstallPackagePlan"),("queue","rcmd/worker.go")])
p("C11","A failed installation is rolled back to the previous library",
 "With rollback enabled, if any package fails to install the library afterwards contains exactly what it contained before: every previously installed package with its old contents, nothing newly installed, no backup folders; a library the run created is removed. A failing file operation never loses an installed package: it or its backup copy stays.",
 ["fault_sequences","histories","configurations"],"every mix of new, outdated, current and tarball packages, every failing package, file system faults while preparing the update",
 "Tests roll back a few fixed libraries without faults; which packages fail, which overlap and where a rename fails is a product space.",
 ["rollback/operations.go","rollback/types.go","cmd/install.go"],[("prepare","rollback/types.go PreparePackagesForUpdate, PrepareAdditionalPackagesForOverwrite"),("rollback","rollback/operations.go RollbackPackageEnvironment")])
p("C12","A successful installation leaves the planned versions and no leftovers",
 "When every install succeeds, the library holds each planned package in the planned version (for installed packages: the newer version if updates are enabled), packages from tarballs are replaced by the tarball's contents, and no backup folder remains. With rollback disabled a failing run likewise leaves no backup folder behind.",
 ["histories","configurations","fault_sequences"],"every initial library and plan within bounds",
 "Fixed libraries are tested with one outcome each; the combination of initial states is open ended.",
 ["cmd/install.go","rollback/types.go","rollback/operations.go","rcmd/install.go"],[("install","cmd/install.go rInstall"),("cleanup","rollback/operations.go DeleteBackupPackageFolders")])
p("C13","Packages outside the plan, or current, are never touched",
 "An install run never modifies, renames or deletes an installed package that is not part of the plan, nor an installed package that is already current; with updates disabled it touches no installed package except those explicitly supplied as tarballs. This holds for successful, failing and rolled back runs.",
 ["histories","configurations","fault_sequences"],"every initial library, plan, option setting and failing package within bounds",
 "Tests look at one or two bystander packages; the property ranges over all libraries and outcomes.",
 ["rollback/types.go","rollback/operations.go","cmd/install.go","rcmd/install.go"],[("filter","rollback/types.go PreparePackagesForUpdate, discernNewPackages"),("skip installed","rcmd/install.go InstallThroughBinary")])
p("C14","The package database reflects the repositories, in order, or is refused",
 "The package database lists the repositories in configured order with exactly the records their indexes contain, however the concurrent fetches complete. If a repository yields no usable index, building the database fails with an error rather than silently treating the repository as empty.",
 ["schedules","fault_sequences","inputs"],"every completion order of concurrent fetches, every assignment of fetch outcomes, every record set within bounds",
 "Tests fetch from live or single repositories; completion order and failures are not controlled.",
 ["cran/pkg_nexus.go","cran/repodb.go"],[("concurrent fetch","cran/pkg_nexus.go NewPkgDb"),("index fetch","cran/repodb.go FetchPackages")])
p("C15","Cached package databases are used only while fresh and never when bad",
 "A cached repository index is used only if it is younger than the configured maximum age (one hour unless R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE says otherwise) and was written for the same repository, binary flavour and R version; otherwise the index is fetched again. An index that could not be fetched completely is never left behind as a cache entry, and an interrupted write of the cache never yields a usable entry.",
 ["histories","crash_points","fault_sequences","inputs"],"every age, maximum age, fetch outcome and crash point of the cache write",
 "Age boundaries, failures and crashes between the steps of a cache write are not exercised by tests.",
 ["cran/repodb.go"],[("age check","cran/repodb.go FetchPackages"),("cache write","cran/repodb.go Encode"),("cache key","cran/repodb.go Hash")])
p("C16","A package counts as downloaded only if its complete file is in the cache",
 "Each package is fetched from the address its repository, type and R version determine, to the cache location for exactly that repository, type, R version and package version. A download that fails, is refused by the server or is cut short is reported as not downloaded, and never leaves a file that a later run would take for the package.",
 ["fault_sequences","crash_points","inputs"],"every repository, type and version within bounds, every server answer, transfer fault and crash point",
 "Tests download real packages successfully; refused, truncated or interrupted transfers are not produced.",
 ["cran/download-package.go","cran/utils.go","rcmd/install.go"],[("download","cran/download-package.go DownloadPackage, DownloadPackages")])
p("C17","The binary cache returns only what was stored for the same package",
 "A binary built and cached by one run is found by a later run for the same package, version, repository, R version and platform, and a lookup for a different package, version, repository, or R version never returns it. Source and binary files of the same package never share a cache path.",
 ["inputs","histories"],"every pair of (package, version, repository, R version, platform) identities within the stated lengths",
 "A test checks a fixed path; agreement of the storing and looking-up sides over all identities is not tested.",
 ["rcmd/install.go","rcmd/helpers.go","cran/utils.go","cran/download-package.go"],[("lookup","rcmd/install.go isInCache"),("store","rcmd/install.go InstallPackagePlan"),("names","rcmd/helpers.go binaryName, binaryExt; cran/utils.go RepoURLHash")])
p("C18","Installed packages record where they came from, and lose nothing else",
 "After an install the package's DESCRIPTION names the pkgr version, install type, repository address and repository it came from, each exactly once, keeping an earlier repository name in full as the original one. Every other line of the file is preserved unchanged and in order, and repeating the operation changes nothing. If writing fails or is interrupted the file is as it was.",
 ["inputs"],"every DESCRIPTION text and repository identity within the stated number and length of lines",
 "Tests update a few literal files; lines that merely mention a field name, addresses with colons and repeated stamping are not covered.",
 ["rcmd/install.go"],[("stamp","rcmd/install.go updateDescriptionInfoByLines")])
p("C19","R runs with exactly the configured environment",
 "Every R process pkgr starts for installing sees the configured library paths as the site library, an empty private user library regardless of the caller's R library variables, package-specific variables taking precedence over the caller's, the directory of the configured R first on PATH, and every other non-empty variable of the caller unchanged (up to surrounding blanks). Values of known secret variables are never exposed in the built environment.",
 ["inputs","configurations"],"every caller environment, customization and library path within the stated number and length of entries",
 "Tests use literal environments; values containing '=' or paths that are prefixes of one another are not covered.",
 ["rcmd/configure.go","rcmd/nvp.go","rcmd/Rsettings.go"],[("environment","rcmd/configure.go configureEnv"),("pairs","rcmd/nvp.go"),("library path","rcmd/Rsettings.go LibPathsEnv")])
p("C20","Removing packages edits only their own entries",
 "Removing a package from the configuration file deletes exactly the entries that name this package in the package list and leaves every other line unchanged, byte for byte and in order. Packages whose names merely start with the same letters, and lines outside the package list, stay.",
 ["inputs"],"every configuration text and package name within the stated number and length of lines",
 "Tests remove one package from one file; prefixes, other sections and formatting variants are open ended.",
 ["configlib/config.go","cmd/remove.go"],[("edit","configlib/config.go remove")])
p("C21","Adding packages inserts exactly the missing ones",
 "Adding packages inserts into the package list one entry for each requested package that is not already listed, in the list's own indentation, and keeps every existing line unchanged and in order. Adding the same packages again changes nothing, and no valid configuration layout with a block list (no list, empty list, comments before the first entry) makes it fail.",
 ["inputs"],"every configuration layout and list of requested packages within the stated number and length of lines",
 "Tests use five literal layouts; empty lists, repeated arguments and lists elsewhere in the file are not covered.",
 ["configlib/add_package.go","cmd/add.go"],[("edit","configlib/add_package.go insertPackages, AddPackages")])
p("C22","Cleaning the cache removes what was asked for and nothing else",
 "Cleaning the package cache deletes the selected kinds (source, binary or both) of the selected repositories, together with the unpacked copies of the configured tarballs, and nothing else: other repositories, the other kind and files outside the cache directory stay. Repository folders are removed only when they became empty, a missing cache directory is not a crash, and a failure to remove what was asked for is reported as one. Cleaning all does this for every kind and repository together with the package databases of the configured repositories.",
 ["configurations","inputs","histories"],"every cache content, repository selection and option setting within bounds",
 "Tests clean one fixed cache tree; option combinations, tarballs with the default cache directory and a missing cache are not covered.",
 ["cmd/cleanCache.go"],[("clean","cmd/cleanCache.go cleanCacheFolders, deleteCacheSubfolders")])
p("C23","Unpacking a tarball never writes outside its directory",
 "Unpacking an archive creates files only beneath the destination directory, with the names and contents of the archive's entries. An archive with an entry that would land outside, that is not a regular file or directory, or that repeats an entry is refused with an error.",
 ["inputs"],"every sequence of entry names and kinds within the stated number and length",
 "Tests contain a few hostile names; all path spellings cannot be listed.",
 ["internal/archive/extract.go"],[("containment","internal/archive/extract.go extractFile")])
p("C24","Unpacked tarballs in the cache are complete",
 "A directory that pkgr takes for the unpacked form of a tarball holds all files of exactly that tarball's current contents. If unpacking fails or pkgr is killed at any point of it, a later run unpacks again instead of using the partial directory.",
 ["crash_points","fault_sequences","histories"],"every crash point and file system fault during unpacking, followed by a second run",
 "No test interrupts an extraction.",
 ["cmd/tarballOps.go","internal/archive/extract.go"],[("cache","cmd/tarballOps.go untar")])
p("C25","Strict mode never creates the library",
 "In strict mode an install into a library directory that does not exist stops with a failure before anything is created, moved or downloaded into it. Without strict mode the directory is created.",
 ["configurations","fault_sequences"],"every configuration and initial state within bounds",
 "One integration scenario; the combination with other options is not tested.",
 ["cmd/install.go","cmd/plan.go"],[("check","cmd/install.go rInstall")])
p("C26","The number of workers follows the configuration, capped at eight by default",
 "When the user sets a thread count, exactly that many workers are used; when the user sets none, the number of usable processors is used but never more than eight. The number of workers is always at least one.",
 ["inputs","configurations"],"every thread setting and processor count",
 "A few literal pairs are tested, and not through the configuration defaults that feed them.",
 ["cmd/utils.go","configlib/config.go","cmd/install.go"],[("count","cmd/utils.go getWorkerCount"),("default","configlib/config.go loadDefaultSettings")])
p("C27","R is invoked with exactly the configured program and arguments",
 "Installing a package runs the configured R executable once with --vanilla CMD INSTALL, exactly one option for each enabled install setting and no other, the library option naming the target library, and the package file as last argument. The script runner is derived from the same executable's path.",
 ["inputs","configurations"],"every combination of install settings, library path and executable path within bounds",
 "A few combinations of 14 settings are tested.",
 ["rcmd/install.go","rcmd/Rsettings.go","rcmd/RunR.go"],[("arguments","rcmd/install.go CliArgs, Install"),("program","rcmd/Rsettings.go R; rcmd/RunR.go convertToRscript")])
p("C28","The load report covers every package once and counts failures correctly",
 "Loading packages attempts every selected package exactly once, the report holds one result per package whose success reflects that package's own R run, and the failure count equals the number of failed results. The command terminates for every completion order and thread setting.",
 ["schedules","fault_sequences","configurations"],"every assignment of load outcomes, completion order and thread count within bounds",
 "Integration tests load a working library under one schedule.",
 ["cmd/load.go","cmd/structs.go"],[("concurrency","cmd/load.go load"),("report","cmd/structs.go AddResult")])
p("C29","The announced number of packages to install is the number installed",
 "The number of packages that the plan announces as to be installed equals the number of package installs a fully successful run performs (planned packages not yet installed or replaced by a tarball too, plus updates when enabled, plus tarballs). It is never negative.",
 ["configurations","histories"],"every library state and plan within bounds",
 "Tests compute the number for a few hand made plans; overlaps (outdated packages outside the plan, tarballs also required) are not covered.",
 ["gpsr/dependencies.go","cmd/plan.go"],[("count","gpsr/dependencies.go GetNumPackagesToInstall")])
p("C30","Planning and inspecting never change the library",
 "Showing the plan or inspecting dependencies never creates, modifies or deletes anything in the package library, whatever the configuration and its state. Running it twice gives the same plan.",
 ["configurations","histories"],"every configuration and library state within bounds",
 "Tests compare one library; determinism under map iteration order needs all orders.",
 ["cmd/plan.go","gpsr/solution.go"],[("plan","cmd/plan.go planInstall")])
p("C31","Tarballs and DESCRIPTION files bring in their dependencies",
 "For every tarball in the configuration all packages in its Depends, Imports and LinkingTo (other than R and base packages) are planned, and for every listed DESCRIPTION file additionally those in its Suggests. Each tarball itself is installed exactly once, after the repository packages, from its own unpacked contents.",
 ["inputs","configurations"],"every set of dependency fields within bounds",
 "Tests have one tarball and one DESCRIPTION; which field a dependency appears in is not varied.",
 ["cmd/plan.go","cmd/tarballOps.go","cmd/descriptionOps.go","desc/structs.go"],[("dependencies","desc/structs.go GetCombinedDependencies"),("plan","cmd/plan.go planInstall")])
p("C32","A failing build never damages what is installed",
 "A package from a repository is first built away from the library and only a successfully built binary is installed into it; if the build fails, produces no binary or cannot be run, nothing in the library changes and the install is reported as failed. A result is reported as success only if R exited with status zero.",
 ["fault_sequences","inputs"],"every outcome (exit status, start failure, missing file, missing binary) of each step",
 "Tests use a working R; failing steps are not produced.",
 ["rcmd/install.go"],[("two pass","rcmd/install.go InstallThroughBinary"),("run","rcmd/install.go Install")])
p("C33","R's own output is read correctly",
 "From the output of R's version command pkgr obtains exactly the version and platform printed there, wherever these lines appear; other R output is split into lines with R's index prefix and surrounding white space removed, and nothing else lost.",
 ["inputs"],"every output text within the stated number and length of lines",
 "A few literal outputs are tested.",
 ["rcmd/Rsettings.go","rcmd/rp/lines.go"],[("version","rcmd/Rsettings.go parseVersionData"),("lines","rcmd/rp/lines.go ScanROutput")])
p("C34","The configuration in effect is the one that was written",
 "Every documented setting of the configuration file takes effect exactly as written, and where it can be given in several ways the command line wins over the environment, that over the file and that over the default. '~' and references to environment variables in it are expanded and relative paths are relative to the configuration file, wherever that is: the configured library, tarballs, repositories, cache and R are the same whichever directory pkgr is started from, add and remove edit that file, load runs R in its directory and renv is asked for the library of its project.",
 ["configurations","inputs"],"every value of every setting within bounds, every combination of sources, every form of path and place of the file",
 "Tests read a few files in the current directory; settings, sources and places are a product space.",
 ["configlib/config.go","configlib/structs.go","cmd/root.go","cmd/add.go","cmd/load.go"],[("load","configlib/config.go NewConfig, loadConfigFromPath, expandTilde, resolveRPath"),("flags and directory","cmd/root.go rootInit, initConfig"),("renv","configlib/config.go getRenvLibrary")])
p("C35","Concurrent pkgr processes sharing a cache do not corrupt each other",
 "Several pkgr processes running at the same time with a shared package cache and package-database cache each behave as if they ran alone: no process installs a file that another is still writing.",
 ["schedules"],"every interleaving of two processes at file system operation and request granularity within the stated number of preemptions",
 "No test runs two processes.",
 ["cran/download-package.go","cran/repodb.go","rcmd/install.go","cmd/tarballOps.go"],[("cache writes","cran/download-package.go DownloadPackage; cran/repodb.go Encode")])
p("C36","Cleaning package databases removes exactly the named ones",
 "Cleaning the package databases deletes the cached databases of the named repositories of the configuration, or of all of its repositories when none is named, for the R in use, and no other file: databases of other repositories and configurations and cached packages stay. The repositories need not be reachable for that and nothing is put into a cache.",
 ["configurations"],"every subset of configured repositories, every selection and customization within bounds",
 "Unit tests do not touch this command; which repositories are configured and named is a product space.",
 ["cmd/cleanPkgdb.go","cmd/clean.go"],[("clean","cmd/cleanPkgdb.go cleanPackageDatabases, removePackageDatabases")])
p("C37","A killed installation loses nothing and the next one completes it",
 "When an install run is killed at any point, no installed package is lost: each one, in its old or its new version, is complete in the library or in its backup folder, and packages outside the plan are untouched. The next install run is not misled by what the killed one left: it installs every planned package that is missing from the library or outdated, does not take backup folders or half removed packages for installed ones, and if it fails leaves every package as it found it, still losing none.",
 ["crash_points","histories","configurations","fault_sequences"],"a kill before any operation of a run on the library, in every initial library, plan and outcome within bounds, followed by a run with any settings and outcome",
 "No test interrupts a run; the points where one can be killed times the states of the library cannot be sampled usefully.",
 ["rollback/operations.go","rollback/types.go","pacman/utils.go","cmd/install.go","rcmd/install.go"],[("backup","rollback/operations.go tagOldInstallation, removePackage"),("installed packages","pacman/utils.go GetPriorInstalledPackages"),("skip installed","rcmd/install.go InstallThroughBinary")])
p("C38","An edit of the configuration file is made completely or not at all",
 "When adding or removing packages fails or is interrupted at any point, the configuration file has either its old content or the content of the completed edit, an edit that reports success has been made, and it can be repeated afterwards. A configuration file that is a symbolic link stays one.",
 ["crash_points","fault_sequences","inputs"],"a kill or a (single or lasting) failure at every file operation of an edit, every name within bounds",
 "Tests edit files on a disk that never fails.",
 ["configlib/config.go","configlib/add_package.go"],[("remove","configlib/config.go RemovePackage, remove"),("add","configlib/add_package.go AddPackages"),("write","configlib/config.go replaceFile")])
p("C39","Inspecting dependencies reports the relation of the plan",
 "Inspecting dependencies lists for each planned package exactly the packages it needs, directly or through others, in the plan that an install would follow; reversed, for each package exactly those that need it; as a tree, under each package the packages it needs. Naming packages restricts the answer to those and changes nothing else, and the JSON form is a valid document holding nothing but the answer.",
 ["inputs","configurations"],"every acyclic dependency graph of the stated number of packages, every selection of named ones and form of the answer",
 "The tests show one graph; whether the printed relation is the plan's for every graph is not sampled.",
 ["cmd/inspect.go","gpsr/dependencies.go","gpsr/solution.go"],[("inspect","cmd/inspect.go inspect, printDeps, recurseDeps"),("inverse","gpsr/dependencies.go InvertDependencies")])
p("C40","Servers are authenticated unless that is switched off",
 "Every request for a package database or a package file, of any kind and repository, verifies the server's certificate unless verification was switched off in the configuration or on the command line; when it was, no request insists on it.",
 ["configurations"],"every setting and its sources, every kind of request, repository and package type within bounds",
 "No test talks to a server with a bad certificate; each place that makes a request could differ.",
 ["cran/download-package.go","cran/repodb.go","cran/pkg_nexus.go","cmd/root.go"],[("package files","cran/download-package.go DownloadPackage"),("databases","cran/repodb.go FetchPackages"),("flag","cmd/root.go rootInit")])
p("C41","Credentials in the environment are never written out",
 "The values of the environment variables known to hold credentials (GITHUB_TOKEN, GITHUB_PAT, GHE_TOKEN, GHE_PAT, AWS_ACCESS_KEY_ID, AWS_SECRET_KEY, in any capitalisation) never appear in a log record, in the output or in a file pkgr writes, at any log level and by any command, although R runs started by pkgr are logged with their environment.",
 ["inputs","configurations"],"every variable, capitalisation and value within bounds, every command that starts R, normal and trace log level",
 "Tests censor one list; whether every place that logs an environment goes through it is not tested.",
 ["rcmd/configure.go","rcmd/install.go","rcmd/RunR.go","cmd/load.go"],[("censoring","rcmd/configure.go censoredEnvVars")])
p("C42","Log records go to the configured log file, once each",
 "Every command writes each record of an enabled log level, from its start to its end including the message it fails with, as one line to the configured log file: the one for all commands, or the one for install if that is set and the command is install. No record is lost, doubled, torn or mixed with another, also when logged by concurrent tasks or when one command runs another. The file's earlier content is kept unless it is to be overwritten, and no other file is touched.",
 ["configurations","schedules","inputs"],"every command, setting of the log files, level and record text within bounds, every interleaving of two logging tasks within the stated number of preemptions",
 "No test looks into a log file.",
 ["logger/logger.go","cmd/install.go","cmd/add.go","cmd/plan.go","cmd/load.go","cmd/run.go","cmd/cleanCache.go","cmd/cleanPkgdb.go"],[("file","logger/logger.go AddLogFile, LogrusFileHook.Fire"),("install","cmd/install.go initInstallLog")])
p("C43","What is announced is what an install does",
 "The plan and install commands announce, for every package of the plan, the repository, type and version it is installed from and whether it was requested or is a dependency; exactly the installed packages that will be updated, with both versions, and exactly the other outdated ones; how many packages are installed, outdated and not from pkgr, come from each source, and will be installed and updated; which packages pkgr did not install; and, when only part of the packages is to be installed, each of these once by its own name, and nothing else.",
 ["configurations","inputs"],"every library, offer of two repositories, tarball and update setting within bounds",
 "A few messages are compared for a few libraries; users and scripts read them for every plan.",
 ["cmd/plan.go","gpsr/dependencies.go","pacman/utils.go","pacman/outdated.go"],[("announcements","cmd/plan.go planInstall, logUserPackageRepos, logDependencyRepos"),("numbers","gpsr/dependencies.go GetNumPackagesToInstall, GetPackagesToUpdate"),("installers","pacman/utils.go GetInstallers")])
p("C44","Malformed descriptions and output never crash pkgr",
 "No content of a package index, of a DESCRIPTION (of an installed package, a tarball or a file named in the configuration), of a tarball or of R's own output makes pkgr crash: what is malformed is refused with a message and a non-zero exit status or left out, and what is well-formed beside it is taken as if it were alone. A version constraint without an operator is none, additional empty lines between records mean nothing, and nothing malformed in the library changes the plan of other packages.",
 ["inputs"],"every text within the stated lengths in every place, every odd kind of file in the library",
 "Tests read well-formed files; malformed ones are an unbounded space.",
 ["desc/desc.go","cran/repodb.go","rcmd/Rsettings.go","pacman/utils.go","cmd/tarballOps.go","cmd/descriptionOps.go"],[("dependencies","desc/desc.go ParseDep, ParseDesc"),("index","cran/repodb.go FetchPackages"),("R","rcmd/Rsettings.go parseVersionData"),("library","pacman/utils.go GetPriorInstalledPackages")])
p("C45","The command line selects the command and its options",
 "Every documented command runs when it is named and does what it documents, and each of its options and each global option (--config, --library, --loglevel, --logjson, --threads, --debug, --no-update, --update, --no-rollback, --no-secure, --strict) is taken in each form (`--x v`, `--x=v`, `--x`, `--x=false`) before the command, after it or among its arguments, for every command, and has its documented effect on that run and no other one: `plan` changes nothing, `add` edits the configuration and installs only with `--install` (then with the added packages), `load --all --json`, `inspect --deps --reverse --tree`, `run --pkg`, `clean --all`, `clean cache --src-only --binaries-only --repos` and `clean pkgdbs --repos` do exactly what their options say, help and `--version` do nothing else. An unknown command or option, a missing or a malformed value is refused with a message and a non-zero exit status before anything is started, fetched or changed.",
 ["inputs"],"every command x every option x form x position, every value within the stated lengths",
 "Tests call the commands' functions and set variables; the way from the command line to those is sampled by a few runs of the program.",
 ["cmd/root.go","cmd/add.go","cmd/load.go","cmd/inspect.go","cmd/run.go","cmd/clean.go","cmd/cleanCache.go","cmd/cleanPkgdb.go","cmd/plan.go"],[("command line","cmd/root.go Execute, rootInit, initConfig"),("options","init functions of cmd/*.go"),("library","github.com/spf13/cobra, pflag")])
p("C46","Edits of the configuration file do what they say or are refused",
 "Whatever the layout of a configuration file that pkgr reads, after `add` or `remove` ends without failure pkgr reads from it exactly the former packages plus the added or minus the removed ones and every other setting as before; repeating the command changes nothing. An edit that cannot be done in the layout (a list within brackets, a key in other letters, an indented document) is refused with a message and a non-zero exit status and leaves the file, and everything beside it, as it was. Nothing is started or fetched by an edit.",
 ["inputs"],"25 layouts of the list in 4 surroundings, indented or not, with arbitrary names",
 "C20 and C21 speak about the lines of block lists; users write whatever YAML allows.",
 ["configlib/add_package.go","configlib/config.go","cmd/add.go","cmd/remove.go"],[("add","configlib/add_package.go AddPackages, insertPackages, checkListedPackages"),("remove","configlib/config.go remove"),("reading","cmd/root.go initConfig, configlib/config.go NewConfig")])
p("C47","The same configuration gives the same plan every time",
 "Which packages are planned, in which versions, from which repository and address and as which type, which are outdated and what they depend on follows from the configuration, the repositories' indexes, R and the library alone: planning again gives the same plan, whatever the iteration order of maps, the completion order of fetches and the way the configuration lists its repositories and customizations (several in one entry, a map instead of a list, one package in several entries).",
 ["inputs","schedules"],"two runs of the plan with independent map orders, for every layout of repositories and customizations and two states of the library",
 "A test sees one iteration order per run and compares with one expectation; differences between runs are rare events.",
 ["cmd/plan.go","configlib/config.go","configlib/get_customization.go","cran/pkg_nexus.go","gpsr/solution.go"],[("repositories","cmd/plan.go configuredRepos"),("customizations","configlib/config.go SetPlanCustomizations, configlib/get_customization.go"),("plan","gpsr/solution.go ResolveInstallationReqs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
