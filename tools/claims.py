CLAIMED={
"C01":"All pairs/triples of versions of 1..5 components, 1 digit each (2 thorough), wide components up to 3 (8) digits, a later component of up to 8 (10) digits.",
"C02":"Names of 1..3 (6) characters, every operator, up to 3 (5) version components, white space of up to 1 (2) characters at every gap.",
"C03":"Every R version of three one-digit components, requirements of 2 (3) components, record pairs in either order, through NewRepoDb.",
"C04":"Installed and offered versions of up to 3 (5) one-digit components or 2 components of 2 (4) digits; libraries of up to 3 (4) packages.",
"C05":"Every dependency graph of 3 (4) packages, every acyclic graph of 5 (6), every dependency kind per edge (3 packages), suggests switched per package, packages missing or in either of two repositories.",
"C06":"Every dependency graph of 3 (4) packages including self loops and cycles, every acyclic graph of 5 (6), every dependency kind.",
"C07":"Every dependency kind leading to a base, recommended or ignored package, every combination of the switches.",
"C08":"2 (3) repositories each offering the package as source and/or binary, every pin, type, default type and platform default.",
"C09":"Every plan of 3 packages with every failure and every schedule with 1 (2) preemptions, 1..2 workers; plans of 4 (5) packages in every completion order.",
"C10":"As C09, plus every kind of failure of a build, of a binary, of the R program and of each file operation on the cache.",
"C14":"2 repositories, each index fetched, refused, cut short or failing, every completion order within 1 (3) preemptions; local repositories.",
"C15":"Every age of the cached file and every setting of the maximum age within 1 (3) digits, every pair of repository/flavour/R version, a kill or failure at every file operation of the write.",
"C16":"2 (3) packages with every server outcome and interleaving within 1 preemption, a kill or failure at every file operation, every pair of differing repository/type/R version/package.",
"C17":"A failure or kill at every file operation of storing a binary; every pair of packages differing in one coordinate.",
"C32":"Three packages, every combination of failure kinds (build fails, no binary, R cannot start, second step fails, file lost), a pre-existing package in the library.",
"C18":"Records of 2 (3) further lines of eight kinds with symbolic text of up to 2 (3) characters, symbolic repository names and addresses, source and binary.",
"C19":"Caller variables with symbolic names and values of up to 2 (3) characters, R library variables, up to 2 library paths, package variables, every PATH of up to 4 (6) characters over '/ab:', secret names in every capitalisation, all four ways R is started.",
"C20":"Files of up to 2 (3) listed packages with symbolic names of up to 2 (3) characters, three indentations, six entry styles, LF/CR-LF, with and without final line break, other sections before and after.",
"C21":"As C20 with up to 1 (2) listed packages and up to 2 requested ones, through the real YAML parser.",
"C27":"All 2^13 settings, three library paths; every program path of up to 3 (5) characters over 'R/a.', relative and absolute package files.",
"C33":"Versions with components of 1 (2) digits, symbolic platform, up to one symbolic other line of 3 (5) characters at every place; R output of up to 4 (6) characters over '[]1 a>' and line break.",
"C11":"Libraries of 4 packages in every state (absent, older, current, newer), every combination of build and download failures, tarballs alone or in place of a repository package, every failing file operation on library and cache.",
"C12":"As C11, on every outcome; the run started with or without a library.",
"C13":"As C11: every package in the library that is not due, and every package the plan does not name.",
"C22":"Caches of 2 (3) repository folders with every content, default or own cache directory, every selection of kinds and repositories, tarballs unpacked, changed or gone, a missing cache; `clean --all` with any single removal failing.",
"C23":"One entry with any name of up to 6 (9) characters over '/.ab'; archives of 2 (3) entries of seven kinds and nine spellings of names; a destination with old files and links.",
"C24":"A kill or failure at every file operation of the unpacking (two interrupted runs in thorough), corrupt tarballs, changed tarballs, followed by further runs.",
"C25":"Every combination of strict, existing library, rollback, update, failing packages and tarballs.",
"C26":"Every configured number of workers and processors up to 2^20, and through the loaded configuration up to 64.",
"C28":"3 packages with every outcome of their loads, 1..2 processors, every thread setting 0..2, every completion order within 1 (2) preemptions; every selection with duplicates, missing packages, suggests and tarballs.",
"C29":"As C11 with the number announced by the plan, and every library state with unrelated packages.",
"C30":"Every state of the library, missing libraries, tarballs, strict mode, all four reading commands, every iteration order of maps.",
"C31":"Two dependencies in any of the five dependency fields, version constraints, base packages, with and without listed packages, for a tarball and for a DESCRIPTION file; installation as C11.",
"C34":"Files with every documented setting, paths in six forms (relative, ~, absolute, $D, quoted ${D}, ./), names of 1..2 characters, workers 0..99; six places of the file; every combination of the sources of the library, of R, of the number of workers and of each switch, read by the real flag, YAML and decoding libraries; editing, loading and asking renv from each place.",
"C35":"Two (three for downloads in thorough) processes fetching one package, reading one repository, storing and using one built binary, unpacking one tarball, from an empty or filled cache, every interleaving of their file operations and requests with 2 (3-4) preemptions (binaries 1 (2)).",
"C36":"Three repositories of which any subset is configured, every selection, repository customizations; reachable repositories or not, tarballs, a requested package that no repository has.",
"C37":"Packages a (imports b), b, an outdated d outside the plan, and no tarball, a new one or one in place of b; a and b absent or outdated; a failing build in the first run; a kill before each of the first 60 (90) operations on the library; a second run with either update setting and a failing install.",
"C38":"Three layouts (filled, empty, no list), plain and linked file, names of 1 (2) characters, a kill or a failing operation (once or from then on) at each of the first 14 (20) file operations.",
"C39":"Every acyclic graph of 3 (4) packages (and their kinds of dependency), named packages any subset including unknown ones, the list, reversed and tree forms.",
"C40":"Every source of the setting (file, environment, option) and value; binary and source packages from two repositories, database and file requests, local repositories.",
"C41":"Six variables in three capitalisations, secrets of 5..6 (8) characters over 'AZ09_=:', install (with and without a tarball), load, run and inspect, info and trace level.",
"C42":"Nine commands, each log file unset or in three forms of path, present or not, overwritten or not, failing and succeeding, add with install; two concurrent tasks of 2 (3) records of symbolic text of up to 2 (3) characters at every level with 2 preemptions.",
"C43":"Three planned packages with one dependency, two repositories that offer either or both, an outdated and a foreign package outside the plan, every version (absent, older, current) and origin of the installed ones, no update, a tarball of a new or of a planned package.",
"C44":"Dependencies of up to 4 (6) arbitrary characters of 'b(>=!1.) ', a DESCRIPTION with a line of a known field and up to 3 (5) arbitrary characters, an index record of a field and up to 2 (3) with up to 3 further empty lines around it and either line ending, R output of up to 5 (8) arbitrary characters after the known beginnings, the same in the library, a tarball and a DESCRIPTION file of a plan (2 (3) characters), 5 odd kinds of library entries.",
"C45":"One configuration of three packages; 11 global options x 3 forms x 2 positions x `install` and `add --install` with libraries and configuration files of up to 2 arbitrary characters of 'ab-=.'; every combination of the options of the other commands in 3 orders; unknown options of 2-3 (4) arbitrary characters and unknown commands of 1-3 (4), switch values of 1-2 and thread counts of 1-2 arbitrary characters. cobra and pflag are executed as they are; interactive completion is not covered.",
"C46":"25 ways to write a list of up to two packages (block, within brackets on one or several lines, empty, null, absent, keys in other letters or quoted, anchors, tags, folded entries), 4 surroundings, indented or not; names of 1 (2) arbitrary characters of 'xX.' after a letter; one or two packages added, one removed, twice. yaml.v3 and viper's reading are executed as they are.",
"C47":"Three repositories in four layouts, five layouts of customizations, two states of the library, 4 orders of every map for the second plan (the same order rule for all maps of a run). Completion orders of fetches are those of C14.",
}
NOT_APPLICABLE={}
