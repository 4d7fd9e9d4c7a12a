import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
R="Resolver::resolve"
p("C01","A successful resolution names an existing, normalized regular file",
 "Whenever resolve succeeds with a path, that path is absolute, names an existing regular file and is normalized: the kernel's canonical path when symlinks is true, free of '.' and '..' components when it is false. The returned request carries an empty target, and resolving the returned path again as an absolute request, with no alias, browser or tsconfig mapping configured, returns the same path.",
 ["inputs","configurations"],"every directory tree (files, directories, symlinks, package.json contents), every option combination, every absolute base directory and request",
 "The tests check about 250 hand-picked fixture requests against an expected path; nothing relates an arbitrary successful answer to the file system.",
 ["src/normalize.rs","src/resolve.rs","src/lib.rs"],[("final path normalization","src/normalize.rs normalize_result/normalize_path"),("existence probes","src/resolve.rs resolve_as_file, src/plugin/extensions.rs")],[R])
p("C02","Query and fragment pass through verbatim and do not steer the file lookup",
 "A request splits into target, query (from the first '?' that precedes any '#') and fragment (from the first '#' that is not the request's first character); the file found is the one the target alone resolves to, and the returned query and fragment are exactly the ones requested, so that joining the result yields path+query+fragment. This holds for path, module, alias, browser, tsconfig and imports requests; the one exception is a subpath served by a package's exports map, where (as in enhanced-resolve) the query takes part in the match: a literally listed subpath, the package root and a target that goes on behind its '*' accept none, and fail.",
 ["inputs","configurations"],"every request target that resolves, times every query and fragment suffix",
 "Tests append a handful of fixed suffixes such as ?query or #fragment to fixture requests.",
 ["src/parse.rs","src/lib.rs","src/plugin/exports_field.rs","src/plugin/imports_field.rs","src/tsconfig_path.rs"],[("request splitting","src/parse.rs parse_identifier"),("result joining","src/lib.rs ResolveInfo::join"),("query carried through re-targeting","src/parse.rs with_target")],[R,"ResolveInfo::join"])
p("C03","Path requests: exact file, then extensions in order, then directory",
 "A relative or absolute request resolves to the file it names if that exists (and enforce_extension is off), otherwise to the first of the configured extensions, in order, whose appended name is a file, otherwise to the directory's main entry; with enforce_extension only the extension-appended candidates are files (left unset, it is on exactly when the extension list contains the empty string). '..' and '.' segments apply lexically, a trailing slash never selects a file, and a relative request gives the same result as the absolute path it denotes.",
 ["inputs","configurations"],"every tree, extension list, enforce_extension value, base and path request",
 "Tests cover a few extension lists on two fixture directories; ties between file, extension and directory candidates at arbitrary depth are not sampled.",
 ["src/resolve.rs","src/plugin/extensions.rs","src/kind.rs","src/lib.rs"],[("file/extension/dir order","src/resolve.rs resolve_as_file, resolve_as_dir"),("extension candidates","src/plugin/extensions.rs"),("request classification","src/kind.rs get_target_kind")],[R])
p("C04","Directory requests use main fields in order, then main files in order",
 "Resolving a directory tries each configured main field, in order, that its own description file defines as a string (as a path relative to that directory: file, extensions, then directory), and then each configured main file name with each extension, in order; a main field that leads nowhere or names the directory itself falls through to the next candidate, and only the description file in that very directory contributes main fields.",
 ["inputs","configurations"],"every directory tree with description files, every main_fields, main_files and extensions list",
 "Tests have a few fixed main/module fixtures; fall-through after a dangling main, nested mains and ordering of several fields and files are not explored.",
 ["src/plugin/main_field.rs","src/plugin/main_file.rs","src/resolve.rs"],[("main fields","src/plugin/main_field.rs"),("main files","src/plugin/main_file.rs")],[R])
p("C05","Bare module requests take the nearest node_modules that can serve them",
 "A bare request (including @scope/name, with or without a subpath) resolves inside the node_modules directory of the base directory or of its nearest ancestor that can serve it: a level where the package or the requested subpath is missing is skipped and the search continues upwards with the same request, and a level is never skipped when it can serve the request. Inside a level, the package subpath resolves like a path request (file, extensions, directory); if no level can serve it resolve fails.",
 ["inputs","configurations"],"every nesting of node_modules directories, package contents, scoped and unscoped names, base depths",
 "Tests use two-level fixtures; partial packages at a nearer level, scoped names, single-file modules and deep nesting interplay are not sampled.",
 ["src/resolve.rs","src/plugin/main_field.rs","src/plugin/main_file.rs"],[("hierarchical lookup","src/resolve.rs resolve_as_modules")],[R])
p("C06","A package's exports map selects exactly the target the Node.js rules select",
 "For a package with an exports field, package.json key matching picks the exact subpath, otherwise the longest matching folder ('/') or trailing-'*' pattern; conditions are taken in the order the package lists them, 'default' always applying; null or an unmatched condition set means not exported; the remainder replaces every '*' verbatim; the first array element that names an existing file inside the package wins. This is so for any map, any condition set, scoped and unscoped names and self-references.",
 ["inputs","configurations"],"every exports value (string, array, conditional object, subpath object, nested), every condition set, every subpath",
 "Unit tests list about 150 fixed (map, request) pairs; precedence among arbitrary overlapping keys, unusual characters and nested conditions is an infinite space.",
 ["src/map.rs","src/plugin/exports_field.rs","src/resolve.rs"],[("pattern trie","src/map.rs PathTreeNode walk/find_match"),("condition selection","src/map.rs conditional_mapping"),("target substitution","src/map.rs target_mapping"),("exports application","src/plugin/exports_field.rs")],[R])
p("C07","exports encapsulates: unexported or outside files are unreachable",
 "When a package in node_modules has an exports field, a bare request for it or any subpath of it either fails or yields a file inside that package's directory that one of the targets in its exports map denotes for that subpath; no request string, query, dot-segment or nested description file inside the package reaches an unexported file or a file outside the package.",
 ["inputs","configurations"],"every exports map and every request string addressed to the package, including adversarial segments",
 "Tests try a few '..' requests; escaping depends on particular combinations of segments, patterns and targets.",
 ["src/map.rs","src/plugin/exports_field.rs","src/resolve.rs"],[("target containment check","src/map.rs check_target"),("exports gate before any file probe","src/resolve.rs resolve_as_modules")],[R])
p("C08","#imports requests resolve through the nearest description file's imports map",
 "A request starting with '#' resolves through the imports field of the description file nearest to the base directory, by the same key and condition rules as exports; a relative target must be an existing file inside that package, a bare target resolves as a module request made from that package's directory (its exports included), a '#' target resolves through the same map; otherwise the request fails.",
 ["inputs","configurations"],"every imports map, condition set, base directory inside the package, and '#' request",
 "Tests use three small imports fixtures; bare targets, hoisted dependencies, nested scopes and overlapping keys are not covered.",
 ["src/plugin/imports_field.rs","src/map.rs","src/lib.rs"],[("imports application","src/plugin/imports_field.rs"),("imports trie","src/map.rs ImportsField")],[R])
p("C09","Aliases rewrite the request prefix in list order and fall back when they fail",
 "For a base directory outside node_modules, the first alias in list order whose key is the request or a leading path prefix of it and whose rewritten request resolves decides the result (an ignoring alias yields Ignored at its turn); rewritten requests are themselves subject to aliases, an alias whose target the request already starts with is not applied again, and if no alias leads to a file the original request is resolved as if there were no alias. Aliases never apply to requests made from inside a node_modules directory.",
 ["inputs","configurations"],"every alias list (relative, absolute, module and ignored targets, chains), base and request",
 "Tests have one alias fixture; ordering, fallback and chains among several entries are configuration-dependent.",
 ["src/plugin/alias.rs","src/lib.rs"],[("alias loop","src/plugin/alias.rs")],[R])
p("C10","browser field mappings of the owning package apply, and only when enabled",
 "With browser_field on, a request whose file (or file plus a configured extension) or bare module name is a key of the browser map of the description file that owns it (the requesting package for module names, the package containing the file for paths and package entries) resolves to the mapped file or module, following chained keys, or to Ignored when mapped to false; keys that do not match and packages without a map are unaffected, and with browser_field off the map has no effect.",
 ["inputs","configurations"],"every browser map, package layout, base and request, with the option on and off",
 "Tests cover one browser fixture with a dozen requests; the outcome depends on key spelling, chains, ownership and entry point.",
 ["src/plugin/alias_field.rs","src/description.rs","src/resolve.rs","src/plugin/main_field.rs","src/plugin/main_file.rs"],[("browser alias","src/plugin/alias_field.rs")],[R])
p("C11","tsconfig paths map non-relative requests by TypeScript's rules",
 "With a tsconfig that has baseUrl and paths (its own or inherited through extends, a child's options overriding its base's and an inherited baseUrl staying relative to the file that declares it), a non-relative request is matched by its exact pattern first and then by the matching patterns in order of decreasing prefix before '*', whose targets are tried in order relative to baseUrl with '*' replaced by the matched text; if none resolves, and for relative requests, the request resolves as if there were no tsconfig. The outcome never depends on hash order, comments or trailing commas in the file.",
 ["inputs","configurations"],"every paths map, baseUrl, extends chain and request",
 "Tests use five fixed tsconfig fixtures with non-overlapping patterns, so precedence and nondeterminism are invisible.",
 ["src/tsconfig.rs","src/tsconfig_path.rs","src/lib.rs"],[("extends merge","src/tsconfig.rs merge"),("pattern matching","src/tsconfig_path.rs match_star/_resolve_with_tsconfig")],[R])
p("C12","Resolution agrees with Node.js and with webpack's enhanced-resolve",
 "Where the rules of the programs coincide, resolve with Node's conditions and extensions finds the same file that Node.js require.resolve finds from the same directory, and fails when Node fails: for relative, absolute, bare, scoped, self-referencing and '#' requests, main fields, index files, exports and imports maps (patterns, conditions, null targets) and symlinks; and with equal options it agrees with webpack's enhanced-resolve, which it ports, on module aliases, browser fields that name exact files or modules, main fields, main files, extensions, enforce_extension, conditions, symlinks and preferRelative.",
 ["inputs","configurations"],"every package layout, exports/imports map, symlink layout and request in the shared domain of the two programs",
 "No existing test compares against either program; expectations are hand-written.",
 ["src/lib.rs","src/resolve.rs","src/map.rs","src/plugin"],[("whole resolution pipeline","src/lib.rs _resolve")],[R])
p("C13","A long-lived resolver sees package.json edits, creations and deletions",
 "After any sequence of edits, creations, deletions and replacements of description files, tsconfig files, source files and directories, in which each changed description file gets a modification time at least one second away from all its earlier ones, in either direction, an existing resolver answers every request exactly as a newly created one does, including after a description file was temporarily invalid.",
 ["histories"],"every history of file-system edits interleaved with requests on one resolver",
 "One test edits one package.json once; stale answers need particular edit/request orders (request before creation, deletion after caching, invalid in between, mtime going back).",
 ["src/description.rs","src/fs.rs","src/cache.rs"],[("mtime revalidation","src/fs.rs need_update"),("description cache","src/description.rs load_pkg_file")],[R,"Resolver::load_side_effects"],
 [dict(name="file_dir_to_pkg_info",meaning="directory -> parsed nearest description file",where="src/cache.rs"),dict(name="cached_file",meaning="file -> content and mtime at last read",where="src/fs.rs")])
p("C14","Sharing a cache between resolvers never changes any answer",
 "Resolvers that share one external cache, with any mix of options, each give for every request, in every interleaving of their requests, the answer they would give with a private cache; description content cached for one package never leaks into another package, nor between exports and imports maps with equal content.",
 ["histories","configurations"],"every set of option combinations sharing a cache and every sequence of requests among them, edits included",
 "One test shares a cache between two identical resolvers and counts entries.",
 ["src/cache.rs","src/description.rs","src/lib.rs"],[("shared cache","src/cache.rs ResolverCache"),("content-keyed trees","src/description.rs parse_description_file")],[R])
p("C15","Concurrent use of one resolver or shared cache equals sequential use",
 "On an unchanging tree, any number of threads issuing requests through one resolver, or through several resolvers sharing a cache, each get exactly the answer a fresh sequential resolver gives, with no panic, deadlock or corrupted result, whatever the interleaving, including on first (cold-cache) use.",
 ["schedules"],"every interleaving of requests of several threads over one shared cache",
 "All existing tests are single-threaded.",
 ["src/cache.rs","src/fs.rs","src/description.rs"],[("concurrent maps","src/cache.rs, src/fs.rs DashMap"),("check-then-load","src/description.rs load_pkg_file")],[R])
p("C16","Resolution is total: every request returns, never panics or runs away",
 "For any request string and base path, any directory tree, and any content of description files and tsconfig files (wrong types, null, empty, invalid JSON, odd keys, self-referencing or cyclic main, browser, imports, alias and extends chains), resolve and load_side_effects return Ok or Err after a bounded amount of work; they never panic, overflow the stack, abort or loop.",
 ["inputs","configurations"],"all byte/JSON contents of the files read, all request strings (any Unicode), all options except aliases that lengthen the request forever",
 "Tests feed one malformed file; panics and runaway recursion hide in specific malformed values and cycles.",
 ["src/map.rs","src/description.rs","src/tsconfig.rs","src/tsconfig_path.rs","src/lib.rs","src/resolve.rs","src/plugin"],[("JSON to mapping conversion","src/map.rs from_json"),("recursive resolution","src/lib.rs _resolve")],[R,"Resolver::load_side_effects"])
p("C17","A transient I/O failure never outlives itself",
 "If any single file-system operation performed during a request fails (I/O error, permission, descriptor exhaustion, interrupted or short read), or a description file changes between two such operations, that request returns normally (an error or a degraded answer), and once the fault is gone and the file's mtime is stable every later request on the same resolver gets the answer a fresh resolver gives.",
 ["fault_sequences","crash_points"],"every file-system call made while serving a request, every errno from a set, every subsequent request",
 "No test injects faults; a fault cached as an absent or stale description file shows only if the fault hits one particular call.",
 ["src/description.rs","src/fs.rs","src/utils.rs"],[("content/mtime pairing","src/fs.rs read_to_string"),("negative and positive caching","src/description.rs load_pkg_file")],[R])
p("C18","load_side_effects reports the nearest description file and its exact value",
 "For any path, load_side_effects returns the path of the nearest description file at or above it (lexically, from the path itself when it is a directory, else from its parent) together with that file's sideEffects value: absent, the boolean, or the array of strings unchanged and in order; it returns nothing when there is no such file or description files are disabled, and an error for any other type of value.",
 ["inputs","configurations"],"every tree, path (existing or not) and sideEffects value",
 "Tests query four fixture paths.",
 ["src/description.rs","src/utils.rs"],[("nearest description file","src/description.rs load_pkg_file, src/utils.rs find_up"),("value parsing","src/description.rs parse_description_file")],["Resolver::load_side_effects"])
p("C19","Answers are deterministic and independent of earlier requests",
 "On an unchanging tree, the answer to a request depends only on the tree, the options, the base and the request: repeating it, issuing any other requests (successful or failing) before it, changing the order of requests, using a new resolver or a new process all give the same result and the same error.",
 ["histories","configurations"],"every permutation and repetition of every set of requests on one resolver; every process-level hash seed",
 "Each test asks each question once in one order in one process.",
 ["src/description.rs","src/cache.rs","src/plugin/alias_field.rs","src/tsconfig_path.rs"],[("caches","src/cache.rs"),("unordered maps","src/tsconfig_path.rs, src/description.rs")],[R])
p("C20","The description_file option is honoured uniformly",
 "Renaming every description file and setting description_file to the new name leaves all answers unchanged; with description_file unset no description file has any influence on any answer, whatever it contains; and files with the default name are ignored when another name is configured.",
 ["inputs","configurations"],"every tree and request set, under the renaming or removal of description files",
 "One test uses a custom or missing description_file on one fixture.",
 ["src/description.rs","src/utils.rs","src/options.rs"],[("description file lookup","src/description.rs load_pkg_file, src/utils.rs find_up")],[R,"Resolver::load_side_effects"])
p("C21","Resolution is invariant under moving the tree and renaming its segments",
 "Copying a tree to another absolute location (any directory names, including ones that contain node_modules as a substring, spaces or non-ASCII characters) and resolving the same requests there gives the same answers relative to the new root; and replacing names of files, packages and subpaths consistently by other names, ASCII or not, renames the answers accordingly.",
 ["inputs","configurations"],"every tree, every target location name, every consistent renaming to Unicode names",
 "All fixtures live at one location with ASCII names.",
 ["src/plugin/alias.rs","src/plugin/exports_field.rs","src/resolve.rs","src/map.rs","src/normalize.rs"],[("location-dependent checks","src/plugin/alias.rs, src/plugin/exports_field.rs is_in_module"),("character/byte indexing","src/resolve.rs, src/map.rs")],[R])
p("C22","Failures are reported as errors that name the caller's request",
 "A request that nothing can serve yields an error, never a made-up path; for plain not-found failures (no alias, imports or exports gate involved) the message contains the original request with its query and fragment and the original base directory, not an intermediate rewriting; an unreadable or unparsable description file that the lookup needs is reported as an error naming that file; no internal marker is ever returned as the message.",
 ["inputs","configurations"],"every failing request over every tree and option combination",
 "Tests assert the text of five fixed errors.",
 ["src/lib.rs","src/utils.rs","src/resolve.rs","src/description.rs"],[("error construction","src/lib.rs _resolve, src/utils.rs raise_resolve_failed_message"),("failure tag","src/utils.rs RAISE_RESOLVE_ERROR_TAG")],[R])
p("C23","prefer_relative tries the relative file first and otherwise changes nothing",
 "With prefer_relative on, a bare request resolves to what './'+request resolves to if that succeeds, and otherwise to what it resolves to with the option off; requests already starting with './' or '../' are unaffected.",
 ["inputs","configurations"],"every tree, option set, base and request",
 "Tests check four requests on one fixture.",
 ["src/plugin/prefer_relative.rs","src/lib.rs"],[("relative-first attempt","src/plugin/prefer_relative.rs")],[R])
p("C24","The symlinks option changes only how the found file is named",
 "With symlinks off the result is the lexical path through which the file was found; with symlinks on it is the canonical path of that same file; success or failure, query, fragment and ignoring are the same in both modes, for file links, directory links, linked packages and dangling links.",
 ["inputs","configurations"],"every tree with file and directory symlinks, every base and request",
 "Tests cover one symlink fixture.",
 ["src/normalize.rs","src/resolve.rs","src/lib.rs"],[("normalization by mode","src/normalize.rs normalize_path")],[R])
p("C25","Unset options and public helpers behave as documented",
 "A resolver that leaves any set of options alone answers every request as one whose options spell out the documented defaults (extensions .js, .json, .node; main file index; main field main; description file package.json; condition node; symlinks on; everything else off or empty), and Resolver::default() answers as Resolver::new of the default options; is_build_in_module is true exactly for the names of Node.js's own modules, and normalize_path_without_link removes empty and dotted segments of an absolute path lexically, never climbing above the root.",
 ["inputs","configurations"],"every subset of options, every tree and request; every name and path for the helpers",
 "Tests use defaults in single places and ask is_build_in_module two names.",
 ["src/options.rs","src/lib.rs","src/kind.rs","src/normalize.rs"],[("defaults","src/options.rs Default"),("core modules","src/kind.rs BUILT_IN_MODULE_SET"),("lexical normalization","src/normalize.rs normalize_path_without_link")],[R,"Resolver::is_build_in_module","Resolver::normalize_path_without_link"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,x['id']
