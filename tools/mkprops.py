import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
R="Resolver::resolve (public API)"
p("C01","A success names an existing regular file in normal form",
 "Whenever a resolve succeeds with a path, that path is absolute for an absolute base, is an existing regular file at that moment, and is fully normalised: with `symlinks` on it is its own canonical path, with `symlinks` off it contains no `.` or `..` component (leading `..` of a relative base apart). No part of the request is left unconsumed in the answer: the request carried by the result has an empty target.",
 ["inputs","configurations"],"every file tree (files, directories, symlinks, several description files), every option set, every base directory and request string",
 "The tests compare some hundred fixed requests on fixed fixtures with expected paths; a stray directory, dangling link, unnormalised path or left-over target on any other combination of options and tree is never looked at.",
 ["src/lib.rs","src/normalize.rs","src/resolve.rs","src/plugin/extensions.rs"],[("result normalisation","src/normalize.rs normalize_result"),("file checks","src/resolve.rs resolve_as_file")],[R])
p("C02","Resolving is total: it always returns, and returns a value or an error",
 "For every file tree, every (also malformed) package.json or tsconfig.json, every option set, base path and request string, a call returns within bounded work with either a result or an error value. It never panics, overflows the stack (also on a 2 MiB thread stack), aborts or loops, including for self-referencing or mutually recursive alias, browser, imports, main-field and tsconfig-extends configurations, multi-byte text anywhere, and very long or deep paths. The same holds for loading side effects and for the public path normalisation helper.",
 ["inputs","configurations"],"all trees, description files, tsconfig files, options and request strings, hostile ones included",
 "The fixtures are well-formed; none has cyclic redirections, non-ASCII names, malformed JSON values or deep paths.",
 ["src/lib.rs","src/resolve.rs","src/description.rs","src/map.rs","src/tsconfig.rs","src/tsconfig_path.rs","src/plugin/alias.rs","src/plugin/alias_field.rs","src/plugin/imports_field.rs","src/plugin/main_field.rs"],[("redirect limit","src/parse.rs redirected_from"),("directories tried once","src/resolve.rs resolve_as_untried_dir"),("circular extends","src/tsconfig.rs parse_file_to_value")],[R,"Resolver::load_side_effects","process exit status"])
p("C03","Query and fragment are split off and handed back unchanged",
 "The query of a request starts at its first `?` that precedes any fragment, the fragment starts at the first `#` that is not the very first character of the request, and everything before is the target. The split-off query and fragment never influence which file is chosen (requests into packages with an exports field, and internal `#` requests, excepted) and come back byte for byte in the result, also through alias, browser field, prefer_relative, main fields, tsconfig paths and node_modules lookup; joining the result gives path + query + fragment.",
 ["inputs","configurations"],"all request strings over `?`, `#`, separators and multi-byte text, all ways a request can be redirected",
 "A table of some twenty identifiers is tested for the split, and a handful of requests for the hand-back; combinations with redirections are not.",
 ["src/parse.rs","src/lib.rs","src/plugin/alias.rs","src/tsconfig_path.rs"],[("identifier parser","src/parse.rs parse_identifier"),("requests are cloned through redirections","src/parse.rs with_target")],[R,"ResolveInfo::join"])
p("C04","Relative and absolute requests try file candidates in the documented order",
 "For a relative or absolute request the exact file is taken first (unless an extension is enforced), then the path with each configured extension appended, in the configured order, and only then the directory of that name. An extension is enforced when `enforce_extension` is set to true, or left unset while `extensions` contains an empty string; an enforced extension means the file without appended extension is not a candidate by itself. The answer is exactly the first existing regular file among the candidates.",
 ["inputs","configurations"],"all trees in which several candidates coexist (files, directories and links of the same stem), all extension lists, both enforcement settings",
 "The tests check a few fixed stems; which of several coexisting candidates wins must hold for every list and every subset of existing candidates.",
 ["src/resolve.rs","src/plugin/extensions.rs","src/lib.rs"],[("exact file, extensions, directory","src/resolve.rs resolve_as_file, resolve_as_dir"),("enforcement default","src/lib.rs Resolver::new")],[R])
p("C05","A directory resolves through its main fields, then its main files",
 "A request that names a directory resolves through that directory's own description file: each configured main field, in configured order, whose value is a string is looked up relative to the directory as a file (with extensions) and then as a directory, and the first that leads to a file wins; a value of `.` or `./` stops the main fields. If none leads to a file, the configured main files are tried in order, each as exact file and with the extensions; a description file of an ancestor directory contributes nothing. If nothing exists the request fails.",
 ["inputs","configurations"],"all description files (missing, non-string, dangling, nested, cyclic main fields), all main_fields and main_files lists, all trees",
 "Tests use one or two main fields that exist; order, fall-through after dangling values and nesting are only sampled.",
 ["src/plugin/main_field.rs","src/plugin/main_file.rs","src/resolve.rs"],[("main fields","src/plugin/main_field.rs"),("main files","src/plugin/main_file.rs")],[R])
p("C06","Bare requests find the nearest matching package up the directory tree",
 "A bare request is looked up in the node_modules directory of the base directory and then of each of its ancestors, nearest first; the first level at which the package (or a file of that name) yields a file wins, and a level where it yields nothing (absent, empty package directory, missing subpath) is passed over without changing how the levels above treat the request. Scoped names `@scope/name` are one package name. Node_modules directories that are not on the base's ancestor chain never contribute.",
 ["inputs","configurations"],"all nestings of node_modules, shadowed, empty and partial packages, scopes, base directories that do not exist or contain `..`",
 "Fixtures contain a few nestings; shadowing and fall-through with every kind of incomplete nearer candidate are not covered.",
 ["src/resolve.rs"],[("ancestor walk","src/resolve.rs resolve_as_modules"),("package name split","src/resolve.rs get_module_name")],[R])
p("C07","A package with exports exposes nothing else, and exports never escape it",
 "When the package found for a bare request has a (non-null) exports field in its root description file, the request succeeds only with a file that the exports field maps this subpath to, whatever other files, nested description files or main fields the package contains, and fails otherwise without looking further up the tree. No exports mapping, whatever the subpath requested, resolves to a file outside the package directory. The exports of one package never apply to another package, not even to one without a description file that is nested in it or one whose name merely begins with its name.",
 ["inputs","configurations"],"all exports fields, package contents and subpaths, with `..`, empty segments and encoded oddities included; all nestings of packages",
 "Tests check a few listed subpaths and check_target strings; encapsulation is a statement about all files and all subpaths of a package.",
 ["src/plugin/exports_field.rs","src/map.rs","src/resolve.rs"],[("exports lookup","src/plugin/exports_field.rs"),("escape check","src/map.rs check_target"),("root description file","src/resolve.rs resolve_in_node_modules")],[R])
p("C08","Exports keys and conditions are matched by specificity and written order",
 "Among exports keys, an exact key wins over patterns and folders, and of several matching `*`-terminated patterns and `/`-terminated folders the one with the longest literal prefix wins (a pattern beats a folder of the same prefix); the remainder of the subpath is substituted literally. Among condition objects the first key, in written order, that is a configured condition or `default` and leads to a target decides, nested objects included, falling through when a nested object has no match; a target array is tried in order until one names an existing file. A `null` target excludes the subpath, an object with `default` before other keys is an error when it is evaluated, and the written order of keys that do not overlap never matters.",
 ["inputs","configurations"],"all well-formed exports objects (exact, pattern and folder keys, nested conditions, arrays, null) times all subpaths times all condition sets",
 "The table of unit tests holds some hundred fixed pairs ported from enhanced-resolve; specificity and condition order are claims over all key sets.",
 ["src/map.rs"],[("path tree","src/map.rs PathTreeNode walk/find_match"),("conditions","src/map.rs conditional_mapping")],[R])
p("C09","Internal `#` requests go through the imports field of their own package",
 "A request starting with `#` is mapped by the imports field of the description file nearest to the base directory, with the same key specificity and condition rules as exports; a relative target must name an existing file and is taken relative to that package, a bare target is looked up like any bare request made from that package's directory (its own node_modules and those above, exports honoured), and an internal target is mapped again. An unmatched key, or a relative target that does not exist or leaves the package, is an error; imports of other packages never apply.",
 ["inputs","configurations"],"all imports fields, condition sets, nestings of packages and base directories",
 "A dozen fixed imports are tested; hoisted, nested and re-mapped targets and key specificity are not.",
 ["src/plugin/imports_field.rs","src/map.rs","src/description.rs"],[("imports lookup","src/plugin/imports_field.rs"),("own content cache","src/description.rs imports_content_to_tree")],[R])
p("C10","Aliases apply in order, as prefixes, with fall-through to the next",
 "For a base path not containing `node_modules`, each alias, in configured order, whose key is a prefix of the request target replaces that prefix once by its value, unless the target already starts with the value, and the rewritten request is resolved by all rules from the same base; the first one that resolves wins, and if none does the original request is resolved as if the aliases were absent. An alias to `Ignored` yields Ignored at its place in the order. Aliases that lead back to themselves end in an error, not in endless work.",
 ["inputs","configurations"],"all ordered alias lists (overlapping, chained, cyclic, ignored), all requests and trees",
 "Tests use one fixed alias list; order, overlap and fall-through are claims over all lists.",
 ["src/plugin/alias.rs","src/lib.rs"],[("alias plugin","src/plugin/alias.rs")],[R])
p("C11","The browser field remaps or ignores exactly the entries it lists",
 "With `browser_field` on, a bare request is remapped when the description file nearest to the base lists exactly that request, and a file request (relative, absolute, main field, main file, or reached through a package or its exports) is remapped when the description file nearest to the file lists its path, with or without a configured extension. Chains of entries are followed to their end, `false` gives Ignored, `true` leaves the request alone, a relative replacement is taken relative to the package and a bare one is looked up as a module from the package. Requests that are not listed, and all requests with the option off, are unaffected.",
 ["inputs","configurations"],"all browser maps (files, modules, chains, cycles, booleans) times all ways of reaching a file",
 "Tests cover one fixture package; reaching one file by different routes and chains of entries are not.",
 ["src/plugin/alias_field.rs","src/plugin/main_field.rs","src/plugin/main_file.rs","src/resolve.rs","src/lib.rs"],[("browser map","src/plugin/alias_field.rs")],[R])
p("C12","tsconfig paths map non-relative requests by the most specific pattern",
 "With a tsconfig that has a baseUrl, a non-relative request that equals a `paths` key, or matches a key with `*`, is resolved to the listed locations (relative to baseUrl, `*` replaced by the matched text), keys with longer literal prefix before shorter ones and locations in listed order; the first that resolves wins, and otherwise the request is resolved as usual. Relative requests are never mapped. Settings missing in a tsconfig are inherited through `extends` (file or package), an inherited baseUrl being relative to the file that contains it and an own `paths` replacing the inherited one; comments and trailing commas are accepted, a malformed or circularly extended tsconfig is an error.",
 ["inputs","configurations"],"all paths maps, extends chains, requests and trees",
 "Tests use a few non-overlapping patterns; with overlapping ones the answer used to depend on hash order.",
 ["src/tsconfig.rs","src/tsconfig_path.rs"],[("pattern match","src/tsconfig_path.rs match_star, get_absolute_mapping_entries"),("extends merge","src/tsconfig.rs")],[R])
p("C13","prefer_relative only adds the relative reading first",
 "With `prefer_relative` on, a bare request (to which no alias or tsconfig path applies) resolves as `./request` would from the same base if that succeeds, and otherwise exactly as it does with the option off. Relative and absolute requests give the same answer with and without the option.",
 ["inputs","configurations"],"all trees, options and requests",
 "Two fixed requests are tested; this is an equation between runs over all inputs.",
 ["src/plugin/prefer_relative.rs"],[("prefer relative plugin","src/plugin/prefer_relative.rs")],[R])
p("C14","The nearest description file governs, and side effects are read from it",
 "The description file that governs a path is the one with the configured name in the nearest enclosing directory (the directory itself included), `x/..` counting as the parent of x and not as inside of it. Loading side effects for a path returns the path of that file together with its `sideEffects` value as written (boolean, or list of strings in order, or absent), returns nothing when no such file exists, and an error when the governing file is malformed. Directories or other files of that name, and description files under another name, are passed over.",
 ["inputs","configurations"],"all trees and nestings of description files, valid and malformed, all configured names, existing and missing paths",
 "One fixture is loaded in the tests.",
 ["src/description.rs","src/utils.rs"],[("find up","src/description.rs load_pkg_file")],["Resolver::load_side_effects",R])
p("C15","Caching is invisible: warm, shared and fresh resolvers agree",
 "On an unchanged file tree a call gives the same result (path, query, fragment, ignored, or error text) whatever was asked before on that resolver and whatever other resolvers with other options did with a cache shared through `external_cache`; it equals the result of a fresh resolver with an empty cache. This includes calls that fail, packages with equal or similar field contents, and resolvers using different description file names, conditions or field settings on the same cache.",
 ["histories","configurations"],"all sequences of calls on one resolver and on several resolvers with different options sharing one cache",
 "Two tests count cache entries after two calls; transparency quantifies over call histories.",
 ["src/cache.rs","src/description.rs"],[("cache keys","src/description.rs load_pkg_file_in_dir, parse_description_file")],[R,"Resolver::load_side_effects"],[("file_dir_to_pkg_info","directory -> parsed description file","src/cache.rs"),("exports_content_to_tree","exports text -> tree","src/cache.rs"),("imports_content_to_tree","imports text -> tree","src/cache.rs")])
p("C16","Changes on disk are seen by the next call",
 "After files, directories, links or description files are created, changed or deleted between calls, a long-lived resolver answers as a fresh one would, provided the modification time of a changed description file differs from the earlier one by at least one second in either direction. This includes description files that appear in or vanish from any directory on the way, become malformed and are repaired, or are replaced by an older file; a failed parse neither sticks nor resurrects older content.",
 ["histories","fault_sequences"],"all interleavings of calls with file-system edits (create, modify, delete, corrupt, repair, replace by older)",
 "One test rewrites one file once.",
 ["src/description.rs","src/fs.rs","src/tsconfig.rs"],[("modification time check","src/fs.rs need_update")],[R,"Resolver::load_side_effects"],[("last_modified_time","mtime of the description file when it was read","src/description.rs")])
p("C17","Results depend only on tree, options and request",
 "Two resolvers with equal options give equal answers to equal calls on equal trees: in other processes, with other hash seeds, from another working directory, on other threads, with condition names inserted in another order, and (for the same relative structure, up to the location prefix) at another location on disk. Adding files, packages or description entries that no candidate of the request refers to does not change the answer.",
 ["inputs","configurations"],"all trees, options and requests, times all hash seeds, processes, working directories and locations",
 "A test process has one working directory and one run; an order taken from a hash map passes most of the time.",
 ["src/tsconfig_path.rs","src/plugin/alias_field.rs","src/description.rs","src/map.rs","src/options.rs"],[("ordered maps","src/description.rs, src/map.rs"),("sorted patterns","src/tsconfig_path.rs")],[R])
p("C18","One resolver can be used from many threads at once",
 "Calls made concurrently from any number of threads on one resolver, or on several resolvers sharing one cache, on an unchanging tree each return what the same call returns alone; none panics, deadlocks or starves, and no data race or undefined behaviour occurs. While description files are being replaced concurrently, each call still returns (without panic) and once the changes have ceased every call sees the final state.",
 ["schedules","histories"],"all interleavings of calls from many threads, cold and warm caches, with and without concurrent replacement of files",
 "No test uses two threads.",
 ["src/description.rs","src/cache.rs","src/fs.rs"],[("concurrent maps","src/cache.rs")],[R,"ThreadSanitizer and Miri reports"],[("ResolverCache","three concurrent maps shared by resolvers","src/cache.rs")])
p("C19","Errors name the failing request, do not leak internals, and do not stick",
 "A request that cannot be resolved because no candidate exists fails with the message `Resolve '<request with query and fragment>' failed in '<base>'` naming the original request and base even when alias or prefer_relative rewrote it; a description file that is not valid JSON yields an error naming that file, and a subpath or import that the field does not list yields one naming it. An error is never an empty string or an internal marker, and is the same every time the call is repeated.",
 ["inputs","configurations","histories"],"all failing requests, all reasons of failure, all redirections before the failure",
 "Tests compare a few messages.",
 ["src/lib.rs","src/utils.rs","src/description.rs","src/plugin/exports_field.rs"],[("message built before redirections","src/lib.rs _resolve"),("internal tag","src/utils.rs")],[R])
p("C20","Resolving never modifies the file system",
 "No call creates, deletes, renames, truncates, writes or changes the attributes of any file, directory or link, whether it succeeds or fails. It changes neither the working directory nor the environment of the process.",
 ["inputs","configurations"],"all trees, options and requests",
 "Tests do not look at the tree after resolving.",
 ["src/fs.rs","src/description.rs","src/tsconfig.rs","src/normalize.rs"],[("read-only calls","src/fs.rs")],["file tree snapshots","system-call trace"])
p("C21","The symlinks option changes the spelling of the answer, not the file",
 "With `symlinks` on and off a call succeeds or fails alike and, when it succeeds, names the same file: the answer with the option on is the canonical path of the answer with it off. With it off the links on the way are preserved in the answer, except a link that a `..` leaves right away.",
 ["inputs","configurations"],"all trees with links to files and directories, relative and absolute, chained and dangling; all options and requests",
 "One fixture with a few links is tested, and it is skipped when the links cannot be made.",
 ["src/normalize.rs"],[("normalize_path","src/normalize.rs")],[R])
p("C22","The built-in module test equals Node's list",
 "`is_build_in_module` is true exactly for the specifiers in Node 16's list of built-in modules (with their subpaths, such as `fs/promises` and `assert/strict`, and without `node:` prefix), and false for every other string: case variants, prefixes, extensions, subpaths of modules without such subpath, and package names.",
 ["inputs"],"all strings",
 "Two strings are tested.",
 ["src/kind.rs"],[("static set","src/kind.rs BUILT_IN_MODULE_SET")],["Resolver::is_build_in_module"])
p("C23","Lexical path normalisation is exact and idempotent",
 "The public lexical normalisation removes every `.` and resolves every `..` against the component before it (at the root, or with nothing left, it is dropped), collapses repeated separators, keeps an absolute path absolute and a relative one relative, changes nothing else, and applying it twice equals applying it once. It never touches the disk, and on trees without links the normalised path names the same file.",
 ["inputs"],"all paths, including multi-byte and non-UTF-8 ones",
 "It is not tested on its own.",
 ["src/normalize.rs"],[("fold over components","src/normalize.rs normalize_path_without_link")],["Resolver::normalize_path_without_link"])
p("C24","Options that are off or empty take no effect",
 "With no description file configured, the contents of description files never influence any answer, and loading side effects returns nothing; with `browser_field` off browser entries never do, and condition keys, main fields, main files or extensions that are not configured never do. An empty alias list, or one that matches nothing, equals no alias list, and a tsconfig whose paths match nothing gives the answer of no tsconfig.",
 ["inputs","configurations"],"all trees, options and requests: pairs of runs that differ only in an inert setting or in content that only a disabled setting reads",
 "The tests have one fixture without description file; non-interference is a statement about pairs of runs.",
 ["src/description.rs","src/plugin/alias_field.rs","src/plugin/alias.rs","src/map.rs","src/options.rs"],[("option guards","src/description.rs load_pkg_file, src/plugin/alias_field.rs apply")],[R,"Resolver::load_side_effects"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
