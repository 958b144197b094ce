#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[min(i,len(files)-1)]} for i,m in enumerate(mech)]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
SC=["oapi.go","internal/oapi/scan/specs/scan.go","internal/oapi/scan/types/types.go","internal/oapi/scan/cmds/scan.go"]
p("C01","Same input gives byte-identical output on every run",
 "For a fixed source tree, configuration and output format, every run ends the same way: either every run fails, or every run succeeds with byte-identical output. Neither hash-map iteration order, goroutine scheduling, wall-clock time, unrelated environment variables nor the absolute directory in which the tree is checked out may change a byte.",
 ["schedules","inputs","configurations"],
 "All generated projects (several modules, packages, spec files, exports, root configuration), all five output formats, all map-iteration orders and hash seeds, all goroutine interleavings of the loader, arbitrary clock values and jumps, random environment noise, relocated roots.",
 "Tests run each example once under whatever order the Go runtime happened to pick, with at most a handful of keys; a dependence on map order or scheduling shows up only on some runs.",
 ["internal/container/sort.go","internal/container/merge.go","internal/oapi/scan/types/point.go","internal/oapi/resolver/resolver.go","internal/oapi/oapi.go","oapi.go"],
 ["iteration over Go maps while merging, extracting references and sorting top-level keys","pointer maps filled in walk order"])
p("C02","No dangling or unresolved type reference survives in a document",
 "A successful run leaves no go:// reference anywhere in the document, whatever its depth and whatever characters (dots, slashes, tildes, spaces) the surrounding keys contain, and every reference the tool itself writes points to something present in the document. A go:// reference to a package, type or field that does not exist or cannot be described (a malformed struct tag included), or a reference with an unsupported scheme, makes the run fail; it is never dropped, emptied or left in place.",
 ["inputs","schedules","configurations"],
 "All generated spec documents with references placed in responses, request bodies, parameters, headers, components, array elements and under awkward keys; valid, self-relative, dangling and foreign-scheme references; any map order.",
 "Tests resolve a few hand-written references under plain keys and never a missing target; the position and key alphabet of references is unbounded.",
 ["internal/container/utils.go","internal/oapi/resolver/resolver.go","internal/oapi/resolver/utils.go","internal/oapi/scan/specs/scan.go","internal/pointer/pointer.go"],
 ["reference extraction and in-place replacement by dotted path","pointer lookup in the type map"])
p("C03","Inlined schemas describe exactly the referenced Go type",
 "The schema that replaces a go:// reference is the one determined by the Go type (or field) it names: exported, non-ignored fields under their tag names, embedded structs flattened, basic kinds with their type/format/bounds, slices, arrays, maps and pointers with their items and nullability, tag constraints, referenced named struct types described by their own definition, time.Time as a string. Another type that merely has the same structure, a recursive neighbour, or the order in which types are visited never changes it.",
 ["inputs","schedules"],
 "All generated Go packages: nested, recursive, mutually recursive, structurally identical, embedded, cross-package and cross-module struct types, with oapi/json tags; any visiting order.",
 "Tests compare fixed golden schemas for single packages; look-alike types and recursion make the outcome depend on visiting order, which a single run cannot show.",
 ["internal/oapi/scan/types/types.go","internal/oapi/scan/types/point.go","internal/oapi/scan/types/scan.go","tag/tag.go"],
 ["type walk registering pointers per structural type","conversion from Go type to schema","struct tag parsing"])
p("C04","Every reachable package's specification is merged, exactly as written",
 "The produced document contains every key and value of the oapi.yaml, oapi.yml and oapi.json files of the scanned package and all non-standard-library packages it imports, directly or indirectly and across modules, and nothing that no input asked for. Specification-named files without an openapi key, files of unreachable packages and other files contribute nothing.",
 ["inputs","configurations","schedules"],
 "All generated import graphs (diamonds, chains, several modules, replaced modules) and distributions of specification fragments over packages and file kinds; any visiting order.",
 "The example tests cover one package with one file; loss or duplication needs particular import graphs and file combinations.",
 ["internal/oapi/scan/specs/scan.go","internal/pkgutil/util.go","internal/pkgutil/info.go","internal/container/container.go","internal/container/merge.go"],
 ["import graph traversal","directory lookup per package","document merge"])
p("C05","Contradicting definitions always make the run fail",
 "If two specification files give different values for the same location, if one component name is exported for two different types, if one type is exported twice, or if an exported name or root-configuration component collides with a different hand-written component of that name, the run fails with an error. It never silently keeps one of the two, whatever order the files and declarations are visited in.",
 ["inputs","schedules","configurations"],
 "All generated projects into which one conflicting pair is planted (same operation, same component, same export name, same exported type, export against hand-written component, configuration against file), any visiting order.",
 "Tests contain no conflicting project at all; silent last-writer-wins is visible only when the conflict exists and the order varies.",
 ["internal/container/merge.go","internal/oapi/scan/cmds/scan.go","internal/oapi/resolver/resolver.go","internal/oapi/resolver/utils.go","internal/oapi/oapi.go"],
 ["strict merge","export registration","component placement"])
p("C06","Configuration precedence and overrides are applied exactly",
 "Command-line flags beat the configuration file, which beats the file it extends; configured info fields beat those in specification files, while servers, tags, security and external documentation from specification files beat the configured ones, and configured components are added. A configured override replaces the schema of every reference to its pointer and nothing else.",
 ["configurations","inputs"],
 "All generated combinations of flags, configuration file, extended file (YAML and JSON), root document sections present or absent on either side, and overrides, including overrides that are themselves references.",
 "No test reads a configuration file or runs the command; the product of sources and sections is too large for examples.",
 ["cmd/oapi/config.go","cmd/oapi/scan.go","internal/oapi/config/config.go","internal/oapi/oapi.go","oapi.go"],
 ["configuration merge","root document merge","override lookup during resolution"])
p("C07","Default operations only fill gaps of matching operations",
 "A default operation adds its fields to every operation whose method and path match its pattern and that lacks them, recursively. It never changes a value the operation already has, never touches a non-matching operation, path-level fields or extensions, and never creates a path or operation.",
 ["inputs","configurations","schedules"],
 "All generated documents (paths with dots, braces, path-level parameters, x- extensions) and pattern sets (method-qualified, wildcards, variables, overlapping patterns), any map order.",
 "Tests use one document with one pattern; phantom paths and order effects need unusual path names or overlapping patterns.",
 ["internal/oapi/oapi.go","internal/route/route.go","internal/container/utils.go","internal/container/merge.go"],
 ["pattern matching per operation","default merge and write back by dotted path"])
p("C08","All output formats encode one and the same document",
 "For one scan result the yaml, yml, json, json:pretty and go formats decode to the same document, top-level keys start with openapi, info, components, paths in that order with the rest in a fixed order, the go format is a compilable Go file whose constant is that JSON text, and formatting any number of times or concurrently gives the same bytes. An unknown format is an error.",
 ["inputs","schedules","histories"],
 "All generated documents including keys and strings with quotes, backticks, control and non-ASCII characters, and strings that look like other YAML scalars; repeated and interleaved formatting.",
 "Tests format a few plain documents in one format each and never cross-check them.",
 ["oapi.go","temp.go","internal/container/sort.go"],
 ["ordered marshalling","Go file template"])
p("C09","Input that cannot be read fails the run; transient faults do not",
 "If a specification, configuration or Go source file or a package directory that exists cannot be listed, opened or read to its end, or its content cannot be parsed, or the Go loader fails, the run fails with an error instead of producing a document without that input. Interrupted system calls and short reads never change the outcome.",
 ["fault_sequences","inputs"],
 "Any single or repeated read-side fault (EIO, EACCES, EMFILE, ENFILE, ESTALE, EINTR, short reads, truncation to unparsable content, loader failure) at any system call of any run on any generated project.",
 "No test injects an I/O error; whether an error on the n-th system call is noticed depends on which call it is.",
 ["internal/container/container.go","internal/oapi/scan/specs/scan.go","internal/oapi/config/config.go","internal/pkgutil/util.go","internal/pkgutil/info.go","oapi.go"],
 ["directory listing and file reading","error propagation of package scanning"])
p("C10","The command's exit status and streams tell the truth",
 "The command exits with status 0 exactly when the complete document has been delivered to the chosen destination (standard output, standard error or a file); in every other case it exits non-zero with a message on standard error and no document on standard output. The log level changes neither the exit status, nor the document, nor standard output.",
 ["configurations","fault_sequences","inputs"],
 "All combinations of valid and broken projects, configurations, flags, log levels and destinations, and write faults (ENOSPC, EIO, EPIPE, short writes) on any destination.",
 "The command has no tests; its error paths depend on the failing phase and the log level together.",
 ["cmd/oapi/main.go","cmd/oapi/config.go","internal/logging/logging.go"],
 ["fatal error reporting","destination selection and writing"])
p("C11","After a crash the output file holds the old or the new document, whole",
 "At every instant of a run, and after the process is killed or the machine loses power at any instant, the output path holds either exactly what it held before (possibly nothing) or exactly the complete new document. A later run succeeds regardless of what the crash left behind.",
 ["crash_points","schedules","inputs"],
 "Every system call boundary of every run writing to a file, for process death and for power loss (unsynced data lost, torn or kept; unsynced directory operations lost from any point on), with and without a previous output.",
 "No test crashes the command or looks at the disk in between.",
 ["cmd/oapi/main.go"],
 ["replacement of the output file"])
p("C12","Failed runs change nothing on disk, successful runs only the output",
 "When the command fails, for whatever reason and including a full disk or write error half-way, the previous output file is byte-for-byte intact and no other file has been created, changed or removed. When it succeeds it has changed exactly the output file, and a library scan never changes anything on disk.",
 ["fault_sequences","inputs","configurations"],
 "Any write-side fault (ENOSPC, EIO, EDQUOT, EROFS, EACCES, EINTR, short writes; on open, write, sync, close, rename, chmod) at any system call, and any input error, with and without a previous output.",
 "No test writes an output file, let alone one on a failing disk.",
 ["cmd/oapi/main.go","oapi.go"],
 ["replacement of the output file","error handling before output"])
p("C13","Interruption at any moment ends promptly and cleanly",
 "If the caller's context is cancelled or the process receives SIGINT or SIGTERM at any moment, the run ends within a bounded number of further steps, either with an error and the output file untouched or with the complete, correct result. A cancellation before the scan starts always yields an error, and no partial document is ever returned or written. A signal that arrives once the command is at work does not kill it on the spot: it ends by itself, saying so.",
 ["schedules","crash_points","histories"],
 "Cancellation or one or more signals at any step of any run, for library calls and the command, any goroutine schedule.",
 "No test cancels a scan or signals the command; the window between loading and writing cannot be hit on purpose.",
 ["cmd/oapi/main.go","oapi.go"],
 ["signal goroutine and context","context use while loading"])
p("C14","Concurrent scans and formatting are isolated and race-free",
 "Scans of the same or different projects and formatting of results running concurrently in one process each give exactly the result they give alone, under every interleaving, without data race, deadlock or crash.",
 ["schedules","inputs"],
 "Two to four concurrent scan-and-format calls on equal or different projects with different options, any interleaving at statement granularity, any map order.",
 "Tests are sequential; shared caches and tables are touched concurrently by none of them.",
 ["oapi.go","internal/route/route.go","internal/pkgutil/util.go","internal/oapi/scan/types/types.go"],
 ["process-wide caches and tables","per-scan scanners and resolver"])
p("C15","A result depends only on its own call, not on earlier ones",
 "A scan's result depends only on its options and the tree at the time of the call: earlier scans in the same process (successful, failed or cancelled, of this or other projects) do not influence it, later changes on disk and later calls do not alter an already returned result, and option values passed in are never modified.",
 ["histories","inputs","fault_sequences"],
 "Any sequence of up to five scans with changing trees, options, faults and cancellations in one process, reusing option values.",
 "Each test performs one scan per process state; leftover state only matters in the second.",
 ["oapi.go","internal/route/route.go","internal/oapi/scan/types/types.go","internal/container/container.go"],
 ["package-level state","sharing of option values with the document"])
p("C16","Every input terminates with a result or an error, never a crash",
 "For every project, configuration and reference, including recursive and self-referential types, empty or malformed files, wrongly typed specification sections, unusual magic comments and packages that do not type-check, the tool terminates within a bounded number of steps and returns a document or an error. It never panics, deadlocks or overflows the stack.",
 ["inputs","schedules","fault_sequences"],
 "All generated projects plus mutated ones (truncated, spliced and retyped specification and configuration files, malformed comments and tags, cyclic types of every element kind).",
 "Tests feed well-formed inputs only.",
 ["internal/oapi/scan/types/types.go","internal/oapi/resolver/resolver.go","internal/oapi/scan/cmds/schema.go","internal/container/container.go","internal/oapi/oapi.go"],
 ["recursive walks with visited paths","untyped document accessors"])
p("C17","Exported types become one component that every reference uses",
 "A type exported under a name by a magic comment and reached by some reference appears once under that name in the document's schema components with the schema of that type, and every reference to it, direct, nested in other types or inside components, becomes a local reference to that component. This holds for recursive and mutually recursive types with any mixture of exported and non-exported members and whatever reference is followed first; types that are not exported are written in place.",
 ["inputs","schedules"],
 "All generated packages with random export sets (one- and two-argument comments, absolute and relative pointers, cross-package exports), recursion through exported and non-exported types, any visiting order.",
 "Tests export types in one fixed arrangement; which reference is resolved first is decided by map order.",
 ["internal/oapi/resolver/resolver.go","internal/oapi/resolver/utils.go","internal/oapi/scan/cmds/scan.go","internal/oapi/scan/cmds/schema.go"],
 ["export lookup by pointer","component placement and local reference update","recursion cut-off"])
p("C18","Library calls leave no open descriptor or goroutine behind",
 "When a scan or format call has returned, with a result, with an error or after cancellation, every file descriptor it opened is closed and every goroutine it started ends within a bounded number of steps, so that a long-running process can call the library indefinitely.",
 ["histories","fault_sequences","schedules"],
 "Any sequence of successful, failing, fault-injected and cancelled scans, any schedule.",
 "Tests call once and exit; a leak per call or only on an error path is invisible.",
 ["oapi.go","internal/container/container.go","internal/pkgutil/util.go"],
 ["file reading","loader goroutines"])
# pure-function properties, not decidable by this family
pure="A pure function of one string or value: no scheduling, time, I/O, fault or multi-party behaviour takes part, so simulation has nothing to vary."
p("C90","Struct tag grammar is parsed as documented",
 "Every oapi and json struct tag string is parsed to the options it spells out, and every malformed one is rejected.",
 ["inputs"],"All tag strings.","Tests sample a few tags.",["tag/tag.go"],["tag parsing"])
p("C91","JSON pointer escaping round-trips",
 "Parsing the textual form of any pointer yields an equal pointer, for every fragment token including slashes and tildes.",
 ["inputs"],"All pointers.","Tests sample a few pointers.",["internal/pointer/pointer.go","internal/pointer/fragment.go"],["escaping"])
p("C92","Route patterns match exactly the language they denote",
 "A pattern matches a method and path if and only if the documented wildcard and variable semantics say so.",
 ["inputs"],"All pattern and path strings.","Tests sample a table of patterns.",["internal/route/route.go"],["regular expression construction"])
p("C93","The typed OpenAPI model round-trips through JSON",
 "Every valid OpenAPI 3 object decodes into the typed model and encodes back to an equal document.",
 ["inputs"],"All OpenAPI documents.","Tests cover a few objects.",["internal/oapi/spec/openapi.go","internal/oapi/spec/schema.go"],["struct definitions and custom marshallers"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
