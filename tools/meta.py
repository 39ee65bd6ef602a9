"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "PYTHONDONTWRITEBYTECODE=1 python3 checks/{}.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None,
         cmd=None, technique=None, level="exploration", note="", claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=list(observe), state=list(state), hook=hook, cmd=cmd or PY.format(id.lower()),
                  technique=technique, level=level, note=note, claimed=claimed, na=na))


I = "gyp/pylib/gyp/input.py"
C = "gyp/pylib/gyp/common.py"
G = "gyp/pylib/gyp/__init__.py"
GEN = "gyp/pylib/gyp/generator/"

# --------------------------------------------------------------------------- gyp input language
prop("C01", "Merging settings follows the documented policies and never aliases",
     "Whenever one dictionary is merged into another (include files, target_defaults, conditions), scalars override, "
     "dictionaries merge recursively, lists are appended, and the key suffixes '=', '+' and '?' replace, prepend or "
     "set-if-absent, with single-line items of a list kept unique and kinds that do not match rejected. "
     "The dictionary merged from is left unchanged, and two recipients of the same source never share mutable parts.",
     ["inputs", "programs"],
     "Every pair and every chain of two merges over a small universe of keys (with every suffix combination), "
     "scalars, lists (with duplicates, '-' options, nested lists) and nested dictionaries, delivered through every merge channel.",
     "Existing tests never call the merge; a handful of samples cannot cover the product of suffixes, kinds, duplicates and channels.",
     [I], [{"name": "dictionary merge", "where": I + ":MergeDicts"}, {"name": "list merge", "where": I + ":MergeLists"}],
     observe=["target dictionaries handed to a generator"],
     technique="exhaustive bounded enumeration of merge programs vs a reference model")

prop("C02", "Relative paths keep naming the same file when settings move between files",
     "When settings written in one build file are applied to a target of a file in another directory (by inclusion or "
     "by dependent settings), every relative pathname in a pathname-valued section still names the same file on disk, "
     "seen from the receiving file. Absolute paths, variable references, command-line options and sections that do "
     "not hold pathnames are left as written, and a trailing slash is kept.",
     ["inputs", "configurations"],
     "Every source/destination directory pair up to depth 2 (including '..'), every pathname shape in the alphabet, every section kind and suffix.",
     "input_test and common_test only sample RelativePath; no test moves settings between files.",
     [I, C], [{"name": "path adjustment", "where": I + ":MakePathRelative"}, {"name": "section classification", "where": I + ":IsPathSection"}, {"name": "relative path", "where": C + ":RelativePath"}],
     observe=["target dictionaries handed to a generator"],
     technique="exhaustive bounded enumeration of directory pairs and path shapes vs file-identity oracle")

prop("C03", "Variable expansion substitutes exactly the value in scope",
     "Each reference of the early, late or latest form is replaced, at its own phase, by the value in scope: "
     "automatic and user variables of the nearest enclosing scope, command-line defaults where nothing else is set, "
     "and '%'-defaults only when unset. String contexts join lists with spaces (quoted so a shell gets the items back), "
     "list contexts splice '@' references, integers render canonically, and a reference to an undefined variable is an "
     "error that names it.",
     ["inputs", "programs"],
     "Every combination of reference form, context, variable kind/value, nesting, definition site and phase in a bounded grammar.",
     "input_test has no expansion tests; nested forms, scope and phase interact combinatorially.",
     [I], [{"name": "expansion", "where": I + ":ExpandVariables"}, {"name": "scope loading", "where": I + ":LoadVariablesFromVariablesDict"}, {"name": "phases", "where": I + ":ProcessVariablesAndConditionsInDict"}],
     observe=["target dictionaries handed to a generator", "error text"],
     technique="exhaustive bounded enumeration of expansion programs vs a reference interpreter")

prop("C04", "Conditionals merge exactly the selected branch",
     "A conditional list selects the first expression that is true, or the default that follows it, evaluates "
     "expressions on the variables in scope at its phase, merges only that branch with its nested conditionals "
     "applied, and is then gone from the result. Target conditionals see the target's own merged settings, and a "
     "malformed conditional is rejected with an error.",
     ["inputs", "programs"],
     "Every conditional list up to 3 clauses and nesting 2 over all truth assignments, at every nesting level and in both phases.",
     "No existing test evaluates a conditional.",
     [I], [{"name": "condition evaluation", "where": I + ":EvalCondition"}, {"name": "branch merge", "where": I + ":ProcessConditionsInDict"}],
     observe=["target dictionaries handed to a generator"],
     technique="exhaustive bounded enumeration of conditional programs vs a reference interpreter")

prop("C05", "List filters keep exactly the items their patterns keep",
     "Exclusion lists ('!') and regular-expression include/exclude lists ('/') leave in a list exactly the items "
     "whose last matching action keeps them, in their original order, and record every removed item, in original "
     "order, under the list's '_excluded' name. An item removed by an exact exclusion can be brought back only by a "
     "later regular-expression include, and the filter lists themselves never reach a generator.",
     ["inputs"],
     "Every list up to 4 items with duplicates, every exclusion list up to 2, every pattern list up to 3 actions.",
     "No existing test runs a list filter.",
     [I], [{"name": "list filters", "where": I + ":ProcessListFiltersInDict"}],
     observe=["target dictionaries handed to a generator"],
     technique="exhaustive bounded enumeration of filter programs vs a reference model")

prop("C06", "Targets are ordered after their dependencies and cycles are rejected",
     "The flattened target list contains each wanted target exactly once with every dependency before its dependents, "
     "whatever the declaration order and the files involved. A dependency cycle between targets, or between build "
     "files when that check is on, is always reported as an error and an acyclic graph never is.",
     ["inputs", "configurations"],
     "Every directed graph on up to 4 targets, every declaration order for 3, every partition over up to 3 files.",
     "input_test samples a few hand-built graph nodes.",
     [I], [{"name": "flattening", "where": I + ":DependencyGraphNode.FlattenToList"}, {"name": "cycle detection", "where": I + ":DependencyGraphNode.FindCycles"}, {"name": "graph building", "where": I + ":BuildDependencyList"}],
     observe=["flat target list", "exit status", "error text"],
     technique="explicit-state enumeration of all small dependency graphs on the real loader vs graph oracle", level="model_checking")

prop("C07", "Dependent settings reach exactly the targets they are meant for",
     "A target receives the direct-dependent settings of its direct dependencies and of targets they re-export, the "
     "all-dependent settings of every transitive dependency, and the link settings of every target whose link step it "
     "absorbs (those of shared libraries too unless propagation from them is turned off); a linkable target also takes "
     "its own link settings. Each set arrives once, in dependency order, and never those of an unrelated target.",
     ["inputs", "configurations"],
     "Every DAG on up to 4 targets with every assignment of target kinds and export edges within the stated bound.",
     "No existing test propagates settings.",
     [I], [{"name": "propagation", "where": I + ":DoDependentSettings"}, {"name": "import walk", "where": I + ":DependencyGraphNode.DirectAndImportedDependencies"}, {"name": "link walk", "where": I + ":DependencyGraphNode._LinkDependenciesInternal"}],
     observe=["target dictionaries handed to a generator"],
     technique="explicit-state enumeration of all small dependency graphs vs a reference closure", level="model_checking")

prop("C08", "Link steps pull in exactly the libraries they need",
     "After static-library adjustment, a target that links depends on every static library reachable through static "
     "libraries and non-linking targets, stopping at (but including) shared libraries, each exactly once and, when the "
     "generator asks for sorted dependencies, with a library before the libraries it needs; a static library keeps only the dependencies that must be built before it.",
     ["inputs", "configurations"],
     "Every DAG on up to 4 targets with every assignment of the five target kinds within the stated bound, with and without hard dependencies.",
     "No existing test adjusts link dependencies.",
     [I], [{"name": "static adjustment", "where": I + ":AdjustStaticLibraryDependencies"}, {"name": "link walk", "where": I + ":DependencyGraphNode.DependenciesToLinkAgainst"}],
     observe=["dependencies of target dictionaries handed to a generator"],
     technique="explicit-state enumeration of all small dependency graphs vs a reference closure", level="model_checking")

prop("C09", "Each configuration gets its inherited settings and nothing else's",
     "Every concrete configuration of a target holds the target-level settings, then its inherited configurations' "
     "settings in inheritance order (each ancestor's own inheritance first), then its own, with later ones winning; "
     "abstract configurations never reach a generator and no configuration sees a sibling's settings. A setting that "
     "may not vary by configuration is rejected there, and the default configuration is the declared one or the first concrete one by name.",
     ["inputs", "configurations"],
     "Every inheritance DAG on up to 4 configurations with every abstract/concrete assignment and list/scalar/suffix settings within the stated bound.",
     "No existing test sets up configurations through the loader.",
     [I], [{"name": "configuration setup", "where": I + ":SetUpConfigurations"}, {"name": "inheritance", "where": I + ":MergeConfigWithInheritance"}],
     observe=["target dictionaries handed to a generator"],
     technique="exhaustive bounded enumeration of configuration inheritance graphs vs a reference model")

prop("C10", "Parallel loading gives the result of serial loading on every schedule",
     "Loading build files with worker processes terminates and hands generators the same targets, order and settings "
     "as loading them one at a time, whatever order the workers finish in. When a file fails to load, parallel loading "
     "fails too, without hanging.",
     ["schedules", "fault_sequences"],
     "Every completion order of up to 4 concurrently loadable files for every small file-dependency graph, with every single file broken in turn.",
     "Existing tests never load in parallel, and one run sees one schedule.",
     [I], [{"name": "parallel driver", "where": I + ":LoadTargetBuildFilesParallel"}, {"name": "completion callback", "where": I + ":ParallelState.LoadTargetBuildFileCallback"}],
     observe=["what the loader returns"], technique="stateless exploration of all worker completion schedules on the real loader",
     level="model_checking")

prop("C11", "Target names, toolsets and wildcards resolve to exactly the right targets",
     "A dependency entry written in any accepted form (bare, file-qualified, toolset-qualified, wildcard) resolves to "
     "exactly the targets it denotes, in the order written, relative to the file that wrote it, wildcards standing for the file's targets in order, leaving out "
     "suppressed targets and rejected over the file's own targets. Each listed toolset gets its own independent copy of a target depending on same-toolset "
     "copies by default, and duplicate or unknown names are errors.",
     ["inputs", "configurations"],
     "Every reference form times toolset list times file layout in the bounded universe.",
     "common_test covers no resolution; forms, toolsets and layouts multiply.",
     [I, C], [{"name": "reference resolution", "where": C + ":ResolveTarget"}, {"name": "toolset expansion", "where": I + ":ProcessToolsetsInDict"}, {"name": "wildcards", "where": I + ":ExpandWildcardDependencies"}],
     observe=["flat target list", "dependencies"], technique="exhaustive bounded enumeration of reference forms vs a reference resolver")

prop("C12", "Root-target selection keeps exactly the transitive closure",
     "Selecting root targets leaves exactly those targets and everything they depend on, directly or not, with the "
     "settings they would have had anyway as far as their own closure determines them; selecting an unknown root is an "
     "error. Without a selection every declared target is kept.",
     ["inputs", "configurations"],
     "Every DAG on up to 4 targets times every non-empty root subset, including roots named in several files.",
     "No existing test prunes.",
     [I], [{"name": "pruning", "where": I + ":PruneUnwantedTargets"}, {"name": "closure", "where": C + ":DeepDependencyTargets"}],
     observe=["flat target list", "target dictionaries"], technique="explicit-state enumeration of graphs times root sets vs graph oracle", level="model_checking")

prop("C13", "Files written through the write-if-different writer are replaced whole, and only when changed",
     "Files gyp writes through its write-if-different writer (list files of the '<|' form, manifests, project and rule "
     "files) keep their bytes and timestamp when the content would not change, and otherwise are replaced whole with "
     "the permissions the umask gives. If the process is killed, or a file operation fails, at any point, each such file "
     "holds either its complete old or its complete new content, success is reported only for the new one, a failed "
     "replacement leaves no temporary file, and a later run completes the job.",
     ["crash_points", "fault_sequences"],
     "Every file-system call made while writing, killed before it, after it, torn inside it, or failed with an I/O error or a full disk, for every pair of old and new contents in the bound.",
     "No existing test regenerates or injects a fault.",
     [C, I], [{"name": "write on difference", "where": C + ":WriteOnDiff"}, {"name": "list files", "where": I + ":ExpandVariables"}],
     observe=["bytes, mode and mtime of the written file", "directory listing"], technique="exhaustive crash-point and I/O-fault enumeration on the real writer in a real process", level="fault_enumeration")

prop("C14", "Flags, defines and commands reach the compiler verbatim",
     "Every define of a target reaches the compiler run by the generated make or ninja files, and the commands in the "
     "compilation database, as exactly the argument the build file spelled, whatever shell, make or ninja metacharacters it "
     "contains; so does every action and rule argument, apart from the generators' '$' variable references. Plain flags and "
     "include directories reach the compilations of their language and configuration complete and in order, and building "
     "again runs nothing.",
     ["inputs"],
     "Every string up to length 2 (3 in the thorough tier) over an alphabet of all shell/make/ninja-special characters, in every argument position.",
     "make/ninja tests cover no quoting.",
     [C, GEN + "make.py", GEN + "ninja.py", GEN + "compile_commands_json.py"],
     [{"name": "shell quoting", "where": C + ":EncodePOSIXShellArgument"}, {"name": "make quoting", "where": GEN + "make.py:EscapeCppDefine, EscapeMakeVariableExpansion"}, {"name": "ninja quoting", "where": GEN + "ninja.py:QuoteShellArgument"}],
     observe=["argv seen by stub tools"], technique="exhaustive enumeration of argument strings through real make/ninja/sh with recording stubs")

prop("C15", "Make builds every output in dependency order and rebuilds what changed",
     "With the generated makefiles, a build runs each command needed by the requested target only after everything its "
     "target depends on is up to date; a second build runs nothing. After any change to a source, header, action "
     "input, or command line, the next build reruns every affected step, and exactly those, ending in the state a clean build gives.",
     ["histories", "configurations"],
     "Every sequence up to depth 2 (3 thorough) of edits over several project shapes, each followed by a real make run with recording tools.",
     "No existing test runs make on generator output.",
     [GEN + "make.py"], [{"name": "command tracking", "where": GEN + "make.py:SHARED_HEADER do_cmd/command_changed"}, {"name": "rule writing", "where": GEN + "make.py:MakefileWriter.WriteMakeRule/WriteDoCmd"}],
     observe=["log of tool invocations", "build outputs"], technique="explicit-state exploration of edit/build histories with real make vs a dependency model", level="model_checking")

prop("C16", "Ninja builds every output in dependency order and rebuilds what changed",
     "With the generated ninja files, a build runs each command only after everything its target depends on is up to "
     "date; a second build runs nothing. After any change to a source, header, action input, or command line, the "
     "next build reruns every affected step, ending in the state a clean build gives.",
     ["histories", "configurations"],
     "Every sequence up to depth 2 (3 thorough) of edits over several project shapes, each followed by a real ninja run with recording tools.",
     "ninja_test only samples two writer helpers.",
     [GEN + "ninja.py", "gyp/pylib/gyp/ninja_syntax.py"], [{"name": "edge writing", "where": GEN + "ninja.py:NinjaWriter.WriteSpec"}, {"name": "ninja syntax", "where": "gyp/pylib/gyp/ninja_syntax.py:Writer"}],
     observe=["log of tool invocations", "build outputs"], technique="explicit-state exploration of edit/build histories with real ninja vs a dependency model", level="model_checking")

prop("C17", "make, ninja and the compilation database compile the same sources with the same settings",
     "For any project, the make build, the ninja build and the compilation database agree, per configuration, on the "
     "set of source files compiled and on each file's defines, include directories and language flags, in order, as the build file gives them; both builds "
     "link the same objects, static libraries (each after its users), libraries, directories and linker flags into products of the same name and kind, "
     "honour the flags of the environment per toolset, and run the tools named by the environment or make_global_settings.",
     ["programs", "configurations"],
     "Every project in a bounded grammar of target kinds, source languages, flag sections, dependencies, configurations, environments and tool settings.",
     "No test compares back ends.",
     [GEN + "make.py", GEN + "ninja.py", GEN + "compile_commands_json.py"], [{"name": "make sources", "where": GEN + "make.py:MakefileWriter.WriteSources"}, {"name": "ninja sources", "where": GEN + "ninja.py:NinjaWriter.WriteSourcesForArch"}, {"name": "database", "where": GEN + "compile_commands_json.py:AddCommandsForTarget"}],
     observe=["argv seen by stub tools", "compile_commands.json"], technique="exhaustive enumeration of a project grammar through real make and ninja builds vs a reference model", level="model_checking")

prop("C18", "Change analysis never misses and never invents an affected target",
     "Given changed files, the analyzer reports a test target exactly when it, or a target it transitively depends on, "
     "has one of the files among its sources, action inputs or rule inputs, or one of the build files defining them changed. The "
     "compile targets all depend on a change and are requested or needed by a request; they hold every such executable and test target; "
     "every other such target that is built is among them or beneath one; a changed static library is one of them or linked by what they build. "
     "Unknown names are reported invalid, and no match reports no dependency.",
     ["inputs", "configurations"],
     "Every DAG on up to 4 targets (types none/none with action/static/shared/executable) times every changed-file subset and requested target set within the bound, and every spelling of a path up to four components.",
     "No analyzer test exists.",
     [GEN + "analyzer.py"], [{"name": "match propagation", "where": GEN + "analyzer.py:_DoesTargetDependOnMatchingTargets"}, {"name": "compile targets", "where": GEN + "analyzer.py:_AddCompileTargets"}, {"name": "paths", "where": GEN + "analyzer.py:_ExtractSources, _AddSources"}],
     observe=["analyzer JSON output"], technique="explicit-state enumeration of graphs times changes vs reference reachability", level="model_checking")

prop("C19", "Relative-path algebra preserves file identity",
     "For any path and any reference directory, the relative form leads from that directory to the same file, "
     "re-rooting a path and undoing it returns an equivalent path, and a path that is already relative or absolute is "
     "re-rooted only when asked. While the working directory stays the same, results do not depend on earlier calls.",
     ["inputs", "histories"],
     "Every pair of paths up to 3 components over {a, b, .., .} , absolute and relative, over a real directory tree with a symbolic link, and every pair of successive calls.",
     "common_test samples a few relative paths.",
     [C], [{"name": "relative path", "where": C + ":RelativePath"}, {"name": "inverse", "where": C + ":InvertRelativePath"}, {"name": "re-rooting", "where": C + ":FixIfRelativePath, UnrelativePath"}],
     observe=["returned paths"], technique="exhaustive enumeration of path pairs over a real tree vs file-identity oracle")

prop("C20", "Regeneration re-creates the same build files from the recorded command",
     "The command that a generated makefile records for regenerating itself reproduces, when run from "
     "the build, byte-identical build files to the original invocation (the same build, when gyp was run from elsewhere than the depth), whatever has become of the environment that supplied options. "
     "Editing any file gyp read makes the next build regenerate before building, as generating afresh would; with nothing edited nothing is regenerated.",
     ["configurations", "histories"],
     "Every combination of the command-line/environment options that influence generation, and every history of up to two edits, within the stated bound.",
     "No existing test regenerates.",
     [G, GEN + "make.py"], [{"name": "flag regeneration", "where": G + ":RegenerateFlags"}, {"name": "auto-regeneration rule", "where": GEN + "make.py:WriteAutoRegenerationRule"}],
     observe=["generated makefiles before and after a regeneration", "what a build then makes"], technique="exhaustive enumeration of option sets with real regeneration, byte comparison", level="model_checking")

prop("C21", "The format checker agrees with the loader and rejects code",
     "With format checking on, every build file that consists of plain literals (dictionaries with unique string keys, lists, strings, "
     "non-negative integers) loads to the same value as without checking, and any file with other syntax, a repeated key, or a non-literal is rejected "
     "with an error naming the place. Checking never executes the file.",
     ["inputs", "programs"],
     "Every literal expression and every expression using a disallowed node up to the grammar depth bound.",
     "No existing test uses the checker.",
     [I], [{"name": "checked evaluation", "where": I + ":CheckedEval, CheckNode"}],
     observe=["loaded data", "exit status", "error text"], technique="exhaustive enumeration of a bounded expression grammar")

prop("C22", "Generated XML round-trips and is rewritten only when it changes",
     "Whatever strings a specification holds, the XML written for it parses back to the same element names, "
     "attributes and text. Writing an unchanged document leaves the file untouched, a changed one replaces it, "
     "whatever the platform's default encoding.",
     ["inputs", "configurations"],
     "Every string up to length 3 over the XML-special alphabet in every position of every tree up to depth 2, every encoding and history of two writes.",
     "easy_xml_test samples a few documents and never writes a file.",
     ["gyp/pylib/gyp/easy_xml.py"], [{"name": "serialisation", "where": "gyp/pylib/gyp/easy_xml.py:XmlToString"}, {"name": "conditional write", "where": "gyp/pylib/gyp/easy_xml.py:WriteXmlIfChanged"}],
     observe=["XML text", "file bytes and mtime"], technique="exhaustive enumeration of small XML trees vs a real XML parser")

prop("C23", "Windows command lines parse back to the intended arguments",
     "Every argument and define that the Windows back ends quote is parsed back by the documented Windows "
     "command-line rules to exactly the original string, whatever quotes, backslashes, spaces or percent signs it contains.",
     ["inputs"],
     "Every string up to length 5 over {a, space, quote, backslash, percent, ...} and every argument list up to 2.",
     "Tests run on Linux cover no Windows quoting.",
     ["gyp/pylib/gyp/msvs_emulation.py", GEN + "msvs.py"], [{"name": "response-file quoting", "where": "gyp/pylib/gyp/msvs_emulation.py:QuoteForRspFile, EncodeRspFileList"}, {"name": "project quoting", "where": GEN + "msvs.py:_EscapeCommandLineArgumentForMSVS, _EscapeCppDefineForMSVS"}],
     observe=["quoted strings"], technique="exhaustive string enumeration vs a reference Windows command-line parser")

prop("C24", "Visual Studio solutions are stable and self-consistent",
     "For any set of targets, the generated solution lists each project once with its file, its dependencies and its "
     "configurations, every identifier referenced is defined, distinct projects have distinct identifiers, and "
     "generating again gives byte-identical files.",
     ["inputs", "configurations"],
     "Every DAG on up to 3 targets over 2 directories and 2 configurations.",
     "No test generates a solution.",
     ["gyp/pylib/gyp/MSVSNew.py", GEN + "msvs.py"], [{"name": "solution writer", "where": "gyp/pylib/gyp/MSVSNew.py:MSVSSolution.Write"}, {"name": "identifier", "where": "gyp/pylib/gyp/MSVSNew.py:MakeGuid"}],
     observe=["solution and project files"], technique="exhaustive enumeration of small solutions, re-parsed against the input graph")

prop("C25", "Xcode project strings and object references round-trip",
     "For any project, the generated Xcode project file parses back as a property list whose strings equal the build "
     "file's, in which every referenced object exists and belongs to one owner, identifiers are unique within a file, "
     "targets depend on, compile and link exactly what the build files say (in this or another project file), every "
     "configuration has its own settings and no other's, files keep their paths, products their names, and generating "
     "again leaves the files untouched.",
     ["inputs", "configurations"],
     "Every string up to length 3 over the special alphabet in every position, every typed DAG on up to 3 targets x layouts, pairs of file names, placements of settings, product namings.",
     "xcode tests sample little and need a Mac for the rest.",
     ["gyp/pylib/gyp/xcodeproj_file.py", GEN + "xcode.py"], [{"name": "string encoding", "where": "gyp/pylib/gyp/xcodeproj_file.py:XCObject._EncodeString"}, {"name": "identifiers", "where": "gyp/pylib/gyp/xcodeproj_file.py:XCObject.ComputeIDs"}],
     observe=["project.pbxproj"], technique="exhaustive enumeration of strings and small graphs vs an independent plist parser")

prop("C26", "Version comparison is a total order consistent with the standard",
     "Version comparison used by the build tools is a total order that agrees with the published ordering of release, "
     "pre-release, post-release, development and local segments, equal versions normalise to the same text, and a version "
     "satisfies a specifier set exactly when it satisfies each clause.",
     ["inputs"],
     "Every version in a bounded grammar, all pairs, and every specifier operator against every version.",
     "The vendored library carries no tests here.",
     ["gyp/pylib/packaging/version.py", "gyp/pylib/packaging/specifiers.py"], [{"name": "ordering key", "where": "gyp/pylib/packaging/version.py:_cmpkey"}],
     observe=["comparison results"], technique="exhaustive pairwise enumeration vs an independent ordering model")

prop("C27", "Build files do not depend on hash seeds or repeated runs",
     "Running gyp on the same inputs and options writes byte-identical build files whatever the interpreter's hash "
     "seed and whether or not it has generated them before.",
     ["schedules", "configurations"],
     "Every project in the corpus times several hash seeds chosen to realise every iteration order of its sets; stated bound.",
     "One test process sees one hash seed.",
     [GEN + "make.py", GEN + "ninja.py", I], [{"name": "ordered emission", "where": GEN + "make.py:GenerateOutput"}],
     observe=["generated files"], technique="enumeration of hash-seed-induced iteration orders, byte comparison")

prop("C28", "Actions, rules and copies run once per input with the right substitutions",
     "Each action runs with its inputs present and in its file's directory; each rule runs exactly once for every "
     "source with its extension, with the input's path, directory, name, root and "
     "extension substituted; each copy places every listed file or directory at its destination. Outputs marked as "
     "sources are compiled into the target.",
     ["programs", "configurations"],
     "Every small target combining actions, rules (extensions, generated sources), copies and process_outputs_as_sources flags.",
     "No existing test generates a rule or action.",
     [GEN + "make.py", GEN + "ninja.py", I], [{"name": "rule validation and sources", "where": I + ":ValidateRulesInTarget"}, {"name": "make rules", "where": GEN + "make.py:MakefileWriter.WriteRules"}, {"name": "ninja rules", "where": GEN + "ninja.py:NinjaWriter.WriteRules"}],
     observe=["argv and working directory of stub tools", "build outputs"], technique="exhaustive enumeration of a target grammar through real make and ninja with recording tools")

prop("C29", "Invalid projects are refused before anything is written",
     "Whenever a project is structurally invalid (missing file, syntax error, unknown target kind, bad dependency or cycle, "
     "a rule, action, copy or condition malformed or lacking a required part, colliding names), gyp ends with a failure status and leaves every existing "
     "build file as it was and creates none.",
     ["inputs", "fault_sequences"],
     "Every single-point structural mutation of several valid base projects, from a fresh tree and over an existing build.",
     "Existing tests reject no project.",
     [I, G], [{"name": "validation", "where": I + ":ValidateTargetType, ValidateRulesInTarget, ValidateActionsInTarget"}, {"name": "error exit", "where": G + ":main"}],
     observe=["exit status", "build tree"], technique="exhaustive enumeration of single mutations, tree comparison", level="fault_enumeration")

# --------------------------------------------------------------------------- node-gyp (JavaScript)
prop("C30", "Headers marked installed are complete, whatever interrupts the install",
     "After an install or a removal is interrupted at any point, or any download, extraction or file operation fails, a later "
     "install that only ensures presence either finds every header and library complete and verified or downloads them "
     "again; it never accepts a partial or unverified tree. An install that reports success has left a complete tree.",
     ["crash_points", "fault_sequences", "schedules"],
     "Every file-system and network step of the install, failed or killed, in every completion order of concurrent steps within the bound.",
     "The JS tests need a network and run one lucky path.",
     ["lib/install.js"], [{"name": "install marker", "where": "lib/install.js:installVersion"}, {"name": "rollback", "where": "lib/install.js:rollback"}],
     observe=["device directory tree", "exit status", "requests made"], technique="exhaustive crash/fault enumeration on the real install with a scripted server", level="fault_enumeration")

prop("C31", "No download is accepted unless its checksum matches",
     "An install succeeds only if the header archive and each library it downloaded has exactly the published SHA-256; "
     "a wrong, missing or truncated file, a missing checksum list, or a non-success HTTP status fails the install, and a failed "
     "install leaves no usable version directory. Only header and configuration files, inside the version directory, are unpacked.",
     ["inputs", "fault_sequences"],
     "Every assignment of {good, corrupt, truncated, 404, 500, reset, absent checksum, wrong checksum} to every request, on both platforms' file sets.",
     "The JS tests sample one corruption.",
     ["lib/install.js", "lib/download.js"], [{"name": "checksum comparison", "where": "lib/install.js:go"}, {"name": "archive filter", "where": "lib/install.js:isValid/onentry"}],
     observe=["exit status", "device directory tree"], technique="exhaustive enumeration of server answers on the real install", level="fault_enumeration")

prop("C32", "Install, list and remove behave as operations on a set of versions",
     "Over any sequence of install, ensure, list and remove commands, the listed versions are exactly those installed "
     "and not removed; ensuring an installed version downloads nothing, installing again replaces it, and removing "
     "an absent version changes nothing. An installation written by an incompatible layout version is replaced when ensured.",
     ["histories"],
     "Every state reachable from the empty directory (to a fixpoint) by install, ensure, list, remove, good, absent and tampered mirrors and an outdated, unreadable or missing marker, over 2 versions (3 thorough), Node.js and io.js, both Windows architectures; every command in every state.",
     "The JS tests run single commands.",
     ["lib/install.js", "lib/list.js", "lib/remove.js"], [{"name": "list", "where": "lib/list.js"}, {"name": "remove", "where": "lib/remove.js"}, {"name": "ensure", "where": "lib/install.js:ensure"}],
     observe=["list result", "requests", "device directory tree"], technique="explicit-state BFS over command histories on the real commands vs a set model", level="model_checking")

prop("C33", "Removal never reaches outside the directories node-gyp owns",
     "Removing a version deletes at most that version's directory inside the device directory, and cleaning deletes "
     "at most the build directory, whatever version string, name or link is given; anything else on disk is untouched. Cleaning where nothing was built succeeds.",
     ["inputs"],
     "Every version argument in an alphabet of dots, slashes, absolute paths, tags and links, in several starting trees.",
     "The JS tests remove nothing.",
     ["lib/remove.js", "lib/clean.js", "lib/process-release.js"], [{"name": "version directory", "where": "lib/remove.js"}, {"name": "clean", "where": "lib/clean.js"}],
     observe=["paths handed to the delete primitive", "tree after the command"], technique="exhaustive enumeration of arguments with recording delete stand-ins")

prop("C34", "Download locations follow the version, runtime and mirror settings",
     "For any version, release name, mirror and runtime information, the header archive, checksum and library "
     "locations and the version directory are those documented for it: an explicit dist-url wins, the process's own "
     "release data is used only for its own version, different runtimes never share a directory, and legacy versions use legacy names.",
     ["inputs", "configurations"],
     "Every version around each layout threshold times release name, override, mirror and architecture.",
     "test-process-release samples a few versions.",
     ["lib/process-release.js"], [{"name": "release processing", "where": "lib/process-release.js:processRelease"}],
     observe=["computed URLs and directories"], technique="exhaustive enumeration of release configurations vs a reference table")

prop("C35", "The first acceptable Python in precedence order is chosen",
     "Python discovery tries candidates in the documented order (command line or npm config, the PYTHON environment variable, the launcher "
     "on Windows, python3 and python on the PATH, well-known locations on Windows) and picks the first that runs and has an acceptable version (at least 3.6); "
     "NODE_GYP_FORCE_PYTHON, when set, is the only candidate. When none fits it finishes with an error that lists what was tried.",
     ["fault_sequences", "configurations"],
     "Every assignment of environment answers {absent, cannot be spawned, fails, prints garbage, too old, no version, good} to every candidate, on both platform families.",
     "test-find-python samples seven scripted answers.",
     ["lib/find-python.js"], [{"name": "candidate list", "where": "lib/find-python.js:findPython"}, {"name": "version check", "where": "lib/find-python.js:checkExecPath"}],
     observe=["chosen path or error", "commands executed"], technique="exhaustive enumeration of environment answers on the real finder vs a reference model", level="model_checking")

prop("C36", "Visual Studio selection honours the request and picks the newest usable",
     "Visual Studio discovery only returns an installation with the needed toolset, build tool and SDK, supported by "
     "the Node.js version in use and matching a requested version or path when one is given, preferring the newest; "
     "if none qualifies it fails with an error rather than choosing another.",
     ["inputs", "configurations"],
     "Every set of up to 2 installations over version, package sets and path, times every request form and Node.js semver.",
     "test-find-visualstudio samples recorded machines.",
     ["lib/find-visualstudio.js"], [{"name": "filtering and sorting", "where": "lib/find-visualstudio.js:processData"}, {"name": "request matching", "where": "lib/find-visualstudio.js:checkConfigVersion"}],
     observe=["chosen installation or error"], technique="exhaustive enumeration of installation sets on the real finder vs a reference selector")

prop("C37", "The command line runs the requested commands in order and reports failure",
     "The commands named on the command line run one after another in the documented order, with their own arguments and the shared "
     "options; the first failure stops the rest and yields a failing exit status with the error reported, and success "
     "of all yields zero. Every documented option is understood in its documented spellings, on the command line or from the npm environment, "
     "and -C and --devdir choose the directories.",
     ["inputs", "fault_sequences", "configurations"],
     "Every command line up to 3 commands with every single failure position, every option source combination in the bound.",
     "test-options samples three environment settings.",
     ["bin/node-gyp.js", "lib/node-gyp.js", "lib/rebuild.js"], [{"name": "queue", "where": "bin/node-gyp.js:run"}, {"name": "argument parsing", "where": "lib/node-gyp.js:parseArgv"}],
     observe=["order of command calls", "exit status", "stderr"], technique="exhaustive enumeration of command lines on the real entry point with recording commands", level="model_checking")

prop("C38", "Configure hands gyp exactly the user's configuration",
     "The configuration file written by configure carries the running Node.js build settings (the given headers' own settings when headers or a mirror are chosen and have readable ones) "
     "with the user's command-line and npm options overriding them, keeps every string value intact through gyp's parser, and gyp is run with "
     "the right include files, device directory, library and module-root definitions for the chosen headers.",
     ["inputs", "configurations"],
     "Every option value up to length 2 (3 thorough) over a 31-character alphabet from the command line and the environment; the product of 15 places headers come from x local gypi files x forced process.config x debug x architecture, x formats and extra gyp arguments, on Linux, macOS and Windows; every end of gyp.",
     "test-create-config-gypi samples a few options.",
     ["lib/configure.js", "lib/create-config-gypi.js"], [{"name": "configuration creation", "where": "lib/create-config-gypi.js"}, {"name": "gyp invocation", "where": "lib/configure.js:runGyp"}],
     observe=["config.gypi as gyp reads it", "argv handed to the gyp process"], technique="exhaustive enumeration of options through real configure and the real gyp reader")

prop("C39", "Build passes the chosen configuration to the tool and its outcome back",
     "Build runs the right build tool with the configured or overridden configuration, the requested job count and the remaining user "
     "arguments, in the build directory, and succeeds exactly when the tool exits with zero; "
     "death by signal or a missing configuration is a failure.",
     ["inputs", "fault_sequences", "configurations"],
     "Every combination of stored configuration, debug/release flag, jobs setting, extra arguments and tool outcome.",
     "test-build-related JS tests are absent for this.",
     ["lib/build.js"], [{"name": "tool invocation", "where": "lib/build.js:doBuild"}, {"name": "exit handling", "where": "lib/build.js:onExit"}],
     observe=["argv, cwd and environment of the spawned tool", "command outcome"], technique="exhaustive enumeration of build configurations with a recording stub tool", level="model_checking")

prop("C40", "Log output obeys the level, order and prefix rules",
     "Every message at or above the chosen level, and none below it, is written once, in order, each line with its "
     "prefix; messages issued before the level is known are held and then shown or dropped by that level, and pausing never loses or reorders messages.",
     ["histories"],
     "Every sequence up to length 4 (5 thorough) of log, level-change, pause and resume events.",
     "No test of the logger exists.",
     ["lib/log.js"], [{"name": "display buffer", "where": "lib/log.js"}],
     observe=["bytes written to stderr"], technique="explicit-state enumeration of logger event histories vs a queue model", level="model_checking")

prop("C41", "Local header directories are used only when they really are headers",
     "Looking for a usable header directory or file returns the first candidate, in documented order, that exists and is readable and "
     "nothing when none does; a given directory of headers is used as is and no download happens.",
     ["configurations", "inputs"],
     "Every existence pattern over the candidate paths, and every executable location layout.",
     "test-find-node-directory samples fixed layouts.",
     ["lib/util.js", "lib/find-node-directory.js", "lib/configure.js"], [{"name": "accessible search", "where": "lib/util.js:findAccessibleSync"}, {"name": "node directory", "where": "lib/find-node-directory.js"}],
     observe=["returned directory"], technique="exhaustive enumeration of file existence patterns on real trees")

prop("C42", "Locked commands of the portable lock tool never overlap",
     "Two commands run through the lock helper on the same lock file never execute at the same time; one that finds the lock held waits for it; a "
     "run returns the command's own exit status; the lock is released when the command ends, however it ends; the command sees its words, "
     "streams, directory and environment unchanged and is not run when the lock cannot be had.",
     ["schedules"],
     "Every arrival/ending interleaving of up to 3 (4 thorough) holders x every way to end, driven by barriers.",
     "No test runs the lock tool.",
     ["gyp/pylib/gyp/flock_tool.py", "gyp/pylib/gyp/mac_tool.py", "gyp/pylib/gyp/common.py"], [{"name": "record lock", "where": "gyp/pylib/gyp/flock_tool.py:ExecFlock"}, {"name": "file lock", "where": "gyp/pylib/gyp/mac_tool.py:ExecFlock"}],
     observe=["begin/end log of commands", "exit status"], technique="exhaustive schedule enumeration of real locker processes", level="model_checking")


prop("C43", "Command expansions run the written command once and give its output",
     "A command expansion runs exactly the command written, with its words intact, in the directory of the build file that holds it (or in the "
     "sandbox of a python module), in the phase of its mark; its value is the command's output without trailing blank, as written or as a list, in every place of a "
     "project; a command that fails, is killed or cannot start makes loading fail naming it; equal commands share one run per process, different ones "
     "(other words, other form, other directory) never share a result.",
     ["inputs", "histories"],
     "All forms of command expansion x outputs x places x phases with a recording program; every failure in every place; every ordered pair of commands in every layout, with and without parallel loading.",
     "Tests use one command in one place; the cache keys only matter between pairs of commands.",
     ["gyp/pylib/gyp/input.py"], [{"name": "command expansion and its cache", "where": "gyp/pylib/gyp/input.py:ExpandVariables"}],
     observe=["log of the recording program", "value in the loaded targets", "load status"], technique="exhaustive enumeration of command projects against a reference interpreter", level="model_checking")

prop("C44", "Generated file lists hold the list item by item and track it",
     "A file-list expansion writes exactly the items of the list, one a line, in order, to a file of its own - per build file and name, in the "
     "generator's output directory if it has one - and gives a path that names that file from the build file's directory, also where it is used in a real "
     "build; loading again rewrites the file only when the list changed, and then what depends on it is built again; a name that is an absolute path is refused.",
     ["inputs", "histories"],
     "All lists of one item up to 2 characters over the special alphabet and all pairs of special items x forms x places; all histories of two loads; real builds.",
     "Tests do not cover file lists.",
     ["gyp/pylib/gyp/input.py", "gyp/pylib/gyp/common.py"], [{"name": "file lists", "where": "gyp/pylib/gyp/input.py:ExpandVariables"}, {"name": "write only on difference", "where": "gyp/pylib/gyp/common.py:WriteOnDiff"}],
     observe=["file contents and times", "path as an action sees it", "commands of real builds"], technique="exhaustive enumeration of lists, forms and histories through the loader and real builds", level="model_checking")

prop("C45", "Visual Studio projects give each configuration exactly its own settings and steps",
     "A generated MSBuild project (.vcxproj), evaluated for any one configuration of the target, has exactly the defines, directories, warnings, tool settings, "
     "events, type, output and intermediate places that configuration says and nothing of another's; compiles exactly the sources that are not excluded; makes the "
     "product the target names from the libraries it lists; and runs every action, copy and rule once with its own words, inputs and outputs. Each configuration "
     "is known by one name, which is its own name without its platform.",
     ["inputs", "configurations"],
     "Every assignment of a setting's values to up to 3 configurations for 24 settings, every pair of settings, products, libraries, actions, copies, rules, exclusions and precompiled headers in combination.",
     "Tests cover the conversion of single settings, not the projects made of them.",
     [GEN + "msvs.py", "gyp/pylib/gyp/MSVSSettings.py", "gyp/pylib/gyp/easy_xml.py"], [{"name": "settings of a configuration", "where": GEN + "msvs.py:_FinalizeMSBuildSettings"}, {"name": "conditional properties", "where": GEN + "msvs.py:_GetMSBuildPropertyGroup"},
      {"name": "steps", "where": GEN + "msvs.py:_GenerateActionsForMSBuild"}, {"name": "rules", "where": GEN + "msvs.py:_GenerateRulesForMSBuild"}],
     observe=["evaluated project files"], technique="exhaustive enumeration of settings, configurations and steps, every project evaluated per configuration against an independent model", level="model_checking")

prop("C46", "A cmake project builds what the build files say",
     "The CMakeLists.txt generated for a configuration, configured by cmake and built by ninja, compiles exactly the sources of each target with that configuration's defines, "
     "include directories (in order) and language flags; makes each product under its name and in its place from its objects, listed object files, libraries, directories, linker flags "
     "and the products it depends on; runs every action, rule and copy once, after what it needs, with exactly its words, and again only when an input changes; builds by default what the "
     "given build files define and need, and no more; and uses the tools named by the environment or make_global_settings.",
     ["programs", "configurations"],
     "Every project in a bounded grammar of target kinds, settings, dependencies, steps, words, configurations, files and tools.",
     "No test runs the cmake back end.",
     [GEN + "cmake.py"], [{"name": "targets", "where": GEN + "cmake.py:WriteTarget"}, {"name": "steps", "where": GEN + "cmake.py:WriteActions, WriteRules, WriteCopies"}],
     observe=["argv seen by stub tools", "products of real builds"], technique="exhaustive enumeration of a project grammar through real cmake and ninja builds vs a reference model", level="model_checking")

prop("C47", "On macOS, make and ninja builds follow the Xcode settings",
     "On macOS, the make and ninja back ends turn the xcode_settings of a target, merged with those of the configuration built, into exactly the flags Xcode defines for each of the four languages "
     "(C, C++, Objective-C, Objective-C++) and for the linker or archiver: a setting that is on, off or absent gives its flag, its opposite or its default; lists keep their order; $(inherited) in "
     "C++ flags means the C flags; paths in linker flags are those of the build file's directory. Products have the names, bundles and install names of their kind and settings, link the libraries "
     "and frameworks given and the libraries they depend on, and are stripped, given debug information and post-processed by exactly the steps asked for, in that order.",
     ["programs", "configurations"],
     "Every setting, value, pair, configuration override, name, dependency graph and step combination in bounds.",
     "One test compares three values of a version number and none builds; no test runs on more than the host platform.",
     ["gyp/pylib/gyp/xcode_emulation.py", GEN + "make.py", GEN + "ninja.py"], [{"name": "compiler flags", "where": "gyp/pylib/gyp/xcode_emulation.py:GetCflags, GetCflagsC, GetCflagsCC, GetCflagsObjC, GetCflagsObjCC"},
     {"name": "linker flags", "where": "gyp/pylib/gyp/xcode_emulation.py:GetLdflags"}, {"name": "steps", "where": "gyp/pylib/gyp/xcode_emulation.py:AddImplicitPostbuilds"}],
     observe=["argv seen by stub tools of real make and ninja builds"], technique="exhaustive enumeration of Xcode settings through real make and ninja builds over recording tools vs a reference model of the settings", level="model_checking")


prop("C48", "Descriptions of a project for people and tools say what was loaded",
     "The gypd back end writes, next to each build file, a document that reads back as exactly the targets loaded from it, with every generator variable left as a reference to itself; the dependency dump "
     "lists for every target reached from the files asked for exactly its direct dependencies, once; Eclipse settings name exactly the include directories, the macros and the class path of all targets in "
     "the configuration asked for, as well-formed XML, whatever characters they hold, and generation always ends.",
     ["programs"],
     "Every pair (thorough: triple) of kinds of contents, DAG on up to 4 targets, combination of directories, macros and flags, and set of inputs in bounds.",
     "No test runs these back ends.",
     [GEN + "gypd.py", GEN + "dump_dependency_json.py", GEN + "eclipse.py"], [{"name": "gypd", "where": GEN + "gypd.py:GenerateOutput"}, {"name": "dependency dump", "where": GEN + "dump_dependency_json.py:GenerateOutput"},
     {"name": "Eclipse settings", "where": GEN + "eclipse.py:GetAllIncludeDirectories, GetAllDefines, GetJavaSourceDirs"}],
     observe=["gypd documents", "dump.json", "Eclipse XML files"], technique="exhaustive enumeration of bounded projects through the real back ends vs the loaded model", level="model_checking")


prop("C49", "The steps of a macOS bundle produce the bundle",
     "The helper that generated macOS builds run for bundles does what Xcode's own step does: an Info.plist is copied with the given keys added, every set variable replaced in each of its forms and entries that "
     "start with an unset one left out, with a fitting PkgInfo; property lists merge with the later one winning, dictionary by dictionary; resources replace what was there and are converted when asked; frameworks "
     "get their links whatever was there; header maps lead the compiler from every name in any case to its header, and only those; the archiver's noise is filtered, its messages and status are kept and only a "
     "successful archive is touched; bundles are signed with the most specific profile that fits or not at all. Built bundles hold exactly the binary, Info.plist, resources and links of their target, also after changes.",
     ["programs", "inputs"],
     "Every set, sequence and state in bounds, through the helper's command line and through whole make and ninja builds of bundles.",
     "No test runs the helper or builds a bundle.",
     ["gyp/pylib/gyp/mac_tool.py", "gyp/pylib/gyp/xcode_emulation.py", GEN + "make.py", GEN + "ninja.py"], [{"name": "helper steps", "where": "gyp/pylib/gyp/mac_tool.py:MacTool.Exec*, WriteHmap"},
     {"name": "bundle layout", "where": "gyp/pylib/gyp/xcode_emulation.py:GetMacBundleResources, GetMacInfoPlist"}],
     observe=["files and links written", "commands of recording stand-ins for Apple's tools", "clang's header lookups"], technique="exhaustive enumeration of bounded inputs, prior states and projects through the real helper and real builds vs a reference model", level="model_checking")


def write(claimed_only=None):
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"], "state": p["state"],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
    checks, na = [], []
    for p in P:
        script = p["cmd"].split()[-1] if p["cmd"] else ""
        have = p["claimed"] and os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))
        if have:
            checks.append({"property": p["id"], "quick_cmd": p["cmd"], "thorough_cmd": "VERIF_TIER=thorough " + p["cmd"],
                           "technique": p["technique"], "level": p["level"],
                           "level_note": p["note"] or "Exhaustive within the bounds in the evidence file; nothing is claimed beyond them. Trusts the reference model and harness in /verif."})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "hooks": {"guard": "none", "enable": "no hooks: every check drives the unmodified working tree", "source_commits": []},
           "not_applicable": na, "notes": "See DESIGN.md. Each check is checks/<id>.py; replay files go to evidence/replay."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    print(len(P), "properties,", len(checks), "claimed")


if __name__ == "__main__":
    write()
