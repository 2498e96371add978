#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

# ------------------------------------------------------------------ T: iwyu_tool
p("T01", "Every selected compile command is analysed once, within the job limit",
  "For any list of selected compile commands, job limit N and order in which the analyses finish, the driver script starts every command exactly once, never has more than N analyses running at once, and ends only when all have ended. "
  "With a load limit it starts no more new analyses than the headroom left below that limit, but always keeps at least one running until the work is done. "
  "With one job the analyses run one after the other in the order of the list.",
  ["schedules", "inputs", "configurations"],
  "all lists of commands, -j and -l values, all finishing orders and load averages over time",
  "iwyu_tool_test.py runs three canned invocations whose exit order is fixed by a mock; it cannot enumerate finishing orders or load histories, and never observes real child processes.",
  ["iwyu_tool.py"],
  [("execute: pending list, capacity and load throttling", "iwyu_tool.py: execute"),
   ("Process.start/poll/get_output", "iwyu_tool.py: Process")],
  ["start/end events recorded by a stand-in analyser, exit of iwyu_tool.py"],
  [("pending", "analyses that are running or ended but not yet collected", "iwyu_tool.py: execute"),
   ("invocations", "commands not started yet", "iwyu_tool.py: execute")])
p("T02", "Driver output is complete and unmixed; its exit status is the worst seen",
  "Everything an analysis writes to its standard output or standard error appears in the driver script's output exactly once and as one contiguous block, whatever the sizes, order and overlap of the analyses. "
  "The driver's exit status is the most severe one among the analyses: death by a signal outranks every ordinary code (the highest signal number wins), otherwise the largest code, and 0 when there were none.",
  ["schedules", "inputs", "fault_sequences"],
  "all numbers of analyses, outputs (including empty, large, without final newline), exit codes, signals and finishing orders",
  "The unit tests check a few hand-made pairs of exit codes and one interleaving; completeness and atomicity are statements about all schedules and outputs.",
  ["iwyu_tool.py"],
  [("worst_exit_code", "iwyu_tool.py: worst_exit_code"), ("Process.get_output", "iwyu_tool.py: Process"), ("execute", "iwyu_tool.py: execute")],
  ["stdout and exit status of iwyu_tool.py"])
p("T03", "The driver analyses exactly the selected entries with their own flags",
  "Given source paths, the driver script analyses exactly the compilation-database entries whose file is one of those paths or lies below one of them (all entries when none is given), symbolic links and relative paths resolved, and a path that merely shares a name prefix does not count. "
  "Each analysis runs in its entry's directory and gets the user's extra flags first, followed by every argument of the entry after the compiler in the original order and quoting, with a leading ccache command word dropped and cl-style driver mode requested exactly for cl-style compilers.",
  ["inputs", "configurations"],
  "all compilation databases (command or arguments form, relative or absolute files, any directories), selections and extra flags",
  "iwyu_tool_test.py checks about ten hand-made entries; selection and rewriting must hold for every database layout and every argument spelling.",
  ["iwyu_tool.py"],
  [("fixup_compilation_db / slice_compilation_db / is_subpath_of", "iwyu_tool.py"), ("Invocation.from_compile_command", "iwyu_tool.py: Invocation")],
  ["argv and cwd recorded by a stand-in analyser"])
p("T04", "The clang output formats report every advised change, once, where it is",
  "With a clang-style output format the driver script turns each advised addition into one diagnostic for that file at line 1 naming the line to add and its reason, each advised removal into one diagnostic at the first line number of the removed line, and each all-correct verdict into one note. "
  "Full include lists produce nothing, any other output passes through unchanged and in order, and advice for one file is never attributed to another.",
  ["inputs", "histories"],
  "all analyser outputs: any sequence of reports for any files, interleaved with compiler messages",
  "iwyu_tool_test.py formats one fixed output; the formatter is a line-driven state machine whose correctness depends on every order of sections.",
  ["iwyu_tool.py"],
  [("clang_formatter state machine", "iwyu_tool.py: clang_formatter")],
  ["stdout of iwyu_tool.py -o clang / clang-warning"])

# ------------------------------------------------------------------ F: fix_includes
p("F01", "Reports for one file are merged: any run's additions, all runs' removals",
  "When the fixer reads several analysis reports that mention the same file, the edits it makes to that file are the same as for one report whose additions are those of any of the reports and whose removals are only those that every one of the reports asks for, and reports for other files never influence it. "
  "Text between reports is ignored, a malformed or truncated report contributes nothing, and a report saying that a file is already correct asks for nothing and so vetoes that file's removals.",
  ["histories", "inputs"],
  "all sequences of reports (any number of files and repetitions, any section order the analyser can print, interleaved compiler output)",
  "fix_includes_test.py feeds one or two fixed reports; the reader is a state machine over report sequences, and merging is defined over all histories.",
  ["fix_includes.py"],
  [("IWYUOutputParser.ParseOneRecord state machine", "fix_includes.py: IWYUOutputParser"), ("IWYUOutputRecord.Merge", "fix_includes.py"), ("ParseAndMergeIWYUOutput", "fix_includes.py")],
  ["contents of the fixed files"])
p("F02", "The fixer never alters, loses or reorders code it was not told to change",
  "Whatever source file and advice it gets, the fixer keeps every line that is neither an include nor a forward declaration, byte for byte and in the original relative order; the only such lines it may drop are blank lines and whole namespace or conditional blocks that are left with nothing but blank lines and comments (with the comment directly above them). "
  "Comments directly above or on an include travel with it or are dropped with it, and never end up attached to a different include.",
  ["inputs", "programs", "histories"],
  "all source files (comments, conditionals, namespaces, include guards, continuation lines, code between includes) with all advice for them",
  "fix_includes_test.py compares about 150 fixed before/after pairs; preservation is a statement about every file and every advice.",
  ["fix_includes.py"],
  [("line typing", "fix_includes.py: ParseOneFile"), ("move and reorder spans", "fix_includes.py: _CalculateMoveSpans, _CalculateReorderSpans"), ("empty namespace / ifdef removal", "fix_includes.py: _DeleteEmptyNamespaces, _DeleteEmptyIfdefs"), ("FixFileLines", "fix_includes.py: FixFileLines")],
  ["contents of the fixed file"])
p("F03", "The fixer carries out exactly the advised additions and removals",
  "After a fix, every include and forward declaration advised for removal at a given line is gone, every advised addition is present exactly once, and every other include and forward declaration that was in the file is still there, except that exact repetitions of a top-level include or declaration collapse into one. "
  "Where headers are declared safe, headers (but never source files) keep all their includes and forward declarations while additions still happen.",
  ["inputs", "programs", "configurations"],
  "all source files and all consistent advice for them, with and without the safe-headers and comment options",
  "The example tests fix single files with hand-picked advice; the guarantee ranges over all combinations of positions, kinds, duplicates and options.",
  ["fix_includes.py"],
  [("_DeleteDuplicateLines, deletion by line number", "fix_includes.py: FixFileLines"), ("addition into reorder spans", "fix_includes.py: _DecoratedMoveSpanLines, _FirstReorderSpanWith"), ("safe headers", "fix_includes.py: ProcessIWYUOutput / IWYUOutputParser")],
  ["contents of the fixed file"])
p("F04", "Includes never cross a conditional, barrier or code boundary",
  "When the fixer or the sorter moves includes or forward declarations, each one stays in the same conditional-compilation branch, in the same namespace and on the same side of ordinary code and of pinned includes (those that must not move) as before. "
  "A newly added include goes into an unconditional place of the file and after any leading file comment or include guard.",
  ["inputs", "programs"],
  "all source files with conditionals, include guards, namespaces, pinned includes and code between include blocks, with all advice or in sort-only mode",
  "A handful of example tests exist for conditionals and barriers; the confinement must hold for every nesting and placement.",
  ["fix_includes.py"],
  [("barrier includes, reorder spans", "fix_includes.py: _CalculateReorderSpans, _BARRIER_INCLUDES"), ("_FirstReorderSpanWith", "fix_includes.py")],
  ["contents of the fixed file"])
p("F05", "Fixing and sorting reach a fixed point in the documented include order",
  "Applying the fixer in sort mode to its own result changes nothing, and neither does a report saying that the fixed file is correct. Within a freely reorderable block the includes come out grouped by kind in the documented order (the file's own header, C system, C++ system, other, same project, forward declarations), and within a kind alphabetically if reordering was asked for, whatever their original order, and otherwise in the order they had.",
  ["inputs", "histories"],
  "all source files, original include orders and project/own-header layouts",
  "Tests compare single sorted outputs; order-independence and idempotence quantify over permutations and repeated application.",
  ["fix_includes.py"],
  [("_GetLineKind / _GetSortKey", "fix_includes.py"), ("SortIncludesInFiles", "fix_includes.py")],
  ["contents of the fixed file after one and two runs"])
p("F06", "The fixer writes only files it was allowed to change",
  "The fixer writes a file only if advice or sorting really changes it and the file passes every filter in force: it is among the named files if any were named, matches the only-expression and does not match the ignore-expression; in dry-run mode it writes nothing at all. "
  "A file that cannot be read, or whose advice does not fit its contents, is left untouched and the remaining files are still fixed.",
  ["configurations", "inputs", "fault_sequences"],
  "all combinations of filters, options, file lists, unreadable or inconsistent files among others",
  "Tests cover each filter alone with stubbed file access; combinations and failing files among good ones are not sampled, and the stub hides real writes.",
  ["fix_includes.py"],
  [("ProcessIWYUOutput, filters", "fix_includes.py: ProcessIWYUOutput"), ("FixManyFiles error handling", "fix_includes.py: FixManyFiles"), ("FileInfo / read and write", "fix_includes.py")],
  ["which files changed on disk"])
p("F07", "The fixer preserves text encoding and line endings",
  "A file fixed or sorted by the fixer keeps its character encoding and byte-order mark, added lines use the file's dominant line ending, and lines other than includes and forward declarations keep their bytes, including their line ending. When the added text cannot be represented in the file's encoding the file is left untouched.",
  ["inputs"],
  "all files in any mixture of encodings (ASCII, UTF-8 with or without mark, legacy eight-bit) and line endings (LF, CRLF)",
  "Unit tests feed strings, not bytes on disk, apart from a few encoding examples.",
  ["fix_includes.py"],
  [("FileInfo.parse encoding and line separator detection", "fix_includes.py: FileInfo"), ("_ReadFile/_WriteFile", "fix_includes.py")],
  ["bytes of the fixed file"])

# ------------------------------------------------------------------ R: the report
p("R01", "The report of a file is arithmetically consistent with the file",
  "In every report the full list of includes and forward declarations equals what the file contains minus what the report removes plus what it adds; each removal names a line that the file really has, at its true line numbers, no line is both added and removed and no line is added that the file already has, except a forward declaration that has to move up to before its first use. "
  "A file is reported as already correct exactly when nothing is added or removed, and each file is reported at most once.",
  ["programs", "inputs", "configurations"],
  "all translation units (duplicate includes, multi-line declarations, several reported files) and output options",
  "Regression tests compare a few hundred hand-written summaries; consistency is a relation between program and report for every program.",
  ["iwyu_output.cc", "iwyu_preprocessor.cc"],
  [("PrintableDiffs, CalculateIwyuViolations", "iwyu_output.cc"), ("duplicate include removal", "iwyu_output.cc: CleanupPrefixHeaderIncludes.. / EmitWarningMessages")],
  ["stderr report of include-what-you-use"])
p("R02", "Exit status and set of reported files follow the documented rules",
  "Unless configured otherwise the analyser exits 0 whatever it advises; with an error code configured it exits with that code exactly when some reported file has an advised change, with an always-code it always exits with it, and a program that does not compile yields failure and no report. "
  "It reports exactly on the main source file, its associated headers and the files matching a check-also pattern among those included.",
  ["programs", "configurations"],
  "all programs with all combinations of the exit-code, verbosity-neutral and check-also options",
  "Driver tests check single settings; the rule ranges over combinations of settings and program shapes.",
  ["iwyu.cc", "iwyu_globals.cc", "iwyu_output.cc", "iwyu_preprocessor.cc"],
  [("exit code selection", "iwyu.cc: HandleTranslationUnit"), ("flag parsing", "iwyu_globals.cc: ParseArgv"), ("files_to_report_iwyu_violations_for", "iwyu_preprocessor.cc")],
  ["exit status and report headers"])
p("R03", "Report lines are ordered, complete and formatted within the limits",
  "The include list of a report is sorted (own headers first, then angled ones ending in .h, other angled ones, quoted ones - or these before the angled ones if so asked - and forward declarations last, alphabetically within each kind), every printed include or forward declaration is legal source text by itself, and comments list the used names of that header, most used first, left out whole from the end only to respect the maximum line length, never cut in the middle of the include itself. "
  "Comment options change only comments: with any comment style, length limit or comment suppression the same lines are advised.",
  ["programs", "configurations"],
  "all programs with all comment, length and order options",
  "Tests pin a few examples of truncation and ordering; the options must not influence the advice for any program.",
  ["iwyu_output.cc", "iwyu_string_util.h"],
  [("OutputLine / PrintablIncludeOrForwardDeclareLine", "iwyu_output.cc"), ("LineSortKey", "iwyu_output.cc")],
  ["stderr report"])

# ------------------------------------------------------------------ P: pragmas
p("P01", "What is marked to be kept is never advised for removal",
  "An include or forward declaration that is marked keep on its line, lies between begin/end keep marks, is exported, matches a keep pattern of the command line, or includes a file that asks to be always kept, is never advised for removal and stays in the full list, however unused or redundant it is - except headers the file itself says must not be included, repetitions of a line, and headers that a prefix header removes under the policy that says so.",
  ["programs", "configurations"],
  "all programs and all placements of keep marks, patterns and their combinations",
  "Regression tests place each mark once in a fixed program; the guarantee covers all placements and combinations with other rules.",
  ["iwyu_preprocessor.cc", "iwyu_output.cc", "iwyu_globals.cc"],
  [("MaybeProtectInclude", "iwyu_preprocessor.cc"), ("keep handling", "iwyu_output.cc"), ("ShouldKeepIncludeFor", "iwyu_globals.cc")],
  ["stderr report"])
p("P02", "Suppressed suggestions are never made",
  "A file that says that a given header must not be included is never advised to add that header nor to keep it when it is unmarked, and a file that says that a given name must not be forward-declared is never advised to add a forward declaration of that name; other files and other headers or names are not affected. "
  "With forward declarations switched off none is ever advised, and a use that would need one asks for the header instead.",
  ["programs", "configurations"],
  "all programs, marks naming any header or (qualified) name in any file, and options",
  "Each mark is tested once; the statement is about every combination of uses, mappings and marks.",
  ["iwyu_preprocessor.cc", "iwyu_output.cc"],
  [("HandlePragmaComment no_include/no_forward_declare", "iwyu_preprocessor.cc"), ("CalculateIwyuForIncludedFile.. no_include filtering", "iwyu_output.cc")],
  ["stderr report"])
p("P03", "Marked ranges cover exactly the lines between their begin and end",
  "For any sequence of marks, a begin/end range applies to exactly the includes and forward declarations between its two marks in the same file and to nothing in files included from there; ranges do not nest, other marks on lines of their own inside a range are refused with a diagnostic and have no other effect (marks at the end of an include line still act on that line), and an unmatched begin or end, an unknown mark or a misplaced one gets a diagnostic at its line. "
  "No sequence of marks makes the analyser fail or abort.",
  ["histories", "programs"],
  "all sequences of pragma comments, includes and declarations over several files",
  "The tests contain one program with a few malformed pragmas; the rule is a state machine over all sequences.",
  ["iwyu_preprocessor.cc"],
  [("open pragma stack, HandlePragmaComment", "iwyu_preprocessor.cc"), ("ProcessPragmasAtFileExit.. unterminated pragma", "iwyu_preprocessor.cc")],
  ["warnings and report"],
  [("begin_exports_location_stack_", "open ranges with the line where they started", "iwyu_preprocessor.h")])
p("P04", "Private headers are replaced by their public header, except for friends",
  "A use of something defined in a private header that names a public header is satisfied by that public header and never leads to the advice to include the private one, unless the using file matches one of that header's friend expressions or is itself the named public header; a private header without any public replacement may still be advised. "
  "A header that no longer serves any use because its public replacement does is advised for removal.",
  ["programs", "configurations"],
  "all programs with any graph of private, public and friend headers",
  "Regression tests contain a few fixed graphs; visibility must be right for every graph of private headers and users.",
  ["iwyu_include_picker.cc", "iwyu_preprocessor.cc", "iwyu_output.cc"],
  [("MarkIncludeAsPrivate, AddFriendRegex, AddMapping", "iwyu_include_picker.cc"), ("candidate selection", "iwyu_include_picker.cc: GetCandidateHeadersForFilepathIncludedFrom")],
  ["stderr report"])
p("P05", "An exporting header satisfies every use of what it exports, transitively",
  "If a file includes a header that exports another one (by line mark or by range), directly or through any chain of exporting headers, then uses of symbols of the exported header are satisfied by that include: it is not advised for removal and the exported header is not advised for addition. "
  "An include that is not exported gives no such credit.",
  ["programs"],
  "all include graphs and all choices of exported edges",
  "A few fixed chains are tested; transitivity quantifies over every include graph.",
  ["iwyu_include_picker.cc", "iwyu_preprocessor.cc", "iwyu_output.cc"],
  [("AddMapping on export, MakeMapTransitive", "iwyu_include_picker.cc"), ("MaybeProtectInclude", "iwyu_preprocessor.cc")],
  ["stderr report"])

# ------------------------------------------------------------------ M: mappings
p("M01", "Mappings are followed to the public end of every chain",
  "The headers that may provide a symbol or a header's contents are exactly the public ones reachable from it over the mapping rules, in any number of steps and also through cycles and shared steps, with expression rules applied to every header they match completely; which headers these are does not depend on the order of the rules or of the mapping files (the order only decides between equally good ones). "
  "A private header is suggested only if no public one is reachable.",
  ["configurations", "programs"],
  "all finite mapping graphs (include, expression and symbol rules) and all orders of their rules",
  "The picker's unit tests check fixed maps; closure and order-independence range over all graphs and permutations.",
  ["iwyu_include_picker.cc", "iwyu_regex.cc"],
  [("MakeMapTransitive", "iwyu_include_picker.cc"), ("ExpandRegexes", "iwyu_include_picker.cc"), ("GetPublicValues", "iwyu_include_picker.cc")],
  ["advised header"])
p("M02", "Mapping files are found, read completely and combined",
  "All mapping files given on the command line and all files they refer to, at any depth, take effect; a reference is looked up first as given from the working directory and otherwise next to the file that refers to it, or to the ones that led to that. "
  "A rule that is malformed, a file that is missing or broken or that refers to itself gets a diagnostic and never makes the analyser abort or invent rules, and switching the built-in rules off removes all of them while the given files still work.",
  ["configurations", "inputs", "fault_sequences"],
  "all trees of mapping files, directories, malformed rules and combinations of the options",
  "Tests use two fixed mapping files; lookup and fault tolerance range over all layouts and malformations.",
  ["iwyu_include_picker.cc", "iwyu_globals.cc"],
  [("AddMappingsFromFile", "iwyu_include_picker.cc"), ("FindFileInSearchPath", "iwyu_include_picker.cc")],
  ["advised header, diagnostics"])

# ------------------------------------------------------------------ D: decisions
p("D01", "Every use is served by a listed header, and every listed header serves",
  "In the advised full list every full use of a symbol is served by a listed header that provides it (or by the file's own header), and each listed header that is not marked to be kept serves at least one use that no earlier choice already served. "
  "Among several possible providers one that is already needed or already included directly is preferred over adding a new one.",
  ["programs", "inputs"],
  "all programs: any bipartite graph between used symbols and providing headers, any set of present includes",
  "Regression tests fix one program per case; minimal cover and preference rules range over all such graphs.",
  ["iwyu_output.cc", "iwyu_include_picker.cc"],
  [("CalculateMinimalIncludes", "iwyu_output.cc"), ("CalculateDesiredIncludesAndForwardDeclares", "iwyu_output.cc")],
  ["stderr report"])
p("D02", "A use asks for the definition exactly when the language needs it",
  "A type that is only named where a declaration suffices (pointers, references, parameters and results of functions merely declared, friends, in any combination) never makes its header needed, a forward declaration serves it; any use that needs the complete type (objects, members, bases, member access, sizeof, delete, conversions, by-value calls) makes the header needed, also if other uses of the same type are weaker. "
  "Where a declared function takes or returns a class by value (or takes one that can be made by conversion by const reference), and where an alias names a class, its author answers for the definition, unless the author shows the intent not to by forward-declaring the class without including the header that defines it. "
  "Functions, variables, enumerators, type aliases and macros always need the header that declares them.",
  ["programs"],
  "all programs built from such uses of any types in any order and number",
  "The regression tests enumerate constructs one by one; the rule must hold for their combinations in one file and across files.",
  ["iwyu.cc", "iwyu_output.cc", "iwyu_ast_util.cc"],
  [("CanForwardDeclareType, Visit*/Report*", "iwyu.cc"), ("ProcessForwardDeclare / ProcessFullUse", "iwyu_output.cc")],
  ["stderr report"])
p("D03", "A source file relies on its associated header and on nothing else implicitly",
  "What the associated header of a source file includes after its own advice is applied, or exactly declares, need not be repeated in the source file, is never advised for addition there, and is advised for removal there only if unneeded or already provided that way; includes of other headers give no such credit. "
  "The associated header (same name up to the conventional suffixes and directories, or marked as such) is itself never advised for removal.",
  ["programs", "configurations"],
  "all pairs of source and associated header, file names, extra headers and uses split between them",
  "A few fixed pairs are tested; the credit rule ranges over all splits of uses and includes.",
  ["iwyu_output.cc", "iwyu_preprocessor.cc", "iwyu_path_util.cc"],
  [("associated includes in CalculateMinimalIncludes", "iwyu_output.cc"), ("GetCanonicalName, BelongsToMainCompilationUnit", "iwyu_path_util.cc, iwyu_preprocessor.cc")],
  ["stderr report"])
p("D04", "Prefix-header and transitive-only policies do what they say",
  "With transitive-only advice a symbol declared in a header that the file does not reach through its includes never leads to an addition. "
  "For headers and forward declarations already provided by a prefix header given on the command line, policy add treats them as if there were none, keep neither adds new nor removes existing ones that are needed, and remove adds none and removes existing ones; lines unrelated to the prefix header are advised identically under all three.",
  ["programs", "configurations"],
  "all programs, prefix headers and policies",
  "Three regression tests with one program each; the policies are a case distinction over all programs.",
  ["iwyu_output.cc", "iwyu_preprocessor.cc", "iwyu_globals.cc"],
  [("CleanupPrefixHeaderIncludes", "iwyu_output.cc"), ("transitive includes check", "iwyu_output.cc")],
  ["stderr report"])
p("D05", "Advised forward declarations declare the right entity",
  "Every advised forward declaration, pasted at file scope as printed, declares the same entity as the one that is used (same kind of class or enumeration, name, enclosing namespaces, and template parameters), in the classic or the nested-namespace spelling as asked. "
  "What cannot or should not be declared ahead is never advised so, its header is needed instead: types in inline namespaces, enumerations without fixed type, and templates that have default arguments, packs, constraints or parameters naming other declarations, if they are defined. "
  "Existing forward declarations are advised for removal exactly when no use in the file needs them any more or a needed header already provides the definition, once each, with their true line ranges.",
  ["programs", "configurations"],
  "all programs with types in any nesting of namespaces, as class, struct, union or template",
  "Tests print a few fixed declarations; the printed text must be right for every entity.",
  ["iwyu_output.cc", "iwyu_ast_util.cc"],
  [("MungedForwardDeclareLine", "iwyu_output.cc"), ("forward declare lines", "iwyu_output.cc: OneUse / OneIncludeOrForwardDeclareLine")],
  ["stderr report"])
p("D06", "Macro uses are charged to the right header and file",
  "A macro that is expanded, tested for definedness (in any form of conditional) or named in another macro's definition makes the header needed that defined it at that point, in the file where the name is written; text that a condition leaves out uses nothing. "
  "What the expanded text uses is charged to whoever wrote those words: the macro's file for its body, the user's file for the arguments. But where the macro's file forward-declares the class itself, it leaves the class to the users of the macro: the place of expansion is charged, and that forward declaration counts as needed. Names pasted together from pieces are the place of expansion's.",
  ["programs"],
  "all programs with macros defined, redefined, tested and expanded over several headers",
  "Fixed regression programs only; attribution is a function of every definition and use history.",
  ["iwyu_preprocessor.cc", "iwyu.cc", "iwyu_location_util.cc"],
  [("ReportMacroUse", "iwyu_preprocessor.cc"), ("use attribution location", "iwyu.cc / iwyu_location_util.cc")],
  ["stderr report"])

# ------------------------------------------------------------------ E/N: whole system
p("E01", "Following the advice keeps programs compiling and then nothing is left to do",
  "For a program that compiles, applying the analyser's report with the fixer yields a program that still compiles and means the same, and analysing that again gives the verdict that it is correct, after a few rounds, of which each but the last changes the files as the report said and in no other way. "
  "Analysing the same input twice gives identical output.",
  ["programs", "histories"],
  "all well-formed programs within the modelled language, over repeated analyse-and-fix rounds",
  "No existing test runs analyser and fixer together, let alone repeatedly; the property quantifies over programs and histories.",
  ["iwyu.cc", "iwyu_output.cc", "iwyu_include_picker.cc", "iwyu_preprocessor.cc", "fix_includes.py"],
  [("whole pipeline", "iwyu.cc, fix_includes.py")],
  ["compiler exit status, second report"])
p("N01", "A header is always spelled so that the include would find that header",
  "Every include the analyser prints, resolved by the compiler from the file it is printed for, denotes the very header that is meant (unless another header hides it under its usual name); the spelling used in that file's existing include of the header is preferred, otherwise the search directory giving the shortest name is used, with angle brackets exactly for system directories. "
  "Equivalent path spellings (dots, doubled slashes, relative or absolute search directories) do not make it treat one header as two.",
  ["configurations", "programs"],
  "all directory layouts, nested and overlapping search directories, include spellings and working directories",
  "Path helpers are unit-tested on a few strings; correctness depends on every layout of search directories.",
  ["iwyu_path_util.cc", "iwyu_include_picker.cc", "iwyu_preprocessor.cc", "iwyu_globals.cc"],
  [("ConvertToQuotedInclude", "iwyu_path_util.cc"), ("BestQuotedIncludesForIncluder / as-written names", "iwyu_include_picker.cc"), ("search path normalisation", "iwyu_globals.cc")],
  ["stderr report"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
