"""Per property: technique and what assurance the check gives."""
TLA = "TLA+ specification, model-checked with TLC; "
ANA = (TLA + "the specification of the analyser reads generated programs line by line and computes every report; laws on the outcome "
       "are checked as invariants and the real analyser's reports and diagnostics must equal the computed ones")
CHECKS = {
 "T01": (TLA + "schedules from it forced on the real script, recorded traces validated against it",
         "Exhaustive for the scheduling model at small constants; every recorded run of the real script must be a behaviour of the model. Trusts the stand-in analyser and the recording shim around Popen/getloadavg."),
 "T02": (TLA + "recorded outputs and exit codes validated as traces",
         "As T01, for output blocks and exit status; block contents are compared byte for byte by the harness, order and completeness by TLC."),
 "T03": (TLA + "the model computes the expected runs for generated databases, compared with the recorded ones",
         "Sampled databases, symbolic links, selections and argument spellings; the expected command lines are computed by TLC from the model."),
 "T04": (TLA + "the model of the formatter's line machine computes expected diagnostics for generated outputs",
         "Sampled analyser outputs built from reachable report sections and compiler messages."),
 "F01": (TLA + "the model of the report reader and of merging computes the edits that random histories of reports ask for; compared with the files the real script writes",
         "The merging laws are checked exhaustively on the model at small constants; the script is replayed on sampled runs."),
 "F02": (TLA + "every result of the real script is replayed, token by token, through a monitor specified in TLA+ that says what an edit may do to a document",
         "Sampled documents and advice; the document's structure comes from its generator, not from a parser."),
 "F03": (TLA + "results of the real script judged by the document monitor (removals, additions, repetitions)",
         "Sampled documents and advice, as F02."),
 "F04": (TLA + "results of the real script judged by the document monitor (zones and places)",
         "Sampled documents and advice, as F02."),
 "F05": (TLA + "results of the real script judged by the document monitor (order of kinds and names), and each run repeated on its own result",
         "Sampled documents; documents on which the place of an include decides its kind are only judged after one run."),
 "F06": (TLA + "the model of selecting and writing files computes which files random runs may write; compared with the directory afterwards",
         "The laws are checked exhaustively on the model at small constants; the script is replayed on sampled runs."),
 "F07": (TLA + "bytes of the files the real script writes are judged by a TLA+ monitor of line endings, marks and encodings",
         "Sampled encodings and line endings."),
 "R01": (ANA, "Sampled programs of several files. The law relates the advice to the program text and is checked on the model for every program; the real report must equal the model's, line by line and number by number."),
 "R02": (ANA, "Sampled programs, patterns, exit codes and verbosity, including programs that do not compile and ones that need no advice."),
 "R03": (ANA, "Sampled programs, with the exact text of the report (order, alignment, comments, shortening) computed by the model."),
 "P01": (ANA, "Sampled programs with marks on lines, ranges, files and patterns."),
 "P02": (ANA, "Sampled programs with suppressing marks in any file."),
 "P03": (ANA, "Sampled sequences of marks; the ranges are computed twice in the specification (while reading and from the text) and must agree; diagnostics are compared with the real ones."),
 "P04": (ANA, "Sampled programs with private headers, friends, internal directories and mappings."),
 "P05": (ANA, "Sampled programs with exports of all kinds and depths."),
 "M01": (ANA, "Sampled programs with random rules, expressions, chains and cycles of rules in one or two files; expressions of a fixed set of shapes."),
 "M02": (ANA, "Sampled graphs of mapping files in several directories with missing, broken, self-referring and partly wrong files; the texts of the remarks on them are compared too."),
 "D01": (ANA, "Sampled programs with several providers per symbol."),
 "D02": (TLA + "an abstract machine over C++ uses (contexts, template arguments, aliases, author's intent) computes which definitions and declarations a program asks for; the real analyser's reports must equal the computed ones",
         "Sampled programs of generated declarations and uses over several files; the rules of what needs a complete type are stated in the specification from the language, for the modelled constructs."),
 "D03": (ANA, "Sampled components with conventional, unconventional and marked headers."),
 "D04": (ANA, "Sampled programs with prefix headers under each policy, and transitive-only advice."),
 "D05": (ANA, "Sampled programs with types of all kinds (classes, structs, unions, enumerations, class templates with all kinds of parameters) in nested, inline, anonymous and extern \"C++\" blocks; the advised texts are computed by the specification, read back by a second description of declarations in it, and given to the compiler."),
 "D06": (TLA + "the analyser's state machine reads macro definitions, expansions and conditions line by line and computes each use they come to; the real analyser's reports must equal the computed ones",
         "Sampled programs with macros of a fixed set of shapes (object-like, function-like, nested, pasting) and all forms of conditionals."),
    "E01": (TLA + "histories in which the real analyser and the real fixer take turns are recorded and each is played against a specification: every report must be the computed one, every repair must be what the report asked for and nothing else, the result must compile and the last report must ask for nothing",
            "Sampled programs and options, up to five rounds; only the modelled language, with truthful marks and without include cycles."),
    "N01": (ANA, "Sampled programs in sampled directories and search paths, spelled in several ways; without symbolic links and without headers that hide others under their usual names."),
}
NOT_APPLICABLE = {}
