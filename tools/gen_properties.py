import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Every physical line is read once, decoded and correctly attributed",
 "Reading a configuration file yields exactly one item per physical line, in file order, carrying the right file name, 1-based line number and raw bytes, with only its line ending removed and its text decoded as UTF-8, or as Windows-1252 (never failing) with one encoding error on exactly the lines that are not valid UTF-8. A control character other than tab, CR or LF is reported once on exactly each line that contains one. Line-ending problems (bare LF in a DOS file, CRLF in a UNIX file, a last line without LF in a UNIX file, a trailing CRLF in a DOS file) are reported on exactly the offending lines, where the file's own first line decides whether it is DOS or UNIX format.",
 ["inputs"],"every byte content of a file over an alphabet of ordinary bytes, CR, LF, control bytes, valid and invalid UTF-8 sequences",
 "Tests sample a handful of line-ending mixes; the format decision, the last-line rule and the decoding fallback interact over every sequence of line shapes.",
 ["asterisklint/file.py","asterisklint/where.py"],[("binary reader, encoding, control-character and file-format stages","asterisklint/file.py BinFileReader..FileformatReader"),("location record","asterisklint/where.py Where")])
p("P02","Comments and escaped semicolons split exactly, losing nothing",
 "On every line the first semicolon that is not directly preceded by a backslash starts the comment, every backslash-semicolon before it becomes a plain semicolon in the data, and no other character of the data is changed or lost; blanks directly before the comment belong to the comment, not the data. Trailing blanks of a line are removed and reported once on that line, and a comment glued to preceding data without whitespace is reported once on that line.",
 ["inputs"],"every line over an alphabet of letters, space, tab, backslash, semicolon, equals sign and bracket",
 "Backslash lookback and whitespace trimming have two separate code paths whose agreement over all short strings no sampled test can show.",
 ["asterisklint/file.py"],[("comment splitting","asterisklint/file.py AsteriskCommentReader")])
p("P03","#include expands in place with correct attribution and complete cleanup",
 "The element stream of a file tree is the depth-first textual expansion of its #include/#tryinclude directives at the position of the directive: every line of an included file appears once per inclusion, carries its own file name and line number, and reading then resumes in the including file right after the directive. Paths resolve relative to the directory of the including file; an #include that cannot be opened is reported once on the directive's line, a missing #tryinclude is silent, and in both cases reading continues. A file that is still being read is never opened again: a directive that names it (or another name of it) is treated like one that cannot be opened. Every file opened is closed again once the tree has been read to the end.",
 ["inputs","fault_sequences"],"every graph of up to four files in several directories with directives at every position, and every choice of which opens fail",
 "The reader keeps a stack of half-read files and per-file state keyed by name; the interesting cases are nesting, repeated and empty files, directives on first and last lines, and failing opens in combination.",
 ["asterisklint/config.py","asterisklint/file.py"],[("file stack","asterisklint/file.py BinFileReader"),("directive handling","asterisklint/config.py ConfigParser.preprocessor")])
p("P04","Every configuration line becomes exactly one element or one diagnostic",
 "Each non-blank, non-comment line of a configuration file is either a context header, a variable assignment to the most recently opened context (with '=>' or '=' recorded and key and value trimmed only around the operator), an honoured preprocessor directive, or is reported with exactly one error on its own line; nothing is dropped silently or attributed to another context, and assignments before the first context are reported. Malformed directives (nothing after the keyword, no space after it, unbalanced quoting, mixed whitespace, leading whitespace, #exec) and sloppy whitespace around operators, headers and keys are reported on exactly the lines that have them. A report that quotes the line (how it begins, the command, the file name) quotes what is there.",
 ["inputs","histories"],"every sequence of up to four lines from an alphabet of header, assignment, directive and junk shapes, and every short line over the structural characters",
 "The classification is an ordered list of overlapping regular expressions with hand-written fallbacks; only exhaustive enumeration of line shapes shows that no shape is swallowed by the wrong rule.",
 ["asterisklint/config.py","asterisklint/configobj.py"],[("line classification","asterisklint/config.py ConfigParser.regexes"),("directives","asterisklint/config.py ConfigParser.preprocessor"),("collection","asterisklint/config.py ConfigAggregator"),("whitespace checks","asterisklint/configobj.py Context, Varset")])
p("P05","Vertical whitespace diagnostics fire exactly where the layout rules say",
 "Per file, blank lines at the very start and at the very end are reported once each, runs of more than one blank line before a variable and of more than two before a context or among trailing comments are reported once per run at the run's last blank line, and a context that follows a context with more than two variables without any blank or comment line in between is reported at its header. Comment-only lines split runs of blank lines; directives and malformed lines are invisible to the layout. The state is kept per file, so a file's included files neither hide nor cause reports in it, except that blanks directly before an include that ends the file are not end-of-file blanks.",
 ["histories","inputs"],"every sequence of up to eight blank/comment/header/assignment lines, in one file and across include boundaries",
 "The checker delays blank lines in a per-file state machine and regroups them; each report depends on the whole history of the file, so sampled layouts leave most states unvisited.",
 ["asterisklint/configws.py"],[("per-file state machine","asterisklint/configws.py VswContext"),("file stack","asterisklint/configws.py VswContextStack")])
p("P06","Dialplan priorities, labels and duplicates are resolved as documented",
 "For every sequence of dialplan lines, 'n' resolves to the last valid priority in the file plus one (a dropped duplicate counts too), 'same' to the previous accepted extension of the context, a reopened context continues the earlier one, and exactly the valid lines end up in the dialplan with their resolved priority and label. Missing or invalid priorities and patterns, malformed labels, priorities out of order, duplicate priorities and duplicate labels per (canonical) pattern, unknown keys, hint/switch/ignorepat, missing arrows, and misplaced or repeated general and globals contexts are each reported once, on exactly the lines that have them (a missing one at line 0). Only ASCII digits make a number; a line with a malformed pattern is reported but kept. Dropped lines (duplicates, lines without a valid priority) do not appear in the dialplan and their labels and jumps do not count, while the dialplan otherwise continues. Reports quote the key, priority, label or pattern that they are about as it is in the file.",
 ["histories"],"every sequence of up to five dialplan lines from an alphabet of exten/same/include/header forms with colliding patterns, priorities and labels",
 "Resolution depends on dialplan-global, context and pattern state that survives across lines and contexts; tests follow a few straight-line histories.",
 ["asterisklint/dialplan.py"],[("line decoding","asterisklint/dialplan.py DialplanVarset.from_varset"),("priority/label state","asterisklint/dialplan.py DialplanContext.add"),("context bookkeeping","asterisklint/dialplan.py DialplanAggregator, Dialplan")])
p("P07","The shown dialplan is exactly the accepted dialplan, sorted",
 "dialplan-show prints every context once (in file order, or reversed when asked), and within it every accepted extension exactly once grouped by pattern in pattern order and by ascending priority, with its resolved priority, its application text, and its label on continuation lines, followed by the context's includes in file order. Feeding the shown content back as a dialplan yields the same listing.",
 ["inputs","histories"],"every dialplan of up to six lines over colliding contexts, patterns, priorities, labels and applications",
 "Listing correctness is a relation between a whole input file and a whole output; tests compare a couple of fixed files.",
 ["asterisklint/dialplan.py","asterisklint/commands/dialplan-show.py"],[("listing","asterisklint/dialplan.py Dialplan.format_as_dialplan_show"),("grouping and sorting","asterisklint/dialplan.py DialplanContext.by_pattern"),("command","asterisklint/commands/dialplan-show.py")])
p("P08","Pattern matching agrees with Asterisk's matching rules",
 "An extension matches a pattern exactly when Asterisk would accept it: dashes are ignored outside sets and in the dialled number, X/Z/N (any case) and bracketed sets with ranges consume exactly one character of the set, '.' needs at least one more character and '!' accepts zero or more, everything else must match literally, and the lengths must agree otherwise; characters are the bytes of the UTF-8 form. A pattern without a leading underscore matches only itself. A malformed set never matches anything and is reported as a bad pattern, never as a crash; the example number derived from a well-formed pattern (unless one of its sets has nothing but a dash) matches that pattern.",
 ["inputs"],"every pattern of up to five symbols and every extension of up to five characters over small alphabets",
 "Off-by-one errors at the end of the pattern, empty or unclosed sets and dash handling only show for particular pattern/extension pairs.",
 ["asterisklint/pattern.py"],[("parsing","asterisklint/pattern.py Pattern.parse*"),("matching","asterisklint/pattern.py Pattern.matches_extension"),("example","asterisklint/pattern.py Pattern.example")])
p("P09","The canonical form of a pattern is equivalent, stable and correctly hinted",
 "For every well-formed pattern (without multi-byte characters in sets) the proposed canonical form matches exactly the same extensions as the pattern itself, is its own canonical form, and is identical for any two patterns that consist of the same sequence of character sets and wildcards. The non-canonical hint is given for a pattern if and only if the pattern, apart from ignored dashes, differs from its canonical form, and the hint names that form. Put in the place of the pattern in the dialplan, that form is read as it is.",
 ["inputs"],"every pattern of up to five symbols over an alphabet with literals, wildcards, set brackets, dashes and range characters, and every set of up to four members",
 "Set rewriting (gaps, ranges, escapes, dash placement) has many interacting special cases that example lists cannot cover.",
 ["asterisklint/pattern.py","asterisklint/dialplan.py"],[("canonical form","asterisklint/pattern.py Pattern.canonical_pattern"),("hint","asterisklint/dialplan.py DialplanAggregator.on_dialplanvarset")])
p("P10","Pattern order is a total order consistent with equality",
 "Comparing patterns is a strict total order that is consistent with equality and hashing: exactly one of less, equal, greater holds for every pair, and it is transitive. Literal extensions come before patterns; patterns compare character by character with smaller sets first, then lower characters, then '.', then '!', then the end of the pattern. The order in which a context's patterns are shown therefore does not depend on the order in which they were written.",
 ["inputs"],"every pair and triple of patterns of up to three symbols over a small alphabet, and every permutation of small pattern sets in a dialplan",
 "Order axioms quantify over all pairs and triples; tests check a dozen neighbours.",
 ["asterisklint/pattern.py"],[("ordering","asterisklint/pattern.py Pattern.__lt__/__eq__/__hash__")])
p("P11","Jump destinations are reported exactly when they cannot exist",
 "After the whole dialplan is read, every jump made by an accepted Goto, GotoIf, Gosub or GosubIf line (also inside an ExecIf) is checked once against the final dialplan: a literal context that does not exist, a literal extension/priority or label that is found neither in the context, nor in its (recursively, possibly cyclically) included contexts, nor, for numeric priorities, through an 'i' extension, and a literal label with a variable extension or context that exists nowhere reachable, are each reported once on the jumping line with the right message. Nothing is reported when the destination exists or may exist because of variables, whether it is defined earlier or later in the file; an omitted context or extension means the current one, and ${EXTEN} stands for the current extension (the example number of a pattern). A context name with a variable in it is unknown.",
 ["histories","inputs"],"every dialplan of up to three contexts with every include graph (including cycles and missing contexts) and every jump form over colliding contexts, extensions, priorities and labels",
 "Whether a jump is valid depends on the whole dialplan, on include reachability and on later lines, so every history shape is a separate case.",
 ["asterisklint/dialplan.py","asterisklint/app/vall/builtin.py","asterisklint/app/vall/app_stack.py"],[("destination walk","asterisklint/dialplan.py Dialplan.walk_jump_destinations"),("lookup","asterisklint/dialplan.py DialplanContext.match_pattern, has_label"),("collection","asterisklint/app/vall/builtin.py Goto, GotoIf; app_stack.py Gosub, GosubIf")])
p("P12","Application arguments are split and validated like Asterisk does",
 "Argument splitting follows Asterisk's standard argument parser for every delimiter: delimiters inside brackets, parentheses or double quotes or after a backslash do not split, quotes and backslashes are stripped only when asked, and a variable or expression is never split. Argument-count, bad-option, duplicate-option, pipe-delimiter and conditional-style errors (missing question mark, empty condition, constant condition, too many parts) are reported for exactly the calls that have them, once each, naming the application. The parenthesised argument of an option is not a list of options.",
 ["inputs"],"every data string of up to seven symbols over an alphabet of delimiters, quotes, brackets, backslash, letters and a variable, and every application with a declared signature over argument counts 0..max+2",
 "The splitter is a character state machine with four modes; errors appear only on particular nestings.",
 ["asterisklint/app/base.py","asterisklint/app/vall"],[("splitter","asterisklint/app/base.py AppBase.separate_args"),("validation","asterisklint/app/base.py MinMaxArgsMixin, AppArgsMixin, AppOptions, NoPipeDelimiterMixin, IfStyleApp, VarCondIfStyleApp")])
p("P13","Unbalanced quotes, parentheses and braces are reported exactly",
 "Application data and function arguments are reported as unbalanced if and only if, reading left to right and skipping over complete variables and expressions, brackets of the three kinds outside single- or double-quoted stretches do not nest properly or something remains open at the end. Each offending call is reported once on its line, and balanced data never is. (The conditional, jump, Originate, VoiceMail and Milliwatt applications split their data first and are not checked as a whole.)",
 ["inputs"],"every data string of up to nine symbols over the bracket and quote characters, a letter and a variable",
 "The set of balanced strings is a context-free language with two quoting modes; only enumeration decides agreement on all short strings.",
 ["asterisklint/variable.py","asterisklint/app/base.py","asterisklint/func/base.py"],[("balance automaton","asterisklint/variable.py variable_check_balance"),("reporting","asterisklint/app/base.py AppBase.__call__, asterisklint/func/base.py FuncBase.__call__")])
p("P14","Variables, slices and expressions parse faithfully",
 "Parsing text with ${...} and $[...] substitutions recognises exactly the outermost properly closed ones, recursively, and turning the result back into text gives the original text whenever nothing was reported (numbers in slices may be normalised); an unclosed substitution is reported as a parse error, once per application that contains it. Bad characters in a literal variable name, malformed slice arguments, non-numeric or useless starts and lengths are each reported once on exactly the references that have them. Substituting values for the variables gives the text Asterisk would compute, including nested names and offset/length slices.",
 ["inputs"],"every string of up to eight symbols over an alphabet of '$', braces, brackets, colon, minus, digits, letters and an illegal character",
 "Nesting, slicing and escapes interact; a recursive grammar cannot be covered by examples.",
 ["asterisklint/varfun.py","asterisklint/variable.py"],[("substitution parser","asterisklint/varfun.py VarLoader.parse_variables"),("slices","asterisklint/varfun.py VarLoader.split_variable_slice; asterisklint/variable.py SliceMixin"),("string form and substitution","asterisklint/variable.py Var.__str__, Var.format")])
p("P15","Applications of the selected version are recognised, all others reported",
 "For each supported Asterisk version, a call to an application of that version in its proper case raises no availability message, in any other case exactly one bad-case warning naming the proper spelling, and a call to a name that is no application of that version exactly one missing-application error. Missing parentheses (except for NoOp), whitespace before or after the name, and an absent name are reported once on exactly the lines that have them, also for applications nested in a conditional execution. (The name Unknown is reserved for names made of variables.)",
 ["inputs","configurations"],"every application of every version, every case variant of up to three flips, every whitespace and parenthesis decoration, directly and nested, plus near-miss names",
 "Lookup is case-insensitive, cached and aliased; the tests check that names exist in one version, not that each call form gets exactly the right messages.",
 ["asterisklint/application.py","asterisklint/app","asterisklint/version.py"],[("call decoding","asterisklint/application.py App.split_app_data"),("registry","asterisklint/application.py AppLoader"),("availability","asterisklint/app/base.py AppBase.check_availability"),("version selection","asterisklint/version.py")])
p("P16","Function calls are recognised in every position and checked exactly",
 "Every dialplan function read with ${F(args)} or written with Set(F(args)=v), at any nesting depth, is looked up once: a proper-case function of the selected version raises no availability message, another case one bad-case error naming the proper spelling, an unknown one one missing-function error. A missing closing parenthesis, trailing text after it, a function name built from variables and a bad slice after the call are reported once on exactly the calls that have them; assignments without a target, without an equals sign or with spaces in the name are reported once.",
 ["inputs","configurations"],"every function of every version in read and write position, every case variant, and every short string over the call syntax alphabet nested to depth two",
 "Read and write positions use different parsers, nesting multiplies them, and lookups are cached and aliased.",
 ["asterisklint/varfun.py","asterisklint/func","asterisklint/function.py"],[("read calls","asterisklint/varfun.py FuncLoader.process_read_function"),("write calls","asterisklint/varfun.py FuncLoader.process_write_function, VarLoader.parse_assignment"),("registry","asterisklint/varfun.py FuncLoader")])
p("P17","modules-show lists exactly the modules the dialplan needs",
 "For every dialplan, modules-show lists under each providing module exactly the applications and functions that occur in it (wherever nested, in whatever case, also on lines that are dropped as duplicates), emits one load line for exactly each non-builtin module that provides one of them, in sorted order, and warns about exactly the unknown applications and functions seen. Its exit status is 1 if and only if an unknown application or function was seen.",
 ["inputs","histories"],"every subset of up to four calls drawn from all applications and functions, in any case and nesting, with and without custom functions",
 "The listing is collected through global registries and message callbacks as a side effect of parsing; correctness is a relation over whole dialplans.",
 ["asterisklint/commands/modules-show.py","asterisklint/application.py","asterisklint/varfun.py"],[("usage tracking","asterisklint/application.py AppLoader.used_apps/used_modules; asterisklint/varfun.py FuncLoader"),("report","asterisklint/commands/modules-show.py")])
p("P18","func_odbc files are checked per function and define exactly their functions",
 "For every func_odbc file, each unknown key, duplicate key, key that comes later than its place (relative to the accepted key right before it), legacy read/write key, SQL ending in a semicolon, arrow operator, badly spelled function name and function without any read or write statement is reported once on exactly its line, with the first of duplicate keys kept. Every function with a read or write statement, and no other, becomes known to dialplan checks under its prefix (default ODBC), an underscore and its name, also when the file is found automatically next to the dialplan, unless disabled.",
 ["histories","configurations"],"every sequence of up to four keys from the full key set in one or two functions, every name and prefix shape, and every way of passing the file to the dialplan commands",
 "Order, duplicate and legacy rules depend on all earlier accepted keys, and the registration is only visible through another command.",
 ["asterisklint/func_odbc.py","asterisklint/mainutil.py"],[("key checks","asterisklint/func_odbc.py OdbcFunction.add, check_order"),("registration","asterisklint/func_odbc.py OdbcFunction.finalize"),("auto-detection","asterisklint/mainutil.py load_func_odbc_functions")])
p("P19","Exit status and printed messages agree with what was found and not ignored",
 "The check commands exit with status 1 if and only if at least one message was raised whose identifier is not silenced, and each such message is printed exactly once to standard error as location, identifier and filled-in text, while silenced ones are not printed. ALINT_IGNORE silences exactly the identifiers listed in full, and all identifiers starting with a listed entry that ends in an underscore; nothing else, and blanks around entries are not stripped.",
 ["configurations","inputs"],"every combination of up to three ignore entries (exact, prefix, partial, empty, unknown) with dialplans and func_odbc files raising any subset of a set of messages",
 "Muting is decided at class-definition time from the environment and consulted in a different place than printing; agreement is over the product of environment and findings.",
 ["asterisklint/defines.py","asterisklint/commands/dialplan-check.py","asterisklint/commands/func_odbc-check.py"],[("muting","asterisklint/defines.py MessageDefManager.__new__"),("printing","asterisklint/defines.py MessageDefManager.on_message"),("exit status","asterisklint/commands/dialplan-check.py, func_odbc-check.py")])
p("P20","Rewriting a configuration file is all-or-nothing at every failure point",
 "When a rewriting helper updates configuration files, then at every instant, and whatever operation fails or wherever the process is stopped, each file holds either its complete old or its complete new content, where the new content differs from the old only in the listed lines as rewritten. Owner, group and permission bits of a rewritten file are kept, a symbolic link keeps pointing to the rewritten target, and after a reported failure (other than of the clean-up itself) no temporary file is left behind.",
 ["crash_points","fault_sequences"],"every crash point before each file-system operation and every single injected failure of an operation, over file shapes, issue sets, symlinks and permissions",
 "Atomicity is a statement about every interruption point of the write path, which ordinary tests never visit.",
 ["asterisklint/helper/mutator.py"],[("temp-file, permission copy and rename protocol","asterisklint/helper/mutator.py FileMutatorBase.process_file")])
p("P21","No input makes the checker crash or hang",
 "For every byte content of a dialplan or func_odbc file (and of its includes, also when they include one another) the check, show, module-listing and identifier commands terminate and report findings as messages; they never end in an internal exception and never loop.",
 ["inputs"],"every document of a few tokens over an alphabet of all structural characters and keywords, in every syntactic position",
 "Totality is a universal statement; a single odd combination that nobody wrote a test for is enough to break it.",
 ["asterisklint/config.py","asterisklint/dialplan.py","asterisklint/pattern.py","asterisklint/varfun.py","asterisklint/variable.py","asterisklint/app","asterisklint/func"],[("internal-error wrapper","asterisklint/config.py ConfigAggregator.__iter__"),("parsers","asterisklint/application.py, varfun.py, pattern.py, dialplan.py")])
p("P22","Results do not depend on what was checked before",
 "The messages for a document and the dialplan-show listing made from it are a function of that document alone: checking other documents earlier in the same process, in any order, including ones that failed, does not change them (func_odbc files excepted: they are there to define functions for what is checked next). The web service answers each request with exactly the findings of the uploaded file, sorted by line, regardless of earlier requests and of earlier failing requests.",
 ["histories"],"every sequence of up to four documents or requests (valid, erroneous, unparsable, malformed) against a one-document-per-process reference",
 "Messages, registries and spelling choices live in process-wide singletons; only request histories reveal leakage.",
 ["asterisklint/defines.py","asterisklint/application.py","asterisklint/varfun.py","web/wsgi.py"],[("message store","asterisklint/defines.py MessageDefManager.raised/reset"),("registries","asterisklint/application.py AppLoader, asterisklint/varfun.py FuncLoader, VarLoader"),("request handling","web/wsgi.py DialplanCheck.on_post")])
p("P23","ident-scan reports exactly the confusable identifiers",
 "The verbose scan lists exactly the contexts, accepted labels and literally named variables of the dialplan, sorted case-insensitively, with the right number of occurrences and files per variable. Pairs of identifiers adjacent in alphabetical or in length order are reported, symmetrically, if and only if their case-insensitive edit distance is at most two and smaller than both lengths minus one, except pure upper/lower twins and numbered routine arguments; the exit status is 1 if and only if some pair is reported.",
 ["inputs"],"every set of up to four identifiers over a small alphabet placed as contexts, labels or variables",
 "The neighbour comparison over two orderings with exceptions is a relation over sets of names.",
 ["asterisklint/commands/ident-scan.py","asterisklint/varfun.py"],[("scan","asterisklint/commands/ident-scan.py"),("variable use counting","asterisklint/varfun.py VarLoader.count_var")])
p("P24","The command line finds, lists and runs exactly the available commands",
 "'ls' lists every command found in the commands directories of the search path once, the first directory winning, with its description or load error (directories and dangling links are no commands); running a command passes it the remaining arguments and returns its exit status to the shell. An unknown, ill-named or broken command gives a message and a non-zero status without a traceback, and a user's own commands directory takes precedence over the built-in one.",
 ["configurations","inputs"],"every combination of present, shadowed, broken and missing commands over up to three search directories, and every short command name over the name alphabet",
 "Lookup depends on the path configuration of the user; the tests never run the dispatcher.",
 ["asterisklint/main.py","scripts/asterisklint"],[("listing","asterisklint/main.py list_commands"),("loading","asterisklint/main.py load_command"),("dispatch","asterisklint/main.py main")])
p("P25","The contributed rewriters change only what was reported, to what was proposed",
 "After the pattern rewriter has run on a file tree, checking it again gives no non-canonical hint, the dialplan has the same contexts, priorities, labels and applications with equivalent patterns, and every line without a hint is byte-for-byte unchanged, in every file of the tree. In UTF-8 files the old-style ExecIf converter turns exactly the reported comma-style conditionals into the question-mark form with the same condition, application and arguments and leaves all other lines untouched; declining the question leaves every file untouched.",
 ["inputs","histories"],"every dialplan of up to three lines from an alphabet of canonical and non-canonical patterns (also occurring elsewhere on the line) and old/new style conditionals, in one or two files",
 "The rewriters edit raw bytes by search-and-replace based on parsed messages; collisions between needle and other text on the line are input-dependent.",
 ["contrib/make_patterns_canonical.py","contrib/convert_dp_104_to_1100.py","asterisklint/helper/mutator.py"],[("pattern rewriter","contrib/make_patterns_canonical.py"),("ExecIf converter","contrib/convert_dp_104_to_1100.py"),("line selection","asterisklint/helper/mutator.py FileMutatorBase.process_file")])
p("P26","The web service answers from the uploaded file alone and refuses the rest",
 "A POST of at most 65536 bytes (by its Content-Length) to /dialplan-check whose JSON has a text under files/extensions.conf is answered with status 200, the findings of that text (line, class and description, sorted by line, the same as dialplan-check has for it) under the name extensions.conf and nothing else, and the version of the program. No request makes the service open, list, change or start anything on the server, whatever paths or commands the file names: a file with an #include or #tryinclude of any other file is refused as a whole, whether that file exists on the server, is uploaded along, or does not exist (a file that includes itself may be refused or have the finding that it cannot). Larger requests (without being read), malformed ones, ones without that file, unknown paths, and every request to a multi-threaded server are refused with an error status and no findings. The health page says OK and has the version, the index page is index.html.",
 ["inputs"],"every combination of method, path, length, threading and body shape, and of directive, quoting, file name and place in the document",
 "That nothing on the server is touched, whatever is uploaded, is a statement about all uploads; the tests do not run the web service at all.",
 ["web/wsgi.py"],[("files","web/wsgi.py UploadedFileOpener"),("limits","web/wsgi.py max_body, EnvironmentCheckMiddleware"),("answer","web/wsgi.py DialplanCheck.on_post, collect_messages")])
p("P27","Commands read exactly the files they are told to, and change nothing",
 "Every command (dialplan-check, dialplan-show, modules-show, ident-scan, func_odbc-check) reads the file named on its command line, however that name is spelled, or ./extensions.conf (./func_odbc.conf for the func_odbc commands) when there is none, and its outcome comes from the content of that file, with the path as given in the messages. The func_odbc.conf that goes along is the one passed, or else the one next to the dialplan if there is one, or none if disabled. More than one path, or --func-odbc more than once, is a usage error (status 2). If a file that it is to read cannot be opened or read, the command ends with a message and a non-zero status instead of a traceback or a clean result. None of these commands creates, changes or removes any file.",
 ["inputs","fault_sequences"],"every command, way to spell the path, state of the file (fine, missing, directory, dangling or circular link, read error), and way to have or pass func_odbc.conf in each of those states",
 "Defaults, path joining, auto-detection and failure states combine; the tests run one or two commands on a file that is there.",
 ["asterisklint/mainutil.py","asterisklint/commands/","asterisklint/file.py"],[("arguments and failures","asterisklint/mainutil.py MainBase, UniqueStore"),("detection of func_odbc.conf","asterisklint/mainutil.py load_func_odbc_functions"),("opening","asterisklint/file.py BinFileReader.include")])
p("P28","func_odbc-annotate shows exactly the statements of every function",
 "func_odbc-annotate shows every function of the file once, in file order, by its full name (the prefix, or ODBC if there is none or an empty one, an underscore and its name), each with its read, write and insert statements and nothing else: the first readsql (or read, if that is absent or empty), writesql (or write) and insertsql, labelled as what they are and ending in a single semicolon. For a read statement that is a SELECT, the names of the columns are listed in order.",
 ["inputs"],"every sequence of up to four keys of a function, every combination of absent, empty and present statements, and every file of up to four lines",
 "Which of the duplicate, empty and legacy keys counts is decided per combination; the tests look at one query at a time, if at all.",
 ["asterisklint/func_odbc.py","asterisklint/commands/func_odbc-annotate.py"],[("statements","asterisklint/func_odbc.py OdbcFunction.get_queries, OdbcQuery"),("name","asterisklint/func_odbc.py OdbcFunction.get_function_name"),("command","asterisklint/commands/func_odbc-annotate.py")])
p("P29","vg reads VoIPGRID style files as documented, for every command",
 "With the contributed vg command in front of another, every file is read as one for Asterisk that says the same: a line that starts with a space or tab continues the line before it in the file (trailing whitespace dropped, everything else joined as it is, on the line number of the first), a semicolon starts the comment of its line unless it is within parentheses or within single or double quotes on that line (in quotes only the closing quote counts; nothing is escaped), and a context that occurs again replaces the earlier one. What the command does with that (elements, dialplan, functions, findings other than about vertical whitespace, exit status) is what it does with the Asterisk file; a command that does not exist is refused with a message and status 1.",
 ["inputs"],"every line of up to six of the significant characters, every file of up to four or five lines with continuations, comments and repeated contexts, with includes, through every parser and command",
 "Folding needs to look ahead while includes and findings depend on where the reader is; the tests do not run this reader at all.",
 ["contrib/commands/vg.py","asterisklint/file.py","asterisklint/configws.py"],[("reader","contrib/commands/vg.py VoipgridCommentReader"),("replaced contexts","contrib/commands/vg.py VoipgridFile*Parser.on_context"),("command","contrib/commands/vg.py Main")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
