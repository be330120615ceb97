"""The single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py writes both)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, level, note, state=(), hook=False):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()),
                  why=" ".join(why.split()), files=files, mech=mech, observe=observe, technique=technique,
                  level=level, note=" ".join(note.split()), state=list(state), hook=hook))


prop("P01", "Hostile scripts and input never corrupt memory, crash or hang the interpreter",
     """Whatever text a script, the command line, the environment or the standard input holds, the interpreter makes no
     invalid memory access and executes no undefined behaviour. It ends by itself with an exit status once its input
     and the commands it started have ended, never by a signal, and a faulty command yields an error report and lets
     the following lines run.""",
     ["inputs", "programs"], """all script texts, arguments, environments and inputs; the check explores generated,
     mutated and spliced ones over every internal command""",
     "The tests run six fixed, well-formed scripts without instrumentation.",
     ["pbat/core", "pbat/command", "libpbat", "libfasteval"],
     [("line reading and parsing", "pbat/core/pBat_Read.c, pBat_Parse.c, pBat_ParseBlock.c"),
      ("expansion", "pbat/core/pBat_Expand.c, pBat_Var.c"),
      ("commands", "pbat/command/*.c")],
     ["exit status", "sanitizer reports", "standard output of the lines after a faulty one"],
     "AddressSanitizer + UndefinedBehaviorSanitizer builds of the interpreter under grammar-generated, mutated and hostile scripts",
     "exploration", """Red-zone and undefined-behaviour detection on the executions produced; says nothing about
     unreached paths. Trusts gcc's sanitizers.""")

prop("P02", "Variable expansion yields exactly the documented text",
     """Expanding a variable by percent signs when a line is read, or by exclamation marks just before a command runs,
     yields the variable's current value, its substring, its value with every occurrence of a text replaced, or the
     given default if it is undefined, exactly as documented, for every value and position. Doubled percent signs
     yield one, an escaped character is taken literally, an undefined variable yields nothing, a value expanded by
     exclamation marks is never parsed again as operators, and everything else on the line is preserved.""",
     ["inputs", "programs"], "all variable values (ASCII and multi-byte), all offsets and lengths, all line texts",
     "One test expands one variable; offsets, negative lengths, replacements and multi-byte values are not tried.",
     ["pbat/core/pBat_Expand.c", "pbat/core/pBat_Var.c", "pbat/core/pBat_Read.c", "libpbat/estr/pBat_Estr.c"],
     [("conventional expansion", "pBat_ReplaceVars"), ("delayed expansion", "pBat_DelayedExpand"),
      ("value fetching", "pBat_GetVar")],
     ["standard output of ECHO", "arguments an external program receives"],
     "differential monitoring of real executions against an executable reference model",
     "exploration", """Every generated expansion is compared with an independent Python model of the manual.""")

prop("P03", "The environment is a case-insensitive map scoped by SETLOCAL and CALL",
     """At every moment the variables a script can read, list, test and pass to programs are exactly those its SETs
     left, names compared without case and each value byte for byte, however many variables are set, changed and
     removed and in whatever order. ENDLOCAL restores exactly the variables and the expansion mode saved by the
     matching SETLOCAL, unmatched SETLOCALs end with the subroutine or script they were issued in, and no ENDLOCAL
     reaches a SETLOCAL of the caller.""",
     ["histories"], "all sequences of SET, SETLOCAL, ENDLOCAL, CALL and return",
     "The tests set two or three variables, and never restore one.",
     ["pbat/core/pBat_Env.c", "pbat/core/pBat_EnvStack.c", "pbat/command/pBat_Set.c", "pbat/command/pBat_Setlocal.c"],
     [("sorted variable table", "pBat_Env.c"), ("SETLOCAL stack", "pBat_EnvStack.c, pBat_Setlocal.c")],
     ["output of SET and ECHO", "IF DEFINED", "environment of started programs"],
     "history monitoring: random operation histories on the real interpreter checked step by step against a map model",
     "exploration", "Every history is checked after every step, by three independent read paths.")

prop("P04", "Command sequencing, conditionals and blocks run exactly the commands they should",
     """In any nesting of &, &&, ||, blocks, IF/ELSE and redirected or piped groups, exactly the commands whose
     conditions hold run, once each and in order, where && and || look at the error level left by the command before
     them. The error level always is the status of the last command that ran.""",
     ["programs"], "all programs over these constructs, on one line or spread over block lines",
     "One block test and no failing command are tried.",
     ["pbat/core/pBat_Run.c", "pbat/core/pBat_Parse.c", "pbat/core/pBat_ParseBlock.c", "pbat/command/pBat_If.c",
      "pbat/command/pBat_Block.c"],
     [("operator execution", "pBat_RunParsedLine, pBat_ExecOperators"), ("block splitting", "pBat_RunBlock")],
     ["trace of markers the commands print", "%ERRORLEVEL% after every command"],
     "trace monitoring: marker traces of generated programs checked against an interpreter of the documented semantics",
     "exploration", "Traces of real runs are compared with an independent interpreter.")

prop("P05", "GOTO, CALL, EXIT and SHIFT transfer control and arguments exactly",
     """GOTO continues after the named label wherever it is, CALL runs a label or another script with exactly the given
     arguments and comes back to the command after it with the callee's error level, EXIT /B ends the innermost call
     with the given code and EXIT the whole interpreter. Arguments %0 to %9, %* and %+ are those the callee was given,
     moved by SHIFT as documented, and the caller's are intact afterwards.""",
     ["programs", "histories"], "all label layouts, call nestings, argument lists and shift sequences",
     "No test calls, jumps or shifts.",
     ["pbat/core/pBat_Jump.c", "pbat/command/pBat_Call.c", "pbat/command/pBat_Goto.c", "pbat/command/pBat_Exit.c",
      "pbat/command/pBat_Shift.c", "pbat/core/pBat_Args.c"],
     [("label search", "pBat_Jump.c"), ("argument passing", "pBat_Call.c")],
     ["trace of markers and arguments", "exit status"],
     "trace monitoring against an interpreter of the documented semantics",
     "exploration", "Traces of real runs are compared with an independent interpreter.")

prop("P06", "IF conditions decide as documented for every operand",
     """Every IF test (equality, numeric, floating-point and lexicographic comparisons, DEFINED, EXIST, ERRORLEVEL, NOT,
     /I) and every bracketed expression combining tests by AND and OR selects its branch exactly as the manual defines
     for the operands' values, whatever characters they hold once expanded by exclamation marks (IF keywords aside).""",
     ["inputs"], "all operand pairs, operators, switches and bracket expressions",
     "No test uses IF beyond one equality.",
     ["pbat/command/pBat_If.c", "pbat/command/pBat_IfExp.c"],
     [("comparison", "pBat_CmdIf, pBat_PerformExtendedTest"), ("bracket expressions", "pBat_IfExp.c")],
     ["branch taken"],
     "differential monitoring against an executable reference model",
     "exploration", "Each decision is compared with an independent evaluator.")

prop("P07", "FOR loops run their body once per element, with the documented elements",
     """FOR, FOR /L, FOR /F, FOR /R and FOR /D run the body exactly once for each element the manual defines (list items
     and matching files, counted values, tokens of the lines of files, strings and command outputs, directories of a
     tree), in order, with the loop variables holding exactly the selected text. The loop variables are gone afterwards
     and nested loops do not disturb each other.""",
     ["inputs", "programs"], "all lists, ranges, line contents, EOL/SKIP/DELIMS/TOKENS options and nestings",
     "No test uses FOR.",
     ["pbat/command/pBat_For.c"], [("FOR variants", "pBat_For.c")],
     ["values printed by the body"],
     "differential monitoring against an executable reference model",
     "exploration", "Each loop's trace is compared with an independent implementation of the tokenising rules.")

prop("P08", "SET /A computes every expression exactly as documented",
     """SET /A stores the value the manual defines for every expression: integers (decimal, octal, hexadecimal) with
     truncating division, floating point as soon as a floating-point number, function or constant takes part, the
     documented precedence, and plain, compound and inline assignments. No expression, division by zero included, ends
     the interpreter.""",
     ["inputs"], "all expressions whose integer values stay within 32 bits",
     "No test uses SET /A.",
     ["libfasteval/lib/parser.y", "libfasteval/lib/scanner.l", "libfasteval/lib/fasteval.c", "libfasteval/lib/xmath.c",
      "pbat/command/pBat_Set.c"],
     [("grammar", "parser.y"), ("tokens", "scanner.l"), ("assignment operators", "pBat_CmdSetEval")],
     ["values of the assigned variables"],
     "differential monitoring of generated expressions against an independent evaluator, plain and ASan/UBSan builds",
     "exploration", """Every variable is read back after every statement. Floating-point results are compared to eleven
     significant digits.""")

prop("P09", "Redirections move exactly the named streams of exactly the covered commands",
     """Within any nesting of redirected commands, blocks, subroutines, loops and pipes, everything a command writes to
     standard output or standard error, internal or external, goes to the file, stream or pipe the innermost
     redirection in force for that stream designates, in the order written, > replacing and >> extending the file.
     Input comes from the designated file and is consumed once, without loss. When the command or block ends, however
     it ends, the former streams are in force again.""",
     ["programs", "inputs"], """all nestings and spellings of >, >>, <, 1>, 2>, 2>&1 and 1>&2 over all commands; a
     stream is not redirected twice by the same command, and no file is open twice at a time""",
     "One test redirects one block; nesting, error streams, appending and shared input are not tried.",
     ["pbat/core/pBat_Run.c", "pbat/core/pBat_Stream.c", "pbat/core/pBat_Stream.h", "pbat/core/pBat_Parse.c",
      "pbat/core/pBat_Clone.c", "pbat/core/pBat_Exec.c"],
     [("stream stack", "pBat_Stream.c"), ("opening the redirections of a command", "pBat_ExecOutput"),
      ("parsing", "pBat_ParseOutput")],
     ["content of every file", "standard output and error of the interpreter", "lines read"],
     "trace monitoring: every written token is located in exactly the file the model says, over generated programs",
     "exploration", """Order is compared except for files written by both sides of a pipe at once, where the multiset
     is.""")

prop("P10", "Pipes hand over everything once and in order, and isolate their left side",
     """Everything the commands on the left of a pipe write reaches the command on the right, once and in order, whatever
     the volume, the number of stages, their speed and whether they are internal, external, blocks or subroutines; the
     right side sees the end of its input when the left has ended. A reader that stops early never blocks the pipeline.
     Nothing the left side does to variables, directory, arguments, error level or by EXIT affects the caller, whereas
     the right side runs in the caller; the next command starts after every stage has ended.""",
     ["programs", "schedules"], "all pipelines, volumes and interleavings of their stages; the check samples them",
     "The one pipe test moves one line (and does not pass).",
     ["pbat/core/pBat_Run.c", "pbat/core/pBat_Clone.c", "pbat/core/pBat_Stream.c", "pbat/core/pBat_Exec.c",
      "pbat/core/pBat_ExitInt.c"],
     [("pipeline construction", "pBat_ExecOperators, pBat_LaunchPipe"), ("cloning", "pBat_Clone.c")],
     ["bytes, lines and checksum received", "state probes after every pipeline", "termination"],
     "conservation monitoring of generated pipelines with external readers and writers, plain and ASan/UBSan builds",
     "exploration", "Contents are checked by checksum and line; schedules vary by stage speed and machine load only.")

prop("P11", "Interpreters running side by side do not disturb one another",
     """The instances of the interpreter working at the same time (the stages of a pipe) each produce exactly the
     results they would produce alone: no command, variable, loop, parsed script or file of one shows up in another,
     whatever their commands and however they interleave. Their code contains no data race, and they never wait for one
     another for ever.""",
     ["schedules", "programs"], "all interleavings of all commands; random delays and thread schedules are sampled",
     "No test runs two stages that do anything.",
     ["pbat/core/pBat_Clone.c", "pbat/core/pBat_Thread.c", "pbat/core/pBat_Thread.h", "pbat/core/pBat_Globals.c",
      "pbat/core/pBat_EsCache.c", "pbat/core/pBat_ReadLine.c", "pbat/core/pBat_Run.c", "pbat/command", "libpbat"],
     [("thread-local state", "__thread variables"), ("cloning", "pBat_Clone.c"), ("locks", "mSetLock, mModLock, mThreadLock")],
     ["memory accesses and locks (ThreadSanitizer)", "files and output each instance leaves behind"],
     "race detection (ThreadSanitizer) and comparison with a serial run under injected delays",
     "exploration", "The commands of the workload are those of the manual; their schedules are sampled, not enumerated.")

prop("P12", "Programs get exactly what the script gave them, and pbat exactly their answer",
     """A program the script starts, with START, CALL or neither, receives the arguments as written (expanded, split at
     separators, quotes removed from wholly quoted ones), the environment and the current directory of the moment, its three streams as redirected
     and nothing else: no other descriptor, no changed signal disposition. It is found by its path or by PATH, in order. The error level then is its exit
     code, or tells the signal that ended it, and is -1 or 3 if it could not be found or run. A file that is no program is handed in the same way
     to the script of PBAT_START_SCRIPT, by its full path and with its arguments. Statements run
     one after the other's program has ended unless START is told otherwise; what it leaves unread on the standard input is there for the
     next command, and no ended program remains as a zombie.""",
     ["inputs", "histories"], "all arguments, environments, directories, redirections, switches of START and ends of programs",
     "The tests start no external program but through one pipe.",
     ["pbat/core/pBat_Exec.c", "pbat/core/pBat_Args.c", "pbat/core/pBat_Run.c", "pbat/command/pBat_Start.c", "pbat/command/pBat_Call.c", "pbat/core/pBat_Stream.c",
      "pbat/core/pBat_Env.c"],
     [("running", "pBat_RunFile"), ("START", "pBat_CmdStart"), ("arguments", "pBat_GetParamList"), ("search", "pBat_GetFilePath")],
     ["everything an instrumented program sees: argv, environ, cwd, stdin, descriptors, signal dispositions", "error levels", "process table"],
     "trace monitoring with an instrumented program that reports all it observes", "exploration",
     "Every report is compared with what the script says. A part runs under AddressSanitizer/UBSan.")

prop("P13", "COPY, MOVE and REN put contents exactly where told and lose none",
     """After any sequence of COPY, MOVE and REN the file tree is exactly what the commands say: every selected source
     arrives, byte for byte, under the name and in the folder given (concatenations complete and in order), COPY leaves
     its sources, MOVE and REN leave nothing behind, and every other file, directory and link is as before. An existing
     destination is replaced only after /Y or a positive answer, by REN never; a file copied or moved to itself, a failed
     or partial write or a missing source destroys nothing, and a command that could not do what it was told does not
     report success.""",
     ["trees", "command sequences", "answers", "faults"], """all trees with links and read-only parts, all spellings of
     paths, wildcards, switches, answers and partial transfers; outcomes that depend on the order of a directory are
     excluded""",
     "The tests copy and move one or two files; overwriting, self-copies, trees and failures are not tried.",
     ["pbat/command/pBat_Copy.c", "pbat/command/pBat_Ren.c", "pbat/command/pBat_Ask.c", "libpbat/dir/pBat_Dir.c",
      "libpbat/dir/pBat_Attr.c", "libpbat/file/pBat_StdFile.c"],
     [("copying, concatenating, moving", "pBat_CmdCopy, pBat_CopyFile, pBat_CatFile, pBat_CmdCopyRecursive"),
      ("renaming", "pBat_CmdRen"), ("questions", "pBat_AskConfirmation")],
     ["type, content, permission and target of every node of the tree after every command", "error level"],
     "state monitoring: the whole tree is compared with a model after every command, also under short and failing writes",
     "exploration", "Trees have up to some 60 nodes; the failing disk is simulated at the system call boundary.")

prop("P14", "DEL, RD and MD change exactly what they were told to",
     """DEL removes the selected files and nothing else, RD the given empty directories (with /S their whole trees), and MD
     creates the given directories with those leading to them. Read-only files survive DEL without /F, items the user
     does not confirm survive, and no command ever reaches through a symbolic link into another tree. Everything not
     named stays as it was, and a command that could not do what it was told does not report success.""",
     ["trees", "command sequences", "answers"], """all trees with links and read-only parts, all spellings of paths,
     wildcards, switches and answers; outcomes that depend on the order of a directory are excluded""",
     "The tests delete one file or directory; links, attributes, recursion and refusals are not tried.",
     ["pbat/command/pBat_Del.c", "pbat/command/pBat_Rmdir.c", "pbat/command/pBat_Mkdir.c", "pbat/core/pBat_Ask.c",
      "libpbat/dir/pBat_Dir.c", "libpbat/dir/pBat_Attr.c", "libpbat/dir/pBat_UnicodeDir.c"],
     [("deleting", "pBat_CmdDel, pBat_CmdDelFile"), ("removing directories", "pBat_CmdRmdir, pBat_Rmdir"),
      ("searching", "pBat_GetMatch")],
     ["type, content, permission and target of every node inside and outside the tree after every command", "error level"],
     "state monitoring: the whole tree, and one that only links lead to, is compared with a model after every command",
     "exploration", "Runs as an unprivileged user below a scratch directory. Wildcards in RD are outside the domain.")

prop("P15", "DIR lists exactly the files its path, wildcards and attributes select",
     """DIR lists every file and directory the given path, expression and attributes select, each exactly once for every
     way the expression leads to it, and nothing else: * accepts any sequence and ? any character, each part of a path
     is matched against the names of its own directory and never against . or .., case is ignored, /S looks into every directory below but
     never through a link, and /A selects by directory, read-only and empty as documented. The type, size, date and totals shown are those of the
     files, and names are relative or absolute as the path given was.""",
     ["trees", "inputs"], "all trees, paths, wildcard expressions, attributes and switches",
     "No test lists a directory.",
     ["pbat/command/pBat_Dir.c", "libpbat/dir/pBat_Dir.c", "libpbat/dir/pBat_Attr.c", "libpbat/dir/pBat_UnicodeDir.c"],
     [("searching", "pBat_GetMatch"), ("expressions", "pBat_RegExpCaseMatch"), ("attributes", "pBat_CheckFileAttributes")],
     ["output of DIR, with and without /B"],
     "differential monitoring against a model of the tree and of the selection rules",
     "exploration", "Order is not specified and not compared. Expressions whose meaning depends on backtracking are left out.")

prop("P16", "FIND, MORE, TYPE, WC and XARGS give exactly what their input determines",
     """FIND shows (or numbers, or counts) exactly the lines that contain the string, or match the expression, or do not,
     and tells by its status whether there were any. WC gives the true numbers of lines, words, bytes and characters of each input and in
     total. TYPE reproduces its input byte for byte, naming the files on the error output if there are several. MORE passes everything on in rows
     of 79 columns, losing and breaking no character, with tabs expanded and blank lines squeezed as told. XARGS runs its command with
     exactly the lines of its input as arguments, whatever characters they hold. All of them read the files given, each in turn, or else
     all that is left on the standard input.""",
     ["inputs"], "all contents without NUL and CR, all switches, all ways of giving the input",
     "The tests use none of these commands but for displaying one line.",
     ["pbat/command/pBat_Find.c", "pbat/command/pBat_More.c", "pbat/command/pBat_Type.c", "pbat/command/pBat_Wc.c",
      "pbat/command/pBat_Xargs.c", "libpbat/dir/pBat_Dir.c", "libpbat/estr/pBat_Estr.c"],
     [("searching lines", "pBat_FileFind"), ("rows", "pBat_MoreWriteLine"), ("counting", "pBat_FileCounts"), ("arguments", "pBat_CmdXargs")],
     ["standard output and error output", "error level", "arguments an external program receives"],
     "differential monitoring against executable reference models",
     "exploration", "Every output is compared in full. MORE's dialogue with a terminal is not part of it.")

prop("P17", "DUMP shows every element of its input with its value and address",
     """Whatever the bytes of its input (a file or the standard input, pipes included) and the type asked for, DUMP shows every element
     exactly once and in order: its value in the type (signed and unsigned, 8 to 64 bits, floating numbers with all their digits, or
     hexadecimal), in columns of one width, with the address of the row and the characters of the bytes as asked; a row never shows bytes
     that the input does not have, and the dump ends with the input.""",
     ["inputs"], "all contents, types, displays and sources",
     "The tests do not run DUMP.",
     ["dump/dump.c"],
     [("types and columns", "fill_context, print_element"), ("reading", "read_buffer, dump_fd"), ("arguments", "main")],
     ["standard output", "error level", "end of the program"],
     "differential monitoring against an executable reference model, AddressSanitizer and UBSan",
     "exploration", "Files that grow meanwhile are outside.")

prop("P18", "TEA converts each document whole: every block, word, emphasis and link, once",
     """Whatever a document of the syntax of TEA holds, the text, the plain text, the ANSI text, the Markdown and the HTML made of it have
     the same blocks in the same order (titles, paragraphs, items of nested lists with and without mark, code), and each block has exactly
     its words, with what is emphasised and what is linked (and whereto) told as the format does, comments left out and escaped characters
     standing for themselves; characters that mean something to the format are shown as they are in HTML and Markdown, and tags are nested
     well. Text is at most 79 columns wide, with the margins of its level; words are only broken when longer than a line, and lines of code stay as they
     are as long as they fit. For any bytes, TEA ends, in bounds, and says so when it refuses them.""",
     ["inputs"], "all documents, formats, encodings and options",
     "The tests do not run TEA; the manual and the help shipped are made by it.",
     ["tea/src/Tea_Load.c", "tea/src/Tea_Node.c", "tea/src/Tea_Output.c", "tea/src/tea.c", "tea/src/out/tea_text_out.c", "tea/src/out/tea_html_out.c",
      "tea/src/out/tea_md_out.c", "tea/src/out/tea_ansi_out.c"],
     [("parsing", "Tea_ParseStringBlock, Tea_ParseStringNode"), ("layout", "Tea_TextOutputParagraph, Tea_OutputLineT"),
      ("HTML", "Tea_HtmlOutputHandler"), ("Markdown", "Tea_MDEscape")],
     ["output file", "error output", "error level", "end of the program"],
     "differential monitoring against an independent reader of the syntax and readers of each format, AddressSanitizer and UBSan",
     "exploration", "Backslashes within code and braces unbalanced in it are outside, as are quotes in the targets of links.")

prop("P20", "A script does what its statements say, however its text is laid out and read",
     """The effect of a script does not depend on its layout: on the length of its lines (shorter, longer or exactly as long as any buffer), on
     blanks before statements, on ends of lines (LF, CRLF, none at the last line), on blocks being written on one line or several, on
     comments, empty lines and an interpreter line between statements, nor on being read from a file, from the standard input at any pace, or
     by the line-wise reader of CMDLYCORRECT. Labels are found from everywhere wherever they are.""",
     ["inputs"], "all programs of the grammar in all layouts, sizes and ways of reading",
     "The tests' scripts are of a few short lines, in one layout.",
     ["pbat/core/pBat_Read.c", "pbat/core/pBat_Args.c", "pbat/core/pBat_Run.c", "pbat/core/pBat_Jump.c", "pbat/core/pBat_ReadScript.c"],
     [("reading lines", "pBat_GetLine, pBat_GetLine_Cmdly"), ("labels", "pBat_JumpToLabel"), ("blocks", "pBat_RunBlock")],
     ["standard output", "error output", "status"],
     "metamorphic monitoring: random programs with known output, in random layouts",
     "exploration", "Scripts read from the standard input have no GOTO nor CALL of labels.")

prop("P21", "CD, PUSHD and POPD move the one current directory everything works in",
     """The current directory is always an existing directory. CD goes where its argument says, relative or absolute, through `.`, `..`, links and
     repeated separators, or reports and stays; PUSHD and POPD go there and back in the order of a stack, CD and `!cd!` name
     the directory, SETLOCAL does not change it, each side of a pipe has one of its own, and names of files
     in redirections, IF EXIST, FOR and in programs started are looked up in it from then on.""",
     ["inputs", "histories"], "all trees and histories of changes, in scripts, blocks, pipes and subroutines",
     "The tests never change the directory.",
     ["pbat/command/pBat_Cd.c", "pbat/command/pBat_Pushd.c", "pbat/core/pBat_DirStack.c", "pbat/core/pBat_Clone.c"],
     [("changing", "pBat_SetCurrentDir"), ("stack", "pBat_CmdPushd"), ("threads", "pBat_CloneInstance")],
     ["standard output", "directory of started programs", "files opened by redirections"],
     "history monitoring against a model of the tree, its links and the stack",
     "exploration", "Directories removed while current and permissions are outside.")

prop("P22", "DEF makes procedures: named, given arguments, redefined, with own variables",
     """A name defined by DEF runs its commands from then on, whatever other names begin alike; other names, internal commands included, are
     found as before. Without /F nothing that exists is redefined. Inside the procedure `$1` to `$9` are the parameters it was called with
     and `$*` their text, substituted once and only where the definition says so. Variables whose name begins by `_` have inside each procedure their own value,
     initially the caller's, which is forgotten when it ends unless it was set by SET /X; all other variables are common. This
     holds for procedures calling procedures, inside blocks, loops, pipes, subroutines and SETLOCAL.""",
     ["inputs", "histories"], "all sets of definitions, arguments and nestings of calls",
     "The tests do not use DEF.",
     ["pbat/command/pBat_Def.c", "pbat/core/pBat_ExpandDef.c", "libpbat/cmdlist/pBat_CmdList.c", "pbat/core/pBat_Env.c", "pbat/command/pBat_Set.c"],
     [("table of commands", "pBat_AddCommandDynamic"), ("parameters", "pBat_ExpandDef"), ("local variables", "pBat_PushEnvLocals, pBat_PopEnvLocals")],
     ["standard output", "environment of started programs", "listings of SET and DEF /L"],
     "history monitoring against an interpreter of the manual's semantics",
     "exploration", "Procedures that call themselves are outside, as nothing bounds them.")

prop("P25", "What a script repeats accumulates no memory, files, threads or processes",
     """A script that repeats its statements for ever (by GOTO, CALL, FOR or from standard input) needs no more memory, open files, threads,
     stack and child processes for the thousandth time than for the hundredth, whatever the statements are, whether they succeed or fail, have syntax
     errors, are left early by GOTO, EXIT /B or the end of a reader, or are nested in blocks, redirections and pipes; unless what they do is to hold more (set more variables,
     push more directories, open more SETLOCAL).""",
     ["inputs", "histories"], "all statements, nestings and ways of repeating",
     "A leak is invisible to tests that run each statement a few times.",
     ["pbat/core/pBat_Run.c", "pbat/core/pBat_Parse.c", "pbat/core/pBat_EsCache.c", "pbat/core/pBat_Clone.c", "pbat/core/pBat_Stream.c", "pbat/command/pBat_For.c",
      "pbat/command/pBat_Call.c"],
     [("loops", "pBat_RunBatch"), ("lines", "pBat_FreeParsedLine"), ("strings", "pBat_EsFree_Cached"), ("clones", "pBat_CloneInstance")],
     ["allocations of the process", "/proc"],
     "resource monitoring: counting allocator and /proc sampled along the history",
     "exploration", "Growth is judged in two consecutive halves and has to be confirmed twice. EXIT in a pipe is a known finding.")

prop("P27", "The parts of paths that %~ gives are right and name the same file",
     """`%~fI`, `%~dI`, `%~pI`, `%~nI`, `%~xI`, their combinations with `z`, `t`, `a`, the search by `$PATH:` and the same on script arguments and
     variables give the parts of the value's full path: put together they name the same file again, whatever dots, blanks, links, `..`, trailing separators
     or multi-byte characters the value has; size, time and attributes are those of the file, and the search finds the first directory of the list that
     holds the name. Quotes around the value are removed, and nothing else is changed.""",
     ["inputs"], "all names, trees, combinations of options and kinds of variables",
     "The tests do not use these.",
     ["pbat/core/pBat_Expand.c", "pbat/core/pBat_SplitPath.c", "pbat/core/pBat_Var.c"],
     [("options", "pBat_GetLocalVar"), ("splitting", "pBat_SplitPath"), ("full path", "pBat_FullPathDup")],
     ["standard output"],
     "differential monitoring against the file system and a reference model",
     "exploration", "The blanks between combined parts are the implementation's.")

prop("P28", "The line edited at the terminal is the one read, and the one shown",
     """When a line is typed at a terminal (at the prompt, in a block, or for SET /P), the keys have the meaning of their names: characters are inserted at the cursor,
     left, right, home and end, backspace, delete, Ctrl-K, -U, -W and -T, up and down for the lines typed before, and Tab, which completes names of files by what all that
     begin so have in common, or lists them. They work on whole characters, whatever their number of bytes, marks and columns, up to the length a line can have.
     What the terminal shows after each key is the line with the cursor at its place, whatever the width of the terminal, and what is run or assigned
     is exactly that line. Programs find the terminal as it was, and so does who started the interpreter.""",
     ["inputs", "histories"], "all sequences of keys, texts, histories, files to complete and widths of the terminal",
     "The tests never use a terminal; every sequence of keys is another state of the line, the history and the screen.",
     ["pbat/linenoise/linenoise.c", "pbat/linenoise/utf8.c", "pbat/linenoise/pBat_LineNoise.c", "pbat/core/pBat_Completion.c", "pbat/core/pBat_Read.c"],
     [("keys", "linenoiseEdit"), ("screen", "refreshMultiLine"), ("characters", "linenoiseUtf8NextCharLen"), ("history", "linenoiseHistoryAdd"), ("completion", "pBat_CompletionHandler")],
     ["what a pseudo-terminal shows", "variables set by SET /P", "output of the commands typed"],
     "online monitoring of a terminal's screen against a model of the editor, AddressSanitizer on a part",
     "exploration", "Ctrl-C, invalid UTF-8 in names, and keys typed while nothing is asked are outside.")
