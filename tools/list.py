SUP = ["analyze_oss_124_directives.gen.go", "analyze_oss_126_directives.gen.go", "analyze_oss_latest_directives.gen.go", "analyze_nplus_R*_directives.gen.go", "analyze_nplus_latest_directives.gen.go",
       "analyze_appProtectWAFv4_directives.gen.go", "analyze_appProtectWAFv5_directives.gen.go", "analyze_geoip2_directives.gen.go", "analyze_headersMore_directives.gen.go", "analyze_lua_directives.gen.go",
       "analyze_njs_directives.gen.go", "analyze_otel_directives.gen.go"]

prop("T01", "Each match function answers from its own directive table",
 "For every NGINX version or module that the library supports, the match function answers for every directive name from the directives of that version or module and of no other, and says that a directive is known only if it has at least one usage bitmask, none of which is zero. "
 "The answers do not change while a program runs. The default match function knows exactly the union of the latest NGINX Plus, njs and OpenTelemetry directives.",
 "inputs configurations histories", "every directive name, every match function, at any time of a run",
 "Tests look up a handful of directives in some of the 19 match functions; a match function wired to a neighbouring version or a table that is written after start-up gives the same answers for those.",
 ["analyze.go"] + SUP, [("Match* functions", "*_directives.gen.go"), ("DefaultDirectivesMatchFunc, unionBitmaskMaps", "analyze.go")],
 "SSA def-use query over match functions, constant evaluation of the tables, who-may-write query",
 "Exact for the match functions and tables of the source: every lookup is resolved to one table, every table is evaluated, every write to a table outside initialisation is reported. Trusts go/types and go/ssa.")

prop("T02", "Directive tables agree with the generator's configuration",
 "A directive that the generator is told to leave out of a support file is not known to the match function of that file, and a directive whose bitmasks the generator is told to override has exactly the configured bitmasks there.",
 "inputs configurations", "every filter and override entry of every generator configuration in scripts/generate/configs",
 "No test compares the checked-in tables with the configurations they are generated from.",
 ["scripts/generate/configs/*.json"] + SUP, [("filter and override entries", "scripts/generate/configs"), ("directive tables", "*_directives.gen.go")],
 "constant evaluation of the tables, cross-checked with the generator configurations",
 "Exact comparison of every filter and override entry with the evaluated table of the match function the configuration names.")

prop("T03", "Directive contexts and argument counts stay as NGINX declares them",
 "For every supported NGINX version and module, the set of known directives and, for each of them, the contexts in which it is allowed, whether it is a block, and the argument counts and kinds it takes are those declared by the sources of that release.",
 "inputs configurations", "every one of the 7587 directive entries of the 18 tables, each with every bitmask",
 "Tests exercise a few dozen of 7587 entries; one changed bit makes valid configurations fail or invalid ones pass.",
 ["analyze.go"] + SUP, [("directive tables", "*_directives.gen.go"), ("bitmask constants", "analyze.go")],
 "constant evaluation of the tables, compared entry by entry with a reference",
 "The NGINX sources are not available here; the reference is the set of tables at the pinned commit, decoded to contexts, block/flag and argument counts, so renumbered constants, reordered masks or renamed tables are not reported. A deliberate update of a table needs a new reference (bin/checker -gen-ref).")

LEX = ["lex.go", "util.go"]
LTECH = "abstract interpretation (path-sensitive fixpoint over SSA) of the lexer goroutine in product with a reference transducer (property simulation)"
LNOTE = ("Covers every input: characters are abstracted to the constants the source compares with, any other space and any other character; token text to its last character where that is asked for, with equality to the reference kept; lines up to equality; brace depth as 0, 1 or more. "
         "The reference transducer is the statement; bufio.Scanner, strings and fmt are modelled, not analysed. External lexers behind the Lexer interface are assumed to follow its contract (read through the scanner, close their channel).")

prop("L01", "The lexer yields exactly the tokens that the lexical rules define",
 "Lexing splits any input into exactly these tokens, in order, and sends nothing else on the channel before its first error: words, which white space ends; `{`, `}` and `;`, which end a word and are tokens themselves; comments, which start with `#` where a word may start and run to the end of the line; and quoted strings, which start where a word may start, run to the same quote and are sent without quotes, with IsQuoted set exactly for them. "
 "A backslash makes the next character ordinary: both are kept, except that in a quoted string an escaped quote of that string loses its backslash. Quotes inside a word are ordinary; `${` is part of a word and so are the characters up to the next `}` or white space; carriage returns are dropped. What is left when the input ends is sent as the last token.",
 "inputs", "every input of characters, of any length and nesting",
 "Tests lex a few dozen files; tokens are assembled by an interplay of eight flags, so that most combinations of escapes, quotes, variables, comments and separators are never tried.",
 LEX, [("tokenize: the state machine over lexState, token, esc, quote and readNext", "lex.go")], LTECH, LNOTE)

prop("L02", "Tokens and lexical errors carry their line",
 "Every token that the lexer sends carries the number of the line on which it starts (for a quoted string, the line of its opening quote), and every syntax error that the lexer reports carries the number of the line of the character at which it is found, counting from 1 and counting every newline before it, including newlines in quoted strings, comments, after a backslash and in text read by an external lexer, which starts with the current line.",
 "inputs", "every input of characters, of any length",
 "Line numbers are updated in a variable that is captured by several closures and external lexers; tests check them for short inputs only.",
 LEX, [("tokenize: tokenLine and tokenStartLine", "lex.go"), ("SubScanner.Line", "lex.go")], LTECH, LNOTE)

prop("L03", "Misused braces and separators, and nothing else, yield a final error token",
 "The lexer sends an error token, with a ParseError that has a file, a message and a line, exactly when a `}` closes nothing, when a `{` or `;` has nothing before it (it is the first token or follows another `{`, `}` or `;` with only white space or comments between), or when the input ends with an open block. The error is the last token; the token being read before it is sent first. Valid input never yields an error token.",
 "inputs", "every input of characters, of any length and nesting depth",
 "Depth is unbounded; tests try unbalanced braces at depth one or two.",
 LEX, [("tokenize: depth and dupSpecialChar", "lex.go")], LTECH, LNOTE)

prop("L04", "A token stream is always finished and closed exactly once, without a panic",
 "Every call of LexWithOptions starts exactly one goroutine and returns the channel that it sends on. For any input and any outcome of reading it, the goroutine never sends on or closes a closed channel, does not panic with an index or a slice out of range, and closes the channel exactly once, after the last token and not while input is unread unless an error was sent.",
 "inputs schedules fault_sequences", "every input, every point at which it ends or reading it fails",
 "Tests that range over the channel see only the ends that their inputs reach.",
 LEX, [("LexWithOptions", "lex.go"), ("tokenize: close(tokenCh)", "lex.go")], LTECH, LNOTE)

prop("L05", "A failure to read the input is reported",
 "If the reader fails, or a scanner error occurs, at any point of the input, the lexer first sends the token that was being read and then, as the last token, an error that wraps the error of the reader; it is never taken for the end of the input.",
 "inputs fault_sequences", "every input and every point at which reading fails",
 "No test uses a reader that fails.",
 LEX, [("tokenize: scanner.Err after the loop", "lex.go")], LTECH, LNOTE)

prop("L06", "External lexers are used exactly for the directives they are registered for",
 "When a word or quoted string that may be the name of a directive (no other token precedes it since the last `{`, `}`, `;` or newline, also a newline that completes it, and it is not built with `${`) is complete, the external lexer registered for exactly that name, if there is one, is called once, after the name was sent, with that name and with the scanner and line of the lexer. Every token that it sends is forwarded as it is, in order, and lexing goes on where it stopped reading. Without a registration for the name no external lexer is called.",
 "inputs configurations", "every input and every set of registered names",
 "Tests register one lexer (Lua) and use it in a few positions.",
 LEX + ["lua.go"], [("tokenize: options.extLexers", "lex.go"), ("SubScanner", "lex.go")], LTECH, LNOTE)

PAR = ["parse.go"]
PTECH = "abstract interpretation (path-sensitive fixpoint over SSA) of the recursive parser in product with a reference parser (property simulation), modular over recursion"
PNOTE = ("Covers every token stream that the lexer can send, of any length and nesting: a recursive call is replaced by the contract of the reference parser for a block, and every function that reads tokens is shown to meet that contract; option values, file lists and the results of Open and Glob are arbitrary. "
         "The order and lines of tokens come from L01 to L03, the verdict on a statement from A01 to A03; path/filepath, strings, sort and fmt are modelled, not analysed.")

prop("P01", "Blocks nest in the payload exactly as their braces do",
 "When parsing a file ends without an error, the directives of the payload nest exactly as the braces of the file: the Block of a directive that is followed by `{` holds, in order, exactly the directives and kept comments up to the matching `}` (it is non-nil, also when empty), and no other directive has a Block; a statement that a `}` ends is the last of its block. A directive that is left out (ignored, or in error while parsing goes on) is left out together with its whole block and nothing else. Parsing never reads tokens past the `}` of a block into that block, nor stops before it.",
 "inputs configurations", "every token stream of the lexer, any nesting depth, every combination of parse options",
 "Nesting is the meaning of a configuration; tests cover a few shapes of blocks and hardly any in which a skipped statement, a missing semicolon and a closing brace meet.",
 PAR, [("parser.parse and parser.skip", "parse.go")], PTECH, PNOTE)

prop("P02", "The parser neither loses nor invents errors",
 "While a file is parsed, an error token of the lexer at any place (also among arguments and inside a block that is skipped), a file that ends within a statement, an error of the analysis of a statement, and an include whose file cannot be opened or whose pattern is invalid each either end the parsing of the file with an error or are passed to handleError for the config that is parsed, exactly once and as they were found (a statement cut off by an error or by the end of the file may be reported as ErrPrematureLexEnd). Nothing else ends the parsing with an error or is reported, except an include without arguments.",
 "inputs fault_sequences configurations", "every token stream, every outcome of the analysis, of Open and of Glob, at every nesting depth",
 "An error that is dropped makes a broken configuration look valid; tests check that some errors are reported, not that none is lost.",
 PAR, [("parser.parse, parser.skip, lexError", "parse.go")], PTECH, PNOTE)

prop("P03", "StopParsingOnError decides whether an error in a statement ends the parsing",
 "An error in the analysis of a statement (including a parameter of a map-like block) or in opening a file that is included by its name ends the parsing of the file if StopParsingOnError is set, and is reported and parsing goes on with the next statement if it is not.",
 "inputs configurations", "every token stream and every outcome of the analysis and of Open",
 "The option is tested for a few kinds of errors; it is consulted at several places.",
 PAR, [("parser.parse: StopParsingOnError", "parse.go")], PTECH, PNOTE)

prop("P04", "With ParseComments every comment of a parsed block is kept as it was written",
 "With ParseComments, each comment between the statements of a block that is not left out becomes a directive named `#` at its place, with its text after the `#`, its line, no arguments and no Block; comments among the arguments of a statement that is kept follow that statement, in order, with the line of the statement. Without ParseComments no comment is in the payload.",
 "inputs configurations", "every token stream, with and without ParseComments",
 "Tests have comments in a handful of places.",
 PAR, [("parser.parse: comments and commentsInArgs", "parse.go")], PTECH, PNOTE)

prop("P05", "IgnoreDirectives leaves out exactly the directives that it names",
 "A directive outside map-like blocks whose name is one of IgnoreDirectives is left out of the payload together with its block, is not analysed and yields no error; every other statement is analysed, once, before it is added to the payload. Parameters of map-like blocks are not affected by IgnoreDirectives.",
 "inputs configurations", "every token stream and every list of ignored directives",
 "Tests ignore one or two directives in small files.",
 PAR, [("parser.parse: IgnoreDirectives", "parse.go")], PTECH, PNOTE)

prop("P06", "Includes are expanded through the Open and Glob options, and not with SingleFile",
 "While a file is parsed, files are accessed only for an include directive that the analysis accepted and that is not ignored, and never with SingleFile. They are accessed with the Open and Glob functions of the options if these are set (Glob expands a path that has one of the characters `*`, `?` and `[`, Open opens any other) and with os.Open or filepath.Glob only if they are not; the path is the first argument if it is absolute, and otherwise that argument joined to the directory of the main file.",
 "inputs configurations", "every token stream and option",
 "Users who parse from an archive or a sandbox rely on no access going around their functions; tests cover one such access each.",
 PAR, [("parser.parse: include", "parse.go"), ("parser.openFile", "parse.go")], PTECH, PNOTE)

prop("P07", "Included files are numbered and queued once and listed by their includes",
 "For an include directive that is expanded, the Includes of the directive are, in order, the numbers of its files: the file that it names or the files that match its pattern, sorted (and of no file if that could not be opened). A file that is included for the first time is given the number of files known so far and is queued, once, with the context of that include; a file that is known already is not queued again. Each of the files is also recorded once as included by the file that is parsed, for the detection of cycles. No other directive has Includes.",
 "inputs configurations", "every token stream, every list of matching files of any length, every state of the parser",
 "The numbers are indexes into the configs of the payload; an inconsistency shows only when files are included several times or from several places.",
 PAR, [("parser.parse: included, includes, includeEdges, includeInDegree", "parse.go")], PTECH, PNOTE)

prop("P08", "Each statement is analysed in the context of the blocks around it",
 "A statement in a block is analysed exactly once, with its own name, arguments and terminator, the options of the parser and the names of the enclosing blocks from the outside in, where the context of a location block anywhere in an http block is just http and location; in a map-like block (a block whose context ends in a name that the table of map-like blocks has) it is checked as a parameter of that block instead, gets IsMapBlockParameter and is otherwise treated as it was read. IsMapBlockParameter is set on no other directive. An included file is parsed in the context of its first include.",
 "inputs configurations", "every token stream and context, at any nesting depth",
 "Whether a directive is allowed depends on the blocks around it; tests nest a few levels.",
 ["parse.go", "analyze.go"], [("parser.parse: ctx", "parse.go"), ("enterBlockCtx", "analyze.go")], PTECH, PNOTE)

prop("P09", "Directives have the name, line, arguments and file that were read",
 "Every directive of the payload has the name and the line of the token that started its statement; its Args are, in order, the values of exactly the words and quoted strings up to its terminator (also of quoted strings that start with `#`), and non-nil (only the arguments of `if` may be rewritten, after the analysis); its File is the file that is parsed if CombineConfigs is set and empty otherwise; only comments have a Comment.",
 "inputs configurations", "every token stream, any number of arguments, every option",
 "Tests compare whole payloads of some files; a field that is wrong for an unusual kind of statement is not seen.",
 PAR, [("parser.parse: stmt", "parse.go")], PTECH, PNOTE)

prop("P12", "Parse errors name the file, line and block they occurred in",
 "Every error with which the parser itself ends or reports (a file that ends within a statement, an error token of the lexer, an include that has no argument or cannot be opened) is a ParseError with the file that is parsed, the line of the statement (for an error token its own line) and, outside blocks that are left out, the innermost block around it, or `main`; an error for an include has the statement, an unexpected end wraps ErrPrematureLexEnd, and an error of the lexer that is not a ParseError is wrapped. The analysis of a statement is given the same file and line.",
 "inputs fault_sequences configurations", "every token stream and every fault, in every context",
 "Tests check the position of a few errors.",
 PAR, [("parser.parse and lexError: ParseError literals", "parse.go")], PTECH, PNOTE)

prop("P13", "The parentheses of an if are removed from its arguments, and only they",
 "The arguments of an `if`, once it was analysed, lose the one `(` that the first starts with and the one `)` that the last ends with, if both are there, and the white space next to them; an argument that becomes empty is left out. Every `if` that the payload keeps is treated so exactly once, whatever its context and its arguments (none, one, or any number); arguments of an `if` without both parentheses, and those of any other directive, stay as they were read, and nothing else of the directive changes.",
 "inputs configurations", "every list of arguments of any length and content, every context and option",
 "Args of an `if` are the condition that users of the payload evaluate, and Build puts the parentheses back; tests have a few conditions.",
 PAR+["util.go"], [("prepareIfArgs","util.go"),("parser.parse: prepare arguments","parse.go")], PTECH, "The function is explored on its own for arguments of any number and content; its calls are followed in the exploration of the parser.")

ATECH="abstract interpretation (path-sensitive fixpoint over SSA) of the analysis in product with a reference (property simulation)"
ANOTE="Bitmasks, sources, arguments, contexts and options are unconstrained; match functions are assumed to return a bitmask for a directive that they know. The reference is checked at every return; the wording of messages is not decided."

prop("A01", "A statement is accepted exactly if a bitmask that counts accepts it",
 "The analysis of a statement whose directive is known, in a known context, with no check skipped, yields no error exactly if one of the bitmasks of the directive that allow the context accepts the statement. With SkipDirectiveContextCheck all bitmasks of the directive count. A bitmask accepts a statement if (1) for an expression bitmask, the arguments are in parentheses (the first starts with `(`, the last ends with `)`) and hold something besides them; (2) the statement ends with `{` for a block bitmask and with `;` for any other; (3) the number of arguments is one of 0 to 7 whose bit is set, or the bitmask allows any, one or more, or two or more and there are that many, or it is a flag bitmask and the only argument is `on` or `off` in any case.",
 "inputs configurations", "every list of bitmasks of any length, every list of arguments, terminator and option",
 "This is the validation of every directive of every configuration; tests take a few directives with a few bitmasks each, mostly in the order that works.",
 ["analyze.go","analyze_map.go","util.go"], [("analyze","analyze.go"),("validExpr, validFlag","util.go")], ATECH, ANOTE)

prop("A02", "A directive is in error exactly where none of its bitmasks allows the context",
 "In a known context and without SkipDirectiveContextCheck the analysis of a known directive yields an error if none of its bitmasks has the bit of the context (whatever its arguments are, and also with SkipDirectiveArgsCheck), and no error for that reason otherwise; in a context that is not known, and for a directive that no source knows, nothing is checked. The known contexts are exactly: the top level, events, mail, mail>server, stream, stream>server, stream>upstream, http, http>server, http>location, http>upstream, http>server>if, http>location>if, http>location>limit_except, http>oidc_provider and mgmt; each has a bit of its own, the one that its constant is named for.",
 "inputs configurations", "every context, every list of bitmasks and every option",
 "A directive that is accepted in the wrong place, or rejected in the right one, makes validation useless for it; tests sample a few pairs.",
 ["analyze.go"], [("analyze: contexts, currCtx","analyze.go")], ATECH+" and constant evaluation of the table of contexts", ANOTE)

prop("A03", "Parameters of map-like blocks are checked against the table of those blocks",
 "In a block that the table of map-like blocks has, a parameter is in error if it does not end with `;`, and otherwise exactly if its number of arguments does not suit the bitmask that the table has for a parameter of that name in this block or, if there is none, the default of the block; in other blocks it never is. The error is a ParseError with the file, line and statement of the parameter and the block. The table is: charset_map (1 argument), geo (1; ranges and proxy_recursive none), map (1; hostnames and volatile none), match and types (1 or more), split_clients (1), geoip2 (1 or more; auto_reload 1), otel_exporter (1).",
 "inputs configurations", "every block, parameter, terminator and list of arguments",
 "Tests have a few good and bad parameters per block.",
 ["analyze_map.go"], [("analyzeMapBody, mapBodies","analyze_map.go")], ATECH+" and constant evaluation of the table of map-like blocks", ANOTE)

prop("A04", "All directive sources are asked, and options decide what is checked",
 "The analysis of a statement asks each of the DirectiveSources, in order, once, with the name of the directive, and combines the bitmasks of all that know it; the default directives are used only if there are no sources. With ErrorOnUnknownDirectives a directive that no source knows is an error, in every context; without it, it is not. SkipDirectiveContextCheck turns off exactly the check of the context, SkipDirectiveArgsCheck exactly that of terminator and arguments.",
 "inputs configurations", "every list of sources of any length and every combination of options",
 "The options combine in many ways that tests do not.",
 ["analyze.go","types.go"], [("analyze: options","analyze.go")], ATECH, ANOTE)

prop("A05", "Errors of the analysis name the file, line, statement and block",
 "Every error of the analysis of a statement, or of a parameter of a map-like block, is a ParseError with a message, the file name that was given, the line of the statement, the text of the statement and the name of the innermost block around it, or `main`.",
 "inputs configurations", "every error of every statement in every context",
 "Users find the mistake by these fields; tests look at them for a few errors.",
 ["analyze.go"], [("analyze: ParseError literals","analyze.go"),("blockCtx.getLastBlock","analyze.go")], ATECH, ANOTE)

RTECH="abstract interpretation (path-sensitive fixpoint over SSA) of Parse in product with a reference (property simulation)"
RNOTE="Reading the tokens of one file is replaced by its contract (it may queue any files and report any errors), which the properties P01 to P12 decide; the lexer by its channel. Queues, payloads and lists of errors have any length."

prop("R01", "Every queued file is parsed once, in order, into the config with its number",
 "Parse opens with Open, or os.Open if that is not set, the main file first and then every file that was queued for an include, each once and in the order in which they were queued; it reads its tokens with the LexOptions, parses them in the context that it was queued with and with the options of the caller, and appends one config with that file name to the payload. So the config of the n-th queued file has the number n. The config has the directives that were parsed, or an empty non-nil list of directives if parsing the file ended with an error. Parsing starts with the directory of the main file as the base for relative includes and with only the main file known, as number 0. Parse returns without an error only after all files were parsed.",
 "inputs configurations histories", "every file name, every option, every number of files and includes",
 "Includes of directives are numbers of configs: one slip in the order mixes up whole files; tests have a few small trees of files.",
 PAR, [("Parse","parse.go")], RTECH, RNOTE)

prop("R02", "Every error is recorded once in its config and in the payload",
 "Every error that is reported while a file is parsed is appended once to the errors of its config and once to those of the payload, each with that very error and the line of it (if it is a ParseError; none otherwise), in the payload also with the file of the config and, if ErrorCallback is set, the result of calling it once with that error. The error that ends the parsing of a file is recorded in the same way unless StopParsingOnError is set, in which case Parse returns it. The status of a config is `failed` if an error was recorded for it and `ok` otherwise, and so is that of the payload.",
 "inputs fault_sequences configurations", "every error, for configs and payloads with and without errors before",
 "Users read these fields to see whether a configuration is valid; tests record few errors.",
 PAR, [("Parse: handleError","parse.go")], RTECH, RNOTE)

prop("R03", "Parse ends with an error exactly for a cause, and combines configs if asked",
 "Parse returns an error, and no payload, exactly if a file could not be opened when it was to be parsed, or the parsing of a file ended with an error and StopParsingOnError is set (in both cases it returns that error at once), or the includes of the files form a cycle (which is looked for once all files were parsed, with or without errors in them), or combining the configs ends with an error. Otherwise it returns the payload that holds the configs, or with CombineConfigs the combined one.",
 "inputs fault_sequences configurations", "every outcome of opening, parsing, cycle detection and combining, in every state",
 "A dropped error or a cycle that is let through makes callers loop or miss files.",
 PAR, [("Parse","parse.go")], RTECH, RNOTE)

prop("R04", "Parse closes the files that it opens and lets every lexer finish",
 "On every path through Parse, also if it ends with an error, each file that Parse opened to parse it is closed when it returns, and the tokens of each file were read to the end, so that no lexer goroutine is left waiting.",
 "inputs fault_sequences configurations", "every path through Parse, any number of files",
 "A leak shows only in long-running programs; tests leave at the end of the process.",
 PAR, [("Parse","parse.go")], RTECH, RNOTE)

BTECH="abstract interpretation (path-sensitive fixpoint over SSA) of the building of configs in product with a reference (property simulation)"
BNOTE="Enquote is an uninterpreted function of the argument here (B01 decides it); the text of a registered builder is any string; the function for blocks is explored for any depth, line and list and replaced by its contract where it is called."

prop("B02", "Build writes every statement in its place, with its indentation and end",
 "Build writes the header first if Header is set (lines of comments and empty lines) and then the statements of the config, without one newline that the last one may end with. For each statement in turn it writes: if it is a comment and its line is that of the statement before it or, at the start of a block, that of the statement of the block (statements of registered builders not counted, and 0 at the top of the file): ` #` and the comment. Otherwise a newline (except for the first statement of the file), the indentation, and then the text of the builder that is registered for it, or `#` and the comment, or the quoted directive, its quoted arguments each after one space (for `if`: after ` (`, with one space between them and `)` at the end), and `;` if its Block is nil, and else ` {`, the statements of the Block one level deeper, a newline, the indentation and `}`. The indentation of a level is one tab if Tabs is set, and otherwise Indent spaces, 4 if Indent is not positive; at any depth.",
 "inputs configurations", "every tree of directives of any depth and every combination of options",
 "Build must write what Parse has read for any configuration; tests build some small trees.",
 ["build.go","types.go"], [("Build, buildBlock, margin","build.go"),("Directive.IsBlock, IsComment","types.go")], BTECH, BNOTE)

prop("B03", "Errors of building end it at once, are returned, and leave no file open",
 "If a write, the making of a directory, the creation or the closing of a file, Build, or finding the working directory ends with an error, Build, BuildFiles and BuildInto write and create nothing after that and return that error (or that of closing the file). They return no error otherwise. Every file that they create is closed when they return.",
 "inputs fault_sequences", "every outcome of every call that can fail, with any number of configs",
 "A dropped error leaves a damaged configuration that looks good; tests have no failing writers.",
 ["build.go"], [("Build, BuildFiles, BuildInto","build.go")], BTECH, "Build is replaced by its contract in BuildFiles and BuildInto. Calls of package os that are not known are reported as undecided.")

prop("B04", "Each config is built into the file that it names, in order and once",
 "BuildFiles writes, for each config of the payload in order, exactly one file: at the File of the config if that is absolute, and else at File joined to the directory that was given (the working directory if that is empty); the directories of that file are made before; a file that is there is replaced; and it holds what Build writes for that config and the options, without whitespace at the end, and a newline. BuildInto creates, for each config in order, the File of the config with the Creator, builds that config into it with the options, once, and closes it.",
 "inputs configurations", "every payload, directory and set of options",
 "Tests build payloads of one or two configs with simple paths into empty directories.",
 ["build.go"], [("BuildFiles, BuildInto","build.go")], BTECH, "Build is replaced by its contract.")

prop("B05", "A directive is rendered by the builder that was last registered for it",
 "All Builders of the options are applied once, in order, before anything is rendered, and none of another call. A RegisterBuilder made by BuildWithBuilder registers its builder for each of its directives, in place of one registered for it before, and leaves the others. A statement whose directive has a builder is rendered by one call of that builder with that statement, and the text is written unchanged; other statements are rendered without any.",
 "inputs configurations", "every list of builders and directives and every statement",
 "Tests register one builder or two for different directives.",
 ["build.go"], [("BuildWithBuilder, applyBuildOptions, buildBlock","build.go")], BTECH, BNOTE)

KTECH="abstract interpretation (path-sensitive fixpoint over SSA) of the combination in product with a reference (property simulation)"
KNOTE="The goroutine that generates the directives and the one that receives them are each decided against the same contract of the channel; the includes of one directive and the recursion for nested lists are decided for lists of any length by a contract for the recursive call. Payloads whose includes refer to themselves, which Parse does not return, are not considered."

prop("K01", "A combined config has all statements, with those of its files for includes",
 "Combined returns a payload of one config whose File is that of the first config and whose statements are, in order, those of the first config, where an include with Includes is replaced, in order, by the statements of each config that it lists, expanded in the same way, at any depth, and where the Block of every other statement with a Block is expanded in the same way and stays non-nil. All other fields of the directives are unchanged. A number in Includes that no config has ends it with an error, which Combined returns. A payload without configs is returned as it is. The payload that it was called on, and its directives, are not changed.",
 "inputs schedules", "every payload that Parse may return, with any number of configs, statements, includes and nested blocks",
 "A statement that is lost or doubled, or a change of the payload itself, shows only for includes in particular places; tests combine two small payloads.",
 ["util.go"], [("Payload.Combined, combineConfigs, performIncludes","util.go")], KTECH, KNOTE)

prop("K02", "A combined payload keeps all errors and fails if any config failed",
 "The combined config has the errors of all configs of the payload, in the order of the configs and within each in order, and the status `failed` if one of them has it and `ok` otherwise; the combined payload has the errors of the payload and its status, or `ok` if that is empty. Combining a payload adds no error and drops none.",
 "inputs", "every payload with any number of configs and errors",
 "Tests combine payloads with one failed config.",
 ["util.go"], [("Payload.Combined, combineConfigs","util.go")], KTECH, KNOTE)

prop("P10", "Parse finds the include cycles, and only those",
 "Parse ends with an error because of a cycle exactly if, among the files that were parsed, some file includes itself, directly or through other files; a file that is included several times, or over several ways, is no cycle. This holds for any graph of files; the order in which the edges were added does not matter.",
 "inputs histories", "every graph of files",
 "Tests have one cycle and some trees; a diamond or a cycle behind a tree needs a count that is right for every reference.",
 PAR, [("isAcyclic","parse.go")], "abstract interpretation (path-sensitive fixpoint over SSA) of the search for cycles in product with the algorithm of Kahn", "Decides that the search is the algorithm of Kahn (every file without a referrer is removed, and each removal counts down the files it refers to); that this algorithm finds exactly the cycles is a theorem that is assumed. That the parser records and counts every reference once, for the file that it is in, is decided in the exploration of the parser.")

prop("L07", "Lua blocks are read as one argument that ends at the matching brace",
 "After one of the 16 directives that RegisterLexer of Lua is registered for (those of the nginx Lua module whose names end in `_by_lua_block`), its lexer reads from the next character on: for set_by_lua_block first the next run of characters that are no white space, up to a white space, as an unquoted token; then white space and `{`, or it yields one error with the line of the character that is neither; then all characters, unchanged, up to the `}` that matches that brace, as one quoted token, followed by an unquoted token `;`, both with the line of that brace. Braces from a quotation mark `\"` or `'` to the next one of the same kind do not count. Nothing is read after that, and no token is sent for a block that the input does not end. The channel is closed exactly once on every path.",
 "inputs", "every input, of any length and nesting",
 "Every character matters to Lua; tests have a few blocks without unusual strings or white space.",
 ["lua.go","lex.go"], [("Lua.Lex","lua.go"),("SubScanner","lex.go")], "abstract interpretation (path-sensitive fixpoint over SSA) of the Lua lexer in product with a reference transducer (property simulation)", "Assumes that the input reports no error together with the characters before it (Err after a successful Scan is nil). Lua's own rules for strings and comments are not those of this lexer; the property states what it does.")

prop("L08", "An external lexer is used for the directives it was last registered for",
 "LexWithOptions applies each of the Lexers of its options once, in order, before it starts to lex, and lexes with all that they registered and nothing else; the options of the caller are not changed. A RegisterLexer made by LexWithLexer registers its lexer for each of its directives, in place of one registered for it before, and leaves the others.",
 "inputs configurations", "every list of lexers and of directives",
 "Tests register one lexer.",
 ["lex.go"], [("LexWithOptions, LexWithLexer, registerLexer","lex.go")], "abstract interpretation (path-sensitive fixpoint over SSA) of the registration of lexers in product with a reference (property simulation)", "How a registered lexer is used is decided by L06.")

prop("L09", "An external lexer reads the characters and lines of the input",
 "SubScanner.Scan reads exactly the next character of the input and returns true, or returns false at the end of the input or after an error of the reader; Text is the character that was read last; Line is the line that the SubScanner was given plus the number of newlines read through it; Err is the error of the reader, or nil. Text, Line and Err read nothing and change nothing.",
 "inputs histories", "every input and every sequence of calls by an external lexer",
 "An external lexer may call these methods in any order on any input; tests have the Lua lexer on a few blocks.",
 ["lex.go"], [("SubScanner","lex.go")], "abstract interpretation (path-sensitive fixpoint over SSA) of the methods of SubScanner, called in any order, in product with a reference (property simulation)", "Assumes that bufio.Scanner with bufio.ScanRunes yields the characters of the input one by one.")

prop("B06", "Lua directives are rendered with their block as it was read",
 "The builder of Lua is registered for the same 16 directives as its lexer. It renders set_by_lua_block with two or more arguments as the name, a space, the first argument, ` {`, the second argument and `}`, any other directive with one or more as the name, ` {`, the first argument and `}`, all unchanged and without quotes, and a directive with fewer arguments as its name.",
 "inputs", "every directive with any arguments",
 "What is built must be the Lua code that was parsed, whatever its characters are; tests build two blocks.",
 ["lua.go"], [("Lua.Build, Lua.RegisterBuilder","lua.go")], "abstract interpretation (path-sensitive fixpoint over SSA) of the rendering of Lua directives in product with a reference (property simulation)", "fmt.Sprintf with %s is taken to insert its argument unchanged.")

prop("X01", "No input makes the library panic",
 "Parse, Lex, LexWithOptions, Build, BuildFiles, Combined, Enquote, the Lua lexer and builder and every other function of the library end without an index or slice out of range, a nil dereference, a write to a nil map, a failed type assertion, a division by zero, a negative repeat count or a send on a closed channel, for every input, every payload without nil statements, every option and every behaviour of the files, readers, writers and callbacks they are given (which are assumed not to panic themselves).",
 "inputs configurations fault_sequences", "every path through every function of the library, at every operation that may panic",
 "A panic takes down the program that embeds the library, in the lexer's goroutine even without a chance to recover; unusual inputs reach such operations, tests hardly do.",
 ["analyze.go","analyze_map.go","build.go","lex.go","lua.go","parse.go","types.go","util.go","errors.go"], [("every function","parse.go"),("buildBlock, Enquote","build.go"),("analyze, enterBlockCtx","analyze.go")],
 "abstract interpretation (path-sensitive fixpoint over SSA) with an obligation at every operation that may panic",
 "Functions that the explorations of the other properties enter are judged there, in the contexts in which they are called; every other function is explored on its own for all arguments. Assumed: options and receivers are not nil, lists of statements hold no nil, errors are not nil pointers, memory and stacks suffice.")
prop("X02", "Calls leave what they were given, and the state of the package, alone",
 "No function of the library writes to the options, the payload, the configs, statements or argument lists that it was given, nor to the masks that a directive source returned, nor to package-level variables (except functions such as SetTokenChanCap that are made to set one). So options and payloads can be reused and shared by concurrent calls, and what a call does never depends on the calls before it.",
 "histories schedules inputs", "every write on every path of every function of the library",
 "Tests use fresh options and payloads, once; an in-place filter, sort or append shows up only in a later or a concurrent call with the same memory, as a wrong verdict or a data race.",
 ["analyze.go","analyze_map.go","build.go","lex.go","lua.go","parse.go","types.go","util.go"], [("Parse","parse.go"),("Build, BuildFiles, BuildInto","build.go"),("analyze","analyze.go"),("combineConfigs","util.go")],
 "abstract interpretation with an effect check at every write (origin of the written memory); origin analysis of slices and variables over SSA",
 "Not covered: the list that Glob returned, which Parse sorts, and the file and context that Parse sets in an error of an external lexer. Where the origin of memory is unknown only the lints over SSA decide.")
prop("X03", "Results depend on the input only",
 "What Parse, Lex, Build, BuildFiles, Combined and the other functions return, write and report, and in which order, is a function of their arguments and of what files and callbacks give them: it does not depend on the iteration order of maps, on the schedule of the library's goroutines, on time, random numbers or the environment.",
 "schedules histories inputs", "every map iteration, channel, select and external call of the library",
 "Two runs of a test rarely differ: a dependence on map order or on the schedule needs several elements and luck to show up, then it is a flaky payload in production.",
 ["analyze.go","build.go","lex.go","lua.go","parse.go","types.go","util.go"], [("isAcyclic, includes","parse.go"),("performIncludes","util.go"),("LexWithOptions","lex.go"),("unionBitmaskMaps","analyze.go")],
 "effect and dependence analysis over the SSA of every function",
 "The working directory, which BuildFiles uses for an empty dir, counts as input. That the detection of cycles does not depend on the order of its queue is P10.")
prop("X04", "Goroutines of the library do not race",
 "No variable that a goroutine of the library uses is written by another one at the same time, and nothing that was sent on a channel is written by its sender afterwards: goroutines share nothing but channels and what nobody writes any more.",
 "schedules", "every go statement and every send of the library",
 "A data race needs a particular interleaving; the race detector only judges the ones that the tests happen to run.",
 ["lex.go","lua.go","parse.go","util.go"], [("LexWithOptions, tokenize","lex.go"),("performIncludes","util.go"),("Lua.Lex","lua.go")],
 "escape and happens-before analysis over SSA",
 "Memory that is reached through pointers of the arguments is covered by X02 (nobody writes it) only.")

prop("B01","An argument is read back as what it was when it was built",
 "Build writes an argument without quotes only if the lexer reads this text, wherever it stands between white space and a separator, as one unquoted word that is equal to the argument; it does so for every non-empty argument that is made of ordinary characters only (no white space, separators, quotes, backslash, `$` or `#`). "
 "Any other text is written in quotes of one kind, such that the lexer reads exactly this argument from it, if the argument has no control characters and no backslash that stands before a quote, another backslash or the end. (Arguments with a carriage return, which the lexer drops, are not considered.)",
 "inputs programs", "every argument of any length; every directive name, which is quoted in the same way",
 "The decision depends on every character, its place, what is escaped before it and on what an earlier pass makes of the text; the tests quote some dozen arguments.",
 ["build.go","util.go","lex.go"], [("Enquote, needsQuote, escape","build.go"),("repr","util.go")],
 "abstract interpretation (path-sensitive fixpoint over SSA) of the quoting in product with the word automaton of the lexer; composition of transducers for quoted text",
 "Covers every argument: characters are those that the source names, any other space and any other character; what successive loops learn about the whole argument is kept consistent. That the lexer follows the word automaton is decided by L01. Text that a loop collects is followed as long as it is a copy of the argument with a constant end; a form of the code that is not followed is reported as incomplete and not as a violation.")

prop("E01", "Equal is true exactly for directives that are the same",
 "Directive.Equal returns true exactly if both directives are nil or if both have the same name, line, file, mark as a parameter of a map-like block, the same arguments and includes in the same order, the same comment (none is not an empty one) and blocks with as many statements, each equal to the one in the same place. It writes to neither.",
 "inputs programs", "every pair of directives, whatever else they differ in; blocks of every depth",
 "Equal is how users compare configurations; a difference that it does not see shows up only for directives that differ in nothing else, and at any place of lists of any length.",
 ["types.go"], [("Directive.Equal, equals, strPtrEqual","types.go")],
 "abstract interpretation (path-sensitive fixpoint over SSA) of Equal under every hypothesis of a difference, with induction over the trees",
 "The hypotheses are: one is nil, one field differs, a list has more elements, some (arbitrary) element differs, a comment is there or differs; or nothing differs. A recursive call is judged by the induction hypothesis.")
prop("E02", "The JSON of a payload has every part of it, under the documented keys",
 "The JSON of a payload has the keys status, errors and config; errors of a payload file, line, error and, if there is one, callback; a config file, status, errors and parsed; its errors line and error; a directive directive, line, args and, unless they are empty, file, includes, comment and mapBlockParameter, and block if and only if its block is not nil (an empty block is kept). Each key has the value of its field. A ParseError is written as its text.",
 "inputs programs", "every payload, whatever its errors and directives are; every error of the parser",
 "Payloads are stored and handed to other programs as JSON, and built from it: a key that is lost, renamed or left out for some values changes the configuration for those payloads only.",
 ["types.go","errors.go"], [("Payload, Config, Directive and the struct tags","types.go"),("Directive.MarshalJSON","types.go"),("ParseError.MarshalJSON","errors.go")],
 "rules over the struct tags of the type-checked program; abstract interpretation (path-sensitive fixpoint over SSA) of the methods MarshalJSON",
 "The rules of encoding/json for tags, embedding and omitted values are part of the check. How values of other error types and of callbacks are written is up to these types. A method that marshals something else than structs is reported as incomplete.")
prop("E03", "The text of a parse error says what is wrong, in which file and line",
 "ParseError.Error returns what is wrong, ` in `, the file name exactly as it is (or `(nofile)` if there is none) and, if the error has a line, `:` and the line, whatever these are. Unwrap returns the cause that the error was made with.",
 "inputs", "every parse error, with or without a file, a line and a cause",
 "It is how users find the place of an error and how errors.Is finds its cause; tests look at three errors.",
 ["errors.go"], [("ParseError.Error, ParseError.Unwrap","errors.go")],
 "abstract interpretation (path-sensitive fixpoint over SSA) of the methods Error and Unwrap of ParseError, the result compared as a term",
 "fmt.Sprintf with %s and %d is taken to insert its argument unchanged. Code whose result has no model is reported as incomplete.")
prop("E04", "Directives are blocks, includes or comments by what they have",
 "IsBlock is true exactly for a directive whose block is not nil (an empty block is one), IsInclude exactly for one that is named include and whose list of includes is not nil, IsComment exactly for one that is named # and has a comment, be it empty. Nothing else counts.",
 "inputs", "every directive",
 "Build, Combined and users decide by these methods what becomes of a statement; empty blocks, includes without files and empty comments are the cases that tests leave out.",
 ["types.go"], [("Directive.IsBlock, IsInclude, IsComment","types.go")],
 "abstract interpretation (path-sensitive fixpoint over SSA) of IsBlock, IsInclude and IsComment for every case of what they depend on",
 "All fields that a method should not depend on are arbitrary.")

prop("G01", "The generator knows every name of NGINX, and the library the name it writes",
 "Every name that the source code of NGINX uses in the definition of a directive (NGX_CONF_*, NGX_*_CONF, NGX_DIRECT_CONF) is translated by the generator to the constant of the library that means the same, and the library defines this constant: with a bit of its own, or with exactly the bits of the constants that it stands for. The table is not written after its initialisation.",
 "programs configurations", "every name that NGINX defines; every other name that the table has",
 "A name that is missing, swapped or whose bits are shared changes what the analyzer accepts for directives of modules for which tables are generated, which no test of the library sees.",
 ["internal/generator/generator_util.go","analyze.go"], [("ngxVarNameToGo","internal/generator/generator_util.go"),("ngxConf… constants","analyze.go")],
 "table extraction from the SSA of the package initialisation; rules over the constants of the type-checked program",
 "The names of NGINX are listed in the check. A name that the table has beyond these must be spelled like the constant that it stands for, which must be defined.")
prop("G02", "The generator collects every definition, with every bit of its mask",
 "For every C and C++ file of the tree (by its suffix .c or .cpp, at any depth) every definition that the regular expressions of the generator find is added to the masks of its directive, after those that were found before, with each part of the mask in its order and translated by the table of names. A name that is not in the table, a file that cannot be read, an entry that cannot be looked at and a tree without any directive are errors; no other entry ends the walk or changes what was collected.",
 "inputs", "every tree of files, any number of tables, definitions and parts, any directive that is defined any number of times",
 "Definitions of one directive in different modules, files and orders meet in one list; tests have a dozen small source trees.",
 ["internal/generator/generator_util.go"], [("masksFromFile, getMasksFromPath","internal/generator/generator_util.go")],
 "abstract interpretation (path-sensitive fixpoint over SSA) of the collection of definitions, with counters for what is complete, and for an arbitrary entry of the tree and an arbitrary directive",
 "What the regular expressions match in a text, and what the removal of comments leaves of it, is not decided: they are taken to return any list of matches. filepath.WalkDir is taken to call its function for every entry. Code that collects the files before it reads them is reported as incomplete.")
prop("G03", "What is generated is what was collected, less the filter, with the overrides",
 "Generate writes a Go table of exactly the directives that are in the source code and not in the filter, each with the masks of its override if it has one and else with those of the source code, every mask as its parts joined by ` | `, in the order that they have, and a function of the given name that answers from this table, with the given comment if there is one. An error of reading or of writing is returned, and there is no other.",
 "inputs configurations", "every directive, in every combination of being in the source code, in the filter and in the overrides; every writer",
 "The filter and the overrides meet the directives of the source code in every combination; tests have one of each.",
 ["internal/generator/generator_util.go","internal/generator/tmpl/support_file.tmpl"], [("genFromSrcCode","internal/generator/generator_util.go"),("the template","internal/generator/tmpl/support_file.tmpl")],
 "abstract interpretation (path-sensitive fixpoint over SSA) of Generate for an arbitrary directive; symbolic evaluation of the template",
 "text/template is modelled for the actions that the template uses; a template that uses others is reported as incomplete. That names with unusual characters are valid in Go text is not decided.")

prop("N01", "Building a parsed payload and parsing it again gives the same payload",
 "For every configuration that Parse accepts, parsing what Build writes for its payload gives a payload with the same statements (names, arguments, blocks, comments), apart from lines and includes.",
 "inputs", "every configuration",
 "It is the round trip that users of both halves rely on.",
 ["parse.go","build.go","lex.go"], [("Parse","parse.go"),("Build","build.go")],
 na="The equality of two payloads of unbounded depth, related through a text that both halves handle with loops, recursion and user-supplied lexers and builders, is a relation between two whole programs, for which no static argument is in reach. Its parts are decided: what the lexer (L01) and the parser (P01, P04, P09) make of a text, what the builder writes for each statement (B02, B06) and that a quoted argument is read back as it was (B01).")
prop("N02", "The regular expressions of the generator find every definition in C source",
 "For every file of C or C++ source code the regular expressions of the generator match every definition of a directive that is not in a comment, and nothing else, and the removal of comments leaves everything else as it is.",
 "inputs", "every C and C++ source file",
 "A definition that is not matched is missing from the generated table.",
 ["internal/generator/generator_util.go"], [("masksFromFile","internal/generator/generator_util.go")],
 na="It compares regular expressions with the grammar of C including its preprocessor, and is not true of any set of regular expressions (a comment mark in a string, a definition that is made by a macro); there is no precise property to decide. What becomes of every match is decided by G02.")
prop("N03", "Every call ends, in time proportional to its input",
 "Parse, Build and the lexer end for every input of finite length that the given readers and functions deliver in finite time, with time and memory in proportion to it.",
 "inputs schedules", "every input and every schedule",
 "Configurations come from users; a quadratic or endless run is a denial of service.",
 ["parse.go","lex.go","build.go"], [("parser.parse","parse.go"),("tokenize","lex.go")],
 na="Costs and ranking arguments quantify over run-time quantities (lengths, depths, schedules, the behaviour of readers and of registered functions) that the analysis abstracts from; no sound static bound is in reach. What can be decided is: a stream of tokens is always finished (L04), a file that includes itself is not parsed without end (P10), every lexer is drained (R04).")
