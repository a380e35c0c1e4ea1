import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Lexing splits every input into exactly the tokens of the nginx grammar",
 "For every input, the stream of tokens is the one the nginx lexical grammar defines: words, quoted strings (only an escaped quote of the same kind is decoded), comments, ${...} expansions kept inside their word, and the special characters { } ; each on their own, with carriage returns ignored and nothing lost, merged, reordered or invented. Each token says whether it was quoted and on which line it starts. Unbalanced braces and a { or ; that follows another special character (or starts the file) yield exactly one error token, with the line, which ends the stream.",
 ["inputs"],"Every string up to length N over an alphabet of all lexically significant characters (space, newline, CR, backslash, both quotes, braces, semicolon, #, $, letters, multi-byte runes), every composition of up to K lexical fragments, and long inputs around the internal buffer sizes.",
 "The lexer tests run about twenty fixture files; the interaction of escapes, quotes, expansions, comments and specials is combinatorial, and none of the fixtures has a backslash, CR or quote in every lexer state.",
 ["lex.go"],[("tokenize state machine (skipSpace, inWord, inComment, inVar, inQuote)","lex.go:tokenize"),("emit","lex.go:tokenize.emit"),("duplicate special character and depth tracking","lex.go:tokenize")],
 [("lexState","state of the tokenizer","lex.go"),("tokenLine/tokenStartLine","current line and line the token began on","lex.go"),("depth","open braces","lex.go")],["Lex","LexWithOptions"])
p("C02","External lexers get exactly the registered directives, and lexing resumes after",
 "A registered external lexer is invoked exactly when a complete word (or quoted string) equal to one of its names stands where a directive name is expected; never for an argument, a comment, or a name that merely starts or ends alike. It sees all the text that follows, with the right line, its tokens appear unchanged and in order in the stream, and ordinary lexing resumes right after what it consumed with line numbers still correct. Without a matching directive, registering external lexers changes nothing.",
 ["inputs","configurations"],"Every sequence of up to N fragments around registered names (names that are prefixes/suffixes of others, quoted, adjacent to braces, in argument position, after comments or blocks), with external lexers that consume k characters or a block, for every k in a range.",
 "Tests use the Lua lexer on three fixtures with one layout each; which characters surround a registered name and how much the lexer consumes is never varied.",
 ["lex.go"],[("external lexer dispatch in tokenize","lex.go:tokenize"),("SubScanner","lex.go:SubScanner"),("RegisterLexer/LexWithLexer","lex.go")],
 [("nextTokenIsDirective","whether the next token is in directive position","lex.go")],["LexWithOptions","SubScanner"])
p("C03","Lua blocks survive verbatim through lexing, parsing and building",
 "With the Lua support registered, the body of every supported *_by_lua_block directive becomes exactly one argument that is, byte for byte, the text between its outer braces, whatever braces, quotes, comments, escapes or long brackets the Lua code contains; set_by_lua_block has its variable as first argument. Building such a directive with the Lua builder and parsing the output again yields the same arguments, and the directives after the block are unaffected. A block that is not opened with { or never closed is reported as an error.",
 ["inputs"],"Every Lua body made of up to N fragments (braces, nested blocks, both quote kinds, escapes, line comments, long comments, long strings at levels 0..2, newlines, # and $), for each of the 16 supported names, at several nesting depths, followed by other directives; plus every truncation of them.",
 "The Lua tests cover a handful of blocks with one comment style; the brace matcher has to agree with Lua lexing on every combination of strings, comments and long brackets.",
 ["lua.go","lex.go","build.go"],[("Lua.Lex brace matcher","lua.go:Lua.Lex"),("Lua.Build","lua.go:Lua.Build")],
 [("tokenDepth/inQuotes/inComment/longClose","Lua lexical state","lua.go")],["ParseOptions.LexOptions","BuildOptions.Builders"])
p("C04","Results do not depend on how input is delivered; a read error is never success",
 "The tokens of an input, and the payload of a parse, are the same however the reader splits the bytes into reads (including inside a multi-byte character, empty reads, and data returned together with EOF), whatever the capacity of the token channel and whatever the relative speed of producer and consumer. If the reader fails with an error at any offset, the lexer reports that error after the tokens it could complete and the parse never reports success or a silently truncated file.",
 ["schedules","fault_sequences","inputs"],"All compositions of the input into reads for short inputs, all two-chunk splits and all fault offsets for longer ones, several channel capacities, and all interleavings of reader progress with consumer progress under a controlled scheduler.",
 "Tests read whole files from disk, which arrive in one read and never fail part-way, and only use the default scheduling.",
 ["lex.go","parse.go"],[("bufio.Scanner with ScanRunes","lex.go:tokenize"),("scanner.Err check at end","lex.go:tokenize"),("lexError","parse.go:lexError")],
 [("tokenCh","channel between lexer goroutine and parser","lex.go")],["Lex","Parse with ParseOptions.Open"])
p("C05","The parse tree mirrors the file: every statement once, in order, in its block",
 "For every file without errors, the payload contains exactly its statements in source order and nested exactly as the braces nest: each with its name, its arguments in order with their unquoted values, the line of its first token, a (possibly empty) block if and only if the statement ends with {, and no trace of comments unless they were asked for. A quoted {, }, ; or # is an ordinary argument or name, never structure.",
 ["inputs"],"All token sequences up to length N over an alphabet of directive names, arguments (plain, quoted specials, empty), braces, semicolons, comments and newlines; all configuration trees up to a node bound; and all one-token deviations of a set of realistic configurations.",
 "About forty fixture files give one tree shape each; nesting × quoting × comment positions × empty blocks is unbounded.",
 ["parse.go"],[("recursive descent over the token channel","parse.go:parser.parse"),("Directive construction","parse.go:parser.parse")],
 [("parsed","statements of the current block","parse.go")],["Payload.Config[].Parsed"])
p("C06","A directive is accepted iff one of its masks allows its context, block and args",
 "With the default directive set or any combination of DirectiveSources, a known directive in a known context is accepted exactly when at least one of the masks reported for it (the union over all sources) allows that context and, in that same mask, the block-or-semicolon ending and the number (or on/off value) of its arguments. Otherwise exactly one error is reported, of the kind that applies (not allowed here, no opening {, not terminated by ;, invalid number of arguments, invalid flag value, or not in parentheses), naming file, line, statement and enclosing block. Unknown directives and unknown contexts are accepted (as long as they are terminated or have a block) unless ErrorOnUnknownDirectives is set, which rejects exactly the unknown directives; SkipDirectiveContextCheck and SkipDirectiveArgsCheck disable exactly the named check.",
 ["inputs","configurations"],"All masks formed from every argument style × block bit × context, all pairs of masks from an adversarial set (in one source or split over two), × every known context and some unknown ones × 0..9 arguments × ; / { / } endings × flag values × all option combinations; and every shipped directive of every shipped table × every context × arity × ending.",
 "Tests check selected directives with selected arguments; the matrix (tables × contexts × arities × endings × options) has millions of cells.",
 ["analyze.go","parse.go"],[("analyze","analyze.go:analyze"),("contexts table and enterBlockCtx","analyze.go:contexts"),("validFlag/validExpr","util.go")],
 [("masks","bit masks of a directive: contexts, block, arity","analyze.go")],["Payload.Errors","Parse error"])
p("C07","Shipped match functions report exactly the definitions of their module",
 "Every exported match function reports, for every name, exactly the masks of its nginx version or module: matched for each of its directives (never with an empty list or a zero mask) and not matched for any other name. The default match function reports exactly the latest NGINX Plus, njs and otel directives. Across versions and editions the tables are consistent: a directive of one release keeps its definition in later ones, and one of the open-source edition keeps it in the Plus edition, up to a fixed list of documented differences.",
 ["inputs","configurations"],"All 18 exported match functions × every directive name of any table, plus every single-character deviation of those names.",
 "Tests look up a few names per table; there are over ten thousand (table, name) pairs and any single one can be wrong unnoticed.",
 ["analyze.go","analyze_nplus_latest_directives.gen.go","analyze_oss_latest_directives.gen.go","analyze_lua_directives.gen.go","analyze_njs_directives.gen.go","analyze_otel_directives.gen.go"],[("directive maps and *MatchFunc","analyze_*_directives*.go"),("unionBitmaskMaps","analyze.go")],
 None,["*DirectivesMatchFunc"])
p("C08","Errors are fully accounted for, and recovery skips only the bad statement",
 "Without StopParsingOnError, a parse reports every invalid statement exactly once, in order, in both its file's errors and the payload's errors with matching file and line, calls ErrorCallback exactly once per error and stores its result, and marks the file and the payload failed if and only if they have an error. An invalid statement, together with its whole block, is left out, and everything else in the file is parsed exactly as if that statement were not there. A file that cannot be tokenized or ends too early contributes one error and no statements, and does not affect the other files.",
 ["inputs"],"All token sequences up to length N mixing valid and invalid statements (wrong context, arity, ending, unknown, bad map parameters, missing semicolons before }, unbalanced braces), at every nesting position, in the main file and in included files, with and without callback.",
 "Each error test has one mistake in one place; the interaction of several mistakes, their blocks and their files is not sampled.",
 ["parse.go","errors.go"],[("handleError","parse.go:Parse"),("consume mode of parse","parse.go:parser.parse"),("lexError","parse.go:lexError")],
 [("payload.Errors / config.Errors / Status","error accounting","types.go")],["Payload.Status","Payload.Errors","Config.Errors","ParseOptions.ErrorCallback"])
p("C09","StopParsingOnError returns exactly the first error, and only if there is one",
 "With StopParsingOnError, a parse returns an error and no payload if and only if the same parse without it would report at least one error, and the returned error is the first of those (same message, file, line, statement and block). If there are no errors the two modes return the same payload.",
 ["inputs","configurations"],"All inputs of the token-sequence and include-graph spaces, in both modes, for all combinations of the validation options.",
 "The two modes are tested on different fixtures; their agreement is a relation over all inputs.",
 ["parse.go"],[("StopParsingOnError branches","parse.go:parser.parse"),("StopParsingOnError branch for file errors","parse.go:Parse")],
 None,["Parse"])
p("C10","Includes resolve to the right files, each parsed once, in the including context",
 "Every include of a parse (relative to the main file's directory, or absolute; a plain path or a glob, whose matches are taken in sorted order) is resolved to the indices of exactly the matching files in the payload; each file appears once, in order of first inclusion, and is parsed in the context of the include that first reached it. A plain path that cannot be opened is an error at the including line, a glob without matches is not, and include cycles are reported as an error, always and only when there is one. With SingleFile no include is followed.",
 ["inputs","configurations"],"All include graphs of up to 3-4 files with up to 2-3 includes each (explicit, missing, glob, absolute, self, duplicate; at main, http and server level), through custom Open/Glob and through the real file system.",
 "Fixture trees show four include layouts; graph shapes, shared files, cycles behind shared files and sibling contexts are not enumerated.",
 ["parse.go","analyze.go"],[("include handling","parse.go:parser.parse"),("included map and queue","parse.go:Parse"),("isAcyclic","parse.go:parser.isAcyclic"),("enterBlockCtx","analyze.go:enterBlockCtx")],
 [("included","file name to payload index","parse.go"),("includes","queue of files with their context","parse.go"),("includeEdges/includeInDegree","include graph","parse.go")],["Payload.Config","Directive.Includes","ParseOptions.Open/Glob"])
p("C11","Combining replaces every include by the statements it includes, and nothing else",
 "A combined payload (CombineConfigs, or Combined) has one config whose statements are those of the main file with every resolved include directive, at any depth, replaced in place and in order by the combined statements of the files it refers to, each keeping its line and, when parsed for combining, the file it comes from. Errors of all files are kept, the status is failed if and only if one of them failed, and the payload it was made from is not changed. An include index that does not exist is an error, not a crash.",
 ["inputs"],"All include graphs of up to 4 files and all hand-made payload trees up to a node bound, with includes at several depths, shared and repeated files, failed files and bad indices.",
 "Two fixture trees are combined by tests; the recursion over nested and shared includes needs all shapes.",
 ["util.go","parse.go","types.go"],[("combineConfigs","util.go:combineConfigs"),("performIncludes","util.go:performIncludes")],
 None,["Payload.Combined","ParseOptions.CombineConfigs"])
p("C12","Parse options change exactly what they name and nothing else",
 "ParseComments adds exactly the comments (text and line; those among the arguments of a statement come right after it) and changes no other statement; IgnoreDirectives removes exactly the statements with those names, with their blocks, wherever they are outside map-like blocks, and suppresses their validation and includes; SingleFile only stops includes from being followed. A custom Open or Glob is used for every file and pattern, and any combination of options gives what applying each of them on its own would.",
 ["inputs","configurations"],"All combinations of the options × token sequences up to length N containing comments in every position, ignored directives as simple, block, invalid, unterminated and include statements, at every depth.",
 "Each option has one or two fixture tests; their combinations and the places a comment or ignored directive can stand are not sampled.",
 ["parse.go"],[("ParseComments/commentsInArgs","parse.go:parser.parse"),("IgnoreDirectives consume","parse.go:parser.parse")],
 None,["ParseOptions","Payload"])
p("C13","Parsing and building always terminate, never panic, and leave nothing behind",
 "For every input, every option combination and every failure of the environment (Open, Glob, Read, Close, callback), Lex, Parse, Combined and Build return or close their channel without panicking. When Parse has returned, every file it opened is closed exactly once, no more than a few of them were open at once however many there are, no goroutine it started is left, and no reader is read after it was closed; when Combined has returned no goroutine it started is left.",
 ["inputs","fault_sequences","schedules"],"All byte strings up to length N over the lexical alphabet and all short token sequences under every option set; all single and double faults injected at every Open, Glob, Read and Close of a set of multi-file configurations; adversarial Directive trees for Build and Combined.",
 "Tests do not count goroutines or closes, and never make Open, Read or Glob fail part-way.",
 ["parse.go","lex.go","util.go","build.go"],[("draining of the token channel","parse.go:Parse"),("Close of each file","parse.go:Parse"),("performIncludes goroutines","util.go:performIncludes")],
 [("goroutines","lexer and include goroutines","lex.go, util.go")],["ParseOptions.Open","goroutine count"])
p("C14","Building a parsed config and parsing it again gives the same config",
 "For every configuration that parses without errors, building it (with any indentation, tabs or header setting) yields text that parses without errors, under the same options, to the same statements: same names, arguments, blocks and nesting, in the same order, and the same comments where comments were parsed. Parsing and building the built text reproduces it byte for byte (with comments, from the second rebuild on, since comments next to a closing brace get a line of their own). Not covered: comments that share a line are built on one line, so they become one; an if condition that is blank or ends in a blank within quotes.",
 ["inputs","configurations"],"All configurations of the valid part of the token-sequence space (with every argument shape the lexer can produce), all trees up to a node bound over adversarial names and arguments, all build options in a range; comments on their own lines or trailing a statement, one per line.",
 "The round-trip test covers a handful of hand-picked fixtures; quoting and layout must be right for every argument in every position.",
 ["build.go","util.go","parse.go"],[("buildBlock","build.go:buildBlock"),("Enquote/needsQuote/repr","build.go, util.go"),("if expression handling","build.go:buildBlock")],
 None,["Build","Parse"])
p("C15","Quoting an argument always reads back as that argument, quoting only when needed",
 "For every value that an argument can have, the text Enquote returns, put in argument position, is read back by the lexer as exactly one token with exactly that value, whatever follows it, and it is never taken for a comment, a special character or several tokens. A value that reads back unquoted as it is, and is not a reserved form (empty, starting with ${, a bare # or special), is returned unchanged when it has only ordinary or escaped characters.",
 ["inputs"],"Every value obtainable by lexing any string up to length N over the full lexical alphabet (including controls, no-break space and multi-byte runes), in every argument position.",
 "Tests quote a dozen strings; escapes, both quote kinds, expansions and whitespace interact.",
 ["build.go","util.go"],[("Enquote/needsQuote/escape","build.go"),("repr","util.go:repr")],
 None,["Enquote","Lex"])
p("C16","Build output has exactly the documented layout for every option",
 "Build writes one statement per line, each indented by its depth times the indent width (4 if 0) in spaces or by one tab per level, at any depth; a block opens on its statement's line and closes on a line of its own at its statement's indentation; a comment on the line of the previous statement stays there. The header, if asked for, comes first and once; registered builders produce exactly the text of their directives and no others; there is no other output and no trailing newline.",
 ["inputs","configurations"],"All directive trees up to a node bound (with comments, empty blocks, includes, if and map parameters, line numbers that coincide or not) and single chains of every depth to beyond the 100-column margin, × all indent widths 0..9 and around the margin, tabs, header, and builder registrations.",
 "Tests build a few small trees with three option settings; the precomputed margin only differs beyond 100 columns.",
 ["build.go"],[("Build/buildBlock","build.go"),("margin","build.go:margin"),("extBuilders","build.go:RegisterBuilder")],
 [("marginSpaces/marginTabs/MaxIndent","precomputed indentation","build.go")],["Build"])
p("C17","BuildFiles and BuildInto write each config once, to its path, or report failure",
 "BuildFiles writes for each config, in order, exactly its built text with trailing white space trimmed and one final newline, to its path (relative ones under the given directory, or the working directory), creating missing directories and replacing old contents, and touches nothing else. BuildInto creates each config's file once in order, writes it, and closes it before the next. Any failure to create, write or close is returned, nothing is reported as success that was not written, and no file is left open.",
 ["inputs","fault_sequences"],"All payloads of up to 3 configs over a set of paths (relative, nested, absolute, with dots, duplicate, under an existing file) × prior disk states × options; and for BuildInto every fault (create, short write, write error, close error) at every call.",
 "Tests write two fixtures to an empty directory and never make a write fail.",
 ["build.go","buffer.go"],[("BuildFiles","build.go:BuildFiles"),("BuildInto","build.go:BuildInto"),("StringsCreator/FileString","buffer.go")],
 None,["files on disk","Creator"])
p("C18","A payload survives a JSON round trip, and its JSON has the documented shape",
 "Marshaling a payload without errors (or a directive) to JSON and unmarshaling it gives an equal one: directives, arguments, lines, files, includes, comments, block-ness (including empty blocks) and the map parameter mark are all kept, for every string content. Errors, where there are any, are marshaled as their message, omitted fields are exactly the empty ones, and building the unmarshaled payload gives the same text as building the original.",
 ["inputs"],"All directive trees up to a node bound with every combination of optional fields and adversarial strings, and the payloads of all configurations of the token-sequence space, including failed ones on the marshaling side.",
 "Tests compare one marshaled payload; the optional fields interact through omitempty.",
 ["types.go","errors.go"],[("json tags and Directive.MarshalJSON","types.go"),("ParseError.MarshalJSON","errors.go")],
 None,["json.Marshal","json.Unmarshal"])
p("C19","Calls are pure and independent: same result alone, repeated or concurrent",
 "Parse, Build, BuildFiles, BuildInto, Combined, Equal, String and Enquote never modify the options, payloads, directives or tables they are given, and their result depends only on their arguments: repeating a call, interleaving it with any other calls, or running it concurrently with others (sharing options, payloads, lexers and builders) gives the same result as running it alone, without a data race.",
 ["schedules","histories"],"All sequences of up to N calls over a menu of calls sharing options and payloads, and all interleavings (at every Open, Glob, Read, callback, match function and write) of two concurrent calls up to a preemption bound under a controlled scheduler, plus a free-running pass of the same harness under the race detector.",
 "Tests run calls one at a time on fresh options, so shared state is never observed.",
 ["parse.go","build.go","lex.go","util.go","analyze.go"],[("copies of the options","parse.go:Parse, build.go:Build"),("package-level tables are only read","analyze.go"),("copy of each directive when combining","util.go:performIncludes")],
 [("tokChanCap, contexts, mapBodies, defaultDirectives","package-level state","lex.go, analyze.go, analyze_map.go")],["results of concurrent calls"])
p("C20","Equal is an equivalence that sees every difference; predicates match the fields",
 "Equal of two directives is true exactly when name, arguments, line, file, includes, comment, map-parameter mark and blocks (recursively, in order) agree; it is reflexive, symmetric and transitive, safe for nil, and a nil and an empty list count the same. IsBlock, IsInclude and IsComment hold exactly for directives with a block, resolved includes named include, and a comment named #; String is the name, the arguments and, if there are statements in the block, {...}, with blanks between.",
 ["inputs"],"All pairs of directives over small domains for every field, with blocks up to depth 3, and every single-field, single-position change of larger trees at every node.",
 "Tests compare a dozen pairs; a field or position left out of the comparison goes unnoticed.",
 ["types.go"],[("Directive.Equal","types.go"),("IsBlock/IsInclude/IsComment","types.go")],
 None,["Directive.Equal"])
p("C21","Map-like blocks hold parameters, validated by their own rules, never directives",
 "Inside every map-like block (map, geo, charset_map, match, types, split_clients, geoip2, otel_exporter), in whatever context it stands, each statement is kept as a parameter, marked as such, with its name and arguments as written, even if it is called like a directive (include, if, an ignored or unknown one). It is accepted exactly when it ends with ; and has the number of values its block allows (one, or at least one for match, types and geoip2, with the documented special parameters); otherwise one error at its line is reported and the other parameters and what follows the block are unaffected.",
 ["inputs"],"All eight map-like blocks × all bodies of up to 2 parameters over names (ordinary, special of this or another block, directive names, quoted specials) × 0..9 values × endings (; { } end of file) × options; and maps nested in contexts.",
 "Tests cover one valid and one invalid body per block kind.",
 ["analyze_map.go","parse.go"],[("mapBodies","analyze_map.go"),("analyzeMapBody","analyze_map.go"),("map-like branch of parse","parse.go:parser.parse")],
 None,["Directive.IsMapBlockParameter","Payload.Errors"])
p("C22","The condition of an if is its text without the parentheses, however it is spaced",
 "For an if directive the arguments are the words between the outer parentheses, the same whether or not the parentheses stand alone or are attached to the words, with inner parentheses, quotes and spaces inside quoted words kept. An if that is not enclosed in parentheses, or is empty, is an error; building an if puts the parentheses back so that parsing it again gives the same condition.",
 ["inputs"],"All conditions of up to N words over an alphabet of variables, operators, quoted words, regular expressions with parentheses, parentheses attached or detached, spacing and newlines, in server and location context; build and reparse of each.",
 "Tests cover about ten conditions.",
 ["util.go","parse.go","build.go"],[("validExpr/prepareIfArgs","util.go"),("if handling in buildBlock","build.go:buildBlock")],
 None,["Directive.Args"])
p("C23","The generator extracts exactly the directives defined in a module's source",
 "From a source file or tree, the generator takes every directive entry of every ngx_command_t array in the .c and .cpp files, at any depth, with exactly its masks (all definitions of a directive, in order), whatever the layout, comments, line endings and other code around them; nothing comes from comments, strings, other arrays or other files. Filtered directives are left out and overridden ones have exactly the overriding masks; an unknown mask, an unreadable path or a tree without directives is an error.",
 ["inputs","configurations"],"All source files composed of up to N fragments from a menu of entry layouts, mask lists, comments (containing quotes, braces, fake entries), strings and unrelated code, in all assignments to files of a tree with several extensions; × filters and overrides.",
 "Tests use a few sample sources; the extraction is textual, so every combination of comment, string and layout matters.",
 ["internal/generator/generator_util.go","internal/generator/generator.go"],[("masksFromFile","internal/generator/generator_util.go"),("getMasksFromPath","internal/generator/generator_util.go"),("genFromSrcCode","internal/generator/generator_util.go")],
 None,["output of cmd/generate"])
p("C24","Generated code compiles and its match function answers as the source defines",
 "The file the generator writes is valid Go that compiles inside the package, declares the map and the match function under the requested names with the requested comment, and its match function reports, for each extracted directive, masks that accept exactly the contexts, arities and block form of the C definition, and no match for other names. Every nginx mask has a counterpart with the meaning it has in nginx. Command-line flags override the matching entries of the JSON config and malformed ones are rejected. generate.sh gives the command every option it documents, in every form of it and as it stands, with the sources of the requested branch and path of the repository, and leaves nothing behind; go generate rewrites exactly the files it names, each as its config says, and every generated file in the package is one its config allows.",
 ["inputs","configurations"],"Every mask the generator knows, alone and in all pairs, through generation, compilation and parsing; all combinations of CLI flags with JSON config entries; all override strings up to length N over their grammar; generate.sh on local repositories with every branch, path and set of options; go generate as a whole.",
 "Tests compare generated text with an expected file; none compiles it or runs the match function.",
 ["cmd/generate/main.go","cmd/generate/cmd_util.go","internal/generator/generator_util.go","internal/generator/tmpl/support_file.tmpl","analyze.go","scripts/generate/generate.sh"],[("ngxVarNameToGo","internal/generator/generator_util.go"),("support_file.tmpl","internal/generator/tmpl"),("flag handling","cmd/generate")],
 None,["output of cmd/generate","compiled match function"])
p("C25","An error says what, where and why, everywhere the same",
 "Whatever goes wrong, the error that Parse returns, adds to the payload, adds to the config and gives to the callback is one and the same: its text is what failed in which file at which line, it is encoded in JSON as that text (and can always be encoded), and it unwraps to its cause: ErrPrematureLexEnd exactly when a file ended too early, else the very error that the reader, Open, Glob or an external lexer returned. Any ParseError, with any of its fields missing, renders as What in File:Line.",
 ["inputs","fault_sequences"],"All sequences of up to N tokens of a menu of right and wrong statements, includes of missing and malformed patterns, external lexers that fail, a read error at every byte of every file, x stopping or not and other options; the text, JSON, cause and line of every error in all four places against the reference parser; all ParseErrors over small domains of their fields.",
 "Tests compare a few error texts; the cause, the JSON and the copies of an error in the payload, config and callback are compared nowhere.",
 ["errors.go","parse.go","types.go"],[("ParseError","errors.go"),("handleError and lexError","parse.go"),("PayloadError.Error","types.go")],
 None,["Payload.Errors","Config.Errors","ParseOptions.ErrorCallback"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
