import json
def P(id,title,st,over,text,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    return d
sc=["src/scanner.rs","src/token.rs"]
L=[]
L.append(P("S01","Scanning any text ends: errors, or tokens closed by one end of file",
"For every text, scanning terminates without a panic or an arithmetic overflow. It yields either a list of tokens whose last token, and no other, is the end-of-file token, located at the end of the text, or at least one error.",
["inputs"],"every Unicode text, of any length, layout and nesting of indentation",
"The tests scan some twenty short texts; an endless loop or an overflow needs one particular layout (an outdent between two widths did loop for ever) or a very long line.",
sc,[("main loop over lexemes","src/scanner.rs scan_tokens"),("one lexeme per step","src/scanner.rs scan_token"),("blocks closed at a new line","src/scanner.rs bol_indentation_tokens"),("remaining blocks closed","src/scanner.rs close_all_blocks")],
["whitespace::scanner::Scanner::scan_tokens","whitespace::parser::parse"],
[("grapheme_indices","the text not yet read","src/scanner.rs"),("eof","nothing left to read","src/scanner.rs")]))
L.append(P("S02","Indentation becomes properly nested indent and outdent tokens",
"An indent token is emitted exactly before the first token of a line that is indented deeper than the innermost open block and does not continue the previous line; an outdent token is emitted exactly once for each open block that such a first token is less indented than, and for each block still open at the end of the text. Hence indents and outdents always nest and balance, and a line which returns to a width no open block has is rejected.",
["inputs"],"every text: every sequence of line widths, blank lines, comments, continuations and errors",
"Tests check one text with two levels; the guarantee is about every history of widths on the stack of open blocks.",
sc,[("stack of block widths","src/scanner.rs bol_indentation_tokens"),("spaces at the beginning of a line","src/scanner.rs scan_token"),("blocks closed at the end","src/scanner.rs close_all_blocks")],
["token stream"],[("indentation","widths of the open blocks","src/scanner.rs"),("bol_spaces, is_bol","width of the current line","src/scanner.rs")]))
L.append(P("S03","Tokens and scan errors carry the line and column where they start",
"Every token's line is one plus the number of line ends before its first character and its column is one plus the number of user-perceived characters between the last line end and that character, both counts stopping at the largest representable value. The end-of-file token and outdents at the end stand at the end of the text, and every scan error is located at the offending lexeme or at the end of the text.",
["inputs"],"every text, including multi-line strings, combining characters, CRLF, tabs, continuation lines, and lines longer than 65535 characters",
"Tests assert positions for a handful of ASCII lines; multi-cluster lexemes after multi-line strings, continuations or saturation are not sampled.",
sc,[("column and line counters","src/scanner.rs advance, reset_line, scan_string"),("start column","src/scanner.rs scan_token"),("token position","src/scanner.rs add_token"),("error position","src/scanner.rs error sites")],
["Token.line, Token.column","ParseErrorCause.source_loc"],[("line, column, start_column","position of the cursor and of the lexeme","src/scanner.rs")]))
L.append(P("S04","Lexemes are split by maximal munch and keep their exact text, kind and value",
"The text is divided into lexemes by one fixed lexical grammar with maximal munch: operators of one and two characters, strings, numbers, words, comments, blanks and line continuations, with keywords recognised exactly. Each token outside layout carries exactly its slice of the text, its kind, the text of a string without its quotes or the number its digits denote, and whether an opening parenthesis touches what precedes it; the text is rejected exactly when some lexeme is malformed or a line's indentation matches no open block.",
["inputs"],"every text over every Unicode grapheme cluster",
"Tests sample each operator and some words once; the guarantee covers every adjacency of lexemes and every prefix of a keyword.",
sc,[("dispatch on the first character","src/scanner.rs scan_token"),("words and keywords","src/scanner.rs scan_identifier, KEYWORDS"),("numbers","src/scanner.rs scan_number"),("strings","src/scanner.rs scan_string"),("slices","src/scanner.rs add_token, add_number_literal_token, add_string_literal_token")],
["Token.token_type, lexeme, string_literal, float_literal"]))
L.append(P("S05","A line end terminates a statement unless the line is blank or continues",
"A terminator token is emitted at a line end exactly when the line has a token on it and the last token is not an operator, separator or opener after which an expression must go on. A line end after a backslash never ends a statement, and comments, trailing blanks and blank lines never change what is emitted.",
["inputs"],"every text: every last token of a line followed by any blanks, comments and blank lines",
"Tests cover a few trailing operators without comments; the rule must hold for each token kind under every following layout.",
sc,[("newline arm","src/scanner.rs scan_token"),("continuation flags","src/scanner.rs reset_line, scan_token")],
["Terminator tokens"],[("following_line_continuation, is_line_continuation","whether the line goes on","src/scanner.rs")]))
L.append(P("S06","LF and CRLF line ends are interchangeable",
"Two texts which differ only in whether each line ends in LF or CRLF are both accepted or both rejected by the scanner, give the same tokens of the same kinds in the same order, and give them the same lines and columns.",
["inputs"],"every pair of texts equal up to the choice of LF or CRLF at each line end",
"Tests contain no CRLF at all; a CRLF is a single grapheme cluster, so every place that looks for a line end must know both.",
["src/scanner.rs"],[("newline predicate","src/scanner.rs is_newline"),("newline and backslash arms","src/scanner.rs scan_token"),("line counting in strings","src/scanner.rs scan_string")],
["token stream"]))
pf=["src/parser.rs","src/ast.rs"]
L.append(P("P01","Parsing any text ends with statements or errors, never a panic",
"For every text, as a program, as a line of the interactive prompt and as a single expression, parsing terminates without a panic, out-of-bounds access or arithmetic overflow, given enough stack. It yields statements, or at least one error, and after an error resumes behind it.",
["inputs"],"every token sequence the scanner can produce, in each of the three modes",
"Tests parse well-formed programs and two malformed ones; panics hide behind particular malformed sequences (an error at the first token did underflow).",
pf,[("recursive descent","src/parser.rs declaration, statement, expression, primary"),("error recovery","src/parser.rs synchronize"),("bounded lookahead","src/parser.rs peek, previous")],
["whitespace::parser::parse","whitespace::parser::parse_repl_line","whitespace::parser::parse_expression"],
[("current","index of the next token","src/parser.rs"),("tokens","always ends in end of file","src/parser.rs")]))
L.append(P("P02","Expressions parse to the tree their precedence and associativity dictate",
"Every expression is accepted exactly when it is derivable in the language's expression grammar and yields the one tree that the grammar gives: operators bind by their precedence levels, binary operators associate to the left and assignment to the right, calls, juxtaposed arguments, property and index accesses chain from the left, and literals, arrays, maps and functions keep their elements, in order, with their exact values.",
["inputs"],"every token sequence, hence every combination of operators, postfix forms, literals and nesting",
"Tests fix about forty expressions; precedence between each pair of levels and each nesting is not enumerable by samples.",
pf,[("one function per precedence level","src/parser.rs assignment .. unary"),("postfix forms","src/parser.rs call, finish_call"),("literals","src/parser.rs primary, literal_map")],
["Expr trees"]))
L.append(P("P03","Statements and declarations parse to the tree they spell",
"Every program is accepted exactly when it is derivable in the language's statement grammar, where a block is braced or indented, and its tree holds every declaration and statement, once and in order, with the names, parameters, superclass, methods, conditions and branches written. A for loop becomes its initializer followed by a loop over its condition, body and increment, and methods are marked as initializer, method or class method by their spelling.",
["inputs"],"every token sequence, in program and prompt mode",
"Tests show each statement form once or twice; optional parts, terminators and both block styles combine without bound.",
pf,[("declarations","src/parser.rs declaration, finish_class_declaration, function_definition, finish_var_declaration"),("statements","src/parser.rs statement, finish_for_statement, finish_if_statement, finish_block"),("terminators","src/parser.rs expression_statement, consume")],
["Stmt trees"]))
L.append(P("P04","break and continue are accepted only inside a loop of the same function",
"In every accepted program each break and continue statement lies in the body of a loop, with no function boundary in between. A break or continue statement so placed is never rejected for its position, whatever came before it.",
["inputs","histories"],"every nesting of loops, functions, blocks and branches, also after earlier errors",
"Tests have a break directly in a while body and one outside; a counter that leaks across functions or errors needs a nesting.",
pf,[("loop depth","src/parser.rs loop_body_statement, finish_break_statement, finish_continue_statement"),("functions start anew","src/parser.rs function_definition")],
["Stmt::Break, Stmt::Continue"],[("in_loops","number of enclosing loops","src/parser.rs")]))
L.append(P("P05","Static limits: 255 parameters and arguments, distinct keys, valid targets",
"No accepted program has a function with more than 255 parameters, a call with more than 255 arguments, a map literal with two entries of one key, or an assignment whose left side is not a variable, property or element. Whatever stays within these limits is not rejected on their account.",
["inputs"],"every parameter and argument list, map literal and assignment, of any length",
"No test reaches a limit: it takes 256 parameters or arguments, or a duplicate among many keys.",
pf,[("parameters","src/parser.rs function_definition"),("arguments","src/parser.rs finish_call"),("keys","src/parser.rs literal_map"),("targets","src/parser.rs assignment")],
["accepted trees, parse errors"]))
L.append(P("P06","Parse errors and tree nodes point at the token responsible",
"Every parse error names the line, column and text of the token at which the grammar cannot go on, or of the last token consumed where the fault lies in it. Every located node of an accepted tree carries the position of its own token: the name, operator, opening bracket or keyword it stands for.",
["inputs"],"every rejected and every accepted token sequence",
"Tests compare a few locations; each error site and node form under each nesting has one.",
pf+["src/error.rs"],[("error at the next or last token","src/parser.rs error_from_peek, error_from_last"),("node positions","src/parser.rs SourceLoc::from")],
["ParseErrorCause.source_loc, token","source locations in the tree"]))
rf=["src/resolver.rs","src/environment.rs"]
L.append(P("R01","Each variable use is bound to the innermost enclosing declaration",
"After resolution every use of a variable, and of this and super, carries the number of scopes between the use and the innermost enclosing scope that has the name, and the slot of the name in that scope. A name that no enclosing scope has is bound to the global scope, in a slot that stays the same for all its uses and a later global declaration.",
["inputs","histories"],"every nesting of blocks, functions, classes and shadowing, over every sequence of lines resolved before",
"Resolution has no test at all; shadowing, forward references and class scopes combine without bound.",
rf,[("lookup from the innermost scope","src/resolver.rs resolve_local_variable"),("forward globals","src/resolver.rs forward_reserve_global_var"),("scopes of blocks, functions, classes","src/resolver.rs resolve_statement, resolve_function, resolve_class")],
["VarLoc of variable, assignment and super nodes"],[("scopes","names of each enclosing scope","src/resolver.rs")]))
L.append(P("R02","Names of one scope have distinct slots below 255, and the limit is enforced",
"In every scope, at every moment, distinct names have distinct slots, which are the numbers below the count of names and never change, and each variable declaration carries the slot of its name. A scope holds up to 255 names; a further one is rejected instead of sharing a slot.",
["inputs","histories"],"every sequence of declarations, redeclarations and forward references, over all earlier lines",
"Needs 256 names in a scope; no test declares more than a few.",
rf,[("slot of a new name","src/resolver.rs declare, define, forward_reserve_global_var"),("limit","src/resolver.rs ensure_scope_index_limit")],
["SlotIndex of variable declarations, VarLoc slots"]))
L.append(P("R03","Semantic errors are reported exactly where the rules are broken",
"Resolution rejects exactly these, at the offending node: redeclaring a name in a local scope, reading a name of the same scope in its own initializer, this outside a class, super outside a class or in one without a superclass, a class inheriting from itself, return outside a function, returning a value from an initializer, and a scope with too many names. Each statement of the program is judged even when an earlier one is rejected.",
["inputs","histories"],"every tree and every state left by earlier lines",
"No test runs the resolver; each rule interacts with nesting and earlier errors.",
rf,[("rules","src/resolver.rs resolve_statement, resolve_expression, resolve_class"),("redeclaration","src/resolver.rs declare, define")],
["ParseError causes"]))
L.append(P("R04","Resolution changes nothing but bindings",
"The tree that resolution returns is the tree it was given: the same statements and expressions, in the same order, with the same names, values and positions. Only the bindings of variable uses and declarations are filled in.",
["inputs"],"every tree",
"No test compares the trees.",
rf+["src/ast.rs"],[("in-place resolution","src/resolver.rs resolve, resolve_statement, resolve_expression")],
["ResolvedCode.statements"]))
L.append(P("R05","An interactive session stays usable after any line, accepted or rejected",
"After each line, accepted or not, the session is back at global scope, outside any function and class, with every local scope gone and every global name still in its slot. In particular no name remains marked as being initialized, so that a later line is judged by the names declared before it and nothing else.",
["histories"],"every sequence of lines, with errors at any depth of blocks, functions and classes",
"A leak shows only on the line after a rejected one; no test resolves two lines.",
rf,[("scopes closed on every path","src/resolver.rs resolve_statement, resolve_function, resolve_class"),("state restored","src/resolver.rs function_type, class_type")],
["results of later lines of a session"],[("scopes, function_type, class_type","state kept between lines","src/resolver.rs")]))
L.append(P("R06","Resolving any tree ends with the tree or errors, never a panic",
"Resolving any sequence of statements, in any session state reached by earlier lines, terminates without a panic or an overflow and returns the resolved tree or at least one error, provided that fewer than 65535 scopes are nested.",
["inputs","histories"],"every tree of bounded scope nesting and every reachable session",
"No test runs the resolver; several internal panics guard states that must be unreachable.",
rf,[("guards","src/resolver.rs begin_scope, forward_reserve_global_var, define, declare"),("recursion over the tree","src/resolver.rs resolve_statement, resolve_expression")],
["whitespace::resolver::resolve","whitespace::resolver::Resolver::resolve"]))
L.append(P("M01","The command line runs files once and the prompt line by line to the end of input",
"Given a file, the program parses and resolves it and prints the resolved tree and exits with status 0, or writes every error, in order, with its line, column, token and message to standard error and exits with status 65. Without one it handles every line of standard input in turn in the same way, in one session, whatever the earlier lines did, and ends with status 0 at the end of input.",
["inputs","histories"],"every file and every sequence of input lines",
"No test runs the program; the prompt used to spin at the end of input.",
["src/main.rs"],[("prompt loop","src/main.rs run_repl"),("file mode","src/main.rs main, run_file"),("error report","src/main.rs print_result")],
["exit status, standard output and error of the program"]))
L.append(P("E01","The text of an error shows each of its causes, in order and unshortened",
"Displaying an error writes, for each of its causes and in their order, a line with the cause's line, column, quoted token where it has one, and message, followed by an empty line. Nothing is left out, merged or shortened, whatever the causes hold, and it fails only if the writer does. A cause made from a position, a token and a message holds exactly these.",
["inputs"],"every list of causes, with any positions, tokens and messages",
"No test displays an error; the texts are those of arbitrary source code.",
["src/error.rs"],[("display","src/error.rs impl Display for ParseError, ParseErrorCause"),("constructors","src/error.rs ParseErrorCause::new, new_with_location, new_with_location_string")],
["ParseError::to_string","whitespace::wasm_parse_string"]))
with open('/verif/properties.jsonl','w') as f:
    for d in L:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
import os
CF=json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'claims.json')))
CLAIM=CF['claim']
NA=CF['na']
m={"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":d["id"],"quick_cmd":"python3 check.py %s --quick"%d["id"],"thorough_cmd":"python3 check.py %s --thorough"%d["id"],
   "technique":"contract-based deductive verification (Verus) of the extracted real code","level":"proof",
   "level_note":CF['notes'].get(d["id"],"Every obligation of the contracts is discharged by Verus for all inputs on the functions extracted from the working tree on each run; contracts of std and dependencies in lib/ are assumed (evidence: trusted_base). If code changes leave the verifier without an answer, a bounded search stands in, labelled as such.")}
   for d in L if d["id"] in CLAIM],
 "not_applicable":[{"property":d["id"],"reason":NA.get(d["id"],"contracts not written yet")} for d in L if d["id"] not in CLAIM],
 "notes":"See DESIGN.md. known-findings.txt lists defects repaired in /repo."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
