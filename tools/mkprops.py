import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=observe or []
    d['anchors']['hook_needed']=None
    P.append(d)
L="ecmascript/lexer/"; R="ecmascript/parser/"; A="ecmascript/ast/"
p("C01","Parsing never crashes",
 "For every input text, in script, module and expression mode, parsing returns either a non-nil tree and a nil error, or a nil tree and an error that is one of the three documented kinds (syntax, encoding, parser). It never panics, whatever the text or the errors of the underlying reader.",
 ["inputs","fault_sequences"],"every rune sequence, every position and kind of reader failure, all three modes",
 "Tests parse about a hundred accepted snippets and ten rejected ones; a nil dereference, bad index or unclassified panic on any other text is outside them.",
 [R+"parser.go",R+"expression.go",R+"statement.go",R+"declaration.go",R+"module.go",R+"scanner.go",L+"lexer.go",L+"scanner.go",L+"token.go"],
 [("recover in Parse classifies panics",R+"parser.go:Parse"),("syntax errors raised through one function",R+"scanner.go:SyntaxError")],
 observe=["return values of (*parser.Parser).Parse"])
p("C02","Parsing always terminates",
 "For every finite input text, in every mode, lexing and parsing finish: every loop iteration and every recursive call makes progress through the input.",
 ["inputs"],"every finite rune sequence, all three modes",
 "A test only shows that the texts it uses finish; a loop that can go round without consuming a token hangs on inputs no test has.",
 [R+"expression.go",R+"statement.go",R+"declaration.go",R+"module.go",R+"script.go",L+"lexer.go"],
 [("loops that consume a token per iteration",R+"statement.go"),("EOF checks in lexer loops",L+"lexer.go")],
 observe=["Parse returns"])
p("C03","Accepted trees account for every token exactly once and in order",
 "When a script or module is accepted, writing the tree back out as tokens gives exactly the tokens of the source, in order: no operator, operand, name, keyword, modifier, literal or punctuator is lost, invented, duplicated, exchanged or moved. The only tokens that need not correspond are semicolons supplied by automatic semicolon insertion and an optional trailing comma.",
 ["inputs","programs"],"every accepted program of any length and nesting depth",
 "The tests compare trees for a few dozen one-line snippets; the four libraries are only checked for being accepted, not for what tree they give.",
 [R+"expression.go",R+"statement.go",R+"declaration.go",R+"module.go",R+"script.go",R+"parser.go",A+"expressions.go",A+"statement.go",A+"expressions_binary.go"],
 [("one parse function per production",R+"statement.go"),("operator table as if-chain",R+"expression.go:parseExpression"),("cover grammar conversion",R+"expression.go:convertExprToArrowParams")],
 observe=["the tree returned by Parse"])
p("C04","Operator precedence and associativity follow ECMAScript",
 "In every accepted expression each operand binds at least as tightly as ECMAScript's grammar requires at that place: binary operators nest by the standard precedence levels and group to the left, exponentiation and assignment group to the right, unary and update operators apply to operands of their own levels, arrow functions and assignments appear only where an assignment expression may, and only parentheses override this. An expression statement never begins with what makes it a statement or declaration of another kind (a brace, `function`, `class`, `async function`, `let [`), nor the concise body of an arrow function with a brace.",
 ["inputs","programs"],"every accepted expression of any depth, every operator combination",
 "Tests check two operator combinations; there are over forty operators on nineteen levels and unbounded nestings.",
 [R+"expression.go"],[("precedence climbing with a minimum order",R+"expression.go:parseExpression")],
 observe=["the tree returned by Parse"])
p("C05","Every accepted tree can be converted to ESTree",
 "Converting the tree of any accepted script or module to its ESTree form always succeeds without panicking, and no parser-internal placeholder (used while it is undecided whether parentheses are an arrow function head) is ever left inside an accepted tree.",
 ["inputs","programs"],"every accepted program",
 "No test converts a tree to ESTree at all.",
 [R+"expression.go",A+"temporal.go",A+"node.go",A+"expressions.go",A+"module.go"],
 [("ContainsTemporalNodes check after a closing parenthesis",R+"expression.go"),("nil-safe conversion helper",A+"estree.go")],
 observe=["Node.ESTree()"])
p("C06","The ESTree form carries each node's own data under the ESTree names",
 "For every node value, its ESTree form has the ESTree type and property names of that kind of node, the right operator text and kind strings, and holds the converted children and the scalar data of exactly that node, every list element included and in order.",
 ["inputs","programs"],"every value of every node type, lists of any length",
 "No test looks at ESTree output.",
 [A+"expressions.go",A+"statement.go",A+"declaration.go",A+"expressions_binary.go",A+"expressions_unary.go",A+"expressions_literal.go",A+"script.go",A+"module.go",A+"estree.go"],
 [("ESTree methods and operator tables",A)],observe=["JSON encoding of Node.ESTree()"])
p("C07","Tokens are the longest lexical elements of the source, rightly classified",
 "For every source text, each token returned is the longest lexical element of the supported ECMAScript grammar that starts where the previous token and trivia end, has the type of that element (keywords told from identifiers by their spelling), and carries the text of names and string literals exactly, and of numbers without their separators. A lexical syntax error is raised exactly where no element of that grammar can be completed (a malformed number, a number directly followed by a name or a digit, an unterminated string or comment, two dots, a stray character).",
 ["inputs"],"every rune sequence, every token position in it",
 "Four token streams are tested; most punctuators, number forms and all lexical errors are not.",
 [L+"lexer.go",L+"unicode.go",L+"token.go"],
 [("hand-written scanner with one rune of push-back",L+"lexer.go:consumeNextToken")],observe=["(*lexer.Lexer).Lex"])
p("C08","Only trivia is skipped between tokens, and line breaks are flagged exactly",
 "Between two tokens the lexer skips only ECMAScript white space, line terminators and comments, and nothing else; a token is flagged as following a line break exactly when a line terminator, possibly inside or at the end of a comment, was skipped since the previous token.",
 ["inputs"],"every rune sequence",
 "Comments are not tested at all, and the line-break flag only after a plain newline.",
 [L+"lexer.go",L+"unicode.go"],[("newLine flag",L+"lexer.go:Lex"),("comment skipping",L+"lexer.go")],observe=["Token.NewLine"])
p("C09","Source positions are exact after any history of reads and unreads",
 "After any sequence of rune reads and single-step unreads, the reported row is one plus the number of line terminators consumed (each LF, CR, LS or PS is one) and the column is one plus the number of runes consumed since the last of them; unreading restores the exact previous position, reading or unreading at end of input leaves it unchanged, and the source URI is the one supplied.",
 ["inputs","histories"],"every rune sequence and every legal interleaving of reads and unreads",
 "No test looks at a position.",
 [L+"scanner.go"],[("negative column marks a just-read line terminator",L+"scanner.go:Read")],
 [("row, col","position of the scanner",L+"scanner.go"),("eof","end of input has been seen",L+"scanner.go")],observe=["(*lexer.Scanner).Location"])
p("C10","Reserved words and parsing contexts are respected and scoped",
 "A word is accepted as an identifier exactly when ECMAScript does not reserve it in the current context (always; in strict code; in async functions for await; in generators for yield), any word is accepted as a property name after a dot, and the context inside a function body is that of the function and is put back when the body ends. Module code, class bodies and code after a use-strict directive of a script or function body are strict until that code ends.",
 ["inputs","programs"],"every keyword, every combination of contexts, every nesting of functions",
 "Tests use non-reserved words as import names only.",
 [R+"context.go",R+"keyword.go",R+"parser.go",R+"statement.go",R+"expression.go",R+"module.go"],
 [("reservation table and keywordToIdentifier",R+"keyword.go"),("saved and restored parse context",R+"expression.go")],
 [("ctx","strict, async and generator flags",R+"parser.go")],observe=["acceptance by Parse"])
p("C11","Token lookahead is transparent",
 "Peeking at upcoming tokens, any number of them and in any order, never changes the sequence of tokens later scanned nor the reported position, and a token seen by peeking is the token later scanned; re-reading a slash as a regular expression is only done on the most recently read token.",
 ["inputs","histories"],"every token sequence and every history of peeks, scans and rescans",
 "Lookahead is only exercised as the parser happens to use it.",
 [R+"scanner.go",R+"expression.go",R+"statement.go"],[("queue of pending tokens and positions",R+"scanner.go")],
 [("last, loc","pending tokens and their positions",R+"scanner.go")],observe=["(*parser.Scanner) methods"])
p("C12","Automatic semicolon insertion happens exactly where ECMAScript allows",
 "A statement that needs a semicolon is accepted without one only before a line break, a closing brace or the end of input (after do/while anywhere), never inside a for header; a line break after return, break or continue ends the statement, is an error after throw, and keeps a following ++ or -- from being taken as a postfix operator.",
 ["inputs","programs"],"every statement kind and every following token",
 "No test omits a semicolon other than at end of input.",
 [R+"parser.go",R+"statement.go",R+"expression.go"],[("expectSemicolon",R+"parser.go:expectSemicolon")],observe=["the tree or error returned by Parse"])
p("C13","UTF-16 encoding is exact",
 "For every string, the UTF-16 encoder returns exactly the UTF-16 code units of its runes in order (one unit for the basic plane, a surrogate pair above it, U+FFFD for each invalid byte), with exactly that length and without ever indexing out of range.",
 ["inputs"],"every Go string, valid UTF-8 or not, of any length","Fourteen strings are tested.",
 [L+"unicode.go"],[("two-pass encoder",L+"unicode.go:EncodeUTF16")],observe=["EncodeUTF16"])
p("C14","Token spelling and literal values are exact",
 "For every token the lexer can return, the source text reported for the token is the text it was read from (number separators aside); the value of a string token is the text between its quotes, and the value of a number token is the number its literal denotes in its radix.",
 ["inputs"],"every token type and every literal text","Token spelling and values are not tested directly.",
 [L+"token.go"],[("Source, StringConstant, NumberConstant",L+"token.go")],observe=["Token.Source","Token.StringConstant","Token.NumberConstant"])
p("C15","Errors carry the position reached and their cause",
 "Every error raised by lexing or parsing carries the source URI, row and column at which reading stood when it was raised, a non-nil cause that unwrapping returns, and is handed to the caller of the parser unchanged.",
 ["inputs","fault_sequences"],"every rejected input, every raise site, every reader failure","Tests only look for the words 'syntax error' in a message.",
 ["ecmascript/errs/errors.go",L+"lexer.go",L+"scanner.go",R+"scanner.go",R+"parser.go"],
 [("typed panics",R+"scanner.go:SyntaxError"),("recover",R+"parser.go:Parse")],observe=["error returned by Parse"])
p("C16","Lexing, parsing and conversion have no side effects",
 "Lexing, parsing and ESTree conversion write nothing to standard output or any other external channel, read nothing but the given reader, and change no package-level state, so that parses are deterministic and independent of one another.",
 ["inputs","histories","schedules"],"every input, every order or overlap of parses","A test does not notice output or shared state.",
 [R+"expression.go",R+"keyword.go",L+"token.go",L+"unicode.go",A],[("package-level tables are never written after initialisation",R+"keyword.go")],observe=["stdout","package variables"])
p("C17","Regular expression literals are delimited and split exactly",
 "When a slash starts a regular expression, the literal extends to the first unescaped slash outside a character class plus the identifier characters after it; its raw text is exactly the source text, its pattern exactly the text between the slashes and its flags exactly the text after. An unterminated literal or one containing a line break is a syntax error, and nothing else is.",
 ["inputs"],"every rune sequence after a slash","Two literals are tested.",
 [L+"lexer.go"],[("consumeRegex",L+"lexer.go:consumeRegex")],observe=["(*lexer.Lexer).ReLex"])
p("C18","The command-line tool prints one ESTree document per file, in order",
 "For every list of files, the estree tool writes to standard output, in argument order, the ESTree form of each file (parsed as a script, encoded as JSON), separated by a line of three dashes and blank lines, and nothing else; it stops with a failure status at the first file it cannot open, parse or convert, and the web entry point returns either the ESTree form or the error text.",
 ["inputs","fault_sequences"],"every argument list, every failing file","The command and the web entry point have no tests.",
 ["cmd/estree/main.go","web/parser/parser.go"],[("loop over arguments","cmd/estree/main.go:main")],observe=["stdout and exit status of cmd/estree"])
p("C19","Node spans delimit the node's source text",
 "The start and end positions of every node of an accepted tree are the positions where the node's first token starts and its last token ends.",
 ["inputs","programs"],"every node of every accepted program","Tests ignore spans.",
 [R+"parser.go",A+"node.go"],[("setStart / deferred setEnd",R+"parser.go")],observe=["Node.Span()"])
p("C20","Clearing spans removes every span and nothing else",
 "Clearing the spans of a tree (ast.ClearSpans) never panics and resets the span of every node below the root to nothing, whether the node is held directly, by pointer, in a list or in an interface, however deep it lies and whatever parts next to it are absent; it changes nothing else about the tree. The root's own span is left when the root is passed as a copy.",
 ["inputs"],"every tree","Tests call it but ignore spans when comparing, so a kind of node or a place in the tree that is left out goes unnoticed.",
 [A+"node.go"],[("reflective walk",A+"node.go:clearSpans")],observe=["Node.Span() after ClearSpans"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
