T="Trusted: govc (VC generator), go/ssa, z3, contracts of the library functions used (listed in the evidence). "
PARSE="Every method of parser.Parser that takes tokens, with a contract over the token sequence (callers are checked against the callees' contracts, loops by inferred and verified invariants), Parse, convertExprToArrowParams, keywordToIdentifier, and the token queue. "
MORE={
'C20':"clearSpans for every type of value that occurs in trees (found in the types of package ast) and every kind of node an interface may hold: everything that can hold spans is reset or handed to a recursive call (verified against the same contract), lists by a verified loop invariant; and ClearSpans. "+T+"The contract of package reflect is assumed; trees are finite and not cyclic.",
'C01':PARSE+"No index, nil, type assertion or explicit panic other than the documented errors is reachable; Parse returns exactly one of tree and error. Lex and ReLex the same. "+T+"Assumed: stack and memory suffice.",
'C02':PARSE+"Every loop takes a token or shrinks a list in each iteration, calls made before taking a token are not recursive; in Lex every iteration reads a rune and an error ends it. "+T,
'C03':PARSE+"For every result the contract gives a token sequence (the unparsing of the tree), and the tokens taken have to be that sequence in order. "+T+"Shorthand and renaming to the same name are not told apart in object patterns.",
'C05':PARSE+"No placeholder is left in a part of a tree that is not an undecided arrow head; ContainsTemporalNodes of every kind of node tells whether it holds one (loop invariant over the elements seen); every ESTree method of package ast, for every value of its fields, does not panic. "+T+"Assumed: trees are finite.",
'C06':"Every ESTree method of package ast (58 kinds of nodes and parts of nodes) against the form the ESTree specification gives, calls of ESTree on parts by the same contract, lists by inferred and verified loop invariants; all operators and kinds by case analysis over the constants. "+T+"Assumed: fields of kinds and operators hold one of their constants, a binding pattern has at most one form; encoding/json follows its struct tags.",
'C04':PARSE+"The operand of each operator meets the class of expressions the grammar allows there; the class of a tree is computed from its nodes. Expression statements and concise bodies do not start with what makes them something else. "+T,
'C10':PARSE+"Each identifier in a tree was a word allowed in the context of its place; contexts of functions, classes, directives and modules are those of the standard and restored. "+T+"That every allowed word is accepted is proved for keywordToIdentifier and searched for the callers.",
'C12':PARSE+"A missing semicolon is only accepted before a line break, a closing brace or the end; restricted productions are checked in their contracts. "+T,
'C15':"The errors made by Scanner and Parser carry the location read at that point and their cause; the lexer's and queue's contracts say where reading stands; Parse returns the raised error unchanged; the Unwrap methods return the cause held. "+T,
'C09':"lexer.Scanner's Read, Unread, Location, NewScanner against the contract of io.RuneScanner: an inductive representation invariant over Row(q), Col(q) is found and verified for every operation; and Lex/ReLex keep the scanner's protocol (one unread after a read) and end right after the token. "+T,
'C11':"parser.Scanner's methods against the contract of lexer.Lexer, for any number of tokens given out and peeked; Lex/ReLex remember the token for re-reading. "+T,
'C13':"EncodeUTF16 for all strings: inferred and verified loop invariants, every index in bounds, the code units of each rune by complete case analysis over all runes. "+T,
'C14':"Token.Source for every token type, StringConstant and NumberConstant for every form of literal (with contracts of math/big and strconv), and the texts and types Lex and ReLex give (with everything they call inlined). "+T,
'C18':"main of cmd/estree with everything it calls inlined (loop invariant: the files written are the first arguments; deferred calls verified to change nothing) and ParseES of web/parser (from the js/wasm build of the tree). "+T+"Contracts of flag, os, io, bufio, log, encoding/json, syscall/js and of the parser (Parse and the scanner are verified for C01 to C17) are assumed; standard output can be written; the web entry point is given a text.",
'C16':"Frame conditions on every function of the ecmascript packages: no store to package state (references to it are followed through values and calls), no goroutine, no map order, only library functions without effects. "+T+"The library functions' purity is assumed by package; references are followed through values, calls (static, by interface and by function value), fields, variables and elements, flow-insensitively.",
}
NA={
'C19':"the tree has spans on most nodes but the code sets and moves them in ways (deferred setEnd, comma and wrapper nodes) whose intended extent is not documented anywhere; no contract would be more than a copy of the code",
}
