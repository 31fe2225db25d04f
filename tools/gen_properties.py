#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
LEX="src/parser/lexing.rs";PAR="src/parser/parsing.rs";TREE="src/parser/tree.rs";FMT="src/formatter/formatting.rs";PRI="src/formatter/printing.rs";MAIN="src/main.rs"
H="token, event and lexer types re-exported under cfg(mofmt_verif) for the token-level harnesses"
p("C01","Formatting never changes the code",
 "For every source text that parses without errors, the formatted text consists of exactly the same sequence of tokens, with the same spelling and in the same order; nothing is dropped, duplicated, reordered, merged with a neighbour or absorbed into a comment.",
 ["inputs","programs"],"every error-free Modelica source text, including every placement of line breaks and comments",
 "The tests format a few hundred fixed lines; a token lost in one production under one line layout or next to one comment placement is not sampled.",
 [FMT,PRI,TREE,PAR],[("every production prints each child token once","formatting.rs handle_token and all production functions"),("event stream replayed into a tree","tree.rs build_tree")],["text returned by pretty_print","file written by the CLI"],hook=H)
p("C02","Formatting is idempotent",
 "Formatting text that the formatter itself produced yields exactly the same text, so a freshly formatted file always passes --check.",
 ["inputs","programs"],"every error-free source text, every placement of line breaks and comments",
 "Tests compare one output with one expected text; a second pass is never made on other layouts.",
 [FMT,TREE],[("multi-line decisions must agree with the line breaks that the production forces","formatting.rs is_multiline computations"),("blank line distance from previous line","formatting.rs handle_break")],["pretty_print(parse(pretty_print(parse(x))))"],
 state=[("prev_line","line where the previously printed token ended","formatting.rs Formatter")],hook=H)
p("C03","Comments at line-break positions survive formatting",
 "Every comment that stands where the formatted text has a line break (before a class, element, section keyword, equation, statement, branch keyword, description or annotation placed on its own line, before the end of a class, at the beginning or at the end of the file, or between items of a wrapped list) is kept verbatim, once, in the original order and between the same two tokens.",
 ["inputs","programs"],"every error-free source with comments at such positions, line and block comments, on the same or on separate lines",
 "Comment placement times construct times line layout is combinatorial; tests contain a handful of placements.",
 [FMT],[("comments queue consumed before tokens at line breaks","formatting.rs comments_before, handle_break")],["comment tokens of the formatted text"],
 state=[("comments","comments not printed yet, in source order","formatting.rs Formatter")],hook=H)
p("C04","Indentation follows nesting",
 "Every line of the output starts with two spaces per nesting level of the construct it begins: class parts and equations/statements sit one level below their opener, branch and section keywords and the closing `end` (or closing bracket line) return to the level of their opener, a wrapped expression or list continues one level deeper, and a finished item never leaves the following items shifted.",
 ["inputs","programs"],"every error-free source text and every placement of line breaks",
 "Leaked or missing indentation appears only in particular combinations of wrapped sub-constructs; tests have few of them.",
 [FMT,PRI],[("balanced Indent/Dedent markers","formatting.rs"),("2 spaces per level","printing.rs print_marker")],["leading spaces of each output line"],
 state=[("indent","current nesting level","printing.rs Printer")],hook=H)
p("C05","Horizontal spacing rules hold",
 "Within a line the output separates tokens by nothing or by exactly one space as documented: no spaces inside parentheses and brackets, before commas and semicolons or around dots; one space after commas and semicolons and around binary operators (also the range colon), assignment signs and keywords; unary signs bind without a space and discarded output slots keep one; no line ends in whitespace and no tab or double space is produced.",
 ["inputs","programs"],"every error-free source text",
 "Depends on every pair of adjacent grammar constructs; tests sample some pairs.",
 [FMT],[("Space markers in each production","formatting.rs")],["separator between each two adjacent output tokens"],hook=H)
p("C06","Vertical layout rules hold",
 "Elements, equations, statements, branches, section keywords, class ends, class descriptions and annotations of a class each start on their own line; an empty line always precedes a class end and section keywords, never follows inside wrapped constructs, empty lines between items are kept but never more than one in a row, and no empty line is invented between items that had none.",
 ["inputs","programs"],"every error-free source text, every number of empty lines between tokens",
 "Number of source blank lines, comments and construct kinds combine; tests fix one layout each.",
 [FMT],[("Blank::{Required,Legal,Illegal} at each break","formatting.rs handle_break")],["line breaks between each two adjacent output tokens"],hook=H)
p("C07","Lists wrap consistently and expression breaks are kept",
 "If a bracketed list (call arguments, modifications, array constructors, matrices, subscripts, enumeration literals, import lists, component lists) spans several lines in the source, every item of it starts on its own line in the output; if it stands on one line and contains nothing that must be broken, it stays on one line; inside expressions a line break before an operator or branch is kept and none is added.",
 ["inputs","programs"],"every error-free source text and every placement of line breaks inside lists and expressions",
 "Wrapping depends on the position of every line break; tests contain one position per construct.",
 [FMT,TREE],[("is_multiline of the production's tree","tree.rs Tree::is_multiline"),("break_or_space","formatting.rs")],["line breaks of the formatted list"],hook=H)
p("C08","Every valid Modelica program is accepted",
 "Every token sequence derivable from the Modelica 3.7 grammar is parsed without errors, whatever its line layout and comments. The language includes the simplifications that the project documents: any simple expression as an equation or statement head, `:=` in modifications, and `end` as a primary except as the first token of an equation, where it closes the section or branch.",
 ["inputs","programs"],"every sentence of the grammar",
 "The grammar's language is infinite; tests parse a few sentences per production.",
 [PAR],[("recursive descent over all productions","parsing.rs"),("lookahead budget reset on each advance","parsing.rs nth/advance")],["errors returned by parse"],
 state=[("lifes","remaining lookaheads before the parser gives up","parsing.rs Parser")],hook=H)
p("C09","Invalid programs are never accepted",
 "Every source text whose token sequence is not derivable from the grammar, or which contains a lexical error, yields at least one diagnostic; it is never formatted as if it were valid (the documented simplifications, any simple expression as an equation, `:=` in modifications and `end` as a primary except as the first token of an equation, count as valid).",
 ["inputs","programs"],"every source text outside the grammar",
 "The complement of the grammar is infinite; the tests hold two invalid sentences.",
 [PAR,LEX],[("expect() and error() record errors","parsing.rs"),("generate_error","lexing.rs")],["errors returned by parse","exit code of the CLI"],hook=H)
p("C10","The parser survives arbitrary input",
 "For every UTF-8 text and every grammar entry point, parsing terminates within a bounded number of steps and returns; it never aborts, and every diagnostic names a source location. Excluded are derivations so deep that the recursive descent exhausts the call stack of the process: deep nestings, and argument lists of tens of thousands of items, which the grammar derives by right recursion.",
 ["inputs"],"every UTF-8 text",
 "Crashes hide in rare byte or token combinations at rare places such as end of input.",
 [LEX,PAR],[("lookahead budget","parsing.rs nth"),("char boundary arithmetic","lexing.rs next"),("eof guards","parsing.rs")],["process outcome of parse"],hook=H)
p("C11","Lexing is lossless with exact positions",
 "The texts of tokens and comments are exactly the slices of the source at their reported positions, the slices do not overlap and appear in source order, everything between them is whitespace or covered by a reported error, line and column numbers count lines and characters from 1 (a line ends at LF, and at a CR that no LF follows), and tokens and comments share one consecutive numbering in source order.",
 ["inputs"],"every UTF-8 text",
 "Multi-byte characters, CR/LF mixes and nested delimiters interact; tests have five fixed texts.",
 [LEX],[("position update per character","lexing.rs next"),("slice by start/current","lexing.rs generate_token")],["tokens and comments returned by the lexer"],
 state=[("start/current","position of the token being built","lexing.rs Lexer")],hook=H)
p("C12","Lexical classification follows the specification",
 "The source is split by longest match into the Modelica token classes: keywords, identifiers, quoted identifiers with escapes, strings with escapes, unsigned integers and reals, all operators, line and block comments; a keyword is recognised only as a whole word and anything else is reported as a lexical error.",
 ["inputs"],"every UTF-8 text",
 "All neighbouring byte combinations matter; tests lex five texts.",
 [LEX],[("lex_* state machine","lexing.rs")],["token kinds returned by the lexer"],hook=H)
p("C13","Check mode is read-only and exact",
 "With --check no file is created, modified or removed; the exit code is 0 exactly if every selected file is readable, free of syntax errors and already equal to its formatted form, otherwise 1, and each error-free file is reported as passed or failed accordingly.",
 ["inputs","configurations","fault_sequences"],"every set of files and contents, every combination of valid, invalid, unformatted and unreadable files",
 "There is no test of the command line at all.",
 [MAIN],[("format_files with check=true","main.rs")],["file system operations, standard output and exit code"])
p("C14","Format mode writes only finished results",
 "In format mode a file is rewritten only if it parsed without errors, and then with its formatted text followed by one newline; a file with errors, a file that cannot be read or written and a file that is not a Modelica file are left as they were; these and a directory that cannot be listed make the exit code 1 and do not prevent the other files from being processed; the exit code is 0 otherwise.",
 ["inputs","configurations","fault_sequences"],"every set of files and contents, every combination of valid and invalid files, failing reads, writes and directory listings",
 "There is no test of the command line at all.",
 [MAIN],[("format_files with check=false","main.rs"),("read_file error handling","main.rs")],["file system operations and exit code"])
p("C15","Exactly the requested Modelica files are processed",
 "Paths on the command line select exactly the named files plus every file with the extension .mo found at any depth below named directories, each processed once per mention; other files in directories are never read or written, options print help, version or an error with the documented exit code and touch no file.",
 ["inputs","configurations"],"every argument list and every directory tree",
 "There is no test of the command line at all.",
 [MAIN],[("get_files_from_dir","main.rs"),("is_modelica","main.rs"),("argument dispatch in main","main.rs")],["file system operations, standard output, exit code"])
p("C16","Diagnostics point at the offending place",
 "Each diagnostic has the form name:line:column: message, where line and column are those of the first token that cannot continue a valid program (or of the last token if the input ended too early) for the first parser diagnostic (or the token directly before it, where that is a dot, `initial` or the `=` of an argument that is not a named one), and of the beginning of the malformed lexeme for lexical diagnostics.",
 ["inputs"],"every source text with errors",
 "Error positions depend on the exact error place; tests check one message.",
 [PAR,LEX],[("error() uses the current token","parsing.rs"),("generate_error uses the start position","lexing.rs")],["error strings returned by parse"],hook=H)
p("C17","Layout within lines does not matter",
 "Two sources with the same tokens and comments on the same lines format to identical text, whatever spaces, tabs, form feeds or columns separate their tokens, whether lines end in LF or CR LF, and regardless of where empty lines beyond the first or a line's indentation were.",
 ["inputs","programs"],"every pair of sources that differ only in horizontal white space, indentation or surplus empty lines",
 "Relates two runs; tests never compare outputs of two layouts.",
 [FMT,TREE],[("formatter consults line numbers only","formatting.rs, tree.rs")],["text returned by pretty_print"],hook=H)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80
