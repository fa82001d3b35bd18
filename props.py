#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Lexing is exact: kinds, spans, lines and rejections",
     "For every source text, the tokenizer either yields exactly the maximal-munch token sequence of the BMS lexical grammar, each token with the correct kind, byte span, line and column (a tab counts as four columns, a carriage return starts over), or rejects the text with the error kind and position of the first offending byte. No byte other than whitespace is skipped, and comments and string literals (including multi-line comments and escaped quotes) end where the grammar says.",
     ["inputs"], "all source texts; explored: all byte strings up to a length, all lexeme sequences under all separators",
     "A handful of sample files are tokenized; no test looks at token spans, near-miss keywords, or lexemes adjacent to each other or to the end of the file.",
     ["src/bms/tokenization/tokenize.cpp", "src/bms/tokenization/token_type.hpp"],
     [("tokenize", "src/bms/tokenization/tokenize.cpp"), ("token kind tables", "src/bms/util.cpp")], ["token vector / Tokenize_Error"])
prop("C02", "Integer literals denote their exact value or are diagnosed",
     "Every binary, octal, decimal or hexadecimal integer literal (digits in either case) is either evaluated to exactly the integer it spells or, if that integer is not representable in the language's integer type, rejected with a diagnostic. No literal is ever silently truncated, wrapped or given a different value, and no text outside the literal grammar is accepted as one.",
     ["inputs"], "all literal spellings; explored: all short literals per base and all power boundaries up to 2^135",
     "Tests use a few small literals; overflow boundaries near 2^127 in four bases and digit-class boundaries are never sampled.",
     ["src/common/parse.cpp", "src/common/parse.hpp", "src/bms/analyze.cpp"],
     [("parse_integer_literal", "src/common/parse.cpp"), ("literal typing", "src/bms/analyze.cpp")], ["value of a global constant"])

prop("C03", "The parser accepts exactly the grammar and builds the right tree",
     "For every token sequence, the parser accepts it if and only if it is derivable from the BMS grammar (grammar.ebnf); when it accepts, the syntax tree is the unique one the grammar designates (associativity, operand order, else-binding, annotation placement, comments ignored), and when it rejects, the error is reported at the first token that cannot continue a valid program. Parsing time does not explode with nesting depth.",
     ["inputs"], "all token sequences; explored: all sequences to a length in 19 grammatical contexts, all one-token edits of seed programs, all operator chains and parenthesisations to a depth, nesting to 64",
     "Tests parse a dozen sample files and compare no tree; near-miss sentences and unusual operator mixes are not sampled.",
     ["src/bms/parsing/parse.cpp", "src/bms/parsing/grammar.ebnf", "src/bms/parsing/astp.hpp"],
     [("recursive descent", "src/bms/parsing/parse.cpp"), ("syntax tree", "src/bms/parsing/astp.hpp")], ["Parsed_Program tree", "Parse_Error fail token"])
prop("C04", "Every name refers to the declaration that the scoping rules designate",
     "For every program, each identifier resolves to the one visible declaration of that name: names are visible from their declaration to the end of their block, global names everywhere; a declaration of a name that is already visible (shadowing) is rejected; uses of names that are not visible, of functions as values and of non-functions as callees are rejected, each with the matching diagnostic. Names that go out of scope can be declared again without any interference.",
     ["inputs"], "all declaration/use histories; explored: all sequences of declarations, uses and scope boundaries to a length over few names",
     "Tests contain one program per diagnostic; re-declaration after scope exit and interleavings of scopes are not covered.",
     ["src/bms/analyze_name_lookup.cpp", "src/bms/symbol_table.hpp", "src/bms/lookup_result.hpp"],
     [("name lookup pass", "src/bms/analyze_name_lookup.cpp"), ("symbol table", "src/bms/symbol_table.hpp")], ["Analysis_Error", "results of executing the program"])
prop("C05", "Operators compute the mathematically defined result for every operand",
     "For every operator, operand type (Bool, Int, Uint(1)..Uint(128) and Int mixed with Uint) and operand value, the result is the exact one: Uint arithmetic is modulo 2^N, Int arithmetic is exact or the error int_overflow, comparisons follow the numeric order, shifts and divisions fail for operands outside their domain, and Int converts to Uint only if the value fits. No operation yields a value outside its type's range.",
     ["inputs"], "all operand values of all types; explored: complete operand spaces of small widths, boundary grids of all others",
     "Tests evaluate a few expressions with 32-bit operands; width 1, 127, 128, the sign boundary and mixed operands are not sampled.",
     ["src/bms/evaluation/operations.cpp", "src/bms/concrete_value.hpp", "src/bms/concrete_type.hpp"],
     [("evaluate_*", "src/bms/evaluation/operations.cpp"), ("value representation", "src/bms/concrete_value.hpp")], ["VM results", "constant values"])
prop("C06", "Well-typed programs, and only those, are accepted",
     "Every expression, statement and declaration is accepted if and only if it obeys the typing rules (common type of Int and Uint(N) is Uint(N), no mixing of widths, no Void operands, Bool conditions, implicit conversion only from Int to Uint, exact argument counts and types, return types); every rejected program gets the diagnostic of the violated rule at the offending construct, and accepted programs never fail with a type error later.",
     ["inputs"], "all expressions and statements; explored: all expressions to two (three) operators over all types, all statement forms x types x expressions",
     "Tests contain one offending program per diagnostic; the cross product of contexts and types is not covered.",
     ["src/bms/analyze.cpp", "src/bms/evaluation/operations.cpp"],
     [("type analysis", "src/bms/analyze.cpp"), ("check_* typing rules", "src/bms/evaluation/operations.cpp")], ["Analysis_Error"])
prop("C07", "Compile-time evaluation and execution agree, and evaluate the same operands",
     "A constant expression has exactly the value (or fails with exactly the error) that executing the same expression would produce, including through function calls, conversions, if-expressions and short-circuit operators: operands that execution would not evaluate are not evaluated, all others are, left to right, and folding never changes what an expression means.",
     ["inputs"], "all constant expressions; explored: all operator applications on constants of all types, all nestings of lazy operators over failing operands, all argument lists with failing arguments",
     "Tests never compare folding with execution; errors hidden in unevaluated operands are not sampled.",
     ["src/bms/analyze.cpp", "src/bms/value.hpp", "src/bms/vm/codegen.cpp", "src/bms/vm/vm.cpp"],
     [("constant folding", "src/bms/analyze.cpp"), ("code generation", "src/bms/vm/codegen.cpp")], ["constant values", "VM results"])
prop("C08", "Control flow executes exactly the statements the program designates",
     "For every nesting of blocks, if, else-if, else, while, break, continue and return, compiled code executes exactly the sequence of statements that the structured semantics designates: branches go to the right target, break and continue act on the innermost loop, variables are fresh whenever their declaration is reached, reading an uninitialized variable or falling off the end of a non-Void function is an error, and code after the function is never executed.",
     ["inputs", "histories"], "all statement trees; explored: all bodies up to 5 (6) items from 17, doubly nested loops, all function endings, on all inputs",
     "Tests run two loops; jump offsets of nested statements in unusual combinations are not covered.",
     ["src/bms/vm/codegen.cpp", "src/bms/vm/vm.cpp"],
     [("jump generation", "src/bms/vm/codegen.cpp"), ("jump execution", "src/bms/vm/vm.cpp")], ["VM result per input"])
prop("C09", "Calls pass arguments correctly and isolate the callee",
     "A call evaluates its arguments left to right, converts each to the parameter's type, binds it to that parameter, runs the callee in a fresh frame and returns its converted result to the call site; the caller's variables, operand stack and pending operations are unaffected by whatever the callee does, and an error in a callee ends the whole execution with that error.",
     ["inputs", "histories"], "all call structures; explored: all three-function programs with bodies of <=2 (3) items, all signatures of <=3 parameters x all argument lists",
     "Tests call functions of one parameter; argument order, nested calls inside expressions and name clashes between frames are not sampled.",
     ["src/bms/vm/vm.cpp", "src/bms/vm/codegen.cpp", "src/bms/vm/linear_map_stack.hpp", "src/bms/analyze.cpp"],
     [("call/return", "src/bms/vm/vm.cpp"), ("frames", "src/bms/vm/linear_map_stack.hpp")], ["VM result per input"])
prop("C10", "Bit-generic functions behave like their width-specific copies",
     "Every call of a bit-generic function deduces the widths from its Uint arguments (repeated and non-generic parameters included) or is diagnosed; each distinct combination of widths gets exactly one instance, which behaves as the function with these widths written out: its types, requires-clause, assertions, constants and nested calls use its own widths, independent of which other instances exist and in which order they were requested.",
     ["inputs", "histories"], "all generic signatures and call histories; explored: all signatures of <=2 (3) parameters x argument lists, bodies of <=2 (3) items in six widths, all chains of three mutually calling generics",
     "Tests instantiate one function with one width; interaction between instances is not covered.",
     ["src/bms/instantiate.cpp", "src/bms/deduction.hpp", "src/bms/analyze.cpp"],
     [("instantiation", "src/bms/instantiate.cpp"), ("deduction", "src/bms/analyze.cpp")], ["instances", "VM result per instance and input"])
prop("C11", "Compile-time assertions fail exactly when their condition is false",
     "A static_assert or requires-clause rejects the program if and only if its condition is false, not Bool or not a constant, wherever it stands (global, in bodies, in dead code, in each generic instance that is used), and an assert() fails exactly when it is executed with a false condition, at compile time and at run time.",
     ["inputs"], "all conditions and positions; explored: 32 conditions and their combinations with && || == in 18 positions and both declaration orders",
     "Tests use a handful of trivially true or false assertions.",
     ["src/bms/analyze.cpp", "src/bms/evaluation/operations.cpp", "src/bms/vm/vm.cpp"],
     [("static_assert, requires", "src/bms/analyze.cpp"), ("builtin assert", "src/bms/evaluation/operations.cpp")], ["Analysis_Error", "Execution_Error"])
prop("C12", "Annotations are accepted exactly where and how they are documented",
     "Every annotation is checked wherever it is written: an unknown annotation, one on a construct it does not apply to, and any argument list with an unknown, duplicate, missing, surplus, wrongly typed or out-of-range argument is rejected with the matching diagnostic at the offending annotation or argument; every other use is accepted and does not change what the program computes.",
     ["inputs"], "all annotation uses; explored: 13 names x 14 targets x all argument lists of <=2 (3), all pairs of annotations",
     "Tests contain one sample per diagnostic; positional/named argument mixes and value limits are not sampled.",
     ["src/bms/analyze_annotations.cpp", "src/bms/util.cpp", "src/bms/annotation.hpp"],
     [("resolve_annotations", "src/bms/analyze_annotations.cpp")], ["Analysis_Error"])

prop("C13", "No source text crashes, corrupts or hangs the BMS toolchain",
     "For every sequence of bytes, tokenizing, parsing, analyzing, dumping, running the compiled functions and generating code in a supported language ends in bounded time with a result or an error value: no crash, no failed internal assertion, no out-of-bounds or uninitialized access, no arithmetic undefined behaviour, no escaped exception.",
     ["inputs"], "all source texts; explored: all short byte, character, lexeme and fragment sequences, single-token edits, and the program spaces of the other properties",
     "Tests feed a few dozen files; malformed inputs reach code that tests never run, and tests run without sanitizers.",
     ["src/bms", "src/bmd/codegen", "src/common/diagnostics.cpp"],
     [("tokenizer, parser, analyzer, VM", "src/bms"), ("dumps and diagnostics", "src/common/diagnostics.cpp"), ("code generators", "src/bmd/codegen")], ["process exit", "sanitizer reports"])
prop("C14", "The virtual machine executes each instruction as specified",
     "For every machine state and instruction, one cycle performs exactly that instruction's effect on operand stack, variables, call stack and instruction counter, or fails with exactly the error of the violated precondition (stack underflow, uninitialized load, non-Bool condition, jump or call outside the program, return without call, symbolic jump); reset makes the machine behave as new, and a halted or failed machine can be reused without any trace of earlier executions.",
     ["histories"], "all instruction sequences and host call sequences; explored: all sequences of <=3 (4) instructions over a complete instruction alphabet, all histories of aborted and completed executions over three functions",
     "Tests only run compiler-produced code to completion; malformed code, aborted executions and reuse are not sampled.",
     ["src/bms/vm/vm.cpp", "src/bms/vm/vm.hpp", "src/bms/vm/instructions.hpp", "src/bms/linear_map_stack.hpp"],
     [("cycle dispatch", "src/bms/vm/vm.cpp"), ("machine state", "src/bms/vm/vm.hpp")], ["Execution_Error", "stack, counter, variables after each cycle"])
prop("C28", "Diagnostics state true facts about the program they reject",
     "Every rendered diagnostic names the file, line and column of the error it stands for, shows exactly that source line with the mark under that column, states the right values (the operands of the failed comparison, the evaluated width), names the token that is really there and expects only tokens that the parser would really accept there; its notes lead to the declaration, expression, parameter or annotation which they speak of, a failed execution to the operation that failed; the rendering with colors differs from the one without only by color codes, user errors are never presented as internal errors, and dumps of tokens, trees and compiled code list every token, node and instruction with what belongs to it.",
     ["inputs"], "all erroneous programs; explored: the erroneous programs of the spaces of C01, C03, C04, C06, C10-C12 and all failed comparisons of boundary values of all types",
     "Tests check error codes only, never what is printed.",
     ["src/common/diagnostics.cpp", "src/bms/analysis_error.hpp", "src/bms/parsing/parse.cpp", "src/common/source_position.hpp"],
     [("print_analysis_error, print_parse_error, print_tokenize_error", "src/common/diagnostics.cpp"), ("expected token sets", "src/bms/parsing/parse.cpp"), ("error positions", "src/bms/analyze.cpp")], ["rendered text"])
prop("C15", "Scopes and stack frames keep names apart",
     "A symbol table answers a lookup with the declaration of its own scope if there is one and otherwise with that of the nearest enclosing scope, never with one from a sibling, inner or abandoned scope; declaring a name that is visible already reports the existing declaration unless shadowing is allowed; the virtual machine's frame stack gives each frame its own variables, hides those of callers, and popping a frame restores exactly what was there before the call.",
     ["histories"], "all histories of container operations; explored: all histories of <=5 to 7 operations with all lookups after each",
     "Tests never touch these containers directly; programs exercise only a few of their histories.",
     ["src/bms/symbol_table.hpp", "src/bms/vm/linear_map_stack.hpp"],
     [("Symbol_Table", "src/bms/symbol_table.hpp"), ("Linear_Map_Stack", "src/bms/vm/linear_map_stack.hpp")], ["lookup results after every operation"])
prop("C24", "Variant and Result manage their contents like the standard vocabulary types",
     "After every sequence of constructions, copies, moves, assignments (to itself included), visits and comparisons, a Variant holds exactly the alternative and value, and a Result exactly the value or error, that the corresponding std::variant or std::expected would hold; every contained object is constructed and destroyed exactly once, also when copying throws.",
     ["histories"], "all operation histories; explored: all histories of the stated length over trivially copyable, counted and throwing alternatives",
     "Tests contain a few constructions and visits; assignment between alternatives, self-assignment and lifetimes are not covered.",
     ["src/common/variant.hpp", "src/common/result.hpp"],
     [("Variant", "src/common/variant.hpp"), ("Result", "src/common/result.hpp")], ["active alternative, value, live objects"])
prop("C26", "The helper functions compute what they are documented to compute",
     "Three-valued logic follows Kleene's tables and short-circuits like them; every match_* function returns exactly the longest prefix that is such a token (or the reason there is none); number parsing and printing are inverse to each other for all representable values in all bases; reading a file yields exactly its bytes or the reason it cannot be read.",
     ["inputs"], "all inputs; explored: all truth tables, all strings of <=5 (6) characters of the relevant classes, boundary numbers of every width, files around every buffer size",
     "Tests contain a few samples per function.",
     ["src/common/tribool.hpp", "src/common/parse.cpp", "src/common/to_string.hpp", "src/common/io.cpp"],
     [("Tribool", "src/common/tribool.hpp"), ("match_*, parse_*_literal", "src/common/parse.cpp"), ("file_to_string", "src/common/io.cpp")], ["returned values"])
prop("C18", "Code in documents is shown as it was written",
     "For every \\c and \\codeblock content, the text of the HTML element produced for it is the content character by character (after undoing the HTML escapes, except for blanks before the first token and at the end): nothing is lost, doubled, reordered or reinterpreted, whether the code is highlighted (BMS, the default), BMD, C or plain text, and also when it does not form valid tokens; tags of highlighting only wrap whole tokens; unknown languages, architectures and extensions are rejected with the error that names them, and instructions with an architecture link to its reference.",
     ["inputs"], "all contents; explored: all sequences of <=3 (4) of 34 lexemes and <=4 (5) of 17 with 2 separators in 5 contexts, all raw contents of <=5 (6) of 12 comment, brace and escape lexemes, all single-character edits of 24 documents, all language and architecture names with all kinds of content",
     "No test converts a document; the code that copies the blanks between tokens depends on every combination of tokens, tabs, comments and line breaks.",
     ["src/bmd/html/bms_to_html.cpp", "src/bmd/html/doc_to_html.cpp"],
     [("bms_inline_code_to_html", "src/bmd/html/bms_to_html.cpp"), ("convert_code_directive, convert_instruction_directive", "src/bmd/html/doc_to_html.cpp")], ["text of the code elements in the HTML", "Document_Error"])
prop("C19", "The document parser accepts exactly the grammar and builds the right tree",
     "For every text, the BMD parser accepts it iff the grammar derives it; the tree has exactly the paragraphs, text spans, directives, arguments and blocks that the text contains, in order, split at blank lines, around comments and at directives, with exact source positions; and a rejected text is reported with the error that applies and at the character where the text stops being a prefix of a correct document.",
     ["inputs"], "all texts; explored: all sequences of <=4 (5) of 31 lexemes, all combinations of <=3 (4) of 20 elements with 10 kinds of blanks in 7 contexts, all argument lists of <=5 (6) lexemes, all directives in all contexts, every edit of one character of 24 documents",
     "The repository has no test for the document parser.",
     ["src/bmd/parsing/parse.cpp", "src/bmd/parsing/ast.hpp", "src/bmd/parsing/grammar.ebnf"],
     [("Parser", "src/bmd/parsing/parse.cpp"), ("ast nodes", "src/bmd/parsing/ast.hpp")], ["AST", "Parse_Error code and position"])
prop("C20", "HTML made from a document is well-formed and says what the document says",
     "For every correct document, the HTML output is well-formed (every tag is closed in order, attributes are quoted where necessary, <, > and & are escaped) and consists of a head with the given stylesheets and a body which contains exactly the document's paragraphs, directives with their tags and attributes, and texts with escape sequences replaced, in order; words are separated by blanks exactly where they are in the document.",
     ["inputs"], "all documents; explored: the correct documents of C19",
     "The repository has no test for the HTML output.",
     ["src/bmd/html/doc_to_html.cpp", "src/bmd/html/html_writer.cpp"],
     [("HTML_Converter", "src/bmd/html/doc_to_html.cpp"), ("HTML_Writer", "src/bmd/html/html_writer.cpp")], ["HTML text"])
prop("C22", "Any text is handled safely as a document",
     "For every sequence of bytes, parsing it as a document, dumping the tree, converting it to HTML and rendering its errors ends in bounded time with a result or an error value: no crash, no failed internal assertion, no out-of-bounds or uninitialized access, no arithmetic undefined behaviour, no escaped exception.",
     ["inputs"], "all texts; explored: the documents and non-documents of C18-C20 and C23 with smaller bounds",
     "The repository has no test for documents and none runs with sanitizers.",
     ["src/bmd"],
     [("parser", "src/bmd/parsing/parse.cpp"), ("conversion", "src/bmd/html"), ("dumps and diagnostics", "src/common/diagnostics.cpp")], ["process exit", "sanitizer reports"])
prop("C23", "Directives are accepted only where they belong and with the content they take",
     "For every directive name, argument list, kind of block and surrounding context: the directive is recognized or reported as unknown; its block is parsed as the kind of content which the directive takes (none, raw, text, span, blocks, list or metadata); it is rejected where its environment does not allow it; \\meta is accepted once, only before any other content, with each of \\title, \\bmsfun and \\cequiv at most once; a title becomes the h1 heading of the document.",
     ["inputs"], "all directives in all contexts; explored: all directives and 12 unknown names with 14 blocks, 4 argument lists and 14 contexts, all nestings of 3 (4) directives, all \\meta contents of <=3 (4) of 16 entries in 14 positions, all text spans of headings, formatting and instructions with their blanks, every edit of one character of 24 documents",
     "The repository has no test for documents; the rules combine several tables indexed by directive.",
     ["src/bmd/directive_type.hpp", "src/bmd/enums.cpp", "src/bmd/parsing/parse.cpp", "src/bmd/html/doc_to_html.cpp"],
     [("directive tables", "src/bmd/enums.cpp"), ("convert_meta_directive", "src/bmd/html/doc_to_html.cpp"), ("directive_type_by_id", "src/bmd/directive_type.hpp")], ["AST, Parse_Error, Document_Error, HTML"])
prop("C21", "The HTML writer writes exactly what it is told and refuses misuse",
     "After every sequence of calls of HTML_Writer, the tokens passed to the consumer, with their types, are exactly the markup of these calls: escaped text, attributes quoted when the HTML standard requires it, indentation and line breaks as the formatting style of each tag demands; write_inner_text returns the number of lines; is_done() is true iff there is a preamble and no tag is open; and calls out of order (a second or missing preamble, an end without begin, anything else while attributes are written, forgotten end of attributes, invalid names, comments containing -->) are refused without writing anything. The simple and the colored consumer write the same text, unchanged by the format flags of the stream, and report whether the stream took it.",
     ["histories"], "all call histories; explored: all histories of <=4 (5) of 34 operations and <=5 (6) of 17, all nestings of 3 tags of all formatting styles with gaps, all attribute values and names of <=3 (4) of 22 characters",
     "The repository has no test for the writer; indentation and refusals depend on the history.",
     ["src/bmd/html/html_writer.cpp", "src/bmd/html/html_writer.hpp", "src/cli/glue.cpp"],
     [("HTML_Writer, Attribute_Writer", "src/bmd/html/html_writer.cpp"), ("Simple_HTML_Consumer, Colored_HTML_Consumer", "src/cli/glue.cpp")], ["token sequence, is_done(), assertion errors"])
prop("C25", "Code strings keep text and spans together",
     "After every sequence of appending text with or without a type and taking back to an earlier length, a Code_String consists of exactly the remaining text and one span per typed piece at its place; iterators visit the spans in order in both directions and compare and subtract like random access iterators; printing with colors sets exactly the typed pieces in color and otherwise prints the same text as without; every documented language name, and no other, denotes its language.",
     ["histories"], "all operation histories; explored: all histories of <=5 (6) of 13 operations; all names of <=3 of 20 characters and all single-character edits of the documented names",
     "The repository has no test for code strings.",
     ["src/bmd/codegen/code_string.hpp", "src/cli/glue.cpp"],
     [("Code_String, Code_String_Iterator", "src/bmd/codegen/code_string.hpp"), ("print_code_string, code_language_by_name", "src/cli/glue.cpp")], ["text, spans, printed text"])
prop("C16", "Generated BMS code is the same program",
     "For every accepted program and all code options, generating BMS code from the analyzed program succeeds and yields a text that is the same program again, apart from comments, annotations, spelling of whitespace and redundant parentheses: the same declarations, types, requires clauses, statements, operators, operands and literals in the same structure. That text is accepted, and generating code from it yields the same text again. It is laid out as the options say: indentation is the nesting depth times indent_size of indent_char, opening braces of functions, conditions and loops are on a line of their own exactly if break_after_function or break_after_if say so, else follows its closing brace on the same line exactly in k_and_r style, every statement has a line of its own, one empty line separates declarations, and no line ends in blanks. Subexpressions are parenthesized always if the options say so, otherwise only where the grammar needs it (or for a conditional within a conditional). Every token is covered by exactly one highlighted span of its kind, in order, and what the string held before is kept.",
     ["inputs", "configurations"], "all accepted programs and code options; explored: every typed expression tree of depth <=2 and every tree of depth 1 over all operators in 17 contexts, all bodies of <=4 (5) of 20 items, all pairs (triples) of 34 declarations, and all accepted programs of the spaces of C03-C12; 7 option sets",
     "No test of the repository runs the BMS code generator; the grammar's rules about which operands need parentheses depend on every pair of operators.",
     ["src/bmd/codegen/codegen_bms.cpp", "src/bmd/codegen/generator_base.hpp", "src/bms/expression_type.hpp"],
     [("Bms_Code_Generator", "src/bmd/codegen/codegen_bms.cpp"), ("generate_subexpression, Code_Generator_Base", "src/bmd/codegen/generator_base.hpp"), ("compare_precedence", "src/bms/expression_type.hpp")], ["generated text and spans"])
prop("C27", "The command line tool does what it was asked or says why not",
     "For every command line, the tool ends with status 0 exactly if it did what was asked: dump_tokens, dump_ast and verify report on the tokens, tree and validity of a .bms file; generate prints the code of a .bms file in a language; html converts a .bmd file. Output is what the library produces for the file, and an output file holds the same text; nothing else is written. Otherwise the status is 1 and the tool says what is wrong: usage for missing arguments, unknown commands, languages, kinds of file, unreadable or missing files, diagnostics for invalid contents, and output that cannot be written.",
     ["inputs", "configurations"], "all command lines and files; explored: every command (and misspellings), with 0 to 3 arguments, for 30 files (valid, invalid at every stage, empty, large, missing, directory), standard output working, full and closed",
     "No test of the repository runs the command line tool.",
     ["src/cli/main.cpp", "src/cli/glue.cpp"],
     [("main and the command functions", "src/cli/main.cpp"), ("glue", "src/cli/glue.cpp")], ["exit status, standard output and error, output files"])
prop("C17", "Generated C and C++ code compiles and computes what the program means",
     "For every accepted program whose names are not reserved in the target language and that has no variables or parameters of type Void, and for C99, C++20 and C23 (with and without _BitInt) and all code options: if every width of Uint written in the program exists in the target language (8, 16, 32 and 64; any with C23), generation succeeds, and the text, after the standard headers, is accepted by a conforming compiler and defines every function that is not generic with the corresponding parameter and result types. Whenever the program gives a call of such a function a value, and all Int values on the way fit into int, the compiled function returns that value without undefined behaviour. Constants keep their value and type, and functions may be called before they are defined. Widths the language does not have are refused as unsupported_integer_width, programs that call instances of generic functions are refused, and refusing leaves the string as it was. Layout follows the options as for BMS code (C16), and every token is covered by exactly one highlighted span of its kind.",
     ["inputs", "configurations"], "all accepted programs, argument tuples, dialects and code options; explored: every operator, conditional, conversion and call over all pairs of leaves and all trees of depth 2 over representative operands for Uint of 8, 16, 32 and 64 (and 8 more widths for _BitInt), all bodies of <=4 (5) of 16 statement items, all orders of declarations, all signatures of <=2 parameters; each compiled by gcc or clang with undefined-behaviour traps and run on argument grids; 6 dialects",
     "No test of the repository runs the C and C++ code generator; integer promotions, shifts and precedence make the result depend on every combination of operator, width and operand.",
     ["src/bmd/codegen/codegen_c_cpp.cpp", "src/bmd/codegen/generator_base.hpp"],
     [("C_Cpp_Code_Generator", "src/bmd/codegen/codegen_c_cpp.cpp"), ("to_c_type", "src/bmd/codegen/codegen_c_cpp.cpp"), ("generate_subexpression, Code_Generator_Base", "src/bmd/codegen/generator_base.hpp")], ["generated text and spans, error codes, results of the compiled functions"])
prop("C29", "All memory is given back, and to where it came from",
     "For every program and every document, right or wrong: once the results (tokens, trees, analyzed program, machine, generated code, HTML, diagnostics) and the memory resource passed by the caller are gone, all memory which was allocated elsewhere on the way has been freed, and every block which was given back to the resource before that was allocated from it, is given back once, and with the size and alignment with which it was allocated.",
     ["inputs", "histories"], "all programs and documents; explored: the program spaces of C03, C04, C06-C12, the document spaces of C18-C23, and sequences of them, with a checking memory resource and a counted heap",
     "Tests run without leak detection and every test process ends after a second.",
     ["src/bms", "src/bmd", "src/common/variant.hpp", "src/common/result.hpp"],
     [("document parser", "src/bmd/parsing/parse.cpp"), ("analyzed program", "src/bms/ast.cpp"), ("conversion to HTML", "src/bmd/html/doc_to_html.cpp"), ("code generators", "src/bmd/codegen")], ["number of live heap blocks before and after", "size and alignment of blocks given back"])
prop("C30", "Separate pieces of work do not influence one another",
     "For all programs and documents, each processed with memory of its own: what comes out for one of them (tokens, trees, acceptance, diagnostics, constants, results of execution, generated code, HTML) is the same whatever other programs and documents the same process has processed before, is processing in between on the same thread, or is processing at the same time on another thread, and wherever the one is interrupted in favour of the other.",
     ["histories", "schedules"], "all programs and documents in all orders and interleavings; explored: all ordered pairs of 12 programs and documents with one preemption at every entry and exit of a function of the library and two preemptions at allocations, instructions, tokens and stages, and in turns on one thread with all interleavings of the stages; all pairs (triples) of 46 one after another",
     "Tests process one file after another on one thread; which file is first never varies.",
     ["src/bms", "src/bmd", "src/common"],
     [("tokenizer, parser, analysis", "src/bms"), ("virtual machine", "src/bms/vm"), ("documents and generators", "src/bmd"), ("diagnostics", "src/common/diagnostics.cpp")], ["the result alone"])
prop("C31", "The library gives the same answer however it is asked",
     "Wherever the library offers several ways of asking for the same thing, they agree, for every input. Tokenizing, parsing and analyzing with a diagnostic consumer tell the consumer exactly the one error that the forms returning a result return, and return false exactly then; analysis at once is name resolution of annotations, name lookup and semantic analysis in turn; generating code for a language is what the function for that language does. Looking up a global entity by name finds the first declaration of that name or nothing, and looking for a function or a constant finds the same one or says that it is of the wrong kind; this, the source, the file name and what the program computes stay the same when the program is moved, by construction or assignment, whatever memory the programs use. Checking the types of an operator, conversion, conditional or builtin call agrees with evaluating it on values; evaluating on values that may be unknown gives the concrete result if all of them are known, and otherwise nothing that a completion of the unknown values contradicts. Instantiating all bit-generic functions with a width yields for each exactly one instance, which is accepted, rejected and computes as the function written with that width, and leaves the others alone. Names of enumerators (tokens, operators, rules, errors, languages, types, directives) are distinct, tokens are spelled by their code name and classified consistently, and the listing of a program names each instruction with its operands.",
     ["inputs", "histories"], "all programs, names, values and orders of moving; explored: the program spaces of C01, C03, C04, C06-C12, all programs of <=3 (4) of 7 kinds of declarations over 4 names in 8 states, all operators and conditionals over 8 types and all their unknown operands, all pairs (triples) of 25 declarations with 5 (9) widths, and all enumerators",
     "Tests use one form of each function, never move an analyzed program and never look for something that is not there.",
     ["src/bms", "src/bmd/codegen", "src/bmd/directive_type.hpp"],
     [("tokenize, parse, analyze with a Diagnostic_Consumer", "src/bms/basic_diagnostic_consumer.hpp"), ("Analyzed_Program", "src/bms/ast.cpp"), ("check_* and evaluate_*", "src/bms/evaluation/operations.cpp"), ("Value, Concrete_Value", "src/bms/value.hpp"), ("instantiate_all", "src/bms/instantiate.cpp"), ("names", "src/bms/util.cpp"), ("listing", "src/bms/vm/instructions.cpp")], ["results of the functions of the library"])
prop("C32", "The analyzed program is the parsed program, annotated consistently",
     "For every program that is parsed, before analysis, after a successful one and after a failed one: the nodes of the analyzed program correspond one to one to the nodes of the parsed program, with the same kind, name, operator, literal, position, file and order, annotations and parameter lists aside; every node is in the tree once, its parent is the node whose child it is, and the nearest surrounding function, loop, conditional and block are those that enclose it; a node describes itself with its construct, position and name. Each instance of a bit-generic function is a further copy of the whole function with widths of its own, sharing no node with it. What a name refers to is a declaration of that name in the tree: a global one, or a parameter, variable, constant or width of the same function or the same instance, never of another one; calls in functions that are executed refer to functions or instances, not to bit-generic functions. In accepted programs every node of these functions has been analyzed, and what the nodes carry follows from one another: a literal has its value, a name the value or type of its declaration, an operator, conversion or conditional the type and value that its operands give (and no value where they give none), a call the return type of what it calls with arguments of the types of its parameters, a type the width that its expression has, a constant the value of its initializer in its type; conditions are Bool, requirements and static assertions are true, and returned and assigned values are convertible to the type they are given to.",
     ["inputs"], "all programs; explored: the program spaces of C03, C04 and C06-C12, all nodes of each, before and after analysis",
     "Tests look at the outcome of analysis and at computed values, not at the nodes, their links, positions and recorded values.",
     ["src/bms"],
     [("construction of the tree", "src/bms/ast.cpp"), ("nodes and navigation", "src/bms/ast.hpp"), ("copies for instances", "src/bms/instantiate.cpp"), ("types and values", "src/bms/analyze.cpp"), ("lookup", "src/bms/analyze_name_lookup.cpp")], ["nodes of Parsed_Program and Analyzed_Program"])
# -- further properties are appended above this line
if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
