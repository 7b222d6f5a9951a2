#!/usr/bin/env python3
"""One description of every property; writes properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
TYPED, SUBST = "src/chomp/typed/", "src/chomp/ast/substitute.rs"

METHOD = "interprocedural value-flow analysis of MIR"
PROPS = []


def prop(id, title, statement, over, q, tests, files, mech, technique=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, tests=tests, files=files, mech=mech,
                      technique=technique, note=note))


prop("C01", "A grammar is accepted exactly when its operators cannot conflict",
     "A sequence is accepted exactly when its first element cannot match the empty string and, from left to right, no character that starts an element could also continue what the elements before it have read. A choice is accepted exactly when at most one alternative matches the empty string and no two alternatives start with the same character. What is rejected is reported with the first element that offends and what stood before it.",
     ["programs", "inputs"], "every sequence and choice of any length over any alphabet, at any nesting, in any scope",
     "The tests type a few literals and two-element sequences; the condition ranges over all lists of sub-grammars and all pairs of positions in them.",
     [TYPED + "infer.rs", TYPED + "mod.rs", TYPED + "lower.rs"],
     [("typing of sequences, choices and leaves", TYPED + "infer.rs: impl Folder for TypeInfer (fold_cat, fold_alt, fold_epsilon, fold_literal, fold_variable, fold_parameter)")],
     note="The typing folder's MIR is summarised (all paths, loops widened) and each summary compared with a reference typing rule; recursive calls are assumed to satisfy the same rules.")
prop("C02", "Recursion is accepted only when guarded, and its type is the least fixed point",
     "A recursive grammar is accepted only if every use of the recursive name comes after at least one character has been consumed, and the body has exactly one recursion parameter. The type it is given is the least one that its body maps to itself.",
     ["programs", "inputs"], "every recursive grammar, every nesting of recursion and every position of the recursive use",
     "Tests contain one or two hand-written recursive grammars; guardedness and leastness quantify over all bodies.",
     [TYPED + "infer.rs", TYPED + "context.rs"],
     [("fixed point iteration", TYPED + "infer.rs: fold_fix"), ("typing scopes and their unguarded prefix", TYPED + "context.rs: Context")],
     note="Summaries of the fixed-point rule (iteration start, update, exit condition, body typed in which scope) and of every operation of the typing context against reference laws.")
prop("C03", "Nullability, first and follow-last sets are computed by the textbook equations",
     "The empty grammar, literals, sequences, choices and repetitions are assigned nullability, start characters and continuation characters by the standard equations of deterministic context-free expressions. Set union, intersection and membership used for them are exact.",
     ["inputs", "programs"], "every pair of types, every literal string and every character",
     "A unit test samples some sets; the equations must hold for every pair of types, because both acceptance and the generated dispatch rest on them.",
     [TYPED + "mod.rs", TYPED + "lower.rs", "src/chomp/set.rs"],
     [("type algebra", TYPED + "mod.rs: Type"), ("first set", "src/chomp/set.rs: FirstSet"), ("follow-last set", "src/chomp/set.rs: FlastSet")],
     note="Each operation of the algebra summarised and compared with its equation on symbolic types.")
prop("C04", "Substitution never captures a variable",
     "Putting an expression in place of a variable, under any number of binders, leaves every free variable of both expressions referring to what it referred to before. Only occurrences of the substituted variable change.",
     ["programs"], "every expression, every replacement and every binder depth",
     "A capture needs particular binder depths on both sides; the tests cover two or three of them.",
     [SUBST, "src/chomp/visit.rs", "src/chomp/ast/mod.rs"],
     [("index arithmetic", SUBST + ": Substitute, DeepenBy, ShallowBy"), ("dispatch of visitors over the tree", "src/chomp/visit.rs")],
     note="Per-constructor summaries of the renaming and substitution mappers at a symbolic binder depth against De Bruijn substitution; the dispatch of every visitor on every constructor is checked too.")
prop("C05", "Calls are expanded by beta reduction, with arity and callability enforced",
     "Reducing a program replaces every call of a known function by its body with the arguments in the order they were written, and reduces all sub-expressions. A call with the wrong number of arguments or of something that is not a function is an error, and never silently dropped.",
     ["programs"], "every call, any number of arguments, any nesting of calls and binders",
     "Tests have no multi-argument or nested call that would distinguish argument orders under binders.",
     [SUBST],
     [("reduction", SUBST + ": impl Folder for Reduce")],
     note="Summary of the reducing folder per constructor against the reference reduction; termination is not claimed.")
prop("C06", "A generated parser consumes exactly the literal text it was asked for",
     "Consuming a literal succeeds exactly when the remaining input starts with it, and then exactly its characters are consumed; otherwise an error is returned without a panic, for text of any byte length. Reading a fixed number of characters from a set and skipping characters consume exactly the characters they report.",
     ["inputs"], "every input string, every literal, any characters including multi-byte ones",
     "Existing tests use short ASCII inputs; the bug fixed here needed a mismatch after a multi-byte character.",
     ["chewed/src/parse.rs"],
     [("provided methods of the parser trait", "chewed/src/parse.rs: Parser::{consume_str, skip_while, take_chars_from}"), ("the only implementation", "chewed/src/parse.rs: IterWrapper::{next, peek}")],
     note="Provided methods summarised against an abstract parser (unconsumed text, position); the implementation is shown to refine that abstraction; string cuts must be at byte lengths accumulated from matched characters.")
prop("C07", "Parsing a whole input accepts only when nothing is left over",
     "Parsing a string or stream as a whole succeeds exactly when the grammar's parser succeeds and no character remains, and reports leftover input as an error at its position. All entry points for doing so agree.",
     ["inputs"], "every input and every generated or hand-written parser",
     "Tests check a few accepted inputs; leftover input after a success is the untested side.",
     ["chewed/src/parse.rs"],
     [("entry points", "chewed/src/parse.rs: Parse::{parse, parse_str, take_str}, Parser::{parse, take}, impl Parse for Box and Epsilon")],
     note="Summaries of the entry points against take-then-require-end-of-input.")
prop("C08", "Positions name the line and column of the next character",
     "The position a parser reports is the line and column of the next unread character: each character moves one column, except that line terminators start a new line and a carriage return followed by a line feed counts as one terminator. Looking ahead or reaching the end of input never moves it.",
     ["inputs", "histories"], "every input and every interleaving of reading and looking ahead",
     "The existing tests check positions for a handful of strings and never read past the end.",
     ["chewed/src/parse.rs", "chewed/src/position.rs"],
     [("tracking", "chewed/src/parse.rs: impl Parser for IterWrapper"), ("initial position", "chewed/src/position.rs: LineCol")],
     note="Summary of every method of the implementation over a symbolic state (lookahead present or not), character classes split on the comparisons the code and the reference make.")
prop("C09", "Separated lists accept exactly item, separator, item",
     "Iterating a separated list yields each item once and stops at the closing character; after an item there must be a separator followed by the start of another item, or the closing character, and with strict separators a trailing separator is an error. An item that fails is reported, never skipped.",
     ["inputs", "histories"], "every input, item parser, separator, closing character and strictness",
     "No test exercises trailing separators or failing items.",
     ["chewed/src/parse.rs"],
     [("iterator", "chewed/src/parse.rs: impl Iterator for Iter"), ("construction", "chewed/src/parse.rs: Parser::iter_strict")],
     note="Summary of one step of the iterator over an abstract parser and symbolic item parser.")

prop("C10", "Names are lexically scoped",
     "A name refers to the innermost binding in force where it is written: parameters are visible in the body only, a let only in the statements after it and not in its own right-hand side, and a name with no binding is an error. A binding hides outer ones of the same name without disturbing what any other name refers to.",
     ["programs"], "every grammar, any number and nesting of bindings, any shadowing",
     "Tests bind each name once; shadowing and rebinding at depth is where index arithmetic goes wrong.",
     ["src/nibble/convert.rs"],
     [("scopes", "src/nibble/convert.rs: Context"), ("binding constructs", "src/nibble/convert.rs: impl Convert for Statement, LetStatement, Lambda, Expression, Ident")],
     note="Every operation of the scope summarised over a symbolic list of bindings; every binding construct summarised with the scope each child is converted in.")
prop("C11", "Translation keeps the structure and order of what was written",
     "Every construct of a grammar file is translated into the one expression it denotes: sequences and choices keep all their elements in order, calls keep their function and all arguments in order, literals keep their text, parentheses change nothing. A construct with a single element is that element.",
     ["programs"], "every surface construct with any number of elements",
     "Tests build constructs of one to three elements of the simplest kind.",
     ["src/nibble/convert.rs"],
     [("conversion", "src/nibble/convert.rs: Convert and its implementations")],
     note="Per-construct summaries (loops over elements widened, so for any length) against the reference translation, recursion through Convert assumed.")
prop("C12", "Names and source locations follow expressions through every pass",
     "Conversion, reduction and type checking give every expression, and every error, the source location of what was written, and a name: the label if there is one, else the let it is bound to, else the variable it came from, the earlier of two of the same kind. Errors name the elements that caused them and the separator between them.",
     ["programs"], "every grammar and every error in it",
     "Tests compare neither names nor locations.",
     ["src/chomp/name.rs", "src/nibble/convert.rs", SUBST, TYPED + "infer.rs"],
     [("which name wins", "src/chomp/name.rs: Name::{merge, merge_all}"), ("conversion", "src/nibble/convert.rs"), ("reduction", SUBST), ("typing and its errors", TYPED + "infer.rs")],
     note="The same summaries as for structure, substitution, reduction and typing, compared in full: names and locations of results and errors included.")
prop("C13", "Two spellings of a name are the same name everywhere",
     "Whether a name is written raw or plainly, or comes without a location, it is equal to every other spelling of the same text, and equal names hash alike. Equality looks at nothing but the text.",
     ["inputs"], "every pair of names",
     "No test compares raw names.",
     ["src/chomp/name.rs"],
     [("equality and hashing", "src/chomp/name.rs: impl PartialEq, Hash for Content")],
     note="Equality and hash summarised for all combinations of representations and compared with equality of the unraw text.")

LOWER = "src/lower/mod.rs"
prop("C14", "Generated parsers follow the grammar",
     "The parser generated for a literal reads exactly that text; for a sequence, its parts in the order written, stopping at the first that fails; for a choice, the alternative that can start with the next character, else the alternative that may be empty, else it fails without reading anything and reports the position and what was expected. A recursive reference parses the recursive expression again, and each parsed value holds what its own part parsed.",
     ["programs", "inputs"], "every accepted grammar and every input to its parser",
     "Tests run two or three generated parsers on a few inputs; the generator must be right for every expression it can be given.",
     [LOWER, TYPED + "lower.rs"],
     [("code generated per construct", LOWER + ": gen_epsilon, gen_literal, gen_cat, gen_alt, gen_fix, gen_variable"), ("which construct is generated", TYPED + "lower.rs: GenerateCode")],
     note="The token streams the generator builds are summarised symbolically (any number of parts), read back as Rust items, and the effect of each generated parser on its input compared with the reference parser of the construct. Parts are assumed to satisfy the same rule.")
prop("C15", "Generated values print as the text they were read from",
     "Showing a value a generated parser returned gives back exactly the characters it consumed: a literal shows its text, a sequence its parts in order with nothing between, a choice the alternative it holds, the empty grammar nothing.",
     ["programs", "inputs"], "every accepted grammar and every value of its types",
     "No test prints a parsed value of a grammar with several parts and compares it with the input.",
     [LOWER, "chewed/src/parse.rs"],
     [("generated Display implementations", LOWER + ": gen_literal, gen_cat, gen_alt, gen_fix")],
     note="Generated Display implementations are read back from the symbolic token streams as the text they append and compared with the text the generated parser of the same type takes.")
prop("C16", "Equal parts share one type, different parts never do",
     "Two parts of a grammar are given the same generated type only when they denote the same language construct: the same literal, the same parts in the same order, or the same recursive body whose free references mean the same enclosing recursions. A part met before is given the type it was given then.",
     ["programs"], "every grammar and every pair of its parts",
     "Sharing goes wrong only for particular pairs of sub-expressions, such as two recursions with equal bodies under different outer recursions.",
     [LOWER],
     [("tables of types", LOWER + ": lit_map, cat_map, alt_map, fix_map, var_map, context"), ("free references", TYPED + "mod.rs: free_variables")],
     note="Every lookup in and insertion into the generator's tables compared with sharing by structure, with the stack of enclosing recursions symbolic.")
prop("C17", "Generated items are complete, emitted once and distinctly named",
     "Every type the result refers to, directly or through other types, is emitted exactly once, and nothing else is. No two types, no two fields of one type and no two alternatives of one type have the same name, and every name is a valid identifier that starts with a letter or underscore.",
     ["programs"], "every grammar: any number of types, any names and labels, repeated or clashing",
     "Clashes need particular combinations of labels and numbering that the tests do not contain.",
     [LOWER, "src/chomp/name.rs"],
     [("names", LOWER + ": fresh_ident, new_type_name, name_parts_snake, name_parts_camel"), ("case conversion", "src/chomp/name.rs: to_camel_case, to_snake_case"), ("emission", LOWER + ": emit_code")],
     note="Freshness is a fact required on every path that hands out an identifier; the emission worklist is summarised and compared with reachability; part names are checked to be used for their own part.")
prop("C18", "Exactly the single-character types convert to characters",
     "A conversion to a character is generated for a type exactly when all its values are one character: literals of one character and choices of only such types. Converting a value gives the character that was read.",
     ["programs"], "every literal text and every choice, at any nesting",
     "Tests never convert a choice with an alternative of another kind.",
     [LOWER],
     [("character conversions", LOWER + ": gen_literal, gen_alt; can_char")],
     note="Summaries of the generated conversions and of the set of types that have one.")
prop("C19", "Errors say where and what went wrong",
     "A parse error raised by the runtime carries, and its text shows, the position it occurred at, what was found there and exactly what was expected there; the text of a grammar error says which kind of error it is and shows the name or the numbers at fault. When turned into a compiler error, it points at the source location of the offending construct and keeps that text.",
     ["inputs", "programs"], "every error of every kind, with every set of expected characters and every pair of conflicting expressions",
     "No test looks at the text of an error.",
     ["chewed/src/error.rs", "chewed/src/parse.rs", "chewed/src/position.rs", "src/chomp/ast/error.rs", TYPED + "error.rs", "src/nibble/convert.rs"],
     [("parse errors", "chewed/src/error.rs: Display for TakeError, ParseError"), ("where they are raised", "chewed/src/parse.rs: consume_str, take_chars_from, Iter::next"), ("positions", "chewed/src/position.rs: Display for LineCol"),
      ("grammar errors", TYPED + "error.rs, src/chomp/ast/error.rs, src/nibble/convert.rs: Display and conversions to syn::Error")],
     note="Each Display summarised with formatting as appended text, reduced to the sequence of values shown; wording is free.")
prop("C20", "The programs run every pass, and report failure as failure",
     "The command-line tools and the macro parse their input, convert, reduce and type it and generate code from the result, in that order and on that input. The code is given out only when every pass succeeded; otherwise the first error is reported, nothing is put out, and a command ends with a failing status.",
     ["inputs", "fault sequences"], "every input, including unreadable input and unwritable output",
     "No test runs the programs.",
     ["src/main.rs", "autonibble/src/main.rs", "chomp-macro/src/lib.rs"],
     [("the command", "src/main.rs: main"), ("the self-hosted command", "autonibble/src/main.rs: main"), ("the macro", "chomp-macro/src/lib.rs: nibble")],
     note="Entry points summarised with standard input, output, error and exit status as effects on a symbolic world; any pass may fail.")
prop("C21", "The grammar syntax is read as written, and any word may be a name",
     "Reading a grammar accepts exactly the documented syntax: it keeps every construct, name and literal, in the order written and nested as written, and rejects everything else. Any word, a Rust keyword included, can be the name of a definition, a parameter, a label or a use. Writing a construct out again gives back its tokens in that order.",
     ["programs"], "every sequence of tokens",
     "The tests read a few fixed grammars, all well-formed and none using a keyword as a parameter.",
     ["src/nibble/mod.rs"],
     [("reading", "src/nibble/mod.rs: impl Parse for each construct"), ("writing", "src/nibble/mod.rs: impl ToTokens for each construct")],
     note="Each parser summarised over a symbolic token stream; the tokens' own lexing is syn's.")
prop("C22", "The self-hosted front end denotes the same grammar",
     "Text read by the self-hosted front end denotes the grammar that the text means: every construct becomes the same expression as in the other front end (the name of the goal aside), with every element of every list once and in order, names by their text, and escapes as the characters they name. An escape that names no character is an error, not a crash.",
     ["inputs"], "every text in the grammar syntax",
     "The tests read no grammar with the self-hosted front end.",
     ["autonibble/src/lib.rs"],
     [("conversion", "autonibble/src/lib.rs: impl Convert for each construct"), ("lists", "autonibble/src/lib.rs: impl Iterator for each list"),
      ("escapes", "autonibble/src/lib.rs: conversions to char")],
     note="Each conversion, iterator and escape summarised over a symbolic syntax tree; that the tree matches the text is C14 to C16.")
prop("C23", "Equal values are the same construct with equal parts, and hash alike",
     "Two expressions, types, names, positions or errors are equal exactly when they are the same construct, have the same number of parts, and their parts are equal in order; where a part was in the source never counts, nor does what an untyped expression was called. Equal values hash alike, so looking one up finds the other.",
     ["inputs"], "every pair of values",
     "The tests compare a few small expressions that are meant to be equal.",
     ["src/chomp/ast/mod.rs", TYPED + "mod.rs", "src/chomp/name.rs", "src/chomp/set.rs", "chewed/src/error.rs", "chewed/src/position.rs"],
     [("equality", "src/chomp/ast/mod.rs, " + TYPED + "mod.rs: impl PartialEq"), ("hashing", TYPED + "mod.rs: impl Hash")],
     note="Equality by text of names is C13; the derived impls of generated types are rustc's.")
prop("C24", "The arithmetic example computes the value of the expression it reads",
     "In the benchmark crate's arithmetic example, both the parser generated from a grammar and the one written by hand give an accepted expression its usual value: brackets first, then products and quotients, then sums and differences, each from left to right, a minus before a number negating it, numbers in decimal and blanks ignored. The hand-written one accepts exactly such expressions, and nothing after them. (Overflow and division by zero aside.)",
     ["inputs"], "every expression whose values fit the number type",
     "No stable test evaluates an expression.",
     ["chomp-bench/src/arith/mod.rs", "chomp-bench/src/arith/nibble.rs"],
     [("value of a tree", "chomp-bench/src/arith/nibble.rs: impl From<..> for i64"), ("lists", "chomp-bench/src/arith/nibble.rs: impl Iterator"), ("grammar", "chomp-bench/src/arith/nibble.rs: nibble!"), ("by hand", "chomp-bench/src/arith/mod.rs: take_*, parse_expr")],
     note="Each evaluator summarised over a symbolic tree or input; what the generated parser takes is C14; the parser generated by another tool is not judged.")
prop("C25", "The JSON example reads the document that was written, and writes it back",
     "In the benchmark crate's JSON example, both the parser generated from a grammar and the one written by hand turn an accepted document into what it denotes: every element and member once, elements in order, strings with their escapes decoded (surrogate pairs included), numbers by their text, blanks ignored. The hand-written one reports what it does not accept as an error, never by crashing. A value whose numbers are finite, written out, reads back as the same value.",
     ["inputs"], "every document",
     "No stable test reads a document.",
     ["chomp-bench/src/json/mod.rs", "chomp-bench/src/json/nibble.rs"],
     [("value of a tree", "chomp-bench/src/json/nibble.rs: impl From<..>"), ("strings", "chomp-bench/src/json/nibble.rs: impl Iterator for Opt5; chomp-bench/src/json/mod.rs: decode_pair, parse_str"), ("by hand", "chomp-bench/src/json/mod.rs: impl Parse for Value"), ("writing", "chomp-bench/src/json/mod.rs: impl Display for Value")],
     note="Each part summarised over a symbolic tree, input or value; which texts denote a floating-point number is the standard library's; the parser generated by another tool is not judged.")
prop("C26", "A shown grammar expression shows all its parts, told apart",
     "The text an untyped grammar expression is shown as contains each of its parts once, in the order they have in it, with its name if it has one; a name is shown as it is spelt. Different constructs are shown in different notations, and a sequence, a choice and a call show where they begin and end and keep their parts apart.",
     ["inputs"], "every expression",
     "No stable test shows an expression.",
     ["src/chomp/ast/mod.rs", "src/chomp/name.rs"],
     [("showing", "src/chomp/ast/mod.rs: impl Display for Cat, Alt, Fix, Variable, Call, Lambda, Let, Expression, NamedExpression"), ("names", "src/chomp/name.rs: impl Display for Content, Name")],
     note="The text each writes, as a sequence of fixed texts and values, compared with the parts of the construct; the fixed texts of different constructs compared with each other.")

prop("C27", "The repository's own grammars accept exactly what they are for",
     "The grammar that the text front end is generated from accepts exactly the texts of nibble programs: statements, function, alternative, concatenation, call, label, fixpoint and literal notation, with blanks (Unicode pattern white space) where the notation allows them, and no others. The JSON example's grammar accepts exactly the RFC 8259 documents whose strings are printable ASCII, and the arithmetic example's exactly sums and products of numbers, negated numbers and parenthesised sums, with spaces anywhere but inside a number. This holds for texts of every length and nesting.",
     ["inputs"], "every text",
     "Tests read a handful of documents; a blank refused in one position, an extra digit in an escape or a missing alternative shows up only on inputs nobody wrote down.",
     ["autonibble/src/lib.rs", "chomp-bench/src/json/nibble.rs", "chomp-bench/src/arith/nibble.rs"],
     [("text front end", "autonibble/src/lib.rs: nibble!"), ("JSON", "chomp-bench/src/json/nibble.rs: nibble!"), ("arithmetic", "chomp-bench/src/arith/nibble.rs: nibble!")],
     note="The grammars are taken from the types generated for them, so that the macro and the generator are part of what is judged; the two languages are related for texts of every length by a bisimulation of their stacks. That a generated reader follows the type it reads is C14's.")

prop("C28", "The same text always gives the same code",
     "What is generated for a grammar, and what is reported about one, is determined by its text: generating again, in another process or after other grammars, gives the same code. Nothing that differs between runs or calls - the order of the elements of a hash table, clocks, random numbers, addresses, variables that outlive a call - decides any part of it.",
     ["inputs", "histories"], "every grammar, every run and every sequence of runs",
     "A test runs once per process, and an order that is random is often the expected one.",
     ["src/lower/mod.rs", "src/chomp/set.rs", "src/nibble/convert.rs", "chomp-macro/src/lib.rs", "autonibble/src/lib.rs"],
     [("order of the types", "src/lower/mod.rs: emit_code"), ("order of the characters", "src/chomp/set.rs: FirstSet"), ("numbering", "src/lower/mod.rs: fresh_ident, new_type_name")],
     note="Every call of the library and the programs is looked at; a loop over a hash table is an alarm only if it puts together something that has an order and does not sort it.")

NA = [
    ("N01", "Reducing a program terminates", "Reduction of every program that is accepted by the front end terminates.",
     ["programs"], "all programs", "no static argument in reach bounds it: the untyped calculus the front end accepts has diverging programs (self-application), so the property does not hold and any check would be a halting analysis",
     ["src/chomp/ast/substitute.rs"], [("reduction", "src/chomp/ast/substitute.rs: Reduce")]),
    ("N02", "A generated parser runs in linear time", "The time a generated parser takes is linear in its input.",
     ["inputs"], "all inputs and grammars", "running time is a runtime quantity; bounding it statically needs a cost semantics of generated Rust and of the allocator",
     ["chewed/src/parse.rs"], [("generated parsers", "src/lower/mod.rs")]),
    ("N03", "A generated parser never exhausts the stack", "A generated parser for a recursive grammar handles nesting of any depth.",
     ["inputs"], "all inputs", "recursion depth equals input nesting, which has no static bound",
     ["src/lower/mod.rs"], [("recursive types", "src/lower/mod.rs: gen_fix")]),
]


def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, "analysis"))
    import registry
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            if p["id"] not in registry.PROPS:
                raise SystemExit("not in registry: " + p["id"])
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["tests"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
        for id, title, st, over, q, why, files, mech in NA:
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q),
                                    why_tests_cant="It is outside what a finite set of runs can show: " + q + ".",
                                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[dict(property=n[0], reason=n[5]) for n in NA],
             notes="Every check reads /repo's current source through a rustc driver (type-checked MIR, attributes, constants) and decides obligations on it; nothing of /repo is executed. See DESIGN.md.")
    for p in PROPS:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                                thorough_cmd="python3 check.py --thorough " + p["id"],
                                technique="static analysis: " + (p["technique"] or "interprocedural value-flow (abstract interpretation with trace partitioning and loop widening) of the type-checked MIR, compared with reference transfer functions"),
                                level="other", level_note=p["note"]))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
