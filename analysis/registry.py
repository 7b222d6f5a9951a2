"""Which rule groups decide which property."""
import rules_typed as RT
import rules_subst as RS
import rules_runtime as RR
import rules_convert as RC
import rules_names as RN
import rules_lower as RL
import rules_errors as RE
import rules_pipeline as RP
import rules_syntax as RX
import rules_auto as RA
import rules_equal as RQ
import rules_bench as RB
import rules_show as RW
import rules_grammar as RG
import rules_repeat as RD

ASSUMPTIONS = [
    "rustc's MIR is a faithful translation of the source",
    "the models of the standard library (analysis/models.py) are right",
    "recursive calls through the visitor/conversion/code-generation traits satisfy the same rules (assume/guarantee over the syntax tree)",
]

PROPS = {}


def reg(pid, groups, explanation, rules=None, assumptions=(), level="other"):
    PROPS[pid] = {"level": level, "groups": groups, "rules": rules, "explanation": explanation, "assumptions": list(assumptions)}


def full(g):
    def f(C):
        return g(C, True)
    f.__name__ = g.__name__
    return f


def aspect(g, a):
    def f(C):
        return g(C, a)
    f.__name__ = g.__name__
    return f


reg("C01", [RT.cat, RT.alt, RT.leafs],
    "interprocedural value-flow summaries of the MIR of the typing folder, compared with the reference typing rules",
    rules=["typing.sequence", "typing.alternative", "typing.leaf"])
reg("C02", [RT.fix, RT.context_laws, RT.fresh_context],
    "value-flow summaries of the fixed-point rule and of the typing context, compared with the reference laws")
reg("C03", [RT.algebra],
    "value-flow summaries of the type algebra, compared with the reference algebra")
reg("C04", [RS.dispatch, RS.renaming, RS.substitute],
    "per-constructor value-flow summaries of the renaming and substitution mappers at symbolic binder depth, compared with De Bruijn substitution")
reg("C05", [RS.dispatch, RS.reduce],
    "per-constructor value-flow summaries of the reducing folder, compared with the reference reduction")
reg("C06", [RR.consume_str, RR.boundary, RR.skip_while, RR.take_chars, RR.wrapper, RR.fresh_wrapper],
    "value-flow summaries of the runtime's parser methods against an abstract parser, and of its implementation against the same abstraction",
    rules=["runtime"])
reg("C07", [RR.parse_all], "value-flow summaries of the whole-input entry points, compared with take-then-end-of-input")
reg("C08", [RR.wrapper, RR.fresh_wrapper], "value-flow summaries of position tracking over a symbolic parser state", rules=["position"])
reg("C09", [RR.separated, RR.fresh_separated], "value-flow summary of one step of the separated-list iterator")
reg("C10", [RC.scopes, RC.fresh_scope, RC.structure],
    "value-flow summaries of the conversion context and of the scoping constructs, compared with lexical scoping over a symbolic scope",
    rules=["scope", "convert.Term", "convert.Expression", "convert.Statement"])
reg("C11", [RC.structure], "per-construct value-flow summaries of the conversion of the surface syntax, compared with the reference translation")
reg("C12", [RN.merging, full(RC.structure), full(RT.cat), full(RT.alt), full(RT.leafs), full(RT.fix), full(RS.substitute), full(RS.reduce)],
    "value-flow summaries of every pass in full (names and source locations included), compared with reference passes")
reg("C13", [RN.identity], "value-flow summaries of equality and hashing of names, compared with the same relation on the unraw text")
GENS = (RL.epsilon, RL.literal, RL.cat, RL.alt, RL.fixed)
reg("C14", [aspect(g, "parse") for g in GENS] + [RL.dispatch],
    "value-flow summaries of the code generator (the token streams it builds are read back as effects on the input), compared with reference parsers")
reg("C15", [aspect(g, "show") for g in GENS] + [RL.dispatch],
    "value-flow summaries of the code generator (the token streams it builds are read back as the text shown), compared with the text the parser takes")
reg("C16", [aspect(g, "sharing") for g in GENS] + [RL.free],
    "value-flow summaries of the code generator's tables, compared with sharing by structure under the same enclosing fixed points")
reg("C17", [RL.unique, RL.valid, RL.emit] + [aspect(g, "parts") for g in GENS],
    "freshness of every identifier given out, as facts on the paths that give it out; value-flow summary of the emission worklist",
    rules=["names.unique", "names.valid", "code.emit", "code.parts"])
reg("C18", [aspect(g, "char") for g in (RL.literal, RL.cat, RL.alt, RL.fixed)],
    "value-flow summaries of the code generator's conversions to characters, compared with the reference conversion")
reg("C19", [RE.parsing, RE.grammar, RE.located, RR.raised],
    "value-flow summaries of every way of showing an error (the text written, as a sequence of values) and of the conversions to compiler errors, compared with what each error consists of",
    rules=["errors.parsing", "errors.grammar", "errors.located", "errors.raised"])
reg("C20", [RP.chomp_cli, RP.autonibble_cli, RP.macro],
    "value-flow summaries of the programs' entry points, with reading, writing and ending as effects, compared with the reference pipeline",
    rules=["program", "program.macro"])
reg("C21", [RX.grammar, RX.written],
    "value-flow summaries of the parser and of the token output of every construct of the grammar syntax, over a symbolic token stream, compared with the reference grammar",
    rules=["syntax.read", "syntax.written"])
reg("C22", [RA.convert, RA.lists, RA.characters, RA.names, RA.classes],
    "value-flow summaries of the conversions of the self-hosted front end, its list iterators and its escapes, compared with what the same construct denotes in the other front end",
    rules=["front.convert", "front.lists", "front.char", "front.name", "front.class"])
reg("C23", [RQ.equal, RQ.hashes],
    "value-flow summaries of every equality and hash of the library's values, compared with equality part by part",
    rules=["equal.same", "equal.hash"])
reg("C24", [RB.arith_values, RB.arith_lists, RB.arith_read, RB.arith_grammar],
    "value-flow summaries of the evaluators of the arithmetic example (of the tree, and while reading), compared with the meaning of the operators; the texts of its grammar",
    rules=["example"])
reg("C25", [RB.json_values, RB.json_lists, RB.json_chars, RB.json_pair, RB.json_read, RB.json_write, RB.json_grammar],
    "value-flow summaries of the conversion, the hand-written reader and the writer of the JSON example, compared with what a document denotes; the texts of its grammar",
    rules=["example"])
reg("C26", [RW.expressions, RW.names],
    "value-flow summaries of every way of showing a grammar expression (the text written, as a sequence of values), compared with the parts of the expression; the notations compared with each other",
    rules=["show"])
reg("C27", [RG.notation, RG.sums, RG.documents],
    "the grammars, taken from the types generated for them, related to reference grammars by a bisimulation of their stacks (built up to congruence); a difference is reported with a text only one of them accepts",
    rules=["grammar"])
reg("C28", [RD.order, RD.state],
    "a flow analysis over the MIR of the library and the programs: where the elements of hash tables go in the order they happen to have, and whether clocks, random numbers, addresses or variables that outlive a call reach a result",
    rules=["repeat"])
