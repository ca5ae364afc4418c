"""C10: operators group by the fixed precedence, whatever the spacing."""
import random

from hypothesis import strategies as st

from vlib import gen, grammar, judge, oracle, sut, syntax

ID = "C10"
EXAMPLES = {"quick": 1200, "thorough": 9600}
RULE = (
    "cases are expression trees (2-14 operators, some chains up to 60, mostly constants) rendered with the fewest parentheses, with full "
    "parentheses, with redundant parentheses and with random blanks, tabs and line breaks, and unparenthesised operator "
    "chains grouped by a reference parser; every rendering must have exactly the value of the intended tree (or raise "
    "ZeroDivisionError when it divides by zero); all triples of two operators are enumerated; non-trivial = a different "
    "grouping of the same tokens has a different value"
)
SEPS = ["", " ", "  ", "\t", "\n", " \n ", "\r\n", "   \t"]


def chain_tree(tokens):
    """the reference grouping of a token list"""
    return grammar.parse(grammar.lex(" ".join(tokens)))


@st.composite
def _chain(draw):
    """an unparenthesised chain, operands and prefix operators at random"""
    out = []
    n = draw(st.integers(2, 9))
    dice = 9
    if draw(st.integers(0, 24)) == 0:
        n, dice = draw(st.integers(10, 60)), 2
    for i in range(n):
        if i:
            out.append(draw(st.sampled_from(syntax.BIN_OPS)))
        for _ in range(draw(st.sampled_from([0, 0, 0, 0, 0, 1, 1, 2]))):
            out.append("!")
        kind = draw(st.integers(0, 9))
        if kind <= 6:
            out.append(str(draw(st.integers(-9, 12))))
        elif kind == 7:
            out.append(draw(st.sampled_from(["True", "False"])))
        elif kind == 8 and dice:
            dice -= 1
            out.append(draw(st.sampled_from(["d2", "1d3", "dF", "2d2", "d[0,3]", "3d2k1", "2d[-1-1]d1"])))
        else:
            out += ["ABS", "(", str(draw(st.integers(-9, 9))), draw(st.sampled_from(syntax.BIN_OPS)), str(draw(st.integers(-9, 9))), ")"]
    return out


@st.composite
def _case(draw, tier):
    seps = draw(st.lists(st.sampled_from(SEPS), min_size=1, max_size=6))
    pars = draw(st.lists(st.integers(0, 3), min_size=1, max_size=6))
    if draw(st.booleans()):
        return {"chain": draw(_chain()), "seps": seps, "assign": draw(st.booleans()), "pars": pars}
    o = gen.Opts(cap=200, zero_division=draw(st.integers(0, 4)) == 0, big=draw(gen.bigs),
                 dice=draw(st.integers(0, 2)) == 0, max_nodes=14)
    e = gen.Builder(draw, o).expr(draw(st.integers(3, 14)))
    return {"tree": e, "seps": seps, "pars": pars, "assign": draw(st.booleans())}


def strategy(tier):
    return _case(tier)


def fixed(tier):
    triples = [(7, 2, 3), (-5, 4, 2), (1, 0, 2)]
    base = {"seps": ["", " "], "assign": False, "pars": [0, 1]}
    for x, y, z in triples:
        for one in syntax.BIN_OPS:
            for two in syntax.BIN_OPS:
                yield dict(base, chain=[str(x), one, str(y), two, str(z)])
    x, y, z = triples[0]
    for one in syntax.BIN_OPS:
        for two in syntax.BIN_OPS:
            yield dict(base, assign=True, chain=["!", str(x), one, str(y), two, str(z)])
            yield dict(base, chain=[str(x), one, "!", str(y), two, str(z)])
            yield dict(base, chain=[str(x), one, str(y), two, "!", str(z)])


def redundant(e, pars, at):
    """e with extra parentheses around random parts"""
    kind = e[0]
    if kind == "bin":
        e = ["bin", e[1], redundant(e[2], pars, at), redundant(e[3], pars, at)]
    elif kind in ("not", "abs", "par"):
        e = [kind, redundant(e[1], pars, at)]
    elif kind == "mm":
        e = [kind, e[1], redundant(e[2], pars, at), redundant(e[3], pars, at)]
    at[0] += 1
    for _ in range(pars[at[0] % len(pars)]):
        e = ["par", e]
    return e


def evaluate(e):
    try:
        return oracle.dist(e, {})
    except oracle.DivByZero:
        return None




def check(case, ctx):
    tree = chain_tree(case["chain"]) if "chain" in case else case["tree"]
    want = evaluate(tree)
    plain = case["chain"] if "chain" in case else syntax.tokens(tree)
    renderings = [
        syntax.join(plain), syntax.join(plain, case["seps"]), syntax.join(syntax.full_tokens(tree)),
        syntax.join(syntax.tokens(redundant(syntax.explicit(tree), case["pars"], [0])), case["seps"]),
        case["seps"][0] + syntax.join(plain) + case["seps"][-1],
    ]
    lexed = [t[:2] for t in grammar.lex(renderings[0])]
    assert [t[:2] for t in grammar.lex(renderings[1])] == lexed, renderings[:2]
    constant = not any(n[0] in ("dice", "kd") for n in syntax.walk(tree))
    has_and = any(n[0] == "bin" and n[1] == "AND" for n in syntax.walk(tree))
    random.seed(1)
    seen = set()
    for i, text in enumerate(renderings):
        if case["assign"]:
            text = syntax.join(["VAR", "value", "="], [case["seps"][0] or " "]) + case["seps"][-1] + text
        if text in seen:
            continue
        seen.add(text)
        got = sut.call(sut.fresh().get_probability_distributions, [text])
        if want is None:
            ctx.require(isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError", "%r: %r, expected ZeroDivisionError", text, got)
            continue
        got = judge.returned(got, "distribution of %r" % text)
        judge.exact(got["stdout"], want, "distribution of %r" % text)
        if case["assign"]:
            judge.exact(got["value"], want, "variable of %r" % text)
        if constant:
            for query in ("max", "min") if has_and else ("max", "min", "roll"):
                value = judge.returned(sut.call(getattr(sut.fresh(), query), [text]), "%s of %r" % (query, text))["stdout"]
                ctx.require(value == max(want), "%s of %r is %r, expected %r", query, text, value, max(want))
    # could another grouping be told apart?
    other = [evaluate(chain_tree(t)) for t in rival_groupings(plain)]
    ctx.label("division by zero", want is None)
    ctx.label("contains !", any(n[0] == "not" for n in syntax.walk(tree)))
    ctx.label("chain", "chain" in case)
    ctx.nontrivial(any(o is not None and o != want for o in other))
    ctx.note(renderings[1])


def rival_groupings(tokens):
    """the same tokens with one pair of parentheses put around each run 'operand op operand' of simple operands"""
    simple = lambda t: t[-1].isdigit() or t in ("True", "False") or t[-1] in "]F"
    for i in range(1, len(tokens) - 1):
        if tokens[i] in syntax.BIN_OPS and simple(tokens[i - 1]) and simple(tokens[i + 1]):
            yield tokens[:i - 1] + ["("] + tokens[i - 1:i + 2] + [")"] + tokens[i + 2:]
