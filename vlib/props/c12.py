"""C12: any text is either understood or refused with a clear ValueError."""
import random

from hypothesis import strategies as st

from vlib import gen, grammar, judge, oracle, sut, syntax
from vlib.props import c02

ID = "C12"
EXAMPLES = {"quick": 900, "thorough": 15000}
RULE = (
    "cases are texts: rendered sentences with 0-4 random character or token edits, token soups, dice-notation soups, "
    "arbitrary Unicode text and long or multi-line texts with one odd character; acceptance is compared with a "
    "hand-written reference lexer and parser, the refusal must be a ValueError (KeyError only for an unassigned name), "
    "the message of a refused character is compared exactly, and the same interpreter must then answer a fixed program; "
    "a case without answer within 120 s is a violation; non-trivial = the text is refused, or has at least 5 tokens"
)
LEXER = sut.PythonDiceLexer()
VOCABULARY = ["(", ")", ",", "+", "-", "*", "//", "/", "==", "=", "!=", "!", "<", "<=", ">", ">=", "AND", "OR", "True", "False",
              "MAX", "MIN", "ABS", "VAR", "a", "b", "zz", "d6", "2d4", "d%", "dF", "d[1,2]", "4d6k3", "3d6d1", "1", "-1", "0", "12",
              "007", "d", "k", "d0", "d[", "]", "[", "d[1-3*2, 4]", "d[1*0]", "d6k", "d[]", "VARa", "a1", "A", "ANDy", "and", "var",
              "d%%", "dFF", "F", "%", "_", "__", ";", "#", "$", ".", "1.5", "\u0663", "\u00e9", "d\u0663", "\u200b"]
DICE_SOUP = "0123456789dddkkF%[[]]--,,** "
TEXT_SOUP = "0123456789dkF%[]-,*() !=<>+/ANDORTrueFalsMXIBSV_abz\n\t\"'.;@\\{}^~|&:?"
QUERIES = ["roll", "max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average", "get_estimated_cost"]


@st.composite
def _text(draw):
    kind = draw(st.integers(0, 12))
    if kind <= 4:
        o = gen.Opts(cap=150, names=("a", "b"), max_nodes=5, zero_division=True)
        b = gen.Builder(draw, o)
        b.model.run(["set", "a", ["int", 3]])
        b.model.run(["set", "b", ["dice", None, ["n", 2]]])
        e = b.expr(draw(st.integers(1, 6)))
        line = ["set", draw(st.sampled_from(["a", "b", "c"])), e] if draw(st.integers(0, 2)) == 2 else ["out", e]
        toks = syntax.line_tokens(line)
        for _ in range(draw(st.integers(0, 2))):
            i = draw(st.integers(0, len(toks)))
            edit = draw(st.integers(0, 2))
            if edit == 0:
                toks = toks[:i] + [draw(st.sampled_from(VOCABULARY))] + toks[i:]
            elif edit == 1:
                toks = toks[:i] + toks[i + 1:]
            else:
                toks = toks[:i] + [draw(st.sampled_from(VOCABULARY))] + toks[i + 1:]
        text = syntax.join(toks, draw(st.lists(st.sampled_from(["", " ", " ", "\n"]), min_size=1, max_size=4))) if toks else ""
        for _ in range(draw(st.integers(0, 2))):
            i = draw(st.integers(0, len(text)))
            edit = draw(st.integers(0, 3))
            if edit == 0:
                text = text[:i] + draw(st.sampled_from(TEXT_SOUP)) + text[i:]
            elif edit == 1:
                text = text[:i] + text[i + 1:]
            elif edit == 2:
                text = text[:i]
            else:
                text = text[i:]
        return text
    if kind <= 6:
        toks = draw(st.lists(st.sampled_from(VOCABULARY), min_size=0, max_size=10))
        return draw(st.sampled_from([" ", "", "  ", "\n"])).join(toks)
    if kind <= 8:
        body = "".join(draw(st.lists(st.sampled_from(DICE_SOUP), min_size=0, max_size=14)))
        return draw(st.sampled_from(["d", "2d", "d[", "1d[-", "3d6", "d[1,", "", "1", "-", "VAR a = d["])) + body + draw(
            st.sampled_from(["", "]", "]k1", "]d2", " + 1", "6"]))
    if kind == 9:
        return draw(st.text(alphabet=TEXT_SOUP, max_size=40))
    if kind == 10:
        return draw(st.text(max_size=30))
    # long and multi-line texts with one odd character
    sentence = draw(st.sampled_from(["1 + ", "(", "2d6 * ", "aa ", "0", "\n1 +", "MAX(1, 2) - ", "\t"]))
    if kind == 12:
        # very long texts, always refused for their odd character
        middle = draw(st.sampled_from(["\n", "", " ", "1 +\n2 * ", "\n\n\n"])) * draw(st.integers(0, 60))
        odd = draw(st.sampled_from(["@", "$", "\u00e9", ".", "A", "\U0001f3b2"]))
        tail = draw(st.sampled_from([" + 1", " ", "\n", "+", ""])) * draw(st.integers(0, 120))
        return (sentence * draw(st.integers(0, 500)) + middle)[:2400] + odd + tail
    before = sentence * draw(st.integers(0, 40))
    after = draw(st.sampled_from([" + 1", ")", " ", "\n + 2", " bb"])) * draw(st.integers(0, 40))
    bad = draw(st.sampled_from(["@", "$", "A", "\u00e9", ".", "/", "", "&&", "x1", "'", "9x"]))
    return before + bad + after


def strategy(tier):
    return st.builds(lambda t, q, v: {"text": t[:3000], "query": q, "given": v}, _text(), st.sampled_from(QUERIES), st.booleans())


def fixed(tier):
    for text in ("", " ", "\n", "d", "(", ")", "1 1", "VAR", "VAR a", "VAR a =", "VAR a = ", "VAR a == 1", "= 1", "!", "!!", "ABS",
                 "ABS()", "MAX(1)", "MAX(1,)", "MIN(1,2,3)", "(1", "1)", "()", "-", "--1", "1 -1", "1-1", "1 - 1", "d6 d6", "a", "a b",
                 "VAR VAR = 1", "VAR d6 = 1", "True", "true", "TRUE", "1d[", "1d[]", "1d[1", "1d[1,]", "1d[,1]", "1d[1,,2]", "d[1--1]",
                 "d[1-2-3]", "d[1*2*3]", "d[1 - 2]", "d0", "0d0", "d00", "d[1*0]", "2d[5*0, 6*0]k1", "d6k", "d6d", "d6k-1", "d6k1k1", "-d6",
                 "1 / 2", "1 /// 2", "1 % 2", "1 && 2", "1 AND", "AND 1", "1 ANDOR 2", "1 = 2", "1 === 2", "a = 1", "VAR a = VAR b = 1",
                 "@", "1 + @", "x" * 60 + "@" + "y" * 60, "1 +\n2 + @ + 3\n", "\n\n@", "1\n" * 30 + "$" + "z" * 80):
        for query in ("roll", "get_probability_distributions", "get_estimated_cost"):
            yield {"text": text, "query": query, "given": True}
    tokens = ["1", "a", "d2", "(", ")", "+", "-", "!", "<", ",", "MAX", "ABS", "VAR", "=", "True"]
    for x in tokens:
        for y in tokens:
            yield {"text": x + " " + y, "query": "max", "given": True}
            yield {"text": x + y, "query": "get_probability_distributions", "given": True}
            for z in tokens:
                yield {"text": x + " " + y + " " + z, "query": "get_average", "given": True}
    yield {"k5": 40}


def too_slow_to_read(text):
    """finding K5: blanks after the commas of a bracketed list multiply the reading time"""
    work, i = 1, 0
    for i, ch in enumerate(text):
        if ch == ",":
            j = i + 1
            while j < len(text) and text[j].isspace():
                j += 1
            work *= j - i
            if work > 5000:
                return True
    return False


def big_numbers(text):
    """a number with more than 4 digits could ask for a die with very many sides"""
    run = 0
    for ch in text:
        run = run + 1 if ch.isdecimal() else 0
        if run > 4:
            return True
    return False


def terms(e):
    if e[0] == "assign":
        return terms(e[2])
    return [n for n in walk(e) if n[0] in ("dice", "kd")]


def walk(e):
    yield e
    if e[0] == "assign":
        sub = [e[2]]
    elif e[0] in ("bin", "mm"):
        sub = [e[2], e[3]]
    elif e[0] in ("not", "abs", "par"):
        sub = [e[1]]
    else:
        sub = []
    for s in sub:
        for x in walk(s):
            yield x


def explain(text, pos):
    """the required message for the character at pos"""
    start = text.rfind("\n", 0, pos) + 1
    end = text.find("\n", pos)
    line = text[start:] if end < 0 else text[start:end]
    column = pos - start
    first = max(0, column - 50)
    return line[first:column + 50] + "\n" + "-" * (column - first) + "^"


def check(case, ctx):
    if "k5" in case:
        return c02.check_k5(case["k5"], ctx)
    text, query = case["text"], case["query"]
    if too_slow_to_read(text) or big_numbers(text):
        ctx.label("skipped")
        return None
    # what is required
    tree = None
    try:
        toks = grammar.lex(text)
        kind = "syntax"
        tree = grammar.parse(toks)
        kind = "sentence"
        for t in terms(tree):
            oracle.sides(t[2])
    except grammar.LexError as exc:
        kind, pos = "character", exc.pos
    except grammar.ParseError:
        kind = "syntax"
    except oracle.NoSides:
        kind = "no sides"
    got = sut.call(sut.parser().parse, text)
    if kind == "sentence":
        judge.returned(got, "%r is a sentence, but parsing it" % text)
    else:
        refused(got, kind, text, ctx, kind == "character" and explain(text, pos))
        if kind == "character":
            lexed = sut.call(LEXER.lex, text)
            refused(lexed, kind, text, ctx, explain(text, pos))
    # through the interpreter
    interp = sut.fresh()
    given = ["VAR a = 3", "VAR b = d2"] if case["given"] else []
    if given:
        judge.returned(sut.call(getattr(interp, query), given), "%s of %r" % (query, given))
    if kind != "sentence":
        refused(sut.call(getattr(interp, query), [text]), kind, text, ctx, kind == "character" and explain(text, pos))
        still_works(interp, given, text, query, ctx)
    else:
        evaluate(interp, given, tree, text, query, ctx)
    ctx.label("kind: " + kind)
    ctx.label("several lines in the text", "\n" in text.strip())
    ctx.nontrivial(kind != "sentence" or len(toks) >= 5)
    ctx.note("%s: %r" % (kind, text[:80]))
    return None


def refused(got, kind, text, ctx, message):
    ctx.require(isinstance(got, sut.Raised) and got.kind == "ValueError", "%r (refused: %s): %r, expected ValueError", text, kind,
                got if isinstance(got, sut.Raised) else "accepted")
    if message:
        ctx.require(str(got.exc) == message, "%r is refused with the message %r, expected %r", text, str(got.exc), message)


def evaluate(interp, given, tree, text, query, ctx):
    nested = [n for n in walk(tree) if n[0] == "assign"]
    if len(nested) > 1 or (nested and tree[0] != "assign"):
        ctx.label("nested assignment (only parsed)")
        return
    e = tree[2] if nested else tree
    if any((t[1] or 0) > 300 for t in terms(e)):
        ctx.label("large (only parsed)")
        return
    known = {"a", "b"} if given else set()
    reads = syntax.reads(e)
    model = oracle.LabelModel(oracle.Work(20000))
    for line in [["set", "a", ["int", 3]], ["set", "b", ["dice", None, ["n", 2]]]] if given else []:
        model.run(line)
    want = None
    if reads <= known:
        try:
            want = oracle.collect((v, w) for (v, _), w in model.ev(e).items())
        except oracle.DivByZero:
            want = "ZeroDivisionError"
        except oracle.TooBig:
            ctx.label("large (only parsed)")
            return
    else:
        # only to bound the work: unassigned names as constants
        try:
            for name in sorted(reads - known):
                model.run(["set", name, ["int", 1000003]])
            for n in terms(e):
                model.ev(n)
            model.ev(e)
        except oracle.DivByZero:
            pass
        except oracle.TooBig:
            ctx.label("large (only parsed)")
            return
    random.seed(len(text))
    got = sut.call(getattr(interp, query), [text])
    if reads - known:
        # an error of an earlier operand may come first
        allowed = ("KeyError", "ZeroDivisionError") if any(n[0] == "bin" and n[1] == "//" for n in walk(e)) else ("KeyError",)
        ctx.require(isinstance(got, sut.Raised) and got.kind in allowed, "%s of %r reads unassigned %r: %r, expected KeyError",
                    query, text, sorted(reads - known), got)
        ctx.label("unassigned variable")
    elif want == "ZeroDivisionError" and query != "get_estimated_cost":
        if query != "roll":
            ctx.require(isinstance(got, sut.Raised) and got.kind == want, "%s of %r: %r, expected %s", query, text, got, want)
    else:
        bitwise = query == "roll" and any(n[0] == "bin" and n[1] == "AND" for n in walk(e))
        if not (bitwise and isinstance(got, sut.Raised) and got.kind == "ZeroDivisionError"):
            judge.returned(got, "%s of %r" % (query, text))
    still_works(interp, given, text, query, ctx)


AFTER = ["VAR x = 2d4k1", "VAR y = x + d2", "VAR x = 1d3", "x * y == 4"]


def still_works(interp, given, text, query, ctx):
    """the same interpreter answers as a fresh one does"""
    kinds = ("get_probability_distributions_dict", "max", "get_estimated_cost", "roll", "get_average", "min")
    for kind in {kinds[len(text) % 6], kinds[(len(text) // 6 + 3) % 6]}:
        answers = []
        for one in (interp, sut.fresh()):
            random.seed(7)
            got = judge.returned(sut.call(getattr(one, kind), list(AFTER)), "%s after %r" % (kind, text))
            if isinstance(got, dict):
                got = {k: v for k, v in got.items() if k in ("x", "y", "stdout")}
            answers.append(got)
        ctx.require(answers[0] == answers[1], "after %s of %r the interpreter answers %s with %r, a fresh one with %r", query, text, kind,
                    answers[0], answers[1])

