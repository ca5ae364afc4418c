"""Abstract syntax of dice programs, as JSON-able lists, and their rendering as text.

expression forms
  ["int", n]                    integer constant
  ["bool", 0|1]                 True / False
  ["dice", count|None, spec]
  ["kd", count|None, spec, "k"|"d", number]
  ["bin", op, left, right]      op in + - * // == != <= < >= > AND OR
  ["not", e] ["abs", e] ["mm", "MAX"|"MIN", e, e] ["par", e] ["var", name]
spec forms
  ["n", sides]  ["%"]  ["F"]  ["list", [[lo, hi|None, mult|None], ...], trailing_comma, blanks]
line forms
  ["set", name, e]   ["out", e]
A program is a list of lines.
"""

ADD_OPS = ("+", "-")
MUL_OPS = ("*", "//")
CMP_OPS = ("==", "!=", "<=", "<", ">=", ">")
LOGIC_OPS = ("AND", "OR")
BIN_OPS = ADD_OPS + MUL_OPS + CMP_OPS + LOGIC_OPS


def level(op):
    if op in ADD_OPS:
        return 2
    if op in MUL_OPS:
        return 3
    return 4


def spec_text(spec):
    kind = spec[0]
    if kind == "n":
        return str(spec[1])
    if kind in ("%", "F"):
        return kind
    entries, trailing, blanks = spec[1], spec[2], spec[3]
    parts = []
    for lo, hi, mult in entries:
        text = str(lo)
        if hi is not None:
            text += "-" + str(hi)
        if mult is not None:
            text += "*" + str(mult)
        parts.append(text)
    if blanks == 0:
        sep, pad = ",", ""
    elif blanks == 1:
        sep, pad = ", ", ""
    else:
        sep, pad = " ,\t ", " "
    return "[" + pad + sep.join(parts) + pad + ("," + pad if trailing else "") + "]"


def dice_text(e):
    count = "" if e[1] is None else str(e[1])
    text = count + "d" + spec_text(e[2])
    if e[0] == "kd":
        text += e[3] + str(e[4])
    return text


def _open_not(e):
    """Would text appended after the (unparenthesised) rendering of e be swallowed by a trailing '!'?"""
    if e[0] == "not":
        return True
    if e[0] == "bin":
        return _open_not(e[3])
    return False


def tokens(e):
    """Token list of e with the fewest parentheses that preserve its structure."""
    kind = e[0]
    if kind == "int":
        return [str(e[1])]
    if kind == "bool":
        return ["True" if e[1] else "False"]
    if kind in ("dice", "kd"):
        return [dice_text(e)]
    if kind == "var":
        return [e[1]]
    if kind == "par":
        return ["("] + tokens(e[1]) + [")"]
    if kind == "abs":
        return ["ABS", "("] + tokens(e[1]) + [")"]
    if kind == "mm":
        return [e[1], "("] + tokens(e[2]) + [","] + tokens(e[3]) + [")"]
    if kind == "not":
        return ["!"] + tokens(e[1])
    if kind == "bin":
        lev = level(e[1])
        left, right = e[2], e[3]
        out = []
        if (left[0] == "bin" and level(left[1]) < lev) or _open_not(left):
            out += ["("] + tokens(left) + [")"]
        else:
            out += tokens(left)
        out.append(e[1])
        if right[0] == "bin" and level(right[1]) <= lev:
            out += ["("] + tokens(right) + [")"]
        else:
            out += tokens(right)
        return out
    raise AssertionError(e)


def explicit(e):
    """The same expression with every parenthesis that minimal rendering would add made explicit as ["par", ..]."""
    kind = e[0]
    if kind == "bin":
        lev = level(e[1])
        left, right = explicit(e[2]), explicit(e[3])
        if (left[0] == "bin" and level(left[1]) < lev) or _open_not(left):
            left = ["par", left]
        if right[0] == "bin" and level(right[1]) <= lev:
            right = ["par", right]
        return ["bin", e[1], left, right]
    if kind in ("not", "abs", "par"):
        return [kind, explicit(e[1])]
    if kind == "mm":
        return [kind, e[1], explicit(e[2]), explicit(e[3])]
    return e


def full_tokens(e):
    """Token list with parentheses around every operator application."""
    kind = e[0]
    if kind == "bin":
        return ["("] + full_tokens(e[2]) + [e[1]] + full_tokens(e[3]) + [")"]
    if kind == "not":
        return ["(", "!", "("] + full_tokens(e[1]) + [")", ")"]
    if kind == "par":
        return full_tokens(e[1])
    if kind == "abs":
        return ["ABS", "("] + full_tokens(e[1]) + [")"]
    if kind == "mm":
        return [e[1], "("] + full_tokens(e[2]) + [","] + full_tokens(e[3]) + [")"]
    return tokens(e)


def _word(ch):
    return ch.isalnum() or ch == "_"


def need_space(prev, nxt):
    if _word(prev[-1]) and _word(nxt[0]):
        return True
    if prev[-1] == "-" and nxt[0].isdecimal():
        return True
    if _word(prev[-1]) and nxt[0] == "-" and len(nxt) > 1:
        return False
    if prev[-1] in "=!<>" and nxt[0] == "=":
        return True
    if prev[-1] == "/" and nxt[0] == "/":
        return True
    return False


def join(toks, seps=None):
    """Join tokens. seps: None (single blanks everywhere), or a list of separators used cyclically ("" allowed where legal)."""
    if seps is None:
        return " ".join(toks)
    out = []
    for i, tok in enumerate(toks):
        if i:
            sep = seps[(i - 1) % len(seps)] if seps else ""
            if sep == "" and need_space(toks[i - 1], tok):
                sep = " "
            out.append(sep)
        out.append(tok)
    return "".join(out)


def line_tokens(line, render=tokens):
    if line[0] == "set":
        return ["VAR", line[1], "="] + render(line[2])
    return render(line[1])


def line_text(line, seps=None, render=tokens):
    return join(line_tokens(line, render), seps)


def program_text(program, seps=None, render=tokens):
    return [line_text(line, seps, render) for line in program]


def line_expr(line):
    return line[2] if line[0] == "set" else line[1]


def walk(e):
    yield e
    kind = e[0]
    if kind == "bin":
        for x in walk(e[2]):
            yield x
        for x in walk(e[3]):
            yield x
    elif kind in ("not", "abs", "par"):
        for x in walk(e[1]):
            yield x
    elif kind == "mm":
        for x in walk(e[2]):
            yield x
        for x in walk(e[3]):
            yield x


def reads(e):
    return {x[1] for x in walk(e) if x[0] == "var"}
