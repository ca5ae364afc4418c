"""Independent reference lexer and parser of the dice language.

Hand-written scanner over characters (no regular expressions); recursive descent with explicit precedence.
lex(text)    -> list of (kind, text, pos)  or raises LexError(pos)
parse(toks)  -> syntax tree (vlib.syntax forms plus ["assign", name, e]) or raises ParseError
"""


class LexError(Exception):
    def __init__(self, pos):
        Exception.__init__(self, pos)
        self.pos = pos


class ParseError(Exception):
    pass


def _is_word(ch):
    return ch == "_" or ch.isalnum()


def _digits(s, i):
    j = i
    while j < len(s) and s[j].isdecimal():
        j += 1
    return j


def _blank(s, i):
    while i < len(s) and s[i].isspace():
        i += 1
    return i


def _signed(s, i):
    """end of -?digits starting at i, or None"""
    j = i + 1 if i < len(s) and s[i] == "-" else i
    k = _digits(s, j)
    return k if k > j else None


def _side_list(s, i):
    """s[i] == '['; returns (end, entries) or None. Entries: [lo, hi|None, mult|None]"""
    i += 1
    entries = []
    while True:
        i = _blank(s, i)
        end = _signed(s, i)
        if end is None:
            if entries and i < len(s) and s[i] == "]":  # trailing comma
                return i + 1, entries
            return None
        lo, hi, mult = int(s[i:end]), None, None
        i = end
        if i < len(s) and s[i] == "-":
            end = _signed(s, i + 1)
            if end is None:
                return None
            hi = int(s[i + 1:end])
            i = end
        if i < len(s) and s[i] == "*":
            end = _digits(s, i + 1)
            if end == i + 1:
                return None
            mult = int(s[i + 1:end])
            i = end
        entries.append([lo, hi, mult])
        i = _blank(s, i)
        if i >= len(s):
            return None
        if s[i] == "]":
            return i + 1, entries
        if s[i] != ",":
            return None
        i += 1


def _dice(s, i):
    """returns (end, tree) or None"""
    j = _digits(s, i)
    if j >= len(s) or s[j] != "d":
        return None
    count = int(s[i:j]) if j > i else None
    j += 1
    if j >= len(s):
        return None
    if s[j].isdecimal():
        k = _digits(s, j)
        spec = ["n", int(s[j:k])]
    elif s[j] in "%F":
        k = j + 1
        spec = [s[j]]
    elif s[j] == "[":
        got = _side_list(s, j)
        if got is None:
            return None
        k, entries = got
        spec = ["list", entries, False, 0]
    else:
        return None
    if k < len(s) and s[k] in "kd":
        m = _digits(s, k + 1)
        if m > k + 1:
            return m, ["kd", count, spec, s[k], int(s[k + 1:m])]
    return k, ["dice", count, spec]


KEYWORDS = {
    "AND": "BINOP",
    "OR": "BINOP",
    "True": "CONST",
    "False": "CONST",
    "MAX": "MINMAX",
    "MIN": "MINMAX",
    "ABS": "ABS",
    "VAR": "VAR",
}


def lex(s):
    out = []
    i = 0
    while i < len(s):
        ch = s[i]
        if ch.isspace():
            # blanks are skipped only where no token starts with them: none does
            i += 1
            continue
        if ch in "(),":
            out.append((ch, ch, i))
            i += 1
            continue
        if ch == "!":
            if s[i + 1:i + 2] == "=":
                out.append(("BINOP", "!=", i))
                i += 2
            else:
                out.append(("!", "!", i))
                i += 1
            continue
        got = _dice(s, i)
        if got is not None:
            out.append(("DICE", got[1], i))
            i = got[0]
            continue
        two = s[i:i + 2]
        if two in ("==", "<=", ">="):
            out.append(("BINOP", two, i))
            i += 2
            continue
        if ch in "<>":
            out.append(("BINOP", ch, i))
            i += 1
            continue
        end = _signed(s, i)
        if end is not None:
            out.append(("INT", int(s[i:end]), i))
            i = end
            continue
        if two == "//":
            out.append(("//", two, i))
            i += 2
            continue
        if ch == "=":
            # an assignment sign touches no other equals sign
            if s[i + 1:i + 2] == "=" or (i > 0 and s[i - 1] == "="):
                raise LexError(i)
            out.append(("=", "=", i))
            i += 1
            continue
        if ch in "+-*":
            out.append((ch, ch, i))
            i += 1
            continue
        if _is_word(ch) and not (i > 0 and _is_word(s[i - 1])):
            j = i
            while j < len(s) and _is_word(s[j]):
                j += 1
            word = s[i:j]
            if word in KEYWORDS:
                out.append((KEYWORDS[word], word, i))
                i = j
                continue
            if all("a" <= c <= "z" or c == "_" for c in word):
                out.append(("NAME", word, i))
                i = j
                continue
        raise LexError(i)
    return out


LEVEL = {"+": 2, "-": 2, "*": 3, "//": 3, "BINOP": 4}


class _Parser:
    def __init__(self, toks):
        self.toks = toks
        self.i = 0

    def peek(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def take(self, kind):
        if self.peek() != kind:
            raise ParseError(self.i)
        tok = self.toks[self.i]
        self.i += 1
        return tok[1]

    def expr(self, min_level):
        left, greedy = self.operand()
        while True:
            kind = self.peek()
            lev = LEVEL.get(kind)
            if lev is None or lev < min_level or greedy:
                # after '!' or an assignment nothing can be left to take: it has taken all operators already
                return left
            op = self.take(kind)
            right = self.expr(lev + 1)
            # a right operand ending in '!...' or an assignment has swallowed every following operator
            left = ["bin", op, left, right]

    def operand(self):
        kind = self.peek()
        if kind == "(":
            self.take("(")
            e = self.expr(0)
            self.take(")")
            return ["par", e], False
        if kind == "!":
            self.take("!")
            return ["not", self.expr(0)], True
        if kind == "VAR":
            self.take("VAR")
            name = self.take("NAME")
            self.take("=")
            return ["assign", name, self.expr(0)], True
        if kind == "ABS":
            self.take("ABS")
            self.take("(")
            e = self.expr(0)
            self.take(")")
            return ["abs", e], False
        if kind == "MINMAX":
            op = self.take("MINMAX")
            self.take("(")
            a = self.expr(0)
            self.take(",")
            b = self.expr(0)
            self.take(")")
            return ["mm", op, a, b], False
        if kind == "DICE":
            return self.take("DICE"), False
        if kind == "INT":
            return ["int", self.take("INT")], False
        if kind == "CONST":
            return ["bool", 1 if self.take("CONST") == "True" else 0], False
        if kind == "NAME":
            return ["var", self.take("NAME")], False
        raise ParseError(self.i)


def parse(toks):
    p = _Parser(toks)
    e = p.expr(0)
    if p.peek() is not None:
        raise ParseError(p.i)
    return e
