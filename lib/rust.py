"""A small reader of Rust source (as printed by rustc): tokens, items, functions."""
import re

TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<comment>//[^\n]*|/\*.*?\*/)
  | (?P<str>b?r(?P<h>\#*)".*?"(?P=h)|b?"(?:\\.|[^"\\])*")
  | (?P<char>b?'(?:\\(?:u\{[^}]*\}|x..|.)|[^'\\])')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>\d[\w]*(?:\.\d[\w]*)?)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<op>::|->|=>|\.\.=|\.\.\.|\.\.|&&|\|\||<<=|>>=|[+\-*/%^&|]=|==|!=|<=|>=|.)
""", re.X | re.S)

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        i = m.end()
        if m.lastgroup == "ws" or m.group("ws") or m.group("comment"):
            continue
        out.append(m.group(0))
    return out


def match(t, i):
    """Index of the bracket that closes the one at i."""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN:
            d += 1
        elif t[j] in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise ValueError("unbalanced")


def angle(t, i):
    """Index of the > that closes the < at i."""
    d = 0
    j = i
    while j < len(t):
        x = t[j]
        if x in OPEN:
            j = match(t, j)
        elif x == "<":
            d += 1
        elif x == ">":
            d -= 1
            if d == 0:
                return j
        j += 1
    raise ValueError("unbalanced <")


def split(t, sep=","):
    """Split at top level separators (brackets and generics are nested)."""
    out, cur, i, d = [], [], 0, 0
    while i < len(t):
        x = t[i]
        if x in OPEN:
            j = match(t, i)
            cur += t[i:j + 1]
            i = j + 1
            continue
        if x == "<":
            d += 1
        elif x == ">":
            d -= 1
        if x == sep and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
        i += 1
    if cur:
        out.append(cur)
    return out


def join(t):
    """Tokens as text."""
    out = []
    prev = ""
    for x in t:
        if out and (prev[-1].isalnum() or prev[-1] in "_\"'") and (x[0].isalnum() or x[0] in "_\"'"):
            out.append(" ")
        elif x in ("->", "=>", "=", "==", "&&", "||", "+", "<=", ">=", "{", "!=", "|", "as", "*", "-", "<<", "<", ">"):
            out.append(" ") if prev not in (".",) else None
        elif prev in ("->", "=>", "=", "==", "&&", "||", ",", ";", "+", "{", "}", "<=", ">=", "!=", ":"):
            out.append(" ")
        out.append(x)
        if x in (";", "{", "}"):
            out.append("\n")
        prev = x
    return "".join(out)


class Fn:
    def __init__(self, path, name, generics, params, ret, where, body, impl=None):
        self.path, self.name, self.generics, self.params = path, name, generics, params
        self.ret, self.where, self.body, self.impl = ret, where, body, impl

    def __repr__(self):
        return f"fn {'::'.join(self.path)}::{self.name}"


class Item:
    def __init__(self, kind, path, name, toks, head=None, fns=None):
        self.kind, self.path, self.name, self.toks, self.head, self.fns = kind, path, name, toks, head, fns


def parse_fn(t, i, path, impl=None):
    """t[i] == 'fn'. Returns (Fn, next index)."""
    name = t[i + 1]
    j = i + 2
    generics = []
    if t[j] == "<":
        k = angle(t, j)
        generics = split(t[j + 1:k])
        j = k + 1
    k = match(t, j)
    params = split(t[j + 1:k])
    j = k + 1
    ret = []
    if t[j] == "->":
        j += 1
        while t[j] not in ("{", "where", ";"):
            if t[j] in OPEN:
                k = match(t, j)
                ret += t[j:k + 1]
                j = k + 1
            else:
                ret.append(t[j])
                j += 1
    where = []
    if t[j] == "where":
        j += 1
        w = []
        while t[j] not in ("{", ";"):
            if t[j] in OPEN:
                k = match(t, j)
                w += t[j:k + 1]
                j = k + 1
            else:
                w.append(t[j])
                j += 1
        where = split(w)
    if t[j] == ";":
        return Fn(path, name, generics, params, ret, where, None, impl), j + 1
    k = match(t, j)
    return Fn(path, name, generics, params, ret, where, t[j:k + 1], impl), k + 1


def items(t, path=()):
    """All items of a token list, recursively through modules."""
    out, i = [], 0
    attrs = []
    while i < len(t):
        x = t[i]
        if x == "#":
            j = i + 1
            if t[j] == "!":
                j += 1
            k = match(t, j)
            attrs.append(t[j + 1:k])
            i = k + 1
            continue
        if x == "pub":
            i += 1
            if t[i] == "(":
                i = match(t, i) + 1
            continue
        if x in ("const", "unsafe", "async") and t[i + 1] in ("fn", "unsafe", "extern"):
            i += 1
            continue
        if x == "fn":
            f, i = parse_fn(t, i, path)
            out.append(Item("fn", path, f.name, None, fns=[f]))
        elif x == "mod":
            name = t[i + 1]
            if t[i + 2] == ";":
                i += 3
            else:
                k = match(t, i + 2)
                cfg = any(a[:1] == ["cfg"] and "test" in a for a in attrs)
                if not cfg:
                    out += items(t[i + 3:k], path + (name,))
                i = k + 1
        elif x == "impl" or x == "trait":
            j = i + 1
            while t[j] != "{":
                if t[j] in ("(", "["):
                    j = match(t, j)
                j += 1
            head = t[i + 1:j]
            k = match(t, j)
            sub = items(t[j + 1:k], path)
            item = Item(x, path, head[0] if x == "trait" else "", t[i:k + 1], head, [])
            for s in sub:
                if s.kind == "fn":
                    s.fns[0].impl = item
                    item.fns.append(s.fns[0])
            item.attrs = attrs
            out.append(item)
            i = k + 1
        elif x in ("struct", "enum", "union"):
            name = t[i + 1]
            j = i + 2
            while t[j] not in ("{", ";"):
                if t[j] == "(":
                    j = match(t, j)
                j += 1
            k = match(t, j) if t[j] == "{" else j
            out.append(Item(x, path, name, t[i:k + 1]))
            i = k + 1
        elif x == "macro_rules":
            k = match(t, i + 3)
            i = k + 1
            if i < len(t) and t[i] == ";":
                i += 1
        else:  # use, const, static, type, extern, macro call
            j = i
            while j < len(t) and t[j] != ";":
                if t[j] in OPEN:
                    j = match(t, j)
                    if x not in ("use", "const", "static", "type", "extern") and t[j] == "}":
                        break
                j += 1
            out.append(Item(x, path, t[i + 1] if i + 1 < len(t) else "", t[i:j + 1]))
            i = j + 1
        attrs = []
    return out
