"""A small Rust lexer and item parser, enough for rustc's -Zunpretty=expanded output."""
import re

_TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<str>b?c?r(?P<h>\#*)".*?"(?P=h)|b?c?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:u\{[0-9a-fA-F]+\}|x..|.)|[^\\'])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9a-zA-Z_]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op>->|=>|::|\.\.=|\.\.\.|\.\.|&&|\|\||==|!=|<=|>=|<<=|>>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
''', re.X | re.S)
# '<<' and '>>' are left as single characters so that generics nest


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return self.t


def lex(src):
    out, p, n = [], 0, len(src)
    while p < n:
        m = _TOK.match(src, p)
        k = m.lastgroup
        if k == "h":
            k = "str"
        if m.group("ws") is None:
            if m.group("str") is not None:
                k = "str"
            out.append(Tok(k, m.group(0), p, m.end()))
        p = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "op":
            if t.t in OPEN:
                d += 1
            elif t.t in (")", "]", "}"):
                d -= 1
                if d == 0:
                    return i
        i += 1
    raise ValueError("unbalanced")


def skip_angle(toks, i):
    """i at '<': index after the matching '>'"""
    d = 0
    while i < len(toks):
        t = toks[i].t if toks[i].k == "op" else ""
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
            if d == 0:
                return i + 1
        elif t in OPEN:
            i = match_close(toks, i)
        i += 1
    raise ValueError("unbalanced <>")


def norm(toks):
    """token texts joined so that formatting does not matter"""
    o, prev = [], None
    for t in toks:
        if prev is not None and prev.k in ("id", "num", "life") and t.k in ("id", "num", "life"):
            o.append(" ")
        o.append(t.t)
        prev = t
    return "".join(o)


class Item:
    """kind, name, key; lo..hi token indices of the whole item (with attributes), head token range, body braces"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


ITEM_KW = {"mod", "fn", "struct", "enum", "union", "impl", "trait", "use", "type", "const", "static", "extern", "macro_rules"}


def parse_items(toks, lo, hi):
    """items between token indices lo..hi"""
    items = []
    i = lo
    while i < hi:
        start = i
        attrs = []
        while i < hi and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            e = match_close(toks, j)
            attrs.append(norm(toks[i:e + 1]))
            i = e + 1
        if i >= hi:
            break
        vis0 = i
        if toks[i].t == "pub":
            i += 1
            if toks[i].t == "(":
                i = match_close(toks, i) + 1
        head = i
        # modifiers
        while toks[i].t in ("const", "unsafe", "async", "default", "extern", "safe"):
            t = toks[i].t
            if t == "const" and toks[i + 1].t not in ("fn", "unsafe", "extern", "async"):
                break
            if t == "extern" and toks[i + 1].k == "id" and toks[i + 1].t == "crate":
                break
            if t == "extern" and toks[i + 1].k == "str":
                i += 1
            if t == "unsafe" and toks[i + 1].t not in ("fn", "impl", "trait", "extern"):
                break
            i += 1
        kw = toks[i].t
        if toks[i].k != "id" or (kw not in ITEM_KW):
            # macro invocation item  path!{...}  /  path!(...);
            j = i
            while toks[j].t not in ("(", "{", "["):
                j += 1
            e = match_close(toks, j)
            if e + 1 < hi and toks[e + 1].t == ";":
                e += 1
            items.append(Item(kind="macro", name=toks[i].t, key=None, attrs=attrs, lo=start, vis0=vis0, head=head, hi=e + 1, body=None))
            i = e + 1
            continue
        if kw == "macro_rules":
            j = i + 1
            while toks[j].t not in ("(", "{", "["):
                j += 1
            e = match_close(toks, j)
            if e + 1 < hi and toks[e + 1].t == ";":
                e += 1
            items.append(Item(kind="macro_rules", name=toks[i + 2].t, key=None, attrs=attrs, lo=start, vis0=vis0, head=head, hi=e + 1, body=None))
            i = e + 1
            continue
        # find the end: ';' or '{...}' at depth 0
        j = i + 1
        body = None
        while True:
            t = toks[j]
            if t.k == "op":
                if t.t == ";":
                    e = j
                    break
                if t.t == "{":
                    body = (j, match_close(toks, j))
                    e = body[1]
                    if kw in ("const", "static", "type", "use"):
                        j = e + 1
                        body = None
                        continue
                    break
                if t.t == "<" and kw in ("fn", "struct", "enum", "impl", "trait", "type", "union"):
                    j = skip_angle(toks, j)
                    continue
                if t.t in ("(", "["):
                    j = match_close(toks, j) + 1
                    continue
            j += 1
        it = Item(kind=kw, name=None, key=None, attrs=attrs, lo=start, vis0=vis0, head=head, hi=e + 1, body=body, kw=i)
        if kw == "impl":
            j = i + 1
            if toks[j].t == "<":
                j = skip_angle(toks, j)
            k = j
            while k < e and toks[k].t != "where" and (body is None or k < body[0]):
                if toks[k].t == "<":
                    k = skip_angle(toks, k)
                    continue
                k += 1
            it.key = norm(toks[j:k])
            it.name = it.key
        elif kw == "extern":
            it.name = toks[i + 2].t
        elif kw == "use":
            it.name = norm(toks[i + 1:e])
        else:
            n = i + 1
            if toks[n].t == "mut":
                n += 1
            it.name = toks[n].t
        items.append(it)
        i = e + 1
    return items
