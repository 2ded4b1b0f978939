"""Mechanical extraction of real functions from the macro-expanded crate into one Verus file.

Input: the text rustc prints with -Zunpretty=expanded for /repo's current tree, and contract files
(contracts/*.vrs).  Output: a single Rust file with the same module tree, holding every item of the
covered modules except those a contract file drops, with contracts injected.  What is changed about
the code itself: see REWRITES below and extraction notes in DESIGN.md."""
import re
from .rustitems import lex, parse_items, match_close, skip_angle, norm, Item, OPEN

# ---------------------------------------------------------------- contract files


class FnSpec:
    def __init__(self, name, ret, flags, where):
        self.name, self.ret, self.flags, self.where = name, ret, flags, where
        self.clauses, self.loops, self.body, self.ats, self.rw = "", {}, "", [], []
        self.loopbody, self.after, self.bounds = {}, "", None
        self.used = 0


class ModSpec:
    def __init__(self):
        self.raw = ""
        self.ext = ""
        self.drops = []
        self.onlys = None
        self.derives = {}
        self.attrs = {}
        self.external = []
        self.keepvis = []
        self.headers = {}
        self.mono = []
        self.conts = {}   # container key -> {"raw": str, "fns": {name: FnSpec}}


def load(files):
    mods = {}
    pre = []
    for path in files:
        text = open(path).read()
        text = _templates(text)
        cur = cont = fn = None
        sink = ("pre", None)
        for ln, line in enumerate(text.split("\n"), 1):
            if line.startswith("=== "):
                words = line[4:].strip()
                cmd, _, arg = words.partition(" ")
                arg = arg.strip()
                if cmd == "prelude":
                    sink = ("pre", None)
                elif cmd == "mod":
                    cur = mods.setdefault(arg, ModSpec())
                    cont = "-"
                    sink = ("mod", cur)
                elif cmd == "external":
                    sink = ("ext", cur)
                elif cmd == "drop":
                    cur.drops.append(arg)
                elif cmd == "only":
                    cur.onlys = (cur.onlys or []) + [arg]
                elif cmd == "derive":
                    n, _, d = arg.partition(" ")
                    cur.derives[n] = d
                elif cmd == "keepvis":
                    cur.keepvis.append(arg)
                elif cmd == "header":  # generics of a struct, written out; its where clause goes
                    n, _, d = arg.partition(" ")
                    cur.headers[n] = d
                elif cmd == "mono":  # one copy of the impl per instance of its type parameter: KEY; PARAM: a | b
                    k, _, r = arg.partition(";")
                    q, _, vs = r.partition(":")
                    cur.mono.append((normkey(k.strip())[5:], q.strip(), [x.strip() for x in vs.split("|")], "%s:%d" % (path, ln)))
                elif cmd == "bounds":  # generics of this impl or function, written out; its where clause goes
                    if sink[0] == "fn":
                        fn.bounds = arg
                    else:
                        cur.conts[cont]["bounds"] = arg
                elif cmd == "attr":
                    n, _, d = arg.partition(" ")
                    cur.attrs[n] = cur.attrs.get(n, "") + d + " "
                elif cmd == "keepext":
                    cur.external.append(arg)
                elif cmd == "in":
                    cont = normkey(arg)
                    c = cur.conts.setdefault(cont, {"raw": "", "fns": {}, "used": 0, "where": "%s:%d" % (path, ln), "subst": []})
                    sink = ("cont", c)
                elif cmd == "subst":  # mechanical type substitution inside this container  A => B
                    a, _, b = arg.partition(" => ")
                    cur.conts[cont]["subst"].append((a, b))
                elif cmd == "hoist":  # default method of this trait moved into a subtrait with a blanket impl
                    a, _, b = arg.partition(" into ")
                    cur.conts[cont].setdefault("hoist", {}).setdefault(b, []).append(a)
                elif cmd == "inherent":  # trait impl emitted as inherent impl (so that methods can have preconditions)
                    cur.conts[cont]["opts"] = "inherent"
                    a, _, b = arg.partition(" => ")
                    if a:
                        cur.conts[cont]["subst"].append((a, b))
                elif cmd == "sized":
                    cur.conts[cont].setdefault("super", []).append("Sized")
                elif cmd == "super":  # specification supertrait (adds ghost members only)
                    cur.conts[cont].setdefault("super", []).append(arg)
                elif cmd == "constfn":  # associated constants of these names become functions with a contract
                    CONSTFNS.update(arg.split())
                elif cmd == "fn":
                    ws = arg.split()
                    name = ws[0]
                    ret = None
                    if "->" in ws:
                        ret = ws[ws.index("->") + 1]
                    flags = [w for w in ws[1:] if w not in ("->", ret)]
                    fn = FnSpec(name, ret, flags, "%s:%d" % (path, ln))
                    cur.conts.setdefault(cont, {"raw": "", "fns": {}, "used": 0, "where": "%s:%d" % (path, ln), "subst": []})["fns"][name] = fn
                    sink = ("fn", fn)
                elif cmd == "amend":  # further annotations for a function that already has a contract
                    fn = cur.conts[cont]["fns"][arg]
                    sink = ("fn", fn)
                elif cmd == "loop":
                    sink = ("loop", (fn, int(arg)))
                elif cmd == "sum":  # invariants of the K-th `.iter().map(f).sum()`
                    sink = ("loop", (fn, "sum" + arg))
                elif cmd == "sumbody":
                    sink = ("loopbody", (fn, "sum" + arg))
                elif cmd == "loopbody":
                    sink = ("loopbody", (fn, int(arg)))
                elif cmd == "body":
                    sink = ("body", fn)
                elif cmd == "at":
                    fn.ats.append([arg, ""])
                    sink = ("at", fn)
                elif cmd == "rw":
                    a, _, b = arg.partition(" => ")
                    fn.rw.append((a, b))
                else:
                    raise ValueError("%s:%d: unknown directive %s" % (path, ln, cmd))
                continue
            l = line + "\n"
            k, o = sink
            if k == "pre":
                pre.append(l)
            elif k == "mod":
                o.raw += l
            elif k == "ext":
                o.ext += l
            elif k == "cont":
                o["raw"] += l
            elif k == "fn":
                o.clauses += l
            elif k == "loop":
                o[0].loops[o[1]] = o[0].loops.get(o[1], "") + l
            elif k == "loopbody":
                o[0].loopbody[o[1]] = o[0].loopbody.get(o[1], "") + l
            elif k == "body":
                o.body += l
            elif k == "at":
                o.ats[-1][1] += l
    return "".join(pre), mods


def _templates(text):
    """=== each A,B: x,y | z,w   ...   === end      substitutes ${A} ${B}"""
    out, lines, i = [], text.split("\n"), 0
    while i < len(lines):
        if lines[i].startswith("=== each "):
            spec = lines[i][9:]
            names, _, vals = spec.partition(":")
            names = [n.strip() for n in names.split(",")]
            j, depth = i + 1, 1
            while True:
                if lines[j].startswith("=== each "):
                    depth += 1
                if lines[j].strip() == "=== end":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            blk = "\n".join(lines[i + 1:j])
            for v in vals.split("|"):
                vs = [x.strip() for x in v.split(",")]
                b = blk
                for n, x in zip(names, vs):
                    b = b.replace("${%s}" % n, x)
                out.append(_templates(b))
            i = j + 1
        else:
            out.append(lines[i])
            i += 1
    return "\n".join(out)


def shortpath(k):
    """path prefixes are not part of an impl's key"""
    return re.sub(r"(?:(?:\$\s*)?(?:\b\w+)?::)+(?=[A-Za-z_])", "", k)


def normkey(s):
    """'impl Foo<T> for Bar' -> 'impl:' + normalised key;  'trait X' -> 'trait:X'"""
    k, _, rest = s.partition(" ")
    if k.startswith("impl<"):  # generics of the impl itself are not part of the key
        toks = lex(s[4:])
        e = skip_angle(toks, 0)
        return "impl:" + shortpath(norm(toks[e:]))
    if k == "impl":
        return "impl:" + shortpath(norm(lex(rest)))
    if k == "trait":
        return "trait:" + rest.strip()
    return "-"


# ---------------------------------------------------------------- generation


class Gen:
    def __init__(self, src, prelude, mods):
        # `nat` and `int` are type names in the verifier's language: variables of these names are renamed
        src = re.sub(r"\bnat\b(?!\s*::)", "nat_", src)
        src = re.sub(r"(?<!::)(?<!mod )\bint\b(?!\s*::)", "int_", src)
        self.src, self.T = src, lex(src)
        self.pre, self.mods = prelude, mods
        self.notes = {}
        self.monolost = []
        self.domono()
        self.lost = list(self.monolost)        # contracts whose anchor is gone
        self.uncontracted = []  # extracted functions without contract
        self.functions = []   # {fn, contracted, loops, trusted}
        self.shape = {}
        self.closures = {}
        self.twins, self.ntwin = [], 0
        self.force = {}       # fn -> external_body | external: functions the verifier does not accept

    def domono(self):
        """copies of an impl, one per instance of a type parameter: what the compiler itself makes of it"""
        edits = []

        def go(lo, hi, path):
            for it in self.parse(lo, hi):
                if it.kind == "mod" and it.body:
                    go(it.body[0] + 1, it.body[1], path + [it.name])
                elif it.kind == "impl" and not any("automatically_derived" in a for a in it.attrs):
                    for key, q, vals, where in self.mods["::".join(path)].mono if "::".join(path) in self.mods else []:
                        if it.key == key:
                            edits.append((it, q, vals))
                            done.add(where)
        done = set()
        if not any(m.mono for m in self.mods.values()):
            return
        go(0, len(self.T), [])
        for p, m in self.mods.items():
            for key, q, vals, where in m.mono:
                if where not in done:
                    self.monolost.append({"fn": "%s::%s" % (p, key), "where": where})
        s = self.src
        for it, q, vals in sorted(edits, key=lambda e: -e[0].lo):
            T = self.T
            g0 = it.kw + 1
            g1 = skip_angle(T, g0)
            b0 = it.body[0]
            w = g1
            while w < b0 and T[w].t != "where":
                w = skip_angle(T, w) if T[w].t == "<" else w + 1
            params = [x for x in _splittop(self.text(g0 + 1, g1 - 1)) if re.match(r"\s*(?:const\s+)?(\w+|'\w+)", x).group(1) != q]
            txt = "impl%s %s %s" % ("<%s>" % ",".join(params) if params else "", self.text(g1, w), self.text(b0, it.hi))
            out = []
            for v in vals:
                out.append(re.sub(r"\b%s\b" % q, v, txt))
            s = s[:T[it.lo].s] + "\n".join(out) + s[T[it.hi - 1].e:]
            self.note("generic impl written out per instance of its type parameter: %s for %s" % (it.key, ", ".join(vals)))
        self.src, self.T = s, lex(s)

    def note(self, k):
        self.notes[k] = self.notes.get(k, 0) + 1

    def parse(self, lo, hi):
        items = parse_items(self.T, lo, hi)
        for it in items:
            if it.kind == "impl":
                it.key = it.name = shortpath(it.key)
        return items

    def text(self, a, b):
        """source text of tokens a..b (exclusive)"""
        return self.src[self.T[a].s:self.T[b - 1].e] if b > a else ""

    def run(self):
        items = self.parse(0, len(self.T))
        self.index(items)
        body = self.module(items, [])
        for path, m in self.mods.items():
            if not getattr(m, "seen", False):
                self.lost.append({"fn": "mod " + path, "where": path})
            for ck, c in m.conts.items():
                if not c["used"] and ck != "-":
                    self.lost.append({"fn": "%s::%s" % (path, ck.split(":", 1)[-1]), "where": c["where"]})
                    continue
                for f in c["fns"].values():
                    if not f.used:
                        self.lost.append({"fn": "%s::%s%s" % (path, ck.split(":", 1)[1] + "::" if ":" in ck else "", f.name), "where": f.where})
        return self.pre + body + "\nfn main(){}\n"

    def leaves(self, it):
        """[(path parts, alias)] of a use item"""
        T = self.T
        out = []

        def go(i, e, pre):
            # one tree in tokens i..e
            parts = list(pre)
            while i < e:
                t = T[i].t
                if t == "{":
                    c = match_close(T, i)
                    j = i + 1
                    st = j
                    while j < c:
                        if T[j].t == "{":
                            j = match_close(T, j)
                        if T[j].t == ",":
                            go(st, j, parts)
                            st = j + 1
                        j += 1
                    if st < c:
                        go(st, c, parts)
                    return
                if t == "::":
                    if not parts:
                        parts.append("")
                elif t == "as":
                    out.append((parts, T[i + 1].t))
                    return
                elif t == "self" and parts:
                    pass
                else:
                    parts.append(t)
                i += 1
            out.append((parts, None))
        go(it.kw + 1, it.hi - 1, [])
        return out

    def absolute(self, parts, path):
        """tuple of the crate-absolute path, or None for an external crate"""
        p = list(parts)
        if p[0] == "" or p[0] in ("std", "core", "alloc"):
            return None
        base = list(path)
        if p[0] == "crate":
            base, p = [], p[1:]
        elif p[0] in ("self", "super"):
            while p and p[0] in ("self", "super"):
                if p[0] == "super":
                    base = base[:-1]
                p = p[1:]
        else:
            if tuple(base + [p[0]]) not in self.allnames:
                if (p[0],) in self.allnames:
                    base = []
                else:
                    return ("?",)
        return tuple(base + p)

    def index(self, items):
        self.allnames, self.included, uses = set(), set(), []

        def go(its, path):
            p = "::".join(path)
            m = self.mods.get(p)
            for it in its:
                if it.kind == "use":
                    uses.append((it, path, m is not None))
                    continue
                if it.kind in ("impl", "macro", "macro_rules") or any("automatically_derived" in a for a in it.attrs):
                    continue
                t = tuple(path + [it.name])
                self.allnames.add(t)
                if it.kind == "mod" and it.body:
                    q = "::".join(t)
                    if any(x == q or x.startswith(q + "::") for x in self.mods):
                        self.included.add(t)
                    go(self.parse(it.body[0] + 1, it.body[1]), path + [it.name])
                elif m is not None:
                    label = "%s %s" % (it.kind, it.name)
                    if not self._matches(m.drops, label) and (m.onlys is None or self._matches(m.onlys, label)):
                        self.included.add(t)
        go(items, [])
        for it, path, inc in uses:
            for parts, al in self.leaves(it):
                self.allnames.add(tuple(path + [al or parts[-1]]))
        for _ in range(4):
            for it, path, inc in uses:
                if not inc:
                    continue
                for parts, al in self.leaves(it):
                    ab = self.absolute(parts, path)
                    if ab in self.included:
                        self.included.add(tuple(path + [al or parts[-1]]))
                    elif ab and ab[-1] == "*" and ab[:-1] in self.included:
                        for x in list(self.included):
                            if x[:-1] == ab[:-1]:
                                self.included.add(tuple(path + [x[-1]]))

    def module(self, items, path):
        out = []
        for it in items:
            if it.kind == "mod" and it.body:
                p = "::".join(path + [it.name])
                if any(m == p or m.startswith(p + "::") for m in self.mods):
                    sub = self.parse(it.body[0] + 1, it.body[1])
                    out.append("pub mod %s {\n#[allow(unused_imports)] use vstd::prelude::*;\n%s}\n" % (it.name, self.module(sub, path + [it.name])))
        p = "::".join(path)
        m = self.mods.get(p)
        if m is None:
            return "".join(out)
        m.seen = True
        v, ext = [m.raw], [m.ext]
        auto = {}
        for it in items:
            if it.kind == "impl" and any("automatically_derived" in a for a in it.attrs):
                k = it.key
                mm = re.match(r"(?:::)?(?:\w+::)*(\w+)(?:<.*?>)? ?for ?(\w+)", k)
                if mm:
                    auto.setdefault(mm.group(2), []).append(mm.group(1))
        for it in items:
            if it.kind in ("mod", "macro_rules", "macro") or (it.kind == "extern"):
                continue
            if any("automatically_derived" in a for a in it.attrs):
                continue
            if any(a.startswith("#[cfg(test)") for a in it.attrs):
                continue
            label = "%s %s" % (it.kind, it.name)
            if it.kind == "impl" and re.match(r"(?:Display|Debug|LowerHex|UpperHex|Binary|Octal|Error)\b(?:<[^>]*>)? ?for", it.key):
                self.note("text-formatting impl dropped (Display, Debug, Error)")
                continue
            if self._matches(m.drops, label):
                continue
            if m.onlys is not None and it.kind != "use" and not self._matches(m.onlys, label):
                continue
            if it.kind == "use":
                for leaf in self.leaves(it):
                    if self._matches([q for q in m.drops if q.startswith("/")], "use " + "::".join(leaf[0])):
                        continue
                    ab = self.absolute(leaf[0], path)
                    if ab is None or ab in self.included or (ab[-1] == "*" and ab[:-1] in self.included):
                        vis = self.text(it.vis0, it.kw)
                        v.append("#[allow(unused_imports)] %s use %s%s;\n" % (vis, "::".join(leaf[0]), " as " + leaf[1] if leaf[1] else ""))
                continue
            if self._matches(m.external, label):
                ext.append(self.text(it.vis0, it.hi) + "\n")
                continue
            v.append(self.item(it, m, p, auto))
        out.append("verus! {\n" + "".join(v) + "}\n" + "".join(ext))
        return "".join(out)

    @staticmethod
    def _matches(pats, label):
        for q in pats:
            if q.startswith("/"):
                if re.search(q[1:], label):
                    return True
            else:
                k, _, r = q.partition(" ")
                if k == "impl":
                    r = shortpath(norm(lex(r)))
                if "%s %s" % (k, r) == label:
                    return True
        return False

    def item(self, it, m, p, auto):
        if it.kind == "fn":
            c = m.conts.get("-", {"fns": {}})
            return self.fn(it, c["fns"].get(it.name), p, "", c)
        if it.kind in ("struct", "enum", "union"):
            d = m.derives.get(it.name)
            if d is None:
                d = "Clone, Copy" if "Copy" in auto.get(it.name, []) else ""
            txt = self.text(it.head, it.hi)
            txt = "pub " + (_pubfields(_strip_attrs(txt)) if it.kind == "struct" and it.name not in m.keepvis else _strip_attrs(txt))
            if it.name in m.headers:
                txt = _reheader(txt, it.name, m.headers[it.name])
                self.note("bounds of %s replaced by the specification trait" % it.name)
            return m.attrs.get(it.name, "") + ("#[derive(%s)] " % d if d else "") + txt + "\n"
        if it.kind in ("impl", "trait"):
            key = ("impl:" if it.kind == "impl" else "trait:") + it.name
            c = m.conts.get(key)
            raw, fns = "", {}
            if c is not None:
                if not c["used"]:
                    raw = c["raw"]
                c["used"] += 1
                fns = c["fns"]
            sub = self.parse(it.body[0] + 1, it.body[1])
            b, hoist = [], {}
            for s in sub:
                label = "%s %s::%s" % (s.kind, key, s.name)
                if self._matches(m.drops, label):
                    continue
                hoisted = [t for t, ns in (c or {}).get("hoist", {}).items() if s.name in ns]
                if s.kind == "fn" and hoisted:
                    hoist.setdefault(hoisted[0], []).append(self.fn(s, fns.get(s.name), p, key, c))
                    self.note("default method moved to a blanket-implemented subtrait: " + s.name)
                    continue
                if s.kind == "fn":
                    if m.onlys is not None and self._matches(m.drops, "unlisted %s" % key) and s.name not in fns:
                        continue
                    b.append(self.fn(s, fns.get(s.name), p, key, c))
                elif s.kind == "const" and s.name in CONSTFNS:
                    b.append(self.constfn(s, fns.get(s.name), p, key))
                elif c is not None and c.get("opts") == "inherent":
                    continue
                else:
                    inh = it.kind == "impl" and not re.search(r"(?<![A-Za-z0-9_'])for(?![A-Za-z0-9_<])", it.name)
                    b.append(("pub " if inh else "") + _strip_attrs(self.text(s.head, s.hi)) + "\n")
            head = ("pub " if it.kind == "trait" else "") + self.text(it.head, it.body[0])
            if c is not None and c.get("bounds"):
                tk = lex(head)
                k = next(i for i, x in enumerate(tk) if x.t == "impl")
                g = skip_angle(tk, k + 1) if tk[k + 1].t == "<" else k + 1
                w = g
                while w < len(tk) and tk[w].t != "where":
                    w = skip_angle(tk, w) if tk[w].t == "<" else w + 1
                head = "impl" + c["bounds"] + " " + head[tk[g].s:tk[w - 1].e] + " "
                self.note("bounds of an impl replaced by the specification trait: " + it.name)
            if c is not None and c.get("opts") == "inherent":
                tk = lex(head)
                a = skip_angle(tk, 1) if tk[1].t == "<" else 1
                f = a
                while tk[f].t != "for":
                    f = skip_angle(tk, f) if tk[f].t == "<" else f + 1
                head = head[:tk[a].s] + head[tk[f].e:]
                self.note("trait impl emitted as an inherent impl (Iterator methods with an object invariant)")
            t = head + "{\n" + raw + "".join(b) + "}\n"
            if it.kind == "trait" and c is not None and c.get("super"):
                hm = re.match(r"(.*?\btrait\s+\w+(?:<[^{]*?>)?)(\s*:)?", t, re.S)
                t = hm.group(1) + ": " + " + ".join(c["super"]) + " " + ("+ " if hm.group(2) else "") + t[hm.end():]
                self.note("trait bound added to " + it.name + ": " + ", ".join(c["super"]))
            for tn, ms in hoist.items():
                t += "pub trait %s: %s { %s }\nimpl<VP: %s> %s for VP {}\n" % (tn, it.name, "".join(ms), it.name, tn)
            if self.twins:
                tk = lex(head)
                gen, f = "", 1
                if tk[1].t == "<":
                    f = skip_angle(tk, 1)
                    gen = head[tk[1].s:tk[f - 1].e]
                while tk[f].t != "for":
                    f = skip_angle(tk, f) if tk[f].t == "<" else f + 1
                w = f + 1
                while w < len(tk) and tk[w].t != "where":
                    w = skip_angle(tk, w) if tk[w].t == "<" else w + 1
                ty = head[tk[f].e:tk[w - 1].e].strip()
                wh = head[tk[w].s:] if w < len(tk) else ""
                if any(x[5] for x in self.twins):
                    t = ""
                for fname, rest, rt, cl, body, _, own in self.twins:
                    self.ntwin += 1
                    rest, nself = re.subn(r"^\(\s*(&\s*(?:'\w+\s+)?(?:mut\s+)?)?self\b", lambda m: "(vself: %sSelf" % (m.group(1) or ""), rest)
                    if nself:
                        cl, body = re.sub(r"\bself\b", "vself", cl), re.sub(r"\bself\b", "vself", body)
                    gens = gen if not own else gen.rstrip()[:-1] + ", " + own[1:] if gen else own
                    x = "%sfn vtwin%d%s%s%s\n%s\n%s\n%s\n/*@end@*/\n" % (fname, self.ntwin, gens, rest, rt, wh, cl, body)
                    for q in sub:
                        if q.kind == "type":
                            tx = self.text(q.head, q.hi)
                            x = re.sub(r"\bSelf::%s\b" % q.name, lambda m: tx[tx.index("=") + 1:].strip().rstrip(";"), x)
                    xh, xb = x[:x.index("(" + rest[1:]) + len(rest)], x[x.index("(" + rest[1:]) + len(rest):]
                    t += re.sub(r"\bSelf\b", lambda m: ty, xh) + re.sub(r"\bSelf\b", lambda m: re.sub(r"(?<=\w)<", "::<", ty, count=1), xb)
                self.twins = []
            for a, bb in (c or {}).get("subst", []):
                t = t.replace(a, bb)
            return t
        return "pub " + _strip_attrs(self.text(it.head, it.hi)) + "\n"

    def constfn(self, it, spec, p, key):
        """`const N: T = E;` of a trait or impl as `fn N() -> T { E }`"""
        T = self.T
        name = "%s::%s::%s" % (p, key.split(":", 1)[1], it.name)
        c = it.kw
        while T[c].t != ":":
            c += 1
        e = c
        while e < it.hi and T[e].t not in ("=", ";"):
            e = skip_angle(T, e) if T[e].t == "<" else e + 1
        ty = self.text(c + 1, e)
        if spec:
            spec.used += 1
        mark = "/*@fn %s@*/ " % name
        self.functions.append({"fn": name, "contract": bool(spec) or key.startswith("impl:"), "loops": 0, "trusted": False, "hinted": False, "shape": [],
                               "body": T[e].t != ";"})
        self.note("associated constant -> function of the same name: " + it.name)
        cl = spec.clauses if spec else ""
        if T[e].t == ";":
            return mark + "fn %s() -> (r: %s)\n%s;\n/*@end@*/\n" % (it.name, ty, cl)
        # default constants written in terms of Self: body kept
        body = self.rewrite(self.text(e + 1, it.hi - 1))
        body, n = _inlineconst(body)
        if n:
            self.note("const fn local to a constant inlined where it is called")
        body, n = _constops(body)
        for _ in range(n):
            self.note("arithmetic of a constant -> stub with the mathematical result (rustc refuses a constant that overflows)")
        if spec:
            for a, r in spec.rw:
                body = re.sub(a, r, body)
        return mark + "fn %s() -> (r: %s)\n%s{ %s %s }\n/*@end@*/\n" % (it.name, ty, cl, spec.body if spec else "", body)

    def fn(self, it, spec, p, key, cont):
        T = self.T
        name = "%s::%s%s" % (p, (key.split(":", 1)[1] + "::") if key else "", it.name)
        end = it.body[0] if it.body else it.hi - 1
        # header pieces: find params, ->, where
        j = it.kw + 2
        if T[j].t == "<":
            j = skip_angle(T, j)
        pe = match_close(T, j)
        k = pe + 1
        arrow = where = None
        q = k
        while q < end:
            if T[q].t == "->" and arrow is None:
                arrow = q
            elif T[q].t == "where" and where is None:
                where = q
            elif T[q].t == "<":
                q = skip_angle(T, q)
                continue
            elif T[q].t in ("(", "["):
                q = match_close(T, q)
            q += 1
        inherent = key == "" or (key.startswith("impl:") and not re.search(r"(?<![A-Za-z0-9_])for(?![A-Za-z0-9_<])", key))
        head = ("pub " if inherent else "") + _strip_attrs(self.text(it.head, pe + 1))
        pc = [0]

        def anon(m):
            pc[0] += 1
            return "%svparam%d:" % (m.group(1), pc[0])
        head = re.sub(r"([(,]\s*)_\s*:(?!:)", anon, head)
        mi = re.search(r":\s*impl\s+(IntoIterator<[^<>]*>)(?=\s*[,)])", head)
        if mi:  # argument-position impl Trait is a generic parameter
            head = head[:mi.start()] + ": VImpl" + head[mi.end():]
            k = re.search(r"\bfn\s+\w+", head).end()
            head = head[:k] + ("<VImpl: %s, " % mi.group(1) + head[k + 1:] if head[k] == "<" else "<VImpl: %s>" % mi.group(1) + head[k:])
            self.note("argument-position impl IntoIterator -> generic parameter")
        rty = self.text(arrow + 1, where if where else end) if arrow is not None else None
        wtxt = self.text(where, end) if where else ""
        if spec and spec.bounds is not None:
            k = re.search(r"\bfn\s+\w+", head).end()
            tk = lex(head[k:])
            g = skip_angle(tk, 0) if tk[0].t == "<" else 0
            head = head[:k] + spec.bounds + head[k + tk[g].s:]
            wtxt = ""
            self.note("bounds of a function replaced by the specification trait: " + name)
        flags = list(spec.flags) if spec else []
        if name in self.force:
            flags.append(self.force[name])
        if spec:
            spec.used += 1
        loops = []
        body = ""
        if it.body:
            mutself = T[j + 1].t == "mut" and T[j + 2].t == "self"
            body, loops, lostat = self.body(it.body[0], it.body[1], spec, name, mutself)
            if mutself:
                head = re.sub(r"\(\s*mut\s+self\b", "(self", head)
                self.note("`mut self` parameter -> `self` moved into a local")
        ret = ""
        if rty is not None:
            ret = " -> (%s: %s)" % (spec.ret, rty) if spec and spec.ret else " -> " + rty
        attrs = "".join("#[verifier::%s] " % f for f in flags if f in ("external_body", "external", "spinoff_prover", "exec_allows_no_decreases_clause") or f.startswith("rlimit"))
        self.functions.append({"fn": name, "contract": bool(spec), "loops": len(loops), "trusted": "external_body" in flags,
                               "hinted": bool(spec and (spec.ats or spec.loops or spec.loopbody)),
                               "shape": loops, "body": bool(it.body) and "decl" not in flags})
        if cont is not None and cont.get("opts") == "inherent":
            head = "pub " + head
        if not spec and it.body:
            self.uncontracted.append(name)
        clauses = spec.clauses if spec else ""
        if "decl" in flags:
            self.note("default body dropped (every implementor overrides it): " + name)
        mark = "/*@fn %s@*/ " % name
        attrs = mark + attrs
        if ("twin" in flags or "freeonly" in flags) and it.body:
            # Verus cannot use the FromSpec axioms inside the From impl itself: the body is verified in a free twin,
            # the trait method carries the same contract unchecked
            if "freeonly" in flags:
                self.note("trait method verified as a free function (its contract has a precondition the trait cannot state): " + name)
            else:
                self.note("body of a From impl verified in a free function with the same contract; the impl itself assumed: " + name)
            hk = lex(head)
            fk = next(z for z, x in enumerate(hk) if x.t == "fn")
            own = ""
            if hk[fk + 2].t == "<":
                z = skip_angle(hk, fk + 2)
                own = head[hk[fk + 2].s:hk[z - 1].e]
            hp = hk[fk + 2].s if not own else hk[z].s
            self.twins.append((attrs, head[hp:], ret, clauses + (spec.after or ""), body, "freeonly" in flags, own))
            if "freeonly" in flags:
                return ""
            return "#[verifier::external_body] %s%s\n%s\n%s{ loop {} }\n" % (head, ret, wtxt, clauses)
        if not it.body or "decl" in flags:
            return "%s%s%s\n%s\n%s;\n/*@end@*/\n" % (attrs, head, ret, wtxt, clauses)
        return "%s%s%s\n%s\n%s\n%s\n/*@end@*/\n" % (attrs, head, ret, wtxt, clauses, body)

    def body(self, bo, bc, spec, name, mutself=False):
        """the function body with mechanical rewrites and injected annotations"""
        T, edits, loops = self.T, [], []
        if mutself:
            edits.append((T[bo].e, T[bo].e, " let mut vself = self; "))
        i = bo
        lost = []
        while i < bc:
            t = T[i]
            if t.k == "id" and t.t in ("loop", "while", "for") and not (t.t == "for" and T[i + 1].t == "<"):
                j = i + 1
                while T[j].t != "{":
                    if T[j].t in ("(", "["):
                        j = match_close(T, j)
                    j += 1
                loops.append(norm(T[i:j]))
                if t.t == "loop" and match_close(T, j) == bc - 1:
                    self.tailbreaks(j, bc - 1, edits)
                if t.t == "for":
                    self.tailcontinues(j, match_close(T, j), edits)
                n = len(loops) - 1
                if t.t == "for" and spec and n in spec.loops:
                    q = i + 1
                    while T[q].t != "in":
                        q = match_close(T, q) + 1 if T[q].t in OPEN else q + 1
                    edits.append((T[q].e, T[q].e, " vit%d:" % n))
                    if T[i + 1].t == "&" and q == i + 3:
                        edits.append((T[i + 1].s, T[i + 2].e, "vp%d" % n))
                        edits.append((T[j].e, T[j].e, " let %s = *vp%d; " % (T[i + 2].t, n)))
                        self.note("`for &x in` -> `for p in` with `let x = *p`")
                if spec and n in spec.loops:
                    edits.append((T[j].s, T[j].s, "\n" + spec.loops[n]))
                if spec and n in spec.loopbody:
                    edits.append((T[j].e, T[j].e, "\n" + spec.loopbody[n]))
            elif mutself and t.k == "id" and t.t == "self" and T[i + 1].t != "::":
                edits.append((t.s, t.e, "vself"))
            elif t.t == "#" and T[i + 1].t == "[":
                e = match_close(T, i + 1)
                edits.append((t.s, T[e].e, ""))
                i = e
            i += 1
        txt_lo, txt_hi = T[bo].s, T[bc].e
        if spec and spec.body:
            edits.append((T[bo].e, T[bo].e, "\n" + spec.body))
        if spec:
            for pat, ins in spec.ats:
                pos = self._find(bo, bc, pat)
                if pos is None:
                    self.lost.append({"fn": name, "where": spec.where + " at " + pat})
                else:
                    edits.append((pos, pos, ins))
            for want in list(spec.loops) + list(spec.loopbody):
                if isinstance(want, int) and want >= len(loops):
                    self.lost.append({"fn": name, "where": spec.where + " loop %d" % want})
        ncl = sum(1 for q in range(bo, bc) if T[q].t in ("|", "||") and T[q - 1].t in ("(", ",", "=", "move", "{", ";", "=>", "return"))
        if ncl:
            self.closures[name] = ncl
        s = self.src
        out, p = [], txt_lo
        for a, b, r in sorted(edits, key=lambda e: (e[0], e[1])):
            out.append(s[p:a])
            out.append(r)
            p = b
        out.append(s[p:txt_hi])
        b = self.rewrite("".join(out))
        b, nsum = _sumloops(b, spec)
        if nsum:
            self.note("`X.iter().map(F).sum()` -> for loop adding F of each element")
            loops += ["sum"] * nsum
        if spec:
            for want in list(spec.loops) + list(spec.loopbody):
                if isinstance(want, str) and int(want[3:]) >= nsum:
                    self.lost.append({"fn": name, "where": spec.where + " " + want})
            for a, r in spec.rw:
                if not re.search(a, b):
                    self.note("rewrite not needed: " + name)
                b = re.sub(a, r, b)
        return b, loops, lost

    def tailbreaks(self, lo, hi, edits):
        """`break E` of a loop in tail position -> `return E`"""
        T, i = self.T, lo + 1
        while i < hi:
            t = T[i]
            if t.k == "id" and t.t in ("loop", "while", "for"):
                while T[i].t != "{":
                    i = match_close(T, i) + 1 if T[i].t in ("(", "[") else i + 1
                i = match_close(T, i)
            elif t.k == "id" and t.t == "break" and T[i + 1].t not in (";", "}", ","):
                edits.append((t.s, t.e, "return"))
                self.note("`break E` of the tail loop -> `return E`")
            i += 1

    def tailcontinues(self, lo, hi, edits):
        """`=> continue,` in an arm of the match that ends the loop's body -> `=> {},` (Verus has no continue in for)"""
        T = self.T
        c = hi - 1 if T[hi - 1].t != ";" else hi - 2
        if T[c].t != "}":
            return
        o = c - 1
        while o > lo:
            if T[o].t == "{" and match_close(T, o) == c:
                break
            o -= 1
        m = o - 1
        while m > lo and T[m].t not in ("match", ";", "}"):
            m -= 1
        if T[m].t != "match":
            return
        i = o + 1
        while i < c:
            if T[i].t in OPEN:
                i = match_close(T, i)
            elif T[i].t == "continue" and T[i - 1].t == "=>" and T[i + 1].t in (",", "}"):
                edits.append((T[i].s, T[i].e, "{}"))
                self.note("`=> continue` in the match ending a for loop -> `=> {}`")
            i += 1

    def _find(self, bo, bc, pat):
        """start of the statement/expression matching the token pattern ('after X' = after it, 'end' = before '}')"""
        if pat == "end":
            return self.T[bc].s
        after = pat.startswith("after ")
        want = [t.t for t in lex(pat[6:] if after else pat)]
        toks = self.T
        for i in range(bo, bc - len(want) + 1):
            if all(toks[i + k].t == want[k] for k in range(len(want))):
                return toks[i + len(want) - 1].e if after else toks[i].s
        return None

    def rewrite(self, b):
        if CONSTFNS:
            b = re.sub(r"::(%s)\b(?!\s*\()" % "|".join(sorted(CONSTFNS)), r"::\1()", b)
        for pat, rep, what in REWRITES:
            b, n = _rw(pat, rep, b)
            for _ in range(n):
                self.note(what)
        return b


def _rw(pat, rep, b):
    """pat: regex ending with an opening bracket -> replace the bracketed call; rep is text with \\A for the arguments"""
    n = 0
    pos = 0
    while True:
        m = re.compile(pat, re.S).search(b, pos)
        if not m:
            return b, n
        if b[m.end() - 1] in "([{":
            toks = lex(b[m.end() - 1:])
            e = match_close(toks, 0)
            lo, hi = m.start(), m.end() - 1 + toks[e].e
            args = b[m.end():hi - 1]
        else:
            lo, hi, args = m.start(), m.end(), ""
        r = rep(m, args) if callable(rep) else rep.replace("\\A", args)
        b = b[:lo] + r + b[hi:]
        pos = lo + len(r)
        n += 1


def _unchecked(m, args):
    toks = lex(args)
    depth = 0
    for i, t in enumerate(toks):
        if t.t in ("(", "[", "{"):
            depth += 1
        elif t.t in (")", "]", "}"):
            depth -= 1
        elif t.t == ".." and depth == 0:
            a, b = args[:t.s].strip(), args[t.e:].strip()
            if a and b:
                return ".vget_range(%s, %s)" % (a, b)
            if a:
                return ".vget_from(%s)" % a
            return ".vget_to(%s)" % b
    return ".vget_at(%s)" % args


def _sumloops(b, spec):
    """X.iter().map(F).sum::<usize>()  ->  ({ let mut vacc: usize = 0; for e in X.iter() { let vx: usize = F(e); vacc = vacc + vx; } vacc })"""
    n = 0
    while True:
        toks = lex(b)
        hit = None
        for i in range(len(toks) - 6):
            if [t.t for t in toks[i:i + 5]] == [".", "iter", "(", ")", "."] and toks[i + 5].t == "map" and toks[i + 6].t == "(":
                c = match_close(toks, i + 6)
                if c + 2 < len(toks) and toks[c + 1].t == "." and toks[c + 2].t == "sum":
                    hit = (i, c)
                    break
        if hit is None:
            return b, n
        i, c = hit
        e = c + 3
        if toks[e].t == "::":
            e = skip_angle(toks, e + 1)
        e = match_close(toks, e)  # the () of sum()
        k = i - 1  # receiver, backwards
        while k >= 0:
            t = toks[k]
            if t.t in (")", "]", ">"):
                d = 0
                while True:
                    if toks[k].t in (")", "]", ">"):
                        d += 1
                    elif toks[k].t in ("(", "[", "<"):
                        d -= 1
                        if d == 0:
                            break
                    k -= 1
                k -= 1
            elif t.t in (".", "::", "&") or (t.k in ("id", "num") and t.t not in ("return", "else", "match", "if", "in")):
                k -= 1
            else:
                break
        k += 1
        recv = b[toks[k].s:toks[i].s]
        f = b[toks[i + 6].e:toks[c].s].strip()
        m = re.match(r"(?:move\s*)?\|\s*(.*?)\s*\|\s*(.*)$", f, re.S)
        pat, ex = (m.group(1), m.group(2)) if m else ("vitem", "%s(vitem)" % f)
        inv = spec.loops.get("sum%d" % n, "") if spec else ""
        lb = spec.loopbody.get("sum%d" % n, "") if spec else ""
        r = "({ let mut vacc: usize = 0; for %s in vsum%d: %s.iter()\n%s{ %s let vx: usize = %s; vacc = vacc + vx; } vacc })" % (pat, n, recv, inv, lb, ex)
        b = b[:toks[k].s] + r + b[toks[e].e:]
        n += 1


def _inlineconst(b):
    """`const fn f(x: T, ..) -> R { B } f(a, ..)`  ->  `{ let (x, ..): (T, ..) = (a, ..); { B } }`"""
    n = 0
    while True:
        toks = lex(b)
        i = next((k for k in range(len(toks) - 3) if [t.t for t in toks[k:k + 2]] == ["const", "fn"]), None)
        if i is None:
            return b, n
        name, po = toks[i + 2].t, i + 3
        pc = match_close(toks, po)
        bo = pc
        while toks[bo].t != "{":
            bo = skip_angle(toks, bo) if toks[bo].t == "<" else bo + 1
        bc = match_close(toks, bo)
        if not (toks[bc + 1].t == name and toks[bc + 2].t == "("):
            return b, n
        ac = match_close(toks, bc + 2)
        ps = [x.split(":", 1) for x in _splittop(b[toks[po].e:toks[pc].s])]
        args = b[toks[bc + 2].e:toks[ac].s]
        let = "let (%s,): (%s,) = (%s,);" % (", ".join(x[0].strip() for x in ps), ", ".join(x[1].strip() for x in ps), args.strip().rstrip(","))
        b = b[:toks[i].s] + "{ " + let + " " + b[toks[bo].s:toks[bc].e] + " }" + b[toks[ac].e:]
        n += 1


def _constops(b):
    """binary + - * in a constant  ->  .vcadd(..) .vcsub(..) .vcmul(..)"""
    n = 0
    for ops in (("*",), ("+", "-")):
        while True:
            toks = lex(b)
            hit = None
            i = 1
            while i < len(toks):
                p = toks[i - 1]
                if toks[i].t in ops and (p.k == "num" or p.t == ")" or (p.k == "id" and p.t not in ("return", "as", "in", "match", "if"))):
                    hit = i
                    break
                i += 1
            if hit is None:
                break
            j = hit + 1
            while j < len(toks) and toks[j].t not in ("+", "-", "*", "/", ",", ")", "}", ";", "]", "==", "<=", ">=", ">"):
                if toks[j].t in OPEN:
                    j = match_close(toks, j)
                elif toks[j].t == "<":
                    j = skip_angle(toks, j)
                    continue
                j += 1
            f = {"+": "vcadd", "-": "vcsub", "*": "vcmul"}[toks[hit].t]
            b = b[:toks[hit].s].rstrip() + "." + f + "(" + b[toks[hit].e:toks[j - 1].e].strip() + ")" + b[toks[j - 1].e:]
            n += 1
    return b, n


def _splittop(a):
    """top-level comma-separated pieces"""
    toks, out, i, st = lex(a), [], 0, 0
    while i < len(toks):
        if toks[i].t == "<":
            i = skip_angle(toks, i)
            continue
        if toks[i].t in OPEN:
            i = match_close(toks, i)
        elif toks[i].t == ",":
            out.append(a[st:toks[i].s])
            st = toks[i].e
        i += 1
    if a[st:].strip():
        out.append(a[st:])
    return out


def _split2(a):
    toks = lex(a)
    i = 0
    while i < len(toks):
        if toks[i].t in OPEN:
            i = match_close(toks, i)
        elif toks[i].t == ",":
            return [a[:toks[i].s], a[toks[i].e:]]
        i += 1
    return [a]


def _vecmac(m, args):
    """undo the expansion of vec![a, b, ...]"""
    toks = lex(args)
    best = None
    for i, t in enumerate(toks):
        if t.t == "[":
            best = args[t.s:toks[match_close(toks, i)].e]
            break
    return "vec!" + best


CONSTFNS = set()

REWRITES = [
    (r"::alloc::boxed::box_assume_init_into_vec_unsafe\(", _vecmac, "vec![..] restored from its expansion"),
    (r"::alloc::vec::from_elem\(", lambda m, a: "vec![" + ";".join(_split2(a)) + "]", "vec![x; n] restored from its expansion"),
    (r"(?<![A-Za-z0-9_>])::alloc::", "std::", "::alloc:: paths -> std::"),
    (r"::core::panicking::panic_fmt\(", "vpanic()", "panic with a formatted message -> vpanic() (requires false)"),
    (r"::core::panicking::panic_explicit\(", "vpanic()", "panic -> vpanic()"),
    (r"::core::panicking::(?:panic|unreachable_display|panic_display)\(", "vpanic()", "panic/assert!/unreachable! failure branch -> vpanic() (requires false)"),
    (r"(?<![A-Za-z0-9_:])Vec(?:::<\w*>)?::with_capacity\(", lambda m, a: "crate::trusted::vcap" + ("::" + m.group(0).split("::")[1] if "<" in m.group(0) else "") + "(" + a + ")", "Vec::with_capacity -> stub refusing capacities above isize::MAX bytes"),
    (r"(?:::std|std|::core|core)::hint::unreachable_unchecked\(", "vunreachable()", "unreachable_unchecked -> vunreachable() (requires false)"),
    (r"\.get_unchecked\(", _unchecked, "get_unchecked -> contracted stub with the documented safety condition as precondition"),
    (r"\.get_unchecked_mut\(", lambda m, a: ".vget_mut_at(" + a + ")", "get_unchecked_mut -> contracted stub with the documented safety condition as precondition"),
    (r"<?\b([uif](?:8|16|32|64))>?::from_be_bytes\b", lambda m, a: "crate::trusted::from_be_" + m.group(1), "from_be_bytes -> contracted stub"),
    (r"\.to_be_bytes\(", ".vto_be_bytes(\\A)", "to_be_bytes -> contracted stub"),
    (r"let kind = ::core::panicking::AssertKind::\w+;", "", "assert_eq! failure branch -> vpanic()"),
    (r"::core::panicking::assert_failed\(", "vpanic()", "assert_eq! failure branch -> vpanic() (requires false)"),
    (r"(?<=[{,}])\s*&\s*(?:mut\s+)?(?=[A-Z]\w*(?:::\w+)*(?:\(_\))?\s*=>)", " ", "reference pattern without bindings -> default binding mode"),
    (r"::std::io::_eprint\(", "veprint()", "eprint! -> no-op stub"),
    (r"\{\s*veprint\(\);\s*\};", "veprint();", "eprint! block"),
]


def _reheader(txt, name, gen):
    """generics of `struct NAME` replaced, where clause dropped"""
    toks = lex(txt)
    i = next(k for k, t in enumerate(toks) if t.t == name)
    e = skip_angle(toks, i + 1) if toks[i + 1].t == "<" else i + 1
    w = e
    while w < len(toks) and toks[w].t not in ("where", "{"):
        w = match_close(toks, w) + 1 if toks[w].t == "(" else w + 1
    if w < len(toks) and toks[w].t == "where":
        z = w
        while z < len(toks) and toks[z].t not in ("{", ";"):
            z = skip_angle(toks, z) if toks[z].t == "<" else z + 1
        txt = txt[:toks[w].s] + txt[toks[z].s:]
    return txt[:toks[i].e] + gen + txt[toks[e - 1].e if e > i + 1 else toks[i].e:]


def _pubfields(txt):
    toks = lex(txt)
    j = 0
    while j < len(toks) and toks[j].t not in ("{", "(", ";"):
        if toks[j].t == "<":
            j = skip_angle(toks, j)
            continue
        j += 1
    if j >= len(toks) or toks[j].t == ";":
        return txt
    e = match_close(toks, j)
    ins, i, start = [], j + 1, True
    while i < e:
        t = toks[i].t
        if start:
            start = False
            if t == "pub":
                if toks[i + 1].t == "(" and toks[i + 2].t in ("crate", "super", "self", "in"):
                    c = match_close(toks, i + 1)
                    ins.append((toks[i].s, toks[c].e, "pub"))
                    i = c
            else:
                ins.append((toks[i].s, toks[i].s, "pub "))
        if t == "<":
            i = skip_angle(toks, i)
            continue
        if t in OPEN:
            i = match_close(toks, i)
        elif t == ",":
            start = True
        i += 1
    for a, b, r in reversed(ins):
        txt = txt[:a] + r + txt[b:]
    return txt


def _strip_attrs(txt):
    toks = lex(txt)
    out, p, i = [], 0, 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            e = match_close(toks, i + 1)
            out.append(txt[p:toks[i].s])
            p = toks[e].e
            i = e
        i += 1
    out.append(txt[p:])
    return "".join(out)
