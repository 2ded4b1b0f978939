"""Engine V: contracts on the functions of /repo, discharged by Verus.

Every run: expand /repo's current source (rustc -Zunpretty=expanded), extract the functions under
contract mechanically (engines/extract.py), inject the contracts (contracts/*.vrs), run Verus on the result.
All properties share one Verus run; each reports the obligations that state it."""
import glob, hashlib, json, os, re, subprocess, time

from . import extract, props, sample

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO_DEV", "/repo")  # the variable is for trying planted bugs on a copy
WORK = os.path.join(VERIF, "build", "v")
SHAPE = os.path.join(VERIF, "contracts", "shape.json")


class Undecided(Exception):
    pass


def expand():
    env = dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.path.join(WORK, "target"), CARGO_NET_OFFLINE="true",
               RUSTFLAGS="--cap-lints allow")
    p = subprocess.run(["cargo", "+stable", "rustc", "--offline", "--quiet", "--lib", "--profile", "dev", "--", "-Zunpretty=expanded"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not p.stdout.strip():
        raise Undecided("macro expansion of /repo failed: " + p.stderr[-1500:])
    t, why = sample.expand(REPO, WORK, env)
    # a sample that does not compile leaves its functions undecided (their contracts lose their anchors)
    return p.stdout + (t or "")


def generate(src, force=None):
    os.makedirs(WORK, exist_ok=True)
    gen = os.path.join(WORK, "sample_%d.vrs" % os.getpid())
    open(gen, "w").write(sample.contracts())
    pre, mods = extract.load(sorted(glob.glob(os.path.join(VERIF, "contracts", "*.vrs"))) + [gen])
    os.remove(gen)
    g = extract.Gen(src, pre, mods)
    g.force = force or {}
    return g.run(), g


def verus(path, extra=(), timeout=700):
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--time-expanded", "--error-format=json", *extra]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=WORK)
    except subprocess.TimeoutExpired:
        raise Undecided("verus timed out after %d s" % timeout)
    try:
        out = json.loads(p.stdout)
    except ValueError:
        out = {}
    diags = []
    for l in p.stderr.splitlines():
        try:
            diags.append(json.loads(l))
        except ValueError:
            diags.append({"level": "raw", "message": l, "spans": []})
    return {"cmd": " ".join(cmd), "json": out, "diags": diags, "wall": time.time() - t0, "rc": p.returncode}


class Lines:
    """line of the generated file -> function"""

    def __init__(self, text, path):
        self.path, self.lines = path, text.split("\n")
        self.owner = []
        cur = None
        for l in self.lines:
            m = re.findall(r"/\*@fn (.*?)@\*/|(/\*@end@\*/)", l)
            if m and m[0][0]:
                cur = m[0][0]
            self.owner.append(cur)
            if m and m[-1][1]:
                cur = None

    def fn(self, line):
        o = self.owner[line - 1]
        if o:
            return o
        for i in range(line - 1, -1, -1):
            m = re.search(r"\bfn\s+(\w+)", self.lines[i])
            if m:
                return "(lemma or trusted) " + m.group(1)
        return "?"

    def text(self, line):
        return self.lines[line - 1].strip()

    def declname(self, line):
        for i in range(line - 1, max(-1, line - 40), -1):
            m = re.search(r"\bfn\s+(\w+)", re.sub(r"/\*@fn .*?@\*/", "", self.lines[i]))
            if m:
                return m.group(1)
        return ""


VERDICT = [  # verification failures, everything else is a compile error
    (r"possible arithmetic (underflow/)?overflow|possible bit shift|possible division by zero|may be out of bounds", "arith"),
    (r"precondition not satisfied", "pre"),
    (r"postcondition not satisfied", "post"),
    (r"invariant not satisfied|invariant", "post"),
    (r"assertion failed|assertion not satisfied|assert", "hint"),
    (r"decreases not satisfied|termination", "term"),
    (r"(resource limit|rlimit).*exceeded|while loop: Resource limit|canceled", "rlimit"),
    (r"loop ensures|loop invariant|ensures", "post"),
]
MEM = re.compile(r"^(vget_\w+|vread|vunreachable|unwrap_unchecked|\w+_unchecked|vslice_\w*unchecked)$")


def classify(d, L):
    """None (not an error) or (kind, fn, detail)"""
    if d.get("level") != "error" or d["message"].startswith("aborting due to"):
        return None
    msg = d["message"]
    kind = None
    for r, k in VERDICT:
        if re.search(r, msg):
            kind = k
            break
    spans = [s for s in d.get("spans", [])]
    here = [s for s in spans if s["file_name"].endswith(os.path.basename(L.path))]
    site = [s for s in here if not (s["label"] or "").startswith("failed this") and (s["label"] or "") != "failed precondition"]
    clause = [s for s in spans if (s["label"] or "").startswith("failed")]
    fn = L.fn((site or here)[0]["line_start"]) if (site or here) else "?"
    detail = msg
    if clause:
        c = clause[0]
        if c in here:
            detail += ": " + " ".join(x.strip() for x in L.lines[c["line_start"] - 1:c["line_end"]])[:300]
    if site:
        detail += " @ " + L.text(site[0]["line_start"])[:160]
    if d.get("code"):
        kind = None
    if kind == "pre":
        kind = "post"
        if clause:
            c = clause[0]
            name = L.declname(c["line_start"]) if c in here else ""
            if name == "vpanic" or c not in here:
                kind = "panic"
                if c not in here and "unchecked" in (L.text(site[0]["line_start"]) if site else ""):
                    kind = "mem"
            elif MEM.match(name):
                kind = "mem"
        else:
            kind = "panic"
    return (kind or "compile", fn, detail)


def trusted_items(text):
    out = []
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", text):
        out.append("assumed contract of " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"axiom fn (\w+)", text):
        out.append("axiom " + m.group(1))
    for m in re.finditer(r"\bassume\(", text):
        ln = text.count("\n", 0, m.start())
        out.append("assume: " + text[m.start():text.index("\n", m.start())].strip()[:120])
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:const )?(?:unsafe )?(?:proof )?fn (\w+)", text):
        out.append("external_body (contract assumed) " + m.group(1))
    for m in re.finditer(r"external_type_specification\][^;]*?struct (\w+)", text):
        out.append("external type " + m.group(1))
    return sorted(set(out))


def body_hash(L, fn):
    return hashlib.sha1("\n".join(l for l, o in zip(L.lines, L.owner) if o == fn).encode()).hexdigest()[:16]


def hashes(L):
    acc = {}
    for l, o in zip(L.lines, L.owner):
        if o:
            acc.setdefault(o, []).append(l)
    return {k: hashlib.sha1("\n".join(v).encode()).hexdigest()[:16] for k, v in acc.items()}


def memfns(L):
    return {o for l, o in zip(L.lines, L.owner) if o and re.search(r"vget_|vread\(|vunreachable\(|_unchecked\(|unwrap_unchecked", l)}


def attempt(tag, src, force, extra=(), timeout=700):
    text, g = generate(src, force)
    path = os.path.join(WORK, "repo_contracts%s.rs" % tag)
    open(path, "w").write(text)
    r = verus(path, extra, timeout)
    L = Lines(text, path)
    errs = [c for c in (classify(d, L) for d in r["diags"]) if c]
    return text, g, r, L, errs


def solve(tag="", timeout=700):
    """run the verifier, isolating functions it cannot take; -> dict"""
    os.makedirs(WORK, exist_ok=True)
    t0 = time.time()
    src = expand()
    t_exp = time.time() - t0
    force, undec = {}, []
    for rnd in range(8):
        text, g, r, L, errs = attempt(tag, src, force, ("--multiple-errors", "5"), timeout - (time.time() - t0))
        comp = [e for e in errs if e[0] == "compile"]
        vr = r["json"].get("verification-results", {})
        if not comp and "verified" in vr and not vr.get("encountered-vir-error"):
            break
        names = {e[1] for e in comp}
        known = {f["fn"] for f in g.functions}
        new = {n for n in names if n in known and force.get(n) != "external"}
        if not new:
            raise Undecided("the verifier does not accept the extracted code: " +
                            "; ".join("%s: %s" % (e[1], e[2]) for e in comp)[:1500] + (" rc=%d" % r["rc"] if not comp else ""))
        for n in new:
            why = [e[2] for e in comp if e[1] == n][0]
            force[n] = "external" if n in force or not any(f["fn"] == n and f["contract"] for f in g.functions) else "external_body"
            undec.append({"fn": n, "reason": "not accepted by the verifier: " + why})
    else:
        raise Undecided("the extracted code is not accepted by the verifier after isolating: " + ", ".join(force))
    return {"text": text, "g": g, "r": r, "L": L, "errs": errs, "undec": undec, "force": force, "src": src,
            "t_expand": t_exp, "wall": time.time() - t0}


def decide(s, timeout=300):
    """turn verifier errors into failed obligations or undecided functions"""
    g, L = s["g"], s["L"]
    base = json.load(open(SHAPE)) if os.path.exists(SHAPE) else {}
    meta = {f["fn"]: f for f in g.functions}
    h = hashes(L)
    changed = {n for n in h if base.get(n, {}).get("hash") != h[n]} | {n for n in base if n not in h}
    failed, undec = [], list(s["undec"])
    lostfn = {l["fn"] for l in g.lost}
    for l in g.lost:
        undec.append({"fn": l["fn"], "reason": "the code the contract is attached to is gone: " + l["where"]})
    nocontract = [n for n in g.uncontracted]
    short = {n.split("::")[-1] for n in nocontract}
    for kind, fn, detail in s["errs"]:
        why = None
        m = meta.get(fn)
        body = "\n".join(l for l, o in zip(L.lines, L.owner) if o == fn)
        if kind == "rlimit":
            why = "solver resource limit"
        elif m is None:
            why = "a lemma over the contracts no longer holds"
        elif not m["contract"]:
            why = "this function has no contract yet"
        elif fn in lostfn:
            why = "an annotation of this function lost its place"
        elif m["loops"] and base.get(fn, {}).get("loops") != m["shape"]:
            why = "the loops of this function changed, its invariants may no longer apply"
        elif g.closures.get(fn, 0) > base.get(fn, {}).get("closures", 0):
            why = "the function has a new closure, whose behaviour the verifier does not infer"
        elif any(re.search(r"\b%s\b" % re.escape(x), body) for x in short):
            why = "it calls a function without a contract (%s)" % ", ".join(x for x in short if re.search(r"\b%s\b" % re.escape(x), body))
        elif kind == "hint":
            why = "a proof step no longer goes through"
        elif not changed:
            why = "the source is unchanged: solver instability"
        if why:
            undec.append({"fn": fn, "reason": why + ": " + detail})
        else:
            failed.append({"fn": fn, "kind": kind, "obligation": detail})
    # a function with an undecided obligation is undecided as a whole, unless another obligation fails outright
    return failed, undec, sorted(changed)


def run(prop, tier, timeout):
    t0 = time.time()
    try:
        s = solve("_" + prop, timeout)
        failed, undec, changed = decide(s)
        if failed:  # solver instability is not a violation: the same obligations must fail under other seeds
            for seed in (7, 23):
                if time.time() - t0 > timeout * 0.6:
                    break
                p2 = os.path.join(WORK, "repo_contracts_%s.rs" % prop)
                r2 = verus(p2, ("--multiple-errors", "5", "--rlimit", "40", "--smt-option", "smt.random_seed=%d" % seed), timeout - (time.time() - t0))
                e2 = {(e[0], e[1]) for e in (classify(d, s["L"]) for d in r2["diags"]) if e}
                keep = [f for f in failed if (f["kind"], f["fn"]) in e2]
                undec += [{"fn": f["fn"], "reason": "solver instability: " + f["obligation"]} for f in failed if f not in keep]
                failed = keep
        return report(prop, tier, s, failed, undec, changed, t0, timeout)
    except Undecided as e:
        return {"status": "undecided", "reason": str(e), "obligations": 0, "discharged": 0, "failed": [], "undecided": [],
                "cmd": "verus", "trusted": [], "functions": [], "assumptions": []}


def vacuity(s, timeout):
    """assert(false) at the start of every function under contract must fail; false must not follow from the axioms"""
    text = s["text"]
    want = set()
    out, fn, depth = [], None, 0
    L = s["L"]
    meta = {f["fn"]: f for f in s["g"].functions}
    lines = list(L.lines)
    # the body of a function starts at the first line consisting of / starting with '{' after the marker at bracket depth 0
    i = 0
    while i < len(lines):
        m = re.search(r"/\*@fn (.*?)@\*/", lines[i])
        if m and meta.get(m.group(1), {}).get("contract") and not meta[m.group(1)]["trusted"] and "external" not in lines[i]:
            j = i
            while j < len(lines) and "/*@end@*/" not in lines[j]:
                if j > i and lines[j].startswith("{"):
                    lines[j] = "{ proof { assert(false); } " + lines[j][1:]
                    want.add(m.group(1))
                    break
                j += 1
        i += 1
    path = s["L"].path.replace(".rs", "_vac.rs")
    extra = """
mod vprobe { use vstd::prelude::*; use crate::trusted::*; verus!{
  proof fn probe_axioms(v: Vec<u8>, f: f64, b: u64, a: &[u8; 3], s: Seq<char>, x: Seq<u8>)
  { %s assert(false); } } }
""" % ("".join("broadcast use %s::%s; " % ("crate::builder::memo" if a == "axiom_into_bytes_memo" else "crate::trusted", a) for a in re.findall(r"broadcast axiom fn (\w+)", s["text"]))
       + "".join("crate::trusted::%s(); " % a for a in re.findall(r"pub axiom fn (\w+)\(\)", s["text"])))
    text2 = "\n".join(lines) + extra
    open(path, "w").write(text2)
    r = verus(path, ("--multiple-errors", "0"), timeout)
    L2 = Lines(text2, path)
    got = set()
    comp = []
    for d in r["diags"]:
        c = classify(d, L2)
        if c and c[0] == "compile":
            comp.append(c)
        elif c:
            got.add(c[1])
    if comp:
        return {"ok": None, "why": "probe file not accepted: %s" % (comp[0],)}
    bad = sorted(want - got)
    if not any("probe_axioms" in x for x in got):
        bad.append("axioms")
    return {"ok": not bad, "probed": len(want), "vacuous": bad,
            "what": "assert(false) at the start of each body under contract, and after the axioms, must be refuted by the verifier"}


def report(prop, tier, s, failed, undec, changed, t0, timeout):
    g, L, r = s["g"], s["L"], s["r"]
    mem = memfns(L)
    vac = vacuity(s, max(60, timeout - (time.time() - t0)))
    if vac["ok"] is False:
        # a contract that cannot be met proves nothing: its functions are not counted
        undec += [{"fn": f, "reason": "vacuous: false is provable at the start of the body"} for f in vac["vacuous"]]
    mine = [f for f in g.functions if props.covers(prop, f["fn"], f["fn"] in mem)]
    real = [f for f in mine if f["contract"] and not f["trusted"] and f["body"] and f["fn"] not in s["force"]]
    myfailed = [f for f in failed if prop in props.route(f["fn"], f["kind"])]
    names = {f["fn"] for f in mine}
    # an obligation that fails elsewhere does not decide this property
    other = [f for f in failed if f not in myfailed and f["fn"] in names]
    myundec = [u for u in undec if u["fn"] in names or prop in props.props(u["fn"]) or u["fn"].startswith("(lemma")]
    myundec += [{"fn": f["fn"], "reason": "fails an obligation that states another property: " + f["obligation"]} for f in other]
    bad = {f["fn"] for f in myfailed} | {u["fn"] for u in myundec}
    t = r["json"].get("times-ms", {})
    smt = t.get("smt", {})
    vr = r["json"].get("verification-results", {})
    return {
        "status": "fail" if myfailed else ("undecided" if myundec else "ok"),
        "obligations": len(real), "discharged": len([f for f in real if f["fn"] not in bad]),
        "failed": [{**f, "verifier_output": [d.get("rendered") for d in r["diags"] if d.get("level") == "error" and d.get("rendered")][:12]} for f in myfailed],
        "undecided": myundec,
        "cmd": r["cmd"],
        "functions": [f["fn"] + ("" if f["body"] else " (trait declaration)") + ("" if f["contract"] else " (no contract)") + (" (contract assumed)" if f["trusted"] else "") for f in mine],
        "trusted": trusted_items(s["text"]),
        "assumptions": ["contracts in contracts/*.vrs express the property (checked by hand, by the planted bugs, and by the vacuity probe)",
                        "Verus, Z3, rustc's macro expansion and the extraction in engines/extract.py are trusted",
                        "64-bit usize"],
        "solver": {"back_end": "Z3 through Verus", "whole_crate_queries_verified": vr.get("verified"), "whole_crate_errors": vr.get("errors"),
                   "smt_ms": smt.get("total"), "verus_wall_s": round(r["wall"], 1), "expand_s": round(s["t_expand"], 1)},
        "vacuity": vac,
        "extraction": {"changed_since_baseline": changed, "rewrites": g.notes, "without_contract": g.uncontracted,
                       "isolated": s["force"]},
        "reason": None,
    }


def main():
    """python3 -m engines.v [baseline]: verify; with 'baseline', record contracts/shape.json"""
    import sys
    s = solve()
    failed, undec, changed = decide(s)
    print("functions", len(s["g"].functions), "uncontracted", s["g"].uncontracted, "errors", len(s["errs"]))
    for f in failed:
        print("FAILED", f)
    for u in undec:
        print("UNDECIDED", u)
    print("changed", len(changed), changed[:8])
    print(s["r"]["json"].get("verification-results"), "wall %.1f" % s["wall"])
    if sys.argv[1:] == ["vac"]:
        print(vacuity(s, 300))
    if sys.argv[1:] == ["unmapped"]:
        print([f["fn"] for f in s["g"].functions if not props.props(f["fn"])])
    if sys.argv[1:] == ["baseline"]:
        assert not s["errs"] and not undec, "not a clean baseline"
        h = hashes(s["L"])
        json.dump({f["fn"]: {"hash": h.get(f["fn"]), "loops": f["shape"], "closures": s["g"].closures.get(f["fn"], 0)} for f in s["g"].functions}, open(SHAPE, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    main()
