"""lists the functions of the expanded crate that the contracts leave out.  usage: uncovered.py EXPANDED.rs"""
import sys, os, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engines import extract as X
src = open(sys.argv[1]).read()
pre, mods = X.load(sorted(glob.glob(ROOT + "/contracts/*.vrs")))
g = X.Gen(src, pre, mods)
g.run()
have = {f["fn"] for f in g.functions}


def walk(lo, hi, path):
    for it in g.parse(lo, hi):
        p = "::".join(path)
        if it.kind == "mod" and it.body:
            walk(it.body[0] + 1, it.body[1], path + [it.name])
        elif it.kind in ("impl", "trait") and it.body:
            if any("automatically_derived" in a for a in it.attrs):
                continue
            for s in g.parse(it.body[0] + 1, it.body[1]):
                if s.kind == "fn" and s.body and "%s::%s::%s" % (p, it.name, s.name) not in have:
                    print("%s  %s %s::%s" % (p, it.kind, it.name, s.name))
        elif it.kind == "fn" and "%s::%s" % (p, it.name) not in have:
            print("%s  fn %s" % (p, it.name))


walk(0, len(g.T), [])
