"""Record the documented interface in rbmsa/data/api.json (run once, on the
pinned tree; the checks compare later trees with it)."""
import json
import os
import re
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))



def main():
    from rbmsa.ctx import Ctx
    from rbmsa.program import PKG, REPO
    from rbmsa.props import c27
    from rbmsa.report import Report
    ctx = Ctx(Report("C27", "quick"))
    I = ctx.interp()
    names = {}
    for d, _, fs in os.walk(os.path.join(REPO, "docs")):
        for f in fs:
            if not f.endswith(".rst"):
                continue
            mod = None
            for ln in open(os.path.join(d, f)):
                m = re.match(r"\.\. currentmodule:: (\S+)", ln)
                if m:
                    mod = m[1]
                m = re.match(r"    ([A-Za-z_]\w*(?:\.\w+)*)\s*$", ln)
                if m and mod and mod.startswith(PKG):
                    names.setdefault(mod, set()).add(m[1])
    root = I.st.envs["mod:" + PKG]
    for x in root["__all__"].args:
        names.setdefault(PKG, set()).add(x.meta if isinstance(x.meta, str)
                                         else c27.cval(x))
    names.setdefault(PKG + ".accessors", set()).add("DataArrayAccessor")
    out = {}
    for mod, ns in sorted(names.items()):
        for n in sorted(ns):
            if "." in n:
                continue
            v = I.st.envs["mod:" + mod].get(n)
            if v is None:
                print("documented but missing:", mod, n)
                continue
            e = {}
            for path, s in c27.callables(ctx, I, c27.sides(I.cur(v))[0]):
                e[path] = s if s is None or s == "property" else [
                    [p, k, c27.plain(d)] for p, k, d in s]
            out[f"{mod}:{n}"] = e
    p = os.path.join(os.path.dirname(c27.__file__), "..", "data", "api.json")
    with open(p, "w") as fh:
        json.dump(out, fh, indent=0, sort_keys=True)
        fh.write("\n")
    print(len(out), "names", sum(len(e) for e in out.values()), "callables")


sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
