"""Obligations, evidence and the verdict of one check run."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OK, BAD, UNKNOWN = "ok", "violated", "undecided"


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obl = []
        self.t0 = time.time()
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.funcs = set()
        self.sites = set()
        self.nodes = 0

    # --- obligations
    def _add(self, status, rule, construct, detail, loc):
        self.obl.append({"rule": rule, "construct": construct,
                         "status": status, "detail": detail,
                         "where": str(loc) if loc is not None else None})

    def ok(self, rule, construct, detail="", loc=None):
        self._add(OK, rule, construct, detail, loc)

    def bad(self, rule, construct, detail="", loc=None):
        self._add(BAD, rule, construct, detail, loc)

    def unknown(self, rule, construct, detail="", loc=None):
        self._add(UNKNOWN, rule, construct, detail, loc)

    def check(self, cond, rule, construct, detail="", loc=None):
        """cond: True / False / None (undecided)."""
        (self.ok if cond else self.unknown if cond is None else self.bad)(
            rule, construct, detail, loc)

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def seen(self, interp):
        self.funcs |= set(interp.funcs_entered)
        self.sites |= set(interp.call_sites)

    # --- verdict
    def finish(self):
        known = load_known()
        vio, kf = [], []
        for o in self.obl:
            if o["status"] != BAD:
                continue
            k = (self.prop, o["rule"], o["construct"])
            if k in known:
                kf.append((o, known[k]))
            else:
                vio.append(o)
        dec = sum(o["status"] != UNKNOWN for o in self.obl)
        und = [o for o in self.obl if o["status"] == UNKNOWN]
        ev = {
            "property": self.prop, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": {
                "explanation":
                    "Static analysis of the current source. Each obligation "
                    "is one application of a rule to a construct (function, "
                    "call site or value-flow path); decided obligations were "
                    "settled by inference over the value-flow graph, "
                    "undecided ones are outside the inference rules and "
                    "assert nothing.",
                "obligations": len(self.obl),
                "obligations_decided": dec,
                "obligations_undecided": len(und),
                "functions_analysed": len(self.funcs),
                "call_sites_analysed": len(self.sites),
                "rules": self.rules,
                "functions": sorted(map(str, self.funcs)),
                "details": [
                    {k: (v if v is None else str(v)[:250])
                     for k, v in o.items()}
                    for o in sorted(self.obl, key=lambda o:
                                    o["status"] == OK)[:1000]],
                "details_listed": min(len(self.obl), 1000),
                **self.counts,
            },
            "assumptions": self.assumptions or BASE_ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": [
                {"rule": o["rule"], "construct": o["construct"],
                 "where": o["where"], "detail": str(o["detail"])[:1000]}
                for o in vio],
        }
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o, why in kf:
            print(f"KNOWN-FINDING: property={self.prop} {why}")
        rp = os.path.join(d, self.prop + ".violation.txt")
        if vio:
            with open(rp, "w") as f:
                for o in vio:
                    f.write(f"rule      {o['rule']}: "
                            f"{self.rules.get(o['rule'], '')}\n"
                            f"construct {o['construct']}\n"
                            f"where     {o['where']}\n"
                            f"finding   {o['detail']}\n\n")
            for o in vio[:10]:
                print(f"  [{o['rule']}] {o['construct']} "
                      f"({o['where']}): {str(o['detail'])[:600]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print(f"{self.prop}: {dec} obligations decided, {len(und)} undecided, "
              f"{len(self.funcs)} functions, {len(self.sites)} call sites "
              f"({ev['wall_s']} s)")
        if os.environ.get("RBMSA_V"):
            for o in self.obl:
                print("   ", o["status"], o["rule"], "|", o["construct"], "|",
                      str(o["detail"])[:300], "|", o["where"])
        else:
            for o in und[:20]:
                print("    undecided:", o["rule"], "|", o["construct"], "|",
                      str(o["detail"])[:200], "|", o["where"])
        if dec == 0:
            print(f"{self.prop}: UNDECIDED, no obligation could be decided "
                  "(no violation found)")
        return 0


BASE_ASSUMPTIONS = [
    "numpy, scipy, numpy-quaternion, anytree, xarray, pandas and the ROS "
    "message classes behave as documented (their operations are modelled, "
    "not analysed)",
    "values are real numbers: floating-point rounding is outside the rules",
    "the package is not monkey-patched at run time",
]


def load_known():
    """Lines `KNOWN property=<id> rule=<r> construct=<c> :: <text>`."""
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p, encoding="utf-8"):
        if not line.startswith("KNOWN "):
            continue
        head, _, text = line[6:].partition(" :: ")
        parts = head.split(" ", 2)
        kv = dict(x.split("=", 1) for x in parts if "=" in x)
        out[(kv["property"], kv["rule"], kv["construct"].strip())] = \
            text.strip()
    return out
