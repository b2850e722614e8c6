"""What a rule set reports: obligations with stable keys, floors on what was
found, and the evidence file.  A violation key never holds a line number."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Rule:
    def __init__(self, pid, db):
        self.pid, self.db = pid, db
        self.n = 0
        self.ok = 0
        self.viol = {}          # key -> message
        self.samples = []
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.rules = []
        self._seen = set()

    def ob(self, key, ok, msg="", where=""):
        """one obligation, decided"""
        self.n += 1
        if ok:
            self.ok += 1
            if len(self.samples) < 40 or (self.n % 37 == 0 and len(self.samples) < 120):
                self.samples.append("ok   %s%s" % (key, (" @ " + where) if where else ""))
        else:
            self.viol.setdefault(key, "%s%s" % (msg, (" @ " + where) if where else ""))
        return ok

    def floor(self, name, count, least):
        """the rule must have found at least what was counted by hand"""
        self.counts[name] = count
        if count < least:
            self.viol.setdefault("floor:" + name, "only %d %s found, at least %d expected: the rule has lost its anchor" % (count, name, least))

    def count(self, name, v):
        self.counts[name] = v

    def note(self, s):
        self.notes.append(s)


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.rstrip("\n")
            if not l.startswith("finding: "):
                continue
            head, _, what = l[len("finding: "):].partition(" :: ")
            pid, _, key = head.partition(" key=")
            out.setdefault(pid.replace("property=", "").strip(), {})[key] = what
    return out


def where(f, line=None):
    return "%s:%s (%s)" % (f.file, line if line is not None else f.line, f.short)


def run(pid, title, fn, db_loader, tier, seed):
    t0 = time.time()
    from db import AnchorLost
    try:
        db = db_loader()
    except AnchorLost as e:
        db = None
        r = Rule(pid, db)
        r.viol["facts"] = "no facts could be extracted from the current tree: %s" % e
    else:
        r = Rule(pid, db)
        try:
            fn(r, db)
        except AnchorLost as e:
            r.viol["anchor:" + str(e)] = "an anchor of the rule is gone, so the property is undecided: %s" % e
        except Exception as e:
            traceback.print_exc()
            r.viol["analysis:" + type(e).__name__] = "the analysis could not interpret the current tree: %s" % e
    kf = known_findings().get(pid, {})
    known = {k: v for k, v in r.viol.items() if k in kf}
    new = {k: v for k, v in r.viol.items() if k not in kf}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the type-checked program (MIR, resolved calls, types) of the current tree; " + "; ".join(r.rules),
            "analysed": {"functions": len(db.fns) if db else 0, "mode": db.mode if db else None, "facts_key": getattr(db, "key", None)},
            "obligations": r.n, "discharged": r.ok,
            "counts": r.counts,
            "samples": r.samples or ["none"],
            "notes": r.notes,
            "known_findings": sorted(known),
            "violations": [{"key": k, "report": v} for k, v in sorted(new.items())],
        },
        "assumptions": r.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations, %d discharged; %s" % (pid, title, r.n, r.ok, ", ".join("%s=%s" % x for x in r.counts.items())))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, v in sorted(new.items()):
                f.write("%s\n    %s\n" % (k, v))
        for k, v in sorted(new.items()):
            print("  - %s\n      %s" % (k, v))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
