"""Verdicts: VIOLATION / KNOWN-FINDING lines, evidence file, replay file, exit status."""
import json
import os
import re
import sys
import time

from sa import VERIF, short

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Part:
    """What one component of a check found.

    violations  dict(key, what, where, detail): key identifies the construct across runs
    undecided   list of str: not proved and not refuted (no alarm)
    counters    dict of measured numbers
    """

    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.undecided = []
        self.counters = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.trusted = []


def known(pid):
    """Findings listed for this property: key -> text (fixed entries suppress nothing)."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        m = re.match(r"finding: property=(\w+) key=(\S+) (.*)$", line.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def printable(x):
    """The same value with what is not a character (the raw bytes of a pattern) spelled out."""
    if isinstance(x, str):
        return x.encode("utf-8", "backslashreplace").decode("utf-8")
    if isinstance(x, dict):
        return {printable(k): printable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [printable(v) for v in x]
    return x


def finish(pid, tier, level, parts, t0, explanation, checker_cmd):
    sys.stdout.reconfigure(errors="backslashreplace")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    listed = known(pid)
    fresh, seen = [], {}
    for p in parts:
        for v in p.violations:
            k = re.sub(r"\s+", "_", v["key"])
            if k in listed:
                seen[k] = v
            else:
                fresh.append((p.name, v))
    cov = {
        "obligations": sum(p.obligations for p in parts),
        "discharged": sum(p.discharged for p in parts),
        "undecided": sum(len(p.undecided) for p in parts),
        "checker_cmd": checker_cmd,
        "trusted_base": sorted({t for p in parts for t in p.trusted}) or ["clang 18 front end"],
        "explanation": explanation,
        "components": [],
    }
    for p in parts:
        cov["components"].append({
            "component": p.name, "obligations": p.obligations, "discharged": p.discharged,
            "rules": p.rules, "measured": p.counters, "samples": p.samples[:12],
            "undecided": p.undecided[:20],
        })
    cov["samples"] = [s for p in parts for s in p.samples][:8]
    if seen:
        cov["known_findings"] = sorted(seen)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": sorted({a for p in parts for a in p.assumptions}),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    rpath = os.path.join(edir, pid + ".violation.txt")
    if fresh:
        ev["coverage"]["violation_list"] = [{"component": n, **{k: v[k] for k in ("key", "what", "where") if k in v}}
                                            for n, v in fresh[:20]]
        with open(rpath, "w", encoding="utf-8", errors="backslashreplace") as f:
            f.write("property %s is violated by the current tree\nre-run: cd /verif && %s\n\n" % (pid, checker_cmd))
            for n, v in fresh:
                f.write("[%s] %s\n" % (n, v["what"]))
                f.write("  where:  %s\n" % v.get("where", "?"))
                if v.get("detail"):
                    f.write("  detail: %s\n" % v["detail"])
                f.write("  key:    %s\n\n" % re.sub(r"\s+", "_", v["key"]))
    elif os.path.exists(rpath):
        os.unlink(rpath)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(printable(ev), f, indent=1)
        f.write("\n")
    for k, v in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]))
    for n, v in fresh[:8]:
        print("  %s: %s at %s" % (n, short(v["what"], 220), short(v.get("where", "?"), 200)))
    if fresh:
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        sys.exit(1)
    und = sum(len(p.undecided) for p in parts)
    print("%s: held (%d of %d obligations discharged%s)" % (
        pid, cov["discharged"], cov["obligations"], ", %d undecided" % und if und else ""))
    sys.exit(0)
