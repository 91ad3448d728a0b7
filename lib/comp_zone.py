"""Components decided by the abstract interpreter (tools/zoneai.cpp)."""
import re
import subprocess
import tempfile
import os

import sa
from report import Part
from sa import VERIF

TMP = os.path.join(tempfile.gettempdir(), "sa-")

ASSUME = ["inputs are shorter than 2^31-64 bytes",
          "clang 18's lowering of the headers to LLVM IR is faithful; the analyser's transfer functions are sound"]
TRUST = ["clang 18 front end and -O1 IR (no optimisation passes)", "tools/zoneai.cpp"]


def where(at):
    """The innermost call-chain position inside the repository's sources."""
    pos = [a for a in at if "/repo/src" in a or a.startswith(sa.REPO + "/src")]
    rel = [a.replace(sa.REPO + "/", "").replace("/repo/", "") for a in (pos or at)]
    return " < ".join(rel[:4]) if rel else "?"


PLAIN = '#include "e_regex.hpp"\nauto f(std::string_view s) { return e_regex::regex<"%s">::match(s).is_accepted(); }\n'


def plain_pattern_compiles(pattern, program=PLAIN):
    """Does a pattern compile when used as documented?"""
    text = program % pattern
    r = subprocess.run([sa.CLANG] + sa.BASE_FLAGS + ["-fsyntax-only", "-ftemplate-depth=4096", "-Wno-everything", "-x", "c++", "-"],
                       input=text, capture_output=True, text=True)
    return r.returncode == 0, sa.compile_errors(r.stderr)


def run(name, tus, labels=None, kinds=("check", "reach"), tier="quick", budget=40, confirm=(0, 6), confirm_budget=20, rule="", extra=(), plain=((PLAIN, "the pattern \"%s\" does not compile"),)):
    """labels: regex on the label of an obligation (None: all)."""
    part = Part(name)
    part.rules = [rule] if rule else []
    part.assumptions = list(ASSUME)
    part.trusted = list(TRUST)
    lab = re.compile(labels) if labels else None

    def scoped(k):
        if k[0] == "arith" and k[1].startswith((VERIF, TMP)):
            return False    # the harness itself
        return k[0] in kinds and (k[0] not in ("check",) or lab is None or lab.search(k[1]))

    if tier == "thorough":
        budget, confirm_budget, confirm = budget * 3, confirm_budget * 4, (confirm[0], confirm[1] + 2)
    results, failures, wall = sa.run_tus(tus, budget=budget, confirm=confirm, confirm_budget=confirm_budget, scope=scoped,
                                           extra=extra)
    by = {t.name: t for t in tus}
    for n, err in sorted(failures.items()):
        tu = by[n]
        bad = []
        for pat in sorted({e["what"] for e in tu.entries.values()}):
            for program, what in plain:
                ok, perr = plain_pattern_compiles(pat, program)
                if not ok:
                    bad.append((pat, what % pat, perr))
                    break
        if not bad:
            raise sa.Broken("analysis harness %s does not compile against the current tree: %s" % (n, "; ".join(err)))
        for pat, what, perr in bad:
            part.violations.append({"key": "compile:" + pat, "what": what,
                                    "where": "; ".join(perr)[:300] or "?", "detail": ""})
    blocks = inst = transfers = loops = disj = entries = 0
    for r in results:
        entries += 1
        rec = r.rec
        blocks += rec["blocks"]
        inst += rec["instructions"]
        loops += rec["loops"]
        transfers += rec["block_transfers"]
        disj = max(disj, rec["max_disjuncts"])
        spec = r.tu.entries[r.name]
        keys = [k for k in r.agg if k[0] != "reach" and scoped(k)]
        und = {(u["kind"], u["label"]) for u in r.undecided}
        vio = {(v["kind"], v["label"]) for v in r.violations}
        blown = rec["blown"]
        for k in keys:
            part.obligations += 1
            if not blown and k not in und and k not in vio:
                part.discharged += 1
        reach = spec.get("reach", []) if "reach" in kinds else []
        part.obligations += len(reach)
        for l in reach:
            if not blown and ("unreachable", l) not in vio:
                part.discharged += 1
        for v in r.violations:
            if v["kind"] == "unreachable":
                if "reach" not in kinds:
                    continue
                what = "no input makes \"%s\" reach \"%s\"" % (spec["what"], v["label"])
            elif not scoped((v["kind"], v["label"])):
                continue
            elif v["kind"] == "check":
                what = "\"%s\": \"%s\" does not hold (%s)" % (spec["what"], v["label"], v["how"])
            else:
                what = "\"%s\": %s outside the input (%s)" % (spec["what"], "position" if v["kind"] == "arith" else v["kind"], v["how"])
            part.violations.append({"key": "%s:%s:%s" % (r.name, v["kind"], v["label"]), "what": what,
                                    "where": where(v["at"]), "detail": str(v.get("detail") or "")})
        for u in r.undecided:
            if u["kind"] == "blown" or scoped((u["kind"], u["label"])):
                part.undecided.append("%s \"%s\": %s %s (%s)" % (r.name, spec["what"], u["kind"], u["label"][-120:], u["confirm"]))
        if len(part.samples) < 6 and keys:
            part.samples.append({"entry": r.name, "pattern": spec["what"], "rule": keys[0][1] or keys[0][0],
                                 "at": where(r.agg[keys[0]]["at"] or [])})
    part.counters = {"entry_functions": entries, "translation_units": len(tus), "basic_blocks": blocks,
                     "instructions": inst, "loops_with_fixpoint": loops, "block_transfers": transfers,
                     "max_disjuncts": disj, "wall_s": round(wall, 1)}
    return part
