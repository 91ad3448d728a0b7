"""Driver for zoneai: compile a translation unit against /repo's current source to LLVM
bitcode, analyse its entry functions, and turn the result into verdicts.

Nothing produced here is ever linked or run: the entry functions call primitives
(harness/sa.hpp) that have no definition."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CLANG = "clang++-18"
BASE_FLAGS = ["-std=c++23", "-I" + REPO + "/src", "-I" + VERIF + "/harness"]
IR_FLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-delete-null-pointer-checks",
            "-ftemplate-depth=4096", "-fconstexpr-steps=100000000", "-fbracket-depth=4096",
            "-Wno-everything", "-emit-llvm", "-c"]
JOBS = os.cpu_count() or 4
DEPTH = 6


class Broken(Exception):
    """The machinery itself cannot work (exit 2): never a verdict about the code."""


def tool_path(name, src, link):
    text = open(src, "rb").read()
    h = hashlib.sha256(text + " ".join(link).encode()).hexdigest()[:16]
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "verif-build")):
        try:
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s" % (name, h))
            with open(os.path.join(d, name + ".lock"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                if os.access(path, os.X_OK):
                    return path
                tmp = path + ".tmp%d" % os.getpid()
                cmd = ["g++", "-O2", "-std=c++17", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS",
                       "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
                       "-L/usr/lib/llvm-18/lib"] + link
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise Broken("cannot build %s: %s" % (name, r.stderr[:800]))
                os.rename(tmp, path)
                return path
        except OSError:
            continue
    raise Broken("no writable directory for the tools")


def zoneai():
    return tool_path("zoneai", os.path.join(VERIF, "tools", "zoneai.cpp"),
                     ["-fno-exceptions", "-fno-rtti", "-lLLVM-18"])


def short(text, n=200):
    text = re.sub(r"\s+", " ", text).strip()
    return text if len(text) <= n else text[:n] + "..."


def compile_errors(stderr, n=3):
    out = []
    for line in stderr.splitlines():
        if " error: " in line or " error:" in line:
            out.append(short(line, 300))
    return out[:n]


class TU:
    """One translation unit: its text, the entries it defines and what each must reach."""

    def __init__(self, name, text, entries, includes=()):
        self.name = name
        self.text = text
        self.entries = entries          # entry -> {"reach": [...], "what": str}
        self.includes = list(includes)  # extra -I directories, searched first


PRE = '#include "e_regex.hpp"\n#include <string_view>\n'


def precompile(tmp, flags, text=PRE, name="pre"):
    """A precompiled header for the flags (the same declarations, read once), or None."""
    src, out = os.path.join(tmp, name + ".hpp"), os.path.join(tmp, name + ".pch")
    with open(src, "w") as f:
        f.write(text)
    drop = ("-emit-llvm", "-c", "-fsyntax-only")
    r = subprocess.run([CLANG] + BASE_FLAGS + [f for f in flags if f not in drop] + ["-x", "c++-header", src, "-o", out],
                       capture_output=True, text=True)
    return ["-include-pch", out] if r.returncode == 0 and os.path.exists(out) else []


def compile_tu(tu, tmp, pre=()):
    src = os.path.join(tmp, tu.name + ".cpp")
    bc = os.path.join(tmp, tu.name + ".bc")
    with open(src, "w") as f:
        f.write(tu.text)
    inc = ["-I" + i for i in tu.includes]
    r = subprocess.run([CLANG] + inc + BASE_FLAGS + IR_FLAGS + list(() if inc else pre) + [src, "-o", bc], capture_output=True, text=True)
    if r.returncode:
        return None, compile_errors(r.stderr, 40) or [short(r.stderr, 300)]
    return bc, []


def analyse(bc, budget, only=None, lens=None, exact=False, extra=()):
    cmd = [zoneai(), "--budget=%g" % budget] + list(extra)
    if only:
        cmd.append("--only=" + ",".join(only))
    if lens:
        cmd.append("--lens=%d-%d" % lens)
    if exact:
        cmd.append("--exact")
    r = subprocess.run(cmd + [bc], capture_output=True, text=True)
    if r.returncode:
        raise Broken("zoneai failed on %s: %s" % (os.path.basename(bc), short(r.stderr, 300)))
    return json.loads(r.stdout)


def aggregate(rec):
    """(kind, label or site) -> dict(reached, ok, sites, detail, at)"""
    out = {}
    for o in rec["obligations"]:
        if o["kind"] in ("check", "reach"):
            key = (o["kind"], o["label"])
        else:
            key = (o["kind"], o["at"][0] if o["at"] else o["label"])
        a = out.setdefault(key, {"reached": False, "ok": True, "sites": 0, "detail": None, "at": None, "states": 0,
                                 "loose": False})
        a["sites"] += 1
        a["reached"] |= o["reached"]
        a["states"] += o.get("states", 0)
        a["loose"] |= o.get("loose_states", 0) > 0
        if o["reached"] and not o["ok"]:
            if a["ok"]:
                a["detail"] = o.get("detail")
                a["at"] = o["at"]
            a["ok"] = False
        if a["at"] is None:
            a["at"] = o["at"]
    return out


class EntryResult:
    def __init__(self, tu, name):
        self.tu, self.name = tu, name
        self.rec = None
        self.agg = {}
        self.violations = []   # confirmed: dict(kind, label, at, detail, how)
        self.undecided = []    # not proved and not confirmed
        self.proved = 0
        self.obligations = 0
        self.confirm_runs = 0


def judge_entry(tu, bc, rec, confirm, confirm_budget, scope=None, extra=()):
    er = EntryResult(tu, rec["entry"])
    er.rec = rec
    spec = tu.entries.get(rec["entry"], {})
    agg = er.agg = aggregate(rec)
    er.obligations = len([k for k in agg if k[0] != "reach"]) + len(spec.get("reach", []))

    def unproved(rec, agg):
        if rec["blown"]:
            return [("blown", rec.get("blown_why", ""))]
        return [k for k, a in agg.items() if k[0] != "reach" and not a["ok"] and (scope is None or scope(k))]

    pending = unproved(rec, agg)
    er.refined = 0
    for small in (6,):
        if not pending:
            break
        # keep the small values of loop counters apart and look again
        try:
            rec2 = analyse(bc, confirm_budget, only=[rec["entry"]], extra=["--small=%d" % small] + list(extra))[0]
        except (Broken, IndexError):
            continue
        agg2 = aggregate(rec2)
        if rec2["blown"]:
            continue
        er.refined = small
        still = unproved(rec2, agg2)
        if rec["blown"]:
            rec, agg, pending = rec2, agg2, still
        else:
            # proved by either run is proved
            pending = [k for k in pending if k in still]
    er.rec, er.agg = rec, agg
    if not rec["blown"]:
        er.proved = len([k for k in agg if k[0] != "reach" and k not in pending])
        for label in spec.get("reach", []):
            a = agg.get(("reach", label))
            if a and a["reached"]:
                er.proved += 1
            else:
                # the analysis over-approximates: what it cannot reach cannot happen
                er.violations.append({"kind": "unreachable", "label": label, "at": (a or {}).get("at") or [],
                                      "detail": "no input reaches this point", "how": "unbounded"})
    if pending:
        found = {}
        depth = spec.get("depth") or DEPTH
        try:
            recs = analyse(bc, confirm_budget, only=[rec["entry"]], lens=confirm, exact=True, extra=extra)
        except Broken as e:
            recs = []
        er.confirm_runs = len(recs)
        reach_ok, loose = set(), set()
        blown = not recs
        for r in recs:
            if r["blown"]:
                blown = True
            for k, a in aggregate(r).items():
                if k[0] == "reach":
                    if a["reached"]:
                        reach_ok.add(k[1])
                    continue
                if a["loose"]:
                    loose.add(k)
                if a["reached"] and not a["ok"] and k not in found:
                    found[k] = (r["len"], a)
        unmodelled = ("unresolved-read", "unmodelled-call", "abort")
        if any(k not in found for k in pending):
            # inputs of any length, the first few iterations of every path: no completeness,
            # but what fails there fails
            try:
                deep = analyse(bc, confirm_budget, only=[rec["entry"]], exact=True,
                               extra=["--depth=%d" % depth] + list(extra))
            except Broken:
                deep = []
            for r in deep:
                for k, a in aggregate(r).items():
                    if k[0] != "reach" and a["reached"] and not a["ok"] and k not in found:
                        found[k] = (None, a)
        for k, (n, a) in found.items():
            if k[0] in unmodelled:
                continue
            er.violations.append({"kind": k[0], "label": k[1], "at": a["at"], "detail": a["detail"],
                                  "how": "input of length %d" % n if n is not None
                                  else "input of any length, first %d iterations" % depth})
        n = spec.get("bounded")   # the entry assumes an input of exactly this length
        complete = n is not None and confirm[0] <= n <= confirm[1] and not blown
        for k in pending:
            if complete and k[0] != "blown" and k not in found and k not in loose:
                er.proved += 1     # the runs without joins covered every such input
                continue
            if k not in found or k[0] in unmodelled:
                er.undecided.append({"kind": k[0], "label": k[1],
                                     "confirm": "exact runs %s, blown=%s" % (confirm, blown)})
    return er


def run_tus(tus, budget=40, confirm=(0, 4), confirm_budget=40, scope=None, extra=()):
    """Compile and analyse all TUs in parallel; returns (results, compile_failures, timing)."""
    zoneai()
    results, failures = [], {}
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="sa-") as tmp, \
            concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        pre = precompile(tmp, IR_FLAGS)
        comp = {pool.submit(compile_tu, tu, tmp, pre): tu for tu in tus}
        ana = {}
        for f in concurrent.futures.as_completed(comp):
            tu = comp[f]
            bc, err = f.result()
            if bc is None:
                failures[tu.name] = err
                continue
            # the entries of a TU share one module preparation
            ana[pool.submit(analyse, bc, budget, None, None, False, extra)] = (tu, bc)
        judge = []
        for f in concurrent.futures.as_completed(ana):
            tu, bc = ana[f]
            recs = f.result()
            seen = set()
            for rec in recs:
                seen.add(rec["entry"])
                judge.append(pool.submit(judge_entry, tu, bc, rec, confirm, confirm_budget, scope, extra))
            missing = set(tu.entries) - seen
            if missing:
                raise Broken("entries %s of %s are not in the module" % (sorted(missing), tu.name))
        for f in concurrent.futures.as_completed(judge):
            results.append(f.result())
    results.sort(key=lambda r: (r.tu.name, r.name))
    return results, failures, time.time() - t0
