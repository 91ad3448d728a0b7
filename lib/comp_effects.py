"""Effects (tools/irscan.cpp on LLVM IR), syntax rules (tools/astscan.cpp on the syntax tree) and
compile-time witnesses over users of the public interface."""
import concurrent.futures
import json
import os
import re
import subprocess
import tempfile
import time

import gen_effects
import sa
from report import Part

# C library functions without effects beyond their arguments
FLAGS = ["-ftemplate-depth=4096", "-Wno-everything"]
PURE = {"memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "memchr"}


def irscan():
    return sa.tool_path("irscan", os.path.join(sa.VERIF, "tools", "irscan.cpp"), ["-fno-exceptions", "-fno-rtti", "-lLLVM-18"])


def astscan():
    return sa.tool_path("astscan", os.path.join(sa.VERIF, "tools", "astscan.cpp"),
                        ["-fPIC", "-shared", "-fno-exceptions", "-fno-rtti"])


def rel(p):
    return p.replace(sa.REPO + "/", "").replace("/repo/", "")


def broken_patterns(tu, part, promise=None):
    """A unit did not compile: which of its uses are to blame?  None when the harness is."""
    lines = [l for l in tu.text.split("\n") if l.startswith('extern "C"') or l.startswith("template struct promises")]
    head = "\n".join(l for l in tu.text.split("\n") if l not in lines)
    with tempfile.TemporaryDirectory(prefix="sa-") as tmp:
        pre = sa.precompile(tmp, FLAGS, head)
        return blamed(tu, lines, "" if pre else head, pre)


def blamed(tu, lines, head, pre):
    src = []

    def one(item):
        n, spec = item
        mine = [l for i, l in enumerate(lines) if " %s(" % n in l or (l.startswith("template struct") and i and " %s(" % n in lines[i - 1])]
        out = []
        for l in mine:
            r = subprocess.run([sa.CLANG] + sa.BASE_FLAGS + FLAGS + list(pre) + ["-fsyntax-only", "-x", "c++", "-"],
                               input=head + "\n" + l + "\n", capture_output=True, text=True)
            if r.returncode:
                out.append(sa.compile_errors(r.stderr, 6) or [sa.short(r.stderr, 300)])
        return spec["what"], out
    with concurrent.futures.ThreadPoolExecutor(sa.JOBS) as pool:
        for what, errs in pool.map(one, sorted(tu.entries.items())):
            for e in errs:
                src.append((what, e))
    return src


def each(tus, job):
    with tempfile.TemporaryDirectory(prefix="sa-") as tmp, concurrent.futures.ThreadPoolExecutor(sa.JOBS) as pool:
        return list(pool.map(lambda t: job(t, tmp), tus))


def uncompiled(part, tu, err):
    """Broken promises are violations of C12; anything else is for C14 to report."""
    errs = [re.sub(r"^\S*: (fatal )?", "", e) for e in err]
    if errs and all("promise: " in e for e in errs):
        bad = [(next(iter(tu.entries.values()))["what"], sorted(set(errs)))]
    else:
        bad = broken_patterns(tu, part)
    if not bad:
        raise sa.Broken("%s does not compile: %s" % (tu.name, "; ".join(err)))
    other = []
    for what, errs in bad:
        kept = [m.group(1) for e in errs for m in [re.search(r"promise: (.*?)\"?$", e)] if m]
        for k in sorted(set(kept)):
            if not any(v["key"] == "promise:" + k for v in part.violations):
                part.violations.append({"key": "promise:" + k, "what": "\"%s\" is not kept (pattern \"%s\")" % (k, what),
                                        "where": "src/match_result.hpp, src/regex.hpp (witness in lib/gen_effects.py)", "detail": rel("; ".join(errs)[:300])})
        if not kept:
            other.append((what, errs))
    return other


def effects(tier="quick", rule=""):
    part = Part("effects of matching and tokenizing")
    part.rules = [rule]
    part.trusted = ["clang 18 front end", "tools/irscan.cpp"]
    part.assumptions = ["the standard library's inline functions are as installed"]
    tool = irscan()
    t0 = time.time()
    pats = gen_effects.patterns()
    keep = None if tier == "thorough" else set(pats[::2]) | set(gen_effects.PATTERNS)
    tus = gen_effects.generate(16, None if keep is None else lambda p: p in keep)

    def job(tu, tmp):
        bc, err = sa.compile_tu(tu, tmp)
        if bc is None:
            return tu, err, None
        r = subprocess.run([tool, bc], capture_output=True, text=True)
        if r.returncode:
            raise sa.Broken("irscan failed: " + sa.short(r.stderr))
        return tu, None, json.loads(r.stdout)
    tot = dict(roots=0, functions=0, instructions=0, calls=0, stores=0)
    defs, seen = set(), {}
    for tu, err, rec in each(tus, job):
        if rec is None:
            for what, e in uncompiled(part, tu, err):
                part.undecided.append("does not compile (see C14): %s: %s" % (what, "; ".join(e)))
            continue
        for k in tot:
            tot[k] += rec[k]
        defs |= {d for d in rec["definitions"] if "/src/" in d}
        for e in rec["effects"]:
            if e["kind"] == "external" and (e["what"] in PURE or "__clang_call_terminate" in e["function"]):
                continue
            key = (e["kind"], e["what"], re.sub(r":\d+$", "", rel(e["home"])))
            if key not in seen:
                seen[key] = e
    promises = gen_effects.HEAD.count('"promise: ')
    part.obligations = tot["functions"] + promises * len(pats if keep is None else keep)
    bad = 0
    for (kind, what, home), e in sorted(seen.items()):
        if kind in ("indirect",) or (kind == "external" and re.match(r"_ZSt\d+__throw_|_ZSt\d+__glibcxx_assert|__assert_fail|abort$", what)):
            part.undecided.append("%s %s in %s at %s" % (kind, what, e["function"], rel(e["at"])))
            continue
        bad += 1
        text = {"external": "calls %s, which is not part of the library", "indirect": "%s", "state": "%s", "asm": "%s", "stack": "uses %s",
                "recursion": "%s: the stack grows with the input"}[kind] % what
        path = [rel(p) for p in e["path"] if "/src/" in p]
        part.violations.append({"key": "%s:%s:%s" % (kind, what, home), "what": "%s %s" % (e["function"], text),
                                "where": " < ".join([rel(e["at"])] + path[:3]), "detail": ""})
    part.discharged = part.obligations - bad - len(part.undecided) - len([v for v in part.violations if v["key"].startswith("promise")])
    part.counters = dict(tot, translation_units=len(tus), source_positions=len(defs), noexcept_promises=promises, wall_s=round(time.time() - t0, 1))
    part.samples = [{"function": rel(d), "rule": "no effect but on its arguments and its own variables"} for d in sorted(defs)[:8]]
    return part


def syntax(tier="quick", rule=""):
    part = Part("constructs without constant evaluation")
    part.rules = [rule]
    part.trusted = ["clang 18 front end", "tools/astscan.cpp"]
    tool = astscan()
    t0 = time.time()
    src = os.path.join(sa.REPO, "src")
    pats = gen_effects.patterns()
    keep = None if tier == "thorough" else set(pats[::3])
    tus = gen_effects.generate(8, None if keep is None else lambda p: p in keep)

    def job(tu, tmp):
        f = os.path.join(tmp, tu.name + ".cpp")
        with open(f, "w") as h:
            h.write("\n".join(l for l in tu.text.split("\n") if not l.startswith("template struct promises")))
        r = subprocess.run([sa.CLANG] + sa.BASE_FLAGS + ["-ftemplate-depth=4096", "-Wno-everything", "-fplugin=" + tool, "-Xclang", "-plugin",
                                                         "-Xclang", "astscan", "-Xclang", "-plugin-arg-astscan", "-Xclang", src,
                                                         "-fsyntax-only", f], capture_output=True, text=True)
        if r.returncode or not r.stdout.strip():
            errs = sa.compile_errors(r.stderr)
            if not errs:
                raise sa.Broken("astscan failed: " + sa.short(r.stderr, 400))
            return tu, errs, None
        return tu, None, json.loads(r.stdout)
    bodies = statements = 0
    defs, seen = set(), {}
    for tu, err, rec in each(tus, job):
        if rec is None:
            part.undecided.append("does not compile (see C12, C14): %s" % "; ".join(err))
            continue
        bodies += rec["bodies"]
        statements += rec["statements"]
        defs |= set(rec["definitions"])
        for e in rec["findings"]:
            seen.setdefault((e["kind"], e["what"], rel(re.sub(r":\d+$", "", e["home"]))), e)
    text = {"function": "%s is not constexpr", "call": "calls %s, which is not constexpr", "cast": "reinterpreting cast (%s)",
            "construct": "%s", "differs": "%s makes compile time and run time differ"}
    part.obligations = bodies
    part.discharged = bodies - len(seen)
    for (kind, what, home), e in sorted(seen.items()):
        part.violations.append({"key": "%s:%s:%s" % (kind, what, home), "what": "%s: %s" % (e["function"], text[kind] % what),
                                "where": rel(e["at"]), "detail": ""})
    part.counters = {"translation_units": len(tus), "function_bodies": bodies, "statements": statements, "source_positions": len(defs),
                     "wall_s": round(time.time() - t0, 1)}
    part.samples = [{"function": rel(d), "rule": "only constructs with constant evaluation"} for d in sorted(defs)[:8]]
    return part
