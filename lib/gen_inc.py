"""Entries written out in a .inc file: ENTRY(name, "pattern") // reach: labels, then a body."""
import os
import re

from sa import TU, VERIF

PART = re.compile(r'^ENTRY\((\w+), ("(?:[^"\\]|\\.)*")\)(?: // reach: ([^\n;]*)(?:; depth: (\d+))?)?\n', re.M)


def generate(inc, head, prefix, select=None, shards=8):
    text = open(os.path.join(VERIF, "harness", inc)).read()
    head += "".join(l + "\n" for l in text.split("\n") if l.startswith("#define"))  # shared by all entries
    text = "\n".join(l for l in text.split("\n") if not l.startswith("#define"))
    ms = list(PART.finditer(text))
    E = []
    for i, m in enumerate(ms):
        body = text[m.end():ms[i + 1].start() if i + 1 < len(ms) else len(text)]
        if select is None or select(m.group(1)):
            reach = [r.strip() for r in (m.group(3) or "").split(",") if r.strip()]
            E.append((m.group(1), 'extern "C" void sa_entry_%s()\n%s' % (m.group(1), body), m.group(2)[1:-1], reach,
                      int(m.group(3) and m.group(4) or 0)))
    tus = []
    for s in range(shards):
        part = E[s::shards]
        if part:
            tus.append(TU("%s%02d" % (prefix, s), head + "\n".join(t for _, t, _, _, _ in part),
                          {n: {"reach": r, "what": p, "depth": k} for n, _, p, r, k in part}))
    return tus
