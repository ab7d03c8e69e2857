#!/usr/bin/env python3
"""
Shows that the checks are bound to what the code does: records executions as a
check does, damages each of them in one place, and counts how many of them the
specification then rejects.   usage: corrupt.py [PROPERTY...]
"""
import json, os, random, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
sys.dont_write_bytecode = True
import checks, framework

LIMIT = 150
MARKS = "aZ9 {\n"


def change_text(r, o):
    """One character more, less or different, or lines exchanged."""
    t = list(o["out"])
    how = r.choice(["insert", "delete", "replace", "swap lines"])
    if how == "insert":
        t.insert(r.randint(0, len(t)), ord(r.choice(MARKS)))
    elif how == "swap lines":
        lines = "".join(map(chr, t)).split("\n")
        full = [i for i, l in enumerate(lines) if l.strip()]
        if len(full) < 2:
            return None
        i, j = r.sample(full, 2)
        lines[i], lines[j] = lines[j], lines[i]
        t = [ord(c) for c in "\n".join(lines)]
    else:
        ink = [i for i, c in enumerate(t) if not chr(c).isspace()]
        if not ink:
            return None
        i = r.choice(ink)
        t[i:i + 1] = [] if how == "delete" else [ord(r.choice("aZ9"))]
    if t == o["out"]:
        return None
    o["out"] = t
    return how


def damage(r, case):
    ops = case["ops"]
    if case["kind"] in ("session", "cli") and r.random() < 0.85:
        with_text = [o for o in ops if isinstance(o.get("out"), list) and o["out"] and o.get("res", "ok") in ("ok", 0)]
        if not with_text:
            return None
        return change_text(r, r.choice(with_text))
    if case["kind"] == "cls":
        o = r.choice(ops)
        which = r.choice(["classes", "insts", "fresh"])
        if o[which] and r.random() < 0.7:
            x = r.choice(o[which])
            key = "own" if which == "classes" else "s"
            if isinstance(x[key], dict) and x[key]:
                k = r.choice(sorted(x[key]))
                x[key][k] = 77
                return "a value of " + which
    if case["kind"] == "nd" and r.random() < 0.7:
        o = r.choice(ops)
        if isinstance(o.get("len"), int):
            o["len"] += 1
            return "length"
    if case["kind"] == "nd":
        o = r.choice(ops)
        which = r.choice(["res", "item", "attr", "has"])
        at = o if which == "res" else r.choice(o["reads"])
        if which == "has":
            at["has"] = not at["has"]
        else:
            k = at[which]["k"]
            at[which] = r.choice([x for x in ({"k": "raise", "v": "KeyError"}, {"k": "value", "v": 77}, {"k": "done", "v": 0})
                                  if x["k"] != k or k == "value"])
        return which
    o = r.choice(ops)
    if case["kind"] == "cli":
        o["res"] = 1 - o["res"]
        return "status"
    o["res"] = "TypeError" if o["res"] == "ok" else ["ok2"] if isinstance(o["res"], list) else "other"
    return "result"


class Done(Exception):
    pass


def run(pid):
    ck = framework.Check(pid, "quick", "1")
    r = random.Random(pid)
    check_traces = ck.check_traces

    def damaged(observed, module="Trace"):
        keep, how = [], {}
        for c in r.sample(observed, len(observed)):
            if len(keep) < LIMIT and "finding" not in c:
                h = damage(r, c)
                if h:
                    keep.append(c)
                    how[c["id"]] = h
        keep.sort(key=lambda c: c["id"])
        check_traces(keep, module)
        rejected = {c["id"] for c, _ in ck.rejects}
        total, no = {}, {}
        for i, h in how.items():
            total[h] = total.get(h, 0) + 1
            no[h] = no.get(h, 0) + (i in rejected)
        print(pid, "%d of %d damaged executions rejected:" % (len(rejected), len(keep)),
              ", ".join("%s %d/%d" % (h, no[h], total[h]) for h in sorted(total)), flush=True)
    ck.check_traces = damaged
    try:
        checks.CHECKS[pid](ck)
        ck.validate(checks.MODULES.get(pid, "Trace"))
    finally:
        ck.cleanup()


for pid in sys.argv[1:] or sorted(checks.CHECKS):
    run(pid)
