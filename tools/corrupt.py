#!/usr/bin/env python3
"""How tightly the specification binds a trace: takes accepted traces of the real code,
changes one thing in one event of each (a byte, a time, an id, a count; drops, doubles or swaps an event)
and counts how many of the changed traces TLC still accepts, by kind of change.
usage: tools/corrupt.py [scripts per family] [seed]"""
import copy
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gen
import runner

N = int(sys.argv[1]) if len(sys.argv) > 1 else 20
R = random.Random(sys.argv[2] if len(sys.argv) > 2 else "1")
FAMS = sys.argv[3].split(",") if len(sys.argv) > 3 else [f for f in gen.FAMS if f not in ("late", "seqwrap", "foburn")]


def places(e, path=()):
    """every number, boolean, string inside what the code said (not what it was told)"""
    if isinstance(e, dict):
        for k, v in e.items():
            if path == () and k in ("e", "a", "q", "z"):
                continue
            if k == "z":
                continue
            yield from places(v, path + (k,))
    elif isinstance(e, list):
        for i, v in enumerate(e):
            yield from places(v, path + (i,))
    else:
        yield path, e


def put(e, path, v):
    for k in path[:-1]:
        e = e[k]
    e[path[-1]] = v


def change(ev):
    """(kind, changed events) or None"""
    i = R.randrange(len(ev))
    e = ev[i]
    if e["e"] in ("call", "rx"):                      # what was asked and what the peer said
        return None
    x = R.random()
    out = copy.deepcopy(ev)
    name = e["e"] + ("." + e.get("op", e.get("k", "")) if e["e"] in ("ret", "cb") else "")
    if x < .15:
        del out[i]
        return name + " dropped", out
    if x < .25:
        out.insert(i, copy.deepcopy(e))
        return name + " doubled", out
    if x < .3 and i + 1 < len(ev) and ev[i + 1] != e:
        out[i], out[i + 1] = out[i + 1], out[i]
        return name + " swapped", out
    ps = list(places(e))
    if not ps:
        return None
    path, v = R.choice(ps)
    what = ".".join(str(k) for k in path if not isinstance(k, int))
    if isinstance(v, bool):
        w = not v
    elif isinstance(v, int):
        w = R.choice([v + 1, v - 1 if v > 0 else v + 2, v ^ 128]) if what != "t" else v + R.choice([-1, 1]) * R.choice([20, 500])
        if w < 0:
            w = v + 1
        if isinstance(path[-1], int) and what != "r.add":
            w %= 256 if v < 256 else 65536
    elif isinstance(v, str):
        w = v + "x"
    else:
        return None
    put(out[i], path, w)
    return name + " " + what, out


def main():
    driver = runner.build()
    work = "/tmp/corrupt"
    os.makedirs(work, exist_ok=True)
    stat = {}
    kept = []
    for f in FAMS:
        scripts = gen.make(f, 7, N)
        for i, s in enumerate(scripts):
            s["id"] = i
        traces = runner.record(driver, scripts, work)
        tally = runner.Tally()
        ok = [i for i, v in runner.decide(traces, work, tally).items() if v is None]
        made, kinds = {}, {}
        k = 0
        for i in ok:
            t = json.loads(traces[i])
            for _ in range(10):
                c = change(t["ev"])
                if c:
                    made[k] = json.dumps(dict(t, id=k, ev=c[1]), separators=(",", ":")) + "\n"
                    made[k] = '{"id":%d,' % k + made[k][1:].split(",", 1)[1]
                    kinds[k] = (c[0], i)
                    k += 1
        # (a changed trace may be beyond evaluation: that is a rejection too, found by bisection)
        res = {}
        ids = sorted(made)
        for j in range(0, len(ids), 200):
            res.update(full(made, ids[j:j + 200], work))
        for j in ids:
            s = stat.setdefault(f + ": " + kinds[j][0], [0, 0])
            s[0] += 1
            if res[j] is None:
                s[1] += 1
                kept.append((f, kinds[j]))
        a = sum(1 for j in ids if res[j] is None)
        print("%-10s %5d changed traces, %4d accepted" % (f, len(ids), a), flush=True)
    print()
    for k, (n, a) in sorted(stat.items(), key=lambda x: -x[1][1]):
        if a:
            print("%4d of %4d accepted  %s" % (a, n, k))


def full(made, ids, work):
    r = runner.conform({i: made[i] for i in ids}, work, runner.Tally())
    rest = [i for i in ids if i not in r]
    if not rest:
        return r
    if len(ids) == 1:
        return {ids[0]: (0, {"UNDEFINED"})}
    h = max(1, len(rest) // 4)
    for j in range(0, len(rest), h):
        r.update(full(made, rest[j:j + h], work))
    return r


main()
