"""Shrinks the case of a replay file while the specification still rejects what the code does with it.
usage: shrink.py REPLAY.json [dev,..]   (prints the shrunk case, the event and what was expected)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp

KEEP = {"op", "back", "again", "perms", "gen", "gen2"}


def smaller(v):
    """Every one-step reduction of a JSON value."""
    if isinstance(v, dict):
        for k in v:
            yield {a: b for a, b in v.items() if a != k}
        for k in v:
            for x in smaller(v[k]):
                yield {a: (x if a == k else b) for a, b in v.items()}
        for k in v:
            if isinstance(v[k], dict):
                yield v[k]
    elif isinstance(v, list):
        if len(v) > 3:
            yield v[:len(v) // 2]
            yield v[len(v) // 2:]
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        if len(v) == 1:
            yield v[0]
        for i in range(len(v)):
            for x in smaller(v[i]):
                yield v[:i] + [x] + v[i + 1:]


def reductions(c):
    for k in c:
        if k in KEEP:
            continue
        if k not in ("doc", "ctxs", "a", "b", "ctx"):
            yield {a: b for a, b in c.items() if a != k}
        for x in smaller(c[k]):
            yield {a: (x if a == k else b) for a, b in c.items()}


def reperm(c):
    if "perms" in c:
        import suites
        d = {k: v for k, v in c.items() if k != "perms"}
        return suites.permuted(d)
    return c


def shrink(case, devs, rounds=60, batch=600):
    run = vp.Run("shrink")
    for _ in range(rounds):
        cands = []
        seen = set()
        for c in reductions(case):
            c = reperm(c)
            s = json.dumps(c)
            if s not in seen and len(s) < len(json.dumps(case)) + 5:
                seen.add(s)
                cands.append(c)
        cands.sort(key=lambda c: len(json.dumps(c)))
        best = None
        for i in range(0, len(cands), batch):
            sub = cands[i:i + batch]
            path, ev = run.execute(sub, "s")
            try:
                bad, _ = run.trace(path, dev=devs)
            except vp.CheckError:
                continue
            bad = [j for j in bad if '"parse"' not in ev[j][-400:] and 'invalid local context' not in ev[j]]
            if bad:
                best = sub[min(bad)]
                break
        if best is None:
            break
        case = best
    path, ev = run.execute([case], "s")
    _, exp = run.trace(path, dev=devs, explain=True)
    return case, ev[0], exp.get(0)


def show(v):
    if isinstance(v, list) and len(v) == 2 and v[0] == "o" and isinstance(v[1], dict):
        return {k: show(x) for k, x in v[1].items()}
    if isinstance(v, list) and len(v) == 2 and v[0] == "o" and isinstance(v[1], list):
        return {p[0]: show(p[1]) for p in v[1]}
    if isinstance(v, list) and len(v) == 2 and v[0] == "a":
        return [show(x) for x in v[1]]
    if isinstance(v, list) and len(v) == 2 and v[0] in ("s", "n", "b"):
        return v[1] if v[0] != "n" else "#" + v[1]
    if v == ["0"]:
        return None
    if isinstance(v, list):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    return v


if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    devs = sys.argv[2].split(",") if len(sys.argv) > 2 else vp.known_devs("")
    c, e, x = shrink(d["case"] if "case" in d else d, [v for v in devs if v])
    e = json.loads(e)
    print("CASE", json.dumps(c))
    print("GOT ", json.dumps({k: show(v) for k, v in e.items() if k not in c}))
    print("EXP ", json.dumps(show(x)))
