"""Pairs of documents to compare: a random document and an edited copy."""
import copy
import json
import random

import gen_doc

NUMS = [0, 1, -1, 1.5, 100, 1e21, 123456789012345, 0.1, 1e-6, 1e-7, 2.5e-10, 1e20, 1e22, -0.25, 12345.678, 3e5]


class C(gen_doc.D):
    def paths(self, v, p=()):
        yield p
        if isinstance(v, dict):
            for k in v:
                yield from self.paths(v[k], p + (k,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                yield from self.paths(x, p + (i,))

    def at(self, v, p):
        for k in p:
            v = v[k]
        return v

    def put(self, v, p, x):
        if not p:
            return x
        self.at(v, p[:-1])[p[-1]] = x
        return v

    def shuffled(self, v):
        r = self.r
        if isinstance(v, dict):
            ks = list(v)
            if r.random() < .6:
                r.shuffle(ks)
            return {k: self.shuffled(v[k]) for k in ks}
        if isinstance(v, list):
            v = [self.shuffled(x) for x in v]
            if r.random() < .4:
                r.shuffle(v)
        return v

    def edit(self, v):
        r = self.r
        ps = list(self.paths(v))
        p = r.choice(ps)
        x = self.at(v, p)
        k = r.random()
        if isinstance(x, list) and x and k < .7:
            q = r.random()
            if q < .3:
                x.pop(r.randrange(len(x)))
            elif q < .5:
                x.append(copy.deepcopy(r.choice(x)))
            elif q < .7:
                x[r.randrange(len(x))] = copy.deepcopy(r.choice(x))
            else:
                r.shuffle(x)
            return v
        if isinstance(x, dict) and x and k < .7:
            if r.random() < .5:
                del x[r.choice(sorted(x))]
            else:
                x[r.choice(["http://e/new", "@id", "@index", "@type"])] = r.choice(["x", "http://e/x", 1])
            return v
        y = self.at(v, r.choice(ps))
        return self.put(v, p, r.choice([copy.deepcopy(y), r.choice(NUMS), "x", None, True, [x], {"@value": r.choice(NUMS)}]) if p else v)

    def numbered(self, v):
        """Numbers of every size, and JSON literals."""
        r = self.r
        if isinstance(v, dict):
            return {k: x if k == "@context" else self.numbered(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.numbered(x) for x in v]
        if isinstance(v, (int, float)) and not isinstance(v, bool) and r.random() < .7:
            return r.choice(NUMS)
        return v

    def pair(self):
        r = self.r
        c = self.case()
        a = self.numbered(c.pop("doc"))
        if isinstance(a, dict) and r.random() < .2:
            a["http://e/json"] = {"@type": "@json", "@value": {"z": r.choice(NUMS), "a": [r.choice(NUMS), {"y": None, "b": r.choice(NUMS)}], "m": "s"}}
        b = copy.deepcopy(a)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            b = self.edit(b)
        b = self.shuffled(b)
        c.update(op="compare", a=a, b=b)
        if r.random() < .03 and isinstance(a, dict) and a:
            k = r.choice(sorted(a))
            t = json.dumps(a)[:-1] + ", %s: %s}" % (json.dumps(k), json.dumps(r.choice([a[k], 1])))
            c["texts"] = {r.choice("ab"): t} if r.random() < .6 else {"a": t, "b": t}
        return c
