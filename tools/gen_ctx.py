"""Seeded generator of local contexts, context sequences and remote contexts."""
import random

BASE = ["http://a.example/d/doc", "http://a.example/x/", "https://b.example/q?r#f"]
TERMS = ["a", "b", "c", "d", "e", "p", "q"]
IRIS = ["http://ex.org/a", "http://ex.org/b", "http://ex.org/p#", "http://ex.org/v/", "urn:x:y", "http://ex.org/c?k="]
REMOTE = ["http://a.example/r1", "http://a.example/d/r2", "http://c.example/r3", "http://c.example/s/r4"]
REFS = ["r2", "/r1", "http://c.example/r3", "//c.example/s/r4", "../r1", "r3", "s/r4", "http://a.example/r1"]
CONTAINERS = ["@list", "@set", "@index", "@language", "@id", "@type", "@graph",
              ["@set"], ["@list"], ["@index", "@set"], ["@language", "@set"], ["@id", "@set"], ["@type", "@set"],
              ["@graph", "@set"], ["@graph", "@id"], ["@graph", "@index"], ["@graph", "@id", "@set"],
              ["@set", "@graph", "@index"], [], None]
BADCONTAINERS = [["@list", "@set"], ["@index", "@id"], "@none", "@vocab", 1, ["@graph", "@language"], ["@set", "@set"],
                 ["@list", "@index"], ["@graph", "@id", "@index"], ["@list", 1], {"x": 1}]


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def c(self, xs):
        return self.r.choice(xs)

    def term(self):
        x = self.r.random()
        if x < .82:
            return self.c(TERMS)
        return self.c(["p:x", "q:y", "a:b", "p/x", "http://ex.org/a", "x:", ":y", "@foo", "@type", "", "_:b0", "rel/x", "_x:y",
                       "p:", "p:x:y", ":", "urn:x:y", "@a1", "@", "nope:z"])

    def idval(self, key=None):
        x = self.r.random()
        if x < .42:
            return self.c(IRIS)
        if x < .62:
            return self.c(["p:x", "q:y", "p:", "b:c", "p:x/y", "p://x"])
        if x < .77:
            return self.c(TERMS)
        if x < .81:
            return key if key else "a"
        return self.c(["@id", "@type", "@graph", "@value", "@language", "@list", "@index", "@reverse", "@set", "@nest", "@included",
                       "@direction", "@none", "@foo", "@json", "@context", "_:b1", "rel", "x y", "", "rel/x", "@container", "../u"])

    def scalar_def(self, key):
        return None if self.p(.08) else self.idval(key)

    def expdef(self, key, depth):
        d = []
        if self.p(.03):
            d.append(("@reverse", self.idval(key)))
            if self.p(.4):
                d.append(("@container", self.c(["@set", "@index", None, "@list", "@id", ["@set"], ["@index"], ["@set", "@index"]])))
            if self.p(.15):
                d.append(("@nest", "@nest"))
        elif self.p(.15):
            d.append(("@reverse", self.c(IRIS[:2])))
            if self.p(.4):
                d.append(("@container", self.c(["@set", "@index", None])))
            if self.p(.1):
                d.append(("@id", self.idval(key)))
        else:
            if self.p(.75):
                d.append(("@id", None if self.p(.06) else self.idval(key)))
            if self.p(.45):
                c = self.c(CONTAINERS) if self.p(.93) else self.c(BADCONTAINERS)
                d.append(("@container", c))
        if self.p(.35):
            d.append(("@type", self.c(["@id", "@vocab", "@json", "@none", "a", "p:x", "http://ex.org/T", "b", "q:y", "@foo", "_:b", "rel", None, "@value"])
                      if self.p(.6) else self.c(["@id", "@vocab", "@json", "@none", "http://ex.org/T"])))
        if self.p(.15):
            d.append(("@language", self.c(["en", "EN-us", None, "fr", "x_y", "1"])))
        if self.p(.12):
            d.append(("@direction", self.c(["ltr", "rtl", None, "rtl", "up"] if self.p(.3) else ["ltr", "rtl", None])))
        if any(k == "@container" and v and isinstance(v, (str, list)) and "@index" in v for k, v in d) and self.p(.5) or self.p(.02):
            d.append(("@index", self.c(["a", "p:x", "http://ex.org/i", "b", "c", "@id", "rel", "_:b", "q:z"])))
        if self.p(.08):
            d.append(("@nest", self.c(["@nest", "n", "a", "b", "@id"])))
        if self.p(.1):
            d.append(("@prefix", self.c([True, False])))
        if self.p(.22):
            d.append(("@protected", self.c([True, True, False])))
        if depth > 0 and self.p(.22):
            d.append(("@context", self.ctx(depth - 1)))
        if self.p(.02):
            d.append(self.c([("@propagate", True), ("@foo", 1), ("@value", "x"), ("x", "y"), ("@index", 1), ("@type", 1), ("@id", 1),
                             ("@prefix", "x"), ("@protected", "x"), ("@nest", 1), ("@reverse", None), ("@language", 1), ("@direction", 1),
                             ("@container", True), ("@context", 1), ("@version", 1.1), ("@set", [])]))
        self.r.shuffle(d)
        seen = {}
        for k, v in d:
            seen.setdefault(k, v)
        return seen

    def definition(self, depth, import_ok=True, n=None):
        d = {}
        ents = []
        if self.p(.08):
            ents.append(("@base", self.c([None, "http://z.example/z/", "sub/", "../up", "?q", "", "//h/x", "#f", "a:b", "x y", "/abs"])))
        if self.p(.55):
            ents.append(("@vocab", self.c(["http://ex.org/v/", "http://ex.org/v#", None, "", "#", "p:", "a", "http://w.org/", "rel/", "/x", "_:vv", "p:v#"])
                         if self.p(.25) else "http://ex.org/v/"))
        if self.p(.12):
            ents.append(("@language", self.c(["en", "fr-CA", None, "EN", "x_y"])))
        if self.p(.08):
            ents.append(("@direction", self.c(["ltr", "rtl", None])))
        if self.p(.08):
            ents.append(("@propagate", self.c([True, False, False])))
        if self.p(.14):
            ents.append(("@protected", self.c([True, True, False])))
        if self.p(.05):
            ents.append(("@version", 1.1))
        if import_ok and self.p(.1):
            ents.append(("@import", self.c(REFS)))
        if self.p(.08):
            t = {"@container": "@set"}
            if self.p(.5):
                t["@protected"] = self.p(.6)
            ents.append(("@type", t if self.p(.93) else self.c([{}, {"@container": "@list"}, "x", {"@container": "@set", "@id": "x"}, {"@protected": True}, None])))
        if self.p(.012):
            ents.append(self.c([("@base", 1), ("@vocab", True), ("@language", 1), ("@direction", "up"), ("@propagate", "x"), ("@protected", 1),
                                ("@version", "1.1"), ("@version", 1.0), ("@import", 1), ("@import", None), ("@base", {}), ("@vocab", []),
                                ("@id", "x"), ("@graph", "a"), ("@value", {"@id": "x"}), ("@context", {}), ("@set", None),
                                ("t", 1), ("t", ["x"]), ("t", True)]))
        k = n if n is not None else self.c([0, 1, 1, 2, 2, 3, 3, 4, 5])
        for _ in range(k):
            t = self.term()
            if t == "@type":
                continue
            ents.append((t, self.scalar_def(t) if self.p(.45) else self.expdef(t, depth)))
        if self.p(.35):
            ents.append(("p", self.c(["http://ex.org/p#", "http://ex.org/p/", {"@id": "http://ex.org/p", "@prefix": True}, "http://ex.org/nop"])))
        self.r.shuffle(ents)
        for kk, v in ents:
            d.setdefault(kk, v)
        return d

    def entry(self, depth):
        x = self.r.random()
        if x < .8:
            return self.definition(depth)
        if x < .88:
            return None
        if x < .99:
            return self.c(REFS)
        return self.c([1, True, "x y", [], [[]]])

    def ctx(self, depth):
        if self.p(.75):
            return self.entry(depth)
        return [self.entry(depth) for _ in range(self.c([0, 1, 2, 2, 3]))]

    def remotes(self):
        out = []
        for u in REMOTE:
            if self.p(.15):
                continue
            x = self.r.random()
            if x < .86:
                d = {"@context": self.definition(1, import_ok=self.p(.1)) if self.p(.7) else self.ctx(1)}
                if self.p(.1):
                    d["other"] = 1
            else:
                d = self.c([{}, [], "s", {"@context": None}, {"@context": 3}, {"@context": [None, "r2"]}, {"@context": {"a": 5}},
                            {"@context": {"@import": "r1"}}, {"@context": "r2"}, [{"@context": {}}]])
            e = [u, d]
            if self.p(.1):
                e.append("http://r.example/redir/x")
            out.append(e)
        return out

    def chain(self):
        """Focused: a protected context followed by contexts that repeat or alter it."""
        import copy
        first = self.definition(1, n=self.c([1, 2]))
        first["@protected"] = True
        seq = [first]
        for _ in range(self.c([1, 2, 3])):
            nxt = copy.deepcopy(self.c([s for s in seq if s is not None]))
            x = self.r.random()
            keys = [k for k in nxt if not k.startswith("@")]
            if x < .4 and keys:
                k = self.c(keys)
                v = nxt[k]
                if isinstance(v, dict):
                    kk = self.c(["@protected", "@id", "@type", "@container", "@language", "@direction", "@nest", "@prefix", "@index", "@context"])
                    v[kk] = self.expdef(k, 1).get(kk, self.c([True, "http://ex.org/a", None]))
                else:
                    nxt[k] = self.scalar_def(k) if self.p(.5) else self.expdef(k, 1)
            elif x < .5 and keys:
                del nxt[self.c(keys)]
            elif x < .6:
                nxt["@protected"] = False
            elif x < .7:
                nxt = None
            elif x < .8:
                nxt["@vocab"] = self.c(["http://w.org/", None])
            seq.append(nxt)
        return seq

    def ctx_case(self):
        case = {"op": "ctx", "base": self.c(BASE)}
        if self.p(.07):
            case["mode"] = "1.0"
        if self.p(.03):
            del case["base"]
        n = self.c([1, 1, 2, 2, 3])
        cs = [self.ctx(2) for _ in range(n)] if self.p(.75) else self.chain()
        steps = []
        for c in cs:
            s = {"c": c}
            if self.p(.15):
                s["propagate"] = False
            if self.p(.12):
                s["override"] = True
            if self.p(.9):
                s["curl"] = self.c(BASE)
            steps.append(s)
        case["ctxs"] = steps
        case["remote"] = self.remotes()
        case["continue"] = True
        return case


    def chain_case(self):
        case = {"op": "ctx", "base": BASE[0], "remote": self.remotes() if self.p(.2) else [], "continue": True}
        steps = []
        for c in self.chain():
            s = {"c": c, "curl": BASE[0]}
            if self.p(.1):
                s["override"] = True
            if self.p(.1):
                s["propagate"] = False
            steps.append(s)
        case["ctxs"] = steps
        return case

    def remote_case(self):
        """Focused: references, imports and a store in which contexts refer to each other."""
        def small():
            d = {t: self.c(IRIS[:3]) for t in self.r.sample(TERMS, self.c([0, 1, 2]))}
            if self.p(.2):
                d["@base"] = self.c([None, "http://z.example/z/", "sub/", "../up"])
            if self.p(.2):
                d["@protected"] = True
            if self.p(.2):
                d["s"] = {"@id": IRIS[0], "@context": self.c(REFS)}
            if self.p(.2):
                d["@import"] = self.c(REFS)
            if self.p(.1):
                d["@propagate"] = False
            return d

        def entry():
            x = self.r.random()
            return self.c(REFS) if x < .55 else small() if x < .97 else None

        def ctx():
            return entry() if self.p(.6) else [entry() for _ in range(self.c([1, 2, 3]))]
        store = []
        for u in REMOTE + ["http://a.example/d/s/r4", "http://a.example/d/r1", "http://a.example/d/r3"]:
            if self.p(.12):
                continue
            x = self.r.random()
            d = {"@context": ctx()} if x < .7 else {"@context": small()} if x < .93 else self.c([{}, [], 1, {"@context": 1}, {"a": {}}])
            e = [u, d]
            if self.p(.15):
                e.append(self.c(["http://r.example/redir/x", "http://c.example/s/moved", u + "/"]))
            store.append(e)
        steps = []
        for _ in range(self.c([1, 1, 2])):
            s = {"c": ctx()}
            if self.p(.93):
                s["curl"] = self.c(BASE)
            if self.p(.15):
                s["override"] = True
            steps.append(s)
        case = {"op": "ctx", "base": self.c(BASE), "ctxs": steps, "remote": store, "continue": True}
        if self.p(.05):
            case["mode"] = "1.0"
        return case


def generate(seed, n):
    g = G(seed)
    return [g.ctx_case() for _ in range(n)]


if __name__ == "__main__":
    import json
    import sys
    for c in generate(int(sys.argv[1]), int(sys.argv[2])):
        print(json.dumps(c))
