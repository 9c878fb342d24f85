"""Seeded generator of JSON-LD documents: mostly valid ones over a coherent context, with mutations."""
import json

from gen_ctx import BASE, G, REFS

V = "http://ex.org/v/"
CONTS = [None, "@set", "@list", "@index", "@language", "@id", "@type", "@graph",
         ["@graph", "@id"], ["@graph", "@index"], ["@index", "@set"], ["@language", "@set"], ["@id", "@set"],
         ["@type", "@set"], ["@graph", "@set"], ["@graph", "@id", "@set"], ["@graph", "@index", "@set"]]
ALIASES = {"id": "@id", "type": "@type", "val": "@value", "lang": "@language", "grp": "@graph", "lst": "@list",
           "set": "@set", "rev": "@reverse", "idx": "@index", "inc": "@included", "nst": "@nest", "dir": "@direction", "non": "@none",
           "kind": "@type", "mem": "@included", "grf": "@graph", "rvs": "@reverse", "nes": "@nest"}
NAMES = ["a", "b", "c", "d", "e", "f"]
TYPES = ["T", "U", "W"]
IDS = ["http://ex.org/n1", "http://ex.org/n2", "_:x", "_:y", "n3", "#frag", "../n4", "p:n5", "", "?q", "T", "a", "urn:z:1", "_:b0",
       "http://a.example/d/n6", "//h.example/n7"]
STRS = ["v", "w", "x y", "1", "http://ex.org/n1", "_:x", "a", "", "p:n5", "@foo", "T", "true"]
LANGS = ["en", "fr", "en-US", "de", "x_y"]
KEYS = ["@none", "k1", "k2", "http://ex.org/n1", "_:x", "n3", "T", "U", "non", "en", "fr", "a"]


class D(G):
    """Contexts, then documents that mostly fit them."""
    vocab = False

    def tdef(self, depth, reverse_ok=True):
        d = {}
        x = self.r.random()
        if reverse_ok and x < .07:
            d["@reverse"] = self.c([V + "r1", V + "r2", "p:r3"])
            c = self.c([None, None, "@set", "@index"])
            if c:
                d["@container"] = c
            if self.p(.3):
                d["@type"] = self.c(["@id", "@vocab"])
            return d
        if self.p(.7 if self.vocab else .97):
            d["@id"] = self.c([V + "p1", V + "p2", "p:p3", V + "p4", "http://ex.org/n1", "_:bp"] if self.p(.25) else [V + "p1", V + "p2", "p:p3"])
        c = self.c(CONTS) if self.p(.65) else None
        if c is not None:
            d["@container"] = c
        cs = c if isinstance(c, list) else [c]
        if self.p(.4):
            ty = self.c(["@id", "@vocab", "@json", "@none", V + "D", "p:D2", "http://www.w3.org/2001/XMLSchema#integer"])
            if "@type" in cs and ty not in ("@id", "@vocab"):
                ty = "@id"
            d["@type"] = ty
        else:
            if self.p(.2):
                d["@language"] = self.c(["en", "fr", None])
            if self.p(.15):
                d["@direction"] = self.c(["ltr", "rtl", None])
        if "@index" in cs and "@graph" not in cs and self.p(.45):
            d["@index"] = self.c([V + "ix", "p:ix", "a", "b", "c"])
        if "@index" in cs and "@graph" in cs and self.p(.1):
            d["@index"] = V + "ix"
        if self.p(.08):
            d["@nest"] = self.c(["@nest", "nst"])
        if depth > 0 and self.p(.2):
            d["@context"] = self.scoped(depth - 1)
        if self.p(.05):
            d["@protected"] = True
        return d

    def scoped(self, depth):
        if self.p(.1):
            return None
        c = self.lctx(depth, top=False)
        if self.p(.15):
            c["@propagate"] = self.p(.5)
        return c if self.p(.85) else [c] if self.p(.5) else [c, self.lctx(0, top=False)]

    def lctx(self, depth, top=True):
        c = {}
        if top:
            self.vocab = False
        if self.p(.85 if top else .15):
            self.vocab = True
            c["@vocab"] = V if self.p(.9) else self.c([None, "", "#", "p:", "_:v"])
        if self.p(.8 if top else .1):
            c["p"] = self.c(["http://ex.org/p#", "http://ex.org/p/"])
        if self.p(.1):
            c["@language"] = self.c(["en", "fr", None])
        if self.p(.08):
            c["@direction"] = self.c(["ltr", "rtl", None])
        if self.p(.07):
            c["@base"] = self.c(["http://z.example/z/", "sub/", None])
        for t in self.r.sample(NAMES, self.c([1, 2, 3, 4] if top else [0, 1, 2])):
            x = self.r.random()
            if x < .8:
                c[t] = self.tdef(depth)
            elif x < .95:
                c[t] = self.c([V + "p1", V + "p2", "p:p3"])
            else:
                c[t] = None
        for t in self.r.sample(TYPES, self.c([0, 1, 1, 2] if top else [0, 0, 1])):
            if self.p(.75) and depth > 0:
                c[t] = {"@id": V + t, "@context": self.scoped(depth - 1)}
            else:
                c[t] = V + t
        for k in self.r.sample(sorted(ALIASES), self.c([0, 0, 1, 2, 4] if top else [0, 0, 0, 1])):
            c[k] = ALIASES[k]
        if top and self.p(.05):
            c["@protected"] = True
        ks = list(c)
        self.r.shuffle(ks)
        return {k: c[k] for k in ks}

    # -- values ------------------------------------------------------------------
    def kw(self, env, k):
        al = [a for a, v in env.items() if v == k]
        return self.c(al) if al and self.p(.6) else k

    def scalar(self):
        x = self.r.random()
        if x < .55:
            return self.c(STRS)
        if x < .7:
            return self.c([1, 0, -5, 1.5, 1e30, 2.0, 100])
        if x < .8:
            return self.p(.5)
        if x < .87:
            return None
        return self.c(IDS)

    def value_object(self, env):
        o = {self.kw(env, "@value"): self.c(STRS) if self.p(.6) else self.scalar()}
        x = self.r.random()
        if x < .25:
            o[self.kw(env, "@type")] = self.c([V + "D", "p:D2", "T", "http://www.w3.org/2001/XMLSchema#double", "D"])
        elif x < .45:
            o[self.kw(env, "@language")] = self.c(LANGS)
            if self.p(.3):
                o[self.kw(env, "@direction")] = self.c(["ltr", "rtl"])
        elif x < .5:
            o[self.kw(env, "@direction")] = self.c(["ltr", "rtl"])
        elif x < .58:
            o = {self.kw(env, "@value"): self.json(2), self.kw(env, "@type"): "@json"}
        if self.p(.1):
            o[self.kw(env, "@index")] = self.c(KEYS)
        if self.p(.03):
            o["undef"] = 1
        if self.p(.02):
            o["@context"] = self.lctx(0, top=False)
        if self.p(.015):
            o[self.c(["@id", "@list", "a", "@type", "@language", "@value", "val"])] = self.scalar()
        return self.shuf(o)

    def shuf(self, o):
        ks = list(o)
        self.r.shuffle(ks)
        return {k: o[k] for k in ks}

    def json(self, d):
        x = self.r.random()
        if d == 0 or x < .4:
            return self.c([None, True, 1, 1.5, "s", "", [], {}])
        if x < .7:
            return [self.json(d - 1) for _ in range(self.c([0, 1, 2]))]
        return {k: self.json(d - 1) for k in self.r.sample(["x", "y", "@id", "@value", "a"], self.c([0, 1, 2]))}

    def list_object(self, env, d):
        o = {self.kw(env, "@list"): self.items(env, None, d)}
        if self.p(.1):
            o["@index"] = "i"
        if self.p(.02):
            o[self.c(["@id", "@type", "a", "undef", "@context"])] = {} if self.p(.3) else "x"
        return o

    def set_object(self, env, d):
        o = {self.kw(env, "@set"): self.items(env, None, d)}
        if self.p(.1):
            o["@index"] = "i" if self.p(.9) else 1
        if self.p(.02):
            o[self.c(["@id", "@type", "a", "undef"])] = "x"
        return o

    def items(self, env, df, d):
        if self.p(.25):
            return self.one(env, df, d)
        return [self.one(env, df, d) if self.p(.95) else [self.one(env, df, d)] for _ in range(self.c([0, 1, 2, 2, 3]))]

    def one(self, env, df, d):
        """A value that is not a map by container."""
        ty = df.get("@type") if isinstance(df, dict) else None
        x = self.r.random()
        if ty in ("@id", "@vocab") and x < .5:
            return self.c(IDS)
        if d <= 0:
            return self.value_object(env) if x < .3 else self.scalar()
        if x < .38:
            return self.scalar()
        if x < .55:
            return self.value_object(env)
        if x < .6:
            return self.list_object(env, d - 1)
        if x < .64:
            return self.set_object(env, d - 1)
        return self.node(env, d - 1)

    def value(self, env, t, d):
        df = env.get(t)
        if d < 0:
            return self.one(env, df, d)
        if not isinstance(df, dict):
            return self.items(env, df, d)
        if df.get("@type") == "@json" and self.p(.8):
            return self.json(2)
        c = df.get("@container")
        cs = c if isinstance(c, list) else [c]
        inner = env
        sc = df.get("@context")
        if isinstance(sc, dict):
            inner = {**env, **sc}
        if self.p(.12) and not df.get("@reverse"):
            return self.items(inner, df, d)
        if "@language" in cs:
            return {k: self.lm() for k in self.r.sample(LANGS + ["@none", "non", "k1"], self.c([0, 1, 2, 3]))}
        if "@index" in cs or "@id" in cs or "@type" in cs:
            o = {}
            for k in self.r.sample(KEYS, self.c([0, 1, 1, 2, 3])):
                if df.get("@reverse"):
                    v = self.node(inner, d - 1)
                elif ("@id" in cs or "@type" in cs or df.get("@index")) and self.p(.93):
                    v = self.node(inner, d - 1) if self.p(.6) else [self.node(inner, d - 1) for _ in range(self.c([0, 1, 2]))]
                    if "@type" in cs and self.p(.2):
                        v = self.c(IDS)
                else:
                    v = self.items(inner, df, d - 1)
                o[k] = v
            return o
        if "@graph" in cs:
            return self.node(inner, d - 1) if self.p(.7) else [self.node(inner, d - 1) for _ in range(2)]
        if df.get("@reverse") and self.p(.95):
            return self.node(inner, d - 1) if self.p(.6) else [self.c(IDS), self.node(inner, d - 1)] if df.get("@type") else [self.node(inner, d - 1)]
        return self.items(inner, df, d)

    def lm(self):
        x = self.r.random()
        if x < .6:
            return self.c(STRS)
        if x < .9:
            return [self.c(STRS) if self.p(.85) else None for _ in range(self.c([0, 1, 2]))]
        return None if x < .96 else self.c([1, {}, [1]])

    def types(self):
        return self.c(TYPES + ["T", V + "X", "p:X", "rel", "_:t"]) if self.p(.985) else self.c(["@json", "@id", "id", "@none", "@foo", "@foo"])

    def node(self, env, d):
        o = {}
        if self.p(.12):
            c = self.lctx(1, top=False) if self.p(.9) else self.c([None, [], REFS[0], REFS[1], [None, {}]])
            o["@context"] = c
            if isinstance(c, dict):
                env = {**env, **c}
        if self.p(.45):
            o[self.kw(env, "@id")] = self.c(IDS)
        if self.p(.4):
            ts = self.types() if self.p(.6) else [self.types() for _ in range(self.c([0, 1, 2, 2]))]
            o[self.kw(env, "@type")] = ts
            # several entries may expand to @type
            k = self.kw(env, "@type")
            if k not in o and self.p(.6):
                o[k] = self.types()
                ts = (ts if isinstance(ts, list) else [ts]) + [o[k]]
            for t in ts if isinstance(ts, list) else [ts]:
                df = env.get(t)
                if isinstance(df, dict) and isinstance(df.get("@context"), dict):
                    env = {**env, **df["@context"]}
        names = [t for t in env if t in NAMES] or NAMES
        for _ in range(self.c([0, 1, 1, 2, 3] if d >= 0 else [0, 1])):
            x = self.r.random()
            t = self.c(names) if x < .8 else self.c(NAMES + ["undef", "p:q", V + "p1", "_:bp", "rel/x", "x:y", ""])
            o[t] = self.value(env, t, d)
        if d > 0 and self.p(.07):
            for k in sorted({self.kw(env, "@graph"), self.kw(env, "@graph")} if self.p(.3) else {self.kw(env, "@graph")}):
                o[k] = [self.node(env, d - 1) for _ in range(self.c([0, 1, 2]))] if self.p(.8) else self.items(env, None, d - 1)
        if d > 0 and self.p(.07):
            for k in sorted({self.kw(env, "@included"), self.kw(env, "@included")}):
                o[k] = [self.node(env, d - 1) for _ in range(self.c([1, 2]))] if self.p(.9) else self.items(env, None, 1)
        if d > 0 and self.p(.1):
            r = {}
            for _ in range(self.c([1, 1, 2])):
                t = self.c(names + [V + "r1"])
                r[t] = self.node(env, d - 1) if self.p(.93) else self.value(env, t, d - 1)
            if self.p(.04):
                r[self.c(["@id", "@type", "@context", "undef"])] = {} if self.p(.5) else "x"
            o[self.kw(env, "@reverse")] = r if self.p(.97) else "x"
            if self.p(.25):
                o[self.kw(env, "@reverse")] = {self.c(names + [V + "r1"]): self.node(env, d - 1)}
        if d > 0 and self.p(.08):
            n = {t: self.value(env, t, d - 1) for t in self.r.sample(names, min(len(names), self.c([1, 2])))}
            if self.p(.1):
                n["@nest"] = {self.c(names): self.scalar()}
            if self.p(.04):
                n[self.c(["@value", "@id", "@type", "@index"])] = "x"
            o[self.kw(env, "@nest")] = n if self.p(.75) else [n, {}] if self.p(.9) else "x"
            if self.p(.25):
                t = self.c(names)
                o[self.kw(env, "@nest")] = {t: self.value(env, t, d - 1)}
        if self.p(.06):
            o[self.kw(env, "@index")] = "i" if self.p(.93) else 1
        if self.p(.02):
            o[self.c(["@language", "@direction", "@list", "@set", "@value", "@id", "@type", "id", "type", "@none", "@base", "@json", "@vocab"])] = self.scalar()
        return self.shuf(o)

    def doc(self, d=3):
        env = {}
        c = None
        if self.p(.92):
            c = self.lctx(2)
            env = dict(c)
            if self.p(.12):
                c = [c, self.lctx(1, top=False)] if self.p(.7) else [self.c(REFS), c]
                if isinstance(c[1], dict):
                    env = {**env, **c[1]}
        x = self.r.random()
        if x < .75:
            o = self.node(env, d)
            if c is not None:
                o = {"@context": c, **{k: v for k, v in o.items() if k != "@context"}}
                if self.p(.15):
                    o = self.shuf(o)
            return o
        if x < .9:
            o = {"@graph": [self.node(env, d) for _ in range(self.c([0, 1, 2, 3]))]}
            if c is not None:
                o["@context"] = c
            if self.p(.1):
                o[self.c(["@id", "@index", "undef", "a"])] = self.c(IDS)
            return o
        return [self.doc(d) if self.p(.5) else self.node(env, d) for _ in range(self.c([0, 1, 2]))] if x < .98 else self.c([None, "x", 1, [], {}, [[]], {"@graph": []}, [None, "x"]])

    def case(self, op="expand", d=3):
        e = {"op": op, "doc": self.doc(d)}
        x = self.r.random()
        if x < .9:
            e["base"] = BASE[0] if self.p(.8) else self.c(BASE)
        if x > .8 and x < .97:
            e["url"] = self.c(BASE)
        if self.p(.05):
            e["mode"] = "1.0"
        if self.p(.1):
            e["ordered"] = True
        if "http" in json.dumps(e["doc"]) and any(r in json.dumps(e["doc"]) for r in REFS):
            e["remote"] = self.remotes()
        return e


def expand_cases(seed, n):
    g = D(seed)
    return [g.case() for _ in range(n)]


if __name__ == "__main__":
    import sys
    for c in expand_cases(int(sys.argv[1]), int(sys.argv[2])):
        print(json.dumps(c))
