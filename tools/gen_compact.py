"""Seeded generator of compactions: a document, and a context that is the document's, a variation of it, or another one;
and documents in expanded form with contexts that have many terms for few properties."""
import json

from gen_ctx import BASE
from gen_doc import ALIASES, CONTS, D, V

PROPS = [V + "p1", V + "p2"]
TYS = [V + "T", V + "U", "http://ex.org/t/W"]
XIDS = ["http://a.example/d/x", "http://a.example/d/doc", "http://a.example/", "http://a.example/d/a:b", "http://a.example/d/@type",
        "http://a.example/d/@foo", "http://a.example/e//f", "http://a.example", V + "n", V + "T", "_:x", "_:y", "urn:z:1", "p:n", "http://c.example/"]
LS = ["en", "EN", "fr", "en-US"]


class K(D):
    def variation(self, c):
        """The same definitions, some of them replaced, dropped or shared."""
        if not isinstance(c, dict):
            return self.lctx(1)
        o = dict(c)
        other = self.lctx(2)
        for t in list(other):
            if self.p(.4):
                o[t] = other[t]
        for t in list(o):
            if self.p(.12):
                del o[t]
            elif self.p(.1) and isinstance(o[t], dict) and "@id" in o[t]:
                # another term for the same property
                o[t + "2"] = {k: v for k, v in self.tdef(1).items() if k not in ("@id", "@reverse")} | {"@id": o[t]["@id"]}
        return o

    # documents in expanded form
    def xval(self):
        v = {}
        x = self.r.random()
        if x < .25:
            v["@value"] = self.c(["v", "w", "", "http://ex.org/n"])
        elif x < .5:
            v["@value"] = self.c(["v", "w", ""])
            if self.p(.7):
                v["@language"] = self.c(LS)
            if self.p(.35):
                v["@direction"] = self.c(["ltr", "rtl"])
        elif x < .65:
            v["@value"] = self.c([1, 1.5, True, False, -3])
            if self.p(.2):
                v["@type"] = V + "D"
        elif x < .85:
            v["@value"] = self.c(["v", "w"])
            v["@type"] = self.c([V + "D", V + "E", V + "p1"])
        else:
            v["@value"] = self.c([{"x": 1}, [1, "a"], "s", None, True, []])
            v["@type"] = "@json"
        return v

    def xitem(self, depth, inlist=False):
        x = self.r.random()
        if x < .45:
            v = self.xval()
        elif x < .6:
            v = {"@id": self.c(XIDS)}
        elif x < .72 and (depth > 0 or inlist):
            like = self.p(.5)
            if like:
                one = self.xitem(0, True)
                v = {"@list": [one if self.p(.7) else dict(one) | ({"@value": "z"} if "@value" in one and one.get("@type") != "@json" else {}) for _ in range(self.c([1, 2, 3]))]}
            else:
                v = {"@list": [self.xitem(depth - 1, True) for _ in range(self.c([0, 1, 2, 3]))]} if depth > 0 else {"@list": []}
        elif x < .82 and depth > 0:
            v = {"@graph": [self.xnode(depth - 1) for _ in range(self.c([0, 1, 1, 2]))]}
            if self.p(.4):
                v["@id"] = self.c(XIDS)
            if self.p(.1):
                v[self.c(PROPS)] = [self.xval()]
        elif depth > 0:
            v = self.xnode(depth - 1)
        else:
            v = {"@id": self.c(XIDS)}
        if self.p(.25) and not inlist:
            v["@index"] = self.c(["i", "j", "@none", "en", "T"])
        return v

    def xprops(self, depth):
        n = {}
        for p in PROPS + [V + "ix", "http://ex.org/q"]:
            if self.p(.45 if p in PROPS else .15):
                n[p] = [self.xitem(depth) for _ in range(self.c([0, 1, 1, 1, 2, 2, 3, 4]))]
        return n

    def xnode(self, depth):
        n = self.xprops(depth)
        if self.p(.45):
            n["@id"] = self.c(XIDS)
        if self.p(.4):
            n["@type"] = [self.c(TYS) for _ in range(self.c([1, 1, 2, 3]))]
        if self.p(.1):
            n["@index"] = self.c(["i", "j"])
        if self.p(.15):
            n["@reverse"] = {self.c([V + "r1"] + PROPS): [self.xnode(depth - 1) if depth > 0 else {"@id": self.c(XIDS)} for _ in range(self.c([1, 1, 2]))]}
        if depth > 0 and self.p(.07):
            n["@included"] = [self.xnode(depth - 1) for _ in range(self.c([1, 2]))]
        if depth > 0 and self.p(.07):
            n["@graph"] = [self.xnode(depth - 1) for _ in range(self.c([0, 1, 2]))]
        return n

    def xdef(self, depth):
        d = {"@id": self.c(PROPS) if self.p(.85) else self.c([V + "ix", "http://ex.org/q"])}
        if self.p(.06):
            d = {"@reverse": self.c([V + "r1"] + PROPS)}
            if self.p(.4):
                d["@container"] = self.c(["@set", "@index"])
            if self.p(.3):
                d["@type"] = self.c(["@id", "@vocab"])
            return d
        c = self.c(CONTS) if self.p(.6) else None
        if c is not None:
            d["@container"] = c
        cs = c if isinstance(c, list) else [c]
        if self.p(.35):
            d["@type"] = self.c(["@id", "@vocab"] if "@type" in cs else ["@id", "@vocab", "@json", "@json", "@none", V + "D", V + "E"])
        else:
            if self.p(.3):
                d["@language"] = self.c(["en", "fr", "EN", None])
            if self.p(.2):
                d["@direction"] = self.c(["ltr", "rtl", None])
        if "@index" in cs and "@graph" not in cs and self.p(.3):
            d["@index"] = self.c([V + "ix", "p:ix", "a", "ix"])
        if self.p(.07):
            d["@nest"] = self.c(["@nest", "nst"])
        if depth > 0 and self.p(.12):
            d["@context"] = self.xctx(depth - 1, .3) if self.p(.9) else None
        return d

    def xctx(self, depth, dens):
        c = {}
        if self.p(.3 if dens > .5 else .1):
            c["@vocab"] = self.c([V, V, "http://ex.org/", "http://ex.org/v/p"])
        if self.p(.15):
            c["@language"] = self.c(["en", "fr", None])
        if self.p(.1):
            c["@direction"] = self.c(["ltr", "rtl", None])
        if self.p(.06):
            c["@base"] = self.c(["http://a.example/", "http://a.example/d/", "sub/", None, "http://a.example/d/doc?x"])
        for t in "abcdefg":
            if self.p(dens):
                c[t] = self.xdef(depth)
        if self.p(.2):
            c["ix"] = V + "ix"
        for t in ("T", "U", "W"):
            if self.p(.35):
                c[t] = {"@id": self.c(TYS) if self.p(.5) else {"T": TYS[0], "U": TYS[1], "W": TYS[2]}[t]}
                if depth > 0 and self.p(.6):
                    c[t]["@context"] = self.xctx(depth - 1, .3)
                    if self.p(.25):
                        c[t]["@context"]["@propagate"] = self.p(.6)
        if self.p(.3):
            c["p"] = self.c(["http://ex.org/", V, V + "p", {"@id": V, "@prefix": True}, {"@id": V + "p", "@prefix": True}, "http://ex.org/v#"])
        if self.p(.12):
            c["q"] = self.c([V, "http://ex.org/"])
        if self.p(.08):
            c[self.c(["urn", "http", "p:1", "p1", "q:n"])] = self.c([V, V + "p1", "http://ex.org/z/"])
        for a in sorted(ALIASES):
            if self.p(.04):
                c[a] = ALIASES[a]
        if self.p(.04):
            c["@type"] = {"@container": "@set"}
        if self.p(.02):
            c["type"] = {"@id": "@type", "@container": "@set"}
        return c

    def xcase(self):
        e = {"op": "compact", "doc": [self.xnode(self.c([0, 1, 1, 2])) for _ in range(self.c([1, 1, 1, 2]))], "ctx": self.xctx(2, .55)}
        if self.p(.85):
            e["base"] = self.c(BASE)
        if self.p(.2):
            e["compactArrays"] = False
        if self.p(.06):
            e["mode"] = "1.0"
        return e

    def kcase(self):
        if self.p(.55):
            return self.xcase()
        e = self.case("compact", self.c([1, 2, 2, 3]))
        e.pop("ordered", None)
        own = e["doc"].get("@context") if isinstance(e["doc"], dict) else None
        x = self.r.random()
        if own is not None and x < .5:
            ctx = own
        elif own is not None and x < .75:
            ctx = self.variation((own[-1] if own else {}) if isinstance(own, list) else own)
        elif x < .96:
            ctx = self.lctx(2)
        else:
            ctx = self.c([None, {}, [], [{}], [None]])
        e["ctx"] = ctx
        if self.p(.2):
            e["compactArrays"] = False
        if self.p(.15):
            e["compactToRelative"] = False
        if not e.get("base") and not e.get("url") and self.p(.7):
            e["base"] = BASE[0]
        if any(r in json.dumps(e["ctx"]) for r in ("http://r.example", "@import")) and "remote" not in e:
            e["remote"] = self.remotes()
        return e


if __name__ == "__main__":
    import sys
    g = K(int(sys.argv[1]))
    for _ in range(int(sys.argv[2])):
        print(json.dumps(g.xcase() if len(sys.argv) > 3 else g.kcase()))
