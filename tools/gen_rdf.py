"""Seeded generator of documents rich in shared identifiers, graphs, lists and literals (mostly in expanded form)."""
import random

V = "http://ex.org/v/"
XSD = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
IDS = ["_:x", "_:y", "_:z", "_:b0", "_:b1", "http://ex.org/n1", "http://ex.org/n2", "n3", "", "_:x", "_:y"]
BAD = ["http://bad iri/", "x y", "_:"]
PROPS = [V + "a", V + "b", V + "c", "_:p", "_:x", V + "a", V + "b", RDF + "value", V + "d e"]
TYPES = [V + "T", V + "U", "_:t", "_:x", "rel", "http://bad type/ ", "http://ex.org/n1"]
STRS = ["v", "w", "", "x\n\"y\\", "\u00e9\u4e16", "true", "1", "http://ex.org/n1", "_:x", "\t \r"]
LANGS = ["en", "fr", "en-US", "EN-us", "de-Latn-DE", "x", "en-", "not a tag", "e1", "en-a-b-ccc", "abcdefghi", "zh-cmn-Hans-CN", "sl-rozaj-biske-1994", "x-a-b", "de-419-DE",
         "en-u-ca-x-1", "en-x", "en-x-a", "en-us-gb", "abcd-abc", "en-1996", "en-199", "en-19", "en-u-a", "fr--ca", "en_US", "e", "en-abcdefghi", "hy-Latn-IT-arevela"]
NUMS = [0, 1, -5, 1.0, -0.0, 2.5, -0.5, 100, 1e20, 1e21, 1e22, 123456789012, 0.1, 1e-6, 1e-7, 123.456, -1e30, 5e-324, 1.5e300, 10000000000.5, 99999999999999, 4503599627370497]
DTS = [XSD + "string", XSD + "integer", XSD + "double", XSD + "boolean", XSD + "decimal", V + "D", RDF + "langString", XSD + "float"]


class R:
    def __init__(self, seed, only=None):
        self.r = random.Random(seed)
        self.only = only

    def p(self, x):
        return self.r.random() < x

    def c(self, xs):
        return self.r.choice(xs)

    def few(self, f, ws=(0, 1, 1, 2, 2, 3)):
        return [f() for _ in range(self.c(ws))]

    def json(self, d):
        x = self.r.random()
        if d == 0 or x < .4:
            return self.c([None, True, False, [], {}] + NUMS + STRS)
        if x < .7:
            return self.few(lambda: self.json(d - 1))
        return {k: self.json(d - 1) for k in self.r.sample(["x", "y", "@id", "", "a b", "\u00e9", "X", "x1"], self.c([0, 1, 2, 3, 4]))}

    def literal(self):
        x = self.r.random()
        if x < .3:
            o = {"@value": self.c(STRS)}
        elif x < .45:
            o = {"@value": self.c(NUMS)}
        elif x < .5:
            o = {"@value": self.p(.5)}
        elif x < .6:
            return {"@type": "@json", "@value": self.json(2)}
        elif x < .75:
            o = {"@value": self.c(STRS + NUMS + [True, False]), "@type": self.c(DTS)}
        else:
            o = {"@value": self.c(STRS)}
            if self.p(.75):
                o["@language"] = self.c(LANGS)
            if self.p(.6):
                o["@direction"] = self.c(["ltr", "rtl"])
        if self.p(.04):
            o["@index"] = self.c(["i", "j"])
        return o

    def lst(self, d):
        o = {"@list": self.few(lambda: self.item(d - 1))}
        if self.p(.04):
            o["@index"] = "i"
        return o

    def ident(self):
        return self.c(IDS) if self.p(.95) else self.c(BAD)

    def item(self, d):
        x = self.r.random()
        if self.only == "literals" and x < .8:
            return self.literal() if x < .6 else self.lst(0)
        if self.only == "lists" and d > 0 and x < .8:
            return self.lst(d)
        if d <= 0 or x < .35:
            return self.literal() if self.p(.6) else {"@id": self.ident()}
        if x < .55:
            return self.lst(d)
        return self.node(d - 1)

    def node(self, d):
        o = {}
        if self.p(.65):
            o["@id"] = self.ident()
        if self.p(.3):
            o["@type"] = self.few(lambda: self.c(TYPES), (0, 1, 1, 2, 3))
        for _ in range(self.c([0, 1, 1, 2])):
            o[self.c(PROPS)] = self.few(lambda: self.item(d))
        if self.p(.12):
            o["@reverse"] = {self.c(PROPS): self.few(lambda: self.node(d - 1)) for _ in range(self.c([1, 1, 2]))}
        if d > 0 and self.p(.2):
            o["@graph"] = self.few(lambda: self.node(d - 1) if self.p(.95) else self.lst(d))
        if d > 0 and self.p(.1):
            o["@included"] = self.few(lambda: self.node(d - 1), (1, 2))
        if self.p(.06):
            o["@index"] = self.c(["i", "i", "i", "j"])
        ks = list(o)
        self.r.shuffle(ks)
        return {k: o[k] for k in ks}

    def case(self):
        e = {"op": "rdf", "doc": self.few(lambda: self.node(self.c([1, 2, 2, 3])), (1, 1, 1, 2, 3))}
        if self.p(.7):
            e["base"] = "http://a.example/d/doc"
        return e
