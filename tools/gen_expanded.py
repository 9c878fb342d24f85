"""Random expanded documents, as JSON text, sometimes blemished."""
import json
import random

from gen_compare import NUMS

IRIS = ["http://e/a", "http://e/b", "_:b0", "_:x", "urn:z:1", "http://e/a#f", "rel", "", "not an iri", "http://[bad", "_:", "HTTP://E/a", "http://e/%61"]
PROPS = ["http://e/p", "http://e/q", "_:p", "urn:z:p", "http://e/pp"]
STRAY = [("@index", '"i"'), ("http://e/z", "[]"), ("@value", "1"), ("@id", '"http://e/z"'), ("@list", "[]"), ("@type", '"http://e/T"'), ("@type", '["http://e/T"]'),
         ("@language", '"en"'), ("@direction", '"rtl"'), ("@set", "[]"), ("@context", "{}"), ("@graph", "[]"), ("@foo", "[]"), ("@reverse", "{}"), ("@included", "[]"), ("", "[]"),
         ("@index", "null"), ("@none", "[]")]


class E:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.blemish = 0

    def obj(self, entries):
        r = self.r
        entries = list(entries)
        if r.random() < self.blemish:
            entries.append(r.choice(STRAY))
        if entries and r.random() < self.blemish:
            entries.append((r.choice(entries)[0], r.choice(["[]", '"x"', "1", "{}"])))
        r.shuffle(entries)
        return "{" + ",".join(json.dumps(k) + ":" + v for k, v in entries) + "}"

    def arr(self, items):
        items = list(items)
        if self.r.random() < self.blemish:
            return self.r.choice(['"x"', "null", "{}", "[[]]", '["x"]', "1"]) if not items or self.r.random() < .5 else items[0]
        return "[" + ",".join(items) + "]"

    def string(self):
        return json.dumps(self.r.choice(["a", "", "x\"y\\", "\u00e9", "line\n", "@id", "http://e/a", "0"]))

    def iri(self, k=9):
        return json.dumps(self.r.choice(IRIS[:5] if self.r.random() < .8 else IRIS))

    def any(self, depth=2):
        r = self.r
        k = r.random()
        if depth and k < .25:
            return "[" + ",".join(self.any(depth - 1) for _ in range(r.randrange(3))) + "]"
        if depth and k < .5:
            return "{" + ",".join(json.dumps(x) + ":" + self.any(depth - 1) for x in r.sample(["b", "a", "@id", "@value", ""], r.randrange(3))) + "}"
        return r.choice(["null", "true", "false", self.string(), json.dumps(r.choice(NUMS)), "1.50", "1E2", "-0"])

    def index(self):
        return [("@index", self.string())] if self.r.random() < .2 else []

    def value(self):
        r = self.r
        k = r.random()
        if k < .15:
            es = [("@value", self.any()), ("@type", '"@json"')]
        elif k < .4:
            es = [("@value", self.string())]
            if r.random() < .8:
                es.append(("@language", json.dumps(r.choice(["en", "EN", "fr-CA", "x y", "", "en_US", "i-klingon"]))))
            if r.random() < .4:
                es.append(("@direction", r.choice(['"ltr"', '"rtl"'])))
        else:
            es = [("@value", r.choice([self.string(), "true", "false", json.dumps(r.choice(NUMS)), "1.50", "1E2"]))]
            if r.random() < .4:
                es.append(("@type", r.choice(['"http://e/T"', '"urn:z:T"', '"http://e/\u00e9"', self.iri()])))
        return self.obj(es + self.index())

    def node(self, depth):
        r = self.r
        es = []
        if r.random() < .6:
            es.append(("@id", self.iri()))
        if r.random() < .3:
            es.append(("@type", self.arr(self.iri() for _ in range(r.randrange(3)))))
        if depth:
            if r.random() < .12:
                es.append(("@graph", self.arr(self.node(depth - 1) for _ in range(r.randrange(3)))))
            if r.random() < .12:
                es.append(("@included", self.arr(self.node(depth - 1) for _ in range(r.randrange(3)))))
            if r.random() < .15:
                es.append(("@reverse", self.obj((p, self.arr(self.node(depth - 1) for _ in range(r.randrange(3)))) for p in r.sample(PROPS, r.randrange(3)))))
            for p in r.sample(PROPS, r.randrange(3)):
                es.append((p, self.arr(self.item(depth - 1) for _ in range(r.randrange(3)))))
        return self.obj(es + self.index())

    def item(self, depth):
        r = self.r
        k = r.random()
        if k < .45:
            return self.value()
        if depth and k < .6:
            return self.obj([("@list", self.arr(self.item(depth - 1) for _ in range(r.randrange(3))))] + self.index())
        return self.node(depth)

    def case(self):
        self.blemish = self.r.choice([0, 0, .03, .1])
        return {"op": "expjson", "texts": {"doc": self.arr(self.node(self.r.randint(1, 3)) for _ in range(self.r.randint(0, 3)))}}
