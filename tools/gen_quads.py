"""Random RDF datasets, mostly made of list chains and their accidents."""
import random

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"
iri = lambda s: ["iri", s]
rdf = lambda s: iri(RDF + s)
bn = lambda s: ["bnode", "_:" + s]
lit = lambda v, dt=XSD + "string": ["lit", v, dt, ""]
lang = lambda v, t: ["lit", v, "@", t]
DEF = ["default"]

LITERALS = [
    lit("x"), lit(""), lit("x y"), lang("x", "en"), lang("x", "EN"), lang("x", "de-AT"),
    *[lit(v, XSD + "boolean") for v in ("true", "false", "1", "0", "TRUE", "yes", "")],
    *[lit(v, XSD + "integer") for v in ("0", "1", "-5", "42", "01", "+1", "-0", "1.0", "1e2", "x", "", " 1", "123456789012", "100000000000000000000")],
    *[lit(v, XSD + "double") for v in ("1.5E0", "1.0E0", "0.0E0", "-2.5E-3", "1.5", "1", "1e0", "1.50E0", "INF", "NaN", "-INF", "1.5e0", "x", "1.0E21")],
    *[lit(v, XSD + "decimal") for v in ("1.5", "1")], *[lit(v, XSD + "float") for v in ("1.5", "2")],
    *[lit(v, RDF + "JSON") for v in ("1", "null", "\"a\"", "[1,2]", "{\"a\":1}", "{\"a\":[true,null],\"b\":\"x\"}", "[]", "1.5")],
    lit("x", "http://v/dt"), lit("1", "http://v/dt"), lit("x", "https://www.w3.org/ns/i18n#en_ltr"), lit("x", RDF + "HTML"),
    lit("2020-01-01", XSD + "date"),
]
BADJSON = [lit(v, RDF + "JSON") for v in ("", "{", "x", "[1,]", "1 2")]


class Q:
    def __init__(self, seed):
        self.r = random.Random(seed * 7919 + 3)

    def dataset(self):
        r = self.r
        graphs = [DEF] + r.sample([iri("http://v/g"), bn("g"), iri("http://v/a"), bn("b")], r.choice([0, 0, 1, 1, 2]))
        nodes = [iri("http://v/a"), iri("http://v/b"), bn("a"), bn("b"), bn("c")]
        preds = [iri("http://v/p"), iri("http://v/q"), rdf("type")] + r.choice([[], [rdf("first"), rdf("rest")], [rdf("value"), rdf("direction"), rdf("language")], [bn("p")]])
        out, cells = [], []

        def term(extra=()):
            k = r.random()
            if k < .35:
                return r.choice(LITERALS)
            if k < .8 or not extra:
                return r.choice(nodes + [rdf("nil"), rdf("List")] if r.random() < .15 else nodes)
            return r.choice(list(extra))

        def chain(g, depth=0):
            n = r.choice([0, 1, 1, 2, 3])
            if n == 0:
                return rdf("nil")
            mine = []
            for _ in range(n):
                b = bn("l%d" % len(cells))
                cells.append(b)
                mine.append(b)
            for i, b in enumerate(mine):
                item = chain(g, depth + 1) if depth < 2 and r.random() < .2 else term(cells if r.random() < .1 else ())
                out.append([b, rdf("first"), item, g])
                out.append([b, rdf("rest"), mine[i + 1] if i + 1 < n else rdf("nil"), g])
                if r.random() < .15:
                    out.append([b, rdf("type"), rdf("List"), g])
            return mine[0]

        for _ in range(r.choice([0, 0, 1, 1, 2])):
            g = r.choice(graphs)
            head = chain(g)
            if r.random() < .9:
                out.append([r.choice(nodes), r.choice(preds), head, g])
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            s = r.choice(nodes if r.random() < .85 or not cells else cells)
            p = r.choice(preds)
            o = r.choice([iri("http://v/T"), bn("b"), iri("http://v/a"), rdf("List"), lit("T")]) if p[1] == RDF + "type" and r.random() < .8 else term(cells if r.random() < .15 else ())
            out.append([s, p, o, r.choice(graphs)])
        # accidents
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            if not out:
                break
            k = r.random()
            i = r.randrange(len(out))
            q = list(out[i])
            if k < .25:
                out.pop(i)
            elif k < .45:
                q[3] = r.choice(graphs)
                out[i] = q
            elif k < .65:
                q[2] = r.choice((cells or nodes) + [rdf("nil")])
                out.append(q)
            elif k < .8:
                q[1] = r.choice([rdf("first"), rdf("rest"), iri("http://v/p"), rdf("type")])
                out.append(q)
            elif k < .9 and cells:
                q[0] = r.choice(cells)
                out.append(q)
            else:
                q[3] = r.choice(cells or nodes)
                out[i] = q
        seen, res = set(), []
        for q in out:
            if repr(q) not in seen:
                seen.add(repr(q))
                res.append(q)
        r.shuffle(res)
        return res

    def case(self):
        qs = self.dataset()
        c = {"op": "fromrdf", "quads": qs}
        if self.r.random() < .02 and qs:
            q = list(qs[0])
            q[2] = self.r.choice(BADJSON)
            if q[1][1] != RDF + "type":
                qs[0] = q
                c["badJson"] = True
        return c
