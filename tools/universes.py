"""Universes of the document machine (spec/MCDoc.tla): a context, leaves, and frames with a hole "@@"."""
V = "http://ex.org/v/"


def keyed(*keys):
    return [{k: "@@"} for k in keys]


PLAIN_CTX = {
    "@vocab": V, "p": "http://ex.org/p#", "id": "@id", "type": "@type", "rev": "@reverse", "nst": "@nest",
    "a": V + "p1", "b": {"@id": V + "p1", "@type": "@id"}, "c": {"@id": "p:c", "@type": "@vocab", "@language": "en"},
    "d": {"@type": "@json"}, "e": {"@type": V + "D"}, "r": {"@reverse": V + "p1"},
    "l": {"@container": "@list"}, "s": {"@id": V + "p1", "@container": "@set", "@language": "fr", "@direction": "rtl"},
    "n": {"@nest": "nst"}, "z": None, "inc": "@included"}
PLAIN = {
    "ctx": PLAIN_CTX,
    "leaves": ["v", "n3", "a", 1, True, None, [], {}, {"@id": "n3"}, {"@value": "x", "@language": "en"},
               {"@value": None}, {"@list": ["x"]}, {"@list": [["y"], []]}, {"@set": [None, "x"]}, ["x", None, 2]],
    "frames": keyed("a", "b", "c", "d", "e", "r", "l", "s", "z", "id", "type", "@type", "@value", "@graph", "@included", "@index", "@list", "@set",
                    "nst", "p:q", "rel/x", "_:b")
    + [{"rev": {"a": "@@"}}, {"@reverse": {"r": "@@"}}, {"@id": "x", "a": "@@", "b": "y"}, {"@nest": {"a": "@@"}, "a": "u"},
       ["@@", "u"], {"@id": "", "@type": ["T", "z"], "@graph": "@@"}, {"@set": "@@", "@index": "i"}, {"l": ["@@", "@@"]}, {"@included": "@@", "inc": [{"a": "u"}, {}]}]}

CONT_CTX = {
    "@vocab": V, "p": "http://ex.org/p#", "non": "@none",
    "x": {"@container": "@index"}, "xp": {"@container": "@index", "@index": "p:ix"}, "xs": {"@container": ["@index", "@set"], "@type": "@id"},
    "xq": {"@container": "@index", "@index": "q"}, "q": {"@type": "@id"},
    "l": {"@container": "@language", "@direction": "rtl"}, "ls": {"@container": ["@language", "@set"]},
    "i": {"@container": "@id"}, "t": {"@container": "@type"}, "tv": {"@container": ["@type", "@set"], "@type": "@vocab"},
    "g": {"@container": "@graph"}, "gi": {"@container": ["@graph", "@id"]}, "gx": {"@container": ["@graph", "@index", "@set"]},
    "xr": {"@reverse": V + "p1", "@container": "@index"},
    "T": {"@id": V + "T", "@context": {"a": V + "scoped"}}, "a": V + "p1"}
CONT = {
    "ctx": CONT_CTX,
    "leaves": ["v", None, 1, [], {}, {"a": "x"}, {"@id": "n1"}, {"@value": "w"}, ["u", "w"], {"@graph": {"a": "y"}}, {"@type": "U", "@id": "n2", "@index": "own"},
               {"@list": ["m"]}, [{"a": 1}, {"a": 1}]],
    "frames": keyed("x", "xp", "xs", "xq", "l", "ls", "i", "t", "tv", "g", "gi", "gx", "xr", "a")
    + keyed("@none", "non", "k", "n3", "T", "http://ex.org/n1", "en")
    + [{"@none": "u", "k": "@@"}, {"k": ["@@", "@@"], "T": "@@"}, {"@graph": "@@", "@id": "n9"}]}

ERR_CTX = {
    "@vocab": V, "id": "@id", "type": "@type", "val": "@value", "lang": "@language", "lst": "@list", "a": V + "p1",
    "b": {"@type": "@id"}, "r": {"@reverse": V + "p1"}, "l": {"@container": "@language"}, "i": {"@container": "@id"},
    "x": {"@container": "@index", "@index": V + "ix"}, "t": {"@container": "@type"}, "inc": "@included"}
ERR = {
    "ctx": ERR_CTX,
    "leaves": ["v", "@json", "@id", 1, True, None, [], [1, "x"], {}, {"a": 1}, {"@id": "n"}, {"@value": "x"}, {"@list": []}, {"@value": 1, "@type": "T"}, {"@set": []}],
    "frames": keyed("@id", "id", "@type", "@value", "@language", "@direction", "@index", "@list", "@set", "@graph", "@included", "@reverse", "@nest",
                    "@context", "a", "r", "l", "i", "x", "t", "@foo", "@base", "@none", "k")
    + [{"@value": "s", k: "@@"} for k in ("@id", "type", "lang", "@direction", "@index", "@list", "a", "undef:x", "val")]
    + [{"@value": 5, "@language": "@@"}, {"@value": "@@", "@type": "@json"}, {"@value": "@@", "@type": "T"}, {"@value": "@@", "@language": "en"}]
    + [{"@list": [], k: "@@"} for k in ("@id", "@index", "@type", "@set", "a", "lst")]
    + [{"@id": "n1", "id": "@@"}, {"@type": "T", "type": "@@"}, {"@index": "1", "@id": "@@"}, {"a": {"@reverse": {"a": "@@"}}}, {"inc": {"a": "u"}, "@included": "@@"},
       {"@included": {"a": "u"}, "inc": "@@"}]}

SCOPE_CTX = {
    "@vocab": V, "a": V + "p1",
    "p": {"@id": V + "p", "@context": {"a": V + "in-p", "q": {"@id": V + "q2", "@type": "@id"}}},
    "q": {"@id": V + "q", "@context": {"@propagate": False, "a": V + "in-q"}},
    "n": {"@id": V + "n", "@context": None},
    "s": {"@id": V + "s", "@context": [{"@vocab": "http://ex.org/w/"}, {"T": {"@id": V + "T3", "@context": {"a": V + "in-s-T"}}}]},
    "i": {"@id": V + "i", "@container": "@id"}, "t": {"@id": V + "t", "@container": "@type"}, "x": {"@id": V + "x", "@container": "@index"},
    "nst": {"@id": "@nest", "@context": {"a": V + "in-nest"}},
    "T": {"@id": V + "T", "@context": {"a": V + "in-T", "p": V + "p-T"}},
    "U": {"@id": V + "U", "@context": {"@propagate": True, "a": V + "in-U", "@vocab": "http://ex.org/u/"}},
    "kind": "@type", "sort": "@type",
    "W": {"@id": V + "W", "@context": {"b": {"@id": V + "b", "@context": {"a": V + "in-W-b"}}, "type": "@type", "a": None}}}
SCOPE = {
    "ctx": SCOPE_CTX,
    "leaves": ["v", {}, {"a": "v"}, {"@id": "n1"}, {"@value": "x"}, {"a": {"a": "v"}}, {"@type": "T", "a": "v"}],
    "frames": keyed("a", "p", "q", "n", "s", "b", "nst", "@graph", "@included", "@list", "@set")
    + [{"@type": t, k: "@@"} for t in ("T", "U", "W", ["U", "T"], ["T", "W"]) for k in ("a", "p", "b")]
    + [{"i": {"n2": "@@"}}, {"t": {"T": "@@"}}, {"t": {"U": ["@@", {"a": 1}]}}, {"x": {"k": "@@"}}, {"@reverse": {"a": "@@"}},
       {"@context": {"a": V + "embedded", "@propagate": False}, "a": "@@"}, {"@context": {"a": V + "embedded"}, "p": "@@", "a": "u"},
       {"@context": None, "a": "@@", V + "p2": "@@"}, {"@type": "T", "@context": {"T": V + "T2"}, "a": "@@"},
       {"sort": "T", "kind": "U", "a": "@@"}, {"kind": "W", "@type": "T", "a": "@@"}]}


XSD = "http://www.w3.org/2001/XMLSchema#"
RDF_CTX = {"@vocab": V, "l": {"@container": "@list"}, "j": {"@type": "@json"}, "r": {"@reverse": V + "a"}, "i": {"@type": "@id"}}
RDFU = {
    "ctx": RDF_CTX,
    "leaves": ["v", 1, 2.5, True, {}, {"@id": "_:x"}, {"@id": "n1"}, {"@id": "_:x", "a": "u"}, {"@id": "http://bad iri/", "a": "u"},
               {"@value": "x", "@language": "en"}, {"@value": "x", "@direction": "rtl"}, {"@value": "x", "@language": "en-US", "@direction": "ltr"},
               {"@value": 3, "@type": XSD + "double"}, {"@value": "s", "@type": "T"}, {"@value": "x", "@language": "not a tag"}, [],
               {"@list": []}, {"@list": ["x", "x"]}, {"@list": [{"@id": "not an iri:"}, "y"]}, {"@type": ["T", "_:t"]}, ["v", "v", 1.0]],
    "frames": keyed("a", "l", "j", "r", "i", "_:p", "@graph", "@included")
    + [{"@id": "_:x", "a": "@@"}, {"@id": "_:y", "a": [{"@id": "_:x"}, "@@"], "_:p": "@@"}, {"@id": "n1", "@type": "T", "b": "@@"},
       {"@id": "_:x", "@graph": "@@", "a": {"@id": "_:y"}}, {"@graph": [{"@id": "n1", "@type": "U"}, "@@"], "@id": "n1"},
       {"@reverse": {"a": ["@@", {"@id": "_:y"}]}, "@id": "_:x"}, {"l": ["@@", "@@", {"@list": ["@@"]}]}, {"@list": ["@@"]},
       ["@@", "@@"], ["@@", {"@id": "_:x", "b": ["v", {"@id": "_:y", "c": 1}]}], {"a": {"@id": "_:x", "@index": "i1", "a": "@@"}, "b": {"@id": "_:x", "@index": "i1"}},
       {"@id": "http://bad iri/", "a": "@@", "@graph": "@@"}]}

# literals: a value, what is said about it, and where it stands
LITU = {
    "ctx": {"@vocab": V, "l": {"@container": "@list"}, "j": {"@type": "@json"}},
    "leaves": ["v", "", "q\"\\\n\t", "\u00e9", True, False, 0, 1, -1, 1.0, -0.0, 0.5, -2.25, 100.0, 1e6, 1e20, 1e21, 1.5e21, 1e22, 1e-6, 1e-7, 123456789.125,
               99999999999999, None, [], [1.0, "a", None], {}, {"b": 1.0, "a": [True, {"z": 1e21, "y": "\n"}]}],
    "frames": [{"@value": "@@"}, {"@value": "@@", "@type": "@json"}] + [{"@value": "@@", "@type": t} for t in (XSD + "double", XSD + "integer", XSD + "boolean", XSD + "string", "T", "p q")]
    + [{"@value": "@@", "@language": x} for x in ("en", "EN-us", "de-Latn-DE-1996", "x", "en-", "a b", "en-a-b", "x-y", "de-DE-u-co-phonebk")]
    + [{"@value": "@@", "@direction": "rtl"}] + [{"@value": "@@", "@language": x, "@direction": "ltr"} for x in ("en", "AR-eg", "e_n")]
    + [{"@value": "@@", "@index": "i", "@direction": "ltr"}]
    + [{"a": "@@"}, {"l": ["@@", "u"]}, {"j": "@@"}, {"@graph": {"a": "@@"}, "@id": "g"}, {"@reverse": {"a": {"b": "@@"}}}, {"@included": {"a": "@@"}}]}
# lists
LISTU = {
    "ctx": {"@vocab": V, "l": {"@container": "@list"}},
    "leaves": ["v", {}, {"@id": "_:x"}, {"@id": "not an iri:"}, {"@list": []}, {"@value": "x", "@direction": "rtl"}, {"@value": "s", "@type": "p q"}, {"@id": "n", "a": "w"}],
    "frames": [{"@list": "@@"}, {"@list": ["@@", "@@"]}, {"@list": ["u", "@@", {"@list": []}]}, {"l": "@@"}, {"l": ["@@", "u", "@@"]}, {"a": ["@@", {"@list": "@@"}]}, {"a": "@@", "b": "@@"},
               {"@id": "_:x", "l": ["@@"]}, {"@id": "n", "@graph": {"l": "@@", "a": "@@"}}, {"@included": {"l": "@@"}}, {"@reverse": {"a": {"l": ["@@"]}}}, ["@@", "@@"], {"@id": "bad iri:", "l": ["@@"]}]}
# blank node labels, those of the generator included
BNU = {
    "ctx": {"@vocab": V, "l": {"@container": "@list"}, "r": {"@reverse": V + "a"}, "i": {"@type": "@id"}, "v": {"@type": "@vocab"}},
    "leaves": [{}, "v", {"@id": "_:b0"}, {"@id": "_:b1"}, {"@id": "_:x"}, {"a": "u"}, "_:b0", {"@type": "_:b1"}, {"@value": "_:b0"}, {"@value": "x", "@type": "_:b0"}],
    "frames": keyed("a", "l", "r", "i", "v", "_:b0", "_:x", "@graph", "@included")
    + [{"@id": x, "a": "@@"} for x in ("_:b0", "_:b1", "_:b2", "_:x", "n1")] + [{"@type": ["_:b0", "_:x"], "a": "@@"}, {"a": "@@", "b": {}}, ["@@", {"@id": "_:b1", "b": {"@id": "_:x"}}, {}],
       {"@id": "_:b1", "@graph": ["@@", {"@id": "_:b1", "a": {}}]}, {"l": [{}, "@@", {"@id": "_:b0"}]}, {"@reverse": {"_:b0": "@@"}, "@id": "_:b0"}]}


def core(u, leaves, frames):
    return {**u, "leaves": [u["leaves"][i] for i in leaves], "frames": [f for i, f in enumerate(u["frames"]) if i in frames]}


UNIVERSES = {"plain": PLAIN, "containers": CONT, "errors": ERR, "scopes": SCOPE, "rdf": RDFU, "literals": LITU, "lists": LISTU, "blanks": BNU}

# smaller universes explored to depth 3
UNIVERSES["plain-core"] = core(PLAIN, (0, 3, 5, 8, 9, 12, 14), (0, 1, 5, 6, 7, 13, 14, 16, 17, 18, 22, 23, 25, 27, 29))
UNIVERSES["containers-core"] = core(CONT, (0, 1, 5, 8, 9, 10, 12), (0, 1, 3, 4, 6, 7, 8, 9, 10, 11, 12, 14, 16, 21, 22))
UNIVERSES["errors-core"] = core(ERR, (0, 1, 3, 6, 9, 11), (0, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 24, 33, 38))
UNIVERSES["scopes-core"] = core(SCOPE, (0, 2, 3, 6), (0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 14, 18, 26, 27, 29, 31, 34))
UNIVERSES["rdf-core"] = core(RDFU, (0, 4, 5, 7, 8, 10, 15, 17, 19), (0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18))
UNIVERSES["literals-core"] = core(LITU, (0, 2, 4, 6, 7, 11, 16, 17, 20, 27), range(len(LITU["frames"])))
UNIVERSES["lists-core"] = core(LISTU, range(8), range(12))
UNIVERSES["blanks-core"] = core(BNU, (0, 2, 3, 6, 7), (0, 1, 2, 3, 4, 5, 7, 9, 10, 13, 14, 16, 18, 19, 20))

# -- compaction: the entries common to all contexts, a pool of definitions, leaves and frames ------
P1, P2, IX, TD, TT = V + "p1", V + "p2", V + "ix", V + "D", V + "T"
KLEAVES = [
    {"@value": "w"}, {"@value": "w", "@language": "en"}, {"@value": "w", "@language": "EN-us"}, {"@value": "w", "@language": "fr", "@direction": "rtl"},
    {"@value": "w", "@direction": "rtl"}, {"@value": "w", "@type": TD}, {"@value": "w", "@type": P2}, {"@value": 1}, {"@value": True},
    {"@value": "w", "@index": "i"}, {"@value": "w", "@language": "en", "@index": "i"}, {"@value": "w", "@type": TD, "@index": "@none"}, {"@value": 2, "@index": "i"},
    {"@value": {"x": [1]}, "@type": "@json"}, {"@value": None, "@type": "@json"}, {"@value": "w", "@type": "@json"},
    {"@id": "http://a.example/d/x"}, {"@id": V + "n"}, {"@id": TT}, {"@id": "_:b"}, {"@id": "http://a.example/d/x", "@index": "i"}, {},
    {"@index": "i"}, {"@id": V + "n", "@type": [TT]}, {"@type": [TT, TD]}, {"@type": ["_:t"], P2: [{"@value": "v"}]}, {"@id": "urn:u:1", P2: [{"@value": "v"}], "@index": "j"},
    {IX: [{"@value": "k"}], P2: [{"@value": "v"}]}, {IX: [{"@value": "k"}, {"@id": V + "n"}], "@id": "http://b.example/"}, {IX: [{"@value": 1}]}, {IX: [{"@id": V + "n"}]},
    {"@reverse": {P2: [{"@id": V + "n"}]}},
    {"@list": []}, {"@list": [{"@value": "w"}, {"@value": "v"}]}, {"@list": [{"@value": "w", "@language": "en"}]}, {"@list": [{"@value": "w", "@language": "en"}, {"@value": 1}]},
    {"@list": [{"@id": V + "n"}, {"@id": TT}]}, {"@list": [{"@value": "w", "@type": TD}, {"@value": "w", "@type": TD}]}, {"@list": [{"@list": [{"@value": "w"}]}, {"@list": []}]},
    {"@list": [{"@value": "w", "@language": "fr", "@direction": "rtl"}], "@index": "i"}, {"@list": [{"@value": "w"}], "@index": "i"},
    {"@graph": [{P2: [{"@value": "v"}]}]}, {"@graph": []}, {"@graph": [{P2: [{"@value": "v"}]}, {"@id": V + "n", P2: []}]}, {"@graph": [{P2: [{"@value": "v"}]}], "@index": "i"},
    {"@graph": [{P2: [{"@value": "v"}]}, {P2: [{"@value": 1}]}], "@id": V + "n"}, {"@graph": [{P2: [{"@value": "v"}]}], "@id": "_:g", "@index": "i"},
    {"@graph": [{P2: [{"@value": "v"}]}], "@id": V + "n", "@type": [TT]}]
KCONTS = [None, "@set", "@list", "@language", "@index", "@id", "@type", "@graph", ["@language", "@set"], ["@index", "@set"], ["@id", "@set"], ["@set", "@type"],
          ["@graph", "@set"], ["@graph", "@id"], ["@graph", "@index"], ["@graph", "@id", "@set"], ["@graph", "@index", "@set"]]
KTYPES = [{}, {"@type": "@id"}, {"@type": "@vocab"}, {"@type": TD}, {"@type": "@json"}, {"@type": "@none"}, {"@language": "en"}, {"@language": None}, {"@direction": "rtl"},
          {"@language": "fr", "@direction": "rtl"}]


def kdef(cont, more, name="a"):
    d = {"@id": P1, **more}
    if cont is not None:
        d["@container"] = cont
    return [name, d]


def fits(cont, more):
    c = cont if isinstance(cont, list) else [cont]
    t = more.get("@type")
    return not ("@type" in c and t not in (None, "@id", "@vocab"))


def kdefs(name, conts, types):
    return [kdef(c, t, name) for c in conts for t in types if fits(c, t)]


MATRIX = kdefs("a", KCONTS, KTYPES) + [["a", {"@reverse": P1}], ["a", {"@reverse": P1, "@container": "@set"}], ["a", {"@reverse": P1, "@container": "@index", "@type": "@id"}],
                                       ["a", {"@id": P1, "@container": "@index", "@index": IX}], ["a", {"@id": P1, "@container": ["@index", "@set"], "@index": IX, "@type": "@id"}],
                                       ["a", {"@id": P1, "@nest": "nst"}], ["a", {"@id": P1, "@nest": "nst", "@container": "@list"}], ["a", P1], ["a", None]]
K_ONE = {"ctx": {"@vocab": V, "nst": "@nest"}, "defs": MATRIX, "leaves": KLEAVES, "whole": {"@id": "http://a.example/d/s", P1: ["@@"]}, "frames": []}
# two terms for the property, and what else shapes the result
K_TWO = {"ctx": {"p": "http://ex.org/"}, "whole": {"@id": "http://a.example/d/s", P1: ["@@", {"@value": "z", "@language": "en"}, {"@id": V + "n"}]},
         "defs": kdefs("a", [None, "@set", "@list", "@language", "@index", "@type", ["@graph", "@id"], "@graph"], [{}, {"@type": "@id"}, {"@type": "@vocab"}, {"@type": TD}, {"@language": "en"}, {"@direction": "rtl"}])
         + kdefs("b", [None, ["@index", "@set"], ["@id", "@set"], "@list", ["@graph", "@index"]], [{}, {"@type": "@id"}, {"@type": "@none"}, {"@language": "fr", "@direction": "rtl"}])
         + [["@language", "en"], ["@direction", "rtl"], ["@vocab", V], ["id", "@id"], ["val", "@value"], ["ix", IX], ["ix", {"@id": IX, "@type": "@vocab"}], ["T", TT], ["none", "@none"], ["type", {"@id": "@type", "@container": "@set"}],
            ["@type", {"@container": "@set"}], ["b", {"@id": P1, "@container": "@index", "@index": "ix"}], ["b", {"@id": P1, "@type": "@json"}], ["b", {"@id": P1, "@type": "@json", "@container": "@index"}]],
         "leaves": [KLEAVES[i] for i in (0, 1, 3, 5, 9, 16, 18, 20, 23, 26, 27, 28, 32, 33, 34, 36, 40, 41, 45, 46)] + [{"@value": {"x": 1}, "@type": "@json", "@index": "i"}, {"@value": "w", "@type": "@json"}], "frames": []}
# shapes of documents
K_SHAPE = {"ctx": {"@vocab": V, "p": "http://ex.org/"}, "whole": "@@",
           "defs": [["a", {"@reverse": P1}], ["a", {"@id": P1, "@container": "@graph"}], ["a", {"@id": P1, "@container": ["@graph", "@id"]}], ["a", {"@id": P1, "@container": "@id"}],
                    ["a", {"@id": P1, "@type": "@id"}], ["a", {"@id": P1, "@context": {"@vocab": "http://ex.org/w/", "b": P2}}], ["a", {"@id": P1, "@container": "@index", "@context": None}],
                    ["b", {"@reverse": P1, "@container": "@index"}], ["b", {"@id": P2, "@nest": "nst"}], ["b", {"@id": P2, "@container": "@list"}],
                    ["nst", "@nest"], ["gr", "@graph"], ["rev", "@reverse"], ["inc", "@included"], ["T", {"@id": TT, "@context": {"a": P2}}], ["T", {"@id": TT, "@context": {"@propagate": True, "b": {"@id": P1, "@type": "@id"}}}],
                    ["T", {"@id": TT, "@context": {"r": {"@reverse": P1}, "id": "@id"}}]],
           "leaves": [{"@value": "w"}, {"@id": V + "n"}, {"@id": "http://a.example/d/x", P2: [{"@value": "v"}]}, {"@type": [TT], P1: [{"@id": V + "n"}], P2: [{"@list": [{"@value": 1}]}]}, {}],
           "frames": [{P1: ["@@"]}, {P1: ["@@"], P2: ["@@"]}, {"@type": [TT], P1: ["@@", {"@value": "z"}]}, {"@graph": ["@@"]}, {"@id": "_:g", "@graph": ["@@", {"@id": "_:h", P2: []}]},
                      {"@reverse": {P1: ["@@"]}}, {"@type": [TT], "@reverse": {P1: ["@@"], P2: [{"@id": "_:y"}]}}, {"@included": ["@@"], P2: []}, ["@@", {"@id": "_:y", P1: []}], {P1: [{"@list": ["@@"]}]},
                      {"@type": [TT], "@included": ["@@"], P2: [{"@graph": ["@@"]}]}]}
# type-scoped contexts that disagree, with types in any order
TB, TC = V + "Bee", V + "C"
K_TYPES = {"ctx": {"@vocab": V, "T": {"@id": TT, "@context": {"x": P1, "c": {"@id": P2, "@type": "@id"}}}, "Bee": {"@context": {"y": {"@id": P1, "@container": "@set"}, "x": None, "c": None}},
                   "C": {"@context": {"@propagate": True, "@vocab": "http://ex.org/w/", "x": P2, "y": None}}, "k": {"@id": P1, "@context": {"x": {"@id": P1, "@language": "en"}}}}, "whole": "@@",
           "defs": [["Bee", {"@context": None}], ["C", {"@context": [{"x": P1}, {"x": None, "p1": {"@id": P1, "@container": "@list"}}]}], ["k", {"@id": P1, "@container": "@type"}],
                    ["k", {"@id": P1, "@container": "@type", "@type": "@vocab", "@context": {"x": P2}}], ["k", {"@id": P2, "@container": ["@id", "@set"]}], ["T", None], ["@type", {"@container": "@set", "@protected": True}]],
           "leaves": [{"@type": t, P1: [v], P2: [{"@id": V + "n"}]} for t in ([TT], [TB], [TC], [TT, TB], [TB, TT], [TB, TC], [TC, TB], [TC, TT], [TB, TC, TT], [TC, TB, TT], [TT, TT, TB]) for v in ({"@value": "w", "@language": "en"}, {"@id": "_:b"})],
           "frames": [{P1: ["@@"]}, {"@type": [TC, TB], P1: ["@@"]}, {"@type": [TB, TT], P1: [{"@list": ["@@"]}]}, {"@type": [TT, TC], P2: ["@@"]}, {"@type": [TB, TT], "@reverse": {P1: ["@@"]}}, {"@type": [TT, TB], P1: [{"@graph": ["@@"]}]}]}
# IRIs: prefixes, vocabularies, and relative references
K_IRI = {"ctx": {}, "whole": {"@id": "@@", "@type": ["@@"], P1: [{"@id": "@@"}, {"@value": "w", "@type": "@@"}]},
         "defs": [["@vocab", x] for x in (V, "http://ex.org/", "", "p:", "http://a.example/d/")] + [["@base", x] for x in ("http://ex.org/v/x/y", "", "../e/?q", None, "urn:b:", "http://ex.org")]
         + [["p", x] for x in ("http://ex.org/", V, V + "p", "http://ex.org/v#", {"@id": V, "@prefix": False}, {"@id": V + "p", "@prefix": True}, "urn:", "_:b")]
         + [["q", x] for x in (V, "http://a.example/", {"@id": V + "p1", "@prefix": True})] + [["p1", x] for x in (V + "p2", P1)] + [["urn", "http://ex.org/z/"], ["p:p1", P1], ["T", TT], ["D", {"@id": TT}], ["D", None]],
         "leaves": [P1, V, TT, V + "p1/x", "http://ex.org/v#f", "http://ex.org", "http://a.example/d/x", "http://a.example/d/doc", "http://a.example/d/", "http://a.example/d/doc?q", "http://a.example/d/doc#f", "http://a.example/e/x",
                    "http://a.example/d/@foo", "http://a.example/d/a:b", "http://a.example//x", "urn:z:1", "urn:z", "_:b0", "p:n", "http://ex.org/v/T"], "frames": []}
KUNIVERSES = {"one": K_ONE, "two": K_TWO, "shape": K_SHAPE, "iri": K_IRI, "types": K_TYPES}

# Documents that are edited and compared (MCCompare).
COMPARED = [
    {"http://e/p": [1, 2.50, "a", True], "@id": "x"},
    {"http://e/p": {"@list": [1, "a", {"@id": "y"}]}, "@type": ["http://e/A", "http://e/B"]},
    {"http://e/p": {"@type": "@json", "@value": {"b": [1.5e3, None, {"d": 1, "c": []}], "a": "x"}}},
    {"@context": {"l": {"@id": "http://e/l", "@container": "@list"}, "s": {"@id": "http://e/s", "@container": "@set"}}, "l": [1, [2, 3]], "s": ["a", "b"]},
    {"@context": [{"t": "http://e/1"}, {"t": "http://e/2", "u": "http://e/3"}], "t": 0.5, "u": [[1, 2], 3]},
    {"@graph": [{"@id": "x", "http://e/p": 1e0}, {"@id": "y", "http://e/p": {"@graph": [{"@id": "z", "http://e/q": 1}, {"http://e/q": "a"}]}}]},
    {"@reverse": {"http://e/p": [{"@id": "x"}, {"@id": "y", "@index": "i"}], "http://e/q": {"@id": "z"}}, "@included": [{"@id": "a", "http://e/p": 1}, {"@id": "b"}]},
    {"http://e/p": [{"@value": "a", "@language": "en"}, {"@value": "a", "@language": "EN", "@direction": "ltr"}, {"@value": 1e-7, "@type": "http://e/T"}]},
    [{"@id": "x", "@type": ["http://e/A", "http://e/B"], "http://e/q": 1}, {"@id": "x", "http://e/q": [1, 1.0]}, {"@set": [{"@id": "y", "http://e/q": 2}]}],
]

# Expanded documents (MCExpanded): leaves are items, frames make items of items.
P = "http://e/p"
EXPANDED = {
    "leaves": [{"@value": "a"}, {"@value": 1.50, "@index": "i"}, {"@value": True, "@type": "http://e/T"}, {"@value": "a", "@language": "EN-us"},
               {"@value": "a", "@language": "en", "@direction": "ltr"}, {"@value": "", "@direction": "rtl"}, {"@value": {"b": [1, None, {"@value": 2}], "@id": 3}, "@type": "@json"},
               {"@value": None, "@type": "@json"}, {"@id": "_:b"}, {"@id": "http://e/x", "@type": ["http://e/T", "_:t"], "@index": ""}, {"@list": []}],
    "oddleaves": [{"@value": "a", "@type": "rel"}, {"@value": "a", "@language": "not a tag"}, {"@value": None}, {"@value": "a", "@type": "_:b"}],
    "frames": [{P: ["@@"]}, {"@id": "http://e/y", P: ["@@", {"@value": "z"}], "http://e/q": []}, {P: [{"@list": ["@@", {"@value": "z"}], "@index": "j"}]},
               {"@graph": [{P: ["@@"]}, {"@id": "_:g", P: [{"@value": 0}]}]}, {"@included": [{P: ["@@"]}], "@type": ["http://e/T"]}, 
               {P: ["@@", "@@"], "@index": "k"}, {P: [{"@graph": [{P: ["@@"]}], "@id": "_:h"}]}, {P: [{"@list": [{"@list": ["@@"]}]}]}],
    "oddframes": [{"@included": ["@@"]}, {"@graph": ["@@"], "@id": "_:h"}, {"@reverse": {P: ["@@"], "_:q": [{"@id": "http://e/z"}]}}, {"rel": ["@@"]}],
}
