"""Cases for the entry points: a document, a context to compact with, and options."""
import json
import sys

from gen_compact import K
from gen_doc import BASE

OUTER = "http://ctx.example/outer"
COMPACT = "http://ctx.example/compact"


class V(K):
    def vcase(self):
        e = self.kcase()
        e["op"] = "variants"
        r = self.r
        if "url" not in e and self.p(.8):
            e["url"] = r.choice(BASE)
        if self.p(.3):
            e.pop("base", None)
        return complete(e, r)


def complete(e, r):
    """The documents to be found under their IRIs, and the rest of the options."""
    remote = list(e.get("remote", []))
    doc = e["doc"]
    if isinstance(doc, dict) and "expandContext" not in e and "@context" in doc and list(doc)[0] == "@context" and r.random() < .6:
        own = doc["@context"]
        text = json.dumps(own)
        if "@base" not in text and "@propagate" not in text and "../" not in text:
            e["outer"] = e["expandContext"] = own
            e["doc"] = doc = {k: v for k, v in doc.items() if k != "@context"}
    if "outer" in e:
        e["outerUrl"] = OUTER
        remote.append([OUTER, {"@context": e["outer"]}])
    if "ctx" in e:
        if not (isinstance(e["ctx"], dict) and "@ref" in e["ctx"]):
            e["ctxUrl"] = COMPACT
            remote.append([COMPACT, {"@context": e["ctx"]}])
    if e.get("url"):
        remote = [x for x in remote if x[0] != e["url"]] + [[e["url"], doc]]
    e["remote"] = remote
    e["gen"] = r.choice(["x", "", "b1", "b"])
    if r.random() < .3:
        e["rdfDirection"] = r.choice(["i18n-datatype", "compound-literal"])
    if r.random() < .2:
        e["generalized"] = True
    return e


if __name__ == "__main__":
    g = V(int(sys.argv[1]))
    for _ in range(int(sys.argv[2])):
        print(json.dumps(g.vcase()))
