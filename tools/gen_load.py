"""Random loader trees, mount tables and requests."""
import json
import random

from vp import json_to_tagged

SEGS = ["a", "b", "d", "x", "y", "%61", "a%20b", "..", ".", "", "x.json", "A", "~u", "a:b", "%2e%2e", "..."]
ROOTS = ["http://m", "http://n:8", "https://m", "http://M", "x:", "urn:n:"]
DIRS = ["m1", "m2", "m1/d", "m2/a/b"]
TEXTS = ["{}", "[]", "\"s\"", "1", " {\"@id\": \"http://e/\"} ", "{", "", "[1,]", "nope", "{\"a\":1,\"a\":2}", "\ufeff{}"]


class Ld:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def path(self, most=4):
        r = self.r
        k = r.randrange(most + 1)
        return "".join("/" + (r.choice(SEGS[:6]) if r.random() < .7 else r.choice(SEGS)) for _ in range(k))

    def iri(self, root=None):
        r = self.r
        root = root or (r.choice(ROOTS) if r.random() < .4 else ROOTS[0])
        p = self.path()
        if root in ("x:", "urn:n:"):
            p = p[1:] if r.random() < .7 and not p.startswith("//") else p
            while p.startswith("//"):
                p = p[1:]
            if root == "urn:n:":
                p = p.lstrip("/")
        q = r.random()
        return root + p + ("?q" if q < .05 else "#f" if q < .1 else "")

    def files(self, dirs):
        r = self.r
        out = {}
        for _ in range(r.randint(2, 8)):
            p = r.choice(dirs + ["."]) + "".join("/" + r.choice(["a", "b", "x", "d", "%61", "a%20b", "x.json", "A"]) for _ in range(r.randint(1, 3)))
            p = p[2:] if p.startswith("./") else p
            # a path is a file or a directory
            if any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in out):
                continue
            out[p] = r.choice(TEXTS[:4]) if r.random() < .8 else r.choice(TEXTS)
        files = []
        for p, t in out.items():
            try:
                v = json.loads(t, object_pairs_hook=lambda ps: ["o", [[k, x if isinstance(x, list) and x and x[0] in ("o",) else json_to_tagged(x)] for k, x in ps]])
                v = v if isinstance(v, list) and v and v[0] == "o" else json_to_tagged(v)
                c = [v]
            except ValueError:
                c = []
            files.append([p, t, c])
        return files

    def fs_tree(self):
        r = self.r
        return {"t": "fs", "mounts": [[self.iri(), r.choice(DIRS)] for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]}

    def below(self, mounts):
        r = self.r
        if mounts and r.random() < .7:
            m = r.choice(mounts)[0].split("#")[0].split("?")[0]
            p = self.path(3)
            if m.endswith("/") or m.endswith(":"):
                p = p.lstrip("/")
            return m + p
        return self.iri()

    def fs_case(self):
        r = self.r
        t = self.fs_tree()
        return {"op": "load", "tree": t, "files": self.files(DIRS), "requests": [self.below(t["mounts"]) for _ in range(8)]}

    def tree(self, depth, urls):
        r = self.r
        if depth and r.random() < .75:
            return {"t": "chain", "l": self.tree(depth - 1, urls), "r": self.tree(depth - 1, urls)}
        k = r.choice(["leaf", "leaf", "leaf", "map", "map", "bmap", "none", "fs"])
        if k == "leaf":
            return {"t": "leaf", "name": r.choice("ABCDEFGH"), "ok": [u for u in urls if r.random() < .3]}
        if k in ("map", "bmap"):
            es = []
            for _ in range(r.randint(0, 3)):
                d = {"document": r.choice(["p", "q", "r"])}
                u = r.choice(urls)
                if r.random() < .8:
                    d["url"] = u if r.random() < .6 else r.choice(urls)
                if r.random() < .4:
                    d["contentType"] = r.choice(["application/json", "application/ld+json", "text/html"])
                if r.random() < .3:
                    d["contextUrl"] = "http://c/"
                es.append([u, d])
            return {"t": k, "entries": es}
        if k == "none":
            return {"t": "none"}
        return self.fs_tree()

    def tree_case(self):
        r = self.r
        # names that are different for everybody: map loaders take equivalent IRIs for the same
        urls = sorted({r.choice(["http://m", "http://m", "x:", "urn:n:"]) + "/".join([""] + [r.choice(["a", "b", "x", "d"]) for _ in range(r.randint(1, 3))])
                       for _ in range(5)})
        t = self.tree(r.randint(1, 4), urls)
        return {"op": "load", "tree": t, "files": self.files(DIRS), "requests": urls + ["http://m/zz", "http://n/a"]}
