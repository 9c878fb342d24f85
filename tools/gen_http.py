"""Scripts of an HTTP server, with headers in the many forms they can take."""
import json
import random
import sys

from vp import json_to_tagged

CTX = "http://www.w3.org/ns/json-ld#context"
LD = "application/ld+json"
MEDIA = ["application/json", LD, "application/activity+json", "text/html", "text/plain", "application/xml", "application/jsonx", "application/x-ld+json"]
PROFILES = ["http://www.w3.org/ns/json-ld#expanded", "http://www.w3.org/ns/json-ld#compacted", "http://www.w3.org/ns/json-ld#context", "http://p.example/mine"]
HREFS = ["ctx", "../c", "/x/y", "http://b.example/c", "?q", "http://b.example/x/../z", "//b.example/n", "doc"]
BODIES = ['{}', '[]', '{"@id":"x"}', '{"http://e/p": [1.5, true, null, "é\\u00e9"]}', '"s"', ' {"a":"b"}\n', 'null', '3']
BAD = ["", "{", "<html/>", '{"a":1}}', "nul", '{"a" 1}', '{"a":1,}', "{'a':1}"]


class H:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def p(self, x):
        return self.r.random() < x

    def token(self, v):
        return v and all(c.isalnum() or c in "!#$%&'*+-.^_`|~" for c in v)

    def param(self, k, v, plain):
        """One parameter, in one of the forms the grammar allows."""
        r = self.r
        if plain:
            return '; %s="%s"' % (k, v)
        k = r.choice([k, k, k.upper(), k.capitalize()])
        semi = r.choice(["; ", "; ", ";", " ; ", ";  "])
        if self.token(v) and self.p(.5):
            return "%s%s=%s" % (semi, k, v)
        if self.p(.1) and v:
            i = r.randrange(len(v))
            v = v[:i] + "\\" + v[i:]
        return '%s%s="%s"' % (semi, k, v)

    def ctype(self, media, profile, plain):
        r = self.r
        if not plain and self.p(.15):
            media = r.choice([media.upper(), media.title()])
        ps = []
        if profile:
            ps.append(self.param("profile", " ".join(profile), plain))
        if self.p(.3):
            ps.insert(r.choice([0, len(ps)]), self.param("charset", "utf-8", plain))
        return media + "".join(ps)

    def link(self, l, plain):
        r = self.r
        ps = []
        if l["rel"]:
            ps.append(self.param("rel", " ".join(l["rel"]), plain))
        if l["type"]:
            ps.append(self.param("type", l["type"], plain))
        if self.p(.2):
            ps.append(self.param("title", r.choice(["a, b", "x;y", "<z>", "t"]), plain))
        r.shuffle(ps)
        return "<%s>%s" % (l["href"], "".join(ps))

    def response(self, status=200, media="", profile=(), links=(), body="", location="", broken=None, plain=False, hexed=None, chunked=False):
        r = self.r
        hs = []
        if media:
            hs.append(["Content-Type", self.ctype(media, profile, plain)])
        ls = list(links)
        while ls:
            k = 1 if plain else r.choice([1, 1, 2, 3])
            hs.append(["Link", r.choice([", ", ",", " , "] if not plain else [", "]).join(self.link(x, plain) for x in ls[:k])])
            ls = ls[k:]
        if location:
            hs.append(["Location", location])
        try:
            js = [] if hexed else [json_to_tagged(json.loads(body))]
        except ValueError:
            js = []
        d = {"status": status, "media": media, "profile": sorted(set(profile)), "links": [dict(x) for x in links], "location": location,
             "json": js, "broken": bool(broken), "headers": hs, "body": body}
        if hexed:
            d["hex"] = hexed
        if broken:
            d[broken] = True
        if chunked or broken == "cut" and self.p(.5):
            d["chunked"] = True
        return d

    def links(self):
        r = self.r
        return [{"href": r.choice(HREFS), "rel": r.choice([[CTX], [CTX], ["alternate"], ["alternate"], ["alternate"], ["stylesheet"], ["alternate", "next"], ["prev", CTX], []]),
                 "type": r.choice([LD, LD, LD, "", "text/html", "application/json"])} for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3]))]

    def any(self):
        r = self.r
        x = r.random()
        if x < .2:
            return self.response(r.choice([301, 302, 303, 307, 308]), location=r.choice(HREFS + [""]), links=self.links() if self.p(.2) else ())
        if x < .3:
            return self.response(r.choice([400, 401, 404, 410, 429, 500, 503]), media=r.choice(MEDIA[:3]), body=r.choice(BODIES))
        if x < .36:
            return self.response(media=r.choice(MEDIA[:2]), body=r.choice(BODIES), broken=r.choice(["cut", "cut", "drop"]))
        if x < .42:
            return self.response(media=r.choice(MEDIA[:2]), hexed=r.choice(["7b22ff223a317d", "22c328", "5b22e28222", "22eda08022"]))
        if x < .62:
            return self.response(media=r.choice(MEDIA[3:7] + [""]), links=self.links() + [{"href": r.choice(HREFS), "rel": ["alternate"], "type": LD}], body=r.choice(BODIES + ["<html/>"]))
        return self.response(media=r.choice(MEDIA), profile=[y for y in PROFILES if self.p(.2)], links=self.links(),
                             body=r.choice(BODIES if self.p(.85) else BAD), chunked=self.p(.2))

    def case(self):
        r = self.r
        e = {"op": "http", "url": r.choice(["http://a.example/d/doc", "http://a.example/d/e/", "http://b.example/x?y"]),
             "script": [self.any() for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]}
        if self.p(.4):
            e["max"] = r.choice([0, 1, 2, 4])
        if self.p(.3):
            e["profiles"] = r.sample(PROFILES, r.choice([1, 1, 2]))
        return e


def pool():
    """The responses of the server machine (spec/MCHttp.tla)."""
    h = H(1)
    alt = {"href": "alt", "rel": ["alternate"], "type": LD}
    ctx = {"href": "ctx", "rel": [CTX], "type": LD}

    def resp(**k):
        return h.response(plain=True, **k)
    return [resp(media="application/json", body='{"a":1}', links=[ctx]), resp(media=LD, body='{"a":1}', links=[ctx, ctx], profile=PROFILES[:2]),
            resp(media="application/activity+json", body='[]', links=[alt, ctx]), resp(media="application/json", body='{}', links=[ctx, dict(ctx, href="c2")]),
            resp(media="application/json", body='{'), resp(media="text/html", body='{}', links=[dict(ctx), alt]), resp(media="text/html", body="x", links=[dict(alt, type="text/html")]),
            resp(media="", body="{}", links=[dict(alt, href="/alt/x")]), resp(status=302, location="e/f"), resp(status=303, location="/s"), resp(status=302),
            resp(status=404, media=LD, body="{}"), resp(media=LD, body="{}", broken="cut"), resp(media="application/json", body="{}")]


def replay(given, pool_, mx):
    return {"op": "http", "url": "http://a.example/d/doc", "max": mx, "script": [pool_[i - 1] for i in given]}


if __name__ == "__main__":
    h = H(int(sys.argv[1]))
    for _ in range(int(sys.argv[2])):
        print(json.dumps(h.case()))
