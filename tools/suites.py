"""The check of each property: the models to explore, the behaviours to replay and the executions to validate."""
import json
import os
import random

import gen_compact
import gen_compare
import gen_ctx
import gen_doc
import gen_expanded
import gen_http
import gen_load
import gen_quads
import gen_rdf
import gen_variants
from universes import COMPARED, EXPANDED, KUNIVERSES, UNIVERSES
from vp import SEED, TIER, json_to_tagged, tagged_text, tagged_to_json

THOROUGH = TIER == "thorough"


def n(quick, thorough):
    return thorough if THOROUGH else quick


# -- context processing ---------------------------------------------------------
MCCTX_BASE = "http://a.example/d/doc"


def mcctx(run, universe, depth, invariants, properties):
    """Explores the active context machine and returns its behaviours as cases for the real code."""
    cfg = ("SPECIFICATION Spec\nCONSTANTS Dev = {} Depth = %d Universe = \"%s\" Emit = \"yes\"\nINVARIANTS %s\n%s"
           "VIEW View\nCHECK_DEADLOCK FALSE\n"
           % (depth, universe, " ".join(invariants), "PROPERTIES %s\n" % " ".join(properties) if properties else ""))
    printed = run.model_check("MCCtx", cfg, "active contexts, universe %s, depth %d" % (universe, depth))
    remote, hist = [], []
    for v in printed:
        if v and v[0] == "REMOTES":
            remote = [[u, tagged_to_json(d), f] for u, d, f in v[1]]
        else:
            hist.append(v)
    cases = []
    for h in hist:
        steps = []
        for s in h:
            t = {"c": tagged_to_json(s["c"]), "curl": s["curl"]}
            if s["override"]:
                t["override"] = True
            if not s["propagate"]:
                t["propagate"] = False
            steps.append(t)
        cases.append({"op": "ctx", "base": MCCTX_BASE, "ctxs": steps, "remote": remote, "continue": True})
    return cases


def nontrivial_ctx(c, e):
    return '"terms":[["' in e or '["err"' in e or '"loads":["' in e


def mcdoc(run, universe, depth, invariants, mode="1.1", module="MCDoc"):
    """Explores the document machine and returns its documents as cases for the real code."""
    u = UNIVERSES[universe]
    path = os.path.join(run.dir, "universe-%s.json" % universe)
    remote = u.get("remote", [])
    with open(path, "w") as f:
        f.write(json.dumps({"ctx": json_to_tagged(u["ctx"]), "leaves": [json_to_tagged(x) for x in u["leaves"]],
                            "frames": [json_to_tagged(x) for x in u["frames"]], "mode": mode,
                            "remote": [[a, json_to_tagged(d), b] for a, d, b in remote]}) + "\n")
    cfg = ("SPECIFICATION Spec\nCONSTANTS Dev = {} Depth = %d Emit = \"yes\"\nINVARIANTS %s\nVIEW View\nCHECK_DEADLOCK FALSE\n"
           % (depth, " ".join(["Printed"] + invariants)))
    printed = run.model_check(module, cfg, "documents, universe %s, depth %d" % (universe, depth), env={"UNIVERSE": path})
    docs = {json.dumps(v[0]): v[0] for v in printed}
    cases = []
    for k in sorted(docs):
        d = tagged_to_json(docs[k])
        c = {"op": "expand", "doc": d, "base": MCCTX_BASE, "remote": remote}
        if mode != "1.1":
            c["mode"] = mode
        # the context embedded in the document or given by the expand context option
        if isinstance(d, dict) and "@context" not in d and len(cases) % 2:
            c["doc"] = {"@context": u["ctx"], **d}
        else:
            c["expandContext"] = u["ctx"]
        cases.append(c)
    return cases


def nontrivial_doc(c, e):
    return '"res":["ok",["a",[]]]' not in e


ALLPROPS = ["ProtectionHolds", "UntouchedKept", "RollbackExact", "OrderFree"]


def c01(run):
    cases = mcctx(run, "small", 2, ["TypeOK", "OBase"], ["UntouchedKept", "RollbackExact", "OrderFree"])
    run.conform(cases, "model behaviours (small, depth 2)", nontrivial_ctx)
    g = gen_ctx.G(SEED)
    run.conform([g.ctx_case() for _ in range(n(9000, 120000))], "random contexts", nontrivial_ctx)
    if THOROUGH:
        cases = mcctx(run, "all", 2, ["TypeOK", "OBase"], ALLPROPS)
        run.conform(cases, "model behaviours (all, depth 2)", nontrivial_ctx)
        cases = mcctx(run, "small", 3, ["TypeOK", "OBase"], ALLPROPS)
        run.conform(cases, "model behaviours (small, depth 3)", nontrivial_ctx)
    return run.finish("every sequence of local contexts of the MCCtx universe up to the stated depth, printed by TLC and replayed, "
                      "plus seeded random context sequences; non-trivial: the result has terms, is an error or loads something")


def c02(run):
    cases = mcctx(run, "protected", 2, ["TypeOK", "OBase"], ["ProtectionHolds", "UntouchedKept"])
    run.conform(cases, "model behaviours (protected, depth 2)", nontrivial_ctx)
    g = gen_ctx.G(SEED + 1000)
    run.conform([g.chain_case() for _ in range(n(4000, 60000))], "random protected chains", nontrivial_ctx)
    if THOROUGH:
        cases = mcctx(run, "all", 2, ["TypeOK", "OBase"], ALLPROPS)
        run.conform(cases, "model behaviours (all, depth 2)", nontrivial_ctx)
    return run.finish("every sequence of two contexts defining a term protected or not in every form of the MCCtx universe, with and "
                      "without override, plus seeded random chains of edits of a protected context; non-trivial as for C01")


def c04(run):
    cases = mcctx(run, "remote", 2, ["TypeOK", "OBase"], ["UntouchedKept", "OrderFree"])
    run.conform(cases, "model behaviours (remote, depth 2)", nontrivial_ctx)
    g = gen_ctx.G(SEED + 2000)
    run.conform([g.remote_case() for _ in range(n(5000, 80000))], "random remote contexts", lambda c, e: '"loads":["' in e)
    return run.finish("every sequence of two remote, importing or cyclic contexts of the MCCtx universe over a store with relative, "
                      "redirected, missing, malformed and mutually recursive contexts, plus seeded random stores; non-trivial: "
                      "something was requested from the loader")


# -- expansion ------------------------------------------------------------------
DOCRULE = ("every document of the MCDoc universe up to the stated depth, printed by TLC and replayed, plus seeded random documents; "
           "non-trivial: the result is not the empty document")


def expansion(universe, invariants, seed, quick, thorough, tweak=None, tweakr=None, depth=2, deeper=None, suffix="", sample=None):
    def run_(run):
        def t(cases, tweak=tweak):
            return [tweak(c) if tweak else c for c in cases]
        u, d = universe if not THOROUGH or deeper is None else deeper, depth
        for x in u if isinstance(u, list) else [u]:
            cases = mcdoc(run, x, d, invariants)
            if sample and not THOROUGH and len(cases) > sample:
                cases = random.Random(SEED).sample(cases, sample)
            run.conform(t(cases), "model documents (%s)" % x, nontrivial_doc)
        g = gen_doc.D(SEED + seed)
        run.conform(t([g.case() for _ in range(n(quick, thorough))], tweakr or tweak), "random documents", nontrivial_doc)
        if THOROUGH:
            for x in deeper or (u if isinstance(u, list) else [u]):
                run.conform(t(mcdoc(run, x + "-core", 3, invariants)), "model documents (%s, deep)" % x, nontrivial_doc)
        return run.finish(DOCRULE + suffix)
    return run_


def again(c):
    return {**c, "again": True}


def reordered(order, v, contexts):
    if isinstance(v, dict):
        return {k: v[k] if k == "@context" and not contexts else reordered(order, v[k], contexts) for k in order(list(v))}
    if isinstance(v, list):
        return [reordered(order, x, contexts) for x in v]
    return v


def permuted(c, contexts=False):
    """Other orders of the entries of the document, and of the contexts when their definitions are independent."""
    r = random.Random(json.dumps(c))

    def parts(order):
        x = [reordered(order, c["doc"], contexts)]
        if "expandContext" in c:
            x.append(reordered(order, c["expandContext"], True) if contexts else c["expandContext"])
        return x

    def shuffle(ks):
        r.shuffle(ks)
        return ks
    return {**c, "perms": [parts(lambda ks: ks), parts(lambda ks: ks[::-1]), parts(shuffle), parts(shuffle)]}


def permuted_all(c):
    return permuted(c, True)


ALLU = ["plain", "containers", "errors", "scopes"]

# -- RDF and flattening ------------------------------------------------------------
def rdf_variants(c):
    """The conversions of a document."""
    r = random.Random(json.dumps(c))
    x = {**c, "op": "rdf"}
    d = r.choice([None, "i18n-datatype", "compound-literal"])
    if d:
        x["rdfDirection"] = d
    if r.random() < .3:
        x["generalized"] = True
    return x


def directions(c):
    x = {**c, "op": "rdf"}
    return [x, {**x, "rdfDirection": "i18n-datatype"}, {**x, "rdfDirection": "compound-literal"}] if "@direction" in json.dumps(c) else x


def flattened(c):
    return {**c, "op": "flatten"}


def flat_rdf(c):
    """Flattened and converted, with other generators for both."""
    r = random.Random(json.dumps(c))
    x = {**c, "op": "flatten", "rdf": True}
    if r.random() < .5:
        x["gen"] = r.choice(["x", "", "b1", "b"])
    if r.random() < .5:
        x["gen2"] = r.choice(["x", "", "b1", "b"])
    if r.random() < .3:
        x["generalized"] = True
    return x


def each(tweak, cases):
    out = []
    for c in cases:
        t = tweak(c)
        out += t if isinstance(t, list) else [t]
    return out


def graphs(universe, invariants, tweak, seed, quick, thorough, sample, depth=2, only=None):
    def run_(run):
        cases = mcdoc(run, universe, depth, invariants, module="MCRdf")
        if not THOROUGH and len(cases) > sample:
            cases = random.Random(SEED).sample(cases, sample)
        run.conform(each(tweak, cases), "model documents (%s)" % universe, nontrivial_doc)
        g = gen_rdf.R(SEED + seed, only)
        run.conform(each(tweak, [g.case() for _ in range(n(quick, thorough))]), "random graphs", nontrivial_doc)
        g = gen_doc.D(SEED + seed)
        run.conform(each(tweak, [g.case() for _ in range(n(quick // 4, thorough // 4))]), "random documents", nontrivial_doc)
        if THOROUGH:
            cases = mcdoc(run, universe + "-core", 3, invariants, module="MCRdf")
            run.conform(each(tweak, cases), "model documents (%s, deep)" % universe, nontrivial_doc)
        return run.finish(DOCRULE)
    return run_


# -- reading RDF ---------------------------------------------------------------------
def s02(run):
    def model(size, depth):
        cfg = ("SPECIFICATION Spec\nCONSTANTS Dev = {} Depth = %d Emit = \"yes\" Size = \"%s\"\n"
               "INVARIANTS Printed InvDocument InvCells InvBack\nVIEW View\nCHECK_DEADLOCK FALSE\n" % (depth, size))
        printed = run.model_check("MCFromRdf", cfg, "datasets, universe %s, depth %d" % (size, depth))
        return [{"op": "fromrdf", "quads": p[0]} for p in printed]

    def nontrivial(c, e):
        return '"res":["ok",["a",[]]]' not in e
    run.conform(model("full", 1), "model datasets (full, depth 1)", nontrivial)
    g = gen_quads.Q(SEED)
    run.conform([g.case() for _ in range(n(8000, 150000))], "random datasets", nontrivial)
    if THOROUGH:
        run.conform(model("small", 2), "model datasets (small, depth 2)", nontrivial)
    return run.finish("every dataset of the MCFromRdf universe up to the stated depth, printed by TLC and replayed, plus seeded random "
                      "datasets; non-trivial: the document is not empty")


# -- compaction ----------------------------------------------------------------------
def mccompact(run, universe, defs, plugs, invariants, arrays=True, mode="1.1"):
    """Explores the compaction machine and returns its contexts and documents as cases for the real code."""
    u = KUNIVERSES[universe]
    path = os.path.join(run.dir, "universe-compact-%s-%s-%s.json" % (universe, arrays, mode))
    tag = json_to_tagged
    with open(path, "w") as f:
        f.write(json.dumps({"ctx": tag(u["ctx"]), "defs": [[a, tag(d)] for a, d in u["defs"]], "leaves": [tag(x) for x in u["leaves"]],
                            "frames": [tag(x) for x in u["frames"]], "whole": tag(u["whole"]), "mode": mode, "arrays": arrays, "remote": []}) + "\n")
    cfg = ("SPECIFICATION Spec\nCONSTANTS Dev = {} MaxDefs = %d MaxPlugs = %d Emit = \"yes\"\nINVARIANTS %s\nVIEW View\nCHECK_DEADLOCK FALSE\n"
           % (defs, plugs, " ".join(["Printed"] + invariants)))
    printed = run.model_check("MCCompact", cfg, "compactions, universe %s, %d definitions, %d frames" % (universe, defs, plugs), env={"UNIVERSE": path})
    pairs = {json.dumps(v): v for v in printed}
    cases = []
    for k in sorted(pairs):
        c = {"op": "compact", "ctx": tagged_to_json(pairs[k][0]), "doc": tagged_to_json(pairs[k][1]), "base": MCCTX_BASE}
        if not arrays:
            c["compactArrays"] = False
        if mode != "1.1":
            c["mode"] = mode
        cases.append(c)
    return cases


def nontrivial_compact(c, e):
    return '"res":["ok"' in e and '"expanded":[]' not in e


KINV = ["InvErrors", "InvBack"]


def compaction(models, deeper, seed, quick, thorough, back):
    def suite(run):
        def mark(cases):
            return [dict(c, back=True) for c in cases] if back else cases
        for u, defs, plugs, arrays, mode in models + (deeper if THOROUGH else []):
            cases = mccompact(run, u, defs, plugs, KINV, arrays, mode)
            run.conform(mark(cases), "model compactions (%s, %d definitions, %d frames%s)" % (u, defs, plugs, "" if arrays else ", arrays kept"), nontrivial_compact)
        g = gen_compact.K(SEED + seed)
        run.conform(mark([g.kcase() for _ in range(n(quick, thorough))]), "random compactions", nontrivial_compact)
        return run.finish("every pair of a context and a document of the MCCompact universes up to the stated depth, printed by TLC and replayed"
                          + (", the result expanded again" if back else "") + ", plus seeded random contexts and documents; non-trivial: compaction succeeds on a non-empty document")
    return suite


# -- loaders -----------------------------------------------------------------------------
def load_model(run, module, consts, what, invariants, properties=()):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Dev = {} %s Emit = \"yes\"\nINVARIANTS %s\n%s\nCHECK_DEADLOCK FALSE\n"
           % (consts, " ".join(["Printed"] + invariants), "PROPERTIES " + " ".join(properties) if properties else ""))
    return run.model_check(module, cfg, what)


def nontrivial_load(c, e):
    return '"res":["ok"' in e or "then" in e or '"path":["v"' in e


def chains(run):
    k = n(3, 4)
    printed = load_model(run, "MCLoad", "MaxMembers = %d" % k, "chains of at most %d loaders" % k, ["InvSame", "InvFirst", "InvCauses"])
    cases = [{"op": "load", "tree": t, "requests": u, "files": f} for t, u, f in sorted(printed, key=json.dumps)]
    run.conform(cases, "model chains", nontrivial_load)
    g = gen_load.Ld(SEED)
    run.conform([g.tree_case() for _ in range(n(4000, 60000))], "random chains", nontrivial_load)
    return run.finish("every tree of at most %d loaders of the MCLoad pool, printed by TLC and asked every URL of the pool, plus seeded random "
                      "trees; non-trivial: a document is loaded or several loaders fail" % k)


def fs_loader(run):
    invs = ["InvContained", "InvCovered", "InvOrigin"]
    printed = load_model(run, "MCFs", "MaxMounts = 2", "tables of at most 2 mounts", invs, ["FirstWins"])
    cases = [{"op": "load", "tree": {"t": "fs", "mounts": m}, "requests": sorted(u), "files": f} for m, u, f in sorted(printed, key=json.dumps)]
    if not THOROUGH:
        cases = [c for c in cases if len(c["tree"]["mounts"]) < 2] + random.Random(SEED).sample([c for c in cases if len(c["tree"]["mounts"]) > 1], 700)
    run.conform(cases, "model mount tables", nontrivial_load)
    g = gen_load.Ld(SEED + 100)
    run.conform([g.fs_case() for _ in range(n(4000, 60000))], "random mount tables", nontrivial_load)
    return run.finish("every table of one mount and %s tables of two mounts of the MCFs pool, printed by TLC and asked every URL of the pool over "
                      "a real directory, plus seeded random tables; non-trivial: some file path is derived" % ("all" if THOROUGH else "700"))


# -- comparison --------------------------------------------------------------------------
def comparison(run):
    path = os.path.join(run.dir, "compared.json")
    with open(path, "w") as f:
        f.write(json.dumps({"docs": [json_to_tagged(d) for d in COMPARED]}) + "\n")
    cfg = ("SPECIFICATION Spec\nCONSTANTS Dev = {} MaxEdits = 2 Emit = \"yes\"\nINVARIANTS Printed InvOrder InvSeen InvEquivalence InvCanonical\n"
           "VIEW View\nCHECK_DEADLOCK FALSE\n")
    printed = run.model_check("MCCompare", cfg, "pairs of documents, 2 edits apart", env={"UNIVERSE": path})
    pairs = {json.dumps(v): v for v in printed}
    cases = [{"op": "compare", "a": tagged_to_json(pairs[k][0]), "b": tagged_to_json(pairs[k][1]), "base": MCCTX_BASE} for k in sorted(pairs)]
    if not THOROUGH and len(cases) > 4000:
        cases = random.Random(SEED).sample(cases, 4000)

    def nontrivial(c, e):
        return '"syn":["ok","true"]' in e and c["a"] != c["b"] or '"xa":["ok",["a",[]]]' not in e
    run.conform(cases, "model pairs", nontrivial)
    g = gen_compare.C(SEED + 11000)
    run.conform([g.pair() for _ in range(n(4000, 80000))], "random pairs", nontrivial)
    return run.finish("every pair of a document of the MCCompare universe and a copy two edits away, printed by TLC and compared by the real code both ways "
                      "(4000 of them in quick), plus seeded random documents and edited copies; non-trivial: a document is not empty")


# -- reading and writing expanded documents ------------------------------------------------
def expanded(run):
    path = os.path.join(run.dir, "expanded.json")
    with open(path, "w") as f:
        f.write(json.dumps({k: [json_to_tagged(x) for x in v] for k, v in EXPANDED.items()}) + "\n")

    def model(depth):
        cfg = ("SPECIFICATION Spec\nCONSTANTS Dev = {} Depth = %d Emit = \"yes\"\nINVARIANTS Printed InvBuilt InvFixed InvSame\n"
               "VIEW View\nCHECK_DEADLOCK FALSE\n" % depth)
        printed = run.model_check("MCExpanded", cfg, "expanded documents, depth %d" % depth, env={"UNIVERSE": path})
        texts = sorted({tagged_text(v[0]) for v in printed})
        return [{"op": "expjson", "texts": {"doc": t}} for t in texts]

    def nontrivial(c, e):
        return '"read":["ok",["a",[["o"' in e or '"rt":["ok",["a",[["o"' in e
    cases = model(n(1, 2))
    run.conform(cases, "model expanded documents", nontrivial)
    g = gen_expanded.E(SEED)
    run.conform([g.case() for _ in range(n(6000, 100000))], "random expanded documents", nontrivial)
    g = gen_doc.D(SEED + 12000)
    run.conform([dict(g.case(), op="expjson") for _ in range(n(2500, 40000))], "random documents", nontrivial)
    return run.finish("every expanded document of the MCExpanded universe up to %d frames, clean or with one blemish, printed by TLC, read and written by the real code, "
                      "plus seeded random expanded documents and the expansions of random documents; non-trivial: a document that is not empty is read" % n(1, 2))


INVRDF = ["InvLists", "InvQuads", "InvGeneralized", "InvDirection"]
INVFLAT = ["InvFlat", "InvFlatDataset", "InvFlatAgain"]
# -- entry points -------------------------------------------------------------------------
def entry_points(run):
    r = random.Random(SEED + 9000)
    for x in ["plain", "containers", "scopes"]:
        x += "" if THOROUGH else "-core"
        cases = []
        for c in mcdoc(run, x, 2, ["InvForms"], module="MCVariants"):
            u = UNIVERSES[x]["ctx"]
            d = c["doc"]
            if isinstance(d, dict) and d.get("@context") == u:
                d = {k: v for k, v in d.items() if k != "@context"}
            c = dict(c, op="variants", doc=d, url=MCCTX_BASE, expandContext=u, ctx=u)
            c.pop("base")
            if isinstance(d, dict) and "@context" not in d:
                c["outer"] = u
            cases.append(gen_variants.complete(c, r))
        k = n(600, 12000)
        run.conform(cases if len(cases) <= k else random.Random(SEED).sample(cases, k), "model documents (%s)" % x, nontrivial_variants)
    g = gen_variants.V(SEED + 9100)
    run.conform([g.vcase() for _ in range(n(1800, 40000))], "random documents", nontrivial_variants)
    return run.finish("documents of the MCDoc universes printed by TLC and seeded random documents, each given to every entry point; "
                      "non-trivial: expansion succeeds on a document that is not empty")


def nontrivial_variants(c, e):
    return '["expand","doc",["ok",' in e and '["expand","doc",["ok",["a",[]]]]' not in e


# -- HTTP ----------------------------------------------------------------------------------
def http(run):
    pool = gen_http.pool()
    path = os.path.join(run.dir, "http.json")

    def model(mx, depth):
        with open(path, "w") as f:
            f.write(json.dumps({"pool": pool, "max": mx}) + "\n")
        cfg = ("SPECIFICATION Spec\nCONSTANTS Dev = {} Depth = %d Emit = \"yes\"\nINVARIANTS Printed InvBound InvSafe InvTaken\n"
               "PROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % depth)
        printed = run.model_check("MCHttp", cfg, "servers of %d answers, %d alternates allowed" % (depth, mx), env={"UNIVERSE": path})
        cases = [gen_http.replay(g, pool, mx) for g in sorted({tuple(v[0]) for v in printed})]
        run.conform(cases, "model servers (%d answers, %d alternates)" % (depth, mx), nontrivial_http)
    model(1, n(3, 4))
    model(3, n(2, 4))
    g = gen_http.H(SEED + 9500)
    run.conform([g.case() for _ in range(n(6000, 60000))], "random servers", nontrivial_http)
    return run.finish("every server giving answers of the MCHttp pool up to the stated depth, the last one for ever, printed by TLC and played to "
                      "the loader over the loopback interface, plus seeded random servers; non-trivial: a document comes of it, or more than one request")


def nontrivial_http(c, e):
    return '"res":["ok"' in e or '"requests":[["' in e and '],["http' in e


# what the harness of a check needs
FEATURES = {"L03": ("http",)}

SUITES = {
    "S02": s02, "L01": fs_loader, "L02": chains, "A02": comparison, "S01": expanded, "A01": entry_points, "L03": http, "C01": c01, "C02": c02, "C04": c04,
    "C03": expansion("scopes", ["InvWellFormed"], 3000, 4000, 60000),
    "E01": expansion("plain", ["InvWellFormed"], 0, 8000, 150000),
    "E02": expansion("containers", ["InvWellFormed"], 4000, 6000, 80000),
    "E03": expansion("errors", ["InvOrderFree"], 5000, 6000, 80000),
    "E04": expansion(["plain", "containers"], ["InvWellFormed", "InvIdempotent"], 6000, 2000, 60000, again, deeper=ALLU,
                     sample=6000, suffix="; every result is expanded again"),
    "E05": expansion(["scopes", "containers"], ["InvOrderFree"], 7000, 2500, 50000, permuted_all, permuted, deeper=ALLU,
                     sample=3500, suffix="; every case is run with its entries in four orders, ordered and not"),
    "R01": graphs("rdf", INVRDF, rdf_variants, 8000, 4000, 100000, 4000),
    "R02": graphs("lists", ["InvLists"], rdf_variants, 8100, 4000, 100000, 4000, only="lists"),
    "R03": graphs("literals", ["InvDirection"], directions, 8200, 3000, 100000, 4000, only="literals"),
    "F01": graphs("rdf", ["InvFlat", "InvFlatAgain"], flattened, 9000, 4000, 80000, 3000),
    "K01": compaction([("one", 1, 0, True, "1.1"), ("iri", 1, 0, True, "1.1"), ("types", 1, 1, True, "1.1")], [("types", 2, 2, True, "1.1"), ("two", 1, 0, False, "1.1"), ("iri", 2, 0, True, "1.1"), ("two", 2, 0, True, "1.1"), ("shape", 2, 1, True, "1.1")],
                      10000, 5000, 100000, False),
    "K02": compaction([("shape", 1, 1, True, "1.1"), ("two", 1, 0, True, "1.1")], [("types", 1, 1, True, "1.1"), ("one", 1, 0, False, "1.1"), ("two", 2, 0, False, "1.1"), ("shape", 1, 2, True, "1.1"), ("iri", 2, 0, True, "1.1")],
                      10500, 5000, 100000, True),
    "F02": graphs("blanks", ["InvFlatDataset"], flat_rdf, 9100, 2500, 60000, 3000),
}
