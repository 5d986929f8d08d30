"""What each check runs. seq, conc: recorded events per round; ctl: controlled scheduler;
mc: TLC explorations of the specifications; replay: behaviours generated from them."""

Q = 1_000_000
C = 250_000

K = dict(procs=6, seconds=20)
B = dict(procs=3, seconds=10)   # histories at scale

INDEX = "the index finds exactly the live keys in every search mode, enumerates them, and counts them; refines SkipMap"


def mc(tla, cfg, what=INDEX, thorough=False, expect=None, workers=2, timeout=1500, **consts):
    return dict(tla=tla + ".tla", cfg=cfg + ".cfg", what=what, thorough=thorough, expect=expect, workers=workers,
                timeout=timeout, set=consts)


def heap(revs="RevsA", ins=5, thorough=False, **kw):
    return mc("HeapIndexMC", "HeapIndexMC", thorough=thorough, Revs=revs, MaxIns=ins, **dict(dict(NV=1), **kw))


def emb(revs="RevsA", ins=3, thorough=False, **kw):
    return mc("EmbIndexMC", "EmbIndexMC", thorough=thorough, Revs=revs, MaxIns=ins, **kw)


def mutants(f, *l):
    """changed algorithms: the specification must notice"""
    return [f(r, i, thorough=True, Bug='"%s"' % b, expect="violated") for b, r, i in l]


HMUT = mutants(heap, ("before-equal", "RevsA", 5), ("first-of-hash", "RevsA", 5), ("half-of-range", "RevsA", 5),
               ("len-always", "RevsA", 5))
EMUT = mutants(emb, ("tail-dummy", "RevsA", 5), ("bsearch-skips-deleted", "RevsA", 5),
               ("free-slot-before", "RevsA", 5), ("split-empty", "RevsA", 5), ("split-after", "RevsE", 5))

# explored in the thorough tier
HDEEP = [heap(r, i, True) for r, i in (("RevsA", 6), ("RevsB", 5), ("RevsC", 5), ("RevsD", 5), ("RevsE", 5))]
EDEEP = [emb(r, i, True) for r, i in (("RevsA", 5), ("RevsB", 4), ("RevsC", 4), ("RevsD", 4), ("RevsE", 4))]


def gen(tla, cfg, consts, bits, stores, obs="getall,geth,len,range", n=3000, thorough=False, **kw):
    a = ["--tla", tla + ".tla", "--cfg", cfg + ".cfg", "--bits", str(bits), "--stores", stores, "--obs", obs,
         "--max", str(n)]
    for k, v in consts.items():
        a += ["--set", "%s=%s" % (k, v)]
    for k, v in kw.items():
        a += ["--" + k, v]
    return dict(gen="gen_cover.py", args=a, thorough=thorough)


def hgen(revs="RevsG", stores="heap,pool", bits=None, **kw):
    c = dict(Revs=revs)
    if revs in ("RevsJ", "RevsK", "RevsL"):
        c["LV"], bits = 3, 12
    for k in ("MaxPer", "MaxIns", "MaxOps"):
        if k in kw:
            c[k] = kw.pop(k)
    t = "EmbIndex" if stores == "emb" else "HeapIndex"
    return gen(t + "MC", t + "Gen", c, bits or 8, stores, **kw)


def egen(revs="RevsG", **kw):
    return hgen(revs, "emb", **kw)


DEEPGEN = [hgen(r, n=20000, thorough=True) for r in ("RevsG", "RevsH", "RevsJ", "RevsK", "RevsL")] + \
          [egen(r, n=20000, thorough=True) for r in ("RevsG", "RevsH", "RevsJ", "RevsK", "RevsL")] + \
          [egen("RevsG", n=20000, thorough=True, MaxPer=2, MaxIns=6), hgen("RevsJ", n=20000, thorough=True, MaxPer=2)]

RM = "every history is linearizable per key, Len and content agree at rest, a key is live in one place only"


def rmap(cfg="RMapMC", what=RM, thorough=False, **kw):
    return mc("RMapImpl", cfg, what, thorough, **kw)


P3 = "{1, 2, 3}"
RDEEP = [rmap(thorough=True, MaxOps=4), rmap(thorough=True, NV=2), rmap(thorough=True, Procs=P3, MaxOps=2),
         rmap("RMapGen", thorough=True, NK=4)]
RMUT = [rmap(thorough=True, Bug='"%s"' % b, expect="violated") for b in
        ("keeps-dirty-only", "read-wins", "dirty-kept", "no-dirty-if-cell", "stale-table", "not-amended", "delete-unlocked")]


def rgen(n=4000, thorough=False, nk=3):
    a = ["--tla", "RMapImpl.tla", "--cfg", "RMapGen.cfg", "--set", "NK=%d" % nk, "--stores", "rmap", "--obs", "len",
         "--max", str(n)]
    return dict(gen="gen_cover.py", args=a, thorough=thorough)


PROTO = "every history is linearizable per key; Len, content and lock at rest; enumerations are a moment of the map; no deadlock"


def proto(ops=None, what=PROTO, thorough=False, cfg="MapProto", **kw):
    if ops:
        kw["Ops"] = "{%s}" % ", ".join('"%s"' % o for o in ops.split())
    return mc("MapProto", cfg, what, thorough, **kw)


LIVE = proto(cfg="MapProtoLive", what="every call ends (fair scheduling), callbacks which call the map included")
PDEEP = [proto(thorough=True, Procs=P3, MaxOps=1), proto(thorough=True, NK=1, NV=2, MaxOps=3),
         proto("set del get isetv", thorough=True, NV=2, MaxOps=3), proto("set del len range", thorough=True, MaxOps=3)]
PMUT = [proto(thorough=True, Bug='"%s"' % b, expect="violated") for b in ("find-shared", "leak", "callback-locked", "by-steps")] + \
       [proto("set del get isetv", thorough=True, Bug='"%s"' % b, NV=2, MaxOps=3, expect="violated") for b in ("get-late", "reuse-held")]

RET = "all that is linked stays reachable for the garbage collector in a visible way, at its place"


def ret(store, bug="", thorough=False, **kw):
    return mc("Retention", "Retention", RET, thorough, Store='"%s"' % store, Bug='"%s"' % bug, **kw)


RETMUT = [ret(s, b, True, expect="violated") for s, b in (("heap", "set-not-retained"), ("heap", "store-not-retained"),
          ("pool", "last-link-stays"), ("pool", "noscan"), ("emb", "last-link-stays"), ("emb", "noscan"))]
LAWS = mc("SkipMapMC", "SkipMapMC", "laws of the abstract map: calls change one key of one map, results are determined, enumerations")

LINKS = "lists of items with an identity show the contents: items stored again, stored in two maps, changed while held"


def links(bug="", thorough=False, **kw):
    return mc("ItemLinks", "ItemLinks", LINKS, thorough, Bug='"%s"' % bug, **kw)


def lgen(n=3000, ops=6, thorough=False, stores="heap,pool", apis="set,item"):
    a = ["--tla", "ItemLinks.tla", "--cfg", "ItemLinksGen.cfg", "--keys", "l", "--stores", stores, "--apis", apis,
         "--set", "MaxOps=%d" % ops, "--set", "NI=4", "--max", str(n)]
    return dict(gen="gen_cover.py", args=a, thorough=thorough)


LMUT = [links(b, True, expect="violated") for b in ("relink", "this-map", "deleted-only")]
LDEEP = [links(thorough=True, NI=4, MaxOps=9), links(thorough=True, NM=1, NI=4, MaxOps=10)]
LGEN = [lgen(30000, 8, True), lgen(4000, 8, True, "heap", "entry"), lgen(20000, 12, True)]

POOL = "arrays of pools grow: all links lead to memory in use, both ways, in order; the content is that of SkipMap"


def pool(bug="", thorough=False, **kw):
    return mc("PoolIndexMC", "PoolIndexMC", POOL, thorough, Bug='"%s"' % bug, **kw)


def pgen(revs="RevsG", n=300, thorough=False, obs="get,len,range,walkb", ops=5):
    return gen("PoolIndexMC", "PoolIndexGen", dict(Revs=revs, MaxOps=ops), 8, "pool", obs, n, thorough, fill="64,128,256")


GMUT = [pool(b, True, expect="violated") for b in ("next-of-outer", "prev-of-copy", "prev-of-outer", "next-of-copy",
        "first-border-only", "last-not-copied", "old-array", "place-before-growth")]
GDEEP = [pool(thorough=True, MaxOps=7, Revs=r, Cap0=c, Caps=l) for r, c, l in
         (("RevsA", 1, "CapsA"), ("RevsB", 2, "CapsB"), ("RevsA", 2, "CapsB"))]
PGEN = [pgen(r, 3000, True, ops=6) for r in ("RevsG", "RevsH")]

PLANS = {
    "C01": dict(bulk=B, seq=Q, mc=[LAWS, heap()] + HDEEP, replay=[hgen("RevsG"), egen("RevsH", n=2000)] + DEEPGEN),
    "C02": dict(bulk=B, seq=Q, mc=[heap("RevsB", 4), emb("RevsC"), pool(MaxOps=5)] + HDEEP + EDEEP + GDEEP + HMUT + EMUT + GMUT,
                replay=[hgen("RevsJ", n=2000), egen("RevsJ", n=2000), pgen("RevsH", 200)] + DEEPGEN + PGEN),
    "C03": dict(bulk=B, seq=Q, mc=[heap("RevsD", 4), emb("RevsA")] + HDEEP + EDEEP,
                replay=[hgen("RevsK", obs="range,rangei,walk,walkb", n=2000), egen("RevsL", obs="range,rangei,walk,walkb", n=2000),
                        pgen("RevsG", 200, obs="range,rangei,walk,walkb")] + DEEPGEN + PGEN),
    "C04": dict(seq=Q, mc=[emb("RevsB"), heap("RevsC", 4), links()] + HDEEP + EDEEP,
                replay=[egen("RevsG"), hgen("RevsH", n=2000), pgen("RevsH", 100, obs="get,len")] + DEEPGEN + PGEN[:1]),
    "C05": dict(bulk=B, seq=Q, conc=C, ctl=K, mc=[emb("RevsC"), proto("set del len")] + PDEEP[-1:], replay=[egen("RevsK", obs="len,getall", n=2000)]),
    "C06": dict(bulk=B, seq=Q, mc=[heap("RevsE", 4), heap("RevsA", 5)] + HDEEP + EDEEP + HMUT,
                replay=[hgen("RevsL", n=2000), egen("RevsL", n=2000)] + DEEPGEN),
    "C07": dict(seq=Q, mc=[heap("RevsA", 4), links()] + LDEEP + LMUT,
                replay=[lgen(), lgen(500, 6, False, "heap", "entry")] + LGEN + [hgen("RevsH", obs="getall,geth,load,loadh,getb", n=1500, apis="set,item,entry"),
                                                                            pgen("RevsG", 120, obs="load,get,loadh,geth")] + PGEN[:1]),
    "C08": dict(bulk=B, seq=Q, mc=[heap("RevsC", 4)] + HDEEP, replay=[hgen("RevsG", n=2000), hgen("RevsJ", n=1500)] + DEEPGEN),
    "C09": dict(bulk=B, conc=2 * C, ctl=K, mc=[proto("set del get isetv")] + PDEEP + PMUT),
    "C10": dict(bulk=B, conc=2 * C, ctl=K, mc=[proto("set del isetv range")] + PDEEP + PMUT),
    "C11": dict(bulk=B, conc=2 * C, ctl=K, mc=[proto("set del get range")] + PDEEP + PMUT),
    "C12": dict(bulk=B, seq=Q, conc=C, ctl=K, mc=[LIVE, rmap("RMapLive", "every call ends")] + PMUT),
    "C13": dict(bulk=B, seq=Q // 2, conc=C, ctl=K, mc=[ret("heap"), ret("pool"), ret("emb")] + RETMUT +
                [ret("emb", thorough=True, NK=6, MaxObj=7), ret("heap", thorough=True, NK=6, MaxObj=7)],
                replay=[hgen("RevsH", obs="gc,getall,range", n=300), egen("RevsG", obs="gc,getall,range", n=300),
                        pgen("RevsG", 30, obs="gc,get,walkb,range", ops=4)]),
    "C14": dict(seq=Q, conc=C, ctl=K, mc=[LAWS, links()] + LDEEP + LMUT, replay=[lgen()] + LGEN),
    "C15": dict(bulk=B, seq=Q, mc=[LAWS]),
    "C16": dict(bulk=B, seq=Q, mc=[rmap("RMapGen")] + RDEEP[3:] + RMUT[:4], replay=[rgen(), rgen(80000, True, 4)]),
    "C17": dict(bulk=B, conc=2 * C, ctl=K, mc=[rmap(), rmap("RMapLive", "every call ends")] + RDEEP + RMUT),
    "C18": dict(bulk=B, seq=Q, mc=[emb("RevsA", 4), pool("", Revs="RevsB", Cap0=2, Caps="CapsB")] + EDEEP + GDEEP + EMUT + GMUT,
                replay=[egen("RevsG", n=2000), egen("RevsJ", n=2000), egen("RevsG", n=2000, MaxPer=2, MaxIns=6),
                        pgen()] + DEEPGEN + PGEN),
}

NOTES = {
    "*": "Every recorded history of the real code (random and directed scripts, concurrent workloads with "
         "instrumented scheduling points) is accepted by TLC as a behaviour of the TLA+ specification. "
         "Assurance is bounded by the histories explored; trusts the driver's recording, TLC and Go.",
}
