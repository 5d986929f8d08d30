#!/usr/bin/env python3
"""gen_cover.py: behaviours of an implementation-shaped specification as scripts.

TLC explores the specification (breadth first, bounded) and reports the calls leading to every
transition of its state graph.  The sequences are put together to scripts for the driver, which
cover every transition; after every call that was not observed before, all keys are read.
The scripts are executed by the real code, and TLC validates the recorded traces (TraceSeq)."""
import argparse, json, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *


class Fill:
    """The arrays of pools are larger than those of the specification: other keys take the difference."""

    def __init__(self, o, cfg, want, revs, keys, rnd):
        self.o, self.want, self.keys, self.rnd = o, want, keys, rnd
        self.revs = revs
        num = lambda n: int(re.search(r"(?m)^\s*%s = (\d+)" % n, cfg)[1])
        self.np, self.nb = num("NP"), num("NB")
        caps = re.search(r"Caps <- (\w+)", cfg)[1]
        self.caps = [num("Cap0")] + [int(x) for x in re.search(r"(?m)^%s == <<(.*)>>" % caps,
                                     open(SPEC + "/" + o.tla).read())[1].split(",")]
        self.real = [int(x) for x in o.fill.split(",")]
        self.gen = [1] * self.np

    def pool(self, k):
        return (self.revs[k-1] >> (self.o.bits - self.nb)) % self.np

    def add(self, p, n):
        ops = []
        for _ in range(n):
            d = self.rnd.choice([x for x in range(1 << self.nb) if x % self.np == p])
            r = d << (64 - self.nb) | self.rnd.getrandbits(64 - self.nb)
            self.keys.append(dict(t="x", r=str(r), c=str(2000 + len(self.keys))))
            ops.append(["set", 1, len(self.keys), self.rnd.randint(1, 200)])
        return ops

    def start(self, s):
        ops = []
        for p in sorted({self.pool(k) for op, k in s if op == "set"}):
            ops += self.add(p, self.real[0] - self.caps[0])
        return ops

    def grown(self, s):
        ops = []
        for p, g in enumerate(self.want[s]):
            if g > self.gen[p]:
                self.gen[p] = g
                ops += self.add(p, self.real[g-1] - self.real[g-2] - (self.caps[g-1] - self.caps[g-2]))
        return ops


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--out"), a.add_argument("--prop"), a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--tla"), a.add_argument("--cfg")
    a.add_argument("--set", action="append", default=[])   # CONSTANT=value in the cfg
    a.add_argument("--bits", type=int)                      # width of the reverses in the specification
    a.add_argument("--stores", default="heap,pool,emb")
    a.add_argument("--apis", default="set")
    a.add_argument("--modes", default="0,1,2,3,4,5")
    a.add_argument("--shifts", default="0")                 # place of the bits in the 64-bit hash
    a.add_argument("--obs", default="getall,geth,len,range")
    a.add_argument("--keys", default="x")                   # l: ordinary strings
    a.add_argument("--fill", default="")                    # real capacities of the arrays of pools (PoolIndex)
    a.add_argument("--max", type=int, default=3000)         # scripts at most (sampled by seed)
    o = a.parse_args()
    f = set_consts(o.cfg, dict(x.split("=") for x in o.set), os.path.dirname(os.path.abspath(o.out)))
    cfg = open(f if os.path.isabs(f) else SPEC + "/" + f).read()
    per = int(re.search(r"MaxPer = (\d+)", cfg)[1]) if "MaxPer" in cfg else 1
    nm = re.search(r"Revs <- (\w+)", cfg)
    nmaps = int((re.search(r"NM = (\d+)", cfg) or [0, 1])[1])
    if nm:
        revs = [int(x) for x in re.search(r"(?m)^%s == <<(.*)>>" % nm[1], open(SPEC + "/" + o.tla).read())[1].split(",")]
    else:
        revs = [0] * int(re.search(r"NK = (\d+)", cfg)[1])
    p = tlc(o.tla, f, workers=2, timeout=700)
    if not tlc_ok(p):
        raise SystemExit("TLC: " + p.out[-1500:] + p.err[-500:])
    gen, dist = tlc_stats(p.out)
    want = {}
    for m in re.finditer(r'^"BEH (.*)"$', p.out, re.M):
        b = json.loads(m[1].replace('\\"', '"'))
        want[tuple(tuple(x) for x in b["ops"])] = (b["bks"], b["rs"]) if "bks" in b else b.get("gen")
    # sequences which are no prefix of another one
    pre = {s[:-1] for s in want}
    inner = set()
    for s in pre:
        while s and s not in inner:
            inner.add(s)
            s = s[:-1]
    leaves = sorted(s for s in want if s not in inner)
    n_all = len(leaves)
    rnd = random.Random(o.seed)
    if len(leaves) > o.max:
        leaves = sorted(rnd.sample(leaves, o.max))
    stores, modes, apis = o.stores.split(","), [int(x) for x in o.modes.split(",")], o.apis.split(",")
    shifts = [int(x) for x in o.shifts.split(",")]
    combos = [(s, m, x, sh) for s in stores for m in modes for x in apis for sh in shifts if s != "rmap" or m == modes[0]]
    rnd.shuffle(combos)
    seen = set()
    n = calls = 0
    with open(o.out, "w") as out:
        for j, s in enumerate(leaves):
            store, mode, api, sh = combos[j % len(combos)]
            if store == "emb":
                api = "set"
            top = rnd.getrandbits(sh) << (64 - sh) if sh else 0
            low = 0
            keys = []
            for k, r in enumerate(revs if store != "rmap" and o.keys == "x" else []):
                keys.append(dict(t="x", r=str(top | (r << (64 - o.bits - sh))), c=str(1000 + k)))
            if store == "rmap" or o.keys == "l":
                keys = [dict(t="l", s="key%d" % k) for k in range(len(revs))]
            ops, v = [], 0
            if o.fill:
                fill = Fill(o, cfg, want, revs, keys, rnd)
                ops += fill.start(s)
            for i, (op, k, *more) in enumerate(s):
                if more:      # with items: op, map, key, item
                    v += 1
                    ops.append([op, k, more[0], 0 if op == "del" else v * 16 + more[1]])
                elif op in ("set", "store"):
                    v = v % 200 + 1
                    ops.append([op, 1, k, v])
                else:
                    ops.append([op, 1, k, 0])
                if o.fill:
                    ops += fill.grown(s[:i+1])
                if s[:i+1] not in seen:
                    seen.add(s[:i+1])
                    for q in o.obs.split(","):
                        if q in ("get", "getb", "geth", "load", "loadh"):
                            ops += [[q, mi, k2 + 1, 0] for mi in range(1, nmaps + 1) for k2 in range(len(revs))]
                        else:
                            ops += [[q, mi, 0, 0] for mi in range(1, nmaps + 1)]
            calls += len(s)
            sc = dict(id="%s-b%d" % (o.prop, j), insts=[dict(store=store, api=api, mode=mode, per=per)] * nmaps, keys=keys, ops=ops)
            if isinstance(want.get(s), tuple) and sh == 0 and store != "rmap":
                end = 2 ** o.bits - 1
                hx = lambda r: "%x" % (r << (64 - o.bits))
                sc["want"] = [hx(b) for b in want[s][0] if b != end]
                sc["wlist"] = [hx(r) for r in want[s][1][:-1]]   # without the last dummy
            out.write(json.dumps(sc, separators=(",", ":")) + "\n")
            n += 1
    print(json.dumps(dict(spec=o.tla, cfg=o.cfg, constants=o.set, states=dist, transitions=gen, behaviours=n_all,
                          replayed=n, calls=calls, sequences_observed=len(seen))))


main()
