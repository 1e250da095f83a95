"""C23: random sources fill exactly what was asked or say they failed; operations draw fresh output and pass failures on."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx
import sm2_common as s2
import sm9_common as s9
from ecgen import b32, h, mul

N2, N9 = s2.N, s9.N
RNG = "SPECIFICATION RSpec\nINVARIANT Inv\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS\n W = %d\n Retries = %d\n MaxLen = %d\n Emit = TRUE\n"
DRAW = "SPECIFICATION DSpec\nINVARIANT Inv\nPROPERTY NoChange\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Kinds = {\"genpriv\", \"sign\", \"enc\"}\n MaxOps = %d\n MaxDraws = 2\n Emit = TRUE\n"
HW = ["rdrand32", "rdrand64", "rdseed32", "rdseed64"]


def tail32(v):
    return v.to_bytes(32, "big")


def sm2_run(beh, r, name):
    """a behaviour of DrawModel on SM2 keys; the digest is the tail of the message"""
    d = r.choice([1, 2, N2 - 2, r.randrange(1, N2 - 1)])
    out = ["T " + name, "new a priv tail32", "setpriv a set " + h(d), "new b pub tail32", "pubof b a", "new g priv gate", "setpriv g set " + h(d), "new gp pub gate", "pubof gp g"]

    def nonce(zero):
        """a nonce whose key stream is (never) zero under the gate hash"""
        while True:
            k = r.randrange(1, N2)
            if mul(s2.C, k * d % N2, s2.G)[0] >> 248 & 3 == (0 if zero else 3):
                return h(k - 1)
    for e in beh:
        K = r.choice("rrplib") + ":"
        if e["op"] == "sign":
            k = r.randrange(1, N2)
            x = mul(s2.C, k, s2.G)[0]
            m = hx(tail32(-x % N2) if r.random() < .5 else tail32((N2 - k - x) % N2))
            bad, good = h(k - 1), h(r.randrange(N2 - 1))
        else:
            m = hx(r.randbytes(r.choice([1, 20, 33])))
            bad, good = h(r.choice([N2 - 1, N2 - 2, (1 << 256) - 1])), h(r.randrange(N2 - 2))
        sc = "".join((nonce(x == "bad") if e["op"] == "enc" and x != "fail" else {"bad": bad, "good": good, "fail": r.choice(["", "", good[:40], "00"])}[x]) for x in e["draws"])
        sc = K + sc
        if e["op"] == "sign":
            out += ["sign a %s %s %s" % (r.choice(["D", "6162"]), m, sc), "get a"]
        elif e["op"] == "genpriv":
            out += ["genpriv a %s %s" % (r.choice(["ctor", "set"]), sc), "get a", "pubof b a", "get b"]
        else:
            out += ["enc %s %s %s %s" % (r.choice(["g", "gp"]), r.choice("uch"), m, sc)]
    return out


def sm9_run(beh, r, name):
    out = ["T " + name, "new a master head64", "msetpriv a set " + h(r.randrange(1, N9)), "extract u a " + hx(r.randbytes(41)) + " D"]
    for e in beh:
        K = r.choice("rrplib") + ":"
        good = h(r.randrange(N9 - 1))
        if e["op"] == "genpriv":
            bad = h(r.choice([N9 - 1, N9, (1 << 256) - 1]))
        else:
            x = r.randrange(1, N9)  # the value h of the message, and the draw that makes r - h vanish
            m = hx((x - 1).to_bytes(40, "big") + r.randbytes(24))
            bad = h(x - 1)
        sc = K + "".join({"bad": bad, "good": good, "fail": r.choice(["", "", good[:40], "00"])}[x] for x in e["draws"])
        if e["op"] == "genpriv":
            out += ["mgenpriv a %s %s" % (r.choice(["ctor", "set"]), sc), "get a"]
        else:
            out += ["sign u %s %s %s" % (r.choice("uch"), m, sc)]
    return out + ["get u", "get a"]


def body(c):
    big = not c.quick
    r = c.rng
    fake = ["-I" + os.path.join(gm.DRV, "fakeimm"), "-DCPU_FLAG_RDRAND", "-DCPU_FLAG_RDSEED"]
    exe = c.build("rng", "base", [], extra=fake, tag="-script")
    real = c.build("rng", "simd" if "simd" in gm.cpu_configs() else "base", [], extra=["-DGM_REAL"], tag="-real")
    e2 = {k: c.build("sm2", k, s2.SRC, opt="-O2") for k in s2.CFGS}
    e9 = {k: c.build("sm9", k, s9.SRC, opt="-O2") for k in s9.CFGS}

    # ---- generators over a scripted device
    futs = {}
    for W, R in ((4, 0), (4, 1), (4, 2), (8, 0), (8, 1), (8, 2)):
        futs[W, R] = c.background(c.behaviours, "RngModel", RNG % (W, R, 2 * W + 3 if c.quick else 4 * W + 1), None, 2, (), "device fault sequences, %d bytes a step, %d repeats" % (W, R))
    draws = c.background(c.behaviours, "DrawModel", DRAW % (2 if c.quick else 3), what="operations drawing from one generator that may fail at any request")

    cmds = []
    scripts = ["1", "01", "0" * 9 + "1", "0" * 10 + "1", "0", "10", "110", "1" * 5 + "0" * 9 + "1", ("0" * 9 + "1") * 6 + "1", "0" * 11 + "1", "1" * 3 + "0" * 12 + "1", "01" * 40 + "1"]
    lens = list(range(0, 42)) + [63, 64, 65, 127, 128, 129, 250] if c.quick else list(range(0, 140)) + [255, 256, 257, 511, 512, 1000]
    for k in HW + ["std", "cstd"]:
        for n in lens:
            cmds.append("T gen.%s.%d" % (k, n))
            for s in scripts if n < 18 or big else scripts[:1] + r.sample(scripts[1:], 2):
                t = r.choice([0, 0, 1, 2, 3, 5, 7, 9])
                cmds.append("gen %s 10 %d %d %s" % (k, n, t, s))
            for t in range(0, 9):
                cmds.append("gen %s 10 %d %d 1 same" % (k, n, t))
            # every step failing in turn, at the default number of repeats
            if k in HW and n:
                u = -(-n // int(k[-2:]) * 8)
                for i in range(min(u, 6)):
                    cmds += ["gen %s 10 %d 3 %s" % (k, n, "1" * i + "0"), "gen %s 10 %d 2 %s same" % (k, n, "1" * i + "0" * r.randrange(1, 10) + "1")]
            elif k == "std":
                for i in range(min(n, 8)):
                    cmds += ["gen %s 10 %d 3 %s" % (k, n, "1" * i + "0"), "gen %s 10 %d 3 1 same" % (k, n)]
        cmds.append("T rand." + k)
        for t in ("u8", "u16", "u32", "u64", "int", "p3", "p13", "p32"):
            for s in ("1", "01", "10" + "1", "0", "10"):
                cmds.append("rand %s 10 %s %s" % (k, t, s))
    # long requests, up to more than 2^32 bytes
    for k in HW + ["std", "cstd"]:
        for j, n in enumerate([256 + 1, 4096 + r.randrange(9), (1 << 16) + r.randrange(9), (1 << 20) + r.randrange(9), (1 << 24) + r.randrange(9)]):
            cmds += ["T long.%s.%d" % (k, j), "genbig %s %s" % (k, n.to_bytes(8, "big").hex())]
        if k in HW or big:
            cmds += ["T huge.%s" % k, "genbig %s %s" % (k, ((1 << 32) + r.randrange(1, 9)).to_bytes(8, "big").hex())]
    try:
        exe.path()
        scripted = True
    except gm.CheckError as e:
        scripted = False
        c.notes.append("the generators do not build over the scripted device: " + str(e)[:300])
    if scripted:
        c.conform("RngTrace", exe, cmds, "requests to every generator, scripted device", defer=True)
    cmds = []
    for (W, R), f in futs.items():
        beh = f.result()
        for i, b in enumerate(beh):
            if i % 40 == 0:
                cmds.append("T beh.%d.%d.%d" % (W, R, i))
            s = "".join(map(str, b["hist"]))
            for k in HW:
                if k.endswith(str(8 * W)):
                    cmds.append("gen %s %d %d %d %s" % (k, R, b["len"], r.choice([0, 1, 4, 5]), s + "1" if s and s[-1] == "0" else s or "1"))
    if scripted:
        c.conform("RngTrace", exe, cmds, "device fault sequences of the model", defer=True)

    # ---- the real devices
    cmds = []
    kinds = ["std", "cstd"] + (HW if "simd" in gm.cpu_configs() else [])
    for k in kinds:
        for n in list(range(0, 34)) + [63, 64, 65, 100]:
            cmds += ["T real.%s.%d" % (k, n), "real %s %d %d 20" % (k, n, n % 8)]
    c.conform("RngTrace", real, cmds, "the real devices", defer=True)

    # ---- operations
    beh = draws.result()
    for k in s2.CFGS:
        cmds = []
        pick = beh if len(beh) <= 120 else r.sample(beh, 120) if c.quick else r.sample(beh, min(len(beh), 1500))
        for i, b in enumerate(pick):
            cmds += sm2_run(b, r, "%s.sm2.%d" % (k, i))
        # every kind of failure at the first and the second request, object and constructor
        for i, K in enumerate("rplib"):
            cmds += ["T %s.sm2f%d" % (k, i), "new a priv sm3", "setpriv a set " + h(5), "new z priv sm3"]
            for how in ("ctor", "set"):
                cmds += ["genpriv a %s %s:" % (how, K), "get a", "genpriv a %s %s:%s" % (how, K, "00" * 31), "get a", "genpriv z %s %s:" % (how, K), "sign a D 6162 %s:" % K, "sign a D - %s:%s" % (K, "77" * 31),
                         "enc a u 616263 %s:" % K, "enc a c 616263 %s:%s" % (K, "01" * 20), "enc a h - %s:" % K, "genpriv a %s %s" % (how, h(9)), "get a", "sign a D 6162 " + h(77), "verify a D 6162 @"]
        c.conform("SM2Trace", e2[k], cmds, "SM2 operations under failing generators, " + k, defer=True)
        cmds = []
        pick = [b for b in beh if all(o["op"] != "enc" for o in b)]
        pick = pick if len(pick) <= 60 else r.sample(pick, 60) if c.quick else r.sample(pick, min(len(pick), 500))
        for i, b in enumerate(pick):
            cmds += sm9_run(b, r, "%s.sm9.%d" % (k, i))
        for i, K in enumerate("rplib"):
            cmds += ["T %s.sm9f%d" % (k, i), "new a master sm3", "msetpriv a set " + h(5), "extract u a 6162 D", "new z master sm3"]
            for how in ("ctor", "set"):
                cmds += ["mgenpriv a %s %s:" % (how, K), "get a", "mgenpriv a %s %s:%s" % (how, K, "00" * 31), "get a", "mgenpriv z %s %s:" % (how, K), "sign u u 6162 %s:" % K, "sign u c - %s:%s" % (K, "77" * 31), "get u"]
            cmds += ["sign u h 6162 " + h(78), "verify u 6162 D 6162 @", "mgenpriv a set " + h(9), "get a"]
        c.conform("SM9Trace", e9[k], cmds, "SM9 operations under failing generators, " + k, defer=True)


gm.main("C23", body)
