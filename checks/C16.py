"""C16: private keys are in range, refused otherwise, and match their public keys (SM2 keys, SM9 master and user keys)."""
from sm2_common import *
import sm9_common as s9

N9 = s9.N
KEY9 = "SPECIFICATION KSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxCalls = %d\n Emit = %s\n"


def replay9(beh, r, name):
    """a behaviour of SM9KeyModel as commands"""
    hs = r.choice(["head64", "head64", "sm3"])
    out = ["T " + name, "new a master " + hs, "new q pub " + hs, "new u user " + hs, "new v user " + hs]
    val = {0: [0], 1: [1], 3: [2, 3, (N9 - 1) // 2, N9 - 2], 6: [N9 - 1], 7: [N9], 8: [N9 + 1, (1 << 256) - 1, s9.P]}
    draws = {0: [0], 5: [N9 - 2], 6: [N9 - 1, N9, (1 << 256) - 1]}
    ks, upub, qset = None, {}, False
    H = lambda v: v.to_bytes(40, "big").hex()
    m = None
    last = None
    for e in beh:
        how = r.choice(["ctor", "set"])
        op = e["op"]
        if op == "msetpriv":
            v = r.choice(val[e["v"]]) if e["v"] != 3 or r.random() < 0.5 else r.randrange(2, N9 - 1)
            out += ["msetpriv a %s %s" % (how, h(v)), "get a"]
            if 0 < v < N9:
                ks = v
        elif op == "mgenpriv":
            if not e["v"]:
                out.append("mgenpriv a %s %s" % (how, r.choice(["-", "00", h(5)[:62]])))
            else:
                v = r.choice(draws[e["v"][0]])
                out.append("mgenpriv a %s %s" % (how, h(v)))
                ks = v % (N9 - 1) + 1
            out.append("get a")
        elif op == "extract":
            idv = {"some": hx(r.randbytes(r.choice([3, 40, 70]))), "none": H(N9 - ks - 1), "double": H(ks - 1)}[e["id"]] if hs == "head64" else hx(r.randbytes(9))
            out += ["extract %s a %s D" % (e["o"], idv), "get " + e["o"]]
            upub[e["o"]] = idv
        elif op == "usetpriv":
            Q = s9.mul2(r.choice([1, 2, 5]), s9.G2)
            d = r.choice([s9.G, s9.neg(s9.C, s9.G), s9.rand_point(s9.C, r)])
            if e["v"] == "badpriv":
                d = r.choice([(d[0], d[1] ^ 1), (0, 0), (s9.P, d[1]), (d[1], d[0])])
            y = Q[1]
            if e["v"] == "badpub":
                Q = r.choice([(Q[0], (y[0] ^ 1, y[1])), (Q[0], (y[0], (y[1] + 1) % s9.P)), ((0, 0), (0, 0)), (y, Q[0]), ((Q[0][1], Q[0][0]), y)])
            out.append("usetpriv %s %s %s %s %s" % (e["o"], h(d[0]), h(d[1]), s9.e2(Q[0]), s9.e2(Q[1])))
            out.append("get " + e["o"])
            if e["v"] == "good":
                upub[e["o"]] = "6162"
        elif op == "setpub":
            Q = r.choice([s9.G2, s9.mul2(3, s9.G2)])
            if not e["v"]:
                y = Q[1]
                Q = r.choice([(Q[0], (y[0] ^ 1, y[1])), (Q[0], (y[0], y[1] ^ 1)), (Q[0], (y[1], y[0])), ((0, 0), (0, 0))])
            out += ["setpub q %s %s" % (s9.e2(Q[0]), s9.e2(Q[1])), "get q"]
        elif op == "pubof":
            out += ["pubof q " + e["from"], "get q"]
            qset = True
            if last:
                out.append("verify q %s D %s @" % last)
        elif op == "copy":
            out += ["copy %s %s" % (e["o"], e["from"]), "get " + e["o"]]
            upub[e["o"]] = upub.get(e["from"], "6162")
        else:
            m = hx(r.randbytes(70) if hs == "head64" else r.randbytes(9))
            last = (upub.get(e["o"], "6162"), m)
            out += ["sign %s %s %s %s" % (e["o"], r.choice("uch"), m, h(r.randrange(N9 - 1)) * 2), "verify %s %s D %s @" % ((e["o"],) + last), "get " + e["o"]]
    return out


def replay(beh, r, name):
    """a behaviour of KeyModel as commands, with boundary values for its numbers"""
    hs = r.choice(["sm3", "sm3", "tail32"])
    out = ["T " + name] + ["new %s priv %s" % (x, hs) for x in "ab"] + ["new q pub " + hs]
    val = {0: [0], 1: [1], 3: [2, 3, (N - 1) // 2, N - 3], 6: [N - 2], 7: [N - 1], 8: [N, N + 1, (1 << 256) - 1, P]}
    draws = {0: [0], 5: [N - 3], 7: [N - 2, N - 1, N, (1 << 256) - 1]}
    for e in beh:
        how = r.choice(["ctor", "set"])
        if e["op"] == "setpriv":
            v = r.choice(val[e["v"]]) if e["v"] != 3 or r.random() < 0.5 else r.randrange(2, N - 2)
            out.append("setpriv %s %s %s" % (e["o"], how, h(v)))
        elif e["op"] == "genpriv":
            if not e["v"]:
                out.append("genpriv %s %s %s" % (e["o"], how, r.choice(["-", "00", h(5)[:62], h((1 << 256) - 1), h(N - 2)[:60]])))
            else:
                v = r.choice(draws[e["v"][0]])
                out.append("genpriv %s %s %s" % (e["o"], how, h(v) + (h(r.randrange(N - 2)) * 2 if v >= N - 2 else "")))
        elif e["op"] == "setpub":
            Q = r.choice([G, neg(C, G), rand_point(C, r)])
            if not e["v"]:
                Q = r.choice([(Q[0], Q[1] ^ 1), (0, 0), (P, Q[1]), (Q[1], Q[0]), (Q[0], 0), ((Q[0] + 1) % P, Q[1])])
            out.append("setpub %s %s %s %s" % (e["o"], how, h(Q[0]), h(Q[1])))
        elif e["op"] in ("pubof", "copy"):
            out.append("%s %s %s" % (e["op"], e["o"], e["from"]))
        else:
            m = hx(r.randbytes(r.choice([1, 20])))
            if e["o"] == "q":
                out += ["enc q u %s %s" % (m, draw(r.randrange(1, N))), "verify q D %s %s" % (m, h(3) + h(4))]
            else:
                out += ["sign %s D %s %s" % (e["o"], m, draw(r.randrange(1, N))), "verify %s D %s @" % (e["o"], m), "enc %s c %s %s" % (e["o"], m, draw(r.randrange(1, N))), "dec %s @" % e["o"]]
        out.append("get " + e["o"])
    return out


def body(c):
    big = not c.quick
    r = c.rng
    exe = {k: c.build("sm2", k, SRC, opt="-O2") for k in CFGS}
    ts = c.build("sm2", CFGS[0], SRC, extra=gm.TSAN, tag="tsan")
    c.background(c.overrides)
    behs = c.behaviours("KeyModel", keycfg(3), what="every key-object history of three calls")
    if big:
        c.background(c.model, "KeyModel", keycfg(5).replace("Emit = TRUE", "Emit = FALSE"), what="every history of five calls")
    sel = behs if big else r.sample(behs, 700)
    for k in CFGS:
        cmds = []
        # ---- single values
        vals = [0, 1, 2, 3, N - 4, N - 3, N - 2, N - 1, N, N + 1, N + 2, P - 1, P, P + 1, (1 << 256) - 1, (1 << 256) - 2, 1 << 255, (1 << 255) - 1, N >> 1, N - (1 << 64), N - 2 + (1 << 64), N - 2 - (1 << 32), N - 2 + (1 << 32), N - 2 + (1 << 224), N - 2 - (1 << 224)]
        vals += [N - 2 - (1 << i) for i in range(0, 256, 24)] + [N - 2 + (1 << i) for i in range(0, 256, 24) if N - 2 + (1 << i) < 1 << 256]
        # every limb boundary: one limb above or below that of n - 2
        b = b32(N - 2)
        for i in range(32):
            for v in (0, 255, (b[i] + 1) % 256, (b[i] - 1) % 256):
                vals.append(int.from_bytes(b[:i] + bytes([v]) + b[i + 1:], "big"))
        vals += [1 << i for i in range(0, 256, 8)] + [r.getrandbits(256) for _ in range(20 if c.quick else 400)] + [r.getrandbits(r.randrange(1, 256)) for _ in range(20)]
        vals = list(dict.fromkeys(vals))
        for i in range(0, len(vals), 6):
            cmds += ["T %s.val%d" % (k, i), "new a priv sm3", "setpriv a set " + h(3)]
            for v in vals[i:i + 6]:
                cmds += ["setpriv a %s %s" % (r.choice(["ctor", "set"]), h(v)), "get a"]
        for i in range(0, len(vals), 6):
            cmds += ["T %s.gen%d" % (k, i), "new a priv sm3", "setpriv a set " + h(4)]
            for v in vals[i:i + 6]:
                cmds += ["genpriv a %s %s" % (r.choice(["ctor", "set"]), h(v) + h(r.getrandbits(256)) + h(r.randrange(N - 2))), "get a"]
                if v >= N - 2:
                    cmds += ["genpriv a set " + h(v), "get a", "genpriv a ctor " + h(v) + h(v), "get a"]
        cmds += ["T %s.starve" % k, "new a priv sm3", "setpriv a set " + h(9)]
        for s in ("-", "00", h(7)[:62], h((1 << 256) - 1) * 3):
            cmds += ["genpriv a set " + s, "get a", "sign a D 00 " + draw(5), "verify a D 00 @", "genpriv a ctor " + s, "get a"]
        c.conform("SM2Trace", exe[k], cmds, "key values, " + k, defer=True)
        cmds = []
        for i, bh in enumerate(sel):
            cmds += replay(bh, r, "%s.h%d" % (k, i))
        c.conform("SM2Trace", exe[k], cmds, "key-object histories of the model, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM2Trace", exe[k], ts, cmds, "key-object histories of the model, " + k, 32 if c.quick else 200)
    # ---- SM9 master keys
    ex9 = {k: c.build("sm9", k, s9.SRC, opt="-O2") for k in CFGS}
    behs = c.behaviours("SM9KeyModel", KEY9 % (3, "TRUE"), what="every SM9 key-object history of three calls")
    if big:
        c.background(c.model, "SM9KeyModel", KEY9 % (5, "FALSE"), what="every SM9 history of five calls")
    sel = behs if big else r.sample(behs, 350)
    # longer ones: those that use a key last
    for k in CFGS:
        vals = [0, 1, 2, 3, N9 - 3, N9 - 2, N9 - 1, N9, N9 + 1, N9 + 2, s9.P - 1, s9.P, (1 << 256) - 1, 1 << 255, N9 >> 1, N9 - (1 << 64), N9 + (1 << 64), N9 - (1 << 128), N9 + (1 << 128)]
        b = b32(N9)
        for i in range(32):
            for v in (0, 255, (b[i] + 1) % 256, (b[i] - 1) % 256):
                vals.append(int.from_bytes(b[:i] + bytes([v]) + b[i + 1:], "big"))
        vals += [r.getrandbits(256) for _ in range(6 if c.quick else 200)] + [r.getrandbits(r.randrange(1, 256)) for _ in range(6)]
        vals = list(dict.fromkeys(vals))
        cmds = []
        for i in range(0, len(vals), 6):
            cmds += ["T %s.m9val%d" % (k, i), "new a master sm3", "msetpriv a set " + h(3)]
            for v in vals[i:i + 6]:
                cmds += ["msetpriv a %s %s" % (r.choice(["ctor", "set"]), h(v)), "get a"]
            cmds += ["T %s.m9gen%d" % (k, i), "new a master sm3", "msetpriv a set " + h(4)]
            for v in vals[i:i + 6]:
                cmds += ["mgenpriv a %s %s" % (r.choice(["ctor", "set"]), h(v) + h(r.getrandbits(256)) + h(r.randrange(N9 - 2))), "get a"]
        for s in ("-", "00", h(7)[:62]):
            cmds += ["T %s.m9starve%d" % (k, len(s)), "new a master sm3", "msetpriv a set " + h(9), "mgenpriv a set " + s, "get a", "extract u a 61 D", "sign u u 00 " + draw(5), "verify a 61 D 00 @", "mgenpriv a ctor " + s, "get a"]
        # ---- user keys: refused imports of every kind between uses
        for i in range(3 if c.quick else 20):
            ks = r.randrange(1, N9)
            d, Q = s9.rand_point(s9.C, r), s9.mul2(r.randrange(1, N9), s9.G2)
            x, y = Q
            m = r.randbytes(9).hex()
            imp = lambda d, Q: "usetpriv u %s %s %s %s" % (h(d[0]), h(d[1]), s9.e2(Q[0]), s9.e2(Q[1]))
            cmds += ["T %s.m9imp%d" % (k, i), "new a master sm3", "msetpriv a set " + h(ks), "extract u a 6162 D", "get u"]
            for bad in [(d, (x, (y[0] ^ 1, y[1]))), (d, (x, (s9.P, y[1]))), (d, ((0, 0), (0, 0))), ((d[0], d[1] ^ 1), Q), ((d[0], s9.P), Q), ((0, 0), Q), ((d[0] ^ 1, d[1]), (y, x))]:
                cmds += [imp(*bad), "get u", "sign u %s %s %s" % (r.choice("uch"), m, h(r.randrange(N9 - 1)) * 2), "verify %s 6162 D %s @" % (r.choice("au"), m)]
            cmds += [imp(d, Q), "get u"]
        for i, bh in enumerate(sel):
            cmds += replay9(bh, r, "%s.h9.%d" % (k, i))
        c.conform("SM9Trace", ex9[k], cmds, "SM9 keys, " + k, defer=True)


gm.main("C16", body)
