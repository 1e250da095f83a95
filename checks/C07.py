"""C07: HMAC is the RFC 2104 function."""
from hash_common import *


def body(c):
    cfgs = [k for k in gm.cpu_configs() if k != "simd"]
    exe = {k: build(c, k) for k in cfgs}
    tsan = {k: build(c, k, gm.TSAN, "tsan", "-O0") for k in cfgs}
    big = not c.quick
    r = c.rng
    BLK = hx(msg(r, 64))
    c.background(c.model, "HashModel", hcfg(Kinds=["hmac-th8", "hmac-th4"], Ids=["a"], Multi=True, Sizes=[0, 1, 4, 8, 9], FinSizes=[0, 1, 8], MaxCalls=6 if big else 5),
                 what="HMAC object: every history of keys, updates and finals gives H((K^opad)||H((K^ipad)||m))")
    c.background(c.overrides)
    c.background(c.model, "HashBigCheck", what="closed forms for long keys and messages agree with the definitions")
    beh = c.behaviours("HashModel", hcfg(Kinds=["hmac-th8", "hmac-th4"], Sizes=[0, 1, 3, 4, 7, 8, 9, 16, 17], FinSizes=[0, 1, 4, 8], MaxCalls=4, Emit=True), what="HMAC streams")
    sim = simulate(c, ["hmac-th8", "hmac-sm3"], ["a", "b"], 14, 100 if c.quick else 2000, [0, 1, 8, 63, 64], [0, 1, 64])
    for k in cfgs:
        cmds = []
        for i, b in enumerate(beh):
            if k == "base" or i % 5 == 0:
                cmds += beh_cmds("%s.b%d" % (k, i), b, ["a"], True)
        for i, b in enumerate(sim):
            cmds += beh_cmds("%s.s%d" % (k, i), b, ["a", "b"], False)
        for kind in ("hmac-sm3", "hmac-th8", "hmac-th4"):
            bs = HBS[kind]
            for kl in list(range(0, 2 * bs + 10)) + [191, 192, 193, 256, 1000]:
                for ml in r.sample([0, 1, bs - 1, bs, bs + 1, 2 * bs, 100], 2 if kind == "hmac-sm3" else 3):
                    key = r.choice([msg(r, kl), bytes([255]) * kl, bytes(kl)]) if r.random() < 0.3 else msg(r, kl)
                    t = ["T %s.%s.%d.%d" % (k, kind, kl, ml)]
                    if kind == "hmac-sm3" and r.random() < 0.3:
                        t.append("newk a hmac-sm3 " + hx(key))
                    else:
                        t += ["new a " + kind, "key a " + hx(key)]
                    a = r.randrange(0, ml + 1)
                    if r.random() < 0.5:
                        t.append("upd a " + hx(msg(r, a)))
                    t.append("fin a %s 0" % hx(msg(r, ml - a)))
                    # the same object under another key
                    t += ["key a " + hx(msg(r, r.choice([0, 1, bs, bs + 1, 2 * bs]))), "fin a %s 0" % hx(msg(r, ml))]
                    cmds += t
        c.conform("HashTrace", exe[k], cmds, "HMAC, " + k, defer=True)
        c.threads("HashTrace", exe[k], tsan[k], cmds, "HMAC, " + k, 48 if c.quick else 400)
        # lengths that do not fit 8, 16, 29 or 32 bits: of the key (n blocks and a tail) and of the message
        cmds = []
        plan = [(n + d, r.randrange(65)) for n in (1 << 2, 1 << 10, 1 << 11, 1 << 14) for d in (-1, 0, 1)]
        plan += [(n, t) for n in (4, 1 << 10, 1 << 12) for t in (0, 1, 63)]
        plan += [(1 << 23, 1)] if c.quick or k != "base" else [(1 << 23, 1), (1 << 26, 0), ((1 << 26) + 1, 5)]
        if k == "base":
            plan.append((1 << 26, r.randrange(1, 64)))
        for i, (n, t) in enumerate(plan):
            cmds += ["T %s.longkey%d" % (k, i), "new a hmac-sm3", "rkey a %s %d %s" % (BLK, n, hx(msg(r, t))), "upd a " + hx(msg(r, 5)), "fin a %s 0" % hx(msg(r, 90))]
        for i, (n, per) in enumerate([(1 << 10, 1 << 10), ((1 << 23) - 1, 1 << 23), (1 << 23, 1 << 20)]):
            cmds += ["T %s.longmsg%d" % (k, i), "new a hmac-sm3", "key a " + hx(msg(r, 70 * i)), "upd a " + hx(msg(r, 3 * i)), "rep a %s %d %d" % (BLK, n, per), "fin a %s 0" % hx(msg(r, 9))]
        c.conform("HashTrace", exe[k], cmds, "HMAC, long keys and messages, " + k, env={"GM_FULLJIT": "1"}, defer=True)


gm.main("C07", body)
