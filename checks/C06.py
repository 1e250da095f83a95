"""C06: SM3 is the standard function for every message and split."""
from hash_common import *


def body(c):
    cfgs = gm.cpu_configs()
    exe = {k: build(c, k) for k in cfgs}
    tsan = {k: build(c, k, gm.TSAN, "tsan", "-O0") for k in cfgs}
    big = not c.quick
    r = c.rng
    c.background(c.model, "HashModel", hcfg(Kinds=["sm3"], Sizes=[0, 1, 55, 56, 63, 64, 65, 130], FinSizes=[0, 1, 8, 9, 55, 56, 63, 64], MaxCalls=4 if big else 3),
                 what="SM3 object, every call history: digest of the concatenation")
    c.background(c.overrides)
    c.background(c.model, "HashBigCheck", what="closed forms for long messages agree with the definitions")
    beh = c.behaviours("HashModel", hcfg(Kinds=["sm3"], Sizes=[0, 1, 8, 55, 56, 63, 64, 65, 128, 130], FinSizes=[0, 1, 8, 55, 56, 63, 64, 65], MaxCalls=4 if big else 3, Emit=True),
                       what="SM3 streams")
    for k in cfgs:
        for impl in (["sm3"] if k == "base" else ["sm3", "sm3.common"] if k == "port" else ["sm3"]):
            p = "%s.%s" % (k, impl)
            cmds = []
            for i, b in enumerate(beh):
                if k != "base" and not big and i % 3:
                    continue
                cmds += beh_cmds("%s.b%d" % (p, i), b, ["a"], True, impl)
            # every length around the padding boundaries, in one call
            for n in list(range(0, 260)) + [511, 512, 513, 1000, 1023, 1024, 1025, 4096]:
                cmds += ["T %s.len%d" % (p, n), "new a " + impl, "fin a %s 0" % hx(msg(r, n))]
            # one-bit messages, constant bytes
            for n in range(0, 512, 7 if c.quick else 1):
                m = bytearray(64)
                m[n // 8] = 1 << (n % 8)
                cmds += ["T %s.bit%d" % (p, n), "new a " + impl, "fin a %s 0" % hx(m)]
            for v in (0, 255, 0x80, 1):
                cmds += ["T %s.const%d" % (p, v), "new a " + impl, "fin a %s 0" % hx(bytes([v]) * 200)]
            # random splits of random messages, object reused after reset
            for i in range(60 if c.quick else 1000):
                cmds += ["T %s.r%d" % (p, i), "new a " + impl]
                for _ in range(2):
                    for _ in range(r.randrange(0, 6)):
                        cmds.append("upd a %s" % hx(msg(r, r.choice([0, 1, 3, 31, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 200]))))
                    cmds.append("fin a %s %d" % ((hx(msg(r, r.randrange(0, 70))), 0) if r.random() < 0.6 else ("-", 2)))
                    cmds.append("reset a")
            c.conform("HashTrace", exe[k], cmds, "messages, " + p, defer=True)
            c.threads("HashTrace", exe[k], tsan[k], cmds, "messages, " + p, 48 if c.quick else 400)
        # the length field: 2^29 bytes are 2^32 bits; 2^32 bytes do not fit 32 bits either
        cmds = []
        blk = hx(msg(r, 64))
        n29 = 1 << 23
        if k == "base":
            plan = [(n29, n29 + 1, 1), (n29 + 3, 1 << 20, 0), ((1 << 26) + r.randrange(9), 1 << 27, 5)]  # the last: one call of more than 2^32 bytes
        elif k == "port":
            plan = [(n29 + 1, n29 + 1, 5)]
        else:
            plan = [(n29 - 1, 1 << 22, 60)]
        if big:
            plan += [((1 << 26) + 1, 1 << 22, 3)]
        for i, (n, per, pre) in enumerate(plan):
            cmds += ["T %s.long%d" % (k, i), "new a sm3", "upd a %s" % hx(msg(r, pre)), "rep a %s %d %d" % (blk, n, per),
                     "upd a %s" % hx(msg(r, 70)), "fin a %s 0" % hx(msg(r, 9))]
        c.conform("HashTrace", exe[k], cmds, "messages of 2^32 bits and more, " + k, env={"GM_FULLJIT": "1"}, defer=True)


gm.main("C06", body)
