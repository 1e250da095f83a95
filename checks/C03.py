"""C03: GCM output and tag."""
from modes_common import *


def body(c):
    cfgs = gm.cpu_configs()
    exe = {k: build(c, k) for k in cfgs}
    ts = {k: build(c, k, extra=gm.TSAN, tag="tsan", opt="-O0") for k in cfgs if k == "base" or k == "simd"}
    big = not c.quick
    r = c.rng
    c.background(c.model, "ModesModel", cfg(Ciphers=["toy16p2"], Modes=["gcm"], Sizes=[0, 1, 15, 16, 17, 33], FinSizes=[0, 1, 15, 16, 17],
                              MaxCalls=4 if big else 3), what="GCM machine equals SP 800-38D for every split")
    c.background(c.overrides)
    lows = [0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffff0, 0xffffffee, 0x00ffffff, 0x0000ffff, 0x000000ff, 0x7fffffff]
    wrap = gcm_wrap_ivs(c, ["toy16p2", "sm4", "aes128", "aes256"], lows)
    lens = [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 127, 128, 129, 255, 256, 257]
    for k in cfgs:
        cmds = []
        n = 0

        def add(*a, **kw):
            nonlocal n, cmds
            n += 1
            cmds += stream(r, "%s.%d" % (k, n), *a, **kw)
        for ci in ["toy16p2"] + ALL:
            many = ci == "toy16p2" or big
            # every IV length class, every AAD length class, every text length class
            for ivl in (list(range(1, 34)) + [60, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 517, 1024, 4096, 4097]) if many else r.sample(range(1, 40), 5) + [12, 16]:
                add("gcm", "e", ci, [], r.choice([0, 1, 16, 20, 33]), iv=msg(r, ivl), aad=msg(r, r.choice([0, 5, 16, 20])))
            for al in (list(range(0, 50)) + [63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 4100]) if many else r.sample(lens, 5):
                add("gcm", "e", ci, [], r.choice([0, 1, 16, 20]), aad=msg(r, al))
            for ml in (list(range(0, 70)) + [79, 80, 81] + lens[12:] + [511, 512, 513, 1040]) if many else r.sample(lens, 7):
                add("gcm", "e", ci, [], ml, aad=msg(r, r.choice([0, 3])), inplace=r.random() < 0.3)
            # lengths that look like others when their high bits are lost
            if ci == "toy16p2" or ci == "sm4" or big:
                for e in range(4, 13):
                    add("gcm", "e", ci, [], 5, iv=msg(r, 12 + (1 << e)), aad=msg(r, r.choice([0, 3]) + (1 << e)))
                for e in (13, 16):
                    add("gcm", "e", ci, [], 5, iv=msg(r, 12 + (1 << e)))
                    add("gcm", "e", ci, [r.choice([3, 16])], (1 << e) + r.choice([0, 1, 15]), aad=msg(r, 7 + (1 << e)))
            for _ in range(60 if many else 8):
                add("gcm", "e", ci, [r.choice(lens) for _ in range(r.choice([1, 2, 3]))], r.choice(lens[:12]),
                    iv=msg(r, r.choice([12, 12, 1, 8, 16, 20])), aad=msg(r, r.choice([0, 1, 16, 17])), inplace=r.random() < 0.3)
        for w in wrap:
            for ch, fin in (([], 48), ([], 300), ([16, 16, 1], 40), ([33], 0)):
                if w["c"] != "toy16p2" and r.random() < 0.5:
                    continue
                add("gcm", "e", w["c"], ch, fin, iv=bytes(w["iv"]), key=bytes(w["key"]), aad=msg(r, r.choice([0, 5])))
        brief = list(cmds)
        if k == cfgs[-1]:
            c.background(c.model, "GcmBigCheck", what="closed forms for long messages agree with the definitions")
            cmds += long_msgs(r, k, big, "e")
            cmds += long_ivs(r, k, big, "e")
        c.conform("ModesTrace", exe[k], cmds, "encryptions, " + k, defer=True)
        if k in ts:
            c.threads("ModesTrace", exe[k], ts[k], brief, "encryptions, " + k, 24 if c.quick else 200)


gm.main("C03", body)
