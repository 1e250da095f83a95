"""C08: GHASH is the GF(2^128) polynomial for every key, input and split, in every implementation."""
from hash_common import *


def body(c):
    cfgs = gm.cpu_configs()
    exe = {k: build(c, k) for k in cfgs}
    tsan = {k: build(c, k, gm.TSAN, "tsan", "-O0") for k in cfgs}
    big = not c.quick
    r = c.rng
    c.background(c.model, "HashModel", hcfg(Kinds=["ghash"], Multi=True, Sizes=[0, 1, 15, 16, 17, 33], FinSizes=[0, 1, 16], MaxCalls=5 if big else 4),
                 what="GHASH object, every history of keys, resets, updates, finals")
    c.background(c.overrides)
    c.background(c.model, "HashBigCheck", what="closed forms for long messages agree with the definitions")
    beh = c.behaviours("HashModel", hcfg(Kinds=["ghash"], Sizes=[0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 80], FinSizes=[0, 1, 15, 16, 17, 32], MaxCalls=4 if big else 3, Emit=True),
                       what="GHASH streams")
    sim = simulate(c, ["ghash"], ["a", "b"], 14, 100 if c.quick else 2000, [0, 1, 15, 16, 17, 48], [0, 1, 16, 31])
    for k in cfgs:
        for impl in (["ghash", "ghash.common"] if k == "base" else ["ghash"] if k == "simd" else []):
            p = "%s.%s" % (k, impl)
            cmds = []
            for i, b in enumerate(beh):
                cmds += beh_cmds("%s.b%d" % (p, i), b, ["a"], True, impl)
            for i, b in enumerate(sim):
                cmds += beh_cmds("%s.s%d" % (p, i), b, ["a", "b"], False, impl)
            # the multiplication is bilinear: every pair of single bits
            step = 1
            for kb in range(0, 128, step):
                key = bytearray(16)
                key[kb // 8] = 128 >> (kb % 8)
                cmds += ["T %s.bits%d" % (p, kb), "new a " + impl, "key a " + hx(key)]
                for mb in (range(128) if big else [(kb * 7 + 5 * j) % 128 for j in range(0, 128, 3)] + [127 - kb % 128, kb]):
                    m = bytearray(16)
                    m[mb // 8] = 128 >> (mb % 8)
                    cmds += ["fin a %s 0" % hx(m), "reset a"]
            # every byte value in every position (tables), as key and as data
            for v in range(256):
                key = bytes((v + 17 * j) % 256 for j in range(16))
                m = bytes((v + 29 * j) % 256 for j in range(16))
                cmds += ["T %s.byte%d" % (p, v), "new a " + impl, "key a " + hx(key), "fin a %s 0" % hx(m), "key a " + hx(msg(r, 16)),
                         "upd a " + hx(m), "fin a %s 0" % hx(bytes([v]) * 16)]
            for i, (kv, mv) in enumerate([(0, 255), (255, 255), (255, 0), (128, 1), (1, 128)]):
                cmds += ["T %s.const%d" % (p, i), "new a " + impl, "key a " + hx(bytes([kv]) * 16), "fin a %s 0" % hx(bytes([mv]) * 64)]
            # block counts around any internal grouping, one call and split
            for n in list(range(0, 20)) + [31, 32, 33, 64, 65, 100]:
                cmds += ["T %s.n%d" % (p, n), "new a " + impl, "key a " + hx(msg(r, 16)), "fin a %s 0" % hx(msg(r, 16 * n)), "reset a"]
                left = 16 * n
                while left:
                    a = r.randrange(0, left + 1)
                    cmds.append("upd a " + hx(msg(r, a)))
                    left -= a
                cmds.append("fin a - 2")
            c.threads("HashTrace", exe[k], tsan[k], cmds, "GHASH, " + p, 48 if c.quick else 400)
            # more than 2^32 bits; in one call of more than 2^32 bytes with the fast implementation
            plan = [((1 << 26) + 3, (1 << 26) + 3, 5)] if k == "simd" else [((1 << 23) + 1, (1 << 23) + 1, 7)] if impl == "ghash" and (big or k == "base") else []
            for i, (n, per, pre) in enumerate(plan + ([((1 << 26) + 9, (1 << 26) + 9, 0)] if big and impl == "ghash" else [])):
                cmds += ["T %s.long%d" % (p, i), "new a " + impl, "key a " + hx(msg(r, 16)), "upd a " + hx(msg(r, pre)), "rep a %s %d %d" % (hx(msg(r, 64)), n, per),
                         "upd a " + hx(msg(r, 16 - pre)), "fin a %s 0" % hx(msg(r, 48))]
            if impl == "ghash":
                cmds += ["T %s.ctor" % p, "newk a ghash " + hx(msg(r, 16)), "fin a %s 0" % hx(msg(r, 48))]
            c.conform("HashTrace", exe[k], cmds, "GHASH, " + p, defer=True)


gm.main("C08", body)
