"""C02: each mode computes its standard function; decryption inverts it; in place too."""
from modes_common import *


def body(c):
    cfgs = gm.cpu_configs()
    exe = {k: build(c, k) for k in cfgs}
    ts = {k: build(c, k, extra=gm.TSAN, tag="tsan", opt="-O0") for k in cfgs if k == "base" or k == "simd"}
    big = not c.quick
    c.background(c.model, "ModesModel", cfg(Ciphers=["toy2"], Sizes=[0, 1, 2, 4], FinSizes=[0, 1, 2, 3, 4], MaxCalls=6 if big else 4),
                 what="every history gives the standard's output; the other direction undoes it")
    c.background(c.model, "ModesModel", cfg(Ciphers=["toy1"], Sizes=[1, 2], FinSizes=[0, 1], MaxCalls=6 if big else 5), what="1-byte blocks")
    toys = ["toy4p2", "toy4p3", "toy8p1", "toy5p2", "toy16p2", "toy12p2", "toy24p3"]
    r = c.rng
    for k in cfgs:
        cmds = []
        n = 0

        def add(*a, **kw):
            nonlocal n, cmds
            n += 1
            cmds += stream(r, "%s.%d" % (k, n), *a, **kw)
        ciphs = (toys if k != "port" else []) + ALL
        for ci in ciphs:
            bs = BS[ci]
            P = 3 if ci.startswith("toy") else 16
            for mode in MODES:
                for d, _ in DIRS:
                    lens = [0, 1, bs - 1, bs, bs + 1, 2 * bs, P * bs - 1, P * bs, P * bs + 1, 2 * P * bs + bs + 1] if P == 3 else \
                        r.sample([1, 15, 17, 33, 63, 65, 129, 255, 257, 300], 2) + r.sample([16, 32, 48, 64, 80, 96, 112, 128, 256, 272, 512], 2)
                    for ln in lens:
                        for ip in (False, True):
                            if c.quick and P != 3 and r.random() < 0.4:
                                continue
                            # one final call, and whole-block updates followed by a short final
                            add(mode, d, ci, [], ln, inplace=ip)
                            if ln > bs and (P == 3 or r.random() < 0.3):
                                a = bs * r.randrange(0, ln // bs + 1)
                                add(mode, d, ci, [a], ln - a, inplace=ip)
                    # a partial block is refused by ECB and CBC, in a final call with and without data
                    if mode in ("ecb", "cbc"):
                        for x in {1, bs - 1, bs + 1, 2 * bs - 1}:
                            add(mode, d, ci, [x], 0)
                            add(mode, d, ci, [bs], x)
            # CTR: a carry out of each byte, inside and across parallel calls
            for d, _ in DIRS:
                for pos in range(bs + 1):
                    for back in ([1, P, 2 * P + 1] if P == 3 else r.sample([1, 2, 3, 5, 8, 15, 16, 17], 2 if big else 1)):
                        low = (b"\xff" * pos).rjust(bs, b"\0")
                        base = int.from_bytes(low, "big") + ((r.getrandbits(8 * (bs - pos)) << (8 * pos)) if pos < bs else 0)
                        iv = ((base - back + 1) % (1 << (8 * bs))).to_bytes(bs, "big")
                        m = (back + 3) * bs
                        if d == "e" or P == 3:
                            add("ctr", d, ci, [], m + r.choice([0, 1]), iv=iv, inplace=r.random() < 0.3)
                        if r.random() < 0.3:
                            add("ctr", d, ci, [bs * back, bs], 2 * bs, iv=iv)
        c.conform("ModesTrace", exe[k], cmds, "single messages, " + k, defer=True)
        if k in ts:
            c.threads("ModesTrace", exe[k], ts[k], cmds, "single messages, " + k, 24 if c.quick else 200)
    if "simd" in cfgs:
        cmds = huge(r, "simd", "aes128", HUGE)
        c.conform("ModesTrace", exe["simd"], cmds, "a call of more than 2^32 bytes", env={"GM_FULLJIT": "1"}, defer=True)


gm.main("C02", body)
