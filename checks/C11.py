"""C11: 256-bit and variable-length integers are exact, whatever the operands and aliasing."""
from num_common import *

MODS = list(PRIMES.values()) + [R256 - 1, 1 << 255, (1 << 255) + 1, R256 - 189]


def words(r, k):
    w = [4] if k == "base" else [4, 8]
    n = r.choice(w)
    m = (1 << (8 * n)) - 1
    x = r.choice([0, 1, 2, m, m - 1, 1 << (8 * n - 1), 0xffff, m >> 1, r.getrandbits(8 * n), r.getrandbits(8 * n)])
    return x, n


def small(r):
    """a modulus of any size"""
    b = r.choice([1, 2, 8, 31, 32, 33, 63, 64, 65, 128, 192, 224, 240, 247, 248, 254, 255, r.randrange(1, 256)])
    return r.choice([1 << b, (1 << b) - 1, (1 << b) + 1, r.getrandbits(b) | 1 << (b - 1), 1, 2, 3])


def body(c):
    big = not c.quick
    r = c.rng
    exe = {k: c.build("num", k, SRC, opt="-O2") for k in CFGS}
    ts = {k: c.build("num", k, SRC, extra=gm.TSAN, tag="tsan", opt="-O0") for k in CFGS}
    c.background(c.model, "LimbModel", lcfg(4 if big else 3, 2, CALLS), what="limb by limb, in place, every operand and aliasing")
    if big:
        c.background(c.model, "LimbModel", lcfg(2, 3, CALLS), what="limb by limb, three limbs of one bit")
    c.background(c.overrides)
    progs = c.behaviours("LimbModel", lcfg(2, 1, CALLS, 1, True), what="every call with every aliasing")
    if big:
        progs += c.behaviours("LimbModel", lcfg(2, 1, CALLS, 2, True), what="every pair of calls with every aliasing")
    spec = operands(r)
    for k in CFGS:
        cmds = []
        val = lambda: r.choice(spec) if r.random() < 0.5 else runs(r)
        for i, b in enumerate(progs):
            t = ["T %s.p%d" % (k, i), "mach 256"]
            m = r.choice(MODS) if r.random() < 0.7 else small(r)
            for rep in range(3 if not big else 6 if len(b) == 1 else 1):
                mod = any(x["op"] in ("madd", "msub") for x in b)
                vs = [val(), val(), val()]
                if mod:
                    vs = [r.choice([x % m, m - 1 - x % m, m - 1, 0]) for x in vs]
                    vs[2] = m
                    # equal sums and small differences reach the correction's edges
                    if r.random() < 0.3:
                        vs[1] = m - vs[0] if vs[0] else 0
                for j, v in enumerate(vs):
                    t.append("%s %d %s" % (r.choice(["set", "raw"]), j, h(v)))
                ok = True
                for x in b:
                    d, a, bb = x["d"] - 1, x["a"] - 1, x["b"] - 1
                    if x["op"] in ("madd", "msub"):
                        if not (vs[0] < vs[2] and vs[1] < vs[2]) or a == 2 or bb == 2 or len(b) > 1:
                            continue
                        t.append("%s %d %d %d 2" % (x["op"], d, a, bb))
                    elif x["op"] in ("mulw", "divw"):
                        w, n = words(r, k)
                        if x["op"] == "divw":
                            w, n = w or 1, 4 if k == "base" else 8
                        t.append("%s %d %d %s" % (x["op"], d, a, h(w, n)))
                    elif x["op"] in ("dbl", "tpl", "cpy"):
                        t.append("%s %d %d" % (x["op"], d, a))
                    else:
                        t.append("%s %d %d %d" % (x["op"], d, a, bb))
                t.append("dump")
            cmds += t
        # all pairs of special values through every two-operand call
        pairs = [(x, y) for x in spec for y in spec]
        if not big:
            pairs = [p for p in pairs if r.random() < 0.12] + [(x, x) for x in spec]
        for i in range(0, len(pairs), 40):
            t = ["T %s.s%d" % (k, i), "mach 256"]
            for x, y in pairs[i:i + 40]:
                t += ["raw 0 " + h(x), "raw 1 " + h(y), "add 2 0 1", "sub 3 0 1", "mul 6 0 1", "cmp 0 1", "eq 0 1", "sub 3 3 2", "add 2 2 3"]
            cmds += t + ["dump"]
        for i, x in enumerate(spec):
            t = ["T %s.u%d" % (k, i), "mach 256", "set 0 " + h(x), "get 0", "bits 0", "dbl 1 0", "tpl 2 0", "sqr 6 0", "eqz 0", "eq1 0", "cpy 3 0", "dbl 0 0"]
            for _ in range(4 if not big else 20):
                w, n = words(r, k)
                t += ["raw 0 " + h(x), "addw 1 0 " + h(w, n), "subw 1 0 " + h(w, n), "cmpw 0 " + h(w, n), "mulw 1 0 " + h(w, n), "setw 4 " + h(w, n),
                      "cmpw 4 " + h(w, n), "addw 0 0 " + h(w, n), "subw 0 0 " + h(w, n), "mulw 0 0 " + h(w, n)]
                w, n = (w or 3), 4 if k == "base" else 8
                t += ["divw 1 0 " + h(w, n), "divw 0 0 " + h(w, n), "zero 5", "cmpw 5 " + h(w, n), "one 5", "cmpw 5 " + h(1, n), "eq1 5", "eqz 5"]
            cmds += t + ["dump"]
        # differing in one limb only; comparison must see it
        for j in range(0, 256, 32):
            x = runs(r)
            t = ["T %s.c%d" % (k, j), "mach 256"]
            for y in (x, x ^ (1 << j), x ^ (1 << (j + 31)), x ^ (0xffffffff << j)):
                t += ["raw 0 " + h(x), "raw 1 " + h(y), "cmp 0 1", "cmp 1 0", "eq 0 1", "raw 2 " + h(x & 0 | 1 << j), "eqz 2", "eq1 2", "cmpw 2 " + h(1, 4), "cmpw 2 " + h(0xffffffff, 4)]
            cmds += t
        # one bit away from nought and from one
        t = ["T %s.bits" % k, "mach 256", "raw 1 " + h(0), "raw 3 " + h(1)]
        for j in range(256):
            t += ["raw 0 " + h(1 << j), "eqz 0", "eq1 0", "eq 0 1", "cmp 0 1", "bits 0", "raw 2 " + h(1 ^ 1 << j), "eq1 2", "eqz 2", "cmp 2 3", "cmpw 2 " + h(1, 4), "cmpw 0 " + h(0, 4)]
        cmds += t
        # reduction of data of any length
        for i in range(30 if not big else 200):
            t = ["T %s.m%d" % (k, i), "mach 256"]
            for _ in range(8):
                m = r.choice(MODS) if r.random() < 0.6 else small(r)
                n = r.choice([31, 63, 0, 1, 2, 4, 8, 16, 31, 32, 33, 36, 39, 40, 41, 48, 63, 64, 65, 72, 96, 100, 128, 200])
                if len(t) <= 3:
                    n = (i + 30 * len(t)) % 130  # every length
                x = r.choice([r.getrandbits(8 * n) if n else 0, (1 << 8 * n) - 1, m * r.getrandbits(max(1, 8 * n - m.bit_length())) if n > 32 else m - 1, m * r.getrandbits(max(1, 8 * n - m.bit_length() - 1)) + m - 1 if n > 32 else 0, m, runs(r, 32 * (n // 4)) if n >= 4 else 0])
                x &= (1 << 8 * n) - 1
                t += ["raw 2 " + h(m), "mod %d 2 %s" % (r.choice([0, 1]), hx(x.to_bytes(n, "big")))]
            cmds += t + ["dump"]
        # integers of any number of limbs
        for nb in range(1, 13 if not big else 21):
            bits = 64 * nb if k != "base" else r.choice([32, 64]) * nb
            if k == "base" and big:
                bits = 32 * nb
            n = bits // 8
            sp = special(bits)
            t = ["T %s.z%d" % (k, nb), "mach %d" % bits, "Zepi"]
            for j in range(14 if not big else 100):
                x, y = [(r.choice(sp) if r.random() < 0.5 else runs(r, bits)) for _ in range(2)]
                y = r.choice([y, y, x, x ^ (1 << r.randrange(bits)), ((1 << bits) - 1) ^ x])
                d, a, b2 = r.randrange(3), r.randrange(3), r.randrange(3)
                t += ["Zset 0 " + h(x, n), "Zset 1 " + h(y, n), "Zcmp 0 1", "Zcmp 1 0", "Zget 0", "Zmul 6 0 1", "Zmul 7 %d %d" % (a, b2),
                      "Zadd %d %d %d %d" % (d, a, b2, r.randrange(2)), "Zset 0 " + h(x, n), "Zsub %d %d %d %d" % (d, a, b2, -r.randrange(2)), "Zcpy %d %d" % (a, d), "Zadd 2 0 1 1", "Zsub 3 0 1 -1", "Zcpy 1 0"]
            cmds += t + ["dump"]
        for nb in [31, 32, 33, 63, 64, 65, 128, 255, 256, 257, 300] + ([511, 513, 1024, 2000] if big else []):
            bits = (32 if k == "base" else 64) * nb
            n = bits // 8
            top = 1 << (bits - 1)
            t = ["T %s.zl%d" % (k, nb), "mach %d" % bits]
            for x in ((1 << bits) - 1, runs(r, bits)):
                for y in (1, x ^ (1 << r.randrange(bits)), (x ^ top), r.getrandbits(bits)):
                    t += ["Zset 0 " + h(x, n), "Zset 1 " + h(y, n), "Zcmp 0 1", "Zcmp 1 0", "Zadd 2 0 1 1", "Zsub 3 0 1 -1", "Zsub 3 1 0 0", "Zcpy 4 3", "Zcmp 3 4"]
                t += ["Zget 2", "Zget 3", "Zmul 6 0 1"]
            cmds += t
        c.conform("NumTrace", exe[k], cmds, "integers, " + k, defer=True)
        c.threads("NumTrace", exe[k], ts[k], cmds, "integers, " + k, 16 if c.quick else 100)


gm.main("C11", body)
