"""Commands for drivers/prime.h."""


def b32(v):
    return "%064x" % v


def values(m, r, n):
    w = lambda: 1 << 32 * r.randrange(1, 8)
    v = [0, 1, 2, 3, m - 1, m - 2, m - 3, (m - 1) // 2, (m + 1) // 2, (1 << 256) % m, (-(1 << 256)) % m, (1 << 255) % m]
    v += [x % m for _ in range(n) for x in (w() - 1, w(), m - w(), m - w() - 1, m - w() + 1, r.getrandbits(256), r.getrandbits(256), r.getrandbits(128), r.getrandbits(128) << 128)]
    return v


def prime_cmds(r, pre, p, n, quick, more=()):
    res = []
    for w, m in (("p", p), ("n", n)):
        vs = values(m, r, 3 if quick else 24)
        for i, a in enumerate(vs):
            t = ["T %s.pf%s%d" % (pre, w, i)]
            for f in ["sqr", "cpy"] + ["dbl", "tpl", "neg"] * (w == "p") + (["inv"] if a else []):
                t += ["pf %s %s %s - %d" % (w, f, b32(a), al) for al in range(2)]
            for _ in range(2 if quick else 6):
                b = r.choice(vs)
                t += ["pf %s %s %s %s %d" % (w, f, b32(a), b32(b), r.randrange(3)) for f in ("add", "sub", "mul")]
            t += ["pf %s %s %s %s %d" % (w, f, b32(a), b32(m - a if a else 0), r.randrange(3)) for f in ("add", "sub")]
            t += ["pf %s %s %s %s %d" % (w, f, b32(a), b32(a), r.choice([3, 4])) for f in ("add", "sub", "mul")]
            t += ["pf %s %s %s - 0" % (w, f, b32(a)) for f in ("set0", "set1", "is0", "is1", "tobn", "conv")]
            t.append("pf %s eq %s %s 0" % (w, b32(a), b32(a)))
            for s in (0, 32, 64, 96, 128, 160, 192, 224):
                x = (a + (1 << s)) % m
                t.append("pf %s eq %s %s 0" % (w, b32(a), b32(x)))
            if w == "p":
                # squares and others
                t += ["pf p sqrt %s - %d" % (b32(v), r.randrange(2)) for v in (a, a * a % m, m - a * a % m if a else 0)]
            res += t
        res += ["T %s.pf%s.one" % (pre, w)]
        for s in range(0, 256, 8):
            for x in (1 << s, 1 + (1 << s)):
                if x < m:
                    res += ["pf %s is0 %s - 0" % (w, b32(x)), "pf %s is1 %s - 0" % (w, b32(x))]
        # numbers that are not reduced
        big = [m, m + 1, m - 1, (1 << 256) - 1, 1 << 255, m + r.randrange((1 << 256) - m), r.getrandbits(256), ((1 << 128) - 1 << 128) + r.getrandbits(128), ((1 << 64) - 1 << 192) + r.getrandbits(192)]
        res += ["T %s.pf%s.big" % (pre, w)] + ["pf %s frombn %s - 0" % (w, b32(v)) for v in big]
        if w == "p":
            res += ["pf p check %s - 0" % b32(v) for v in big + vs + [m - (1 << s) for s in range(0, 255, 16)] + [m + (1 << s) for s in range(0, 255, 16) if m + (1 << s) < 1 << 256]]
        else:
            res += ["pf n fromex %s - 0" % (r.randbytes(k).hex() or "-") for k in (0, 1, 31, 32, 33, 40, 63, 64, 65, 100)]
            res += ["pf n fromex %s%s - 0" % (b32(v), z) for v in big for z in ("", b32(r.getrandbits(256)), "00")]
            res += ["pf n fromex %s%s - 0" % (b32(v), b32(x)) for v in big[:4] for x in big[:4]]
    # plain numbers, nearly reduced
    near = [x for k in range(5) for x in (n - k, n + k)] + [(1 << 256) - 1, 0, 1] + [r.getrandbits(256) for _ in range(4)]
    res += ["T %s.pfb" % pre] + ["pf b %s %s - 0" % (f, b32(v)) for v in near for f in ("msub1", "msub2", "cpy", "is0") + tuple(more)]
    for s in range(0, 256, 16):
        res += ["pf b is0 %s - 0" % b32(1 << s)]
        a = r.getrandbits(256)
        res += ["pf b cmp %s %s 0" % (b32(x), b32(y)) for x, y in ((a, a), (a, a ^ (1 << s)), (a ^ (1 << s), a), (1 << s, (1 << s) - 1), ((1 << s) - 1, 1 << s))]
    if "msub1ex" in more:
        res += ["pf b msub1ex %s - 0" % r.randbytes(k).hex() for k in (32, 33, 40, 63, 64, 100)]
    return res
