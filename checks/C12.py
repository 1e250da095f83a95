"""C12: modular arithmetic gives the canonical representative for every operand."""
from num_common import *


def body(c):
    big = not c.quick
    r = c.rng
    exe = {k: c.build("num", k, SRC, opt="-O2") for k in CFGS}
    ts = {k: c.build("num", k, SRC, extra=gm.TSAN, tag="tsan", opt="-O0") for k in CFGS}
    c.background(c.model, "MontModel", mcfg(4, 3, [33, 47, 61]) if big else mcfg(4, 2, [9, 13, 15]), what="row-by-row reduction and the other operations, every odd modulus and operand")
    c.background(c.overrides)
    for k in CFGS:
        cmds = []
        for pn, p in PRIMES.items():
            ctx = "ctx %s %s %s %s" % (h(p), h(p - 2), h(R256 % p), h(R256 * R256 % p))
            spec = operands(r, p)
            mont = [x * R256 % p for x in (0, 1, 2, 3, p - 1, p - 2, (p + 1) // 2)]
            val = lambda: r.choice(spec) if r.random() < 0.6 else runs(r) % p
            q = "%s.%s" % (k, pn)
            # every call with every aliasing
            calls = ["Madd", "Msub", "Mmul"]
            for op in calls:
                t = ["T %s.%s" % (q, op), "mach 256", ctx]
                for d in range(3):
                    for a in range(2):
                        for b in range(2):
                            for _ in range(3 if not big else 30):
                                t += ["raw 0 " + h(val()), "raw 1 " + h(val()), "%s %d %d %d" % (op, d, a, b)]
                cmds += t + ["dump"]
            for op in ["Mdbl", "Mtpl", "Mneg", "Msqr", "Mdiv2", "Minv", "Mcpy"]:
                t = ["T %s.%s" % (q, op), "mach 256", ctx]
                for x in (spec if big or op != "Minv" else r.sample(spec, 25)) + [runs(r) % p for _ in range(20 if not big else 300)]:
                    if op == "Minv" and x == 0:
                        continue
                    t += ["raw 0 " + h(x), "%s 1 0" % op, "%s 0 0" % op, "Mget 0"]
                cmds += t + ["dump"]
            # sums and differences that meet the modulus, products of special values
            pairs = [(x, (p - x + e) % p) for x in spec for e in (0, 1, p - 1)] + [(x, (x + e) % p) for x in spec for e in (0, 1, p - 1)]
            prods = [(x, y) for x in spec for y in spec]
            if not big:
                pairs, prods = r.sample(pairs, 150), r.sample(prods, 500)
            t = ["T %s.edge" % q, "mach 256", ctx]
            for x, y in pairs:
                t += ["raw 0 " + h(x), "raw 1 " + h(y), "Madd 2 0 1", "Msub 3 0 1", "Meq 0 1", "Meqz 2", "Meq1 3"]
            cmds += t + ["dump"]
            for i in range(0, len(prods), 100):
                t = ["T %s.prod%d" % (q, i), "mach 256", ctx]
                for x, y in prods[i:i + 100]:
                    t += ["raw 0 " + h(x), "raw 1 " + h(y), "Mmul 2 0 1", "Msqr 3 2"]
                cmds += t
            # exponentiation
            exps = [0, 1, 2, 3, 4, 5, 15, 16, 17, p - 1, p - 2, p, p + 1, (p - 1) // 2, (p + 1) // 4, R256 - 1, 1 << 255, (1 << 255) - 1, R256 - 2] + \
                   [1 << j for j in range(0, 256, 16)] + [(1 << 64) - 1, 1 << 63, (1 << 128) - 1]
            t = ["T %s.pow" % q, "mach 256", ctx]
            for i, e in enumerate(exps + [runs(r) for _ in range(6 if not big else 150)]):
                for x in r.sample(mont[1:], 1) + [val() or 5] + ([0] if e and i % 5 == 0 else []):
                    t += ["raw 0 " + h(x), "raw 1 " + h(e)] + (["Mpow 2 0 1"] if i % 2 else ["Mpow 0 0 1"])
            cmds += t + ["dump"]
            # every digit at every place of the exponent, after and before zeros
            t = ["T %s.digits" % q, "mach 256", ctx]
            places = [(pl, dg) for pl in range(64) for dg in range(16)]
            for pl, dg in [(pl, dg) for pl in (0, 1, 62, 63) for dg in range(16)] + (places if big else r.sample(places, 40)):
                for e in (dg << 4 * pl, (r.getrandbits(256) & ~(15 << 4 * pl)) | dg << 4 * pl, (r.getrandbits(256) >> 4 * (63 - pl) & ~15 | dg) if pl else dg | 0xf0):
                    t += ["raw 0 " + h(val() or 5), "raw 1 " + h(e), "Mpow 2 0 1"]
            for e in range(16, 256) if big else r.sample(range(16, 256), 60) + [16 * j for j in range(1, 16)]:
                for e in (e, r.getrandbits(256) & ~0xff | e):
                    t += ["raw 0 " + h(val() or 5), "raw 1 " + h(e), "Mpow 2 0 1"]
            cmds += t
            # conversions
            t = ["T %s.conv" % q, "mach 256", ctx]
            for x in spec + [runs(r) % p for _ in range(20)]:
                t += ["Mset 0 " + h(x), "Mget 0", "raw 1 " + h(x), "Mget 1"]
            for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 34, 39, 40, 41, 47, 48, 55, 56, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 160, 200]:
                for x in (r.randbytes(n), b"\xff" * n, bytes(n), (p * (1 << 8 * max(0, n - 32))).to_bytes(max(n, 32), "big")[:n] if n >= 32 else b"\x01" * n):
                    t += ["Mex 0 " + hx(x), "Mget 0"]
            for w in ([4] if k == "base" else [4, 8]):
                for x in (0, 1, 2, (1 << 8 * w) - 1, 1 << (8 * w - 1), r.getrandbits(8 * w)):
                    t += ["Msetw 0 " + h(x, w), "Mget 0", "Meq1 0", "Meqz 0"]
            t += ["Mone 1", "Meq1 1", "Meqz 1", "Mget 1", "Mzero 2", "Meqz 2", "Meq1 2", "Mget 2", "raw 3 " + h(1), "Meq1 3", "Meq 3 1", "Mget 3"]
            for j in range(0, 256, 32):
                x = R256 % p ^ (1 << j)
                if x < p:
                    t += ["raw 3 " + h(x), "Meq1 3", "Meq 3 1", "raw 4 " + h(1 << j), "Meqz 4"]
            cmds += t + ["dump"]
            # programs
            for i in range(6 if not big else 60):
                t = ["T %s.prog%d" % (q, i), "mach 256", ctx] + ["raw %d %s" % (j, h(val())) for j in range(6)]
                for _ in range(60):
                    op = r.choice(["Madd", "Msub", "Mmul", "Mmul", "Mdbl", "Mtpl", "Mneg", "Msqr", "Mdiv2", "Mget", "Meq", "Mcpy"])
                    d, a, b = [r.randrange(6) for _ in range(3)]
                    t.append("%s %d %d %d" % (op, d, a, b) if op in ("Madd", "Msub", "Mmul") else "Mget %d" % a if op == "Mget" else "%s %d %d" % (op, d, a))
                cmds += t + ["dump"]
        c.conform("NumTrace", exe[k], cmds, "modular arithmetic, " + k, defer=True)
        c.threads("NumTrace", exe[k], ts[k], cmds, "modular arithmetic, " + k, 16 if c.quick else 100)


gm.main("C12", body)
