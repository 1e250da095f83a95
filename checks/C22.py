"""C22: byte utilities are exact for every length, alignment and overlap of operands."""
from util_common import *


def body(c):
    big = not c.quick
    r = c.rng
    cfgs = [k for k in gm.cpu_configs() if k != "port"]
    exe = {k: c.build("util", k, SRC, opt="-O2") for k in cfgs}
    ts = c.build("util", "base", SRC, extra=gm.TSAN, tag="tsan", opt="-O0")
    c.background(c.model, "UtilModel", ucfg(12 if big else 8, [1, 2, 4, 8], [1, 3] if not big else [1, 2, 3]), what="chunked xor with every aliasing, endian access, dump text")
    c.background(c.overrides)
    for k in cfgs:
        cmds = []
        def one(name, mode, n, reps):
            t = ["T %s.%s" % (k, name)]
            for al in range(5):
                for tl in reps:
                    x, y = r.randbytes(n), r.randbytes(n)
                    if n and r.random() < 0.2:
                        x = bytes(n)
                    t.append("xor %s %d %d %s %s" % (mode, al, tl, hx(x), hx(y)))
            return t
        for n in list(range(0, 290 if not big else 1100)) + [383, 384, 385, 447, 448, 511, 512, 513, 543, 575, 576, 639, 767, 768, 769, 895, 1023, 1024, 1025, 1279, 1535, 1537, 2047]:
            cmds += one("n%d" % n if n < 1100 or not big else "N%d" % n, "n", n, [0, r.choice(range(1, 33))] if not big else [0, 1, 3, 16, 31]) if not (big and n in (383, 384, 385, 447, 448, 511, 512, 513, 543, 575, 576, 639, 767, 768, 769, 895, 1023, 1024, 1025) and ("T %s.n%d" % (k, n)) in cmds) else []
        for n in FIXED:
            cmds += one("t%d" % n, "t", n, [0, r.choice(range(1, 33))])
        for end in ("le", "be"):
            for w in (8, 16, 32, 64):
                t = ["T %s.e%s%d" % (k, end, w)]
                m = w // 8
                vals = [bytes(m), b"\xff" * m] + [bytes(128 >> (j % 8) if j // 8 == i else 0 for i in range(m)) for j in range(w)]
                vals += [bytes(range(1, m + 1)), bytes(range(0xf0, 0xf0 + m))] + [r.randbytes(m) for _ in range(2000 if big else 60)]
                for i, v in enumerate(vals):
                    t += ["ld %s %d %d %s" % (end, w, i % 17, hx(v)), "st %s %d %d %s" % (end, w, i % 17, hx(v))]
                cmds += t
        c.conform("UtilTrace", exe[k], cmds, "xor and endian access, " + k, defer=True)
        # more than 2^32 bytes
        c.conform("UtilTrace", exe[k], ["T %s.huge" % k, "xorhuge %s %s %d" % (hx(r.randbytes(16)), hx(r.randbytes(16)), (1 << 32) + (1 << 20) + 77)], "xor of more than 2^32 bytes, " + k, defer=True)
        if k == "base":
            c.threads("UtilTrace", exe[k], ts, cmds, "xor and endian access, " + k, 24)


gm.main("C22", body)
