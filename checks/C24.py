"""C24: diagnostic dumps print exactly the given bytes."""
from asn1_common import *
import util_common

FMT = ["%02x", "%02X", "%x", "%d", "%3u", "%03o", "0x%02x"]


def body(c):
    big = not c.quick
    r = c.rng
    exe = build(c)
    mem = c.build("util", "base", util_common.SRC)
    model(c)
    c.background(c.model, "UtilModel", util_common.ucfg(9 if big else 7, [1, 2, 4, 8], [1, 2, 3]), what="dump text printed item by item")
    cmds = ["T all"] + ["dump %s 16 - 1 - - - %d" % (hx(bytes(range(256))), d) for d in (1, 2)]
    for w in [1, 2, 3, 7, 8, 15, 16, 17, 32, 100]:
        for n in sorted(set([0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w + r.randrange(0, w)])):
            t = ["T d%d.%d" % (w, n)]
            for i, f in enumerate(FMT):
                for asc in (0, 1):
                    if not big and i > 1 and r.random() < 0.5:
                        continue
                    sep = r.choice([" ", "", ", ", "%", ":", "\n"])
                    t.append("dump %s %d %s %d %s %s %s 0" % (hx(r.randbytes(n)), w, hx(f.encode()), asc, hx(sep.encode()), hx(r.choice(["", "x = ", "%s", "a\n"]).encode()), hx(r.choice(["", "\n", "%d;"]).encode())))
            t.append("dump %s %d - %d - - - 2" % (hx(r.randbytes(n)), w, n % 2))
            t.append("dump %s 16 - 1 - - - 1" % hx(r.randbytes(n)))
            cmds += t
    for i in range(1500 if big else 60):
        cmds += ["T r%d" % i, "dump %s %d %s %d %s - 0a 0" % (hx(r.randbytes(r.randrange(0, 80))), r.randrange(1, 40), hx(r.choice(FMT).encode()), r.randrange(2), hx(r.choice([" ", "-", ""]).encode()))]
    c.conform("UtilTrace", mem, cmds, "memory dumps", defer=True)
    cmds = []
    for i, x in enumerate(strings(c, [0, 1, 4, 5, 32, 36, 48, 129, 2], 4 if big else 3)):
        if i % 40 == 0:
            cmds.append("T s%d" % i)
        cmds.append("adump " + hx(x))
    t = []
    for v in range(256):
        if v % 32 != 31:
            t += ["adump " + hx(bytes([v, 2, 5, 0])), "adump " + hx(bytes([v, 129, 2, 5, 0]))]
    for n in list(range(0, 36)) + [127, 128, 129, 255, 256, 257]:
        for k in range(0, 9):
            if n < 256 ** k or (k == 0 and n < 128):
                t.append("adump " + hx(bytes([4]) + (bytes([128 + k]) + n.to_bytes(k, "big") if k else lenoct(n)) + r.randbytes(n)))
    for d in list(range(1, 30)) + [64, 100, 200]:
        x = b"\5\0"
        for _ in range(d):
            x = tlv(r.choice([48, 49, 36, 160]), x + (b"\1\1\1" if r.random() < 0.3 else b""))
        t.append("adump " + hx(x))
        t.append("adump " + hx(x[:-1]))
    for i in range(3000 if big else 200):
        x = b"".join(tree(r, r.choice([1, 2, 3, 4])) for _ in range(r.choice([1, 1, 2, 3])))
        t.append("adump " + hx(x))
        t += ["adump " + hx(y) for y in corruptions(r, x, 2)]
    for i, (n, tag, x) in enumerate([(3000, 48, b"\5\0"), (2500, 49, b"\1\1\1\5\0"), (2500, 48, b"\4\5abc")] + ([(12000, 160, b"\5\0")] if big else [])):
        cmds += ["T deep%d" % i, "adeep %d %d %s" % (n, tag, hx(x))]
    for k in range(0, len(t), 40):
        cmds += ["T a%d" % k] + t[k:k + 40]
    c.conform("Asn1Trace", exe, cmds, "ASN.1 dumps", defer=True)


gm.main("C24", body)
