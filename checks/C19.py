"""C19: ASN.1 encoders emit DER and exactly the length they announce."""
from asn1_common import *


def body(c):
    big = not c.quick
    r = c.rng
    exe = build(c)
    model(c)
    cmds = ["T bool", "ebool 0", "ebool 1"]
    lens = list(range(0, 140)) + list(range(250, 262)) + [300, 511, 512, 1000]
    for n in lens:
        t = ["T n%d" % n]
        for v in [bytes(n), b"\xff" * n, b"\x7f" + b"\xff" * (n - 1) if n else b"", b"\x80" + bytes(n - 1) if n else b"", r.randbytes(n)]:
            t.append("eint " + hx(v))
            t.append("eoct " + hx(v))
            t.append("ebits %s %d" % (hx(v), 8 * n))
        # leading zeros
        for z in (1, 2, 31, 127, 128):
            if z < n:
                t.append("eint " + hx(bytes(z) + bytes([r.choice([1, 127, 128, 255])]) + r.randbytes(n - z - 1)))
        for u in range(1, 8):
            if n:
                v = bytearray(r.randbytes(n))
                v[-1] &= 256 - (1 << u)
                t.append("ebits %s %d" % (hx(v), 8 * n - u))
        cmds += t
    for n in [65534, 65535, 65536, 65537] if big else [65535, 65536]:
        v = r.randbytes(n - 1)
        cmds += ["T big%d" % n, "eoct " + hx(v + b"\1"), "eint " + hx(b"\x80" + v), "eint " + hx(b"\x7f" + v), "ebits %s %d" % (hx(v), 8 * (n - 1))]
    # tag and length, and announced sizes, around every length-octet boundary
    edge = sorted(set([0, 1, 2, 3, 4, 5, 100, 126, 127, 128, 129] + [(1 << b) + d for b in range(8, 63) for d in (-3, -2, -1, 0, 1)] + [(1 << 63) - 1, 1 << 63, (1 << 64) - 100]))
    for i, n in enumerate(edge):
        b8 = n.to_bytes(8, "big")
        cmds += ["T len%d" % i] + ["tl %s %s %d" % (k, hx(b8), 1 + len(lenoct(n))) for k in ("bits", "octets", "seq", "set")] + ["outl " + hx(b8)]
    for i in range(20 if not big else 500):
        n = r.getrandbits(r.randrange(1, 64))
        b8 = n.to_bytes(8, "big")
        cmds += ["T lenr%d" % i] + ["tl %s %s %d" % (k, hx(b8), 1 + len(lenoct(n))) for k in ("bits", "octets", "seq", "set")] + ["outl " + hx(b8)]
    # contents around 2^32 bytes
    for i in range(9 if not big else 60):
        n = (1 << 32) + r.choice([-6, -5, -4, -1, 0, 1, 5, 1 << 20, r.randrange(1 << 24), (1 << 32) * (r.random() < 0.1)])
        if i % 9 in (3, 4, 5):
            n = (1 << 32) + r.randrange(1 << 10)
        k = ("int", "octets", "bits")[i % 3]
        b = r.choice([1, 0x55, 0x7f, 0x80, 0xfe, 0xff])
        u = 0
        if k == "bits":
            n = n if i % 2 else n // 8
            b = r.choice([0x40, 0x80, 0xc0, 0x20])
            u = r.randrange(6)
        cmds += ["T ehuge%d" % i, "ehuge %s %d %d %s" % (k, b, u, n.to_bytes(8, "big").hex())]
    for i in range(3000 if big else 100):
        v = r.randbytes(r.randrange(0, 70))
        cmds += ["T r%d" % i, "eint " + hx(bytes(r.randrange(0, 3)) + v), "eoct " + hx(v)]
    c.conform("Asn1Trace", exe, cmds, "encoders", defer=True)
    c.threads("Asn1Trace", exe, build(c, "tsan", gm.TSAN), [x for x in cmds if "ehuge" not in x], "encoders", 24)


gm.main("C19", body)
