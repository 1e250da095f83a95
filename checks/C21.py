"""C21: SM2 keys, signatures and ciphertexts survive their ASN.1 encoding."""
from asn1_common import *


def fields(r, kind):
    def v():
        k = r.random()
        if k < 0.12:
            z = r.randrange(1, 33)
            return bytes(z) + r.randbytes(32 - z)
        if k < 0.3:
            return bytes([r.choice([128, 255, 127, 1])]) + r.randbytes(31)
        return r.randbytes(32)
    if kind == "priv":
        return [v()]
    if kind == "pub":
        return [b"\4" + v() + v()]
    if kind == "sig":
        return [v(), v()]
    return [v(), v(), r.randbytes(r.choice([32, 32, 32, 0, 20, 64])), r.randbytes(r.choice([0, 1, 16, 20, 100, 127, 128, 150, 255, 300]))]


def encode(kind, f):
    i = lambda b: integer(int.from_bytes(b, "big"), max(1, len(b)))
    if kind == "priv":
        return i(f[0])
    if kind == "pub":
        return tlv(3, b"\0" + f[0])
    if kind == "sig":
        return tlv(48, i(f[0]) + i(f[1]))
    return tlv(48, i(f[0]) + i(f[1]) + tlv(4, f[2]) + tlv(4, f[3]))


def body(c):
    big = not c.quick
    r = c.rng
    exe = build(c)
    model(c)
    cmds = []
    for kind in ("priv", "pub", "sig", "cipher"):
        edge = [bytes(32), b"\xff" * 32, bytes(31) + b"\1", b"\x7f" + b"\xff" * 31, b"\x80" + bytes(31), b"\0\x80" + bytes(30), b"\0\x7f" + bytes(30), b"\1" + bytes(31)]
        n = 0
        for a in edge:
            for b in edge if kind in ("sig", "cipher") else edge[:1]:
                f = {"priv": [a], "pub": [b"\4" + a + b], "sig": [a, b], "cipher": [a, b, b, a[:n % 5]]}[kind]
                x = encode(kind, f)
                cmds += ["T %s.e%d" % (kind, n), "s2e %s %s" % (kind, " ".join(hx(y) for y in f)), "s2d %s %s" % (kind, hx(x)), "s2d %s %s" % (kind, hx(x + b"\0\1\2"))]
                n += 1
        for i in range(1500 if big else 60):
            f = fields(r, kind)
            x = encode(kind, f)
            t = ["T %s.r%d" % (kind, i), "s2e %s %s" % (kind, " ".join(hx(y) for y in f)), "s2d %s %s" % (kind, hx(x))]
            t += ["s2d %s %s" % (kind, hx(y)) for y in corruptions(r, x, 8)]
            # another structure's encoding
            k2 = r.choice(["priv", "pub", "sig", "cipher"])
            t.append("s2d %s %s" % (kind, hx(encode(k2, fields(r, k2)))))
            cmds += t
        # every truncation and every byte changed
        for i in range(4 if big else 1):
            f = [y if len(y) != 32 else bytes([r.choice([1, 127, 129, 255])]) + y[1:] for y in fields(r, kind)]
            x = encode(kind, f)
            t = ["T %s.x%d" % (kind, i)] + ["s2d %s %s" % (kind, hx(x[:k])) for k in range(len(x))]
            for k in range(len(x)):
                for d in [1, 2, 4, 8, 16, 32, 64, 128] if big or k < 8 else [r.choice([1, 2, 4, 8, 16, 32, 64, 128])]:
                    y = bytearray(x)
                    y[k] ^= d
                    t.append("s2d %s %s" % (kind, hx(y)))
            for k in range(0, len(t), 60):
                cmds += (["T %s.x%d.%d" % (kind, i, k)] if k else []) + t[k:k + 60]
        # structural changes: elements missing, doubled, reordered, empty, extra, of other types and lengths
        el = {"priv": [], "pub": [], "sig": [0, 1], "cipher": [0, 1, 2, 3]}[kind]
        I = lambda n_: tlv(2, b"\1" + r.randbytes(n_ - 1) if n_ else b"")
        parts = {"sig": [I(32), I(32)], "cipher": [I(32), I(32), tlv(4, r.randbytes(32)), tlv(4, r.randbytes(9))]}.get(kind)
        t = []
        if parts:
            for _ in range(300 if big else 60):
                p = list(parts)
                for _ in range(r.choice([1, 1, 2])):
                    k = r.randrange(6)
                    j = r.randrange(len(p)) if p else 0
                    if k == 0 and p:
                        del p[j]
                    elif k == 1:
                        p.insert(j, r.choice(parts + [b"\5\0", tlv(4, b""), I(32), tlv(48, b"")]))
                    elif k == 2 and len(p) > 1:
                        r.shuffle(p)
                    elif k == 3 and p:
                        p[j] = I(r.choice([0, 1, 31, 32, 33, 34]))
                    elif k == 4 and p:
                        p[j] = tlv(2, b"\0" + r.choice([b"\x80", b"\x7f", b"\0"]) + r.randbytes(r.choice([30, 31, 32])))
                    elif p:
                        p[j] = r.choice([tlv(3, b"\0" + r.randbytes(32)), tlv(4, r.randbytes(32)), tlv(1, b"\xff"), tlv(48, p[j]), p[j][:-1]])
                x = b"".join(p)
                t.append("s2d %s %s" % (kind, hx(r.choice([tlv(48, x), tlv(48, x), tlv(49, x), tlv(48, x, lenoct(max(0, len(x) + r.choice([-1, 1])))), tlv(48, x) + b"\0"]))))
        else:
            for n_ in [0, 1, 31, 32, 33, 34, 64, 65, 66, 67, 130]:
                for z in (b"", b"\0", b"\1", b"\7", b"\x80"):
                    t += ["s2d %s %s" % (kind, hx(tlv(g, z + r.choice([b"\4", b"\x80", b"\0"]) + r.randbytes(n_)))) for g in (2, 3, 4, 35)]
        # lengths that look right when their high bits are lost, inside and behind; elements of other types that are empty
        for z in [1, 2, 16, 32, 64, 96, 128, 256, 512, 1024, 4096, 65536] + ([1 << 20] if big else []):
            tail = r.choice([bytes(z), r.randbytes(z)]) if z < 1000 else tlv(4, r.randbytes(z - (4 if z <= 1 << 16 else 5)))
            f = fields(r, kind)
            x = encode(kind, f)
            t.append("s2d %s %s" % (kind, hx(x + tail)))
            if parts:
                t.append("s2d %s %s" % (kind, hx(tlv(48, b"".join(parts) + tail))))
                for j in range(2):
                    p = list(parts)
                    p[j] = r.choice([I(32 + z), tlv(2, b"\0" + b"\x80" + r.randbytes(31 + z))])
                    t.append("s2d %s %s" % (kind, hx(tlv(48, b"".join(p)))))
            elif kind == "pub":
                t += ["s2d pub " + hx(tlv(3, b"\0\4" + r.randbytes(64 + z))), "s2d pub " + hx(tlv(3, b"\0\4" + r.randbytes(64) + bytes(z)))]
            else:
                t += ["s2d priv " + hx(I(32 + z)), "s2d priv " + hx(tlv(2, b"\0\x90" + r.randbytes(31 + z)))]
        for j in range(len(parts or [])):
            for g in (0, 1, 2, 3, 4, 5, 6, 12, 36, 48, 49, 68, 132, 196):
                p = list(parts)
                p[j] = tlv(g, b"")
                t.append("s2d %s %s" % (kind, hx(tlv(48, b"".join(p)))))
                p[j] = bytes([g]) + parts[j][1:]
                t.append("s2d %s %s" % (kind, hx(tlv(48, b"".join(p)))))
        for k in range(0, len(t), 40):
            cmds += ["T %s.m%d" % (kind, k)] + t[k:k + 40]
    c.conform("Asn1Trace", exe, cmds, "SM2 structures", defer=True)
    c.threads("Asn1Trace", exe, build(c, "tsan", gm.TSAN), cmds, "SM2 structures", 24)


gm.main("C21", body)
