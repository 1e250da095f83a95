"""C20: ASN.1 decoders never leave the input and accept only complete elements."""
from asn1_common import *


def body(c):
    big = not c.quick
    r = c.rng
    exe = build(c)
    model(c)
    ss = strings(c, ALPHA, 4 if big else 3)
    cmds = []
    for i in range(0, len(ss), 40):
        cmds += ["T s%d" % i] + ["dec " + hx(x) for x in ss[i:i + 40]]
    # every identifier and every length octet
    t = []
    for v in range(256):
        t += ["dec " + hx(bytes([v, 1, 255])), "dec " + hx(bytes([v, 0])), "dec " + hx(bytes([v])), "dec " + hx(bytes([v, 2, 0, 128, 5])),
              "dec " + hx(bytes([2, v]) + bytes(r.randrange(0, 12))), "dec " + hx(bytes([4, v]) + bytes(300)), "dec " + hx(bytes([3, v]) + bytes(v if v < 128 else 4)),
              "dec " + hx(bytes([3, 2, v, 255])), "dec " + hx(bytes([3, 1, v])), "dec " + hx(bytes([1, 1, v])), "dec " + hx(bytes([2, 2, v, 127])), "dec " + hx(bytes([2, 2, v, 128]))]
    for i in range(0, len(t), 60):
        cmds += ["T o%d" % i] + t[i:i + 60]
    # long forms: the length around what is left, minimal or not, up to 2^64-1
    t = []
    for tag in (1, 2, 3, 4, 5, 48, 49, 36, 160):
        for k in range(0, 10):
            for n in [0, 1, 2, 5, 127, 128, 255, 256]:
                if k <= 8 and n >= 256 ** k and k:
                    continue
                content = bytes([0]) + r.randbytes(n - 1) if n else b""
                for d in (-1, 0, 1, 3):
                    body_ = content + b"\7" * d if d >= 0 else content[:d] if content else content
                    lo = bytes([128 + k]) + n.to_bytes(max(k, 2), "big")[-k:] if k else lenoct(n)
                    if big or r.random() < 0.4:
                        t.append("dec " + hx(bytes([tag]) + lo + body_))
        for v in [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 2**64 - 10, 2**32 + 1, 2**56]:
            for k in range((v.bit_length() + 7) // 8, 9):
                t.append("dec " + hx(bytes([tag, 128 + k]) + v.to_bytes(k, "big") + bytes([1] * r.randrange(0, 6))))
        for k in range(1, 10):  # truncated inside the length
            for m in range(0, k):
                t.append("dec " + hx(bytes([tag, 128 + k]) + bytes(m)))
                t.append("dec " + hx(bytes([tag, 128 + k]) + b"\xff" * m))
    for i in range(0, len(t), 60):
        cmds += ["T l%d" % i] + t[i:i + 60]
    # lengths that look like the short one an element must have when their high bytes are lost
    t = []
    for tag in (1, 2, 3, 5, 4, 48, 49):
        for n in (256, 257, 258, 512, 513, 65536, 65537, 65538):
            x = bytes([tag]) + lenoct(n) + bytes([0]) + r.randbytes(n - 1)
            t += ["dec " + hx(x)] + (["dec " + hx(x + b"\1")] if n < 1000 else [])
    for i in range(0, len(t), 12):
        cmds += ["T wrap%d" % i] + t[i:i + 12]
    # inputs and elements around 2^32 bytes, and 2^29 (bits)
    t = []
    for i in range(40 if big else 12):
        n = r.choice([1 << 32, 1 << 32, 1 << 29, 1 << 31, 3 << 32 if big else 1 << 32]) + r.randrange(-8, 9)
        for tag in (2, 3, 4, 48, 49, 35, 160):
            k = r.choice([4, 5, 6, 8]) if n >> 32 == 0 else r.choice([5, 6, 8])
            l = n - 2 - k + r.choice([-1, 0, 0, 1, -(1 << 20), 1 << 32, 1 << 40, -(1 << 29) + 100])
            if l < 0 or l >> (8 * k):
                l = n - 2 - k
            h = bytes([tag, 128 + k]) + l.to_bytes(k, "big") + bytes([r.choice([0, 0, 1, 7, 8, 127, 128, 255]), r.choice([0, 127, 128, 255])])
            t.append("dhuge %s %d %s" % (hx(h + bytes(16 - len(h) if len(h) < 16 else 0)), r.choice([0, 1, 0x80, 255]), n.to_bytes(8, "big").hex()))
    for i in range(0, len(t), 10):
        cmds += ["T dhuge%d" % i] + t[i:i + 10]
    for i in range(2000 if big else 150):
        x = b"".join(tree(r, 2) for _ in range(r.choice([1, 1, 2])))
        cmds += ["T t%d" % i, "dec " + hx(x), "adump " + hx(x)]
        for y in corruptions(r, x, 6):
            cmds += ["dec " + hx(y), "adump " + hx(y)]
    for i in range(1000 if big else 60):
        cmds += ["T r%d" % i] + ["dec " + hx(bytes([r.choice([1, 2, 3, 4, 5, 48, 49, 35])]) + r.randbytes(r.randrange(0, 10))) for _ in range(10)] \
            + ["adump " + hx(bytes([48, r.randrange(0, 12)]) + r.randbytes(r.randrange(0, 12))) for _ in range(4)]
    c.conform("Asn1Trace", exe, cmds, "decoders", defer=True)
    nodump = [x for x in cmds if not x.startswith(("adump", "dhuge", "T dhuge"))]
    c.threads("Asn1Trace", exe, build(c, "tsan", gm.TSAN), nodump, "decoders", 24)


gm.main("C20", body)
