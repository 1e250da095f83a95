"""Commands for drivers/asn1.cpp."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx

SRC = ["src/asn1/asn1.cpp", "src/asn1/asn1_dump.cpp", "src/sm2/sm2p256v1_asn1.cpp"]
ALPHA = [0, 1, 2, 3, 4, 5, 36, 48, 49, 127, 128, 129, 130, 255]


def build(c, tag="", extra=()):
    return c.build("asn1", "base", SRC, tag=tag, extra=extra, opt="-O0" if extra == gm.TSAN else "-O1")


def acfg(alpha, maxlen, emit=False):
    return "SPECIFICATION ASpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Alphabet = {%s}\n  MaxLen = %d\n  Emit = %s\n" % (
        ", ".join(map(str, alpha)), maxlen, str(emit).upper())


def model(c):
    c.background(c.model, "Asn1Model", acfg(ALPHA, 3 if c.quick else 4), what="every short byte string: decoders stay inside, types exclude each other, encoding round trips")
    c.background(c.overrides)


def strings(c, alpha, maxlen):
    return [bytes(b["s"]) for b in c.behaviours("Asn1Model", acfg(alpha, maxlen, True), what="every byte string over an alphabet")]


def lenoct(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([128 + len(b)]) + b


def tlv(tag, content, lo=None):
    return bytes([tag]) + (lenoct(len(content)) if lo is None else lo) + content


def integer(v, n=32):
    b = v.to_bytes(n, "big").lstrip(b"\0")
    if not b or b[0] >= 128:
        b = b"\0" + b
    return tlv(2, b)


def tree(r, depth):
    """a random well-formed element"""
    tag = r.choice([0, 64, 128, 192]) + r.randrange(0, 31)
    if depth and r.random() < 0.55:
        return tlv(tag | 32, b"".join(tree(r, depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))))
    c = r.randbytes(r.choice([0, 1, 2, 7, 8, 9, 16, 17, 31]))
    if r.random() < 0.3:
        k = r.randrange(1, 9)
        return tlv(tag & ~32, c, bytes([128 + k]) + len(c).to_bytes(k, "big"))
    return tlv(tag & ~32, c)


def corruptions(r, x, n):
    """truncations, single-byte changes, additions"""
    for _ in range(n):
        y = bytearray(x)
        k = r.random()
        if k < 0.35 and y:
            y = y[:r.randrange(len(y))]
        elif k < 0.85 and y:
            i = r.randrange(len(y)) if r.random() < 0.5 else r.randrange(min(6, len(y)))
            y[i] = r.choice([y[i] ^ (1 << r.randrange(8)), r.randrange(256), (y[i] + 1) % 256, (y[i] - 1) % 256, 128, 255, 31])
        else:
            y += r.randbytes(r.randrange(1, 4))
        yield bytes(y)
