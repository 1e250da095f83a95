"""Commands for drivers/sm2.cpp and drivers/sm2int.cpp."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx
from ecgen import SM2 as C, add, b32, h, lift, mul, neg, rand_point, rhs, small_x_points, small_y_points

NUM = ["src/number/%s_%s.cpp" % (a, b) for a in ("uint256", "mont256", "mpz") for b in ("common", "x64")]
SRC = ["src/sm2/sm2p256v1.cpp", "src/sm2/sm2p256v1_asn1.cpp", "src/asn1/asn1.cpp", "src/sm3/sm3_common.cpp", "src/sm3/sm3_yang15.cpp", "src/memory_utils/memxor.cpp"] + NUM
CFGS = [k for k in gm.cpu_configs() if k != "port"]
P, N, G = C["p"], C["n"], C["g"]


def keycfg(calls):
    return "SPECIFICATION KMSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Privs = {\"a\", \"b\"}\n  Pubs = {\"q\"}\n  MaxCalls = %d\n  Emit = TRUE\n" % calls


def toycfg(draws, p=13, a=10, b=1, n=19, g=(1, 5)):
    return "SPECIFICATION SMSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  p = %d\n  a = %d\n  b = %d\n  n = %d\n  MaxDraws = %d\n  GX = %d\n  GY = %d\n" % (p, a, b, n, draws, g[0], g[1])


def xy(P_):
    return "-" if P_ is None else h(P_[0]) + h(P_[1])


def other_x(A):
    """a point with the same y and another x, or None"""
    x, y = A
    d = (x * x - 4 * (x * x + C["a"])) % P
    s = pow(d, (P + 1) // 4, P)
    return ((s - x) * pow(2, -1, P) % P, y) if s and s * s % P == d else None


def draw(k):
    """the draw that gives nonce k"""
    return h(k - 1)


def digest_tail(v, n=32):
    """a message whose tail hash is v"""
    return v.to_bytes(n, "big")


def encodings(r, quick):
    """point encodings, good and bad, by name"""
    res = {}
    pts = [G, neg(C, G)] + [rand_point(C, r) for _ in range(3 if quick else 12)] + list(small_x_points("sm2", 4)) + list(small_y_points("sm2", 2))
    for i, Q in enumerate(pts):
        x, y = b32(Q[0]), b32(Q[1])
        yo = Q[1] & 1
        res["u%d" % i] = b"\4" + x + y
        res["c%d" % i] = bytes([2 + yo]) + x
        res["h%d" % i] = bytes([6 + yo]) + x + y
        res["cother%d" % i] = bytes([3 - yo]) + x
        res["hwrong%d" % i] = bytes([7 - yo]) + x + y
        res["off%d" % i] = b"\4" + x + b32(Q[1] ^ 1)
        res["offx%d" % i] = b"\4" + b32((Q[0] + 1) % P) + y
        res["swap%d" % i] = b"\4" + y + x
        res["offh%d" % i] = bytes([6 + (yo ^ 1)]) + x + b32(Q[1] ^ 1)
        if Q[0] + P < 1 << 256:
            X = b32(Q[0] + P)
            res["bigxu%d" % i] = b"\4" + X + y
            res["bigxc%d" % i] = bytes([2 + yo]) + X
            res["bigxh%d" % i] = bytes([6 + yo]) + X + y
        if Q[1] + P < 1 << 256:
            Y = b32(Q[1] + P)
            res["bigyu%d" % i] = b"\4" + x + Y
            res["bigyh%d" % i] = bytes([6 + yo]) + x + Y
            res["bigyg%d" % i] = bytes([7 - yo]) + x + Y
    Q = pts[2]
    for t in range(256):
        res["tag%d" % t] = bytes([t]) + b32(Q[0]) + b32(Q[1])
    for f, base in (("u", res["u2"]), ("c", res["c2"]), ("h", res["h2"])):
        for n in range(len(base)) if not quick else list(range(0, 3)) + [31, 32, 33, 34, 63, 64]:
            if n < len(base):
                res["cut%s%d" % (f, n)] = base[:n]
        res["ext" + f] = base + b"\0"
        res["ext2" + f] = base + r.randbytes(40)
    z = b32(0)
    for t in (2, 3, 4, 6, 7):
        res["zero%d" % t] = bytes([t]) + z + (z if t in (4, 6, 7) else b"")
        res["p%d" % t] = bytes([t]) + b32(P) + (b32(P) if t in (4, 6, 7) else b"")
        res["ff%d" % t] = bytes([t]) + b"\xff" * (64 if t in (4, 6, 7) else 32)
    x = 5
    k = 0
    while k < (4 if quick else 20):
        if lift(C, x) is None:
            res["nosqrt%d" % k] = bytes([2 + k % 2]) + b32(x)
            k += 1
        x += r.randrange(1, 1 << 200)
        x %= P
    # on another curve: same formulas, different b
    for i in range(3):
        res["othercurve%d" % i] = b"\4" + b32(r.randrange(P)) + b32(r.randrange(P))
    res["inf"] = b"\0"
    res["infpad"] = bytes(65)
    return res


def scalars(r, quick):
    s = [0, 1, 2, 3, 4, 5, 6, 7, 8, N - 1, N - 2, N - 3, N, N + 1, N + 2, (1 << 256) - 1, (1 << 256) - 2, (N - 1) // 2, (N + 1) // 2, N // 3, 2 * N // 3, P, P - 1,
         1 << 255, (1 << 255) - 1, (1 << 256) // 3, 2 * (1 << 256) // 3]
    s += [1 << i for i in range(0, 256, 16 if quick else 1)] + [(1 << i) - 1 for i in range(3, 257, 23 if quick else 3)]
    for i in range(0, 64, 9 if quick else 1):
        s += [j << (4 * i) for j in ((3, 15) if quick else range(1, 16))]
    s += [r.getrandbits(256) for _ in range(20 if quick else 300)]
    return [x for x in s if x < 1 << 256]
