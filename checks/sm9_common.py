"""Commands for drivers/sm9.cpp and drivers/sm9int.cpp; the arithmetic here only chooses inputs."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx
from ecgen import SM9 as C, add, b32, h, lift, mul, neg, rand_point, small_x_points, small_y_points

SRC = ["src/sm9/sm9_field.cpp", "src/sm3/sm3_common.cpp", "src/sm3/sm3_yang15.cpp", "src/memory_utils/memxor.cpp"] + \
      ["src/number/%s_%s.cpp" % (a, b) for a in ("uint256", "mont256", "mpz") for b in ("common", "x64")]
CFGS = [k for k in gm.cpu_configs() if k != "port"]
P, N, G = C["p"], C["n"], C["g"]
INF = None
# F_p2 elements are (a0, a1) = a0 + a1 u with u^2 = -2; bytes are a1 then a0
G2 = ((0x3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B, 0x85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141),
      (0xA7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7, 0x17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96))


def f2mul(a, b):
    return ((a[0] * b[0] - 2 * a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def f2sub(a, b):
    return ((a[0] - b[0]) % P, (a[1] - b[1]) % P)


def f2add(a, b):
    return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)


def f2inv(a):
    d = pow(a[0] * a[0] + 2 * a[1] * a[1], -1, P)
    return (a[0] * d % P, -a[1] * d % P)


def neg2(Q):
    return None if Q is None else (Q[0], (-Q[1][0] % P, -Q[1][1] % P))


def add2(A, B):
    if A is None or B is None:
        return A or B
    if A[0] == B[0]:
        if f2add(A[1], B[1]) == (0, 0):
            return None
        q = f2mul(A[0], A[0])
        s = f2mul(f2add(f2add(q, q), q), f2inv(f2add(A[1], A[1])))
    else:
        s = f2mul(f2sub(B[1], A[1]), f2inv(f2sub(B[0], A[0])))
    x = f2sub(f2sub(f2mul(s, s), A[0]), B[0])
    return x, f2sub(f2mul(s, f2sub(A[0], x)), A[1])


def mul2(k, Q):
    R = None
    for b in bin(k)[2:] if k else "":
        R = add2(R, R)
        if b == "1":
            R = add2(R, Q)
    return R


def e2(a):
    return h(a[1]) + h(a[0])


def xy2(Q):
    return "-" if Q is None else e2(Q[0]) + e2(Q[1])


def xy(Q):
    return "-" if Q is None else h(Q[0]) + h(Q[1])


def draw(k):
    return h(k - 1)


def sqrt2(a):
    """a square root in F_p2, or None (P = 5 mod 8)"""
    if a == (0, 0):
        return a
    n = (a[0] * a[0] + 2 * a[1] * a[1]) % P
    s = sqrt1(n)
    if s is None:
        return None
    for t in (s, -s):
        x2 = (a[0] + t) * pow(2, -1, P) % P
        x = sqrt1(x2)
        if x:
            r = (x, a[1] * pow(2 * x, -1, P) % P)
            if f2mul(r, r) == a:
                return r
        elif x == 0:
            y = sqrt1(-a[0] * pow(2, -1, P) % P)
            if y is not None and f2mul((0, y), (0, y)) == a:
                return (0, y)
    return None


def sqrt1(a):
    a %= P
    if a == 0:
        return 0
    if pow(a, (P - 1) // 2, P) != 1:
        return None
    r = pow(a, (P + 3) // 8, P)
    if r * r % P != a:
        r = r * pow(2, (P - 1) // 4, P) % P
    return r if r * r % P == a else None


def twist_points(r, n):
    """points of the twist, almost surely outside the group of order n"""
    res = []
    x0 = 0
    while len(res) < n:
        x = (x0, 0) if x0 % 2 else (r.randrange(P), r.randrange(P))
        x0 += 1
        y = sqrt2(f2add(f2mul(f2mul(x, x), x), (0, 5)))
        if y:
            res.append((x, y))
    return res


def pow2(a, k):
    x = (1, 0)
    for b in bin(k)[2:]:
        x = f2mul(x, x)
        if b == "1":
            x = f2mul(x, a)
    return x


def cbrt2(a):
    """a cube root in F_p2, or None (3 divides p^2-1, 9 does not)"""
    x = pow2(a, pow(3, -1, (P * P - 1) // 3))
    return x if f2mul(f2mul(x, x), x) == a else None


OMEGA = next(w for w in (pow(g, (P - 1) // 3, P) for g in range(2, 50)) if w != 1)


def omega(Q):
    """the point with the same y and another x"""
    x, y = Q
    return ((x[0] * OMEGA % P, x[1] * OMEGA % P) if isinstance(x, tuple) else x * OMEGA % P), y


def sparse_twist(r):
    """points of the twist with half a coordinate nought, and pairs of points with one half of x in common"""
    pts = []
    # (x = (0, v) is never on it: x^3 + 5u would be a multiple of u, and those have no root)
    for j in range(2):
        while j:
            x = (r.randrange(1, P), 0)
            y = sqrt2(f2add(f2mul(f2mul(x, x), x), (0, 5)))
            if y:
                pts.append((x, y))
                break
        while True:
            v = r.randrange(1, P)
            y = (v, 0) if j else (0, v)
            x = cbrt2(f2sub(f2mul(y, y), (0, 5)))
            if x:
                pts.append((x, y))
                break
    pairs = []
    for j in range(2):
        v, got = r.randrange(1, P), []
        while len(got) < 2:
            w = r.randrange(1, P)
            x = (v, w) if j else (w, v)
            y = sqrt2(f2add(f2mul(f2mul(x, x), x), (0, 5)))
            if y:
                got.append((x, y))
        pairs += [tuple(got), (got[0], neg2(got[1]))]
    return pts, pairs


def encodings(r, quick):
    """encodings of points of G1, good and bad, by name"""
    res = {}
    pts = [G, neg(C, G)] + [rand_point(C, r) for _ in range(2 if quick else 10)] + list(small_x_points("sm9", 3)) + list(small_y_points("sm9", 2))
    for i, Q in enumerate(pts):
        x, y = b32(Q[0]), b32(Q[1])
        yo = Q[1] & 1
        res["u%d" % i] = b"\4" + x + y
        res["c%d" % i] = bytes([2 + yo]) + x
        res["h%d" % i] = bytes([6 + yo]) + x + y
        res["cother%d" % i] = bytes([3 - yo]) + x
        res["hwrong%d" % i] = bytes([7 - yo]) + x + y
        res["off%d" % i] = b"\4" + x + b32(Q[1] ^ 1)
        res["offx%d" % i] = b"\4" + b32((Q[0] + 1) % P) + y
        res["swap%d" % i] = b"\4" + y + x
        res["offh%d" % i] = bytes([6 + (yo ^ 1)]) + x + b32(Q[1] ^ 1)
        if Q[0] + P < 1 << 256:
            X = b32(Q[0] + P)
            res["bigxu%d" % i] = b"\4" + X + y
            res["bigxc%d" % i] = bytes([2 + yo]) + X
            res["bigxh%d" % i] = bytes([6 + yo]) + X + y
        if Q[1] + P < 1 << 256:
            Y = b32(Q[1] + P)
            res["bigyu%d" % i] = b"\4" + x + Y
            res["bigyh%d" % i] = bytes([6 + yo]) + x + Y
            res["bigyg%d" % i] = bytes([7 - yo]) + x + Y
    Q = pts[2]
    for t in range(0, 256, 1 if not quick else 5):
        res["tag%d" % t] = bytes([t]) + b32(Q[0]) + b32(Q[1])
    for t in range(10):
        res["tag%d" % t] = bytes([t]) + b32(Q[0]) + b32(Q[1])
        res["ctag%d" % t] = bytes([t]) + b32(Q[0])
    for f, base in (("u", res["u2"]), ("c", res["c2"]), ("h", res["h2"])):
        for n in range(len(base)) if not quick else list(range(0, 3)) + [31, 32, 33, 34, 63, 64]:
            if n < len(base):
                res["cut%s%d" % (f, n)] = base[:n]
        res["ext" + f] = base + b"\0"
        res["ext2" + f] = base + r.randbytes(40)
    z = b32(0)
    for t in (2, 3, 4, 6, 7):
        res["zero%d" % t] = bytes([t]) + z + (z if t in (4, 6, 7) else b"")
        res["p%d" % t] = bytes([t]) + b32(P) + (b32(P) if t in (4, 6, 7) else b"")
        res["ff%d" % t] = bytes([t]) + b"\xff" * (64 if t in (4, 6, 7) else 32)
    x = 7
    k = 0
    while k < (4 if quick else 20):
        if lift(C, x) is None:
            res["nosqrt%d" % k] = bytes([2 + k % 2]) + b32(x)
            k += 1
        x = (x + r.randrange(1, 1 << 200)) % P
    for i in range(3):
        res["othercurve%d" % i] = b"\4" + b32(r.randrange(P)) + b32(r.randrange(P))
    res["inf"] = b"\0"
    res["infpad"] = bytes(65)
    return res


def encodings2(r, quick):
    """encodings of points of G2, good and bad"""
    res = {}
    pts = [G2, neg2(G2), mul2(2, G2), mul2(r.randrange(N), G2)] + twist_points(r, 4) + sparse_twist(r)[0]
    for i, Q in enumerate(pts):
        x, y = bytes.fromhex(e2(Q[0])), bytes.fromhex(e2(Q[1]))
        yo, y1 = Q[1][0] & 1, Q[1][1] & 1
        res["u%d" % i] = b"\4" + x + y
        for t in (2, 3, 6, 7):
            res["t%d.%d" % (t, i)] = bytes([t]) + x + (y if t > 3 else b"")
        res["off%d" % i] = b"\4" + x + bytes.fromhex(e2((Q[1][0] ^ 1, Q[1][1])))
        res["offb%d" % i] = b"\4" + x + bytes.fromhex(e2((Q[1][0], Q[1][1] ^ 1)))
        res["swap%d" % i] = b"\4" + y + x
        res["halves%d" % i] = b"\4" + x[32:] + x[:32] + y[32:] + y[:32]
        for j in range(4):
            v = int.from_bytes((x + y)[32 * j:32 * j + 32], "big")
            if v + P < 1 << 256:
                w = bytearray(b"\4" + x + y)
                w[1 + 32 * j:33 + 32 * j] = b32(v + P)
                res["big%d.%d" % (i, j)] = bytes(w)
                w[0] = 6 + yo
                res["bigh%d.%d" % (i, j)] = bytes(w)
    base = res["u3"]
    for n in (0, 1, 2, 64, 65, 66, 97, 127, 128):
        res["cut%d" % n] = base[:n]
        res["cutc%d" % n] = (bytes([2]) + base[1:])[:n]
    res["ext"] = base + b"\0\0"
    for t in range(0, 256, 11 if quick else 1):
        res["tag%d" % t] = bytes([t]) + base[1:]
    for t in range(9):
        res["tag%d" % t] = bytes([t]) + base[1:]
    for t in (2, 3, 4, 6, 7):
        res["zero%d" % t] = bytes([t]) + bytes(128)
        res["ff%d" % t] = bytes([t]) + b"\xff" * 128
    return res


def scalars(r, quick):
    s = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, N - 1, N - 2, N - 3, N, N + 1, N + 2, (1 << 256) - 1, (1 << 256) - 2, (N - 1) // 2, (N + 1) // 2, P, 1 << 255, (1 << 255) - 1]
    s += [1 << i for i in range(0, 256, 32 if quick else 3)] + [(1 << i) - 1 for i in range(3, 257, 37 if quick else 5)]
    for i in range(0, 64, 13 if quick else 2):
        s += [j << (4 * i) for j in (3, 15)]
    s += [r.getrandbits(256) for _ in range(8 if quick else 120)]
    return [x for x in s if x < 1 << 256]
