"""Curve arithmetic used only to choose inputs (points, nonces, forged values);
what the code must do with them is decided by the specification."""
import functools

SM2 = dict(p=0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF, a=-3,
           b=0x28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93,
           n=0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123,
           g=(0x32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7, 0xBC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0))
SM9 = dict(p=0xB640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D, a=0, b=5,
           n=0xB640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25,
           g=(0x93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD, 0x21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616))


def h(x, n=32):
    return x.to_bytes(n, "big").hex()


def b32(x):
    return x.to_bytes(32, "big")


def add(c, P, Q):
    if P is None:
        return Q
    if Q is None:
        return P
    p = c["p"]
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        s = (3 * P[0] * P[0] + c["a"]) * pow(2 * P[1], -1, p)
    else:
        s = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
    x = (s * s - P[0] - Q[0]) % p
    return x, (s * (P[0] - x) - P[1]) % p


def neg(c, P):
    return None if P is None else (P[0], -P[1] % c["p"])


def mul(c, k, P):
    """Jacobian double and add"""
    p, a = c["p"], c["a"]
    if P is None or k == 0:
        return None
    X, Y, Z = 0, 1, 0
    for bit in bin(k)[2:]:
        if Z:
            Y2 = Y * Y % p
            S = 4 * X * Y2 % p
            M = (3 * X * X + a * pow(Z, 4, p)) % p
            X3 = (M * M - 2 * S) % p
            Z = 2 * Y * Z % p
            Y = (M * (S - X3) - 8 * Y2 * Y2) % p
            X = X3
        if bit == "1":
            if not Z:
                X, Y, Z = P[0], P[1], 1
            else:
                Z2 = Z * Z % p
                H = (P[0] * Z2 - X) % p
                R = (P[1] * Z2 * Z - Y) % p
                if H == 0:
                    i = pow(Z, -1, p)
                    T = add(c, (X * i * i % p, Y * i * i * i % p), P)
                    if T is None:
                        X, Y, Z = 0, 1, 0
                    else:
                        X, Y, Z = T[0], T[1], 1
                else:
                    H2 = H * H % p
                    H3 = H2 * H % p
                    V = X * H2 % p
                    X3 = (R * R - H3 - 2 * V) % p
                    Y = (R * (V - X3) - Y * H3) % p
                    X, Z = X3, Z * H % p
    if not Z:
        return None
    i = pow(Z, -1, p)
    return X * i * i % p, Y * i * i * i % p


def rhs(c, x):
    return (x * x * x + c["a"] * x + c["b"]) % c["p"]


def sqrt(c, v):
    p = c["p"]
    if p % 4 == 3:
        r = pow(v, (p + 1) // 4, p)
    else:
        g = pow(2 * v, (p - 5) // 8, p)
        i = 2 * v * g * g % p
        r = v * g * (i - 1) % p
    return r if r * r % p == v % p else None


def lift(c, x, odd=None):
    y = sqrt(c, rhs(c, x))
    if y is None:
        return None
    if odd is not None and y % 2 != odd:
        y = c["p"] - y
    return x, y


def rand_point(c, r):
    while True:
        P = lift(c, r.randrange(c["p"]), r.randrange(2))
        if P:
            return P


# ---- points with a small y: a root of x^3 + a x + b - y^2 ----
def _mulmod(f, g, m, p):
    t = [0] * 5
    for i, x in enumerate(f):
        for j, y in enumerate(g):
            t[i + j] = (t[i + j] + x * y) % p
    for k in (4, 3):  # m is monic of degree 3
        v = t[k]
        for j in range(3):
            t[k - 3 + j] = (t[k - 3 + j] - v * m[j]) % p
        t[k] = 0
    return t[:3]


def _gcd(f, g, p):
    def norm(h):
        h = list(h)
        while h and h[-1] == 0:
            h.pop()
        return h
    f, g = norm(f), norm(g)
    while g:
        i = pow(g[-1], -1, p)
        while len(f) >= len(g):
            q = f[-1] * i % p
            d = len(f) - len(g)
            for j, x in enumerate(g):
                f[d + j] = (f[d + j] - q * x) % p
            f = norm(f)
        f, g = g, f
    i = pow(f[-1], -1, p)
    return [x * i % p for x in f]


def x_for_y(c, y):
    """some x with (x, y) on the curve, or None; the cubic must have exactly one root"""
    p = c["p"]
    if c["a"] == 0 and p % 9 == 4:
        x = pow(y * y - c["b"], (2 * p + 1) // 9, p)
        return x if (x * x * x + c["b"] - y * y) % p == 0 else None
    m = [(c["b"] - y * y) % p, c["a"] % p, 0]
    acc, base = [1, 0, 0], [0, 1, 0]
    e = p
    while e:
        if e & 1:
            acc = _mulmod(acc, base, m, p)
        base = _mulmod(base, base, m, p)
        e >>= 1
    acc[1] = (acc[1] - 1) % p
    if not any(acc):
        return None
    g = _gcd(m + [1], acc, p)
    if len(g) != 2:
        return None
    return -g[0] % p


@functools.lru_cache(None)
def small_y_points(name, count, start=1):
    c = {"sm2": SM2, "sm9": SM9}[name]
    res, y = [], start
    while len(res) < count:
        x = x_for_y(c, y)
        if x is not None and (y * y - rhs(c, x)) % c["p"] == 0:
            res.append((x, y))
        y += 1
    return res


@functools.lru_cache(None)
def small_x_points(name, count, start=0):
    c = {"sm2": SM2, "sm9": SM9}[name]
    res, x = [], start
    while len(res) < count:
        P = lift(c, x, len(res) % 2)
        if P:
            res.append(P)
        x += 1
    return res
