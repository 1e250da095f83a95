"""C14: SM2 signatures: standard for every nonce, redrawn when they must be; verification is exact and total."""
from sm2_common import *


def inv(x):
    return pow(x, -1, N)


def sign(d, e, k):
    r = (e + mul(C, k, G)[0]) % N
    return r, inv(1 + d) * (k - r * d) % N


def xpts():
    res, seen = [], 0
    for lo in (N, N + (1 << 100), P - 3, 0, N - 2, 1 << 255):
        x = lo
        while lift(C, x) is None:
            x = (x + 1) % P
        res.append(lift(C, x))
    return res


XPTS = xpts()
TOY2 = (17, 2, 2, 19, (0, 6))


def body(c):
    big = not c.quick
    r = c.rng
    exe = {k: c.build("sm2", k, SRC, opt="-O2") for k in CFGS}
    ts = c.build("sm2", CFGS[0], SRC, extra=gm.TSAN, tag="tsan")
    c.background(c.overrides)
    c.background(c.model, "SM2Model", toycfg(2 if c.quick else 4), what="toy curve of order 19: every key, digest and nonce sequence; what verifies is exactly what is signed")
    if big:
        c.background(c.model, "SM2Model", toycfg(2, *TOY2), what="another toy curve")
    keys = [1, 2, N - 2, N - 3, (N - 1) // 2] + [r.randrange(1, N - 1) for _ in range(4 if c.quick else 30)]
    ids = ["D", "-", "00", "ff" * 3, r.randbytes(16).hex(), r.randbytes(17).hex(), r.randbytes(55).hex(), r.randbytes(63).hex(), r.randbytes(64).hex(),
           "*31", "*32", "*255", "*256", "*4095", "*8190", "*8191", "*8192", "*8193", "*65535", "*65536"]
    for k in CFGS:
        cmds = []
        # ---- plain signing: identities, lengths, boundary nonces
        for i, d in enumerate(keys):
            cmds += ["T %s.sign%d" % (k, i), "new a priv sm3", "setpriv a %s %s" % (r.choice(["ctor", "set"]), h(d)), "new b pub sm3", "pubof b a"]
            for j in range(5 if c.quick else 12):
                idv = ids[(i * 5 + j) % len(ids)]
                m = r.randbytes(r.choice([0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 200]))
                kk = r.choice([1, 2, N - 1, N - 2, r.randrange(1, N), r.randrange(1, N)])
                if idv in ("*8192", "*8193", "*65535", "*65536"):
                    cmds.append("sign a %s %s %s" % (idv, hx(m), draw(kk)))
                    cmds.append("verify b %s %s %s" % (idv, hx(m), r.randbytes(64).hex()))
                    # what an identity length taken modulo 2^16 bits would give
                    cmds.append("verify a %s %s %s" % (idv, hx(m), h(1) + h(1)))
                    continue
                cmds.append("sign a %s %s %s" % (idv, hx(m), draw(kk)))
                cmds.append("verify %s %s %s @" % (r.choice("ab"), idv, hx(m)))
                idn = r.choice([x for x in ids[:13] if x != idv and not (x == "-" and idv == "-")])
                cmds.append("verify b %s %s @" % (idn, hx(m)))
                cmds.append("verify b %s %s @" % (idv, hx(m + b"\0")))
        for i, d in enumerate(keys[:6 if c.quick else 20]):
            # ---- draws at the edge of the range: repeated or reduced
            for j, e in enumerate([N - 1, N, N + 1, (1 << 256) - 1, N - 2, 0]):
                m = r.randbytes(20)
                cmds += ["T %s.edge%d.%d" % (k, i, j), "new a priv sm3", "setpriv a set " + h(d),
                         "sign a D %s %s" % (hx(m), h(e) + h(r.randrange(N - 1)) + h(r.randrange(N - 1))), "verify a D %s @" % hx(m),
                         "sign a D %s %s" % (hx(m), h(e) + h((1 << 256) - 1 - j) + h(e)), "sign a D %s %s" % (hx(m), h(e)), "sign a D %s -" % hx(m), "verify a D %s @" % hx(m)]
            # ---- every way to have to draw again, then a good draw, or none
            for j in range(4 if c.quick else 12):
                ks = [r.randrange(1, N), r.choice([1, 2, N - 1, r.randrange(1, N)])]
                x = mul(C, ks[0], G)[0]
                for why, e in (("r0", -x % N), ("rk", (N - ks[0] - x) % N), ("s0", (ks[0] * inv(d) - x) % N)):
                    good = [r.randrange(N - 1) for _ in range(3)]
                    m = r.randbytes(r.choice([0, 1, 9])) + digest_tail(e)
                    if e + N < 1 << 256 and j % 2:
                        m = digest_tail(e + N)
                    first = h(ks[0] - 1)
                    cmds += ["T %s.redraw.%s.%d.%d" % (k, why, i, j), "new a priv tail32", "setpriv a set " + h(d)]
                    for script in (first + h(good[0]), first + first + h(good[1]), first + h(N - 1) + first + h(good[2]) + h(1), first, first + first, first + first[:40], first + "00"):
                        cmds.append("sign a %s %s %s" % (r.choice(["D", "-", "abcd"]), hx(m), script))
                    cmds.append("verify a D %s %s" % (hx(m), h(good[0]) + h(good[1])))
            # ---- digests of other lengths and at the edge of n
            for hs, n in (("tail20", 20), ("tail32", 32), ("tail64", 64)):
                for j, v in enumerate([0, 1, (1 << 8 * n) - 1, N - 1 if n >= 32 else 7, N if n >= 32 else 9, N * 5 + 3 if n > 32 else 11, N * ((1 << 256) - 3) + N - 1 if n > 32 else 2, r.getrandbits(8 * n)]):
                    m = digest_tail(v, n)
                    cmds += ["T %s.dig.%s.%d.%d" % (k, hs, i, j), "new a priv " + hs, "setpriv a set " + h(d),
                             "sign a D %s %s" % (hx(m), draw(r.randrange(1, N))), "verify a D %s @" % hx(m), "verify a D %s @" % hx(m[:-1] + bytes([m[-1] ^ 1]))]
        # ---- keys, identities and messages that follow one another and differ in one byte only, or in the sign of the point
        for i in range(3 if c.quick else 12):
            d, idv, m, kk = r.choice(keys), r.randbytes(r.choice([8, 16, 30])), r.randbytes(r.choice([5, 64, 70])), r.randrange(1, N)
            cmds += ["T %s.near%d" % (k, i), "new a priv sm3", "setpriv a set " + h(d), "new b pub sm3", "pubof b a", "sign a %s %s %s" % (hx(idv), hx(m), draw(kk))]
            for j in range(26 if c.quick else 60):
                z = j % 5
                if z == 0:
                    idv = gm.tweak(r, idv)
                elif z == 1:
                    m = gm.tweak(r, m)
                elif z == 2:
                    d = r.choice([N - d, int.from_bytes(gm.tweak(r, b32(d)), "big"), d])
                    d = d if 0 < d < N - 1 else 5
                    cmds += ["setpriv a %s %s" % (r.choice(["set", "ctor"]), h(d))] + r.choice([["pubof b a"], []])
                elif z == 3:
                    kk = int.from_bytes(gm.tweak(r, b32(kk)), "big") % (N - 1) + 1
                else:
                    idv = r.choice([idv + b"\0", idv[:-1], b"\0" + idv, idv])
                cmds += ["sign a %s %s %s" % (hx(idv), hx(m), draw(kk)), "verify a %s %s @" % (hx(idv), hx(m)), "verify b %s %s @" % (hx(idv), hx(m))]
                if j % 3 == 0:
                    cmds.append("verify a %s %s @" % (hx(gm.tweak(r, idv)), hx(m)))
            # the point and its opposite
            Q = mul(C, d, G)
            for s in (Q, neg(C, Q), Q, neg(C, Q)):
                cmds += ["setpub b %s %s %s" % (r.choice(["set", "ctor"]), h(s[0]), h(s[1])), "verify b %s %s @" % (hx(idv), hx(m))]
        c.conform("SM2Trace", exe[k], cmds, "signing, " + k, defer=True)
        # ---- lengths past 13, 16, 29 and 32 bits: the digest is the tail of the message, so the identity must be refused for its length alone
        huge = []
        for i, idn in enumerate([0, 5, 8191, 8192, 8193, 1 << 16, (1 << 16) + 5, 1 << 24, (1 << 29) - 1, 1 << 29, (1 << 29) + 16, 1 << 31, 1 << 32, (1 << 32) + 16, (1 << 33) + 8191]):
            hs = r.choice(["tail20", "tail32", "tail64"])
            L = lambda n: n.to_bytes(8, "big").hex()
            t = hx(r.randbytes(64))
            huge += ["T %s.hugeid%d" % (k, i), "new a priv " + hs, "setpriv a set " + h(r.choice(keys)), "new b pub " + hs, "pubof b a",
                     "signhuge a %s %s %s %s" % (L(16), L(3), t, draw(r.randrange(1, N))), "verifyhuge b %s %s %s @" % (L(16), L(3), t),
                     "verifyhuge %s %s %s %s @" % (r.choice("ab"), L(idn), L(3), t),
                     "signhuge a %s %s %s %s" % (L(idn), L(0), t, draw(r.randrange(1, N))), "verifyhuge b %s %s %s @" % (L(idn), L(0), t)]
        for i, mn in enumerate([1 << 16, 1 << 24, (1 << 29) - 9, 1 << 29, (1 << 32) - 64, 1 << 32, (1 << 32) + 5] if k == CFGS[0] else [1 << 29]):
            hs = r.choice(["tail20", "tail32", "tail64"])
            t = r.randbytes(64)
            huge += ["T %s.hugemsg%d" % (k, i), "new a priv " + hs, "setpriv a set " + h(r.choice(keys)), "new b pub " + hs, "pubof b a",
                     "signhuge a %s %s %s %s" % (L(16), L(mn), hx(t), draw(r.randrange(1, N))), "verifyhuge %s %s %s %s @" % (r.choice("ab"), L(16), L(mn), hx(t)),
                     "verifyhuge b %s %s %s @" % (L(16), L(mn), hx(t[:-1] + bytes([t[-1] ^ 1])))]
        c.conform("SM2Trace", exe[k], huge, "huge identities and messages, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM2Trace", exe[k], ts, cmds, "signing, " + k, 24 if c.quick else 200)
            groups = []
            for d in keys[:2 if c.quick else 12]:
                bodies = []
                for _ in range(4):
                    o = []
                    for _ in range(2):
                        m, iv = r.randbytes(r.randrange(0, 90)), r.choice(["D", "-", hx(r.randbytes(r.randrange(1, 40)))])
                        o += ["get %s" % r.choice("ab"), "sign a %s %s %s" % (iv, hx(m), draw(r.randrange(1, N))), "verify %s %s %s @" % (r.choice("ab"), iv, hx(m)), "verify b %s %s @" % (iv, hx(m + b"1"))]
                    bodies.append(o)
                groups.append((["new a priv sm3", "setpriv a set " + h(d), "new b pub sm3", "pubof b a"], bodies))
            c.shared("SM2Trace", exe[k], ts, groups, "SM2 keys signing and verifying, " + k)
        # ---- verification against everything
        cmds = []
        for i in range(4 if c.quick else 40):
            d = keys[i % len(keys)]
            kk = r.randrange(1, N)
            x = mul(C, kk, G)[0]
            # small r and s so that r + n and s + n still fit
            small = [r.randrange(1, (1 << 256) - N) for _ in range(4)]
            e = (small[0] - x) % N
            rr, ss = sign(d, e, kk)
            # a small s: choose k and r with s fixed: k = s(1+d) + r d
            s1 = small[1]
            r1 = small[2]
            k1 = (s1 * (1 + d) + r1 * d) % N
            e1 = (r1 - mul(C, k1, G)[0]) % N
            D = lambda v: hx(digest_tail(v))
            t = ["new a priv tail32", "setpriv a set " + h(d), "new b pub tail32", "pubof b a"]
            V = lambda e_, r_, s_: "verify %s D %s %s" % (r.choice("ab"), D(e_), h(r_) + h(s_))
            cmds += ["T %s.v%d" % (k, i)] + t
            cmds += [V(e, rr, ss), V(e, rr + N, ss), V(e1, r1, s1), V(e1, r1 + N, s1), V(e1, r1, s1 + N), V(e1, r1 + N, s1 + N), V(e, (-rr) % N, ss), V(e, rr, N - ss), V(e, ss, rr)]
            if e1 + N < 1 << 256:
                cmds.append(V(e1 + N, r1, s1))
            edge = [0, 1, 2, N - 2, N - 1, N, N + 1, (1 << 256) - 1]
            cmds += ["T %s.ve%d" % (k, i)] + t + [V(e, a, b) for a in edge for b in edge] + [V(e, rr, b) for b in edge] + [V(e, a, ss) for a in edge]
            # zero components that satisfy the equation otherwise: s = 0, r = 0, r + s = n
            cmds += ["T %s.vz%d" % (k, i)] + t
            for r0 in (r.randrange(1, N), 1, N - 1):
                Q = mul(C, r0 * d % N, G)
                cmds.append(V((r0 - Q[0]) % N, r0, 0))          # s = 0: [r]P
                cmds.append(V((r0 - Q[0]) % N, r0, N))
            for s0 in (r.randrange(1, N), 1, N - 1):
                Q = mul(C, s0 * (1 + d) % N, G)
                cmds.append(V((-Q[0]) % N, 0, s0))               # r = 0
                cmds.append(V((-Q[0]) % N, N, s0))
                Q = mul(C, s0, G)
                cmds.append(V((N - s0 - Q[0]) % N, N - s0, s0))  # t = 0: [s]G
                cmds.append(V((N - s0) % N, N - s0, s0))
            # good signatures whose r, s or r + s is at an edge
            for t0 in (1, 2, 3, N - 1, N - 2):
                for s0 in (1, 2, N - 1, t0 - 1, r.randrange(1, N)):
                    if s0 and (t0 - s0) % N and (s0 + t0 * d) % N:
                        cmds.append(V(((t0 - s0) - mul(C, (s0 + t0 * d) % N, G)[0]) % N, (t0 - s0) % N, s0))
            # (e + x) mod n equal to numbers other than r
            for _ in range(2):
                s0, t0 = r.randrange(1, N), r.randrange(1, N)
                r0 = (t0 - s0) % N
                x0 = mul(C, (s0 + t0 * d) % N, G)[0]
                for v in (r0, s0, t0, -r0, -s0, -t0, r0 + 1, r0 - 1, 0, r0 ^ 1, r0 ^ (1 << 255), r0 ^ (1 << 128), d, r0 * s0, x0, 2 * r0):
                    cmds.append(V((v - x0) % N, r0, s0))
                    if (v - x0) % N + N < 1 << 256:
                        cmds.append(V((v - x0) % N + N, r0, s0))
            # infinity: s + t d = 0, and what a zero or garbage x would satisfy
            for _ in range(3):
                tt = r.randrange(1, N)
                s0 = -tt * d % N
                r0 = (tt - s0) % N
                cmds += [V(r0, r0, s0), V((r0 - 1) % N, r0, s0), V((r0 - G[0]) % N, r0, s0)]
            # equal points: s = t d
            for _ in range(3):
                tt = r.randrange(1, N)
                s0 = tt * d % N
                r0 = (tt - s0) % N
                Q = mul(C, 2 * s0 % N, G)
                cmds += [V((r0 - Q[0]) % N, r0, s0), V((r0 - mul(C, s0, G)[0]) % N, r0, s0)]
            # bit changes of a good signature, message, identity and key
            if k == CFGS[0] or big:
                m = r.randbytes(r.choice([0, 3, 40])) + digest_tail(e)
                sig = h(rr) + h(ss)
                cmds += ["T %s.vb%d" % (k, i)] + t
                step = r.sample(range(512), 48) if c.quick else range(512)
                cmds.append("verify b D %s %s" % (hx(m), sig))
                for b in step:
                    cmds.append("verify b D %s %s" % (hx(m), "%0128x" % (int(sig, 16) ^ (1 << b))))
                for j in range(24):
                    cmds.append("verify b D %s %s" % (hx(m[:-24 + j] + bytes([m[-24 + j] ^ (1 << r.randrange(8))]) + (m[-23 + j:] if j < 23 else b"")), sig))
                d2 = r.randrange(1, N - 1)
                Q2 = mul(C, d2, G)
                cmds += ["setpub b set %s %s" % (h(Q2[0]), h(Q2[1])), "verify b D %s %s" % (hx(m), sig)]
                Q2 = neg(C, mul(C, d, G))
                cmds += ["setpub b ctor %s %s" % (h(Q2[0]), h(Q2[1])), "verify b D %s %s" % (hx(m), sig)]
        # the message and the identity together, with the standard hash: moving bytes between them
        for i in range(2 if c.quick else 10):
            d = keys[-1 - i]
            idv, m = r.randbytes(6), r.randbytes(9)
            cmds += ["T %s.vm%d" % (k, i), "new a priv sm3", "setpriv a set " + h(d), "sign a %s %s %s" % (hx(idv), hx(m), draw(r.randrange(1, N))), "verify a %s %s @" % (hx(idv), hx(m)),
                     "verify a %s %s @" % (hx(idv + m[:1]), hx(m[1:])), "verify a %s %s @" % (hx(idv[:-1]), hx(idv[-1:] + m)), "verify a D %s @" % hx(m), "verify a %s %s @" % (hx(idv), "-"),
                     "sign a - - %s" % draw(5), "verify a - - @", "sign a D - %s" % draw(7), "verify a D - @"]
        # keys of the other parity and from outside
        for i, Q in enumerate(list(small_x_points("sm2", 2)) + list(small_y_points("sm2", 1))):
            cmds += ["T %s.vk%d" % (k, i), "new b pub tail32", "setpub b set %s %s" % (h(Q[0]), h(Q[1]))]
            for _ in range(3):
                s0, t0 = r.randrange(1, N), r.randrange(1, N)
                R = add(C, mul(C, s0, G), mul(C, t0, Q))
                r0 = (t0 - s0) % N
                cmds += ["verify b D %s %s" % (hx(digest_tail((r0 - R[0]) % N)), h(r0) + h(s0)), "verify b D %s %s" % (hx(digest_tail((r0 - R[1]) % N)), h(r0) + h(s0))]
        # the x coordinate of the sum between n and p, at n, at 0, at p - 1
        for i, R in enumerate(XPTS):
            s0, t0 = r.randrange(1, N), r.randrange(1, N)
            Q = mul(C, inv(t0), add(C, R, neg(C, mul(C, s0, G))))
            r0 = (t0 - s0) % N
            cmds += ["T %s.vx%d" % (k, i), "new b pub tail32", "setpub b set %s %s" % (h(Q[0]), h(Q[1]))]
            for e in ((r0 - R[0]) % N, (r0 - R[0] + N - P) % N, (r0 - R[0] + P) % N):
                cmds.append("verify b D %s %s" % (hx(digest_tail(e)), h(r0) + h(s0)))
        c.conform("SM2Trace", exe[k], cmds, "verification, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM2Trace", exe[k], ts, cmds, "verification, " + k, 24 if c.quick else 200)


gm.main("C14", body)
