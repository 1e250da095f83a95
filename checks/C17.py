"""C17: SM9 extension fields, groups and pairing."""
from sm9_common import *
from primegen import prime_cmds


def elem(d, vals, r, dense=None):
    """an element of degree d in bytes, coordinates from vals"""
    return "".join(h(r.choice(vals)) for _ in range(d))


def elements(d, r, n):
    edge = [0, 1, 2, P - 1, P - 2, (P - 1) // 2, (P + 1) // 2]
    z, one = h(0), h(1)
    res = [z * d]
    # one coordinate only
    for i in range(d):
        for v in (1, P - 1, r.randrange(P)):
            res.append(z * i + h(v) + z * (d - 1 - i))
    # all but one coordinate
    for i in range(d):
        t = [h(r.randrange(P)) for _ in range(d)]
        t[i] = z
        res.append("".join(t))
    # subfields and edges
    res += [elem(d, edge, r) for _ in range(n)] + [elem(d, [0, 0, 0, 1, P - 1], r) for _ in range(n)]
    res += ["".join(h(r.randrange(P)) for _ in range(d)) for _ in range(n)]
    res += [h(P - 1) * d, h(1) * d]
    # values close to a word boundary
    res += ["".join(h(r.choice([(1 << 64 * r.randrange(1, 4)) - 1, 1 << 64 * r.randrange(1, 4), P - (1 << 64 * r.randrange(1, 4)), P - 1 - r.getrandbits(40)])) for _ in range(d)) for _ in range(n)]
    return res


def body(c):
    big = not c.quick
    r = c.rng
    exe = {k: c.build("sm9", k, SRC, opt="-O2") for k in CFGS}
    ts = c.build("sm9int", CFGS[0], SRC, extra=gm.TSAN, tag="tsan", opt="-O0")
    exi = {k: c.build("sm9int", k, SRC, opt="-O2") for k in CFGS}
    c.background(c.model, "SM9Check", env={"GM_N": "24" if c.quick else "400", "GM_DEEP": "1", "GM_SEED": str(c.seed)},
                 what="field tower, groups, pairing: evaluated forms against their definitions, field laws, bilinearity, the standard's constants")
    encs, encs2 = encodings(r, c.quick), encodings2(r, c.quick)
    for k in CFGS:
        # through keys: the public key of master keys, points from outside
        cmds = []
        for i, e in enumerate(encs2.values()):
            if len(e) == 129:
                cmds += ["T %s.kp%d" % (k, i), "new q pub sm3", "setpub q %s %s" % (e2(G2[0]), e2(G2[1])), "setpub q %s %s" % (e[1:65].hex(), e[65:].hex()), "get q"]
        for i, e in enumerate(encs.values()):
            if len(e) == 65:
                cmds += ["T %s.ku%d" % (k, i), "new u user sm3", "usetpriv u %s %s %s %s" % (e[1:33].hex(), e[33:].hex(), e2(G2[0]), e2(G2[1])), "get u"]
        for i, s in enumerate([1, 2, 3, 4, 5, N - 1, N - 2, N - 3, (N - 1) // 2, (N + 1) // 2, (1 << 128), (1 << 128) - 1] + [r.randrange(1, N) for _ in range(20 if c.quick else 200)]):
            cmds += ["T %s.km%d" % (k, i), "new a master sm3", "msetpriv a set " + h(s), "get a"]
        c.conform("SM9Trace", exe[k], cmds, "group elements through keys, " + k, defer=True)
        try:
            exi[k].path()
        except gm.CheckError as x:
            c.notes.append("internal field interface not driven: " + str(x)[:200])
            continue
        # ---- fields
        for d in (2, 4, 12):
            cmds = []
            el = elements(d, r, (6 if d < 12 else 4) if c.quick else 40)
            for i, a in enumerate(el):
                cmds += ["T %s.f%d.%d" % (k, d, i)]
                al = lambda n: r.randrange(n)
                for f in ("neg", "sqr", "cpy"):
                    cmds.append("field %d %s %s - %d" % (d, f, a, al(2)))
                if d == 2:
                    cmds += ["field 2 %s %s - %d" % (f, a, z) for f in ("dbl", "tpl") for z in (0, 1)]
                if d < 12:
                    cmds += ["field %d mulx %s - %d" % (d, a, z) for z in (0, 1)]
                if a != h(0) * d:
                    cmds += ["field %d inv %s - %d" % (d, a, al(2))]
                cmds += ["field %d %s %s - 0" % (d, f, a) for f in ("is0", "is1", "set0", "set1")]
                for _ in range(2 if c.quick else 6):
                    b = r.choice(el)
                    cmds += ["field %d %s %s %s %d" % (d, f, a, b, al(3)) for f in ("add", "sub", "mul")]
                cmds += ["field %d %s %s %s %d" % (d, f, a, a, 3 + al(2)) for f in ("add", "sub", "mul")]
                # equality: with itself and with each coordinate changed
                cmds.append("field %d eq %s %s 0" % (d, a, a))
                for j in r.sample(range(d), min(d, 4)):
                    o = a[:64 * j] + h((int(a[64 * j:64 * j + 64], 16) + r.choice([1, 1 << 64, 1 << 128, 1 << 192])) % P) + a[64 * j + 64:]
                    cmds.append("field %d eq %s %s 0" % (d, a, o))
                for sd in {2: (1,), 4: (1, 2), 12: (4,)}[d]:
                    cmds.append("field %d mul %s %s %d" % (d, a, elem(sd, [0, 1, P - 1, r.randrange(P)], r), al(2)))
                if d == 12 and a == h(0) * d:
                    cmds += ["field 12 pow %s %s %d" % (a, h(e), al(2)) for e in (1, 2, N, 1 << 255)]
                if d == 12 and a != h(0) * d and (big or i % 4 == 0):
                    for e in [r.getrandbits(256), r.choice([0, 1, 2, 3, N - 1, N, N + 1, (1 << 256) - 1, 1 << 255, 1 << r.randrange(256), P, P - 1])]:
                        cmds.append("field 12 pow %s %s %d" % (a, h(e), al(2)))
            # every last byte of the exponent, alone and after others
            if d == 12:
                for j in range(0, 256, 16):
                    cmds += ["T %s.pw%d" % (k, j)]
                    for e in range(j, j + 16):
                        cmds.append("field 12 pow %s %s %d" % (r.choice(el[1:]), h(e), al(2)))
                        if big or e % 16 == 0 or r.random() < 0.1:
                            cmds.append("field 12 pow %s %s %d" % (r.choice(el[1:]), h(r.getrandbits(r.choice([16, 32, 64])) << 8 | e), al(2)))
                            cmds.append("field 12 pow %s %s %d" % (r.choice(el[1:]), h(e << 8 * r.choice([1, 2, 7])), al(2)))
            # one element for every nearly-one and nearly-zero value
            cmds += ["T %s.f%d.near" % (k, d)]
            for j in range(d):
                for v in (1, 2, 1 << 64, 1 << 128, 1 << 192):
                    e = h(0) * j + h(v) + h(0) * (d - 1 - j)
                    cmds += ["field %d is0 %s - 0" % (d, e), "field %d is1 %s - 0" % (d, e)]
                    if j < d - 1:
                        cmds.append("field %d is1 %s - 0" % (d, e[:-64] + h(1)))
            c.conform("SM9Trace", exi[k], cmds, "F_p%d, %s" % (d, k), defer=True)
            if k == CFGS[0]:
                c.threads("SM9Trace", exi[k], ts, cmds, "F_p%d, %s" % (d, k), 16 if c.quick else 80)
        cmds = prime_cmds(r, k, P, N, c.quick, ("msub3", "msub1ex"))
        c.conform("SM9Trace", exi[k], cmds, "prime fields, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM9Trace", exi[k], ts, cmds, "prime fields, " + k, 8 if c.quick else 80)
        # ---- groups
        cmds = []
        for n, e in encs.items():
            cmds += ["T %s.d1.%s" % (k, n), "dec 1 " + hx(e)]
        for n, e in encs2.items():
            cmds += ["T %s.d2.%s" % (k, n), "dec 2 " + hx(e)]
        pts1 = [G, neg(C, G), add(C, G, G), rand_point(C, r), rand_point(C, r)] + list(small_x_points("sm9", 2)) + list(small_y_points("sm9", 1))
        pts2 = [G2, neg2(G2), add2(G2, G2), mul2(r.randrange(N), G2), mul2(r.randrange(N), G2)] + twist_points(r, 3)
        sp, pairs2 = sparse_twist(r)
        pts2 += sp
        sc = scalars(r, c.quick)
        for g, pts, X, ad, ng, mk in ((1, pts1, xy, lambda a, b: add(C, a, b), lambda a: neg(C, a), xy(G)), (2, pts2, xy2, add2, neg2, xy2(G2))):
            for i, Q in enumerate(pts):
                cmds += ["T %s.e%d.%d" % (k, g, i)] + ["enc %d %s %s" % (g, f, X(Q)) for f in "uch"]
                b = X(Q)
                cmds += ["on %d %s" % (g, b)]
                for j in range(2 * g):
                    v = (int(b[64 * j:64 * j + 64], 16) + r.choice([1, P - 1, r.randrange(1, P)])) % P
                    cmds.append("on %d %s" % (g, b[:64 * j] + h(v) + b[64 * j + 64:]))
                cmds += ["on %d %s" % (g, h(0) * 2 * g)]
            zs = ["-", h(0) * (g - 1) + h(2), h(P - 1) * g, "".join(h(r.randrange(1, P)) for _ in range(g))] + ([h(1) + h(0), h(0) + h(P - 1)] if g == 2 else [])
            two = [(A, B) for A in pts[:5] + [None] for B in pts[:5] + [None]] + [(A, ng(A)) for A in pts] + [(A, A) for A in pts] + [(A, ad(A, A)) for A in pts[:4]]
            two += [(A, omega(A)) for A in pts[:4]] + [(A, ng(omega(A))) for A in pts[:2]]
            if g == 2:
                two += pairs2 + [(pts[3], A) for A in sp] + [(A, pts[2]) for A in sp] + [(sp[0], sp[1]), (sp[1], sp[2]), (sp[0], sp[2])]
            for i, (A, B) in enumerate(two):
                t = ["T %s.a%d.%d" % (k, g, i)]
                for al in range(5):
                    t.append("add %d j %s %s %s %s %d" % (g, X(A), r.choice(zs), X(B), r.choice(zs), al))
                if B is not None:
                    t += ["add %d a %s %s %s - %d" % (g, X(A), r.choice(zs), X(B), al) for al in range(2)]
                    t += ["neg %d j %s %s %d" % (g, X(A), r.choice(zs), al) for al in range(2)]
                if A is not None:
                    t += ["neg %d a %s - %d" % (g, X(A), al) for al in range(2)]
                t += ["add %d d %s %s - - %d" % (g, X(A), r.choice(zs), al) for al in range(2)]
                if A is None and B is None:
                    t += ["eq %d - - - -" % g]
                if A is not None and B is not None:
                    t += ["eq %d %s %s %s %s" % (g, X(A), r.choice(zs), X(B), r.choice(zs)), "eq %d %s %s %s %s" % (g, X(A), zs[1], X(A), zs[2])]
                cmds += t
            for i in range(0, len(sc), 6):
                cmds += ["T %s.m%d.%d" % (k, g, i)]
                for s in sc[i:i + 6]:
                    cmds += ["mul %d %s g %s" % (g, h(s), mk), "mul %d %s %s" % (g, h(s), X(r.choice(pts[:5] if g == 2 else pts)))]
        c.conform("SM9Trace", exi[k], cmds, "groups, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM9Trace", exi[k], ts, cmds, "groups, " + k, 24 if c.quick else 120)
        # ---- pairing
        cmds = []
        for i in range(14 if c.quick else 120):
            A = r.choice([G, neg(C, G)] + pts1[5:] + [mul(C, r.randrange(1, N), G)])
            B = r.choice([G2, neg2(G2), add2(G2, G2), mul2(r.randrange(1, N), G2)])
            a, b = (r.choice([1, 2, 3, N - 1, N - 2, r.randrange(1, N), r.randrange(1, N), r.getrandbits(128)]) for _ in range(2))
            cmds += ["T %s.p%d" % (k, i), "pair - %s %s" % (xy(A), xy2(B)), "pair P1 %s %s" % (xy(G), xy2(B)), "pair P2 %s %s" % (xy(A), xy2(G2)), "bil %s %s %s %s" % (h(a), h(b), xy(A), xy2(B))]
        c.conform("SM9Trace", exi[k], cmds, "pairing, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM9Trace", exi[k], ts, cmds, "pairing, " + k, 4 if c.quick else 40)


gm.main("C17", body)
