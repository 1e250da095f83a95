"""C13: SM2 points: encodings are exact, only curve points are accepted, multiples are the group's."""
from sm2_common import *
from primegen import prime_cmds


def body(c):
    big = not c.quick
    r = c.rng
    exe = {k: c.build("sm2", k, SRC, opt="-O2") for k in CFGS}
    exi = {k: c.build("sm2int", k, SRC, opt="-O2") for k in CFGS}
    ts = {k: c.build("sm2int", k, SRC, extra=gm.TSAN, tag="tsan", opt="-O0") for k in CFGS}
    c.background(c.overrides)
    c.background(c.model, "SM2Model", toycfg(1), what="toy curve of prime order: the group behind the scheme")
    encs = encodings(r, c.quick)
    sc = scalars(r, c.quick)
    pts = [G, neg(C, G), rand_point(C, r), rand_point(C, r)] + list(small_x_points("sm2", 2)) + list(small_y_points("sm2", 1))
    for k in CFGS:
        # through the keys
        cmds = ["T %s.pub" % k, "new q pub sm3", "setpub q set %s %s" % (h(G[0]), h(G[1])), "get q"]
        for n, e in encs.items():
            if len(e) == 65:
                cmds += ["setpub q %s %s %s" % (r.choice(["ctor", "set"]), e[1:33].hex(), e[33:].hex()), "get q"]
        sel = sc if big else r.sample(sc, min(len(sc), 60))
        cmds += ["T %s.gmul" % k, "new a priv sm3"]
        for s in sel + [1, 2, 3, N - 2, N - 3]:
            if 1 <= s <= N - 2:
                cmds += ["setpriv a set " + h(s), "get a"]
        # through decryption: a ciphertext made for whatever point a lax decoder would take from the bytes
        i = 0
        for n, e in encs.items():
            i += 1
            if not big and n.startswith("tag") and not (e[0] < 10 or i % 8 == 0):
                continue
            d = r.choice([1, 2, 3, N - 2, r.randrange(1, N - 1)])
            cmds += ["T %s.dec.%s" % (k, n), "new a priv tail32", "setpriv a set " + h(d)]
            if len(e) >= 65:
                Q = (int.from_bytes(e[1:33], "big") % P, int.from_bytes(e[33:65], "big") % P)
                cand = [Q]
                body_len = 65
            elif len(e) >= 33:
                Q = lift(C, int.from_bytes(e[1:33], "big") % P, e[0] & 1)
                cand = [Q] if Q else []
                body_len = 33
            else:
                cand, body_len = [], len(e)
            m = r.randbytes(r.choice([1, 5, 32, 33]))
            done = False
            for Q in cand:
                try:
                    S = mul(C, d, Q)
                except ValueError:
                    S = None
                if S is None:
                    continue
                # tail32: KDF blocks are the last 28 bytes of y2 and the counter; C3 the last 32 bytes of m || y2
                t = b"".join((b32(S[1]) + ct.to_bytes(4, "big"))[-32:] for ct in range(1, 3))[:len(m)]
                c2 = bytes(x ^ y for x, y in zip(m, t))
                c3 = (m + b32(S[1]))[-32:]
                cmds.append("dec a " + hx(e[:body_len] + c3 + c2 if len(e) == body_len else e + c3 + c2))
                done = True
            if not done:
                cmds.append("dec a " + hx(e + r.randbytes(37)))
                cmds.append("dec a " + hx(e))
        c.conform("SM2Trace", exe[k], cmds, "points through keys and ciphertexts, " + k, defer=True)
        # the internal interface, where it is there
        try:
            exi[k].path()
        except gm.CheckError as x:
            c.notes.append("internal point interface not driven: " + str(x)[:200])
            continue
        cmds = []
        for n, e in encs.items():
            cmds += ["T %s.pd.%s" % (k, n), "pdec " + hx(e)]
        for i, Q in enumerate(pts):
            cmds += ["T %s.pe%d" % (k, i)] + ["penc %s %s" % (f, xy(Q)) for f in "uch"]
        for i in range(0, len(sc), 16):
            cmds += ["T %s.mul%d" % (k, i)]
            for s in sc[i:i + 16]:
                cmds += ["mul g " + h(s), "mul %s %s" % (xy(r.choice(pts[1:])), h(s))]
        zs = ["-", h(2), h(P - 1), h(r.randrange(2, P))]
        # the additions the library relies on: general ones of points other than infinity,
        # mixed ones of points that are neither equal nor opposite
        two = [(A, B) for A in pts[:4] for B in pts[:4]]
        two += [(A, neg(C, A)) for A in pts] + [(A, A) for A in pts] + [(A, add(C, A, A)) for A in pts[:3]]
        # points with the same y, and with the opposite y, but another x
        for A in (pts[:6] if c.quick else pts):
            B = other_x(A)
            if B:
                two += [(A, B), (A, neg(C, B))]
        for i, (A, B) in enumerate(two):
            t = ["T %s.add%d" % (k, i)]
            for al in range(3):
                t.append("add j %s %s %s %s %d" % (xy(A), r.choice(zs), xy(B), r.choice(zs), al))
            if A[0] != B[0]:
                t += ["add a %s %s %s - %d" % (xy(A), r.choice(zs), xy(B), al) for al in range(2)]
            t += ["add d %s %s - - %d" % (xy(A), r.choice(zs), al) for al in range(2)]
            t += ["neg a %s - %d" % (xy(A), al) for al in range(2)] + ["neg j %s %s %d" % (xy(A), r.choice(zs), al) for al in range(2)]
            t += ["eq %s %s %s %s" % (xy(A), r.choice(zs), xy(B), r.choice(zs)), "eq %s %s %s %s" % (xy(A), zs[1], xy(A), zs[2]), "on " + xy(A)]
            for v in ((A[0], (A[1] + 1) % P), ((A[0] + 1) % P, A[1]), (A[1], A[0]), (A[0], A[1] ^ (1 << 8 * r.randrange(31)))):
                t.append("on " + xy(v))
            cmds += t
        cmds += ["T %s.inf" % k, "eq - - - -", "on " + h(0) + h(0), "neg j - - 0", "neg j - - 1"]
        cmds += prime_cmds(r, k, P, N, c.quick)
        c.conform("SM2Trace", exi[k], cmds, "points, internal interface, " + k, defer=True)
        c.threads("SM2Trace", exi[k], ts[k], cmds, "points, internal interface, " + k, 32 if c.quick else 200)


gm.main("C13", body)
