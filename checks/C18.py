"""C18: SM9 signatures: standard for every draw, redrawn when they must be; verification is exact and total."""
from sm9_common import *


def hv(x, j=0, n=40):
    """bytes that head64 makes into the hash value x"""
    return (x - 1 + j * (N - 1)).to_bytes(n, "big")


JMAX = ((1 << 320) - 1) // (N - 1)


def inv(x):
    return pow(x, -1, N)


def body(c):
    big = not c.quick
    r = c.rng
    exe = {k: c.build("sm9", k, SRC, opt="-O2") for k in CFGS}
    ts = c.build("sm9", CFGS[0], SRC, extra=gm.TSAN, tag="tsan")
    c.background(c.model, "SM9Check", env={"GM_N": "8" if c.quick else "100", "GM_DEEP": "1", "GM_SEED": str(c.seed + 1)}, what="pairing and groups evaluated against their definitions")
    c.background(c.model, "SM9Model", "SPECIFICATION MSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n n = %d\n MaxDraws = 2\n" % 5,
                 what="the scheme over groups of order 5: every master key, identity, hash function and nonce sequence")
    if big:
        c.background(c.model, "SM9Model", "SPECIFICATION MSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n n = 7\n MaxDraws = 1\n", what="the scheme over groups of order 7")
    keys = [1, 2, N - 1, N - 2, (N + 1) // 2] + [r.randrange(1, N) for _ in range(3 if c.quick else 30)]
    ids = ["-", "41", "00", "*39", "*40", "*41", "*52", "*53", "*54", "*55", "*63", "*64", "*200", "*8192", "*65536"]
    for k in CFGS:
        cmds = []
        # ---- the standard's own example, then keys, identities, hids, forms, lengths
        for i, ks in enumerate(keys):
            cmds += ["T %s.sign%d" % (k, i), "new a master sm3", "msetpriv a %s %s" % (r.choice(["ctor", "set"]), h(ks)), "new q pub sm3", "pubof q a"]
            for j in range(5 if c.quick else 12):
                idv, hid = ids[(i * 5 + j) % len(ids)], r.choice(["D", "0", "1", "2", "3", "128", "255"])
                m = r.randbytes(r.choice([0, 1, 31, 32, 55, 56, 63, 64, 65, 200]))
                kk = r.choice([1, 2, N - 1, N - 2, r.randrange(1, N), r.randrange(1, N)])
                cmds += ["extract u a %s %s" % (idv, hid), "get u", "sign u %s %s %s" % (r.choice("uchD"), hx(m), draw(kk)), "verify %s %s %s %s @" % (r.choice("aqu"), idv, hid, hx(m)),
                         "verify q %s %s %s @" % (idv, "4" if hid != "4" else "5", hx(m)), "verify q %s %s %s @" % (r.choice([x for x in ids if x != idv]), hid, hx(m)),
                         "verify q %s %s %s @" % (idv, hid, hx(m + b"\0"))]
        # moving bytes between identity, hid and message
        for i in range(2 if c.quick else 10):
            idv, m = r.randbytes(6), r.randbytes(9)
            cmds += ["T %s.move%d" % (k, i), "new a master sm3", "msetpriv a set " + h(keys[-1 - i % 3]), "extract u a %s 1" % hx(idv + b"\2"), "sign u u %s %s" % (hx(m), draw(r.randrange(1, N))),
                     "verify a %s 1 %s @" % (hx(idv + b"\2"), hx(m)), "verify a %s 2 %s @" % (hx(idv), hx(m)), "verify a %s 1 %s @" % (hx(idv), hx(m)), "verify a %s 1 %s @" % (hx(idv + b"\2\1"), hx(m)),
                     "verify a %s 2 %s @" % (hx(idv), hx(b"\1" + m)), "verify a - 1 %s @" % hx(m), "sign u u - %s" % draw(5), "verify a %s D - @" % hx(idv + b"\2"),
                     "extract v a - D", "sign v c %s %s" % (hx(m), draw(7)), "verify a - D %s @" % hx(m), "verify a %s D %s @" % (hx(idv), hx(m))]
        # ---- draws at the edge of the range
        for i in range(2 if c.quick else 8):
            for j, e in enumerate([0, N - 2, N - 1, N, N + 1, (1 << 256) - 1, 2 * (N - 1) if 2 * (N - 1) < 1 << 256 else N + 2]):
                m = hx(r.randbytes(20))
                cmds += ["T %s.edge%d.%d" % (k, i, j), "new a master sm3", "msetpriv a set " + h(r.choice(keys)), "extract u a 6162 D",
                         "sign u u %s %s" % (m, h(e) + h(r.randrange(N - 1)) + h(r.randrange(N - 1))), "verify a 6162 D %s @" % m,
                         "sign u c %s %s" % (m, h(e)), "verify a 6162 D %s @" % m, "sign u h %s -" % m, "sign u u %s %s" % (m, h(7)[:62]), "verify a 6162 D %s @" % m]
        # ---- r = h: draw again, once or more, or run dry; digests of other lengths
        for i in range(3 if c.quick else 12):
            for hs, L in (("head64", 64), ("head32", 32), ("head20", 20)):
                m = r.randbytes(max(L, 40))
                if hs == "head64":
                    m = hv(r.choice([1, 2, N - 1, N - 2, r.randrange(1, N)]), r.choice([0, 1, JMAX - 2, r.randrange(JMAX)])) + r.randbytes(24)
                v = (m[:L] + m[:L])[:40]
                hh = int.from_bytes(v, "big") % (N - 1) + 1
                bad = h(hh - 1)
                good = [h(x - 1) for x in (r.randrange(1, N), hh % (N - 1) + 1, (hh - 2) % (N - 1) + 1)]
                cmds += ["T %s.redraw.%s.%d" % (k, hs, i), "new a master " + hs, "msetpriv a set " + h(r.choice(keys)), "extract u a %s D" % hx(r.randbytes(45))]
                scripts = [bad + good[0], bad + bad + good[1], bad + h(N - 1) + bad + good[2] + good[0], bad, bad + bad, bad + bad[:40], bad + "00", good[0], good[1], good[2]]
                if hh - 1 + N - 1 < 1 << 256:
                    scripts += [h(hh - 1 + N - 1) + good[1] + good[0], h(hh - 1 + N - 1)]
                for s in scripts:
                    cmds.append("sign u %s %s %s" % (r.choice("uch"), hx(m), s))
                idv = r.randbytes(45)
                cmds += ["extract u a %s D" % hx(idv), "sign u u %s %s" % (hx(m), bad + good[0]), "verify a %s D %s @" % (hx(idv), hx(m))]
        # ---- other digests, the hash into the range at its edges
        for i, hs in enumerate(["tail20", "tail32", "tail64", "head20", "head32", "head64"] * (1 if c.quick else 6)):
            cmds += ["T %s.dig.%d" % (k, i), "new a master " + hs, "msetpriv a set " + h(r.choice(keys))]
            vs = [0, 1, N - 2, N - 1, N, 2 * (N - 1), 2 * (N - 1) - 1, (1 << 320) - 1, JMAX * (N - 1), JMAX * (N - 1) - 1, (1 << 64) * (N - 1) - 1, 1 << 256, (1 << 256) - 1, r.getrandbits(320), r.getrandbits(256)]
            vs = [v for v in vs if v < 1 << 320]
            for v in vs if hs == "head64" else vs[-2:]:
                idv, m = v.to_bytes(40, "big"), r.choice(vs).to_bytes(40, "big") + r.randbytes(r.choice([0, 30]))
                cmds += ["extract u a %s D" % hx(idv), "get u", "sign u %s %s %s" % (r.choice("uch"), hx(m), draw(r.randrange(1, N)) * 2), "verify a %s D %s @" % (hx(idv), hx(m))]
        # ---- identities without a key, and those that make the addition a doubling
        for i, ks in enumerate(keys):
            bad, dbl, m = hv(N - ks, i), hv(ks, 2 * i), hv(r.randrange(1, N)) + bytes(24)
            hh = int.from_bytes(m[:40], "big") + 1
            cmds += ["T %s.nokey%d" % (k, i), "new a master head64", "msetpriv a set " + h(ks), "new u user head64", "extract u a %s D" % hx(bad), "extract u a %s D" % hx(dbl), "get u",
                     "sign u u %s %s" % (hx(m), draw(r.randrange(1, N)) * 2), "verify a %s D %s @" % (hx(dbl), hx(m)), "verify a %s D %s @" % (hx(bad), hx(m)), "verify u %s D %s @" % (hx(bad), hx(m)),
                     "extract u a %s D" % hx(bad), "get u", "verify a %s D %s %s" % (hx(bad), hx(m), h(hh) + "04" + xy(G)), "verify a %s D %s %s" % (hx(hv(1)), hx(m), h(hh) + "04" + xy(G)),
                     "verify a %s D %s %s" % (hx(hv(N - 1)), hx(m), h(hh) + "04" + xy(G))]
        # ---- master keys, identities, messages and draws that follow one another and differ in one byte only, or in the sign of the point
        for i in range(2 if c.quick else 12):
            ks, idv, hid, m, kk = r.choice(keys), r.randbytes(r.choice([8, 20, 40])), "1", r.randbytes(r.choice([5, 64])), r.randrange(1, N)
            near = lambda v: int.from_bytes(gm.tweak(r, b32(v)), "big") % (N - 1) + 1
            cmds += ["T %s.near%d" % (k, i), "new a master sm3", "msetpriv a set " + h(ks), "new q pub sm3", "pubof q a", "extract u a %s %s" % (hx(idv), hid), "sign u u %s %s" % (hx(m), draw(kk))]
            for j in range(12 if c.quick else 60):
                z = (j + i) % 6
                if z == 0:
                    idv = gm.tweak(r, idv)
                elif z == 1:
                    m = gm.tweak(r, m)
                elif z == 2:
                    ks = r.choice([N - ks, near(ks)])
                    cmds += ["msetpriv a set " + h(ks)] + r.choice([["pubof q a"], []])
                elif z == 3:
                    kk = r.choice([N - kk, near(kk)])
                elif z == 4:
                    hid = r.choice("123")
                else:
                    idv = r.choice([idv + b"\1", idv[:-1], b"\0" + idv])
                if z not in (1, 3):
                    cmds += ["extract u a %s %s" % (hx(idv), hid), "get u"]
                cmds += ["sign u %s %s %s" % (r.choice("uch"), hx(m), draw(kk)), "verify %s %s %s %s @" % (r.choice("au"), hx(idv), hid, hx(m)), "verify q %s %s %s @" % (hx(idv), hid, hx(m))]
                if j % 3 == 0:
                    cmds.append("verify a %s %s %s @" % (hx(gm.tweak(r, idv)), hid, hx(m)))
        # ---- one public-key object given one key after another: the opposite, the same again, a refused one
        for i in range(2 if c.quick else 8):
            ks, idv, m, hid = r.choice(keys), hx(r.randbytes(9)), hx(r.randbytes(11)), r.choice("D1")
            Q = mul2(ks, G2)
            nQ = (Q[0], tuple(-v % P for v in Q[1]))
            cmds += ["T %s.repub%d" % (k, i), "new a master sm3", "msetpriv a set " + h(ks), "extract u a %s %s" % (idv, hid), "sign u %s %s %s" % (r.choice("uch"), m, draw(r.randrange(1, N))), "new q pub sm3"]
            for R in (Q, nQ, Q, mul2(3, G2), nQ, Q, (Q[0], (Q[1][0], Q[1][1] ^ 1)), (Q[1], Q[0])):
                cmds += ["setpub q %s %s" % (e2(R[0]), e2(R[1])), "get q", "verify q %s %s %s @" % (idv, hid, m)]
        c.conform("SM9Trace", exe[k], cmds, "extraction and signing, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM9Trace", exe[k], ts, cmds, "extraction and signing, " + k, 12 if c.quick else 80, longest=40)
            groups = []
            for ks in keys[:1 if c.quick else 8]:
                idv = r.randbytes(9)
                bodies = []
                for _ in range(4):
                    m, id2 = r.randbytes(r.randrange(0, 90)), hx(r.randbytes(7))
                    bodies.append(["get u", "sign u %s %s %s" % (r.choice("uch"), hx(m), draw(r.randrange(1, N)) * 2), "verify b %s D %s @" % (hx(idv), hx(m)), "extract v a %s D" % id2, "get v", "verify u %s D %s @" % (id2, hx(m))])
                groups.append((["new a master sm3", "msetpriv a set " + h(ks), "new b pub sm3", "pubof b a", "extract u a %s D" % hx(idv)], bodies))
            c.shared("SM9Trace", exe[k], ts, groups, "SM9 keys, " + k)

        # ---- verification: with head64 the hash does not see w, so every point of the curve is a signature
        cmds = []
        m = hv(5) + bytes(24)
        for n, e in encodings(r, c.quick).items():
            x = r.choice([1, 2, 5, N - 1, r.randrange(1, N)])
            m = hv(x, r.choice([0, 1, 7])) + r.randbytes(24)
            cmds += ["T %s.pt.%s" % (k, n), "new a master head64", "msetpriv a set " + h(r.choice(keys)), "verify a %s D %s %s" % (hx(hv(r.randrange(1, N))), hx(m), h(x) + (hx(e) if e else ""))]
        # the number h: out of range, near the right one
        for i in range(4 if c.quick else 30):
            x = r.choice([1, 2, (1 << 256) - N - 1, N - 1, N - 2, r.randrange(1, (1 << 256) - N), r.randrange(1, N)])
            m = hx(hv(x) + bytes(24))
            t = "04" + xy(rand_point(C, r))
            cmds += ["T %s.h%d" % (k, i), "new a master head64", "msetpriv a set " + h(r.choice(keys))]
            for v in [x, x + N, x + N - 1, x - 1, x + 1, N - x, 0, N, N - 1, 1, (1 << 256) - 1, P, x ^ (1 << 255), x ^ 1, x ^ (1 << 64)]:
                if 0 <= v < 1 << 256:
                    cmds.append("verify a 41 D %s %s" % (m, h(v) + t))
        # lengths and tails, from nothing to too much
        for f, body_ in (("u", "04" + xy(G)), ("c", "%02x" % (2 + G[1] % 2) + h(G[0])), ("h", "%02x" % (6 + G[1] % 2) + xy(G))):
            m = hx(hv(9) + bytes(24))
            s = h(9) + body_
            cmds += ["T %s.len.%s" % (k, f), "new a master head64", "msetpriv a set " + h(keys[-1])]
            for n in list(range(0, 34)) + [34, 63, 64, 65, 66, 95, 96, 97]:
                if 2 * n < len(s) and (big or n % 3 == 0 or n > 30):
                    cmds.append("verify a 41 D %s %s" % (m, s[:2 * n] if n else "-"))
            cmds += ["verify a 41 D %s %s" % (m, s)] + ["verify a 41 D %s %s" % (m, s + x) for x in ("00", "ff", "00" * 31, "00" * 32, "00" * 200, h(G[1]))]
        # ---- tampering with everything under the standard hash
        for i, f in enumerate("uch" * (1 if c.quick else 4)):
            idv, mm = r.randbytes(5), r.randbytes(11)
            ks = r.choice(keys)
            cmds += ["T %s.flip%d" % (k, i), "new a master sm3", "msetpriv a set " + h(ks), "new b master sm3", "msetpriv b set " + h(ks % (N - 1) + 1), "extract u a %s D" % hx(idv),
                     "sign u %s %s %s" % (f, hx(mm), draw(r.randrange(1, N)))]
            V = lambda o, a, hid, b, s: cmds.append("verify %s %s %s %s %s" % (o, hx(a), hid, hx(b), s))
            V("a", idv, "D", mm, "@")
            L = 65 if f == "c" else 97
            for p in range(L) if big else sorted(r.sample(range(L), 20) + [0, 31, 32, 33, L - 1]):
                V("a", idv, "D", mm, "@x%d.%02x" % (p, 1 << r.randrange(8)))
            for t in range(0, 9):
                V("a", idv, "D", mm, "@s32.%02x" % t)
            for t in (0, 32, 33, 64, L - 1):
                V("a", idv, "D", mm, "@t%d" % t)
            V("a", idv, "D", mm, "@e00")
            for j in range(len(mm)):
                V("u", idv, "D", mm[:j] + bytes([mm[j] ^ (1 << r.randrange(8))]) + mm[j + 1:], "@")
            for j in range(len(idv)):
                V("u", idv[:j] + bytes([idv[j] ^ (1 << r.randrange(8))]) + idv[j + 1:], "D", mm, "@")
            V("a", idv, "0", mm, "@")
            V("b", idv, "D", mm, "@")
            V("a", mm, "D", idv, "@")
            V("a", idv, "D", mm, "@")
        # the opposite of S, S of another form's coordinates, a user key from outside
        for i in range(4 if c.quick else 20):
            ks, h1 = r.choice(keys), r.randrange(1, N)
            while (h1 + ks) % N == 0:
                h1 = r.randrange(1, N)
            d = mul(C, ks * inv(h1 + ks) % N, G)
            Q = mul2(ks, G2)
            x = r.randrange(1, N)
            m = r.randbytes(33)
            cmds += ["T %s.imp%d" % (k, i), "new u user sm3", "usetpriv u %s %s %s %s" % (h(d[0]), h(d[1]), e2(Q[0]), e2(Q[1])), "get u", "sign u %s %s %s" % (r.choice("uch"), hx(m), draw(x)),
                     "new q pub sm3", "setpub q %s %s" % (e2(Q[0]), e2(Q[1])), "verify q 61 D %s @" % hx(m), "copy w u", "sign w u %s %s" % (hx(m), draw(x)), "get w", "new a master sm3", "msetpriv a set " + h(ks), "verify a 61 D %s @" % hx(m)]
            # the same with a chosen identity hash
            cmds += ["T %s.impd%d" % (k, i), "new u user tail64", "usetpriv u %s %s %s %s" % (h(d[0]), h(d[1]), e2(Q[0]), e2(Q[1])), "sign u u %s %s" % (hx(m), draw(x)), "verify u %s D %s @" % (hx(r.randbytes(60)), hx(m))]
        # random signatures
        cmds += ["T %s.rand" % k, "new a master sm3", "msetpriv a set " + h(keys[0])]
        for i in range(10 if c.quick else 60):
            cmds.append("verify a 61 D %s %s" % (hx(r.randbytes(8)), h(r.choice([0, 1, N - 1, N, r.randrange(1, N)])) + r.choice(["04" + xy(rand_point(C, r)), "04" + xy(G), "04" + h(0) * 2, "00", "00" * 65, "02" + h(r.randrange(P))])))
        c.conform("SM9Trace", exe[k], cmds, "verification, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM9Trace", exe[k], ts, cmds, "verification, " + k, 12 if c.quick else 80, longest=40)


gm.main("C18", body)
