"""C15: SM2 encryption is standard; decryption gives the plaintext or an error."""
from sm2_common import *
HL = {"sm3": 32, "tail20": 20, "tail32": 32, "tail64": 64, "gate": 32}


def body(c):
    big = not c.quick
    r = c.rng
    exe = {k: c.build("sm2", k, SRC, opt="-O2") for k in CFGS}
    ts = c.build("sm2", CFGS[0], SRC, extra=gm.TSAN, tag="tsan")
    c.background(c.overrides)
    c.background(c.model, "SM2Model", toycfg(1), what="toy curve of order 19: sender and receiver share a finite point for every key and nonce")
    keys = [1, 2, N - 2, N - 3] + [r.randrange(1, N - 1) for _ in range(3 if c.quick else 20)]
    lens = [0, 1, 2, 19, 20, 21, 31, 32, 33, 39, 40, 41, 63, 64, 65, 66, 95, 96, 97, 100, 127, 128, 129, 160, 161, 255, 256, 257, 300]
    if big:
        lens = list(range(0, 330)) + [1023, 1024, 1025, 8191, 8192, 8193]
    else:
        lens += [32 * 256 - 1, 32 * 256 + 1, 32 * 256 + 33]
    for k in CFGS:
        cmds = []
        # ---- every form and length
        i = 0
        for n in lens:
            for f in "uch":
                i += 1
                d = keys[i % len(keys)]
                hs = "sm3" if not big or i % 4 else r.choice(list(HL))
                m = r.choice([r.randbytes(n), bytes(n), b"\xff" * n])
                kk = r.choice([1, 2, N - 1, N - 2, r.randrange(1, N), r.randrange(1, N), r.randrange(1, N)])
                cmds += ["T %s.enc%d" % (k, i), "new a priv " + hs, "setpriv a set " + h(d), "new b pub " + hs, "pubof b a",
                         "enc %s %s %s %s" % (r.choice("ab"), f, hx(m), draw(kk)), "dec a @"]
                cmds += ["enc %s %s %s %s" % (r.choice("ab"), r.choice("uch"), hx(m[: n // 2]), h((1 << 256) - 1 - i) + h(r.randrange(N - 1)) * 3), "dec a @"]
        # keys, nonces and plaintexts that follow one another and differ in one byte only, or in the sign of the point
        for i in range(3 if c.quick else 12):
            d, kk, m = r.choice(keys), r.randrange(1, N), r.randbytes(r.choice([1, 16, 33, 70]))
            cmds += ["T %s.near%d" % (k, i), "new a priv sm3", "setpriv a set " + h(d), "new b pub sm3", "pubof b a"]
            for j in range(20 if c.quick else 60):
                z = j % 4
                if z == 0:
                    d = r.choice([N - d, int.from_bytes(gm.tweak(r, b32(d)), "big")])
                    d = d if 0 < d < N - 1 else 5
                    cmds += ["setpriv a %s %s" % (r.choice(["set", "ctor"]), h(d)), "pubof b a"] + (["dec a @"] if j else [])
                elif z == 1:
                    m = gm.tweak(r, m)
                elif z == 2:
                    kk = r.choice([N - kk, int.from_bytes(gm.tweak(r, b32(kk)), "big") % (N - 1) + 1])
                cmds += ["enc %s %s %s %s" % (r.choice("ab"), r.choice("uch"), hx(m), draw(kk) + draw(r.randrange(1, N)) * 3), "dec a @"]
        # other digests: key stream and check value of other sizes
        for hs in ("tail20", "tail32", "tail64"):
            for j, n in enumerate([0, 1, 19, 20, 21, 31, 32, 33, 40, 41, 63, 64, 65, 128, 129]):
                d = r.choice(keys)
                cmds += ["T %s.h.%s.%d" % (k, hs, n), "new a priv " + hs, "setpriv a ctor " + h(d)]
                for f in "uch":
                    cmds += ["enc a %s %s %s" % (f, hx(r.randbytes(n)), draw(r.randrange(1, N))), "dec a @"]
        # ---- key streams of zeros: found by the gate (chosen by the first byte of x2 and the last byte of the data)
        for n in (1, 2, 5, 31, 32, 33, 40, 64, 65):
            found = {}
            d = r.choice(keys)
            while len(found) < 4 or min(len(v) for v in found.values()) < 3:
                kk = r.randrange(1, N)
                g = b32(mul(C, kk * d % N, G)[0])[0] % 4
                if len(found.setdefault(g, [])) < 3:
                    found[g].append(kk)
            for a0 in range(4):
                for j, script in enumerate([[found[a0][0]], [found[a0][0], found[3][0]], [found[a0][1], found[1][0], found[3][1]], [found[0][0], found[a0][2]], [found[2][0], found[a0][0], found[0][1], found[3][2]]]):
                    cmds += ["T %s.zero%d.%d.%d" % (k, n, a0, j), "new a priv gate", "setpriv a set " + h(d)]
                    cmds += ["enc a %s %s %s" % (r.choice("uch"), hx(r.randbytes(n)), "".join(draw(x) for x in script)), "dec a @"]
                # a ciphertext under a zero key stream: C2 is the plaintext
                kk = found[a0][0]
                S = mul(C, kk * d % N, G)
                Q = mul(C, kk, G)
                m = r.randbytes(n)
                data = b32(S[0]) + m + b32(S[1])
                c3 = gate(data)
                t = b"".join(gate(b32(S[0]) + b32(S[1]) + ct.to_bytes(4, "big")) for ct in range(1, n // 32 + 2))[:n]
                cmds += ["T %s.zdec%d.%d" % (k, n, a0), "new a priv gate", "setpriv a set " + h(d), "dec a " + hx(b"\4" + b32(Q[0]) + b32(Q[1]) + c3 + bytes(x ^ y for x, y in zip(m, t))),
                         "dec a " + hx(b"\4" + b32(Q[0]) + b32(Q[1]) + c3 + m)]
        # one byte under SM3: a zero key stream is one in 256
        d = r.choice(keys)
        cmds += ["T %s.short" % k, "new a priv sm3", "setpriv a set " + h(d)]
        for _ in range(200 if c.quick else 1500):
            cmds += ["enc a c %s %s" % (hx(r.randbytes(1)), h(r.randrange(N - 1)) * 1 + h(r.randrange(N - 1))), "dec a @"]
        # ---- messages of more than 2^8 and 2^16 blocks of key stream
        for j, n in enumerate([32 * 65536 + 77] if c.quick else [32 * 256 + 40, 32 * 65536 + 77, 32 * 65536 + 32 * 257, (1 << 24) + 33]):
            offs = [0, 32 * 255, 32 * 256 - 5, n - 32] + [r.randrange(n - 32) for _ in range(3)] + ([32 * 65535 - 16, 32 * 65535, 32 * 65536] if n > 32 * 65537 else [])
            cmds += ["T %s.long%d" % (k, j), "new a priv sm3", "setpriv a set " + h(r.choice(keys)), "new b pub sm3", "pubof b a",
                     "encbig b %s %d %d %s %s" % ("uch"[j % 3], r.randrange(256), n, draw(r.randrange(1, N)), ",".join(map(str, offs))), "decbig a @",
                     "decbig a @x%d.%02x" % (n // 2, 1 << r.randrange(8)), "decbig a @x%d.%02x" % (32 * 65536, 255), "decbig a @"]
        # ---- announced lengths past 16 and 32 bits
        for hs in HL:
            cmds += ["T %s.lens.%s" % (k, hs), "new a priv " + hs, "setpriv a set " + h(r.choice(keys))]
            for n in (1, 33, 52, 53, 64, 65, 84, 85, 96, 97, 98, 129, 255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 97, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 97, (1 << 36) + 5, (1 << 45) + 3):
                cmds.append("lens a %s %02x %s" % (r.choice("uch"), r.choice([0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 255]), n.to_bytes(8, "big").hex()))
            for n in (0, 1, HL[hs], 1 << 33):
                cmds += ["bound a %s %s %s" % (w, (HL[hs] * ((1 << 32) - 1) + n).to_bytes(8, "big").hex(), draw(r.randrange(1, N)) * 2) for w in ("enc", "dec")]
        # ---- more than 2^32 bytes
        if k == CFGS[0]:
            n = (1 << 32) + r.randrange(1, 1 << 19)
            b = r.randrange(256)
            f = r.choice("uch")
            end = n + (97 if f == "c" else 129)
            L = lambda v: v.to_bytes(8, "big").hex()
            big32 = ["T %s.huge" % k, "new a priv tail64", "setpriv a set " + h(r.choice(keys)), "new b pub tail64", "pubof b a",
                     "enchuge b %s %d %s %s - 64" % (f, b, L(n), draw(r.randrange(1, N))), "dechuge a %d %s 00" % (b, L(0)), "dechuge a %d %s 01" % (b, L(end - 1 - r.randrange(32))), "dechuge a %d %s 80" % (b, L(end - n - 1))]
            c.conform("SM2Trace", exe[k], big32, "more than 2^32 bytes, " + k, defer=True)
        # ---- no randomness
        for f in "uch":
            cmds += ["T %s.starve.%s" % (k, f), "new a priv sm3", "setpriv a set " + h(r.choice(keys))]
            for script in ("-", "00", h(1)[:62], h((1 << 256) - 1)):
                cmds += ["enc a %s %s %s" % (f, hx(r.randbytes(9)), script)]
            cmds += ["enc a %s %s %s" % (f, hx(r.randbytes(9)), draw(3)), "dec a @"]
        c.conform("SM2Trace", exe[k], cmds, "encryption, " + k, defer=True)
        if k == CFGS[0]:
            c.threads("SM2Trace", exe[k], ts, cmds, "encryption, " + k, 32 if c.quick else 200, only='.enc')
            c.shared("SM2Trace", exe[k], ts, [(["new a priv sm3", "setpriv a set " + h(d), "new b pub sm3", "pubof b a"],
                                               [[x for _ in range(2) for x in ("enc b %s %s %s" % (r.choice("uch"), hx(r.randbytes(r.randrange(1, 150))), draw(r.randrange(1, N)) * 2), "dec a @", "dec a @x80.01")] for _ in range(4)])
                                              for d in keys[:2 if c.quick else 12]], "SM2 keys encrypting and decrypting, " + k)
        # ---- tampering
        cmds = []
        for f in "uch":
            for n in ([0, 1, 5, 33] if c.quick else [0, 1, 2, 5, 31, 32, 33, 64, 70]):
                hs = r.choice(["sm3", "sm3", "tail20", "tail64"])
                base = "new a priv %s\nsetpriv a set %s\nenc a %s %s %s" % (hs, h(r.choice(keys)), f, hx(r.randbytes(n)), draw(r.randrange(1, N)))
                size = (33 if f == "c" else 65) + HL[hs] + n
                pos = range(size) if big or k == CFGS[0] else r.sample(range(size), 20)
                cmds += ["T %s.flip.%s%d" % (k, f, n)] + base.split("\n")
                for p in pos:
                    cmds.append("dec a @x%d.%02x" % (p, 1 << r.randrange(8)))
                if big:
                    for p in pos:
                        cmds.append("dec a @x%d.%02x" % (p, r.randrange(1, 256)))
                cmds += ["T %s.cut.%s%d" % (k, f, n)] + base.split("\n")
                for p in (range(size) if big else sorted(set([0, 1, 2, 32, 33, 34, 64, 65, 66, size - 1, size - 2, size - n, size - n - 1, size - n - 2] + r.sample(range(size), 8)))):
                    if 0 <= p < size:
                        cmds.append("dec a @t%d" % p)
                cmds += ["dec a @e00", "dec a @e" + "00" * 32, "dec a @e" + r.randbytes(40).hex()]
                cmds += ["T %s.tag.%s%d" % (k, f, n)] + base.split("\n")
                for t in range(256) if big else list(range(10)) + [0x80, 0x84, 0xff]:
                    cmds.append("dec a @s0.%02x" % t)
                # another key's ciphertext
                cmds += ["T %s.key.%s%d" % (k, f, n)] + base.split("\n") + ["setpriv a set " + h(r.choice([7, 9, 11])), "dec a @"]
        # short inputs that are nothing
        cmds += ["T %s.junk" % k, "new a priv sm3", "setpriv a set " + h(5)]
        for n in list(range(0, 4)) + [31, 32, 33, 34, 64, 65, 66, 96, 97, 98, 99]:
            for t in (0, 2, 3, 4, 6, 7, 0xff):
                cmds.append("dec a " + hx((bytes([t]) + r.randbytes(n))[:n] if n else b""))
        c.conform("SM2Trace", exe[k], cmds, "changed ciphertexts, " + k, defer=True)


def gate(d):
    q = d[0] % 4
    if q == 0 or (q == 1 and d[-1] == 1) or (q == 2 and d[-1] != 1):
        return bytes(32)
    return b"\1" + d[-31:].rjust(31, b"\0")


gm.main("C15", body)
