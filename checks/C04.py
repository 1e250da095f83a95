"""C04: GCM decryption accepts exactly the authentic messages, whatever happened before."""
from modes_common import *


def flip(b, i):
    b = bytearray(b)
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)


def huge(m):
    return len(m["ct"]) + len(m["aad"]) + len(m["iv"]) > 20000


def dec(r, i, m, out, chunks=None, inplace=False):
    """decrypt m with object i (already created)"""
    out.append("init %s %s %s %s" % (i, hx(m["key"]), hx(m["iv"]), hx(m["aad"])))
    late = r.random() < 0.5
    if not late:
        out.append("settag %s %s" % (i, hx(m["tag"])))
    ct = m["ct"]
    pos = 0
    for n in chunks or []:
        n = min(n, len(ct) - pos)
        out.append("upd %s %s 0" % (i, hx(ct[pos:pos + n])))
        pos += n
    rest = ct[pos:]
    if late:
        out.append("settag %s %s" % (i, hx(m["tag"])))
    out.append("fin %s %s %d" % (i, hx(rest), 1 if inplace and pos % 16 == 0 else (2 if not rest else 0)))


def body(c):
    cfgs = gm.cpu_configs()
    exe = {k: build(c, k) for k in cfgs}
    ts = {k: build(c, k, extra=gm.TSAN, tag="tsan", opt="-O0") for k in cfgs if k == "base" or k == "simd"}
    big = not c.quick
    r = c.rng
    c.background(c.model, "ModesModel", cfg(Ciphers=["toy16p2"], Modes=["gcm"], Dirs=["FALSE"], Sizes=[0, 1, 16, 17], FinSizes=[0, 1, 16],
                                            Ids=["a", "b"], Multi=True, MaxCalls=6 if big else 4),
                 what="two decryptors: every history of re-initialisations, right, wrong and missing tags, copies")
    specs = []
    for ci in ["toy16p2"] + ALL:
        for ln in ([0, 1, 15, 16, 17, 33, 50, 129, 257] if ci == "toy16p2" or big else r.sample([0, 1, 15, 16, 17, 33, 50, 128, 257], 3)):
            specs.append((ci, msg(r, KL[ci]), msg(r, r.choice([12, 12, 1, 16, 17])), msg(r, r.choice([0, 1, 16, 21])), msg(r, ln)))
    for ivl, al, ln in ((512, 513, 20), (1000, 4096, 33), (4099, 1024, 0), (268, 7, 5), (65548, 65536 + 5, 40), (12, 256, 65536 + 3)):
        specs.append(("toy16p2", msg(r, 16), msg(r, ivl), msg(r, al), msg(r, ln)))
    msgs = gcm_msgs(c, specs)
    beh = c.behaviours("ModesModel", cfg(Ciphers=["toy16p2"], Modes=["gcm"], Dirs=["FALSE"], Sizes=[0, 1, 16, 17], FinSizes=[0, 1, 16],
                                         Ids=["a", "b"], Multi=True, Emit=True, MaxCalls=14), workers=1,
                       extra=["-simulate", "num=%d" % (30 if c.quick else 1000), "-depth", "30", "-seed", str(c.seed)],
                       what="long random histories of two decryptors")
    if c.quick and len(beh) > 400:
        beh = r.sample(beh, 400)
    for k in cfgs:
        cmds = []
        n = 0
        for i, b in enumerate(beh):
            cmds += beh_cmds("%s.h%d" % (k, i), b, ["a", "b"], False, None)
        for m in msgs:
            ci = m["c"]

            def one(mm, **kw):
                nonlocal n
                n += 1
                o = ["T %s.%d" % (k, n), "new a gcm d %s" % ci]
                dec(r, "a", mm, o, **kw)
                cmds.extend(o)
            one(m)
            one(m, inplace=True)
            one(m, chunks=[r.choice([1, 15, 16, 17]), r.choice([0, 1, 16, 31])])
            if huge(m):
                for bit in r.sample(range(128), 2):
                    one(dict(m, tag=flip(m["tag"], bit)))
                for f in ("ct", "aad", "iv"):
                    one(dict(m, **{f: flip(m[f], r.randrange(8 * len(m[f])))}))
                continue
            full = ci == "toy16p2" and k != "port"
            for bit in (range(128) if full and len(m["ct"]) in (0, 17) else [7 + 8 * j for j in range(16)] + r.sample(range(128), 4)):
                one(dict(m, tag=flip(m["tag"], bit)))
            # differences that cancel in a sum or an exclusive or of the bytes
            for a, b2 in [tuple(r.sample(range(16), 2)) for _ in range(4)]:
                t = bytearray(m["tag"])
                t[a] ^= 0x41
                t[b2] ^= 0x41
                one(dict(m, tag=bytes(t)))
                t = bytearray(m["tag"])
                t[a], t[b2] = t[b2], t[a]
                one(dict(m, tag=bytes(t)))
            one(dict(m, tag=bytes(16)))
            for f in ("ct", "aad", "iv", "key"):
                v = m[f]
                for bit in r.sample(range(8 * len(v)), min(8 * len(v), 8 if full else 2)):
                    one(dict(m, **{f: flip(v, bit)}))
                if f in ("ct", "aad", "iv"):
                    if len(v) > (1 if f == "iv" else 0):
                        one(dict(m, **{f: v[:-1]}))
                    one(dict(m, **{f: v + b"\0"}))
            # bytes moved between the additional data and the text
            if m["ct"]:
                one(dict(m, aad=m["aad"] + m["ct"][:1], ct=m["ct"][1:]))
        # many messages through the same process and the same object, good and bad mixed
        for g in range(6 if c.quick else 60):
            ci = r.choice(["toy16p2"] + ALL)
            mine = [m for m in msgs if m["c"] == ci and not huge(m)]
            o = ["T %s.seq%d" % (k, g), "new a gcm d %s" % ci, "new b gcm d %s" % ci]
            for _ in range(24):
                m = r.choice(mine)
                if r.random() < 0.5:
                    m = dict(m, **r.choice([{"tag": flip(m["tag"], r.randrange(128))}, {"aad": m["aad"] + b"x"}, {"ct": m["ct"] + b"y"}]))
                dec(r, r.choice("ab"), m, o, chunks=[r.choice([0, 1, 16, 20])] if r.random() < 0.5 else None)
                if r.random() < 0.2:  # abandoned part-way
                    o.append("init a %s %s -" % (hx(m["key"]), hx(m["iv"])))
                    o.append("upd a %s 0" % hx(msg(r, r.choice([1, 16, 31]))))
            cmds += o
        # the same in parallel threads
        for g in range(4 if c.quick else 40):
            cmds.append("PAR 6")
            for t in range(6):
                ci = r.choice(["toy16p2", "sm4", "aes128"])
                mine = [m for m in msgs if m["c"] == ci and not huge(m)]
                o = ["T %s.par%d.%d" % (k, g, t), "new a gcm d %s" % ci]
                for _ in range(40):
                    m = r.choice(mine)
                    if r.random() < 0.3:
                        m = dict(m, tag=flip(m["tag"], r.randrange(128)))
                    dec(r, "a", m, o)
                cmds += o
        brief = list(cmds)
        if k == cfgs[-1]:
            c.background(c.model, "GcmBigCheck", what="closed forms for long messages agree with the definitions")
            cmds += long_msgs(r, k, big, "ed")
            cmds += long_ivs(r, k, big, "ed")
        c.conform("ModesTrace", exe[k], cmds, "decryptions, " + k, defer=True)
        if k in ts:
            c.threads("ModesTrace", exe[k], ts[k], brief, "decryptions, " + k, 24 if c.quick else 200)


gm.main("C04", body)
