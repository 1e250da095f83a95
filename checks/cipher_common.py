"""C09 and C10: block ciphers."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx
from hash_common import q

KEYLEN = {"sm4": 16, "aes128": 16, "aes192": 24, "aes256": 32}
SRC = ["src/sm4/sm4_common.cpp", "src/sm4/sm4_lang18.cpp", "src/aes/aes_lut.cpp", "src/memory_utils/memxor.cpp"]


def mcfg(**kw):
    d = dict(Kind="toy2", Width=3, Counts=[0, 1, 2, 3, 4, 7], Ids=["a"], MaxCalls=3, Emit=False)
    d.update(kw)
    return ("" if d["Emit"] else "VIEW CMView\n") + "SPECIFICATION CMSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(
        "  %s = %s\n" % (k, '"%s"' % v if isinstance(v, str) else q(v)) for k, v in d.items())


def body_for(kinds, skip=()):
    def body(c):
        big = not c.quick
        r = c.rng
        cfgs = [k for k in gm.cpu_configs() if k not in skip]
        exe = {}
        for k in cfgs:
            src = SRC + (["src/aes/aes_aesni.cpp"] if k == "simd" else [])
            exe[k] = c.build("cipher", k, src, opt="-O2")
        tsan = {k: c.build("cipher", k, SRC + (["src/aes/aes_aesni.cpp"] if k == "simd" else []), extra=gm.TSAN, tag="tsan", opt="-O0") for k in cfgs}
        c.background(c.model, "CipherModel", mcfg(Ids=["a", "b"], MaxCalls=4 if big else 3), what="batched block processing over every history")
        c.background(c.model, "CipherModel", mcfg(Kind=kinds[-1], Width=4, Counts=[0, 1, 4, 5, 9], MaxCalls=2), what="inverse and batching, real cipher")
        c.background(c.overrides)
        beh = c.behaviours("CipherModel", mcfg(Ids=["a", "b"], Counts=[0, 1, 3, 4, 5, 17], MaxCalls=6, Emit=True), workers=1,
                           extra=["-simulate", "num=%d" % (400 if big else 30), "-depth", "60", "-seed", str(c.seed)], what="histories of two objects")
        if len(beh) > (4000 if big else 60):
            beh = r.sample(beh, 4000 if big else 60)
        runs = [(k, kd) for k in cfgs for kd in kinds]
        for k, kd in runs:
            e = exe[k]
            kl = KEYLEN[kd.split(".")[0]]
            p = "%s.%s" % (k, kd)
            cmds = []
            key = lambda: r.randbytes(kl)
            # histories
            ks = {1: key(), 2: key()}
            for i, b in enumerate(beh):
                cmds += ["T %s.h%d" % (p, i), "new a " + kd, "new b " + kd]
                for x in b["calls"]:
                    if x["op"] == "key":
                        cmds.append("key %s %s %s %d" % (x["id"], hx(ks[x["k"]]), x["dir"], r.choice([0, 1, 3, 8])))
                    elif x["op"] == "copy":
                        cmds.append("copy %s %s" % (x["id"], x["dir"]))
                    else:
                        cmds.append("blks %s %s %s %d %d %d" % (x["id"], x["dir"], hx(r.randbytes(16 * x["n"])), r.choice([0, 0, 1, 5]), r.choice([0, 0, 1, 7]), x["inp"]))
            # every block count around the vector widths
            for n in list(range(0, 41)) + [47, 48, 49, 63, 64, 65] + ([100, 127, 128, 129, 255, 256, 257] if big else []):
                for d in "ed":
                    cmds += ["T %s.n%d%s" % (p, n, d), "new a %s %s %s" % (kd, hx(key()), d)]
                    m = r.randbytes(16 * n)
                    cmds.append("blks a %s %s 0 0 %d" % (d, hx(m), 0))
                    cmds.append("blks a %s %s %d %d %d" % (d, hx(m), r.randrange(0, 16), r.randrange(0, 16), 1))
                    if n and n <= 20:
                        cmds.append("blks a %s %s %d %d 0" % (d, hx(m), n % 16, (3 * n) % 16))
            # every byte value in every position of block and key (S-boxes, tables)
            for v in range(256):
                d = "ed"[v % 2] if not big else "e"
                blk = bytes((v + 17 * j) % 256 for j in range(16))
                kk = bytes((v + 29 * j) % 256 for j in range(kl))
                cmds += ["T %s.v%d" % (p, v), "new a " + kd, "key a %s e 0" % hx(kk), "blk a e %s 0 0 0" % hx(blk),
                         "key a %s d 0" % hx(kk), "blk a d %s %d %d %d" % (hx(bytes([v]) * 16), v % 5, v % 3, v % 2),
                         "key a %s %s 0" % (hx(bytes([v]) * kl), d), "blks a %s %s 0 0 0" % (d, hx(bytes([v ^ 85]) * 16 + blk))]
            # single-bit keys and blocks
            for j in range(0, 8 * kl, 1 if big else 4):
                kk = bytearray(kl)
                kk[j // 8] = 128 >> (j % 8)
                m = bytearray(16)
                m[(j % 128) // 8] = 128 >> (j % 8)
                cmds += ["T %s.b%d" % (p, j), "new a %s %s e" % (kd, hx(kk)), "blk a e %s 0 0 0" % hx(m), "key a %s d 0" % hx(kk), "blk a d %s 0 0 1" % hx(m)]
            # keys that follow one another and agree in all bytes but one
            for j in range(kl):
                k1 = key()
                k2 = gm.tweak(r, k1, j)
                d1 = "ed"[j % 2]
                t = ["T %s.k%d" % (p, j), "new a %s %s %s" % (kd, hx(k1), d1)]
                for x, kk, d in (("a", k1, d1), ("a", k2, d1), ("a", k1, d1), ("b", k2, d1), ("a", k2, "de"[j % 2]), ("b", k1, "de"[j % 2]), ("b", k1, d1)):
                    t += [("new %s %s %s %s" % (x, kd, hx(kk), d)) if r.random() < 0.4 or (x == "b" and d == d1 and kk == k2) else "key %s %s %s %d" % (x, hx(kk), d, j % 4),
                          "blks %s %s %s 0 0 0" % (x, d, hx(r.randbytes(16 * r.choice([1, 2, 5]))))]
                cmds += t
            for i in range(2000 if big else 30):
                cmds += ["T %s.r%d" % (p, i), "new a %s %s e" % (kd, hx(key())), "blks a e %s 0 0 %d" % (hx(r.randbytes(16 * r.randrange(1, 20))), i % 2),
                         "key a %s d 0" % hx(key()), "blks a d %s 0 0 %d" % (hx(r.randbytes(16 * r.randrange(1, 20))), i % 2)]
            c.conform("CipherTrace", e, cmds, "%s, %s" % (kd, k), defer=True)
            # more than 2^32 bytes in one call, where that is fast
            if k == "simd" and (kd.startswith("aes") or big):
                o = []
                for d in "ed":
                    o += ["T %s.%s.huge%s" % (k, kd, d), "new h %s %s %s" % (kd, hx(key()), d), "huge h %s %s %d" % (d, hx(r.randbytes(16)), (1 << 28) + 65536 + r.randrange(3, 40))]
                c.conform("CipherTrace", e, o, "%s, very many blocks, %s" % (kd, k), defer=True)
            c.threads("CipherTrace", e, tsan[k], cmds, "%s, %s" % (kd, k), 24, only=".r", rounds=3)
            c.threads("CipherTrace", e, tsan[k], cmds, "%s histories, %s" % (kd, k), 12)
            c.shared("CipherTrace", e, tsan[k], [(["new a %s %s %s" % (kd, hx(key()), d)],
                                                  [[x for _ in range(4) for x in ("blk a %s %s 0 0 0" % (d, hx(r.randbytes(16))), "blks a %s %s 0 0 %d" % (d, hx(r.randbytes(16 * r.randrange(1, 20))), j % 2))] for j in range(4)])
                                                 for d in "ed" for _ in range(20 if big else 2)], "%s, %s" % (kd, k))
    return body
