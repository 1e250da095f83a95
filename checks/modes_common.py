"""Commands for drivers/modes.cpp."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx

SRC = ["src/aes/aes_lut.cpp", "src/sm4/sm4_common.cpp", "src/sm4/sm4_lang18.cpp",
       "src/ghash/ghash_common.cpp", "src/ghash/ghash_lut256.cpp", "src/memory_utils/memxor.cpp"]
SIMDSRC = ["src/aes/aes_aesni.cpp", "src/ghash/ghash_pclmul.cpp"]
BS = {"toy1": 1, "toy2": 2, "toy4p2": 4, "toy4p3": 4, "toy8p1": 8, "toy5p2": 5, "toy16p2": 16, "toy12p2": 12, "toy24p3": 24,
      "sm4": 16, "aes128": 16, "aes192": 16, "aes256": 16}
KL = dict(BS, aes192=24, aes256=32)
MODES = ["ecb", "cbc", "cfb", "ofb", "ctr"]
DIRS = [("e", True), ("d", False)]


def build(c, cfg, extra=(), tag="", opt="-O1"):
    return c.build("modes", cfg, SRC + (SIMDSRC if cfg == "simd" else []), extra=extra, tag=tag, opt=opt)


def cfg(**kw):
    d = dict(Ciphers=["toy4p2"], Modes=MODES, Dirs=["TRUE", "FALSE"], Sizes=[0, 1, 2, 3, 5], FinSizes=[0, 1, 2, 3],
             Ids=["a"], MaxCalls=4, Emit=False, Multi=False)
    d.update(kw)

    def q(v):
        if isinstance(v, bool):
            return str(v).upper()
        if isinstance(v, list):
            return "{" + ", ".join(x if x in ("TRUE", "FALSE") else ('"%s"' % x if isinstance(x, str) else str(x)) for x in v) + "}"
        return str(v)
    return ("" if d["Emit"] else "VIEW MView\n") + "SPECIFICATION MSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + \
        "".join("  %s = %s\n" % (k, q(v)) for k, v in d.items())


def msg(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 4000 else rng.randbytes(n)


def dir_(enc):
    return "e" if enc else "d"


def beh_cmds(name, beh, ids, single, init):
    """commands replaying a behaviour of ModesModel; init = (key, iv, aad) for single-object ones"""
    out = ["T " + name]
    for i in ids:
        out.append("new %s %s %s %s" % (i, beh["mode"], dir_(beh["enc"]), beh["ciph"]))
        if single:
            out.append("init %s %s %s %s" % ((i,) + init))
    for e in beh["calls"]:
        if e["op"] == "upd":
            out.append("upd %s %s 0" % (e["id"], hx(e["in"])))
        elif e["op"] == "fin":
            out.append("fin %s %s %d" % (e["id"], hx(e["in"]), 0 if e["in"] else 2))
        elif e["op"] == "init":
            out.append("init %s %s %s %s" % (e["id"], hx(e["key"]), hx(e["iv"]), hx(e["aad"])))
        elif e["op"] == "reset":
            out.append("reset %s %s" % (e["id"], hx(e["iv"])))
        elif e["op"] == "settag":
            out.append("settag %s %s" % (e["id"], hx(e["tag"])))
        elif e["op"] == "gettag":
            out.append("gettag %s" % e["id"])
        else:
            out.append("%s %s %s" % (e["op"], e["id"], e["from"]))
    return out


def stream(rng, name, mode, d, ciph, chunks, fin, iv=None, key=None, aad=b"", inplace=False, tag=None, data=None):
    """one message in the given chunks; fin None = no final call"""
    bs = BS[ciph]
    key = msg(rng, KL[ciph]) if key is None else key
    if iv is None:
        iv = b"" if mode == "ecb" else msg(rng, 12 if mode == "gcm" else bs)
    pos = 0

    def take(n):
        nonlocal pos
        r = data[pos:pos + n] if data is not None else msg(rng, n)
        pos += n
        return r
    o = ["T " + name, "new a %s %s %s" % (mode, d, ciph), "init a %s %s %s" % (hx(key), hx(iv), hx(aad))]
    if tag is not None:
        o.append("settag a " + hx(tag))
    pend = 0
    for n in chunks:
        ip = inplace and pend == 0 and n % bs == 0
        o.append("upd a %s %d" % (hx(take(n)), 1 if ip else 0))
        pend = (pend + n) % bs
    if fin is not None:
        ip = inplace and pend == 0
        o.append("fin a %s %d" % (hx(take(fin)), 1 if ip else (2 if fin == 0 and rng.random() < 0.5 else 0)))
        if mode == "gcm" and d == "e":
            o.append("gettag a")
    return o


def gcm_wrap_ivs(c, ciphs, lows):
    """IVs whose counter starts at the given low 32 bits (computed by GcmGen.tla)"""
    import json
    p = os.path.join(c.dir, "gcmgen.ndjson")
    with open(p, "w") as f:
        for ci in ciphs:
            for lo in lows:
                f.write(json.dumps({"k": "iv", "c": ci, "key": list(msg(c.rng, KL[ci])), "j0": list(msg(c.rng, 12)) + list(lo.to_bytes(4, "big"))}) + "\n")
    return c.behaviours("GcmGen", env={"GM_IN": p}, workers=1, what="IVs for chosen initial counters")


ALL = ["sm4", "aes128", "aes192", "aes256"]


def gcm_msgs(c, specs):
    """messages with the ciphertext and tag the specification gives them; specs: (cipher, key, iv, aad, pt)"""
    import json
    p = os.path.join(c.dir, "gcmmsg.ndjson")
    with open(p, "w") as f:
        for ci, key, iv, aad, pt in specs:
            f.write(json.dumps({"k": "msg", "c": ci, "key": list(key), "iv": list(iv), "aad": list(aad), "pt": list(pt)}) + "\n")
    return [{k: (bytes(v) if k != "c" else v) for k, v in b.items()}
            for b in c.behaviours("GcmGen", env={"GM_IN": p}, workers=1, what="authentic messages")]


def long_msgs(r, k, big, dirs):
    """messages whose lengths in bits do not fit in 32 bits (in bytes, in the thorough tier)"""
    o = []
    sizes = [((1 << 25), 5, 3, 2), (1, 1, (1 << 25) + 1, 7)]
    if big:
        sizes += [(1 << 28, 9, 2, 1), ((1 << 25) + 3, 0, (1 << 25) - 1, 15), (0, 0, (1 << 28) + 5, 3)]
    for i, (anb, ar, nb, rr) in enumerate(sizes):
        o += ["T %s.long%d" % (k, i), "new a gcm e toy16p2"]
        if "d" in dirs:
            o.append("new b gcm d toy16p2")
        ab = 0 if anb > 1 << 27 else r.randrange(256)
        bad = [[], ["gbigd b %d %d %d %s" % (ab, anb, (ar + 1) % 16, "@")]][i % 2]
        for extra in (["gbigd b %d %d %d @" % (ab, anb, ar)], bad) if "d" in dirs else ([],):
            if "d" in dirs and not extra:
                continue
            o += ["gbig a %s %s %d %d %d %d %d %d" % (hx(r.randbytes(16)), hx(r.randbytes(12)), ab, anb, ar, r.randrange(256), nb, rr)] + extra
    return o


def long_ivs(r, k, big, dirs, ciph="toy16p2"):
    """IVs whose length in bits does not fit in 32 bits (in bytes, in the thorough tier)"""
    o = []
    for i, (nb, rr) in enumerate([((1 << 25) + r.randrange(9), r.randrange(16))] + ([(1 << 28, 12), ((1 << 25) - 1, 15), (1 << 25, 0)] if big else [])):
        key, vb, aad, pt = msg(r, KL[ciph]), r.randrange(256), msg(r, 20), msg(r, 37)
        o += ["T %s.longiv%d" % (k, i), "new a gcm e " + ciph, "longiv a %s %d %d %d %s" % (hx(key), vb, nb, rr, hx(aad)), "fin a %s 0" % hx(pt), "gettag a"]
        if "d" in dirs:
            for j in (1, 0):
                o += ["new b gcm d " + ciph, "longiv b %s %d %d %d %s" % (hx(key), vb, nb - j * (1 << 24), rr, hx(aad)), "settag b @"] + ["fin b @ 0" if j == 0 else "fin b %s 0" % hx(msg(r, 37))]
    return o


HUGE = [("ctr", "e"), ("cbc", "d"), ("cfb", "d"), ("ctr", "d"), ("ecb", "e"), ("ecb", "d"), ("cbc", "e"), ("cfb", "e"), ("ofb", "e"), ("ofb", "d")]


def huge(r, k, ciph, combos, nb=(1 << 28) + 65536 + 100, pre=lambda r: 0):
    """one update call of more than 2^32 bytes (a repeated block; the memory is shared), after one with the first bytes"""
    o = []
    for mode, d in combos:
        f = 0 if mode in ("ecb", "cbc") else r.randrange(1, 16)
        o += ["T %s.huge.%s.%s" % (k, mode, d), "new a %s %s %s" % (mode, d, ciph),
              "huge a %s %s %s %d %d %d" % (hx(r.randbytes(KL[ciph])), hx(r.randbytes(16) if mode != "ecb" else b""), hx(r.randbytes(16)), nb + r.randrange(9), f, pre(r))]
    return o
