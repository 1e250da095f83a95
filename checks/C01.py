"""C01: streaming does not depend on how the data is split."""
from modes_common import *


def body(c):
    cfgs = gm.cpu_configs()
    exe = {k: build(c, k) for k in cfgs}
    ts = {k: build(c, k, extra=gm.TSAN, tag="tsan", opt="-O0") for k in cfgs if k == "base" or k == "simd" and not c.quick}
    # the machine is right: every history of calls, every mode, small blocks
    big = not c.quick
    c.background(c.model, "ModesModel", cfg(Ciphers=["toy2"], MaxCalls=6 if big else 5), what="one object, 2-byte blocks, every call history")
    c.background(c.model, "ModesModel", cfg(Ciphers=["toy16p2"], Modes=["gcm"], Sizes=[0, 1, 15, 16, 17, 33], FinSizes=[0, 1, 15, 16, 17],
                              MaxCalls=4 if big else 3), what="GCM, every call history")
    # behaviours of the machine replayed on the code
    for ciph, sizes in (("toy4p2", [0, 1, 3, 4, 5, 8, 9, 13]), ("toy4p3", [0, 3, 4, 7, 11, 12, 13, 25]),
                        ("toy8p1", [0, 1, 7, 8, 9, 17]), ("toy5p2", [0, 1, 4, 5, 6, 10, 11, 14])):
        b = c.behaviours("ModesModel", cfg(Ciphers=[ciph], Sizes=sizes if big else sizes[:8], FinSizes=[0, 1, 4, 5] if ciph != "toy8p1" else [0, 3, 8],
                                           MaxCalls=4 if big or ciph == "toy4p2" else 3, Emit=True), what="streams over " + ciph)
        if c.quick and len(b) > 6000:
            b = [x for x in b if len(x["calls"]) <= 3] + c.rng.sample([x for x in b if len(x["calls"]) > 3], 4000)
        run(c, exe, ciph, b, ["simd"] if "simd" in cfgs and ciph == "toy4p2" else [])
    b = c.behaviours("ModesModel", cfg(Ciphers=["toy16p2"], Modes=["gcm"], Sizes=[0, 1, 15, 16, 17, 31, 32, 33, 50], FinSizes=[0, 1, 15, 16, 17, 33],
                                       MaxCalls=4 if big else 3, Emit=True), what="GCM streams")
    run(c, exe, "toy16p2", b, ["simd"] if "simd" in cfgs else [])
    # the ciphers of the library, around their parallel widths
    for k in cfgs:
        cmds = []
        for ciph in ("sm4", "aes128", "aes192", "aes256"):
            for mode in MODES + ["gcm"]:
                for d, _ in DIRS:
                    for rep in range(3 if c.quick else 30):
                        pool = [0, 1, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]
                        ch = [c.rng.choice(pool) for _ in range(c.rng.choice([1, 2, 3, 4]))]
                        fin = c.rng.choice([0, 1, 15, 16, 17, 63, 64, 65, 129])
                        if mode in ("ecb", "cbc") and rep % 2 == 0:
                            fin = (-sum(ch)) % 16 + 16 * c.rng.choice([0, 1, 8])
                        cmds += stream(c.rng, "%s.%s.%s.%s.%d" % (k, ciph, mode, d, rep), mode, d, ciph, ch, fin)
        # very many calls on one object
        for ciph in (["toy16p2", "aes128"] if c.quick else ["toy16p2", "toy5p2", "toy8p1", "sm4", "aes256"]):
            for mode in MODES + (["gcm"] if BS[ciph] == 16 else []):
                for d, _ in DIRS:
                    if ciph != "toy16p2" and c.quick and c.rng.random() < 0.7:
                        continue
                    ch = [c.rng.choice([0, 1, 1, 2, 3, 5, 7, 15, 16, 17, 33]) for _ in range(c.rng.choice([257, 290, 330]) if c.quick else c.rng.choice([300, 1100, 2100]))]
                    cmds += stream(c.rng, "%s.%s.%s.%s.many" % (k, ciph, mode, d), mode, d, ciph, ch, (-sum(ch)) % BS[ciph] if mode in ("ecb", "cbc") else 3)
        c.conform("ModesTrace", exe[k], cmds, "library ciphers, " + k, defer=True)
        if k in ts:
            c.threads("ModesTrace", exe[k], ts[k], cmds, "library ciphers, " + k, 16 if c.quick else 100, longest=100)
    # first bytes, more than 2^32 bytes at once, last bytes
    if "simd" in cfgs:
        c.conform("ModesTrace", exe["simd"], huge(c.rng, "simd", "aes128", HUGE, pre=lambda r: r.randrange(1, 40)), "a call of more than 2^32 bytes with bytes before it",
                  env={"GM_FULLJIT": "1"}, defer=True)


def run(c, exe, ciph, behs, more):
    for k in ["base"] + more:
        cmds = []
        for i, b in enumerate(behs):
            bs = BS[ciph]
            key = bytes((57 + 13 * j) % 256 for j in range(1, KL[ciph] + 1))
            if b["mode"] == "gcm":
                iv, aad = bytes((101 + j) % 256 for j in range(1, 13)), b"\x01\x02\x03"
            else:
                iv, aad = (b"" if b["mode"] == "ecb" else bytes((200 + j) % 256 for j in range(1, bs + 1))), b""
            cmds += beh_cmds("%s.%s.%d" % (k, ciph, i), b, ["a"], True, (hx(key), hx(iv), hx(aad)))
        c.conform("ModesTrace", exe[k], cmds, "streams over %s, %s" % (ciph, k), defer=True)


gm.main("C01", body)
