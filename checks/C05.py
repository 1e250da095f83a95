"""C05: objects are independent; re-initialising starts afresh."""
import modes_common as M
import hash_common as H
import gm
from gm import hx


def body(c):
    cfgs = gm.cpu_configs()
    me = {k: M.build(c, k) for k in cfgs}
    he = {k: H.build(c, k) for k in cfgs if k != "port"}
    ts = [k for k in cfgs if k != "port"]
    tm = {k: M.build(c, k, extra=["-fsanitize=thread", "-g"], tag="tsan") for k in ts}
    th = {k: H.build(c, k, extra=["-fsanitize=thread", "-g"], tag="tsan", opt="-O1") for k in ts}
    big = not c.quick
    r = c.rng
    # every history of two objects
    c.background(c.model, "ModesModel", M.cfg(Ciphers=["toy2"], Modes=["cbc", "cfb", "ctr"] if c.quick else M.MODES, Dirs=["TRUE"] if c.quick else ["TRUE", "FALSE"], Ids=["a", "b"], Multi=True,
                                              Sizes=[1, 2], FinSizes=[0, 1], MaxCalls=5 if big else 4), what="two mode objects, every interleaving of all calls")
    c.background(c.model, "HashModel", H.hcfg(Kinds=["th8", "hmac-th4", "ghash"], Ids=["a", "b"], Multi=True, Sizes=[1, 8], FinSizes=[0, 1],
                                              MaxCalls=5 if big else 4), what="two hash objects, every interleaving of all calls")
    sims = []
    for ciph, modes in (("toy4p2", M.MODES), ("toy16p2", ["gcm", "cbc", "ctr"]), ("sm4", ["ecb", "cbc", "cfb", "ofb", "ctr", "gcm"])):
        n = {"toy4p2": 1200, "toy16p2": 500, "sm4": 160}[ciph] * (1 if c.quick else 12)
        sizes = [0, 1, 3, 4, 5, 9] if ciph == "toy4p2" else [0, 1, 15, 16, 17, 40]
        b = c.behaviours("ModesModel", M.cfg(Ciphers=[ciph], Modes=modes, Ids=["a", "b", "c"], Multi=True, Emit=True, Sizes=sizes, FinSizes=sizes[:4], MaxCalls=16), workers=1,
                         extra=["-simulate", "num=%d" % (n // 8), "-depth", "40", "-seed", str(c.seed + 3)], what="random histories of three mode objects, " + ciph)
        sims.append((ciph, b if len(b) <= n else r.sample(b, n)))
    hs = H.simulate(c, ["sm3", "ghash", "th8", "hmac-sm3", "hmac-th8"], ["a", "b"], 16, 600 if c.quick else 6000, [0, 1, 8, 15, 16, 63, 64, 70], [0, 1, 16, 64])
    for k in cfgs:
        cmds = []
        for ciph, b in sims:
            if ciph.startswith("toy4") and k == "port":
                continue
            for i, x in enumerate(b):
                cmds += M.beh_cmds("%s.%s.%d" % (k, ciph, i), x, ["a", "b", "c"], False, None)
        # re-initialisation after an operation that ended in an error, was finished, or was abandoned
        for mode in M.MODES + ["gcm"]:
            for d in "ed":
                for ci in ["toy16p2", "sm4", "aes128", "aes192", "aes256"]:
                    o = ["T %s.re.%s.%s.%s" % (k, mode, d, ci), "new a %s %s %s" % (mode, d, ci)]
                    for _ in range(5):
                        iv = b"" if mode == "ecb" else M.msg(r, r.choice([12, 16, 5]) if mode == "gcm" else 16)
                        if mode != "gcm" and len(o) > 2 and r.random() < 0.4:
                            o.append("reset a " + hx(iv))
                        else:
                            o.append("init a %s %s %s" % (hx(M.msg(r, M.KL[ci])), hx(iv), hx(M.msg(r, r.choice([0, 5])) if mode == "gcm" else b"")))
                        if mode == "gcm" and d == "d":
                            o.append("settag a " + hx(bytes(16)))
                        for _ in range(r.randrange(0, 3)):
                            o.append("upd a %s 0" % hx(M.msg(r, r.choice([1, 7, 16, 17, 130]))))
                        if r.random() < 0.7:
                            o.append("fin a %s 0" % hx(M.msg(r, r.choice([0, 1, 15, 16]))))
                    cmds += o
        # re-initialisation with a key, IV or additional data that differ from the last in one byte only, or not at all
        for mode in M.MODES + ["gcm"]:
            for d in "ed":
                for ci in ["toy16p2", "sm4", "aes128", "aes192", "aes256"]:
                    o = ["T %s.near.%s.%s.%s" % (k, mode, d, ci)] + ["new %s %s %s %s" % (x, mode, d, ci) for x in "ab"]
                    key, iv, aad = M.msg(r, M.KL[ci]), b"" if mode == "ecb" else M.msg(r, r.choice([12, 16, 40]) if mode == "gcm" else 16), M.msg(r, 20) if mode == "gcm" else b""
                    m = M.msg(r, 32)
                    for i in range(12 if c.quick else 60):
                        z = r.choice([0, 1, 1, 2, 3, 4])
                        last = lambda b: None if r.random() < 0.6 or not b else r.choice([0, len(b) - 1])
                        key, iv, aad, m = (gm.tweak(r, y, last(y)) if z == zi else y for zi, y in ((1, key), (2, iv), (3, aad), (4, m)))
                        x = r.choice("aab")
                        o.append("reset %s %s" % (x, hx(iv)) if mode != "gcm" and z == 2 and i > 3 and ("init " + x) in " ".join(o) else "init %s %s %s %s" % (x, hx(key), hx(iv), hx(aad)))
                        if mode == "gcm" and d == "d":
                            o.append("settag %s %s" % (x, hx(bytes(16))))
                        o += ["upd %s %s 0" % (x, hx(m[:16])), "fin %s %s 0" % (x, hx(m[16:]))]
                    cmds += o
        # threads
        par = []
        for g in range(4 if c.quick else 40):
            par.append("PAR 6")
            for t in range(6):
                ciph, b = sims[r.randrange(len(sims))]
                x = b[r.randrange(len(b))]
                y = M.beh_cmds("%s.par%d.%d" % (k, g, t), x, ["a", "b", "c"], False, None)
                par += y + y[4:] * 3  # several rounds
        # every mode, direction and cipher in threads, on messages longer than any batch
        sys_ = []
        for ci in ["toy4p2", "toy16p2", "sm4", "aes128", "aes192", "aes256"]:
            for mode in (["gcm"] if M.BS[ci] == 16 else []) + M.MODES:
                for d in "ed":
                    if k == "port" and not (ci == "sm4" or big):
                        continue
                    bs = M.BS[ci]
                    sys_.append("PAR 4")
                    for t in range(4):
                        o = ["T %s.thr.%s.%s.%s.%d" % (k, mode, d, ci, t), "new a %s %s %s" % (mode, d, ci), "new b %s %s %s" % (mode, d, ci)]
                        for _ in range(2):
                            for x in "ab":
                                iv = b"" if mode == "ecb" else M.msg(r, 12 + t if mode == "gcm" else bs)
                                o.append("init %s %s %s %s" % (x, hx(M.msg(r, M.KL[ci])), hx(iv), hx(M.msg(r, 5) if mode == "gcm" else b"")))
                                if mode == "gcm" and d == "d":
                                    o.append("settag %s %s" % (x, hx(bytes(16))))
                            for n in (9 * bs, 3, 6 * bs + 1):
                                for x in "ab":
                                    o.append("upd %s %s 0" % (x, hx(M.msg(r, n))))
                            for x in "ab":
                                o.append("fin %s %s 0" % (x, hx(M.msg(r, (-4) % bs))))
                                if mode == "gcm" and d == "e":
                                    o.append("gettag " + x)
                        sys_ += o
        par += sys_
        # copies of one object, in the middle of a message, made and used by several threads
        groups = []
        for ci in ["toy16p2", "sm4", "aes128"]:
            for mode in M.MODES + ["gcm"]:
                for d in "ed":
                    if (k == "port" or ci == "aes128") and not (big or mode == "gcm"):
                        continue
                    pre = ["new a %s %s %s" % (mode, d, ci),
                           "init a %s %s %s" % (hx(M.msg(r, M.KL[ci])), hx(b"" if mode == "ecb" else M.msg(r, 12 if mode == "gcm" else 16)), hx(M.msg(r, 5) if mode == "gcm" else b""))]
                    if mode == "gcm" and d == "d":
                        pre.append("settag a " + hx(bytes(16)))
                    pre.append("upd a %s 0" % hx(M.msg(r, r.choice([5, 16, 39]))))
                    bodies = []
                    for t in range(4):
                        o = []
                        for _ in range(3):
                            n = r.randrange(1, 150)
                            o += ["copy b a", "upd b %s 0" % hx(M.msg(r, n)), "fin b %s 0" % hx(M.msg(r, r.randrange(0, 17)))]
                            if mode == "gcm" and d == "e":
                                o.append("gettag b")
                        bodies.append(o)
                    groups.append((pre, bodies))
        c.shared("ModesTrace", me[k], tm.get(k), groups, "mode objects, " + k)
        c.conform("ModesTrace", me[k], cmds + par, "mode objects, " + k, defer=True)
        if k in ts:
            tp = ["T tsan." + z[2:] if z.startswith("T ") else z for z in par]
            c.conform("ModesTrace", tm[k], tp, "mode objects in threads, race detector, " + k, defer=True)
        if k in he:
            cmds = []
            for i, x in enumerate(hs):
                cmds += H.beh_cmds("%s.h%d" % (k, i), x, ["a", "b"], False)
            for kind, klen in (("ghash", 16), ("ghash.common", 16), ("ghash.lut256", 16), ("hmac-sm3", 64), ("hmac-sm3", 33), ("hmac-sm3", 65), ("hmac-sm3", 100), ("hmac-th8", 7)):
                o = ["T %s.hnear.%s.%d" % (k, kind, klen), "new a " + kind, "new b " + kind]
                key = r.randbytes(klen)
                for i in range(2 * klen if klen < 40 or not c.quick else 60):
                    x = "aab"[i % 3]
                    key = gm.tweak(r, key, (klen - 1 - i // 2) % klen)
                    o += ["key %s %s" % (x, hx(key))] + (["upd %s %s" % (x, hx(r.randbytes(16)))] if i % 3 else []) + ["fin %s %s 0" % (x, hx(r.randbytes(16)))]
                cmds += o
            par = []
            for g in range(4 if c.quick else 40):
                par.append("PAR 6")
                for t in range(6):
                    y = H.beh_cmds("%s.hpar%d.%d" % (k, g, t), hs[r.randrange(len(hs))], ["a", "b"], False)
                    par += y + y[1:] * 3
            for kind, klen, bs in (("sm3", None, 64), ("sm3.common", None, 64), ("ghash", 16, 16), ("ghash.common", 16, 16), ("ghash.lut256", 16, 16),
                                   ("th8", None, 8), ("hmac-sm3", 70, 64), ("hmac-th8", 5, 8)):
                par.append("PAR 4")
                for t in range(4):
                    o = ["T %s.hthr.%s.%d" % (k, kind, t), "new a " + kind, "new b " + kind]
                    for _ in range(2):
                        for x in "ab":
                            o.append("reset " + x if klen is None else "key %s %s" % (x, hx(r.randbytes(klen))))
                        for n in (5 * bs, 1, 3 * bs + 2):
                            for x in "ab":
                                o.append("upd %s %s" % (x, hx(r.randbytes(n))))
                        for x in "ab":
                            o.append("fin %s %s 0" % (x, hx(r.randbytes((-3) % bs))))
                    par += o
            c.shared("HashTrace", he[k], th.get(k) if k in ts else None,
                     [(["new a " + kind, "key a " + hx(r.randbytes(klen)) if klen else "reset a", "upd a " + hx(r.randbytes(n * bs + (0 if kind.startswith("ghash") and not n else 3)))],
                       [[x for _ in range(3) for x in ("copy b a", "upd b " + hx(r.randbytes(r.randrange(1, 4 * bs))), "fin b %s 0" % hx(r.randbytes(r.randrange(0, bs))))] for _ in range(4)])
                      for kind, klen, bs in (("sm3", None, 64), ("sm3.common", None, 64), ("ghash", 16, 16), ("ghash.common", 16, 16), ("ghash.lut256", 16, 16), ("hmac-sm3", 70, 64), ("hmac-th8", 5, 8)) for n in (0, 2)],
                     "hash objects, " + k)
            c.conform("HashTrace", he[k], cmds + par, "hash objects, " + k, defer=True)
            if k in ts:
                tp = ["T tsan." + z[2:] if z.startswith("T ") else z for z in par]
                c.conform("HashTrace", th[k], tp, "hash objects in threads, race detector, " + k, defer=True)


gm.main("C05", body)
