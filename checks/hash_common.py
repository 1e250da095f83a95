"""Commands for drivers/hash.cpp."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx

SRC = ["src/sm3/sm3_common.cpp", "src/sm3/sm3_yang15.cpp", "src/ghash/ghash_common.cpp", "src/ghash/ghash_lut256.cpp",
       "src/memory_utils/memxor.cpp"]
SIMDSRC = ["src/ghash/ghash_pclmul.cpp"]
HBS = {"sm3": 64, "ghash": 16, "th8": 8, "th4": 4, "hmac-sm3": 64, "hmac-th8": 8, "hmac-th4": 4}


def build(c, cfg, extra=(), tag="", opt="-O2"):
    return c.build("hash", cfg, SRC + (SIMDSRC if cfg == "simd" else []), extra=extra, tag=tag, opt=opt)


def q(v):
    if isinstance(v, bool):
        return str(v).upper()
    if isinstance(v, list):
        return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + "}"
    return str(v)


def hcfg(**kw):
    d = dict(Kinds=["th8"], Sizes=[0, 1, 7, 8, 9, 17], FinSizes=[0, 1, 7, 8, 9], Ids=["a"], MaxCalls=4, Emit=False, Multi=False)
    d.update(kw)
    return ("" if d["Emit"] else "VIEW MView\n") + "SPECIFICATION MSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join("  %s = %s\n" % (k, q(v)) for k, v in d.items())


def msg(rng, n):
    return rng.randbytes(n)


def model_key(kind, k):
    """KeyOf of HashModel.tla"""
    n = 16 if kind == "ghash" else 3 if k == 1 else HBS[kind] + 3 if k == 2 else HBS[kind]
    return bytes((89 * (100 + k) + 31 * (k + i) + 7 * (k + i) ** 2) % 256 for i in range(1, n + 1))


def beh_cmds(name, beh, ids, single, impl=None):
    out = ["T " + name]
    kind = beh["kind"]
    for i in ids:
        out.append("new %s %s" % (i, impl or kind))
        if single and (kind == "ghash" or kind.startswith("hmac")):
            out.append("key %s %s" % (i, hx(model_key(kind, 1))))
    for e in beh["calls"]:
        if e["op"] == "upd":
            out.append("upd %s %s" % (e["id"], hx(e["in"])))
        elif e["op"] == "fin":
            out.append("fin %s %s %d" % (e["id"], hx(e["in"]), 0 if e["in"] else 2))
        elif e["op"] == "key":
            out.append("key %s %s" % (e["id"], hx(e["key"])))
        elif e["op"] == "reset":
            out.append("reset %s" % e["id"])
        else:
            out.append("%s %s %s" % (e["op"], e["id"], e["from"]))
    return out


def simulate(c, kinds, ids, calls, num, sizes, fins):
    b = c.behaviours("HashModel", hcfg(Kinds=kinds, Ids=ids, Multi=True, Emit=True, MaxCalls=calls, Sizes=sizes, FinSizes=fins), workers=1,
                        extra=["-simulate", "num=%d" % max(1, num // 8), "-depth", str(calls + 2), "-seed", str(c.seed)],
                        what="random histories of several objects, " + ",".join(kinds))
    return b if len(b) <= num else c.rng.sample(b, num)  # the last call varies over all its choices
