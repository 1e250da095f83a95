"""Commands for drivers/num.cpp: programs with every aliasing, boundary operands."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx

SRC = ["src/number/%s_%s.cpp" % (a, b) for a in ("uint256", "mont256", "mpz") for b in ("common", "x64")]
SM2_P = 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF
SM2_N = 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123
SM9_P = 0xB640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D
SM9_N = 0xB640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25
PRIMES = {"sm2p": SM2_P, "sm2n": SM2_N, "sm9p": SM9_P, "sm9n": SM9_N}
R256 = 1 << 256
CFGS = [k for k in gm.cpu_configs() if k != "port"]


def h(x, n=32):
    return x.to_bytes(n, "big").hex()


def special(bits=256):
    """numbers at the edges of limbs of 32 and 64 bits"""
    m = (1 << bits) - 1
    s = [0, 1, 2, 3, m, m - 1, m - 2, 1 << (bits - 1), (1 << (bits - 1)) - 1, m // 3, 2 * (m // 3), m // 3 + 1]
    for k in range(32, bits, 32):
        s += [1 << k, (1 << k) - 1, m ^ ((1 << k) - 1), m ^ (1 << k), ((1 << k) + 1) & m]
    s += [sum(0xffffffff << k for k in range(0, bits, 64)), sum(0xffffffff << k for k in range(32, bits, 64)),
          sum(1 << k for k in range(0, bits, 64)), sum(1 << k for k in range(0, bits, 32)), sum(0x80000000 << k for k in range(0, bits, 32)),
          sum(0x8000000000000000 << k for k in range(0, bits, 64))]
    return sorted(set(x & m for x in s))


def runs(r, bits=256):
    """a number of random runs of ones and zeros, or of extreme words"""
    k = r.randrange(3)
    if k == 0:
        x, b, left = 0, r.randrange(2), bits
        while left:
            n = min(left, r.choice([1, 7, 31, 32, 33, 63, 64, 65]))
            x = x << n | ((1 << n) - 1) * b
            b, left = 1 - b, left - n
        return x
    if k == 1:
        x = 0
        for _ in range(bits // 32):
            x = x << 32 | r.choice([0, 0xffffffff, 0xffffffff, 0xfffffffe, 1, 0x80000000, 0x7fffffff, r.getrandbits(32)])
        return x
    return r.getrandbits(bits)


def operands(r, p=None):
    """special values; below p when p is given"""
    s = special()
    if p:
        s += [p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, p // 3, R256 % p, R256 * R256 % p, pow(R256, -1, p), (-R256) % p, R256 - p, p >> 32 << 32, p >> 64 << 64,
              p ^ 1, p - (1 << 32), p - (1 << 64), p - (1 << 128), p - (1 << 192), p - (1 << 224)]
        s += [(p - x) % p for x in special()]
        s = [x for x in s if 0 <= x < p]
    return sorted(set(s))


def lcfg(base, l, calls, maxcalls=1, emit=False):
    return "SPECIFICATION LMSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Base = %d\n  L = %d\n  MaxCalls = %d\n  Calls = {%s}\n  Emit = %s\n" % (
        base, l, maxcalls, ", ".join('"%s"' % x for x in calls), "TRUE" if emit else "FALSE")


def mcfg(base, l, pm):
    return "SPECIFICATION MMSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Base = %d\n  L = %d\n  PowModuli = {%s}\n" % (base, l, ", ".join(map(str, pm)))


CALLS = ["add", "dbl", "tpl", "sub", "mulw", "divw", "cpy", "madd", "msub"]
