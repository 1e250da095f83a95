// Register machine over the integer and Montgomery functions: registers hold
// limb arrays that end at a guard page, every call names its registers (so any
// aliasing can be exercised), and every event carries the limbs written.
#include <gmlib/number/mont256.h>
#include <gmlib/number/mpz.h>
#include <gmlib/number/uint256.h>

#include "drv.h"
using namespace drv;
using namespace number;

namespace {
#if defined(CPU_FLAG_MOVBE) && defined(CPU_FLAG_BMI2)
using W = std::uint64_t;
#else
using W = std::uint32_t;
#endif
constexpr std::size_t WB = sizeof(W);
constexpr std::size_t L  = 32 / WB;

// limbs <-> big-endian bytes, without the code under test
Bytes out_be(const W* p, std::size_t limbs)
{
    Bytes r(limbs * WB);
    for (std::size_t i = 0; i < limbs; i++)
        for (std::size_t k = 0; k < WB; k++)
            r[(limbs - 1 - i) * WB + (WB - 1 - k)] = (std::uint8_t)(p[i] >> (8 * k));
    return r;
}
void in_be(W* p, const Bytes& v, std::size_t limbs)
{
    for (std::size_t i = 0; i < limbs; i++)
    {
        p[i] = 0;
        for (std::size_t k = 0; k < WB; k++)
            p[i] |= (W)v.at((limbs - 1 - i) * WB + (WB - 1 - k)) << (8 * k);
    }
}
std::uint64_t word(const Bytes& v)
{
    std::uint64_t r = 0;
    for (auto x : v) r = r << 8 | x;
    return r;
}

struct Machine
{
    std::size_t                                n = L; // limbs of a register
    std::vector<std::unique_ptr<Arena>>        ar;
    std::vector<std::unique_ptr<Buf>>          reg;
    W                                          P[L], P2[L], R[L], RR[L];
    Mont256CTX                                 ctx{};
    Machine(std::size_t limbs, int regs, int wide) : n(limbs)
    {
        for (int i = 0; i < regs + wide; i++)
        {
            ar.emplace_back(new Arena());
            reg.emplace_back(new Buf(*ar.back(), (i < regs ? n : 2 * n) * WB, 0));
        }
    }
    W*   r(long long i) { return (W*)reg.at((std::size_t)i)->p(); }
    bool ok() const
    {
        for (auto& b : reg)
            if (!b->ok()) return false;
        return true;
    }
    Bytes val(long long i) { return out_be(r(i), reg[(std::size_t)i]->size() / WB); }
};
Machine& M(Session& s) { return s.get<Machine>("m"); }

// one call: op name, registers, what it returned, the register written
struct Call
{
    Session& s;
    Machine& m;
    Ev       e;
    Call(Session& s_, const Args& a) : s(s_), m(M(s_)), e(a[0]) {}
    Call& n(const char* k, long long x) { e.n(k, x); return *this; }
    Call& f(const char* k, bool x) { e.f(k, x); return *this; }
    Call& b(const char* k, const Bytes& v) { e.b(k, v); return *this; }
    void  put(long long d) { e.n("d", d).b("out", m.val(d)).f("guard", m.ok()); s.emit(e); }
    void  done() { e.f("guard", m.ok()); s.emit(e); }
};
#define OP(name) Reg r_##name(#name, [](Session& s, const Args& a)
#define D m.r(a.n(1))
#define A m.r(a.n(2))
#define B m.r(a.n(3))
#define C m.r(a.n(4))

Reg r_mach("mach", [](Session& s, const Args& a) {
    // mach <limbs-in-bytes/8 of 64 bits> : registers 0..5, wide registers 6, 7
    std::size_t bits = (std::size_t)a.n(1);
    s.objs["m"]      = std::make_shared<Machine>(bits / (8 * WB), 6, 2);
    s.emit(Ev("mach").n("bytes", (long long)bits / 8));
});
Reg r_dump("dump", [](Session& s, const Args&) {
    auto&       m = M(s);
    std::string j = "[";
    for (std::size_t i = 0; i < m.reg.size(); i++)
    {
        Ev e("x");
        e.b("v", m.val((long long)i));
        std::string t = e.str();
        j += (i ? "," : "") + t.substr(t.find("\"v\":") + 4);
    }
    s.emit(Ev("dump").raw("regs", j + "]").f("guard", m.ok()));
});
// put limbs directly
OP(raw) { auto& m = M(s); Bytes v = a.b(2); in_be(D, v, m.n); Call(s, a).b("in", v).put(a.n(1)); });

// ---- 256-bit integers ----
OP(set) {
    auto& m = M(s);
    Bytes v = a.b(2);
    Buf   in(s.a_in, v);
    uint256_from_bytes(D, in.p());
    Call(s, a).b("in", v).f("inok", in.same(v)).put(a.n(1));
});
OP(get) {
    auto& m = M(s);
    Buf   o(s.a_out, 32);
    uint256_to_bytes(o.p(), D);
    Call(s, a).n("a", a.n(1)).b("out", o.take(32)).f("ok", o.ok()).done();
});
#define BIN(nm, fn) OP(nm) { auto& m = M(s); int r = fn(D, A, B); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).n("ret", r).put(a.n(1)); });
BIN(add, uint256_add_carry)
BIN(sub, uint256_sub_borrow)
#define UN(nm, fn) OP(nm) { auto& m = M(s); int r = fn(D, A); Call(s, a).n("a", a.n(2)).n("ret", r).put(a.n(1)); });
UN(dbl, uint256_dbl_carry)
UN(tpl, uint256_tpl_carry)
OP(mul) { auto& m = M(s); uint256_mul(D, A, B); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).put(a.n(1)); });
OP(sqr) { auto& m = M(s); uint256_sqr(D, A); Call(s, a).n("a", a.n(2)).put(a.n(1)); });
Bytes wordb(std::uint64_t x, std::size_t n)
{
    Bytes r(n);
    for (std::size_t i = 0; i < n; i++) r[n - 1 - i] = (std::uint8_t)(x >> (8 * i));
    return r;
}
// word operations take the word as bytes: 4 or 8 of them choose the width
#if defined(CPU_FLAG_MOVBE) && defined(CPU_FLAG_BMI2)
#define WSEL(f, ...) (w.size() == 8 ? (std::uint64_t)f##_uint64(__VA_ARGS__ word(w)) : (std::uint64_t)f##_uint32(__VA_ARGS__ (std::uint32_t)word(w)))
#define WDIV(q, n, w) uint256_div_uint64(q, n, word(w))
#define WSETM(c, d, w) (w.size() == 8 ? mont256_set_uint64(c, d, word(w)) : mont256_set_uint32(c, d, (std::uint32_t)word(w)))
#define WSET(d, w) (w.size() == 8 ? uint256_set_uint64(d, word(w)) : uint256_set_uint32(d, (std::uint32_t)word(w)))
#else
#define WSEL(f, ...) ((std::uint64_t)f##_uint32(__VA_ARGS__ (std::uint32_t)word(w)))
#define WDIV(q, n, w) uint256_div_uint32(q, n, (std::uint32_t)word(w))
#define WSETM(c, d, w) mont256_set_uint32(c, d, (std::uint32_t)word(w))
#define WSET(d, w) uint256_set_uint32(d, (std::uint32_t)word(w))
#endif
#define COMMA ,
OP(addw) { auto& m = M(s); Bytes w = a.b(3); int r = (int)WSEL(uint256_add_carry, D, A,); Call(s, a).n("a", a.n(2)).b("w", w).n("ret", r).put(a.n(1)); });
OP(subw) { auto& m = M(s); Bytes w = a.b(3); int r = (int)WSEL(uint256_sub_borrow, D, A,); Call(s, a).n("a", a.n(2)).b("w", w).n("ret", r).put(a.n(1)); });
OP(mulw) { auto& m = M(s); Bytes w = a.b(3); std::uint64_t r = WSEL(uint256_mul_carry, D, A,); Call(s, a).n("a", a.n(2)).b("w", w).b("ret", wordb(r, 8)).put(a.n(1)); });
OP(divw) { auto& m = M(s); Bytes w = a.b(3); std::uint64_t r = WDIV(D, A, w); Call(s, a).n("a", a.n(2)).b("w", w).b("ret", wordb(r, 8)).put(a.n(1)); });
OP(cmpw) { auto& m = M(s); Bytes w = a.b(2); int r = (int)WSEL(uint256_cmp, D,); Call(s, a).n("a", a.n(1)).b("w", w).n("ret", r).done(); });
OP(setw) { auto& m = M(s); Bytes w = a.b(2); WSET(D, w); Call(s, a).b("w", w).put(a.n(1)); });
OP(madd) { auto& m = M(s); uint256_mod_add(D, A, B, C); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).n("m", a.n(4)).put(a.n(1)); });
OP(msub) { auto& m = M(s); uint256_mod_sub(D, A, B, C); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).n("m", a.n(4)).put(a.n(1)); });
OP(mod) {
    auto& m = M(s);
    Bytes v = a.b(3);
    Buf   in(s.a_in, v);
    uint256_mod(D, in.p(), v.size(), A);
    Call(s, a).n("m", a.n(2)).b("in", v).f("inok", in.same(v)).put(a.n(1));
});
OP(cmp) { auto& m = M(s); int r = uint256_cmp(D, A); Call(s, a).n("a", a.n(1)).n("b", a.n(2)).n("ret", r).done(); });
OP(eq) { auto& m = M(s); bool r = uint256_equal(D, A); Call(s, a).n("a", a.n(1)).n("b", a.n(2)).f("ret", r).done(); });
OP(eqz) { auto& m = M(s); bool r = uint256_equal_zero(D); Call(s, a).n("a", a.n(1)).f("ret", r).done(); });
OP(eq1) { auto& m = M(s); bool r = uint256_equal_one(D); Call(s, a).n("a", a.n(1)).f("ret", r).done(); });
OP(cpy) { auto& m = M(s); uint256_cpy(D, A); Call(s, a).n("a", a.n(2)).put(a.n(1)); });
OP(zero) { auto& m = M(s); uint256_set_zero(D); Call(s, a).put(a.n(1)); });
OP(one) { auto& m = M(s); uint256_set_one(D); Call(s, a).put(a.n(1)); });
// all 256 bits, low bit first
OP(bits) {
    auto& m = M(s);
    Bytes r(256);
    for (int i = 0; i < 256; i++) r[(std::size_t)i] = uint256_bittest(D, i);
    Call(s, a).n("a", a.n(1)).b("ret", r).done();
});

// ---- Montgomery: ctx p p-2 R R^2 ----
OP(ctx) {
    auto& m = M(s);
    in_be(m.P, a.b(1), L);
    in_be(m.P2, a.b(2), L);
    in_be(m.R, a.b(3), L);
    in_be(m.RR, a.b(4), L);
    m.ctx.P      = m.P;
    m.ctx.P_SUB2 = m.P2;
    m.ctx.R      = m.R;
    m.ctx.R_POW2 = m.RR;
    m.ctx.N_     = mont_compute_N_(m.P[0]);
    s.emit(Ev("ctx").b("p", out_be(m.P, L)).b("nn", wordb(m.ctx.N_, WB)));
});
#define X &m.ctx
#define MBIN(nm, fn) OP(nm) { auto& m = M(s); fn(X, D, A, B); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).put(a.n(1)); });
MBIN(Madd, mont256_add)
MBIN(Msub, mont256_sub)
MBIN(Mmul, mont256_mul)
#define MUN(nm, fn) OP(nm) { auto& m = M(s); fn(X, D, A); Call(s, a).n("a", a.n(2)).put(a.n(1)); });
MUN(Mdbl, mont256_dbl)
MUN(Mtpl, mont256_tpl)
MUN(Mneg, mont256_neg)
MUN(Msqr, mont256_sqr)
MUN(Mdiv2, mont256_div2)
MUN(Minv, mont256_inv)
MUN(Mcpy, mont256_cpy)
OP(Mpow) { auto& m = M(s); mont256_pow(X, D, A, B); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).put(a.n(1)); });
OP(Mset) {
    auto& m = M(s);
    Bytes v = a.b(2);
    Buf   in(s.a_in, v);
    mont256_from_bytes(X, D, in.p());
    Call(s, a).b("in", v).f("inok", in.same(v)).put(a.n(1));
});
OP(Mex) {
    auto& m = M(s);
    Bytes v = a.b(2);
    Buf   in(s.a_in, v);
    mont256_from_bytes_ex(X, D, in.p(), v.size());
    Call(s, a).b("in", v).f("inok", in.same(v)).put(a.n(1));
});
OP(Mget) {
    auto& m = M(s);
    Buf   o(s.a_out, 32);
    mont256_to_bytes(X, o.p(), D);
    Call(s, a).n("a", a.n(1)).b("out", o.take(32)).f("ok", o.ok()).done();
});
OP(Meq) { auto& m = M(s); bool r = mont256_equal(X, D, A); Call(s, a).n("a", a.n(1)).n("b", a.n(2)).f("ret", r).done(); });
OP(Meqz) { auto& m = M(s); bool r = mont256_equal_zero(X, D); Call(s, a).n("a", a.n(1)).f("ret", r).done(); });
OP(Meq1) { auto& m = M(s); bool r = mont256_equal_one(X, D); Call(s, a).n("a", a.n(1)).f("ret", r).done(); });
OP(Mzero) { auto& m = M(s); mont256_set_zero(X, D); Call(s, a).put(a.n(1)); });
OP(Mone) { auto& m = M(s); mont256_set_one(X, D); Call(s, a).put(a.n(1)); });
OP(Msetw) { auto& m = M(s); Bytes w = a.b(2); WSETM(X, D, w); Call(s, a).b("w", w).put(a.n(1)); });

// ---- integers of any number of limbs ----
OP(Zset) {
    auto& m = M(s);
    Bytes v = a.b(2);
    Buf   in(s.a_in, v);
    mpz_from_bytes(D, in.p(), m.n);
    Call(s, a).b("in", v).f("inok", in.same(v)).put(a.n(1));
});
OP(Zget) {
    auto& m = M(s);
    Buf   o(s.a_out, m.n * WB);
    mpz_to_bytes(o.p(), D, m.n);
    Call(s, a).n("a", a.n(1)).b("out", o.take(m.n * WB)).f("ok", o.ok()).done();
});
OP(Zadd) { auto& m = M(s); int r = mpz_add_carry(D, A, B, (int)a.n(4), m.n); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).n("c", a.n(4)).n("ret", r).put(a.n(1)); });
OP(Zsub) { auto& m = M(s); int r = mpz_sub_borrow(D, A, B, (int)a.n(4), m.n); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).n("c", a.n(4)).n("ret", r).put(a.n(1)); });
OP(Zmul) { auto& m = M(s); mpz_mul(D, A, B, m.n); Call(s, a).n("a", a.n(2)).n("b", a.n(3)).put(a.n(1)); });
OP(Zcmp) { auto& m = M(s); int r = mpz_cmp(D, A, m.n); Call(s, a).n("a", a.n(1)).n("b", a.n(2)).n("ret", r).done(); });
OP(Zcpy) { auto& m = M(s); mpz_cpy(D, A, m.n); Call(s, a).n("a", a.n(2)).put(a.n(1)); });
// the compile-time constructor
OP(Zepi) {
    (void)a;
    static constexpr auto c1 = mpz_set_epi8(0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef);
    static constexpr auto c4 = mpz_set_epi8(0xf1, 2, 3, 4, 5, 6, 7, 0xf8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23,
                                            24, 25, 0, 0xff, 28, 29, 30, 31, 0xe0);
    s.emit(Ev("Zepi").b("one", out_be(c1.v, 8 / WB)).b("four", out_be(c4.v, 32 / WB)));
});
} // namespace

int main(int c, char** v) { return drv_main(c, v); }
