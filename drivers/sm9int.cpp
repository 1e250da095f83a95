// SM9 fields, groups and pairing through the internal interface.
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm9/internal/sm9_alg.h>

#include "drv.h"
#include "prime.h"
#include "testhash.h"
using namespace drv;
using namespace sm9::internal;

namespace {
using U8 = std::uint8_t;
// one operation on a field of degree D: R, A, B elements, al the aliasing
// (0 none, 1 result on the first operand, 2 on the second, 3 operands the same, 4 all the same)
#define GM_FIELD(D, X, N)                                                                                              \
    struct F##D                                                                                                        \
    {                                                                                                                  \
        using T = X##_t;                                                                                               \
        static constexpr std::size_t n = N;                                                                            \
        template <class O>                                                                                             \
        static Bytes bin(O op, const Bytes& a, const Bytes& b, int al)                                                 \
        {                                                                                                              \
            T A, B, R;                                                                                                 \
            X##_from_bytes(A, a.data());                                                                               \
            X##_from_bytes(B, b.data());                                                                               \
            Bytes o(N);                                                                                                \
            if (al == 1) { op(A, A, B); X##_to_bytes(o.data(), A); }                                                   \
            else if (al == 2) { op(B, A, B); X##_to_bytes(o.data(), B); }                                              \
            else if (al == 3) { op(R, A, A); X##_to_bytes(o.data(), R); }                                              \
            else if (al == 4) { op(A, A, A); X##_to_bytes(o.data(), A); }                                              \
            else { op(R, A, B); X##_to_bytes(o.data(), R); }                                                           \
            return o;                                                                                                  \
        }                                                                                                              \
        template <class O>                                                                                             \
        static Bytes un(O op, const Bytes& a, int al)                                                                  \
        {                                                                                                              \
            T A, R;                                                                                                    \
            X##_from_bytes(A, a.data());                                                                               \
            Bytes o(N);                                                                                                \
            if (al == 1) { op(A, A); X##_to_bytes(o.data(), A); }                                                      \
            else { op(R, A); X##_to_bytes(o.data(), R); }                                                              \
            return o;                                                                                                  \
        }                                                                                                              \
        static Bytes common(const std::string& f, const Bytes& a, const Bytes& b, int al)                              \
        {                                                                                                              \
            T A, B;                                                                                                    \
            Bytes o(N);                                                                                                \
            if (f == "add") return bin([](T r, const T x, const T y) { X##_add(r, x, y); }, a, b, al);                 \
            if (f == "sub") return bin([](T r, const T x, const T y) { X##_sub(r, x, y); }, a, b, al);                 \
            if (f == "mul" && b.size() == N) return bin([](T r, const T x, const T y) { X##_mul(r, x, y); }, a, b, al); \
            if (f == "neg") return un([](T r, const T x) { X##_neg(r, x); }, a, al);                                   \
            if (f == "sqr") return un([](T r, const T x) { X##_sqr(r, x); }, a, al);                                   \
            if (f == "inv") return un([](T r, const T x) { X##_inv(r, x); }, a, al);                                   \
            if (f == "cpy") return un([](T r, const T x) { X##_cpy(r, x); }, a, al);                                   \
            if (f == "set0") { X##_from_bytes(A, a.data()); X##_set_zero(A); X##_to_bytes(o.data(), A); return o; }    \
            if (f == "set1") { X##_from_bytes(A, a.data()); X##_set_one(A); X##_to_bytes(o.data(), A); return o; }     \
            X##_from_bytes(A, a.data());                                                                               \
            if (f == "is0") return Bytes(1, X##_equal_zero(A));                                                        \
            if (f == "is1") return Bytes(1, X##_equal_one(A));                                                         \
            if (f == "eq") { X##_from_bytes(B, b.data()); return Bytes(1, X##_equal(A, B)); }                          \
            throw std::out_of_range(f);                                                                                \
        }                                                                                                              \
    };
GM_FIELD(2, sm9_fp2, 64)
GM_FIELD(4, sm9_fp4, 128)
GM_FIELD(12, sm9_fp12, 384)

Bytes field(int deg, const std::string& f, const Bytes& a, const Bytes& b, int al)
{
    if (deg == 2)
    {
        if (f == "dbl") return F2::un([](sm9_fp2_t r, const sm9_fp2_t x) { sm9_fp2_dbl(r, x); }, a, al);
        if (f == "tpl") return F2::un([](sm9_fp2_t r, const sm9_fp2_t x) { sm9_fp2_tpl(r, x); }, a, al);
        if (f == "mulx") return F2::un([](sm9_fp2_t r, const sm9_fp2_t x) { sm9_fp2_mul_u(r, x); }, a, al);
        if (f == "mul" && b.size() == 32)
            return F2::un([&](sm9_fp2_t r, const sm9_fp2_t x) { sm9_fp_t c; sm9_fp_from_bytes(c, b.data()); sm9_fp2_mul_fp(r, x, c); }, a, al);
        return F2::common(f, a, b, al);
    }
    if (deg == 4)
    {
        if (f == "mulx") return F4::un([](sm9_fp4_t r, const sm9_fp4_t x) { sm9_fp4_mul_v(r, x); }, a, al);
        if (f == "mul" && b.size() == 32)
            return F4::un([&](sm9_fp4_t r, const sm9_fp4_t x) { sm9_fp_t c; sm9_fp_from_bytes(c, b.data()); sm9_fp4_mul_fp(r, x, c); }, a, al);
        if (f == "mul" && b.size() == 64)
            return F4::un([&](sm9_fp4_t r, const sm9_fp4_t x) { sm9_fp2_t c; sm9_fp2_from_bytes(c, b.data()); sm9_fp4_mul_fp2(r, x, c); }, a, al);
        return F4::common(f, a, b, al);
    }
    if (f == "mul" && b.size() == 128)
        return F12::un([&](sm9_fp12_t r, const sm9_fp12_t x) { sm9_fp4_t c; sm9_fp4_from_bytes(c, b.data()); sm9_fp12_mul_fp4(r, x, c); }, a, al);
    if (f == "pow") return F12::un([&](sm9_fp12_t r, const sm9_fp12_t x) { sm9_fp12_pow(r, x, b.data()); }, a, al);
    return F12::common(f, a, b, al);
}
// field deg f a b alias
Reg r_field("field", [](Session& s, const Args& a) {
    Bytes x = a.b(3), y = a.b(4);
    Bytes o = field((int)a.n(1), a[2], x, y, (int)a.n(5));
    s.emit(Ev("field").n("deg", a.n(1)).s("f", a[2]).b("a", x).b("b", y).b("out", o).f("guard", true));
});

// ---- groups ----
struct G1
{
    static constexpr std::size_t n = 32;
    using J = sm9_ec_j;
    using A = sm9_ec_a;
    using F = sm9_fp_t;
    static void from(A r, const Bytes& b) { sm9_ec_a_from_bytes04(r, b.data()); }
    static Bytes out(const A r) { Bytes b(64); sm9_ec_a_to_bytes04(b.data(), r); return b; }
    static void ja(J r, const A p) { sm9_ec_j_from_a(r, p); }
    static void aj(A r, const J p) { sm9_ec_j_to_a(r, p); }
    static void norm(J r, const J p) { sm9_ec_j_normal(r, p); }
    static bool inf(const J p) { return sm9_ec_j_is_inf(p); }
    static void setinf(J r) { sm9_ec_j_set_inf(r); }
    static void cpy(J r, const J p) { sm9_ec_j_cpy(r, p); }
    static void acpy(A r, const A p) { sm9_ec_a_cpy(r, p); }
    static void neg(J r, const J p) { sm9_ec_j_neg(r, p); }
    static void aneg(A r, const A p) { sm9_ec_a_neg(r, p); }
    static void add(J r, const J p, const J q) { sm9_ec_j_add(r, p, q); }
    static void adda(J r, const J p, const A q) { sm9_ec_j_add_a(r, p, q); }
    static void dbl(J r, const J p) { sm9_ec_j_dbl(r, p); }
    static void mul(J r, const U8* k, const A p) { sm9_ec_j_mul_a(r, k, p); }
    static void mulg(J r, const U8* k) { sm9_ec_j_mul_g(r, k); }
    static bool eq(const J p, const J q) { return sm9_ec_j_equal(p, q); }
    static bool on(const A p) { return sm9_ec_a_check(p); }
    static void scale(J P, const Bytes& z)
    {
        F Z, Z2, Z3;
        sm9_fp_from_bytes(Z, z.data());
        sm9_fp_sqr(Z2, Z);
        sm9_fp_mul(Z3, Z2, Z);
        sm9_fp_mul(P[0], P[0], Z2);
        sm9_fp_mul(P[1], P[1], Z3);
        sm9_fp_cpy(P[2], Z);
    }
    static void enc(U8* o, const A p, char f) { f == 'c' ? sm9_ec_a_to_bytes_compressed(o, p) : f == 'h' ? sm9_ec_a_to_bytes_mix(o, p) : sm9_ec_a_to_bytes_uncompressed(o, p); }
    static int dec(A r, std::size_t* k, const U8* in, std::size_t l) { return sm9_ec_a_from_bytes(r, k, in, l); }
};
struct G2
{
    static constexpr std::size_t n = 64;
    using J = sm9_ec2_j;
    using A = sm9_ec2_a;
    using F = sm9_fp2_t;
    static void from(A r, const Bytes& b) { sm9_ec2_a_from_bytes04(r, b.data()); }
    static Bytes out(const A r) { Bytes b(128); sm9_ec2_a_to_bytes04(b.data(), r); return b; }
    static void ja(J r, const A p) { sm9_ec2_j_from_a(r, p); }
    static void aj(A r, const J p) { sm9_ec2_j_to_a(r, p); }
    static void norm(J r, const J p) { sm9_ec2_j_normal(r, p); }
    static bool inf(const J p) { return sm9_ec2_j_is_inf(p); }
    static void setinf(J r) { sm9_ec2_j_set_inf(r); }
    static void cpy(J r, const J p) { sm9_ec2_j_cpy(r, p); }
    static void acpy(A r, const A p) { sm9_ec2_a_cpy(r, p); }
    static void neg(J r, const J p) { sm9_ec2_j_neg(r, p); }
    static void aneg(A r, const A p) { sm9_ec2_a_neg(r, p); }
    static void add(J r, const J p, const J q) { sm9_ec2_j_add(r, p, q); }
    static void adda(J r, const J p, const A q) { sm9_ec2_j_add_a(r, p, q); }
    static void dbl(J r, const J p) { sm9_ec2_j_dbl(r, p); }
    static void mul(J r, const U8* k, const A p) { sm9_ec2_j_mul_a(r, k, p); }
    static void mulg(J r, const U8* k) { sm9_ec2_j_mul_g(r, k); }
    static bool eq(const J p, const J q) { return sm9_ec2_j_equal(p, q); }
    static bool on(const A p) { return sm9_ec2_a_check(p); }
    static void scale(J P, const Bytes& z)
    {
        F Z, Z2, Z3;
        sm9_fp2_from_bytes(Z, z.data());
        sm9_fp2_sqr(Z2, Z);
        sm9_fp2_mul(Z3, Z2, Z);
        sm9_fp2_mul(P[0], P[0], Z2);
        sm9_fp2_mul(P[1], P[1], Z3);
        sm9_fp2_cpy(P[2], Z);
    }
    static void enc(U8* o, const A p, char f) { f == 'c' ? sm9_ec2_a_to_bytes_compressed(o, p) : f == 'h' ? sm9_ec2_a_to_bytes_mix(o, p) : sm9_ec2_a_to_bytes_uncompressed(o, p); }
    static int dec(A r, std::size_t* k, const U8* in, std::size_t l) { return sm9_ec2_a_from_bytes(r, k, in, l); }
};
// an affine point in Jacobian coordinates with a chosen Z ("-" for 1)
template <class G>
void inj(typename G::J P, const Bytes& xy, const Bytes& z)
{
    if (xy.empty())
    {
        G::setinf(P);
        return;
    }
    typename G::A A;
    G::from(A, xy);
    G::ja(P, A);
    if (!z.empty()) G::scale(P, z);
}
template <class G>
Bytes outj(const typename G::J P)
{
    if (G::inf(P)) return {};
    typename G::A A;
    G::aj(A, P);
    return G::out(A);
}
// add g kind p zp q zq alias: kind j (both Jacobian), a (second affine), d (doubling)
template <class G>
void add(Session& s, const Args& a)
{
    Bytes         p = a.b(3), q = a.b(5);
    typename G::J P, Q, R;
    inj<G>(P, p, a.b(4));
    int al = (int)a.n(7);
    if (a[2] == "d")
    {
        q = p;
        if (al == 1) { G::dbl(P, P); G::cpy(R, P); }
        else G::dbl(R, P);
    }
    else if (a[2] == "a")
    {
        typename G::A A;
        G::from(A, q);
        if (al == 1) { G::adda(P, P, A); G::cpy(R, P); }
        else G::adda(R, P, A);
    }
    else
    {
        inj<G>(Q, q, a.b(6));
        if (al == 1) { G::add(P, P, Q); G::cpy(R, P); }
        else if (al == 2) { G::add(Q, P, Q); G::cpy(R, Q); }
        else if (al == 3) { G::add(R, P, P); q = p; }
        else if (al == 4) { G::add(P, P, P); G::cpy(R, P); q = p; }
        else G::add(R, P, Q);
    }
    s.emit(Ev("add").n("g", G::n / 32).b("p", p).b("q", q).b("out", outj<G>(R)));
}
template <class G>
void neg(Session& s, const Args& a)
{
    Bytes p = a.b(3), o;
    int   al = (int)a.n(5);
    if (a[2] == "a")
    {
        typename G::A A, R;
        G::from(A, p);
        if (al) { G::aneg(A, A); G::acpy(R, A); }
        else G::aneg(R, A);
        o = G::out(R);
    }
    else
    {
        typename G::J P, R;
        inj<G>(P, p, a.b(4));
        if (al) { G::neg(P, P); G::cpy(R, P); }
        else G::neg(R, P);
        o = outj<G>(R);
    }
    s.emit(Ev("neg").n("g", G::n / 32).b("p", p).b("out", o));
}
// mul g k p ("g" for the generator)
template <class G>
void mul(Session& s, const Args& a)
{
    Bytes         k = a.b(2), xy;
    Buf           K(s.a_in, k);
    typename G::J R;
    if (a[3] == "g")
    {
        xy = hex(a[4]);
        G::mulg(R, K.p());
    }
    else
    {
        xy = a.b(3);
        typename G::A P;
        G::from(P, xy);
        G::mul(R, K.p(), P);
    }
    s.emit(Ev("mul").n("g", G::n / 32).b("k", k).b("p", xy).b("out", outj<G>(R)));
}
// eq g p zp q zq
template <class G>
void eqp(Session& s, const Args& a)
{
    Bytes         p = a.b(2), q = a.b(4);
    typename G::J P, Q, R;
    inj<G>(P, p, a.b(3));
    inj<G>(Q, q, a.b(5));
    if (!p.empty() && !q.empty()) s.emit(Ev("eq").n("g", G::n / 32).b("p", p).b("q", q).f("out", G::eq(P, Q)));
    // the normal form is the same point
    G::norm(R, P);
    s.emit(Ev("eq").n("g", G::n / 32).b("p", p).b("q", outj<G>(R)).f("out", true));
}
template <class G>
void on(Session& s, const Args& a)
{
    Bytes         p = a.b(2);
    typename G::A A;
    G::from(A, p);
    s.emit(Ev("on").n("g", G::n / 32).b("p", p).f("out", G::on(A)));
}
template <class G>
void enc(Session& s, const Args& a)
{
    Bytes         p = a.b(3);
    typename G::A A;
    G::from(A, p);
    std::size_t k = a[2] == "c" ? 1 + G::n : 1 + 2 * G::n;
    Buf         o(s.a_out, k);
    G::enc(o.p(), A, a[2][0]);
    s.emit(Ev("enc").n("g", G::n / 32).s("form", a[2]).b("p", p).b("out", o.take(k)).f("guard", o.ok()));
}
template <class G>
void dec(Session& s, const Args& a)
{
    Bytes         v = a.b(2);
    Buf           in(s.a_in, v);
    typename G::A A;
    std::size_t   n  = 0;
    bool          ok = G::dec(A, &n, in.p(), v.size()) == 0;
    s.emit(Ev("dec").n("g", G::n / 32).b("in", v).f("ok", ok).n("n", ok ? (long long)n : 0).b("p", ok ? G::out(A) : Bytes()));
}
#define GM_G(name, f)                                                                                                  \
    Reg name(#f, [](Session& s, const Args& a) {                                                                       \
        if (a[1] == "1") f<G1>(s, a);                                                                                  \
        else f<G2>(s, a);                                                                                              \
    })
GM_G(r_add, add);
GM_G(r_neg, neg);
GM_G(r_mul, mul);
GM_G(r_on, on);
GM_G(r_enc, enc);
GM_G(r_dec, dec);
Reg r_eq("eq", [](Session& s, const Args& a) {
    if (a[1] == "1") eqp<G1>(s, a);
    else eqp<G2>(s, a);
});
Bytes pair(const Bytes& p, const Bytes& q, const std::string& how)
{
    sm9_ec_a   P;
    sm9_ec2_a  Q;
    sm9_fp12_t r;
    sm9_ec_a_from_bytes04(P, p.data());
    sm9_ec2_a_from_bytes04(Q, q.data());
    if (how == "P1") sm9_pairing_P1_Q(r, Q);
    else if (how == "P2") sm9_pairing_P_P2(r, P);
    else sm9_pairing(r, P, Q);
    Bytes o(384);
    sm9_fp12_to_bytes(o.data(), r);
    return o;
}
// pair how p q
Reg r_pair("pair", [](Session& s, const Args& a) {
    Bytes p = a.b(2), q = a.b(3);
    s.emit(Ev("pair").b("p", p).b("q", q).b("out", pair(p, q, a[1])));
});
// bil a b p q: e([a]p, [b]q) and e(p, q), all by the code
Reg r_bil("bil", [](Session& s, const Args& a) {
    Bytes     ka = a.b(1), kb = a.b(2), p = a.b(3), q = a.b(4);
    sm9_ec_a  P;
    sm9_ec2_a Q;
    sm9_ec_j  JP;
    sm9_ec2_j JQ;
    sm9_ec_a_from_bytes04(P, p.data());
    sm9_ec2_a_from_bytes04(Q, q.data());
    sm9_ec_j_mul_a(JP, ka.data(), P);
    sm9_ec2_j_mul_a(JQ, kb.data(), Q);
    s.emit(Ev("bil").b("g", pair(p, q, "-")).b("a", ka).b("b", kb).b("out", pair(outj<G1>(JP), outj<G2>(JQ), "-")));
});
// hn hash tag z1 z2
Reg r_hn("hn", [](Session& s, const Args& a) {
    Bytes z1 = a.b(3), z2 = a.b(4);
    Buf   A(s.a_in, z1), B(s.a_x, z2);
    Buf   o(s.a_out, 32);
    U8    t = (U8)a.n(2);
    auto  go = [&](auto h) { sm9_Hn<decltype(h)>(o.p(), A.p(), z1.size(), B.p(), z2.size(), t); };
    if (a[1] == "sm3") go(sm3::SM3());
    else if (a[1] == "tail20") go(Tail20());
    else if (a[1] == "tail32") go(Tail32());
    else if (a[1] == "tail64") go(Tail64());
    else if (a[1] == "head20") go(Head20());
    else if (a[1] == "head32") go(Head32());
    else go(Head64());
    s.emit(Ev("hn").s("h", a[1]).n("tag", t).b("z1", z1).b("z2", z2).b("out", o.take(32)));
});
bool prime_more(sm9_bn_t r, const std::string& f, const Bytes& a)
{
    if (f == "msub3") sm9_bn_mod_n_sub3(r);
    else if (f == "msub1ex") sm9_bn_mod_n_sub1_ex(r, a.data(), a.size());
    else return false;
    return true;
}
GM_PRIME(sm9)
} // namespace
int main(int c, char** v) { return drv_main(c, v); }
