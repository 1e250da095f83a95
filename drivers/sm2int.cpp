// Points of the SM2 curve through the internal interface.
#include <gmlib/sm2/internal/sm2p256v1.h>

#include "drv.h"
#include "prime.h"
using namespace drv;
using namespace sm2::internal;

namespace {
std::string pj(const Bytes& v)
{
    Ev e("x");
    e.b("v", v);
    std::string t = e.str();
    return t.substr(t.find("\"v\":") + 4);
}
std::string pointj(const Bytes& xy)
{
    if (xy.empty()) return "[]";
    return "[" + pj(Bytes(xy.begin(), xy.begin() + 32)) + "," + pj(Bytes(xy.begin() + 32, xy.end())) + "]";
}
Bytes outj(const sm2_ec_j P)
{
    if (sm2_ec_j_is_inf(P)) return {};
    sm2_ec_a A;
    sm2_ec_j_to_a(A, P);
    Bytes r(64);
    sm2_ec_a_to_bytes04(r.data(), A);
    return r;
}
// a point with a chosen Z (32 bytes, or "-" for 1)
void inj(sm2_ec_j P, const Bytes& xy, const Bytes& z)
{
    if (xy.empty())
    {
        sm2_ec_j_set_inf(P);
        return;
    }
    sm2_ec_a A;
    sm2_ec_a_from_bytes04(A, xy.data());
    sm2_ec_j_from_a(P, A);
    if (z.empty()) return;
    sm2_fp_t Z, Z2, Z3;
    sm2_fp_from_bytes(Z, z.data());
    sm2_fp_sqr(Z2, Z);
    sm2_fp_mul(Z3, Z2, Z);
    sm2_fp_mul(P[0], P[0], Z2);
    sm2_fp_mul(P[1], P[1], Z3);
    sm2_fp_cpy(P[2], Z);
}
// mul g|xy k
Reg r_mul("mul", [](Session& s, const Args& a) {
    Bytes    k = a.b(2);
    Buf      KB(s.a_in, k);
    sm2_ec_j R;
    Bytes    xy(64);
    if (a[1] == "g")
    {
        std::memcpy(xy.data(), SM2_CURVE_GX, 32);
        std::memcpy(xy.data() + 32, SM2_CURVE_GY, 32);
        sm2_ec_j_mul_g(R, KB.p());
    }
    else
    {
        xy = a.b(1);
        sm2_ec_a P;
        sm2_ec_a_from_bytes04(P, xy.data());
        sm2_ec_j_mul_a(R, KB.p(), P);
    }
    s.emit(Ev("mul").b("k", k).raw("p", pointj(xy)).raw("out", pointj(outj(R))));
});
// add j|a|d p zp q zq alias
Reg r_add("add", [](Session& s, const Args& a) {
    Bytes    p = a.b(2), q = a.b(4);
    sm2_ec_j P, Q, R;
    inj(P, p, a.b(3));
    inj(Q, q, a.b(5));
    int al = (int)a.n(6);
    if (a[1] == "j")
    {
        if (al == 1) { sm2_ec_j_add(P, P, Q); sm2_ec_j_cpy(R, P); }
        else if (al == 2) { sm2_ec_j_add(Q, P, Q); sm2_ec_j_cpy(R, Q); }
        else sm2_ec_j_add(R, P, Q);
    }
    else if (a[1] == "a")
    {
        sm2_ec_a A;
        sm2_ec_a_from_bytes04(A, q.data());
        if (al == 1) { sm2_ec_j_add_a(P, P, A); sm2_ec_j_cpy(R, P); }
        else sm2_ec_j_add_a(R, P, A);
    }
    else
    {
        q = p;
        if (al == 1) { sm2_ec_j_dbl(P, P); sm2_ec_j_cpy(R, P); }
        else sm2_ec_j_dbl(R, P);
    }
    s.emit(Ev("add").raw("p", pointj(p)).raw("q", pointj(q)).raw("out", pointj(outj(R))));
});
Reg r_pdec("pdec", [](Session& s, const Args& a) {
    Bytes       v = a.b(1);
    Buf         in(s.a_in, v);
    sm2_ec_a    P;
    std::size_t n  = 0;
    bool        ok = sm2_ec_a_from_bytes(P, &n, in.p(), v.size()) == 0;
    Bytes       xy(64);
    if (ok) sm2_ec_a_to_bytes04(xy.data(), P);
    s.emit(Ev("pdec").b("in", v).f("ok", ok).n("n", ok ? (long long)n : 0).raw("p", ok ? pointj(xy) : "[]"));
});
Reg r_penc("penc", [](Session& s, const Args& a) {
    Bytes    xy = a.b(2);
    sm2_ec_a P;
    sm2_ec_a_from_bytes04(P, xy.data());
    std::size_t n = a[1] == "c" ? 33 : 65;
    Buf         o(s.a_out, n);
    if (a[1] == "c")
        sm2_ec_a_to_bytes_compressed(o.p(), P);
    else if (a[1] == "h")
        sm2_ec_a_to_bytes_mix(o.p(), P);
    else
        sm2_ec_a_to_bytes_uncompressed(o.p(), P);
    s.emit(Ev("penc").s("form", a[1]).raw("p", pointj(xy)).b("out", o.take(n)).f("guard", o.ok()));
});
// neg j|a p zp alias
Reg r_neg("neg", [](Session& s, const Args& a) {
    Bytes p = a.b(2), o;
    int   al = (int)a.n(4);
    if (a[1] == "a")
    {
        sm2_ec_a A, R;
        sm2_ec_a_from_bytes04(A, p.data());
        if (al) { sm2_ec_a_neg(A, A); sm2_ec_a_cpy(R, A); }
        else sm2_ec_a_neg(R, A);
        o.resize(64);
        sm2_ec_a_to_bytes04(o.data(), R);
    }
    else
    {
        sm2_ec_j P, R;
        inj(P, p, a.b(3));
        if (al) { sm2_ec_j_neg(P, P); sm2_ec_j_cpy(R, P); }
        else sm2_ec_j_neg(R, P);
        o = outj(R);
    }
    s.emit(Ev("neg").raw("p", pointj(p)).raw("out", pointj(o)));
});
// eq p zp q zq: equality, and the normal form of the first
Reg r_eq("eq", [](Session& s, const Args& a) {
    Bytes    p = a.b(1), q = a.b(3);
    sm2_ec_j P, Q, R;
    inj(P, p, a.b(2));
    inj(Q, q, a.b(4));
    if (!p.empty() && !q.empty()) s.emit(Ev("eq").raw("p", pointj(p)).raw("q", pointj(q)).f("out", sm2_ec_j_equal(P, Q)));
    sm2_ec_j_normal(R, P);
    s.emit(Ev("eq").raw("p", pointj(p)).raw("q", pointj(outj(R))).f("out", true));
    if (!p.empty())
    {
        // with Z = 1 the coordinates are the point's
        Bytes xy(64);
        sm2_fp_to_bytes(xy.data(), R[0]);
        sm2_fp_to_bytes(xy.data() + 32, R[1]);
        s.emit(Ev("eq").raw("p", pointj(p)).raw("q", pointj(xy)).f("out", true));
    }
});
// on xy
Reg r_on("on", [](Session& s, const Args& a) {
    Bytes    p = a.b(1);
    sm2_ec_a A;
    sm2_ec_a_from_bytes04(A, p.data());
    s.emit(Ev("on").raw("p", pointj(p)).f("out", sm2_ec_a_check(A)));
});
bool prime_more(sm2_bn_t, const std::string&, const Bytes&) { return false; }
GM_PRIME(sm2)
} // namespace
int main(int c, char** v) { return drv_main(c, v); }
