// Prime fields of a curve through the internal interface: GM_PRIME(sm2) gives
// the command "pf p|n f a b alias" on elements of 32 bytes.
#pragma once
#include "drv.h"

#define GM_PRIME_COMMON(S, X)                                                                                          \
    struct PF_##X                                                                                                      \
    {                                                                                                                  \
        using T = S##_##X##_t;                                                                                         \
        static void  in(T r, const drv::Bytes& a) { S##_##X##_from_bytes(r, a.data()); }                               \
        static drv::Bytes out(const T a)                                                                               \
        {                                                                                                              \
            drv::Bytes o(32);                                                                                          \
            S##_##X##_to_bytes(o.data(), a);                                                                           \
            return o;                                                                                                  \
        }                                                                                                              \
        template <class O>                                                                                             \
        static drv::Bytes bin(O op, const drv::Bytes& a, const drv::Bytes& b, int al)                                  \
        {                                                                                                              \
            T A, B, R;                                                                                                 \
            in(A, a), in(B, b);                                                                                        \
            if (al == 1) { op(A, A, B); return out(A); }                                                               \
            if (al == 2) { op(B, A, B); return out(B); }                                                               \
            if (al == 3) { op(R, A, A); return out(R); }                                                               \
            if (al == 4) { op(A, A, A); return out(A); }                                                               \
            op(R, A, B);                                                                                               \
            return out(R);                                                                                             \
        }                                                                                                              \
        template <class O>                                                                                             \
        static drv::Bytes un(O op, const drv::Bytes& a, int al)                                                        \
        {                                                                                                              \
            T A, R;                                                                                                    \
            in(A, a);                                                                                                  \
            if (al == 1) { op(A, A); return out(A); }                                                                  \
            op(R, A);                                                                                                  \
            return out(R);                                                                                             \
        }                                                                                                              \
        static bool common(drv::Bytes& o, const std::string& f, const drv::Bytes& a, const drv::Bytes& b, int al)      \
        {                                                                                                              \
            T             A, B;                                                                                        \
            S##_bn_t      N;                                                                                           \
            if (f == "add") { o = bin([](T r, const T x, const T y) { S##_##X##_add(r, x, y); }, a, b, al); return true; } \
            if (f == "sub") { o = bin([](T r, const T x, const T y) { S##_##X##_sub(r, x, y); }, a, b, al); return true; } \
            if (f == "mul") { o = bin([](T r, const T x, const T y) { S##_##X##_mul(r, x, y); }, a, b, al); return true; } \
            if (f == "sqr") { o = un([](T r, const T x) { S##_##X##_sqr(r, x); }, a, al); return true; }               \
            if (f == "inv") { o = un([](T r, const T x) { S##_##X##_inv(r, x); }, a, al); return true; }               \
            if (f == "cpy") { o = un([](T r, const T x) { S##_##X##_cpy(r, x); }, a, al); return true; }               \
            in(A, a);                                                                                                  \
            if (f == "set0") { S##_##X##_set_zero(A); o = out(A); return true; }                                       \
            if (f == "set1") { S##_##X##_set_one(A); o = out(A); return true; }                                        \
            if (f == "is0") { o = drv::Bytes(1, S##_##X##_equal_zero(A)); return true; }                               \
            if (f == "is1") { o = drv::Bytes(1, S##_##X##_equal_one(A)); return true; }                                \
            if (f == "eq") { in(B, b); o = drv::Bytes(1, S##_##X##_equal(A, B)); return true; }                        \
            if (f == "tobn") { o.resize(32); S##_##X##_to_bn(N, A); S##_bn_to_bytes(o.data(), N); return true; }       \
            if (f == "frombn") { S##_bn_from_bytes(N, a.data()); S##_##X##_from_bn(A, N); o = out(A); return true; }   \
            return false;                                                                                              \
        }                                                                                                              \
    };

#define GM_PRIME(S)                                                                                                    \
    GM_PRIME_COMMON(S, fp)                                                                                             \
    GM_PRIME_COMMON(S, fn)                                                                                             \
    drv::Bytes prime(const std::string& w, const std::string& f, const drv::Bytes& a, const drv::Bytes& b, int al)     \
    {                                                                                                                  \
        drv::Bytes o;                                                                                                  \
        S##_fp_t   P;                                                                                                  \
        S##_fn_t   N;                                                                                                  \
        S##_bn_t   A, B;                                                                                               \
        if (w == "p")                                                                                                  \
        {                                                                                                              \
            if (PF_fp::common(o, f, a, b, al)) return o;                                                               \
            if (f == "dbl") return PF_fp::un([](PF_fp::T r, const PF_fp::T x) { S##_fp_dbl(r, x); }, a, al);           \
            if (f == "tpl") return PF_fp::un([](PF_fp::T r, const PF_fp::T x) { S##_fp_tpl(r, x); }, a, al);           \
            if (f == "neg") return PF_fp::un([](PF_fp::T r, const PF_fp::T x) { S##_fp_neg(r, x); }, a, al);           \
            if (f == "sqrt")                                                                                           \
            {                                                                                                          \
                S##_fp_t R;                                                                                            \
                PF_fp::in(P, a);                                                                                       \
                int x = al == 1 ? S##_fp_sqrt(P, P) : S##_fp_sqrt(R, P);                                               \
                return x ? drv::Bytes() : PF_fp::out(al == 1 ? P : R);                                                 \
            }                                                                                                          \
            if (f == "check") return drv::Bytes(1, S##_fp_bytes_check(a.data()));                                      \
            if (f == "conv")                                                                                           \
            {                                                                                                          \
                PF_fp::in(P, a);                                                                                       \
                S##_fn_from_fp(N, P);                                                                                  \
                return PF_fn::out(N);                                                                                  \
            }                                                                                                          \
        }                                                                                                              \
        else if (w == "n")                                                                                             \
        {                                                                                                              \
            if (f == "fromex")                                                                                         \
            {                                                                                                          \
                S##_fn_from_bytes_ex(N, a.data(), a.size());                                                           \
                return PF_fn::out(N);                                                                                  \
            }                                                                                                          \
            if (PF_fn::common(o, f, a, b, al)) return o;                                                               \
            if (f == "conv")                                                                                           \
            {                                                                                                          \
                PF_fn::in(N, a);                                                                                       \
                S##_fn_to_fp(P, N);                                                                                    \
                return PF_fp::out(P);                                                                                  \
            }                                                                                                          \
        }                                                                                                              \
        /* plain numbers */                                                                                            \
        S##_bn_from_bytes(A, a.data());                                                                                \
        if (f == "cmp")                                                                                                \
        {                                                                                                              \
            S##_bn_from_bytes(B, b.data());                                                                            \
            int x = S##_bn_cmp(A, B);                                                                                  \
            return drv::Bytes(1, x < 0 ? 255 : x > 0 ? 1 : 0);                                                         \
        }                                                                                                              \
        if (f == "is0") return drv::Bytes(1, S##_bn_equal_zero(A));                                                    \
        S##_bn_from_bytes(B, a.data());                                                                                \
        if (f == "cpy") S##_bn_cpy(B, A);                                                                              \
        else if (f == "msub1") S##_bn_mod_n_sub1(B);                                                                   \
        else if (f == "msub2") S##_bn_mod_n_sub2(B);                                                                   \
        else if (!prime_more(B, f, a)) throw std::out_of_range(f);                                                     \
        o.resize(32);                                                                                                  \
        S##_bn_to_bytes(o.data(), B);                                                                                  \
        return o;                                                                                                      \
    }                                                                                                                  \
    drv::Reg r_prime("pf", [](drv::Session& s, const drv::Args& a) {                                                   \
        drv::Bytes x = a.b(3), y = a.b(4);                                                                             \
        drv::Bytes o = prime(a[1], a[2], x, y, (int)a.n(5));                                                           \
        s.emit(drv::Ev("pf").s("w", a[1]).s("f", a[2]).b("a", x).b("b", y).b("out", o));                               \
    });
