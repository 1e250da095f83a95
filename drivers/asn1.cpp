// ASN.1 encoders, decoders, dump, and the SM2 structures.
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
#include <algorithm>
#include <pthread.h>
#include <gmlib/sm2/internal/sm2_asn1.h>

#include "capture.h"
#include "drv.h"
using namespace drv;
using namespace asn1;
namespace s2 = sm2::internal;

namespace {
std::string arr(std::initializer_list<long long> v)
{
    std::string r = "[";
    for (auto x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "]";
}
struct Res
{
    const std::uint8_t* p = nullptr;
    std::size_t         n = 0, b = 0, sz = 0;
};
long long off(const std::uint8_t* p, const Buf& in, std::uint8_t* base)
{
    long long d = (long long)(std::intptr_t)p - (long long)(std::intptr_t)base;
    return d < -100000 || d > 100000000 ? -1 : d;
}
long long sz(std::size_t x) { return x > 2000000000u ? -7 : (long long)x; }

// dec data : every decoder on the same bytes, which end at a guard page
Reg r_dec("dec", [](Session& s, const Args& a) {
    Bytes         d = a.b(1);
    Buf           in(s.a_in, d);
    std::uint8_t* p = in.p();
    std::size_t   n = d.size();
    Ev            e("dec");
    e.b("in", d);
    Res r;
    {
        Asn1TLV t;
        std::memset((void*)&t, 0, sizeof t);
        int rc = asn1_decode_tlv(&t, &r.sz, p, n);
        e.raw("tlv", rc ? arr({rc}) : arr({rc, t.tag_class, t.tag_pc, t.tag_number, off(t.value, in, p), sz(t.length), sz(r.sz)}));
    }
    {
        bool b  = false;
        int  rc = asn1_decode_boolean_value(&b, &r.sz, p, n);
        e.raw("bool", rc ? arr({rc}) : arr({rc, b ? 1 : 0, sz(r.sz)}));
    }
    auto place = [&](int rc) { return rc ? arr({rc}) : arr({rc, off(r.p, in, p), sz(r.n), sz(r.sz)}); };
    r = Res();
    int rc = asn1_decode_integer_value(&r.p, &r.n, &r.sz, p, n);
    e.raw("int", place(rc));
    r  = Res();
    rc = asn1_decode_bit_string_value(&r.p, &r.n, &r.b, &r.sz, p, n);
    e.raw("bits", rc ? arr({rc}) : arr({rc, off(r.p, in, p), sz(r.n), sz(r.b), sz(r.sz)}));
    r  = Res();
    rc = asn1_decode_octet_string_value(&r.p, &r.n, &r.sz, p, n);
    e.raw("octets", place(rc));
    r  = Res();
    rc = asn1_decode_null_value(&r.sz, p, n);
    e.raw("null", rc ? arr({rc}) : arr({rc, sz(r.sz)}));
    r  = Res();
    rc = asn1_decode_sequence_value(&r.p, &r.n, &r.sz, p, n);
    e.raw("seq", place(rc));
    r  = Res();
    rc = asn1_decode_set_value(&r.p, &r.n, &r.sz, p, n);
    e.raw("set", place(rc));
    s.emit(e.f("guard", in.ok() && in.same(d)));
});

// the encoders write into a buffer of exactly the announced size
void finish(Session& s, Ev& e, Buf& out, Buf& in, const Bytes& d, std::size_t said, std::size_t outl, std::size_t max, const Bytes& back)
{
    s.emit(e.b("out", out.take(outl)).n("outl", sz(outl)).n("said", sz(said)).n("max", sz(max)).b("back", back).f("guard", out.ok() && in.ok() && in.same(d)));
}
Reg r_ebool("ebool", [](Session& s, const Args& a) {
    bool        v    = a.n(1) != 0;
    std::size_t said = asn1_encode_boolean_outl(), outl = 0, rd = 0;
    Buf         out(s.a_out, said), in(s.a_in, 0);
    asn1_encode_boolean_tlv(out.p(), &outl, v);
    bool w  = !v;
    int  rc = asn1_decode_boolean_value(&w, &rd, out.p(), said);
    Ev   e("ebool");
    e.f("v", v);
    finish(s, e, out, in, Bytes(), said, outl, ASN1_ENCODE_BOOLEAN_MAX_OUTL(), rc ? Bytes{9, 9} : Bytes{(std::uint8_t)(w ? 1 : 0)});
});
template <class D>
Bytes back(D dec, Buf& out, std::size_t said)
{
    Res r;
    int rc = dec(&r, out.p(), said);
    if (rc || r.p < out.p() || r.p + r.n > out.p() + said) return Bytes{1, 2, 3, 4, 5};
    return Bytes(r.p, r.p + r.n);
}
Reg r_eint("eint", [](Session& s, const Args& a) {
    Bytes       d = a.b(1);
    Buf         in(s.a_in, d);
    std::size_t said = asn1_encode_integer_outl(in.p(), d.size()), outl = 0;
    Buf         out(s.a_out, said);
    asn1_encode_integer_tlv(out.p(), &outl, in.p(), d.size());
    Bytes bk = back([](Res* r, std::uint8_t* p, std::size_t n) { return asn1_decode_integer_value(&r->p, &r->n, &r->sz, p, n); }, out, said);
    Ev    e("eint");
    e.b("in", d);
    finish(s, e, out, in, d, said, outl, ASN1_ENCODE_INTEGER_MAX_OUTL(d.size()), bk);
});
Reg r_ebits("ebits", [](Session& s, const Args& a) {
    Bytes       d    = a.b(1);
    std::size_t bits = (std::size_t)a.n(2);
    Buf         in(s.a_in, d);
    std::size_t said = asn1_encode_bit_string_outl(bits), outl = 0;
    Buf         out(s.a_out, said);
    asn1_encode_bit_string_tlv(out.p(), &outl, in.p(), d.size(), bits);
    Bytes bk = back(
        [&](Res* r, std::uint8_t* p, std::size_t n) {
            int rc = asn1_decode_bit_string_value(&r->p, &r->n, &r->b, &r->sz, p, n);
            return rc ? rc : r->b == bits ? 0 : -9;
        },
        out, said);
    Ev e("ebits");
    e.b("in", d).n("bits", (long long)bits);
    finish(s, e, out, in, d, said, outl, ASN1_ENCODE_BIT_STRING_MAX_OUTL(bits), bk);
});
Reg r_eoct("eoct", [](Session& s, const Args& a) {
    Bytes       d = a.b(1);
    Buf         in(s.a_in, d);
    std::size_t said = asn1_encode_octet_string_outl(d.size()), outl = 0;
    Buf         out(s.a_out, said);
    asn1_encode_octet_string_tlv(out.p(), &outl, in.p(), d.size());
    Bytes bk = back([](Res* r, std::uint8_t* p, std::size_t n) { return asn1_decode_octet_string_value(&r->p, &r->n, &r->sz, p, n); }, out, said);
    Ev    e("eoct");
    e.b("in", d);
    finish(s, e, out, in, d, said, outl, ASN1_ENCODE_OCTET_STRING_MAX_OUTL(d.size()), bk);
});
std::uint64_t num(const Bytes& b)
{
    std::uint64_t v = 0;
    for (auto x : b) v = v << 8 | x;
    return v;
}
Bytes be8(std::uint64_t v)
{
    Bytes r;
    for (int i = 7; i >= 0; i--) r.push_back((std::uint8_t)(v >> (8 * i)));
    return r;
}
// tl kind n(8 bytes) size-of-the-header
Reg r_tl("tl", [](Session& s, const Args& a) {
    Bytes       n = a.b(2);
    std::size_t outl = 0, v = (std::size_t)num(n);
    Buf         out(s.a_out, (std::size_t)a.n(3));
    if (a[1] == "bits") asn1_encode_bit_string_tl(out.p(), &outl, v);
    if (a[1] == "octets") asn1_encode_octet_string_tl(out.p(), &outl, v);
    if (a[1] == "seq") asn1_encode_sequence_tl(out.p(), &outl, v);
    if (a[1] == "set") asn1_encode_set_tl(out.p(), &outl, v);
    s.emit(Ev("tl").s("kind", a[1]).b("n", n).b("out", out.take(outl)).n("outl", sz(outl)).f("guard", out.ok()));
});
// outl n(8 bytes): sizes for contents of n bytes; bit strings of n' <= n/8 bytes
Reg r_outl("outl", [](Session& s, const Args& a) {
    Bytes       n = a.b(1);
    std::size_t v = (std::size_t)num(n), nb = v >> 4;
    s.emit(Ev("outl").b("n", n).b("nb", be8(nb)).b("tlv", be8(asn1_encode_tlv_outl(v))).b("octets", be8(asn1_encode_octet_string_outl(v)))
               .b("seq", be8(asn1_encode_sequence_outl(v))).b("set", be8(asn1_encode_set_outl(v))).b("bits", be8(asn1_encode_bit_string_outl(8 * nb))));
});

// ---- more than 2^32 bytes: the area is Fold's, starting k bytes before its own end ----
struct Area
{
    Fold          f;
    std::uint8_t* p;
    std::size_t   n;
    Area(std::size_t n_, int b) : f(n_, true), n(n_)
    {
        // n bytes ending at the guard page
        p = f.p + (f.cap - n);
        std::memset(f.p, b, 3 * Fold::CH), std::memset(f.p + f.cap - Fold::CH, b, Fold::CH);
    }
};
std::string bign(std::uint64_t v)
{
    std::string t;
    for (int i = 7; i >= 0; i--) t += (t.empty() ? "" : ",") + std::to_string((v >> (8 * i)) & 255);
    return "[" + t + "]";
}
std::string big(const std::uint8_t* q, const Area& a) { return bign((std::uint64_t)(q - a.p)); }
std::string list(std::initializer_list<std::string> l)
{
    std::string t = "[";
    for (auto& x : l) t += (t.size() > 1 ? "," : "") + x;
    return t + "]";
}
// every decoder on an area
void dec_area(Ev& e, const Area& A)
{
    auto fin = [&](const char* k, int rc, const Res& r, std::size_t extra, bool with) {
        e.raw(k, rc ? "[]" : with ? list({big(r.p, A), bign(r.n), bign(extra), bign(r.sz)}) : list({big(r.p, A), bign(r.n), bign(r.sz)}));
    };
    Asn1TLV t;
    Res     r;
    std::memset((void*)&t, 0, sizeof t);
    int rc = asn1_decode_tlv(&t, &r.sz, A.p, A.n);
    r.p = t.value, r.n = t.length;
    fin("tlv", rc, r, 0, false);
    r  = Res();
    rc = asn1_decode_integer_value(&r.p, &r.n, &r.sz, A.p, A.n);
    fin("int", rc, r, 0, false);
    r  = Res();
    rc = asn1_decode_bit_string_value(&r.p, &r.n, &r.b, &r.sz, A.p, A.n);
    fin("bits", rc, r, r.b, true);
    r  = Res();
    rc = asn1_decode_octet_string_value(&r.p, &r.n, &r.sz, A.p, A.n);
    fin("octets", rc, r, 0, false);
    r  = Res();
    rc = asn1_decode_sequence_value(&r.p, &r.n, &r.sz, A.p, A.n);
    fin("seq", rc, r, 0, false);
    r  = Res();
    rc = asn1_decode_set_value(&r.p, &r.n, &r.sz, A.p, A.n);
    fin("set", rc, r, 0, false);
}
// dhuge head b n : n bytes, of which the first are head and all others b
Reg r_dhuge("dhuge", [](Session& s, const Args& a) {
    alarm(600);
    Bytes h = a.b(1), n = a.b(3);
    Area  A((std::size_t)num(n), (int)a.n(2));
    std::memcpy(A.p, h.data(), h.size());
    Ev e("dhuge");
    e.b("h", h).n("b", a.n(2)).b("n", n);
    dec_area(e, A);
    s.emit(e);
});
// ehuge kind b u n : the contents are n bytes of b, for bit strings without the last u bits
Reg r_ehuge("ehuge", [](Session& s, const Args& a) {
    alarm(600);
    std::string k  = a[1];
    Bytes       n8 = a.b(4);
    std::size_t n  = (std::size_t)num(n8), u = (std::size_t)a.n(3), said, max, outl = 0;
    int         b = (int)a.n(2);
    Area        in(n, b);
    if (k == "int") said = asn1_encode_integer_outl(in.p, n), max = ASN1_ENCODE_INTEGER_MAX_OUTL(n);
    else if (k == "bits") said = asn1_encode_bit_string_outl(8 * n - u), max = ASN1_ENCODE_BIT_STRING_MAX_OUTL(8 * n - u);
    else said = asn1_encode_octet_string_outl(n), max = ASN1_ENCODE_OCTET_STRING_MAX_OUTL(n);
    Ev e("ehuge");
    e.s("kind", k).n("b", b).n("u", (long long)u).b("n", n8).raw("said", bign(said)).raw("max", bign(max));
    Area out(said, b ^ 255);
    if (k == "int") asn1_encode_integer_tlv(out.p, &outl, in.p, n);
    else if (k == "bits") asn1_encode_bit_string_tlv(out.p, &outl, in.p, n, 8 * n - u);
    else asn1_encode_octet_string_tlv(out.p, &outl, in.p, n);
    e.b("head", Bytes(out.p, out.p + 40)).b("tail", Bytes(out.p + said - 64, out.p + said)).raw("outl", bign(outl)).f("guard", out.p == out.f.p || out.p[-1] == (b ^ 255));
    dec_area(e, out);
    s.emit(e);
});

// s2e kind fields...
Reg r_s2e("s2e", [](Session& s, const Args& a) {
    std::vector<Bytes> f;
    for (std::size_t i = 2; i < a.size(); i++) f.push_back(a.b(i));
    Buf         i0(s.a_x, f[0]), i1(s.a_y, f.size() > 1 ? f[1] : Bytes()), i2(s.a_z, f.size() > 2 ? f[2] : Bytes()), i3(s.a_w, f.size() > 3 ? f[3] : Bytes());
    std::size_t said = 0, outl = 0, max = 0;
    Arena&      A = s.a_out;
    Bytes       out;
    bool        g = true;
    auto        take = [&](Buf& o) { out = o.take(outl), g = o.ok(); };
    if (a[1] == "priv")
    {
        s2::ASN1_SM2PrivateKey k{i0.p()};
        said = s2::sm2_private_key_asn1_encode_outl(&k);
        max  = s2::SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL();
        Buf o(A, said);
        s2::sm2_private_key_asn1_encode_outl(o.p(), &outl, &k);
        take(o);
    }
    else if (a[1] == "pub")
    {
        s2::ASN1_SM2PublicKey k{i0.p()};
        said = s2::sm2_public_key_asn1_encode_outl(&k);
        max  = s2::SM2_PUBLIC_KEY_ASN1_ENCODE_MAX_OUTL();
        Buf o(A, said);
        s2::sm2_public_key_asn1_encode(o.p(), &outl, &k);
        take(o);
    }
    else if (a[1] == "sig")
    {
        s2::ASN1_SM2Signature k;
        k.R = i0.p(), k.S = i1.p();
        said = s2::sm2_signature_asn1_encode_outl(&k);
        max  = s2::SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL();
        Buf o(A, said);
        s2::sm2_signature_asn1_encode(o.p(), &outl, &k);
        take(o);
    }
    else
    {
        s2::ASN1_SM2Cipher k;
        k.XCoordinate = i0.p(), k.YCoordinate = i1.p();
        k.HASH.value = i2.p(), k.HASH.length = f[2].size();
        k.CipherText.value = i3.p(), k.CipherText.length = f[3].size();
        said = s2::sm2_cipher_asn1_encode_outl(&k);
        max  = s2::sm2_cipher_asn1_encode_max_outl(f[2].size(), f[3].size());
        Buf o(A, said);
        s2::sm2_cipher_asn1_encode(o.p(), &outl, &k);
        take(o);
    }
    std::string js = "[";
    for (auto& x : f)
    {
        Ev t("x");
        t.b("y", x);
        js += (js.size() > 1 ? "," : "") + t.str().substr(t.str().find('['));
    }
    s.emit(Ev("s2e").s("kind", a[1]).raw("f", js + "]").b("out", out).n("outl", sz(outl)).n("said", sz(said)).n("max", sz(max)).f("guard", g && i0.ok() && i1.ok() && i2.ok() && i3.ok()));
});
// s2d kind data
Reg r_s2d("s2d", [](Session& s, const Args& a) {
    Bytes       d = a.b(2);
    Buf         in(s.a_in, d);
    std::size_t rd = 0;
    int         rc;
    std::vector<Bytes> f;
    auto b32 = [](const std::uint8_t* p) { return Bytes(p, p + 32); };
    if (a[1] == "priv")
    {
        s2::ASN1_SM2PrivateKey k{};
        rc = s2::sm2_private_key_asn1_decode(&k, &rd, in.p(), d.size());
        if (!rc) f = {b32(k.value)};
    }
    else if (a[1] == "pub")
    {
        s2::ASN1_SM2PublicKey k{};
        rc = s2::sm2_public_key_asn1_decode(&k, &rd, in.p(), d.size());
        if (!rc) f = {Bytes(k.value, k.value + 65)};
    }
    else if (a[1] == "sig")
    {
        s2::ASN1_SM2Signature k{};
        rc = s2::sm2_signature_asn1_decode(&k, &rd, in.p(), d.size());
        if (!rc) f = {b32(k.R), b32(k.S)};
    }
    else
    {
        s2::ASN1_SM2Cipher k{};
        rc = s2::sm2_cipher_asn1_decode(&k, &rd, in.p(), d.size());
        if (!rc) f = {b32(k.XCoordinate), b32(k.YCoordinate), Bytes(k.HASH.value, k.HASH.value + k.HASH.length), Bytes(k.CipherText.value, k.CipherText.value + k.CipherText.length)};
    }
    std::string js = "[";
    for (auto& x : f)
    {
        Ev t("x");
        t.b("y", x);
        js += (js.size() > 1 ? "," : "") + t.str().substr(t.str().find('['));
    }
    s.emit(Ev("s2d").s("kind", a[1]).b("in", d).n("rc", rc).raw("f", js + "]").n("size", sz(rd)).f("guard", in.ok() && in.same(d)));
});
// adump data
Reg r_adump("adump", [](Session& s, const Args& a) {
    Bytes d = a.b(1);
    Buf   in(s.a_in, d);
    int   rc  = 0;
    Bytes out = captured([&] { rc = asn1_dump(in.p(), d.size()); });
    std::string js = "[\"";
    for (auto ch : out)
    {
        if (ch == '\n')
            js += "\",\"";
        else if (ch < 32 || ch > 126 || ch == '"' || ch == '\\')
            js += "?";
        else
            js += (char)ch;
    }
    s.emit(Ev("adump").b("in", d).n("rc", rc).raw("lines", js + "\"]").f("guard", in.ok() && in.same(d)));
});
// adeep n tag inner: n elements inside each other, dumped on a small call stack
Reg r_adeep("adeep", [](Session& s, const Args& a) {
    long long n = a.n(1);
    Bytes     x = a.b(3);
    std::reverse(x.begin(), x.end()); // built from its end
    for (long long i = 0; i < n; i++)
    {
        std::size_t l = x.size();
        if (l < 128)
            x.push_back((std::uint8_t)l);
        else
        {
            int k = 0;
            for (std::size_t y = l; y; y >>= 8, k++) x.push_back((std::uint8_t)y);
            x.push_back((std::uint8_t)(128 + k));
        }
        x.push_back((std::uint8_t)a.n(2));
    }
    std::reverse(x.begin(), x.end());
    Buf in(s.a_in, x);
    struct Job
    {
        const std::uint8_t* p;
        std::size_t         n;
        int                 rc;
    } job{in.p(), x.size(), 9};
    Bytes out = captured([&] {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 128 * 1024);
        pthread_t th;
        if (pthread_create(&th, &at, [](void* v) -> void* {
                static char st[32768];
                stack_t     ss = {};
                ss.ss_sp       = st;
                ss.ss_size     = sizeof st;
                sigaltstack(&ss, nullptr);
                Job* j = (Job*)v;
                j->rc  = asn1_dump(j->p, j->n);
                return nullptr;
            }, &job))
            _exit(9);
        pthread_join(th, nullptr);
    });
    // per line: three-blank steps of indentation, and the rest
    std::string ind = "[", rest = "[";
    std::size_t i = 0;
    while (i < out.size())
    {
        std::size_t j = i;
        while (j < out.size() && out[j] != '\n') j++;
        std::size_t b = i;
        while (b + 3 <= j && out[b] == ' ' && out[b + 1] == ' ' && out[b + 2] == ' ') b += 3;
        ind += (ind.size() > 1 ? "," : "") + std::to_string((b - i) / 3);
        rest += std::string(rest.size() > 1 ? "," : "") + "\"";
        for (; b < j; b++) rest += out[b] < 32 || out[b] > 126 || out[b] == '"' || out[b] == '\\' ? '?' : (char)out[b];
        rest += "\"";
        i = j + 1;
    }
    s.emit(Ev("adeep").b("in", x).n("depth", n).n("rc", job.rc).raw("ind", ind + "]").raw("rest", rest + "]").f("nl", !out.empty() && out.back() == '\n').f("guard", in.ok() && in.same(x)));
});
} // namespace

int main(int argc, char** argv) { return drv_main(argc, argv); }
