// Byte utilities: xor, endian access, memory dumps.
#include <gmlib/memory_utils/endian.h>
#include <gmlib/memory_utils/memdump.h>
#include <gmlib/memory_utils/memxor.h>

#include <utility>

#include "capture.h"
#include "drv.h"
using namespace drv;
namespace mu = memory_utils;

namespace {
using XorFn = void (*)(std::uint8_t*, const std::uint8_t*, const std::uint8_t*);
template <std::size_t N>
void xorN(std::uint8_t* o, const std::uint8_t* a, const std::uint8_t* b)
{
    mu::memxor<N>(o, a, b);
}
template <std::size_t... I>
void fill(std::map<std::size_t, XorFn>& m, std::index_sequence<I...>)
{
    ((m[I + 1] = xorN<I + 1>), ...);
}
std::map<std::size_t, XorFn>& fixed()
{
    static std::map<std::size_t, XorFn> m = [] {
        std::map<std::size_t, XorFn> r;
        fill(r, std::make_index_sequence<1042>());
        r[1279] = xorN<1279>, r[1536] = xorN<1536>, r[2047] = xorN<2047>, r[2048] = xorN<2048>;
        return r;
    }();
    return m;
}

// xor n|t alias tail in1 in2 : alias 0 none, 1 out=in1, 2 out=in2, 3 in1=in2, 4 all;
// each buffer is followed by 'tail' bytes that must not change
Reg r_xor("xor", [](Session& s, const Args& a) {
    int         al = (int)a.n(2);
    std::size_t tl = (std::size_t)a.n(3);
    Bytes       x = a.b(4), y = a.b(5);
    if (al >= 3) y = x;
    std::size_t n  = x.size();
    auto        ex = [&](Bytes v, std::uint8_t f) { v.resize(n + tl, f); return v; };
    Bytes       bx = ex(x, 0x31), by = ex(y, 0x42), bo = ex(Bytes(n, 0xC3), 0x53);
    Buf         X(s.a_x, bx), Y(s.a_y, by), O(s.a_out, bo);
    std::uint8_t* px = X.p();
    std::uint8_t* py = al >= 3 ? X.p() : Y.p();
    std::uint8_t* po = al == 1 || al == 4 ? px : al == 2 ? py : O.p();
    if (a[1] == "t")
        fixed().at(n)(po, px, py);
    else
        mu::memxor_n(po, px, py, n);
    Bytes out(po, po + n);
    bool  g = X.ok() && Y.ok() && O.ok();
    auto  same = [&](Buf& b, const Bytes& v, bool isout) {
        Bytes t = b.take(n + tl);
        for (std::size_t i = isout ? n : 0; i < n + tl; i++) g = g && t[i] == v[i];
    };
    same(X, bx, po == X.p());
    same(Y, by, po == Y.p());
    same(O, bo, po == O.p());
    s.emit(Ev("xor").b("a", x).b("b", y).b("out", out).f("guard", g));
});

// xorhuge block1 block2 n: n bytes of copies of 16-byte blocks (the memory is shared)
Reg r_xorhuge("xorhuge", [](Session& s, const Args& a) {
    alarm(600);
    Bytes       x = a.b(1), y = a.b(2);
    std::size_t n = (std::size_t)std::stoll(a[3]);
    Fold        X(n), Y(n), O(n);
    X.fill(x), Y.fill(y), O.clear(0xC3);
    mu::memxor_n(O.p, X.p, Y.p, n);
    std::string wins, at = O.json(O.spots(n / 16), wins);
    s.emit(Ev("xorhuge").b("a", x).b("b", y).n("nb", (long long)(n / 16)).n("r", (long long)(n % 16)).raw("at", at).raw("wins", wins).b("last", O.p + n / 16 * 16, n % 16).f("guard", O.clean(n, 0xC3)));
});

template <class T>
Bytes value(T v)
{
    Bytes r;
    for (int i = (int)sizeof(T) - 1; i >= 0; i--) r.push_back((std::uint8_t)((std::uint64_t)v >> (8 * i)));
    return r;
}
template <class T>
T number(const Bytes& b)
{
    std::uint64_t v = 0;
    for (auto x : b) v = v << 8 | x;
    return (T)v;
}
// ld le|be width offset bytes(width/8)
Reg r_ld("ld", [](Session& s, const Args& a) {
    Bytes       d = a.b(4), full(d);
    std::size_t off = (std::size_t)a.n(3);
    full.resize(d.size() + off, 0x99);
    Buf           in(s.a_in, full);
    std::uint8_t* p  = in.p();
    bool          le = a[1] == "le";
    Bytes         v;
    switch (a.n(2))
    {
        case 8: v = value(le ? mu::load8_le(p) : mu::load8_be(p)); break;
        case 16: v = value(le ? mu::load16_le(p) : mu::load16_be(p)); break;
        case 32: v = value(le ? mu::load32_le(p) : mu::load32_be(p)); break;
        default: v = value(le ? mu::load64_le(p) : mu::load64_be(p)); break;
    }
    s.emit(Ev("ld").s("end", a[1]).b("in", d).b("val", v).f("guard", in.ok() && in.same(full)));
});
// st le|be width offset value(width/8 bytes, most significant first)
Reg r_st("st", [](Session& s, const Args& a) {
    Bytes       v = a.b(4);
    std::size_t n = v.size(), off = (std::size_t)a.n(3);
    Buf           out(s.a_out, n + off, 0xC3);
    std::uint8_t* p  = out.p();
    bool          le = a[1] == "le";
    switch (a.n(2))
    {
        case 8: le ? mu::store8_le(p, number<std::uint8_t>(v)) : mu::store8_be(p, number<std::uint8_t>(v)); break;
        case 16: le ? mu::store16_le(p, number<std::uint16_t>(v)) : mu::store16_be(p, number<std::uint16_t>(v)); break;
        case 32: le ? mu::store32_le(p, number<std::uint32_t>(v)) : mu::store32_be(p, number<std::uint32_t>(v)); break;
        default: le ? mu::store64_le(p, number<std::uint64_t>(v)) : mu::store64_be(p, number<std::uint64_t>(v)); break;
    }
    Bytes full = out.take(n + off);
    bool  g    = out.ok();
    for (std::size_t i = n; i < n + off; i++) g = g && full[i] == 0xC3;
    s.emit(Ev("st").s("end", a[1]).b("val", v).b("out", out.take(n)).f("guard", g));
});

std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
// dump data maxline fmt ascii sep prefix end ; "def" for the defaults
Reg r_dump("dump", [](Session& s, const Args& a) {
    Bytes       d = a.b(1);
    std::size_t ml = (std::size_t)a.n(2);
    Buf         in(s.a_in, d);
    std::string fmt = str(a.b(3)), sep = str(a.b(5)), pre = str(a.b(6)), end = str(a.b(7));
    bool        asc = a.n(4) != 0;
    int         def = a.size() > 8 ? (int)a.n(8) : 0;
    Bytes       out = captured([&] {
        if (def == 1)
            mu::memdump(in.p(), d.size());
        else if (def == 2)
            mu::memdump(in.p(), d.size(), ml, nullptr, asc, nullptr, nullptr, nullptr);
        else
            mu::memdump(in.p(), d.size(), ml, fmt.c_str(), asc, sep.c_str(), pre.c_str(), end.c_str());
    });
    if (def == 1) ml = 16, asc = true, fmt = "%02x", sep = " ", pre = "", end = "\n";
    if (def == 2) fmt = "%02x", sep = " ", pre = "", end = "";
    auto B = [](const std::string& x) { return Bytes(x.begin(), x.end()); };
    s.emit(Ev("dump").b("in", d).n("w", (long long)ml).s("fmt", fmt).f("ascii", asc).b("sep", B(sep)).b("prefix", B(pre)).b("tail", B(end)).b("out", out)
               .f("guard", in.ok() && in.same(d)));
});
} // namespace

int main(int argc, char** argv) { return drv_main(argc, argv); }
