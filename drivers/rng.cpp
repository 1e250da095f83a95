// The library's random generators.  Without GM_REAL the devices behind them
// (rdrand/rdseed steps, std::random_device, std::rand) follow a script that
// may fail at any step; with it they are the real ones.
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#include <gmlib/rng/std_rng.h>

#include "drv.h"

#include <algorithm>
#include <set>
using namespace drv;

namespace {
std::unique_ptr<rng::Rng> make(const std::string& k, long long r)
{
    using namespace rng;
#define GM_HW(T)                                                          \
    do                                                                    \
    {                                                                     \
        if (r == 0) return std::unique_ptr<Rng>(new hardware_rng::T<0>);  \
        if (r == 1) return std::unique_ptr<Rng>(new hardware_rng::T<1>);  \
        if (r == 2) return std::unique_ptr<Rng>(new hardware_rng::T<2>);  \
        if (r == 3) return std::unique_ptr<Rng>(new hardware_rng::T<3>);  \
        return std::unique_ptr<Rng>(new hardware_rng::T<>);               \
    } while (0)
#if defined(CPU_FLAG_RDRAND)
    if (k == "rdrand32") GM_HW(RdrandRng_32);
    if (k == "rdrand64") GM_HW(RdrandRng_64);
#endif
#if defined(CPU_FLAG_RDSEED)
    if (k == "rdseed32") GM_HW(RdseedRng_32);
    if (k == "rdseed64") GM_HW(RdseedRng_64);
#endif
    if (k == "std") return std::unique_ptr<Rng>(new StdRng);
    if (k == "cstd") return std::unique_ptr<Rng>(new CstdRng);
    throw std::out_of_range(k);
}
} // namespace

#if !defined(GM_REAL)
// ---- the scripted device ----
static std::string  g_script; // 1 success, 0 failure; the last one repeats
static std::size_t  g_at;
static unsigned     g_next; // counts bytes given
static std::string  g_steps;
enum Mode { HW, THROWS, SURE };

static std::uint8_t fresh()
{
    // 241 values, none of them 0, 0xC3, 0x5A, 0xEE
    for (;;)
    {
        std::uint8_t v = (std::uint8_t)(1 + (g_next++ * 103u) % 241u);
        if (v != 0xC3 && v != 0x5A && v != 0xEE) return v;
    }
}
static bool               g_big; // genbig: not recorded
static unsigned long long g_mix, g_given;
static bool step(std::uint8_t* p, std::size_t n, Mode m)
{
    if (g_big)
    {
        unsigned long long z = g_mix += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        z ^= z >> 31;
        for (std::size_t i = 0; i < n; i++)
        {
            std::uint8_t v = (std::uint8_t)(z >> (8 * i));
            p[i]           = v == 0xC3 ? 0x3C : v;
        }
        if (m == SURE) p[3] &= 0x7f;
        g_given += n;
        return true;
    }
    bool ok = m == SURE || g_script[g_at < g_script.size() ? g_at : g_script.size() - 1] == '1';
    if (++g_at > 20000)
    {
        fault_line("endless");
        _exit(3);
    }
    char t[16];
    g_steps += g_steps.size() > 1 ? ",{\"ok\":" : "{\"ok\":";
    g_steps += ok ? "true,\"b\":[" : "false,\"b\":[";
    for (std::size_t i = 0; i < n; i++)
    {
        std::uint8_t v = ok ? fresh() : 0xEE;
        while (m == SURE && i == 3 && v > 0x7f) v = fresh(); // 31 bits
        if (ok || m == HW) p[i] = v;
        std::snprintf(t, sizeof t, i ? ",%u" : "%u", v);
        g_steps += t;
    }
    g_steps += "]}";
    return ok;
}
int gm_step16(unsigned short* p) { return step((std::uint8_t*)p, 2, HW); }
int gm_step32(unsigned int* p) { return step((std::uint8_t*)p, 4, HW); }
int gm_step64(unsigned long long* p) { return step((std::uint8_t*)p, 8, HW); }
unsigned int std::random_device::_M_getval()
{
    unsigned int v = 0;
    if (!step((std::uint8_t*)&v, 4, THROWS)) throw std::runtime_error("no entropy");
    return v;
}
extern "C" int rand() noexcept
{
    unsigned int v = 0;
    step((std::uint8_t*)&v, 4, SURE);
    return (int)v;
}
static void start(const std::string& s)
{
    g_script = s;
    g_at     = 0;
    g_steps  = "[";
}
// gen kind retries len tail script [same]: the tail bytes behind the request must stay
static std::unique_ptr<rng::Rng> g_rng;
static Reg r_gen("gen", [](Session& s, const Args& a) {
    std::size_t len = (std::size_t)a.n(3), tail = (std::size_t)a.n(4);
    Buf         out(s.a_out, len + tail);
    if (a.size() < 7 || !g_rng) g_rng = make(a[1], a.n(2));
    start(a[5]);
    std::string er = guarded([&] { g_rng->gen(out.p(), len); });
    Bytes       all = out.take(len + tail);
    s.emit(Ev("gen").s("k", a[1]).n("r", a.n(2)).n("len", (long long)len).b("out", all.data(), len).b("tail", all.data() + len, tail).s("err", er).f("guard", out.ok()).raw("steps", g_steps + "]"));
});
// genbig kind len(8 bytes): a long request; how many bytes kept their old value, how many words appear twice near its ends
static Reg r_genbig("genbig", [](Session& s, const Args& a) {
    alarm(300);
    std::size_t len = 0;
    for (auto x : a.b(2)) len = len << 8 | x;
    Fold out(len + 9);
    out.clear(0xC3);
    auto g = make(a[1], 10);
    g_big = true, g_given = 0, g_mix = len;
    std::string er = guarded([&] { g->gen(out.p, len); });
    g_big          = false;
    std::size_t kept = 0, twice = 0, from = out.cap - Fold::CH, a0 = len > 100000 ? len - 100000 : 0;
    std::set<std::uint64_t> seen;
    for (std::size_t i = 0; i < std::min(len, Fold::CH); i++) kept += out.p[i] == 0xC3;
    for (std::size_t i = from; i < len; i++) kept += out.p[i] == 0xC3;
    for (std::size_t i = a0; i + 8 <= len; i += 8)
    {
        std::uint64_t w;
        std::memcpy(&w, out.p + i, 8);
        twice += !seen.insert(w).second;
    }
    Bytes l;
    for (int i = 56; i >= 0; i -= 8) l.push_back((std::uint8_t)(g_given >> i));
    s.emit(Ev("genbig").s("k", a[1]).b("len", a.b(2)).b("given", l).n("kept", (long long)kept).n("twice", (long long)twice).s("err", er).f("guard", out.clean(len, 0xC3)));
});
template <std::size_t N>
struct Pod
{
    std::uint8_t v[N];
};
template <class T>
static std::string pod(rng::Rng& g, Bytes& o)
{
    return guarded([&] {
        T x = g.rand<T>();
        o.resize(sizeof x);
        std::memcpy(o.data(), &x, sizeof x);
    });
}
// rand kind retries type script
static Reg r_rand("rand", [](Session& s, const Args& a) {
    auto g = make(a[1], a.n(2));
    start(a[4]);
    Bytes       o;
    std::string er;
    const auto& t = a[3];
    if (t == "u8") er = pod<std::uint8_t>(*g, o);
    else if (t == "u16") er = pod<std::uint16_t>(*g, o);
    else if (t == "u32") er = pod<std::uint32_t>(*g, o);
    else if (t == "u64") er = pod<std::uint64_t>(*g, o);
    else if (t == "int") er = pod<int>(*g, o);
    else if (t == "p3") er = pod<Pod<3>>(*g, o);
    else if (t == "p13") er = pod<Pod<13>>(*g, o);
    else er = pod<Pod<32>>(*g, o);
    std::size_t want = t == "u8" ? 1 : t == "u16" ? 2 : t == "u32" || t == "int" ? 4 : t == "u64" ? 8 : t == "p3" ? 3 : t == "p13" ? 13 : 32;
    s.emit(Ev("gen").s("k", a[1]).n("r", a.n(2)).n("len", (long long)want).b("out", o).b("tail", Bytes()).s("err", er).f("guard", true).raw("steps", g_steps + "]"));
});
#else
// real kind len tail rounds
static Reg r_real("real", [](Session& s, const Args& a) {
    std::size_t len = (std::size_t)a.n(2), tail = (std::size_t)a.n(3);
    auto        g = make(a[1], 10);
    std::string outs = "[", errs;
    bool        ok = true;
    for (int k = 0; k < a.n(4); k++)
    {
        std::uint8_t fill = k % 2 ? 0xFF : 0x00;
        Buf          out(s.a_out, len + tail, fill);
        std::string  er = guarded([&] { g->gen(out.p(), len); });
        Bytes        all = out.take(len + tail);
        Ev           e("x");
        e.n("fill", fill).b("out", all.data(), len).b("tail", all.data() + len, tail).s("err", er);
        outs += (k ? ",{" : "{") + e.str() + "}";
        ok = ok && out.ok();
    }
    s.emit(Ev("real").s("k", a[1]).n("len", (long long)len).f("guard", ok).raw("rounds", outs + "]"));
});
#endif
int main(int c, char** v) { return drv_main(c, v); }
