// Conformance driver for hash, GHASH and HMAC objects (HashObjs.tla).
#include "drv.h"
#include "toytab.h"

#include <gmlib/ghash/ghash.h>
#include <gmlib/hash_lib/hmac.h>
#ifndef NO_INTERNAL
#include <gmlib/sm3/internal/sm3_common.h>
#endif
#include <gmlib/sm3/sm3.h>

using namespace drv;

// toy hash with block size B (Toy4/ToyPad in HashObjs.tla)
template <std::size_t B>
class ToyHash : public hash_lib::Hash<B>
{
    std::uint8_t  s_[4];
    std::uint64_t n_ = 0;
    void          blk(const std::uint8_t* b)
    {
        std::uint8_t t[4];
        for (int i = 0; i < 4; i++) t[i] = TOY_S[s_[(i + 1) % 4] ^ b[i]];
        std::memcpy(s_, t, 4);
    }

public:
    static constexpr std::size_t BLOCK_SIZE = B, DIGEST_SIZE = 4;
    ToyHash() { reset(); }
    void reset() noexcept
    {
        hash_lib::Hash<B>::reset();
        n_ = 0;
        static const std::uint8_t iv[4] = {1, 35, 69, 103};
        std::memcpy(s_, iv, 4);
    }

private:
    void update_blocks(const std::uint8_t* in, std::size_t k) override
    {
        n_ += k * B;
        for (std::size_t i = 0; i < k * B; i += 4) blk(in + i);
    }
    void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t inl) override
    {
        std::uint8_t p[2 * B] = {0};
        if (inl) std::memcpy(p, in, inl);
        p[inl] = 0x80;
        n_ += inl;
        for (std::size_t i = 0; i < B && i < 8; i++) p[2 * B - 1 - i] = (std::uint8_t)(n_ >> (8 * i));
        for (std::size_t i = 0; i < 2 * B; i += 4) blk(p + i);
        std::memcpy(d, s_, 4);
    }
};

// a hash class over one of the library's internal implementations; without
// those (NO_INTERNAL) their names stand for the public classes
#ifndef NO_INTERNAL
#define ALGHASH(NAME, NS)                                                      \
    class NAME : public hash_lib::Hash<64>                                     \
    {                                                                          \
        NS::Sm3CTX c_;                                                         \
                                                                               \
    public:                                                                    \
        static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = 32;        \
        NAME() { NS::sm3_init(&c_); }                                          \
        void reset() noexcept                                                  \
        {                                                                      \
            hash_lib::Hash<64>::reset();                                       \
            NS::sm3_reset(&c_);                                                \
        }                                                                      \
                                                                               \
    private:                                                                   \
        void update_blocks(const std::uint8_t* in, std::size_t k) override     \
        {                                                                      \
            if (NS::sm3_update_blocks(&c_, in, k)) throw std::runtime_error(""); \
        }                                                                      \
        void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t n) override \
        {                                                                      \
            if (NS::sm3_final_block(&c_, d, in, n)) throw std::runtime_error(""); \
        }                                                                      \
    };
ALGHASH(Sm3Common, sm3::internal::common)
#define ALGGHASH(NAME, NS)                                                     \
    class NAME : public hash_lib::Hash<16>                                     \
    {                                                                          \
        NS::GHashCTX c_;                                                       \
                                                                               \
    public:                                                                    \
        static constexpr std::size_t BLOCK_SIZE = 16, DIGEST_SIZE = 16;        \
        void reset() noexcept                                                  \
        {                                                                      \
            hash_lib::Hash<16>::reset();                                       \
            NS::ghash_reset(&c_);                                              \
        }                                                                      \
        void set_key(const std::uint8_t* h)                                    \
        {                                                                      \
            hash_lib::Hash<16>::reset();                                       \
            NS::ghash_init(&c_, h);                                            \
        }                                                                      \
                                                                               \
    private:                                                                   \
        void update_blocks(const std::uint8_t* in, std::size_t k) override     \
        {                                                                      \
            NS::ghash_update_blocks(&c_, in, k);                               \
        }                                                                      \
        void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t n) override \
        {                                                                      \
            if (NS::ghash_final_block(&c_, d, in, n)) throw std::runtime_error(""); \
        }                                                                      \
    };
ALGGHASH(GCommon, ghash::internal::common)
ALGGHASH(GLut, ghash::internal::lut256)
#else
using Sm3Common = sm3::SM3;
using GCommon = ghash::GHash;
using GLut = ghash::GHash;
#endif

struct IHash
{
    std::size_t ds = 0, bs = 0;
    virtual ~IHash()                                                             = default;
    virtual void key(const std::uint8_t*, std::size_t)                           = 0;
    virtual void reset()                                                         = 0;
    virtual void upd(const std::uint8_t*, std::size_t)                           = 0;
    virtual void fin(std::uint8_t*, const std::uint8_t*, std::size_t, bool none) = 0;
    virtual std::shared_ptr<IHash> copy()                                        = 0;
    virtual void assign(const IHash&)                                            = 0;
};
template <class H, int KIND> // 0 hash, 1 ghash (keyed hash), 2 hmac
struct Wrap : IHash
{
    H h;
    Wrap()
    {
        ds = H::DIGEST_SIZE;
        if constexpr (KIND != 2) bs = H::BLOCK_SIZE;
    }
    void key(const std::uint8_t* k, std::size_t n) override
    {
        if constexpr (KIND == 1) h.set_key(k);
        if constexpr (KIND == 2) h.set_key(k, n);
        (void)k, (void)n;
    }
    void reset() override
    {
        if constexpr (KIND != 2) h.reset();
    }
    void upd(const std::uint8_t* p, std::size_t n) override { h.update(p, n); }
    void fin(std::uint8_t* d, const std::uint8_t* p, std::size_t n, bool none) override
    {
        if (none)
            h.do_final(d);
        else
            h.do_final(d, p, n);
    }
    std::shared_ptr<IHash> copy() override { return std::make_shared<Wrap>(*this); }
    void assign(const IHash& o) override { h = dynamic_cast<const Wrap&>(o).h; }
};

static std::shared_ptr<IHash> make(const std::string& k)
{
    using S = std::shared_ptr<IHash>;
    if (k == "sm3") return S(new Wrap<sm3::SM3, 0>);
    if (k == "sm3.common") return S(new Wrap<Sm3Common, 0>);
    if (k == "ghash") return S(new Wrap<ghash::GHash, 1>);
    if (k == "ghash.common") return S(new Wrap<GCommon, 1>);
    if (k == "ghash.lut256") return S(new Wrap<GLut, 1>);
    if (k == "th8") return S(new Wrap<ToyHash<8>, 0>);
    if (k == "th4") return S(new Wrap<ToyHash<4>, 0>);
    if (k == "hmac-sm3") return S(new Wrap<hash_lib::HMac<sm3::SM3>, 2>);
    if (k == "hmac-th8") return S(new Wrap<hash_lib::HMac<ToyHash<8>>, 2>);
    if (k == "hmac-th4") return S(new Wrap<hash_lib::HMac<ToyHash<4>>, 2>);
    return nullptr;
}

// new <id> <kind>[.implementation]
static Reg r_new("new", [](Session& s, const Args& a) {
    auto p = make(a[2]);
    if (!p) _exit(6);
    s.objs[a[1]] = p;
    s.emit(Ev("new").s("id", a[1]).s("kind", a[2].substr(0, a[2].find('.'))).s("impl", a[2]).n("ds", (long long)p->ds).n("bs", (long long)p->bs));
});
// newk <id> <kind> <key>: the constructor that takes a key
static Reg r_newk("newk", [](Session& s, const Args& a) {
    Bytes k = a.b(3);
    Buf   kb(s.a_x, k);
    s.emit(Ev("new").s("id", a[1]).s("kind", a[2]).n("ds", a[2] == "ghash" ? 16 : 32).n("bs", 0));
    std::string x = guarded([&] {
        if (a[2] == "ghash")
        {
            auto w       = std::make_shared<Wrap<ghash::GHash, 1>>();
            w->h         = ghash::GHash(kb.p());
            s.objs[a[1]] = w;
        }
        else
        {
            auto w       = std::make_shared<Wrap<hash_lib::HMac<sm3::SM3>, 2>>();
            w->h         = hash_lib::HMac<sm3::SM3>(kb.p(), kb.size());
            s.objs[a[1]] = w;
        }
    });
    s.emit(Ev("key").s("id", a[1]).b("key", k).s("exc", x).f("guard", kb.ok() && kb.same(k)));
});
static Reg r_copy("copy", [](Session& s, const Args& a) {
    s.objs[a[1]] = s.get<IHash>(a[2]).copy();
    s.emit(Ev("copy").s("id", a[1]).s("from", a[2]));
});
static Reg r_assign("assign", [](Session& s, const Args& a) {
    s.get<IHash>(a[1]).assign(s.get<IHash>(a[2]));
    s.emit(Ev("copy").s("id", a[1]).s("from", a[2]));
});
static Reg r_key("key", [](Session& s, const Args& a) {
    Bytes k = a.b(2);
    Buf   kb(s.a_x, k);
    auto  x = guarded([&] { s.get<IHash>(a[1]).key(kb.p(), kb.size()); });
    s.emit(Ev("key").s("id", a[1]).b("key", k).s("exc", x).f("guard", kb.ok() && kb.same(k)));
});
static Reg r_reset("reset", [](Session& s, const Args& a) {
    auto x = guarded([&] { s.get<IHash>(a[1]).reset(); });
    s.emit(Ev("reset").s("id", a[1]).s("exc", x));
});
static Reg r_upd("upd", [](Session& s, const Args& a) {
    Bytes in = a.b(2);
    Buf   b(s.a_in, in);
    auto  x = guarded([&] { s.get<IHash>(a[1]).upd(b.p(), b.size()); });
    s.emit(Ev("upd").s("id", a[1]).b("in", in).s("exc", x).f("guard", b.ok() && b.same(in)));
});
// rep <id> <64-byte block> <copies> <copies per call>
static Reg r_rep("rep", [](Session& s, const Args& a) {
    Bytes       blk = a.b(2);
    std::size_t n = (std::size_t)a.n(3), per = (std::size_t)a.n(4);
    std::size_t tot = per < n ? per : n;
    Fold        f(tot * 64);
    f.fill(blk);
    alarm(300);
    auto x = guarded([&] {
        for (std::size_t i = 0; i < n; i += tot)
        {
            std::size_t k = n - i < tot ? n - i : tot;
            s.get<IHash>(a[1]).upd(f.p, k * 64);
        }
    });
    s.emit(Ev("rep").s("id", a[1]).b("block", blk).n("n", (long long)n).s("exc", x));
});
// rkey <id> <64-byte block> <copies> <tail>: a key of so many copies and up to 64 more bytes
static Reg r_rkey("rkey", [](Session& s, const Args& a) {
    Bytes       blk = a.b(2), tail = a.b(4);
    std::size_t n = (std::size_t)a.n(3);
    Fold        f(n * 64 + tail.size());
    f.fill(blk);
    if (!tail.empty()) std::memcpy(f.p + n * 64, tail.data(), tail.size());
    alarm(300);
    auto x = guarded([&] { s.get<IHash>(a[1]).key(f.p, n * 64 + tail.size()); });
    s.emit(Ev("rkey").s("id", a[1]).b("block", blk).n("n", (long long)n).b("tail", tail).s("exc", x));
});
// fin <id> <in> <0 with data | 2 without arguments>
static Reg r_fin("fin", [](Session& s, const Args& a) {
    IHash& h  = s.get<IHash>(a[1]);
    Bytes  in = a.b(2);
    Buf    b(s.a_in, in);
    Buf    o(s.a_out, h.ds);
    auto   x = guarded([&] { h.fin(o.p(), b.p(), b.size(), a.n(3) == 2); });
    s.emit(Ev("fin").s("id", a[1]).b("in", in).b("out", o.take(h.ds)).s("exc", x).f("guard", b.ok() && b.same(in) && o.ok()));
});

int main(int c, char** v) { return drv_main(c, v); }
