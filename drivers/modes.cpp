// Conformance driver for the block cipher modes (BlockModes.tla).
#include "drv.h"
#include "toytab.h"

#include <gmlib/aes/aes.h>
#include <gmlib/aes/aes_mode.h>
#include <gmlib/sm4/sm4.h>
#include <gmlib/sm4/sm4_mode.h>

using namespace drv;
using namespace block_cipher_mode;

// out[i] = S(in[(i+1) mod B] xor key[i]); toy cipher with any block size and
// any number of blocks per parallel call.
template <std::size_t B, std::size_t P>
class Toy : public BlockCipher
{
    std::uint8_t k_[B], inv_[256];

public:
    static constexpr std::size_t BLOCK_SIZE = B, USER_KEY_LEN = B, PARALLEL_NUM = P;
    void set_key(const std::uint8_t* k, int) override
    {
        std::memcpy(k_, k, B);
        for (int i = 0; i < 256; i++) inv_[TOY_S[i]] = (std::uint8_t)i;
    }
    void encrypt_block(std::uint8_t* out, const std::uint8_t* in) const override
    {
        std::uint8_t t[B];
        for (std::size_t i = 0; i < B; i++) t[i] = TOY_S[in[(i + 1) % B] ^ k_[i]];
        std::memcpy(out, t, B);
    }
    void decrypt_block(std::uint8_t* out, const std::uint8_t* in) const override
    {
        std::uint8_t t[B];
        for (std::size_t i = 0; i < B; i++) t[(i + 1) % B] = inv_[in[i]] ^ k_[i];
        std::memcpy(out, t, B);
    }
    void encrypt_blocks(std::uint8_t* out, const std::uint8_t* in, std::size_t n) const override
    {
        for (std::size_t i = 0; i < n; i++) encrypt_block(out + i * B, in + i * B);
    }
    void decrypt_blocks(std::uint8_t* out, const std::uint8_t* in, std::size_t n) const override
    {
        for (std::size_t i = 0; i < n; i++) decrypt_block(out + i * B, in + i * B);
    }
};

struct IMode
{
    virtual ~IMode()                                                        = default;
    std::size_t bs = 0, kl = 0, pend = 0;
    bool fresh = true; // not initialised yet
    virtual void init(const std::uint8_t* k, const std::uint8_t* iv, std::size_t ivl, const std::uint8_t* aad, std::size_t aadl) = 0;
    virtual void init_long(const Bytes&, const std::uint8_t*, std::size_t, const std::uint8_t*, std::size_t) { throw std::logic_error("gcm only"); }
    virtual void reset(const std::uint8_t* iv)                              = 0;
    virtual void upd(std::uint8_t* o, std::size_t* ol, const std::uint8_t* i, std::size_t il) = 0;
    virtual void fin(std::uint8_t* o, std::size_t* ol, const std::uint8_t* i, std::size_t il, bool none) = 0;
    virtual void set_tag(const std::uint8_t*) {}
    virtual void get_tag(std::uint8_t*) {}
    virtual std::shared_ptr<IMode> copy() = 0;
    virtual void assign(const IMode& o)   = 0;
};

template <class M, int KIND> // 0 ecb, 1 with iv, 2 gcm enc, 3 gcm dec
struct Wrap : IMode
{
    M m;
    Wrap() { bs = M::BLOCK_SIZE, kl = M::USER_KEY_LEN; }
    // the first key of an object may come through the constructor; which way is decided by the key
    void init(const std::uint8_t* k, const std::uint8_t* iv, std::size_t ivl, const std::uint8_t* aad, std::size_t aadl) override
    {
        pend      = 0;
        bool ctor = fresh && ((k[0] ^ k[kl - 1] ^ ivl ^ aadl) & 1) != 0;
        fresh     = false;
        (void)iv, (void)ivl, (void)aad, (void)aadl;
        if constexpr (KIND == 0)
        {
            if (ctor) m = M(k);
            else m.init(k);
        }
        else if constexpr (KIND == 1)
        {
            if (ctor) m = M(k, iv);
            else m.init(k, iv);
        }
        else
        {
            if (ctor) m = M(k, iv, ivl, aad, aadl);
            else m.init(k, iv, ivl, aad, aadl);
        }
    }
    void init_long(const Bytes& k, const std::uint8_t* iv, std::size_t ivl, const std::uint8_t* aad, std::size_t aadl) override
    {
        pend = 0;
        if constexpr (KIND >= 2) m.init(k.data(), iv, ivl, aad, aadl);
    }
    void reset(const std::uint8_t* iv) override
    {
        pend = 0;
        (void)iv;
        if constexpr (KIND == 0)
            m.reset();
        else if constexpr (KIND == 1)
            m.reset(iv);
        else
            throw std::logic_error("no reset");
    }
    void upd(std::uint8_t* o, std::size_t* ol, const std::uint8_t* i, std::size_t il) override
    {
        m.update(o, ol, i, il);
    }
    void fin(std::uint8_t* o, std::size_t* ol, const std::uint8_t* i, std::size_t il, bool none) override
    {
        if (none)
            m.do_final(o, ol);
        else
            m.do_final(o, ol, i, il);
    }
    void set_tag(const std::uint8_t* t) override
    {
        (void)t;
        if constexpr (KIND == 3) m.set_tag(t);
    }
    void get_tag(std::uint8_t* t) override
    {
        (void)t;
        if constexpr (KIND == 2) m.get_tag(t);
    }
    std::shared_ptr<IMode> copy() override
    {
        return std::make_shared<Wrap>(*this);
    }
    void assign(const IMode& o) override
    {
        const Wrap& w = dynamic_cast<const Wrap&>(o);
        m             = w.m;
        pend          = w.pend;
        fresh         = w.fresh;
    }
};

// the modes by the names the library gives them
#define GM_NAMED(NS, C)                                                                                                \
    static std::shared_ptr<IMode> named_##C(const std::string& m, bool e)                                              \
    {                                                                                                                  \
        using P = std::shared_ptr<IMode>;                                                                              \
        if (m == "ecb") return e ? P(new Wrap<NS::C##EcbEncryptor, 0>) : P(new Wrap<NS::C##EcbDecryptor, 0>);          \
        if (m == "cbc") return e ? P(new Wrap<NS::C##CbcEncryptor, 1>) : P(new Wrap<NS::C##CbcDecryptor, 1>);          \
        if (m == "cfb") return e ? P(new Wrap<NS::C##CfbEncryptor, 1>) : P(new Wrap<NS::C##CfbDecryptor, 1>);          \
        if (m == "ofb") return e ? P(new Wrap<NS::C##OfbEncryptor, 1>) : P(new Wrap<NS::C##OfbDecryptor, 1>);          \
        if (m == "ctr") return e ? P(new Wrap<NS::C##CtrEncryptor, 1>) : P(new Wrap<NS::C##CtrDecryptor, 1>);          \
        if (m == "gcm") return e ? P(new Wrap<NS::C##GcmEncryptor, 2>) : P(new Wrap<NS::C##GcmDecryptor, 3>);          \
        return nullptr;                                                                                                \
    }
GM_NAMED(sm4, SM4)
GM_NAMED(aes, AES128)
GM_NAMED(aes, AES192)
GM_NAMED(aes, AES256)

template <class C>
std::shared_ptr<IMode> make(const std::string& mode, bool enc)
{
    if (mode == "ecb")
        return enc ? std::shared_ptr<IMode>(new Wrap<EcbEncryptor<C>, 0>)
                   : std::shared_ptr<IMode>(new Wrap<EcbDecryptor<C>, 0>);
    if (mode == "cbc")
        return enc ? std::shared_ptr<IMode>(new Wrap<CbcEncryptor<C>, 1>)
                   : std::shared_ptr<IMode>(new Wrap<CbcDecryptor<C>, 1>);
    if (mode == "cfb")
        return enc ? std::shared_ptr<IMode>(new Wrap<CfbEncryptor<C>, 1>)
                   : std::shared_ptr<IMode>(new Wrap<CfbDecryptor<C>, 1>);
    if (mode == "ofb")
        return enc ? std::shared_ptr<IMode>(new Wrap<OfbEncryptor<C>, 1>)
                   : std::shared_ptr<IMode>(new Wrap<OfbDecryptor<C>, 1>);
    if (mode == "ctr")
        return enc ? std::shared_ptr<IMode>(new Wrap<CtrEncryptor<C>, 1>)
                   : std::shared_ptr<IMode>(new Wrap<CtrDecryptor<C>, 1>);
    if constexpr (C::BLOCK_SIZE == 16)
        if (mode == "gcm")
            return enc ? std::shared_ptr<IMode>(new Wrap<GcmEncryptor<C>, 2>)
                       : std::shared_ptr<IMode>(new Wrap<GcmDecryptor<C>, 3>);
    return nullptr;
}

static std::shared_ptr<IMode> make_any(const std::string& c, const std::string& m, bool enc)
{
    if (c == "toy4p2") return make<Toy<4, 2>>(m, enc);
    if (c == "toy4p3") return make<Toy<4, 3>>(m, enc);
    if (c == "toy8p1") return make<Toy<8, 1>>(m, enc);
    if (c == "toy5p2") return make<Toy<5, 2>>(m, enc);
    if (c == "toy12p2") return make<Toy<12, 2>>(m, enc);
    if (c == "toy24p3") return make<Toy<24, 3>>(m, enc);
    if (c == "toy16p2") return make<Toy<16, 2>>(m, enc);
    if (c == "sm4") return named_SM4(m, enc);
    if (c == "aes128") return named_AES128(m, enc);
    if (c == "aes192") return named_AES192(m, enc);
    if (c == "aes256") return named_AES256(m, enc);
    return nullptr;
}

// new <id> <mode> <e|d> <cipher>
static Reg r_new("new", [](Session& s, const Args& a) {
    auto p = make_any(a[4], a[2], a[3] == "e");
    if (!p) _exit(6);
    s.objs[a[1]] = p;
    s.emit(Ev("new").s("id", a[1]).s("mode", a[2]).s("dir", a[3]).s("ciph", a[4]).n("bs", (long long)p->bs).n("kl", (long long)p->kl));
});
// copy <id> <from>: copy construction; assign <id> <from>: copy assignment
static Reg r_copy("copy", [](Session& s, const Args& a) {
    s.objs[a[1]] = s.get<IMode>(a[2]).copy();
    s.emit(Ev("copy").s("id", a[1]).s("from", a[2]));
});
static Reg r_assign("assign", [](Session& s, const Args& a) {
    s.get<IMode>(a[1]).assign(s.get<IMode>(a[2]));
    s.emit(Ev("copy").s("id", a[1]).s("from", a[2]));
});
// init <id> <key> <iv> <aad>
static Reg r_init("init", [](Session& s, const Args& a) {
    Bytes k = a.b(2), iv = a.b(3), aad = a.b(4);
    Buf   ab(s.a_x, aad), kb(s.a_in, k), vb(s.a_out, iv);
    auto  x = guarded([&] { s.get<IMode>(a[1]).init(kb.p(), vb.p(), vb.size(), ab.p(), ab.size()); });
    s.emit(Ev("init").s("id", a[1]).b("key", k).b("iv", iv).b("aad", aad).s("exc", x).f("keep", kb.ok() && kb.same(k) && vb.ok() && vb.same(iv) && ab.ok() && ab.same(aad)));
});
// reset <id> <iv>
static Reg r_reset("reset", [](Session& s, const Args& a) {
    Bytes iv = a.b(2);
    Buf   vb(s.a_out, iv);
    auto  x  = guarded([&] { s.get<IMode>(a[1]).reset(vb.p()); });
    s.emit(Ev("reset").s("id", a[1]).b("iv", iv).s("exc", x).f("keep", vb.ok() && vb.same(iv)));
});

static void io(Session& s, const Args& a, bool fin)
{
    IMode&      m    = s.get<IMode>(a[1]);
    Bytes       in   = a[2] == "@" ? s.get<Bytes>("@o") : a.b(2); // @: what the last call of fin gave
    bool        inpl = a.n(3) == 1, none = a.n(3) == 2;
    std::size_t cap  = fin ? m.pend + in.size() : (m.pend + in.size()) / m.bs * m.bs;
    std::size_t outl = 987654321;
    Ev          e(fin ? "fin" : "upd");
    e.s("id", a[1]).b("in", in).f("inpl", inpl);
    if (!fin) m.pend = (m.pend + in.size()) % m.bs;
    std::string x;
    if (inpl)
    {
        // the input occupies the start of the output buffer
        std::size_t n = cap > in.size() ? cap : in.size();
        Buf         b(s.a_out, n);
        if (!in.empty()) std::memcpy(b.p(), in.data(), in.size());
        x = guarded([&] {
            if (fin)
                m.fin(b.p(), &outl, b.p(), in.size(), none);
            else
                m.upd(b.p(), &outl, b.p(), in.size());
        });
        e.b("out", b.take(outl)).n("outl", (long long)outl).f("guard", b.ok()).s("exc", x);
        // bytes of the buffer after the produced output keep their value
        bool keep = true;
        for (std::size_t i = outl; x.empty() && i < in.size(); i++)
            if (b.p()[i] != in[i]) keep = false;
        e.f("keep", keep);
    }
    else
    {
        Buf ib(s.a_in, in);
        Buf b(s.a_out, cap);
        x = guarded([&] {
            if (fin)
                m.fin(b.p(), &outl, ib.p(), in.size(), none);
            else
                m.upd(b.p(), &outl, ib.p(), in.size());
        });
        if (fin && x.empty()) s.objs["@o"] = std::make_shared<Bytes>(b.take(outl));
        e.b("out", b.take(outl)).n("outl", (long long)outl).f("guard", b.ok() && ib.ok()).s("exc", x);
        e.f("keep", ib.same(in));
    }
    s.emit(e);
}
// upd <id> <in> <0 separate buffers | 1 in place>; fin also 2 = no input given
static Reg r_upd("upd", [](Session& s, const Args& a) { io(s, a, false); });
static Reg r_fin("fin", [](Session& s, const Args& a) { io(s, a, true); });
// settag <id> <tag>|@ : @ is the tag last read in this session
static Reg r_st("settag", [](Session& s, const Args& a) {
    Bytes t = a[2] == "@" ? s.get<Bytes>("@t") : a.b(2);
    Buf   tb(s.a_in, t);
    s.get<IMode>(a[1]).set_tag(tb.p());
    s.emit(Ev("settag").s("id", a[1]).b("tag", t).f("keep", tb.ok() && tb.same(t)));
});
static Reg r_gt("gettag", [](Session& s, const Args& a) {
    Buf tb(s.a_out, 16, 0xEE);
    s.get<IMode>(a[1]).get_tag(tb.p());
    Bytes t = tb.take(16);
    s.objs["@t"] = std::make_shared<Bytes>(t);
    s.emit(Ev("gettag").s("id", a[1]).b("tag", t).f("keep", tb.ok()));
});
// longiv <id> <key> <vb> <nb> <r> <aad> : the IV is the byte vb, 16 * nb + r times
static Reg r_li("longiv", [](Session& s, const Args& a) {
    alarm(600);
    Bytes       k = a.b(2), x(16, (std::uint8_t)a.n(3)), aad = a.b(6);
    std::size_t n = (std::size_t)a.n(4) * 16 + (std::size_t)a.n(5);
    Fold        iv(n);
    iv.fill(x);
    Buf  ab(s.a_x, aad);
    auto e = guarded([&] { s.get<IMode>(a[1]).init_long(k, iv.p, n, ab.p(), ab.size()); });
    s.emit(Ev("longiv").s("id", a[1]).b("key", k).n("vb", a.n(3)).n("vnb", a.n(4)).n("vr", a.n(5)).b("aad", aad).s("exc", e));
});

// a very long message of repeated bytes, in place in one buffer that ends at a guard page
struct Big
{
    std::uint8_t *base, *p;
    std::size_t   n, cap;
    Bytes         key, iv, tag;
    int           b;
    Big(std::size_t n_) : n(n_), cap((n_ + 4095) / 4096 * 4096)
    {
        base = (std::uint8_t*)mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) _exit(9);
        mprotect(base + cap, 4096, PROT_NONE);
        p = base + cap - n;
    }
    ~Big() { munmap(base, cap + 4096); }
};
static void big_run(IMode& m, Big& x, std::size_t& outl, bool one)
{
    std::size_t done = 0, o = 0;
    outl             = 0;
    while (x.n - done > (std::size_t)1 << 27)
    {
        std::size_t k = one ? x.n - 48 : (std::size_t)1 << 26;
        m.upd(x.p + outl, &o, x.p + done, k);
        done += k, outl += o;
    }
    m.fin(x.p + outl, &o, x.p + done, x.n - done, false);
    outl += o;
}
// additional data of zeros takes no memory
static Big* big_aad(int ab, std::size_t n)
{
    Big* a = new Big(n);
    if (ab) std::memset(a->p, ab, n);
    return a;
}
// gbig id key iv ab anb ar b nb r
static Reg r_big("gbig", [](Session& s, const Args& a) {
    alarm(600);
    IMode& m = s.get<IMode>(a[1]);
    auto   x = std::make_shared<Big>((std::size_t)a.n(8) * 16 + (std::size_t)a.n(9));
    x->key = a.b(2), x->iv = a.b(3), x->b = (int)a.n(7);
    std::memset(x->p, x->b, x->n);
    std::size_t outl = 0;
    Bytes       tag(16, 0xEE);
    std::string e;
    {
        std::unique_ptr<Big> aad(big_aad((int)a.n(4), (std::size_t)a.n(5) * 16 + (std::size_t)a.n(6)));
        e = guarded([&] {
            m.init(x->key.data(), x->iv.data(), x->iv.size(), aad->p, aad->n);
            big_run(m, *x, outl, x->n >> 32 != 0);
            m.get_tag(tag.data());
        });
    }
    x->tag       = tag;
    s.objs["@b"] = x;
    Ev ev("gbig");
    ev.s("id", a[1]).b("key", x->key).b("iv", x->iv).n("ab", a.n(4)).n("anb", a.n(5)).n("ar", a.n(6)).n("b", x->b).n("nb", a.n(8)).n("r", a.n(9));
    ev.s("exc", e).n("outnb", (long long)(outl / 16)).n("outr", (long long)(outl % 16)).b("tag", tag).f("guard", true);
    std::string wins = "[", at = "[";
    std::size_t nb = x->n / 16;
    std::vector<std::size_t> idx = {0, 1, 253, 254, 255, 65533, 65534, 65535, nb / 2, nb / 3, nb - 2, nb - 1};
    for (std::size_t i : idx)
    {
        if (i >= nb) continue;
        at += (at.size() > 1 ? "," : "") + std::to_string(i);
        wins += wins.size() > 1 ? ",[" : "[";
        for (int j = 0; j < 16; j++) wins += (j ? "," : "") + std::to_string(x->p[i * 16 + (std::size_t)j]);
        wins += "]";
    }
    ev.raw("at", at + "]").raw("wins", wins + "]").b("last", x->p + nb * 16, x->n % 16);
    s.emit(ev);
});
// gbigd id ab anb ar tag|@ : decrypt what the last gbig made, in place
static Reg r_bigd("gbigd", [](Session& s, const Args& a) {
    alarm(600);
    IMode&      m   = s.get<IMode>(a[1]);
    Big&        x   = s.get<Big>("@b");
    Bytes       tag = a[5] == "@" ? x.tag : a.b(5);
    std::size_t outl = 0;
    std::string e;
    {
        std::unique_ptr<Big> aad(big_aad((int)a.n(2), (std::size_t)a.n(3) * 16 + (std::size_t)a.n(4)));
        e = guarded([&] {
            m.init(x.key.data(), x.iv.data(), x.iv.size(), aad->p, aad->n);
            m.set_tag(tag.data());
            big_run(m, x, outl, true);
        });
    }
    Ev ev("gbigd");
    ev.s("id", a[1]).b("key", x.key).b("iv", x.iv).n("ab", a.n(2)).n("anb", a.n(3)).n("ar", a.n(4)).n("b", x.b).n("nb", (long long)(x.n / 16)).n("r", (long long)(x.n % 16));
    ev.s("exc", e).n("outnb", (long long)(outl / 16)).n("outr", (long long)(outl % 16)).b("tag", tag).f("guard", true);
    std::string v = "[", q = "[", r = "[";
    std::size_t i = 0, runs = 0;
    while (i < x.n && runs < 4)
    {
        std::size_t j = i;
        while (j < x.n && x.p[j] == x.p[i]) j++;
        std::string c = runs ? "," : "";
        v += c + std::to_string(x.p[i]), q += c + std::to_string((j - i) / 16), r += c + std::to_string((j - i) % 16);
        i = j, runs++;
    }
    s.emit(ev.raw("vals", v + "]").raw("runnb", q + "]").raw("runr", r + "]"));
    // the ciphertext is gone
    s.objs.erase("@b");
});

// huge id key iv block nb r p: init, an update with the first p bytes, one with the rest of nb copies of the block,
// a final call with r bytes of it
static Reg r_huge("huge", [](Session& s, const Args& a) {
    alarm(600);
    IMode&      m  = s.get<IMode>(a[1]);
    Bytes       k = a.b(2), iv = a.b(3), x = a.b(4);
    std::size_t nb = (std::size_t)a.n(5), r = (std::size_t)a.n(6), pre = (std::size_t)a.n(7), n = nb * 16, o0 = 0, o1 = 7, o2 = 7;
    Fold        in(n), out(n);
    in.fill(x), out.clear(0xC3);
    Buf         fi(s.a_in, Bytes(x.begin(), x.begin() + (long)r)), fo(s.a_out, r);
    std::string e = guarded([&] {
        m.init(k.data(), iv.data(), iv.size(), nullptr, 0);
        if (pre) m.upd(out.p, &o0, in.p, pre);
        m.upd(out.p + o0, &o1, in.p + pre, n - pre);
        o1 += o0;
        m.fin(fo.p(), &o2, fi.p(), r, false);
    });
    Ev ev("huge");
    ev.s("id", a[1]).b("key", k).b("iv", iv).b("x", x).n("nb", a.n(5)).n("r", a.n(6)).n("pre", a.n(7)).s("exc", e).n("outnb", (long long)(o1 / 16)).n("outr", (long long)(o1 % 16)).n("finl", (long long)o2);
    std::string wins, at = out.json(out.spots(nb), wins);
    s.emit(ev.raw("at", at).raw("wins", wins).b("last", fo.take(r)).n("preout", (long long)o0).f("guard", out.clean(n, 0xC3) && fo.ok()));
});

int main(int c, char** v) { return drv_main(c, v); }
