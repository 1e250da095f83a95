// SM9 signature key objects (public interface only).
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm9/sm9.h>

#include "drv.h"
#include "script_rng.h"
#include "testhash.h"
using namespace drv;

namespace {
using U8 = std::uint8_t;
struct Key
{
    char kind = 'm';
    virtual ~Key() = default;
    virtual std::shared_ptr<Key> clone() const                                                            = 0;
    virtual std::shared_ptr<Key> pubof() const                                                            = 0;
    virtual std::size_t          sigsize() const                                                          = 0;
    virtual std::shared_ptr<Key> extract(const U8* id, std::size_t n, rng::Rng& g, int hid) const         = 0;
    virtual void                 msetpriv(const U8* d, bool ctor)                                         = 0;
    virtual void                 mgenpriv(rng::Rng& g, bool ctor)                                         = 0;
    virtual void                 setpub(const U8* x, const U8* y)                                         = 0;
    virtual void                 usetpriv(const U8* px, const U8* py, const U8* x, const U8* y)           = 0;
    virtual void                 get(U8* k, U8* px, U8* py, U8* x, U8* y) const                           = 0;
    virtual void                 sign(U8* s, std::size_t* n, const U8* m, std::size_t ml, rng::Rng& g, int form) const = 0;
    virtual bool verify(const U8* s, std::size_t sl, const U8* m, std::size_t ml, const U8* id, std::size_t idl, int hid) const = 0;
};
template <class H>
struct KeyT : Key
{
    sm9::SM9SignMasterPrivateKey<H> m;
    sm9::SM9SignMasterPublicKey<H>  p;
    sm9::SM9SignPrivateKey<H>       u;
    const sm9::SM9SignPublicKey<H>& pub() const { return kind == 'm' ? m.fetch_SignPublicKey() : kind == 'u' ? u.fetch_pub() : p; }
    std::shared_ptr<Key> clone() const override { return std::make_shared<KeyT<H>>(*this); }
    std::size_t sigsize() const override { return kind == 'u' ? sm9::SM9SignPrivateKey<H>::MAX_SIG_SIZE : sm9::SM9SignPublicKey<H>::MAX_SIG_SIZE; }
    std::shared_ptr<Key> pubof() const override
    {
        auto k  = std::make_shared<KeyT<H>>();
        k->kind = 'p';
        k->p    = pub();
        return k;
    }
    std::shared_ptr<Key> extract(const U8* id, std::size_t n, rng::Rng& g, int hid) const override
    {
        auto k  = std::make_shared<KeyT<H>>();
        k->kind = 'u';
        k->u    = hid < 0 ? m.gen_SignPrivateKey(id, n, g) : m.gen_SignPrivateKey(id, n, g, (U8)hid);
        return k;
    }
    void msetpriv(const U8* d, bool ctor) override
    {
        if (ctor)
            m = sm9::SM9SignMasterPrivateKey<H>(d);
        else
            m.set_priv(d);
    }
    void mgenpriv(rng::Rng& g, bool ctor) override
    {
        if (ctor)
            m = sm9::SM9SignMasterPrivateKey<H>(g);
        else
            m.gen_priv(g);
    }
    void setpub(const U8* x, const U8* y) override { p.set_pub(x, y); }
    void usetpriv(const U8* px, const U8* py, const U8* x, const U8* y) override { u.set_priv(px, py, x, y); }
    void get(U8* k, U8* px, U8* py, U8* x, U8* y) const override
    {
        if (kind == 'm') m.get_priv(k);
        if (kind == 'u')
            u.get_priv(px, py, x, y);
        else
            pub().get_pub(x, y);
    }
    void sign(U8* s, std::size_t* n, const U8* ms, std::size_t ml, rng::Rng& g, int form) const override
    {
        if (form < 0)
            u.sign(s, n, ms, ml, g);
        else
            u.sign(s, n, ms, ml, g, form == 1 ? sm9::SM9EcPC::COMPRESSED : form == 2 ? sm9::SM9EcPC::MIX : sm9::SM9EcPC::UNCOMPRESSED);
    }
    bool verify(const U8* s, std::size_t sl, const U8* ms, std::size_t ml, const U8* id, std::size_t idl, int hid) const override
    {
        if (kind == 'u') return hid < 0 ? u.verify(s, sl, ms, ml, id, idl) : u.verify(s, sl, ms, ml, id, idl, (U8)hid);
        return hid < 0 ? pub().verify(s, sl, ms, ml, id, idl) : pub().verify(s, sl, ms, ml, id, idl, (U8)hid);
    }
};
std::shared_ptr<Key> make(const std::string& h)
{
    if (h == "sm3") return std::make_shared<KeyT<sm3::SM3>>();
    if (h == "tail20") return std::make_shared<KeyT<Tail20>>();
    if (h == "tail32") return std::make_shared<KeyT<Tail32>>();
    if (h == "tail64") return std::make_shared<KeyT<Tail64>>();
    if (h == "head20") return std::make_shared<KeyT<Head20>>();
    if (h == "head32") return std::make_shared<KeyT<Head32>>();
    if (h == "head64") return std::make_shared<KeyT<Head64>>();
    throw std::out_of_range(h);
}
Key& K(Session& s, const std::string& o) { return *std::static_pointer_cast<Key>(s.objs.at(o)); }
void put(Session& s, const std::string& o, std::shared_ptr<Key> k) { s.objs[o] = std::static_pointer_cast<void>(k); }
Bytes idof(const std::string& x) { return x[0] == '*' ? Bytes((std::size_t)std::stoll(x.substr(1)), 0x61) : hex(x); }
int   hidof(const std::string& x) { return x == "D" ? -1 : std::stoi(x); }
int   formof(const std::string& x) { return x == "D" ? -1 : x == "c" ? 1 : x == "h" ? 2 : 0; }
// the last signature made in this trace, or that one changed: xP.VV, sP.VV, tN, eHEX
Bytes sigof(Session& s, const std::string& w)
{
    if (w[0] != '@') return hex(w);
    auto  it = s.objs.find("@");
    Bytes c  = it == s.objs.end() ? Bytes(97, 4) : *std::static_pointer_cast<Bytes>(it->second);
    if (w.size() == 1) return c;
    if (w[1] == 'e')
    {
        Bytes x = hex(w.substr(2));
        c.insert(c.end(), x.begin(), x.end());
        return c;
    }
    std::size_t p = (std::size_t)std::stoul(w.substr(2));
    if (w[1] == 't')
    {
        if (p < c.size()) c.resize(p);
        return c;
    }
    U8 v = hex(w.substr(w.find('.') + 1))[0];
    if (p < c.size()) c[p] = w[1] == 'x' ? c[p] ^ v : v;
    return c;
}

// new o master|pub|user hash
Reg r_new("new", [](Session& s, const Args& a) {
    auto k  = make(a[3]);
    k->kind = a[2][0];
    put(s, a[1], k);
    s.emit(Ev("new").s("o", a[1]).s("kind", a[2]).s("h", a[3]).n("ss", (long long)k->sigsize()));
});
Reg r_sp("msetpriv", [](Session& s, const Args& a) {
    Bytes       v = a.b(3);
    Buf         in(s.a_in, v);
    std::string er = guarded([&] { K(s, a[1]).msetpriv(in.p(), a[2] == "ctor"); });
    s.emit(Ev("msetpriv").s("o", a[1]).b("in", v).s("err", er));
});
Reg r_gp("mgenpriv", [](Session& s, const Args& a) {
    ScriptRng   g(a[3]);
    std::string er = guarded([&] { K(s, a[1]).mgenpriv(g, a[2] == "ctor"); });
    s.emit(Ev("mgenpriv").s("o", a[1]).b("rnd", g.taken()).f("starve", g.starved).s("err", er));
});
Reg r_su("setpub", [](Session& s, const Args& a) {
    Bytes       x = a.b(2), y = a.b(3);
    Buf         X(s.a_x, x), Y(s.a_y, y);
    std::string er = guarded([&] { K(s, a[1]).setpub(X.p(), Y.p()); });
    s.emit(Ev("setpub").s("o", a[1]).b("x", x).b("y", y).s("err", er));
});
// usetpriv o px py x y
Reg r_us("usetpriv", [](Session& s, const Args& a) {
    Bytes       px = a.b(2), py = a.b(3), x = a.b(4), y = a.b(5);
    Buf         PX(s.a_in, px), PY(s.a_out, py), X(s.a_x, x), Y(s.a_y, y);
    std::string er = guarded([&] { K(s, a[1]).usetpriv(PX.p(), PY.p(), X.p(), Y.p()); });
    s.emit(Ev("usetpriv").s("o", a[1]).b("px", px).b("py", py).b("x", x).b("y", y).s("err", er));
});
Reg r_po("pubof", [](Session& s, const Args& a) {
    put(s, a[1], K(s, a[2]).pubof());
    s.emit(Ev("pubof").s("o", a[1]).s("from", a[2]));
});
Reg r_cp("copy", [](Session& s, const Args& a) {
    put(s, a[1], K(s, a[2]).clone());
    s.emit(Ev("copy").s("o", a[1]).s("from", a[2]));
});
// extract o from id hid
Reg r_ex("extract", [](Session& s, const Args& a) {
    Bytes                id = idof(a[3]);
    int                  h  = hidof(a[4]);
    Buf                  I(s.a_x, id);
    ScriptRng            g(Bytes(256, 0x5a));
    std::shared_ptr<Key> k;
    std::string          er = guarded([&] { k = K(s, a[2]).extract(I.p(), id.size(), g, h); });
    if (er.empty()) put(s, a[1], k);
    s.emit(Ev("extract").s("o", a[1]).s("from", a[2]).b("id", id).n("hid", h < 0 ? 1 : h).s("err", er));
});
Reg r_get("get", [](Session& s, const Args& a) {
    Key& k = K(s, a[1]);
    Buf  D(s.a_in, 32), PX(s.a_out, 32), PY(s.a_x, 32), XY(s.a_y, 64), Y2(s.a_z, 64);
    k.get(D.p(), PX.p(), PY.p(), XY.p(), Y2.p());
    s.emit(Ev("get").s("o", a[1]).b("k", k.kind == 'm' ? D.take(32) : Bytes()).b("px", k.kind == 'u' ? PX.take(32) : Bytes()).b("py", k.kind == 'u' ? PY.take(32) : Bytes())
               .b("x", XY.take(64)).b("y", Y2.take(64)).f("guard", D.ok() && PX.ok() && PY.ok() && XY.ok() && Y2.ok()));
});
// sign o form msg script
Reg r_sign("sign", [](Session& s, const Args& a) {
    Bytes       m = a.b(3);
    std::size_t sl = a[2] == "c" ? 65 : 97, n = 0;
    Buf         M(s.a_in, m), S(s.a_out, sl);
    ScriptRng   g(a[4]);
    std::string er = guarded([&] { K(s, a[1]).sign(S.p(), &n, M.p(), m.size(), g, formof(a[2])); });
    if (er.empty()) s.objs["@"] = std::static_pointer_cast<void>(std::make_shared<Bytes>(S.take(n <= sl ? n : sl)));
    s.emit(Ev("sign").s("o", a[1]).s("form", a[2] == "D" ? "u" : a[2]).b("msg", m).b("rnd", g.taken()).f("starve", g.starved).s("err", er).n("outl", er.empty() ? (long long)n : 0).b("sig", S.take(sl)).f("guard", S.ok() && M.same(m)));
});
// verify o id hid msg sig
Reg r_ver("verify", [](Session& s, const Args& a) {
    Bytes       id = idof(a[2]), m = a.b(4), sg = sigof(s, a[5]);
    int         h = hidof(a[3]);
    Buf         I(s.a_x, id), M(s.a_in, m), S(s.a_y, sg);
    bool        r  = false;
    std::string er = guarded([&] { r = K(s, a[1]).verify(S.p(), sg.size(), M.p(), m.size(), I.p(), id.size(), h); });
    s.emit(Ev("verify").s("o", a[1]).b("id", id).n("hid", h < 0 ? 1 : h).b("msg", m).b("sig", sg).s("err", er).f("ret", r));
});
} // namespace
int main(int c, char** v) { return drv_main(c, v); }
