// SM2 key objects: keys, signatures, encryption (public interface only).
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>

#include "drv.h"
#include "script_rng.h"
#include "testhash.h"
using namespace drv;

namespace {
struct Key
{
    bool priv = false;
    virtual ~Key() = default;
    virtual std::shared_ptr<Key> clone() const                                  = 0;
    virtual std::shared_ptr<Key> pubof() const                                  = 0;
    virtual std::size_t          sigsize() const                                = 0;
    virtual void                 setpriv(const std::uint8_t* d, bool ctor)      = 0;
    virtual void                 genpriv(rng::Rng& g, bool ctor)                = 0;
    virtual void                 setpub(const std::uint8_t* x, const std::uint8_t* y, bool ctor) = 0;
    virtual void                 get(std::uint8_t* d, std::uint8_t* x, std::uint8_t* y) const = 0;
    virtual void sign(std::uint8_t* sig, const std::uint8_t* m, std::size_t ml, rng::Rng& g, const std::uint8_t* id, std::size_t idl, bool dflt) const = 0;
    virtual bool verify(const std::uint8_t* sig, const std::uint8_t* m, std::size_t ml, const std::uint8_t* id, std::size_t idl, bool dflt) const = 0;
    virtual std::size_t clen(const std::uint8_t* p, std::size_t n, sm2::SM2EcPC pc) const = 0;
    virtual void        enc(std::uint8_t* c, std::size_t* cl, const std::uint8_t* p, std::size_t n, rng::Rng& g, sm2::SM2EcPC pc) const = 0;
    virtual std::size_t plen(const std::uint8_t* c, std::size_t n) const = 0;
    virtual void        dec(std::uint8_t* p, std::size_t* pl, const std::uint8_t* c, std::size_t n) const = 0;
};
template <class H>
struct KeyT : Key
{
    sm2::SM2PrivateKey<H> d;
    sm2::SM2PublicKey<H>  q;
    const sm2::SM2PublicKey<H>& pub() const { return priv ? d.fetch_pub() : q; }
    std::shared_ptr<Key> clone() const override { return std::make_shared<KeyT<H>>(*this); }
    std::size_t sigsize() const override { return priv ? sm2::SM2PrivateKey<H>::SIG_SIZE : sm2::SM2PublicKey<H>::SIG_SIZE; }
    std::shared_ptr<Key> pubof() const override
    {
        auto k = std::make_shared<KeyT<H>>();
        k->q   = pub();
        return k;
    }
    void setpriv(const std::uint8_t* v, bool ctor) override
    {
        if (ctor)
            d = sm2::SM2PrivateKey<H>(v);
        else
            d.set_priv(v);
    }
    void genpriv(rng::Rng& g, bool ctor) override
    {
        if (ctor)
            d = sm2::SM2PrivateKey<H>(g);
        else
            d.gen_priv(g);
    }
    void setpub(const std::uint8_t* x, const std::uint8_t* y, bool ctor) override
    {
        if (ctor)
            q = sm2::SM2PublicKey<H>(x, y);
        else
            q.set_pub(x, y);
    }
    void get(std::uint8_t* v, std::uint8_t* x, std::uint8_t* y) const override
    {
        if (priv) d.get_priv(v);
        pub().get_pub(x, y);
    }
    void sign(std::uint8_t* sig, const std::uint8_t* m, std::size_t ml, rng::Rng& g, const std::uint8_t* id, std::size_t idl, bool dflt) const override
    {
        if (dflt)
            d.sign(sig, m, ml, g);
        else
            d.sign(sig, m, ml, g, id, idl);
    }
    bool verify(const std::uint8_t* sig, const std::uint8_t* m, std::size_t ml, const std::uint8_t* id, std::size_t idl, bool dflt) const override
    {
        if (priv) return dflt ? d.verify(sig, m, ml) : d.verify(sig, m, ml, id, idl);
        return dflt ? q.verify(sig, m, ml) : q.verify(sig, m, ml, id, idl);
    }
    std::size_t clen(const std::uint8_t* p, std::size_t n, sm2::SM2EcPC pc) const override
    {
        return priv ? d.ciphertext_len(p, n, pc) : q.ciphertext_len(p, n, pc);
    }
    void enc(std::uint8_t* c, std::size_t* cl, const std::uint8_t* p, std::size_t n, rng::Rng& g, sm2::SM2EcPC pc) const override
    {
        if (priv)
            d.encrypt(c, cl, p, n, g, pc);
        else
            q.encrypt(c, cl, p, n, g, pc);
    }
    std::size_t plen(const std::uint8_t* c, std::size_t n) const override { return d.plaintext_len(c, n); }
    void dec(std::uint8_t* p, std::size_t* pl, const std::uint8_t* c, std::size_t n) const override { d.decrypt(p, pl, c, n); }
};
std::shared_ptr<Key> make(const std::string& h)
{
    if (h == "sm3") return std::make_shared<KeyT<sm3::SM3>>();
    if (h == "tail20") return std::make_shared<KeyT<Tail20>>();
    if (h == "tail32") return std::make_shared<KeyT<Tail32>>();
    if (h == "tail64") return std::make_shared<KeyT<Tail64>>();
    if (h == "gate") return std::make_shared<KeyT<Gate32>>();
    throw std::out_of_range(h);
}
Key&         K(Session& s, const std::string& o) { return *std::static_pointer_cast<Key>(s.objs.at(o)); }
void         put(Session& s, const std::string& o, std::shared_ptr<Key> k) { s.objs[o] = std::static_pointer_cast<void>(k); }
sm2::SM2EcPC form(const std::string& f)
{
    return f == "c" ? sm2::SM2EcPC::COMPRESSED : f == "h" ? sm2::SM2EcPC::MIX : sm2::SM2EcPC::UNCOMPRESSED;
}
const Bytes DEFID = {0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38};
Bytes       idof(const std::string& x) { return x == "D" ? DEFID : x[0] == '*' ? Bytes((std::size_t)std::stoll(x.substr(1)), 0x61) : hex(x); }

// new o priv|pub hash
Reg r_new("new", [](Session& s, const Args& a) {
    auto k  = make(a[3]);
    k->priv = a[2] == "priv";
    put(s, a[1], k);
    s.emit(Ev("new").s("o", a[1]).s("kind", a[2]).s("h", a[3]).n("ss", (long long)k->sigsize()));
});
// setpriv o ctor|set d
Reg r_sp("setpriv", [](Session& s, const Args& a) {
    Bytes       v = a.b(3);
    Buf         in(s.a_in, v);
    std::string er = guarded([&] { K(s, a[1]).setpriv(in.p(), a[2] == "ctor"); });
    s.emit(Ev("setpriv").s("o", a[1]).b("in", v).s("err", er).f("guard", in.same(v) && in.ok()));
});
// genpriv o ctor|set script
Reg r_gp("genpriv", [](Session& s, const Args& a) {
    ScriptRng   g(a[3]);
    std::string er = guarded([&] { K(s, a[1]).genpriv(g, a[2] == "ctor"); });
    s.emit(Ev("genpriv").s("o", a[1]).b("rnd", g.taken()).f("starve", g.starved).s("err", er));
});
// setpub o ctor|set x y
Reg r_su("setpub", [](Session& s, const Args& a) {
    Bytes       x = a.b(3), y = a.b(4);
    Buf         X(s.a_x, x), Y(s.a_y, y);
    std::string er = guarded([&] { K(s, a[1]).setpub(X.p(), Y.p(), a[2] == "ctor"); });
    s.emit(Ev("setpub").s("o", a[1]).b("x", x).b("y", y).s("err", er));
});
Reg r_po("pubof", [](Session& s, const Args& a) {
    put(s, a[1], K(s, a[2]).pubof());
    s.emit(Ev("pubof").s("o", a[1]).s("from", a[2]));
});
Reg r_cp("copy", [](Session& s, const Args& a) {
    put(s, a[1], K(s, a[2]).clone());
    s.emit(Ev("copy").s("o", a[1]).s("from", a[2]));
});
Reg r_get("get", [](Session& s, const Args& a) {
    Buf D(s.a_in, 32), X(s.a_x, 32), Y(s.a_y, 32);
    K(s, a[1]).get(D.p(), X.p(), Y.p());
    s.emit(Ev("get").s("o", a[1]).b("d", K(s, a[1]).priv ? D.take(32) : Bytes()).b("x", X.take(32)).b("y", Y.take(32)).f("guard", D.ok() && X.ok() && Y.ok()));
});
// sign o id msg script
Reg r_sign("sign", [](Session& s, const Args& a) {
    Bytes       id = idof(a[2]), m = a.b(3);
    Buf         I(s.a_x, id), M(s.a_in, m), S(s.a_out, 64);
    ScriptRng   g(a[4]);
    std::string er = guarded([&] { K(s, a[1]).sign(S.p(), M.p(), m.size(), g, I.p(), id.size(), a[2] == "D"); });
    if (er.empty()) s.objs["@"] = std::static_pointer_cast<void>(std::make_shared<Bytes>(S.take(64)));
    s.emit(Ev("sign").s("o", a[1]).b("id", id).b("msg", m).b("rnd", g.taken()).f("starve", g.starved).s("err", er).b("sig", S.take(64)).f("guard", S.ok() && M.same(m) && I.same(id)));
});
// verify o id msg sig
Reg r_ver("verify", [](Session& s, const Args& a) {
    Bytes       id = idof(a[2]), m = a.b(3), sg;
    if (a[4] == "@") // the last signature made here
    {
        auto it = s.objs.find("@");
        sg      = it == s.objs.end() ? Bytes(64, 1) : *std::static_pointer_cast<Bytes>(it->second);
    }
    else
        sg = a.b(4);
    Buf         I(s.a_x, id), M(s.a_in, m), S(s.a_y, sg);
    bool        r  = false;
    std::string er = guarded([&] { r = K(s, a[1]).verify(S.p(), M.p(), m.size(), I.p(), id.size(), a[2] == "D"); });
    s.emit(Ev("verify").s("o", a[1]).b("id", id).b("msg", m).b("sig", sg).s("err", er).f("ret", r));
});
// huge inputs (lengths of 8 bytes): an identity of one byte repeated, a message of one byte repeated and a tail
std::size_t num(const Bytes& b)
{
    std::size_t n = 0;
    for (auto x : b) n = n << 8 | x;
    return n;
}
Bytes be(std::size_t v)
{
    Bytes b;
    for (int i = 56; i >= 0; i -= 8) b.push_back((std::uint8_t)(v >> i));
    return b;
}
struct Long
{
    std::unique_ptr<Fold> f;
    std::size_t           n = 0;
    Long(std::size_t k, std::uint8_t v, const Bytes& tail) : n(k + tail.size())
    {
        f = std::make_unique<Fold>(n + 1);
        f->clear(v);
        if (!tail.empty()) std::memcpy(f->p + k, tail.data(), tail.size());
    }
};
// signhuge o idlen msglen tail script; verifyhuge o idlen msglen tail @
Reg r_signhuge("signhuge", [](Session& s, const Args& a) {
    Long        I(num(a.b(2)), 0x61, {}), M(num(a.b(3)), 0x62, a.b(4));
    Buf         S(s.a_out, 64);
    ScriptRng   g(a[5]);
    alarm(300);
    std::string er = guarded([&] { K(s, a[1]).sign(S.p(), M.f->p, M.n, g, I.f->p, I.n, false); });
    if (er.empty()) s.objs["@"] = std::static_pointer_cast<void>(std::make_shared<Bytes>(S.take(64)));
    s.emit(Ev("signhuge").s("o", a[1]).b("idn", a.b(2)).b("msgn", a.b(3)).b("tail", a.b(4)).b("rnd", g.taken()).f("starve", g.starved).s("err", er).b("sig", S.take(64)).f("guard", S.ok()));
});
Reg r_verhuge("verifyhuge", [](Session& s, const Args& a) {
    Long  I(num(a.b(2)), 0x61, {}), M(num(a.b(3)), 0x62, a.b(4));
    auto  it = s.objs.find("@");
    Bytes sg = it == s.objs.end() ? Bytes(64, 1) : *std::static_pointer_cast<Bytes>(it->second);
    Buf   S(s.a_y, sg);
    bool  r = false;
    alarm(300);
    std::string er = guarded([&] { r = K(s, a[1]).verify(S.p(), M.f->p, M.n, I.f->p, I.n, false); });
    s.emit(Ev("verifyhuge").s("o", a[1]).b("idn", a.b(2)).b("msgn", a.b(3)).b("tail", a.b(4)).b("sig", sg).s("err", er).f("ret", r));
});
// lens o form first n(8 bytes): the announced lengths for n bytes, the first of them given
Reg r_lens("lens", [](Session& s, const Args& a) {
    std::size_t n = num(a.b(4));
    auto*       p = (std::uint8_t*)mmap(nullptr, n + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mprotect(p, 4096, PROT_READ | PROT_WRITE)) _exit(9);
    p[0]           = a.b(3)[0];
    std::size_t cl = K(s, a[1]).clen(p, n, form(a[2])), pl = 0;
    std::string er = guarded([&] { pl = K(s, a[1]).plen(p, n); });
    munmap(p, n + 4096);
    s.emit(Ev("lens").s("o", a[1]).s("form", a[2]).n("first", a.b(3)[0]).b("n", a.b(4)).b("clen", be(cl)).s("err", er).b("plen", be(pl)));
});
// enchuge o form byte n(8 bytes) script blocks: n copies of one byte; C1, C3 and chosen blocks of the key stream (counted from 1)
std::shared_ptr<Fold> g_huge;
std::size_t           g_huge_n;
Reg r_enchuge("enchuge", [](Session& s, const Args& a) {
    std::size_t n = num(a.b(4)), outl = 0, ds = (std::size_t)a.n(7);
    auto        b = (std::uint8_t)a.n(3);
    Fold        M(n);
    M.clear(b);
    auto        pc = form(a[2]);
    std::size_t cl = K(s, a[1]).clen(M.p, n, pc), head = cl - n;
    g_huge         = std::make_shared<Fold>(cl + 64, true);
    g_huge_n       = cl;
    std::memset(g_huge->p, 0xC3, 2 * Fold::CH), g_huge->clear(0xC3);
    ScriptRng g(a[5]);
    alarm(300);
    std::string er = guarded([&] { K(s, a[1]).enc(g_huge->p, &outl, M.p, n, g, pc); });
    std::string l = "[", w = "[";
    std::size_t last = (n + ds - 1) / ds;
    for (std::size_t i : {(std::size_t)1, (std::size_t)2, 256 + (std::size_t)1, last - 2, last - 1, last})
    {
        std::size_t at = (i - 1) * ds, e = std::min(n, at + ds);
        l += (l.size() > 1 ? "," : "") + std::to_string(i);
        w += w.size() > 1 ? ",[" : "[";
        for (std::size_t j = at; j < e; j++) w += (j > at ? "," : "") + std::to_string(g_huge->p[head + j]);
        w += "]";
    }
    s.emit(Ev("enchuge").s("o", a[1]).s("form", a[2]).n("byte", b).b("n", a.b(4)).b("clen", be(cl)).b("rnd", g.taken()).s("err", er).b("outl", be(outl)).b("head", Bytes(g_huge->p, g_huge->p + head)).raw("at", l + "]").raw("wins", w + "]").f("guard", g_huge->clean(cl, 0xC3)));
});
// dechuge o byte pos val: the ciphertext of enchuge, one byte changed; is every byte that can be seen the given one
Reg r_dechuge("dechuge", [](Session& s, const Args& a) {
    auto        b = (std::uint8_t)a.n(2);
    g_huge->p[num(a.b(3))] ^= hex(a[4])[0];
    std::size_t pl = K(s, a[1]).plen(g_huge->p, g_huge_n), n = 0, same = 0;
    Fold        P(pl + 64, true);
    std::memset(P.p, 0xC3, 2 * Fold::CH), P.clear(0xC3);
    alarm(300);
    std::string er = guarded([&] { K(s, a[1]).dec(P.p, &n, g_huge->p, g_huge_n); });
    for (std::size_t i = 0; i < Fold::CH; i++) same += P.p[i] == b; // what follows was folded in the ciphertext
    for (std::size_t i = P.cap - Fold::CH; i < pl; i++) same += P.p[i] == b;
    same = Fold::CH + pl - (P.cap - Fold::CH) - same;
    s.emit(Ev("dechuge").s("o", a[1]).n("byte", b).f("changed", hex(a[4])[0] != 0).b("plen", be(pl)).s("err", er).b("outl", be(er.empty() ? n : pl)).n("other", (long long)same).f("guard", P.clean(pl, 0xC3)));
    g_huge->p[num(a.b(3))] ^= hex(a[4])[0];
});
// bound o enc|dec n(8 bytes): a text for which the key stream has no counters left; reading is allowed, writing past a few bytes is not
Reg r_bound("bound", [](Session& s, const Args& a) {
    std::size_t  n = num(a.b(3)), l = 0;
    auto         map = [&](std::size_t k) {
        auto* p = (std::uint8_t*)mmap(nullptr, k + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED || mprotect(p, 4096, PROT_READ | PROT_WRITE)) _exit(9);
        return p;
    };
    std::uint8_t *in = map(n + 200), *out = map(n + 200), d[32];
    ScriptRng     g(a[4]);
    bool          dec = a[2] == "dec";
    alarm(300);
    if (dec)
    {
        in[0] = 4;
        K(s, a[1]).get(d, in + 1, in + 33);
        n += K(s, a[1]).clen(in, 0, sm2::SM2EcPC::UNCOMPRESSED);
    }
    std::string er = guarded([&] {
        if (dec)
            K(s, a[1]).dec(out, &l, in, n);
        else
            K(s, a[1]).enc(out, &l, in, n, g, form("u"));
    });
    munmap(in, n + 4096), munmap(out, n + 4096);
    s.emit(Ev("bound").s("o", a[1]).s("how", a[2]).b("n", a.b(3)).s("err", er));
});
// enc o form msg script
Reg r_enc("enc", [](Session& s, const Args& a) {
    Bytes       m = a.b(3);
    Buf         M(s.a_in, m);
    auto        pc = form(a[2]);
    std::size_t cl = K(s, a[1]).clen(M.p(), m.size(), pc), n = 0;
    Buf         C(s.a_out, cl);
    ScriptRng   g(a[4]);
    std::string er = guarded([&] { K(s, a[1]).enc(C.p(), &n, M.p(), m.size(), g, pc); });
    if (er.empty()) s.objs["@c"] = std::static_pointer_cast<void>(std::make_shared<Bytes>(C.take(n <= cl ? n : cl)));
    s.emit(Ev("enc").s("o", a[1]).s("form", a[2]).b("msg", m).n("clen", (long long)cl).b("rnd", g.taken()).f("starve", g.starved).s("err", er).n("outl", er.empty() ? (long long)n : 0).b("out", C.take(cl)).f("guard", C.ok() && M.same(m)));
});
// dec o ciphertext; "@": the last one made here, changed: xP.VV, sP.VV, tN, eHEX
Bytes ciphertext(Session& s, const Args& a)
{
    const std::string& w = a[2];
    if (w[0] != '@') return a.b(2);
    auto  it = s.objs.find("@c");
    Bytes c  = it == s.objs.end() ? Bytes(97, 4) : *std::static_pointer_cast<Bytes>(it->second);
    if (w.size() == 1) return c;
    if (w[1] == 'e')
    {
        Bytes x = hex(w.substr(2));
        c.insert(c.end(), x.begin(), x.end());
        return c;
    }
    std::size_t p = (std::size_t)std::stoul(w.substr(2));
    if (w[1] == 't')
    {
        if (p < c.size()) c.resize(p);
        return c;
    }
    std::uint8_t v = hex(w.substr(w.find('.') + 1))[0];
    if (p < c.size()) c[p] = w[1] == 'x' ? c[p] ^ v : v;
    return c;
}
Reg r_dec("dec", [](Session& s, const Args& a) {
    Bytes       c = ciphertext(s, a);
    Buf         C(s.a_in, c);
    std::size_t pl = 0, n = 0;
    std::string e1 = guarded([&] { pl = K(s, a[1]).plen(C.p(), c.size()); });
    std::size_t room = e1.empty() ? pl : 0;
    if (room > c.size()) room = c.size();
    Buf         P(s.a_out, room);
    std::string er = guarded([&] { K(s, a[1]).dec(P.p(), &n, C.p(), c.size()); });
    s.emit(Ev("dec").s("o", a[1]).b("in", c).s("plerr", e1).n("plen", (long long)(e1.empty() ? (pl < (1u << 30) ? pl : (1u << 30)) : 0)).s("err", er).n("outl", er.empty() ? (long long)n : 0).b("out", P.take(er.empty() ? n : 0)).f("guard", P.ok() && C.same(c)));
});
// encbig o form byte n script offset,offset,...: n copies of one byte; C1, C3 and 32-byte windows of C2
Reg r_encbig("encbig", [](Session& s, const Args& a) {
    Bytes       m((std::size_t)a.n(4), (std::uint8_t)a.n(3));
    Buf         M(s.a_in, m);
    auto        pc = form(a[2]);
    std::size_t cl = K(s, a[1]).clen(M.p(), m.size(), pc), n = 0;
    Buf         C(s.a_out, cl);
    ScriptRng   g(a[5]);
    std::string er = guarded([&] { K(s, a[1]).enc(C.p(), &n, M.p(), m.size(), g, pc); });
    Bytes       all = C.take(cl);
    if (er.empty()) s.objs["@c"] = std::static_pointer_cast<void>(std::make_shared<Bytes>(all));
    std::size_t head = cl - m.size();
    Ev          e("encbig");
    e.s("o", a[1]).s("form", a[2]).n("byte", a.n(3)).n("n", a.n(4)).n("clen", (long long)cl).b("rnd", g.taken()).s("err", er).n("outl", (long long)n);
    e.b("head", Bytes(all.begin(), all.begin() + (long)head));
    Bytes            win;
    std::string      offs = a[6];
    std::vector<int> os;
    for (std::size_t p = 0; p < offs.size();)
    {
        std::size_t q = offs.find(',', p);
        if (q == std::string::npos) q = offs.size();
        std::size_t o = std::stoull(offs.substr(p, q - p));
        os.push_back((int)o);
        win.insert(win.end(), all.begin() + (long)(head + o), all.begin() + (long)(head + o + 32));
        p = q + 1;
    }
    std::string l = "[";
    for (std::size_t i = 0; i < os.size(); i++) l += (i ? "," : "") + std::to_string(os[i]);
    e.raw("offs", l + "]");
    s.emit(e.b("win", win).f("guard", C.ok() && M.same(m)));
});
// decbig o [pos.val]: the last ciphertext made here, one byte changed; the plaintext as runs of equal bytes
Reg r_decbig("decbig", [](Session& s, const Args& a) {
    Bytes       c = ciphertext(s, a);
    Buf         C(s.a_in, c);
    std::size_t pl = K(s, a[1]).plen(C.p(), c.size()), n = 0;
    Buf         P(s.a_out, pl);
    std::string er = guarded([&] { K(s, a[1]).dec(P.p(), &n, C.p(), c.size()); });
    Bytes       m  = P.take(er.empty() && n <= pl ? n : 0);
    std::string l  = "[";
    int         runs = 0;
    for (std::size_t i = 0, j; i < m.size() && runs < 8; i = j, runs++)
    {
        for (j = i; j < m.size() && m[j] == m[i]; j++) {}
        l += (runs ? ",[" : "[") + std::to_string(m[i]) + "," + std::to_string(j - i) + "]";
    }
    s.emit(Ev("decbig").s("o", a[1]).f("changed", a[2].size() > 1).n("plen", (long long)pl).s("err", er).n("outl", er.empty() ? (long long)n : 0).raw("runs", l + "]").f("guard", P.ok() && C.same(c)));
});
} // namespace
int main(int c, char** v) { return drv_main(c, v); }
