// Block cipher objects: key schedule, single blocks, block sequences.
#include <gmlib/aes/aes.h>
#include <gmlib/sm4/sm4.h>

#include "drv.h"
using namespace drv;

namespace {
using BC = block_cipher_mode::BlockCipher;

struct Obj
{
    std::string                  kind;
    std::shared_ptr<BC>          p;
    std::size_t                  bs = 0, kl = 0; // announced sizes
    std::function<std::shared_ptr<BC>(const BC&)> copy;
};
template <class T>
std::shared_ptr<Obj> mk(const std::string& k, const std::uint8_t* key, int enc)
{
    auto o  = std::make_shared<Obj>();
    o->kind = k;
    o->bs = T::BLOCK_SIZE, o->kl = T::USER_KEY_LEN;
    o->p    = key ? std::make_shared<T>(key, enc) : std::make_shared<T>();
    o->copy = [](const BC& b) { return std::make_shared<T>(static_cast<const T&>(b)); };
    return o;
}
std::shared_ptr<Obj> make(const std::string& k, const std::uint8_t* key, int enc)
{
    if (k == "sm4") return mk<sm4::SM4>(k, key, enc);
    if (k == "aes128") return mk<aes::AES128>(k, key, enc);
    if (k == "aes192") return mk<aes::AES192>(k, key, enc);
    if (k == "aes256") return mk<aes::AES256>(k, key, enc);
    std::fprintf(stderr, "unknown cipher %s\n", k.c_str());
    g_done = true;
    _exit(7);
}
std::string base(const std::string& k) { return k.substr(0, k.find('.')); }

// new id kind [key dir]
Reg r_new("new", [](Session& s, const Args& a) {
    bool  wk  = a.size() > 3;
    Bytes key = wk ? a.b(3) : Bytes();
    int   enc = wk && a[4] == "d" ? (int)BC::DECRYPTION : (int)BC::ENCRYPTION;
    Ev    e("new");
    e.s("id", a[1]).s("kind", base(a[2])).b("key", key).s("dir", wk ? a[4] : "-");
    Buf  kb(s.a_in, key);
    auto o = make(a[2], wk ? kb.p() : nullptr, enc);
    s.objs[a[1]] = o;
    s.emit(e.n("bs", (long long)o->bs).n("kl", (long long)o->kl).f("keep", kb.ok() && kb.same(key)));
});
// key id key dir offset : the key ends 'offset' bytes before its buffer
Reg r_key("key", [](Session& s, const Args& a) {
    auto& o = s.get<Obj>(a[1]);
    Bytes k = a.b(2);
    Bytes padded(k);
    padded.resize(k.size() + (std::size_t)a.n(4));
    Buf in(s.a_in, padded);
    o.p->set_key(in.p(), a[3] == "e" ? (int)BC::ENCRYPTION : (int)BC::DECRYPTION);
    s.emit(Ev("key").s("id", a[1]).b("key", k).s("dir", a[3]).f("guard", in.ok() && in.same(padded)));
});
Reg r_copy("copy", [](Session& s, const Args& a) {
    auto o       = std::make_shared<Obj>(s.get<Obj>(a[2]));
    o->p         = o->copy(*o->p);
    s.objs[a[1]] = o;
    s.emit(Ev("copy").s("id", a[1]).s("from", a[2]));
});
// blk id e|d data inoff outoff inplace ; blks the same with whole blocks
void run(Session& s, const Args& a, bool many)
{
    auto&       o = s.get<Obj>(a[1]);
    Bytes       d = a.b(3);
    std::size_t io = (std::size_t)a.n(4), oo = (std::size_t)a.n(5);
    bool        inplace = a.n(6) != 0;
    Bytes       din(d);
    din.resize(d.size() + io, 0x77);
    Buf   in(s.a_in, din);
    Buf   out(s.a_out, d.size() + oo, 0xC3);
    std::uint8_t* src = in.p();
    std::uint8_t* dst = inplace ? in.p() : out.p();
    bool enc = a[2] == "e";
    if (!many)
        enc ? o.p->encrypt_block(dst, src) : o.p->decrypt_block(dst, src);
    else
        enc ? o.p->encrypt_blocks(dst, src, d.size() / 16) : o.p->decrypt_blocks(dst, src, d.size() / 16);
    bool  guard = in.ok() && out.ok();
    Bytes res;
    if (inplace)
    {
        Bytes full = in.take(in.size());
        for (std::size_t i = 0; i < io; i++) guard = guard && full[d.size() + i] == 0x77;
        for (std::size_t i = 0; i < out.size(); i++) guard = guard && out.p()[i] == 0xC3;
        res = in.take(d.size());
    }
    else
    {
        guard = guard && in.same(din);
        for (std::size_t i = 0; i < oo; i++) guard = guard && out.p()[d.size() + i] == 0xC3;
        res = out.take(d.size());
    }
    s.emit(Ev(many ? "blks" : "blk").s("id", a[1]).s("dir", a[2]).b("in", d).b("out", res).f("guard", guard));
}
Reg r_blk("blk", [](Session& s, const Args& a) { run(s, a, false); });
Reg r_blks("blks", [](Session& s, const Args& a) { run(s, a, true); });
// huge id e|d block nb: nb copies of a block in one call (the memory is shared)
Reg r_huge("huge", [](Session& s, const Args& a) {
    alarm(600);
    auto&       o  = s.get<Obj>(a[1]);
    Bytes       x  = a.b(3);
    std::size_t nb = (std::size_t)a.n(4);
    Fold        in(nb * 16), out(nb * 16);
    in.fill(x), out.clear(0xC3);
    a[2] == "e" ? o.p->encrypt_blocks(out.p, in.p, nb) : o.p->decrypt_blocks(out.p, in.p, nb);
    std::string wins, at = out.json(out.spots(nb), wins);
    s.emit(Ev("huge").s("id", a[1]).s("dir", a[2]).b("in", x).n("nb", a.n(4)).raw("at", at).raw("wins", wins).f("guard", out.clean(nb * 16, 0xC3)));
});
} // namespace

int main(int argc, char** argv) { return drv_main(argc, argv); }
