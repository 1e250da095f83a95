// Command interpreter shared by the conformance drivers.  A command file is a
// list of traces: a line "T <name>" starts one, the following lines are calls
// on the code under test.  Every call appends one event (a JSON line) with its
// arguments and everything it returned; the events are what TLC checks.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace drv {

using Bytes = std::vector<std::uint8_t>;

// ---- guarded buffers: data ends at an inaccessible page ----
class Arena
{
    std::uint8_t* base_ = nullptr;
    std::size_t   cap_  = 0; // bytes before the guard page

public:
    ~Arena()
    {
        if (base_) munmap(base_, cap_ + 2 * 4096);
    }
    std::uint8_t* end_for(std::size_t need)
    {
        if (need > cap_ || !base_)
        {
            if (base_) munmap(base_, cap_ + 2 * 4096);
            cap_ = ((need + 4095) / 4096) * 4096;
            if (cap_ < 65536) cap_ = 65536;
            base_ = (std::uint8_t*)mmap(nullptr, cap_ + 2 * 4096,
                                        PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (base_ == MAP_FAILED) _exit(9);
            mprotect(base_, 4096, PROT_NONE);
            mprotect(base_ + 4096 + cap_, 4096, PROT_NONE);
        }
        return base_ + 4096 + cap_;
    }
};

// n bytes ending at a guard page, 32 canary bytes in front
class Buf
{
    static constexpr std::size_t CAN = 32;
    std::uint8_t*                p_;
    std::size_t                  n_;

public:
    Buf(Arena& a, std::size_t n, std::uint8_t fill = 0xC3) : n_(n)
    {
        p_ = a.end_for(n + CAN) - n;
        std::memset(p_ - CAN, 0x5A, CAN);
        std::memset(p_, fill, n);
    }
    Buf(Arena& a, const Bytes& v) : Buf(a, v.size())
    {
        if (!v.empty()) std::memcpy(p_, v.data(), v.size());
    }
    std::uint8_t* p() { return p_; }
    std::size_t   size() const { return n_; }
    bool          ok() const
    {
        for (std::size_t i = 0; i < CAN; i++)
            if (p_[-(std::ptrdiff_t)CAN + (std::ptrdiff_t)i] != 0x5A) return false;
        return true;
    }
    bool same(const Bytes& v) const
    {
        return v.size() == n_ && (n_ == 0 || std::memcmp(v.data(), p_, n_) == 0);
    }
    Bytes take(std::size_t n) const
    {
        if (n > n_) n = n_;
        return Bytes(p_, p_ + n);
    }
};

// addresses of n bytes: all but the last CH bytes share the same CH bytes of memory
struct Fold
{
    static constexpr std::size_t CH = 1 << 20;
    std::uint8_t*                p;
    std::size_t                  cap;
    // head: the first 2 CH bytes have memory of their own as well.  After the end comes a guard page
    Fold(std::size_t n, bool head = false) : cap((n + CH - 1) / CH * CH)
    {
        int fd = memfd_create("fold", 0);
        if (fd < 0 || ftruncate(fd, 4 * CH)) _exit(9);
        p = (std::uint8_t*)mmap(nullptr, cap + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) _exit(9);
        for (std::size_t o = 0; o < cap; o += CH)
            if (mmap(p + o, CH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, o + CH >= cap ? CH : o < 2 * CH && head ? 2 * CH + o : 0) == MAP_FAILED) _exit(9);
        close(fd);
    }
    ~Fold() { munmap(p, cap + 4096); }
    // fill with copies of v (a power of two long); clear with one byte
    void fill(const std::vector<std::uint8_t>& v)
    {
        for (std::size_t i = 0; i < CH; i += v.size()) std::memcpy(p + i, v.data(), v.size()), std::memcpy(p + cap - CH + i, v.data(), v.size());
    }
    void clear(std::uint8_t b) { std::memset(p, b, CH), std::memset(p + cap - CH, b, CH); }
    // 16-byte blocks worth looking at after nb blocks were written, and whether the rest is untouched
    std::vector<std::size_t> spots(std::size_t nb) const
    {
        std::size_t              sh = (cap - CH) / 16;
        std::vector<std::size_t> r;
        for (std::size_t i : {sh - 65536, sh - 32768, sh - 1, sh, sh + 1, sh + (nb - sh) / 2, nb - 2, nb - 1})
            if (i < nb && (r.empty() || i > r.back())) r.push_back(i);
        return r;
    }
    bool clean(std::size_t from, std::uint8_t b) const
    {
        for (std::size_t i = from; i < cap; i++)
            if (p[i] != b) return false;
        return true;
    }
    std::string json(const std::vector<std::size_t>& at, std::string& wins) const
    {
        std::string s = "[";
        wins          = "[";
        for (std::size_t i : at)
        {
            s += (s.size() > 1 ? "," : "") + std::to_string(i);
            wins += wins.size() > 1 ? ",[" : "[";
            for (std::size_t j = 0; j < 16; j++) wins += (j ? "," : "") + std::to_string(p[i * 16 + j]);
            wins += "]";
        }
        wins += "]";
        return s + "]";
    }
};

// ---- arguments ----
inline Bytes hex(const std::string& s)
{
    Bytes r;
    if (s == "-") return r;
    r.reserve(s.size() / 2);
    auto d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (std::size_t i = 0; i + 1 < s.size(); i += 2)
        r.push_back((std::uint8_t)(d(s[i]) * 16 + d(s[i + 1])));
    return r;
}

struct Args
{
    std::vector<std::string> v;
    const std::string&       operator[](std::size_t i) const { return v.at(i); }
    Bytes                    b(std::size_t i) const { return hex(v.at(i)); }
    long long                n(std::size_t i) const { return std::stoll(v.at(i)); }
    std::size_t              size() const { return v.size(); }
};

// ---- one event ----
class Ev
{
    std::string s_;

public:
    explicit Ev(const std::string& op) : s_("\"op\":\"" + op + "\"") {}
    Ev& n(const char* k, long long x)
    {
        s_ += std::string(",\"") + k + "\":" + std::to_string(x);
        return *this;
    }
    Ev& f(const char* k, bool x)
    {
        s_ += std::string(",\"") + k + "\":" + (x ? "true" : "false");
        return *this;
    }
    Ev& s(const char* k, const std::string& x)
    {
        s_ += std::string(",\"") + k + "\":\"" + x + "\"";
        return *this;
    }
    Ev& b(const char* k, const std::uint8_t* p, std::size_t n)
    {
        s_ += std::string(",\"") + k + "\":[";
        char t[8];
        for (std::size_t i = 0; i < n; i++)
        {
            int l = std::snprintf(t, sizeof t, i ? ",%u" : "%u", p[i]);
            s_.append(t, (std::size_t)l);
        }
        s_ += "]";
        return *this;
    }
    Ev& b(const char* k, const Bytes& v) { return b(k, v.data(), v.size()); }
    Ev& raw(const char* k, const std::string& json)
    {
        s_ += std::string(",\"") + k + "\":" + json;
        return *this;
    }
    const std::string& str() const { return s_; }
};

// ---- faults ----
inline char      g_trace[256] = "?";
inline char      g_cmd[64]    = "?";
inline int       g_fd         = 1;
inline bool      g_done       = false;
inline std::atomic<bool> g_faulted{false};

inline void write_all(int fd, const char* p, std::size_t n)
{
    while (n)
    {
        ssize_t k = write(fd, p, n);
        if (k <= 0) _exit(8);
        p += k, n -= (std::size_t)k;
    }
}
inline void fault_line(const char* what)
{
    char b[512];
    int  n = std::snprintf(b, sizeof b,
                           "{\"t\":\"%s\",\"op\":\"fault\",\"what\":\"%s\",\"call\":\"%s\"}\n",
                           g_trace, what, g_cmd);
    write_all(g_fd, b, (std::size_t)n);
}
inline void on_sig(int s)
{
    if (g_faulted.exchange(true))
    {
        pause();
    }
    fault_line(s == SIGSEGV   ? "SIGSEGV"
               : s == SIGBUS  ? "SIGBUS"
               : s == SIGFPE  ? "SIGFPE"
               : s == SIGILL  ? "SIGILL"
               : s == SIGABRT ? "SIGABRT"
               : s == SIGALRM ? "timeout"
                              : "signal");
    _exit(3);
}
inline void on_exit_()
{
    if (!g_done)
    {
        fault_line("exit");
        _exit(3);
    }
}

// ---- session: the objects of one trace ----
struct Session
{
    std::string                                  name;
    std::map<std::string, std::shared_ptr<void>> objs;
    Arena                                        a_in, a_out, a_x, a_y, a_z, a_w;
    std::vector<std::string>*                    sink = nullptr; // when parallel

    template <class T>
    T& get(const std::string& id)
    {
        return *static_cast<T*>(objs.at(id).get());
    }
    void emit(const Ev& e)
    {
        std::string l = "{\"t\":\"" + name + "\"," + e.str() + "}\n";
        if (sink)
            sink->push_back(l);
        else
            write_all(g_fd, l.data(), l.size());
    }
};

using Handler = std::function<void(Session&, const Args&)>;
inline std::map<std::string, Handler>& table()
{
    static std::map<std::string, Handler> t;
    return t;
}
struct Reg
{
    Reg(const char* n, Handler h) { table()[n] = std::move(h); }
};

inline unsigned g_limit = 25; // seconds per command
inline int      g_meet  = 25; // milliseconds in threads

inline void run_cmd(Session& s, const Args& a, bool par)
{
    if (!par)
    {
        std::snprintf(g_cmd, sizeof g_cmd, "%s", a[0].c_str());
        alarm(g_limit);
    }
    auto it = table().find(a[0]);
    if (it == table().end())
    {
        std::fprintf(stderr, "unknown command %s\n", a[0].c_str());
        g_done = true;
        _exit(7);
    }
    it->second(s, a);
}

// drv <commands> <events> [skip]: run the traces after the first 'skip'
inline int drv_main(int argc, char** argv)
{
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    g_fd           = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (const char* t = getenv("GM_MEET")) g_meet = atoi(t);
    if (const char* t = getenv("GM_LIMIT")) g_limit = (unsigned)atoi(t);
    long skip      = argc > 3 ? std::atol(argv[3]) : 0;
    static char st[65536];
    stack_t     ss = {};
    ss.ss_sp       = st;
    ss.ss_size     = sizeof st;
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM})
    {
        struct sigaction sa = {};
        sa.sa_handler       = on_sig;
        sa.sa_flags         = SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
    atexit(on_exit_);

    struct Tr
    {
        std::string       name;
        std::vector<Args> cmds;
        int               par = 0; // >0: leader of a parallel group of this size
        int               pre = 0; // so many leading commands of the group run once, their objects are shared
    };
    std::vector<Tr> trs;
    std::string     line;
    int             par = 0, pre = 0;
    while (std::getline(in, line))
    {
        Args        a;
        std::size_t i = 0;
        while (i < line.size())
        {
            std::size_t j = line.find(' ', i);
            if (j == std::string::npos) j = line.size();
            if (j > i) a.v.push_back(line.substr(i, j - i));
            i = j + 1;
        }
        if (a.v.empty()) continue;
        if (a[0] == "T")
        {
            trs.push_back({a[1], {}, par, pre});
            par = pre = 0;
        }
        else if (a[0] == "PAR")
            par = (int)a.n(1), pre = a.size() > 2 ? (int)a.n(2) : 0;
        else
            trs.back().cmds.push_back(std::move(a));
    }
    for (std::size_t k = (std::size_t)skip; k < trs.size();)
    {
        std::snprintf(g_trace, sizeof g_trace, "%s", trs[k].name.c_str());
        int n = trs[k].par;
        if (n <= 1)
        {
            Session s;
            s.name = trs[k].name;
            for (auto& c : trs[k].cmds) run_cmd(s, c, false);
            k++;
            continue;
        }
        // n traces, one thread each, started together
        std::snprintf(g_cmd, sizeof g_cmd, "parallel");
        alarm(3 * g_limit);
        std::vector<std::vector<std::string>> sinks((std::size_t)n);
        Session                               common;
        std::vector<std::string>              said;
        std::size_t                           np = (std::size_t)trs[k].pre;
        common.sink                              = &said;
        for (std::size_t i = 0; i < np; i++) run_cmd(common, trs[k].cmds[i], true);
        std::vector<std::thread>              th;
        std::atomic<int>                      ready{0};
        for (int i = 0; i < n; i++)
            th.emplace_back([&, i] {
                auto& cs   = trs[k + (std::size_t)i].cmds;
                auto& name = trs[k + (std::size_t)i].name;
                auto  once = [&](std::vector<std::string>& to) {
                    Session s;
                    s.name = name;
                    s.sink = &to;
                    s.objs = common.objs;
                    for (auto& l : said) to.push_back("{\"t\":\"" + name + l.substr(6)); // no name in these
                    for (std::size_t j = np; j < cs.size(); j++) run_cmd(s, cs[j], true);
                };
                ready++;
                while (ready < n) {}
                auto  t0  = std::chrono::steady_clock::now();
                auto& out = sinks[(std::size_t)i];
                once(out);
                // short traces meet too seldom: again and again for a while; if a run says something else, that is the trace
                for (int m = 0; m < 2000; m++)
                {
                    auto dt = std::chrono::steady_clock::now() - t0;
                    if (dt > std::chrono::milliseconds(4 * g_meet) || (m > 100 && dt > std::chrono::milliseconds(g_meet))) break;
                    std::vector<std::string> again;
                    once(again);
                    if (again != out)
                    {
                        out.swap(again);
                        break;
                    }
                }
            });
        for (auto& t : th) t.join();
        for (auto& v : sinks)
            for (auto& l : v) write_all(g_fd, l.data(), l.size());
        k += (std::size_t)n;
    }
    alarm(0);
    g_done = true;
    return 0;
}

// what a call did besides returning: "" or the kind of exception
template <class F>
std::string guarded(F f)
{
    try
    {
        f();
        return "";
    }
    catch (const std::runtime_error&)
    {
        return "runtime_error";
    }
    catch (const std::exception&)
    {
        return "exception";
    }
    catch (...)
    {
        return "unknown";
    }
}

} // namespace drv
