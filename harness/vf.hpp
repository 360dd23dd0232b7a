// Common part of the conformance drivers.
//
// A driver reads a file of case lines, runs each one against the real
// c4core code, and prints one ndjson event per run:
//     {"o":<op>,"a":[<inputs>],"r":[<observed outcome>]}
// The driver holds no expectations: the TLA+ specification decides
// whether an event is allowed.
//
// case line:  [!]op tok tok ...
//   !       the case violates a precondition: run only in checked builds
//   x<hex>  byte string         -> JSON array of byte values
//   n       null view           -> [-1]
//   <int>   decimal integer     -> number      (npos is written -1)
//   anything else               -> JSON string
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include "c4/error.hpp"

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VF_ASAN 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#  define VF_ASAN 1
#endif

namespace vf {

static const size_t NPOS = (size_t)-1;

//---------------------------------------------------------------- errors
static jmp_buf g_jmp;
static volatile bool g_armed = false;
static volatile int g_errcount = 0;
static std::string *g_errmsg = nullptr;

inline void on_error(const char *msg, size_t len)
{
    ++g_errcount;
    if(g_armed)
    {
        if(g_errmsg) g_errmsg->assign(msg, len);
        g_armed = false;
        longjmp(g_jmp, 1);
    }
    fprintf(stderr, "unexpected error: %.*s\n", (int)len, msg);
    _exit(41);
}

inline void arm_errors()
{
    c4::set_error_flags(c4::ON_ERROR_CALLBACK);
    c4::set_error_callback(on_error);
}

/// run f; return true if it completed, false if the library reported an error
template<class F> bool guarded(F &&f)
{
    arm_errors();
    if(setjmp(g_jmp) == 0)
    {
        g_armed = true;
        f();
        g_armed = false;
        return true;
    }
    g_armed = false;
    return false;
}

//---------------------------------------------------------------- memory
/// An exactly-sized heap block. Under ASan any access outside it is
/// detected; otherwise canary bytes on both sides are checked.
struct Buf
{
    enum : size_t { G = 64 };
    char *raw, *p; size_t n;
    explicit Buf(size_t n_, int fillc = 0x5a) : raw(nullptr), p(nullptr), n(n_)
    {
        #ifdef VF_ASAN
        raw = p = (char*)malloc(n ? n : 1);
        #else
        // at all kinds of addresses, unless objects are to be put there
        size_t off = 0;
        #ifndef VF_ALIGNED
        static size_t count = 0;
        off = (count += 7) % 16;
        #endif
        raw = (char*)malloc(n + 2*G + 16);
        memset(raw, 0xA5, n + 2*G + 16);
        p = raw + G + off;
        #endif
        if(n) memset(p, fillc, n);
    }
    explicit Buf(std::string const& s) : Buf(s.size()) { if(n) memcpy(p, s.data(), n); }
    Buf(Buf const&) = delete;
    Buf& operator=(Buf const&) = delete;
    ~Buf() { free(raw); }
    bool ok() const
    {
        #ifndef VF_ASAN
        for(size_t i = 0; i < G; ++i)
            if((unsigned char)*(p-1-i) != 0xA5 || (unsigned char)p[n+i] != 0xA5)
                return false;
        #endif
        return true;
    }
    std::string str() const { return std::string(p, n); }
};

//---------------------------------------------------------------- output
struct Out
{
    std::string s;
    bool first = true;
    void sep() { if(!first) s += ','; first = false; }
    Out& i(long long v) { sep(); s += std::to_string(v); return *this; }
    Out& sz(size_t v) { return i(v == NPOS ? -1 : (v > 0x3fffffff ? 0x3fffffff : (long long)v)); }
    Out& b(bool v) { sep(); s += v ? "true" : "false"; return *this; }
    Out& str(const char *v) { sep(); s += '"'; s += v; s += '"'; return *this; }
    Out& str(std::string const& v) { return str(v.c_str()); }
    Out& bytes(const char *p, size_t n)
    {
        sep(); s += '[';
        for(size_t k = 0; k < n; ++k) { if(k) s += ','; s += std::to_string((int)(unsigned char)p[k]); }
        s += ']';
        return *this;
    }
    Out& bytes(std::string const& v) { return bytes(v.data(), v.size()); }
    Out& open() { sep(); s += '['; first = true; return *this; }
    Out& close() { s += ']'; first = false; return *this; }
    Out& rawj(std::string const& v) { sep(); s += v; return *this; }
    /// 64-bit magnitude as 4 little-endian 16-bit limbs
    Out& limbs(uint64_t m) { open(); for(int k = 0; k < 4; ++k) { i((long long)((m >> (16*k)) & 0xffff)); } return close(); }
    /// position of [q,q+len[ relative to the block [base,base+n[
    template<class P> Out& view(P const *q, size_t len, P const *base, size_t n)
    {
        open();
        if(q == nullptr) i(-1);
        else if(base != nullptr && q >= base && q <= base + n && len <= (size_t)(base + n - q)) i(q - base);
        else i(-2);
        sz(len);
        return close();
    }
};

//---------------------------------------------------------------- input
struct Args
{
    std::vector<std::string> t;
    size_t size() const { return t.size(); }
    bool isnull(size_t k) const { return t.at(k) == "n"; }
    std::string str(size_t k) const
    {
        std::string const& v = t.at(k);
        std::string r;
        if(v == "n") return r;
        if(v.empty() || v[0] != 'x') { fprintf(stderr, "bad string token %s\n", v.c_str()); _exit(42); }
        auto h = [](char c){ return c <= '9' ? c - '0' : c - 'a' + 10; };
        for(size_t j = 1; j + 1 < v.size(); j += 2) r += (char)((h(v[j]) << 4) | h(v[j+1]));
        return r;
    }
    long long num(size_t k) const { return strtoll(t.at(k).c_str(), nullptr, 10); }
    size_t sz(size_t k) const { long long v = num(k); return v < 0 ? NPOS : (size_t)v; }
    bool flag(size_t k) const { return num(k) != 0; }
    std::string const& word(size_t k) const { return t.at(k); }
};

inline std::string tok2json(std::string const& v)
{
    if(v == "n") return "[-1]";
    if(!v.empty() && v[0] == 'x')
    {
        std::string r = "[";
        auto h = [](char c){ return c <= '9' ? c - '0' : c - 'a' + 10; };
        for(size_t j = 1; j + 1 < v.size(); j += 2)
        {
            if(j > 1) r += ',';
            r += std::to_string((h(v[j]) << 4) | h(v[j+1]));
        }
        return r + "]";
    }
    if(!v.empty() && (isdigit((unsigned char)v[0]) || (v[0] == '-' && v.size() > 1)))
        return v;
    return "\"" + v + "\"";
}

//---------------------------------------------------------------- main loop
/// a handler runs one case; every call of emit() yields one event
using Handler = std::function<void(Args const&, Out&)>;
inline std::map<std::string, Handler>& handlers() { static std::map<std::string, Handler> h; return h; }
static FILE *g_out = stdout;
static std::string g_evprefix;
static long g_idx = 0;

/// emit an event for the current case
inline void emit(Out const& o) { fprintf(g_out, "%ld\t", g_idx); fputs(g_evprefix.c_str(), g_out); fputs(o.s.c_str(), g_out); fputs("]}\n", g_out); }
/// emit an event with explicit inputs
inline void emit_as(std::string const& op, std::string const& ajson, Out const& o)
{ fprintf(g_out, "%ld\t{\"o\":\"%s\",\"a\":[%s],\"r\":[%s]}\n", g_idx, op.c_str(), ajson.c_str(), o.s.c_str()); }

inline int run(int argc, char **argv)
{
    if(argc < 4) { fprintf(stderr, "usage: driver CASES OUT PROGRESS\n"); return 43; }
    FILE *in = fopen(argv[1], "r");
    g_out = fopen(argv[2], "w");
    int fd = open(argv[3], O_RDWR|O_CREAT|O_TRUNC, 0600);
    if(!in || !g_out || fd < 0) { perror("open"); return 43; }
    if(ftruncate(fd, 64) != 0) { perror("ftruncate"); return 43; }
    // the index of the current case survives a crash of the driver
    volatile long *progress = (volatile long*)mmap(nullptr, 64, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    static char iobuf[1<<20];
    setvbuf(g_out, iobuf, _IOFBF, sizeof(iobuf));
    bool checked =
        #ifdef NDEBUG
        false;
        #else
        true;
        #endif
    arm_errors();
    char *line = nullptr; size_t cap = 0; ssize_t n;
    long &idx = g_idx;
    while((n = getline(&line, &cap, in)) > 0)
    {
        ++idx;
        *progress = idx;
        const char *p = line;
        const char *end = line + n;
        if(end > p && end[-1] == '\n') --end;
        bool pre = false;
        if(p < end && *p == '!') { pre = true; ++p; }
        if(pre && !checked) continue;
        Args a;
        std::string op;
        while(p < end)
        {
            const char *q = (const char*)memchr(p, ' ', (size_t)(end - p));
            if(!q) q = end;
            if(op.empty()) op.assign(p, q); else a.t.emplace_back(p, q);
            p = q < end ? q + 1 : end;
        }
        auto it = handlers().find(op);
        if(it == handlers().end()) { fprintf(stderr, "unknown op %s\n", op.c_str()); return 44; }
        g_evprefix = "{\"o\":\"" + op + "\",\"a\":[";
        for(size_t k = 0; k < a.t.size(); ++k) { if(k) g_evprefix += ','; g_evprefix += tok2json(a.t[k]); }
        g_evprefix += "],\"r\":[";
        Out o;
        it->second(a, o);
    }
    fflush(g_out);
    fclose(g_out);
    *progress = -1;
    _exit(0); // no leak report: the error callback longjmps over frames
}

} // namespace vf
