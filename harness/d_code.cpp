// conformance driver: base64 and UTF-8
#include "vf.hpp"
#include "c4/substr.hpp"
#include "c4/charconv.hpp"
#include "c4/format.hpp"
#include "c4/base64.hpp"
#include "c4/utf.hpp"
#include "c4/std/string.hpp"
using namespace vf;
using c4::csubstr;
using c4::substr;

static bool g_corrupt = false;
template<class F> void all_sizes(size_t n, F f)
{
    Out o;
    bool ok = guarded([&]{
        std::vector<std::string> bufs;
        o.str("ok"); o.open();
        for(size_t k = 0; k <= n; ++k)
        {
            Buf b(k);
            o.sz(f(b));
            if(!b.ok()) g_corrupt = true;
            bufs.push_back(b.str());
        }
        o.close(); o.open();
        for(auto const& b : bufs) o.bytes(b);
        o.close();
    });
    if(!ok) { o = Out(); o.str("err"); }
    if(g_corrupt) { g_corrupt = false; o = Out(); o.str("corrupt"); }
    emit(o);
}

struct Rec { int32_t a; uint16_t b; uint16_t c; };
template<class T> void typed(Args const& a)
{
    std::string bytes = a.str(1);
    T v;
    if(bytes.size() != sizeof(T)) { fprintf(stderr, "bad size\n"); _exit(42); }
    memcpy(&v, bytes.data(), sizeof(T));
    Out o;
    bool ok = guarded([&]{
        T const& cv = v;
        char buf[256]; substr s(buf);
        size_t n1 = c4::to_chars(s, c4::fmt::base64(cv));
        std::string t1(buf, n1);
        size_t n2 = c4::to_chars(s, c4::fmt::cbase64(v));
        std::string t2(buf, n2);
        size_t n3 = c4::format(s, "<{}>", c4::fmt::base64(cv));
        std::string t3(buf, n3);
        std::string t4;
        c4::catrs(&t4, c4::fmt::cbase64(v), ';');
        T back; memset(&back, 0x33, sizeof(back));
        auto w = c4::fmt::base64(back);
        size_t n5 = c4::from_chars(csubstr(t1.data(), t1.size()), &w);
        o.str("ok").bytes(t1).bytes(t2).bytes(t3).bytes(t4).sz(n5).bytes((const char*)&back, sizeof(back));
    });
    if(!ok) { o = Out(); o.str("err"); }
    emit(o);
}

int main(int argc, char **argv)
{
    auto &h = handlers();
    h["enc"] = [](Args const& a, Out&) {
        Buf d(a.str(0));
        bool nul = a.isnull(0);
        std::string keep = d.str();
        all_sizes(a.sz(1), [&](Buf &b){ size_t r = c4::base64_encode(substr(b.p, b.n), nul ? c4::cblob((void const*)nullptr, 0) : c4::cblob((void const*)d.p, d.n)); if(!d.ok() || d.str() != keep) g_corrupt = true; return r; });
    };
    h["encf"] = [](Args const& a, Out&) { // through to_chars
        Buf d(a.str(0));
        all_sizes(a.sz(1), [&](Buf &b){ return b.n % 2 ? c4::to_chars(substr(b.p, b.n), c4::fmt::cbase64(csubstr(d.p, d.n))) : c4::to_chars(substr(b.p, b.n), c4::fmt::base64(csubstr(d.p, d.n))); });
    };
    auto cyclic = [](std::string const& pat, size_t n) { std::string s; while(s.size() < n) s += pat; s.resize(n); return s; };
    h["encbig"] = [=](Args const& a, Out& o) { // pattern, repeated to n bytes
        Buf d(cyclic(a.str(0), a.sz(1)));
        size_t L = (d.n + 2) / 3 * 4, r0 = 0, r = 0;
        Buf b(L + 1);
        bool ok = guarded([&]{ r0 = c4::base64_encode(substr(), c4::cblob((void const*)d.p, d.n)); r = c4::base64_encode(substr(b.p, b.n), c4::cblob((void const*)d.p, d.n)); });
        o.str(!ok ? "err" : !b.ok() || !d.ok() ? "corrupt" : "ok").sz(r0).sz(r).bytes(b.str());
        Out in; in.bytes(d.str());
        emit_as("encbig", in.s, o);
    };
    h["decbig"] = [=](Args const& a, Out& o) { // pattern, repeated to n groups of four
        Buf d(cyclic(a.str(0), 4 * a.sz(1)));
        size_t r0 = 0, r = 0;
        bool v = false;
        Buf b(3 * a.sz(1) + 1);
        bool ok = guarded([&]{ v = c4::base64_valid(csubstr(d.p, d.n)); r0 = c4::base64_decode(csubstr(d.p, d.n), c4::blob((void*)nullptr, 0)); r = c4::base64_decode(csubstr(d.p, d.n), c4::blob((void*)b.p, b.n)); });
        o.str(!ok ? "err" : !b.ok() || !d.ok() ? "corrupt" : "ok").b(v).sz(r0).sz(r).bytes(b.str());
        Out in; in.bytes(d.str());
        emit_as("decbig", in.s, o);
    };
    h["valid"] = [](Args const& a, Out& o) {
        Buf d(a.str(0));
        bool v = false;
        if(guarded([&]{ v = c4::base64_valid(a.isnull(0) ? csubstr() : csubstr(d.p, d.n)); })) o.str("ok").b(v); else o.str("err");
        emit(o);
    };
    h["dec"] = [](Args const& a, Out&) {
        Buf d(a.str(0));
        bool nul = a.isnull(0);
        all_sizes(a.sz(1), [&](Buf &b){ return c4::base64_decode(nul ? csubstr() : csubstr(d.p, d.n), c4::blob((void*)b.p, b.n)); });
    };
    h["decf"] = [](Args const& a, Out&) {
        Buf d(a.str(0));
        all_sizes(a.sz(1), [&](Buf &b){ auto w = c4::fmt::base64(substr(b.p, b.n)); return c4::from_chars(csubstr(d.p, d.n), &w); });
    };
    h["typed"] = [](Args const& a, Out&) {
        std::string const& t = a.word(0);
        if(t == "u8") typed<uint8_t>(a);
        else if(t == "u16") typed<uint16_t>(a);
        else if(t == "i32") typed<int32_t>(a);
        else if(t == "u64") typed<uint64_t>(a);
        else if(t == "d") typed<double>(a);
        else if(t == "rec") typed<Rec>(a);
        else _exit(44);
    };
    h["typedarr"] = [](Args const& a, Out& o) { // array of n u16, as an array and as pointer and count
        std::string bytes = a.str(0);
        uint16_t arr[5];
        memcpy(arr, bytes.data(), sizeof(arr));
        bool ok = guarded([&]{
            char buf[256]; substr s(buf);
            uint16_t const (&carr)[5] = arr;
            std::string t1(buf, c4::to_chars(s, c4::fmt::base64(carr)));
            size_t cnt = a.sz(1);
            std::string t2(buf, c4::to_chars(s, c4::fmt::cbase64((uint16_t const*)arr, cnt)));
            uint16_t back[5]; memset(back, 0x5a, sizeof(back));
            auto w = c4::fmt::base64(back);
            size_t n3 = c4::from_chars(csubstr(t2.data(), t2.size()), &w);
            o.str("ok").bytes(t1).bytes(t2).sz(n3).bytes((const char*)back, sizeof(back));
        });
        if(!ok) { o = Out(); o.str("err"); }
        emit(o);
    };
    // ---------------------------------------------------------------- UTF-8
    h["codes"] = [](Args const& a, Out& o) { // first count
        uint32_t first = (uint32_t)a.num(0), n = (uint32_t)a.num(1);
        bool bad = false;
        bool ok = guarded([&]{
            o.str("ok"); o.open();
            for(uint32_t k = 0; k < n; ++k)
            {
                Buf b(4);
                size_t r = c4::decode_code_point((uint8_t*)b.p, b.n, first + k);
                if(!b.ok() || r > 4) bad = true;
                else o.bytes(b.p, r);
            }
            o.close();
        });
        if(!ok || bad) { o = Out(); o.str(bad ? "corrupt" : "err"); }
        emit(o);
    };
    h["code"] = [](Args const& a, Out& o) { // code as big-endian bytes, buffer size
        uint32_t code = 0; for(unsigned char c : a.str(0)) code = (code << 8) | c;
        Buf b(a.sz(1));
        bool ok = guarded([&]{ size_t r = c4::decode_code_point((uint8_t*)b.p, b.n, code); o.str("ok").sz(r).bytes(b.p, r <= b.n ? r : b.n); });
        if(!ok) { o = Out(); o.str("err"); }
        if(!b.ok()) { o = Out(); o.str("corrupt"); }
        emit(o);
    };
    h["hex"] = [](Args const& a, Out& o) { // text, buffer size
        Buf t(a.str(0)); Buf b(a.sz(1));
        bool ok = guarded([&]{
            substr r = c4::decode_code_point(substr(b.p, b.n), csubstr(t.p, t.n));
            o.str("ok").view(r.str, r.len, b.p, b.n).bytes(b.p, r.len <= b.n ? r.len : 0);
        });
        if(!ok) { o = Out(); o.str("err"); }
        if(!b.ok()) { o = Out(); o.str("corrupt"); }
        emit(o);
    };
    return run(argc, argv);
}
