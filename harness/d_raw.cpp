// conformance driver: raw memory and hashes
//
//   repeat xPAT N        fill memory with N times the pattern
//   zero T N O           set N elements of type T to zero, at element O of 12; T: u8 u32 u64 void one
//   ovl A NA B NB        do [A,A+NA[ and [B,B+NB[ overlap
//   algn T A N           is the address A a multiple of N (0: of the alignment of T)
//   hash W xD xD ...     hash the pieces one after the other with W bits; the digest after each piece
//   space C              is it white space
#define VF_ALIGNED
#include "vf.hpp"
#include "c4/types.hpp"
#include "c4/memory_util.hpp"
#include "c4/hash.hpp"
#include "c4/char_traits.hpp"
using namespace vf;

template<class R> void digest(Out &o, R v) { o.open(); for(size_t k = 0; k < sizeof(R); ++k) o.i((long long)((v >> (8 * k)) & 0xff)); o.close(); }
template<size_t W> void hash(Args const& a, Out &o)
{
    c4::fnv1a_t<W> h;
    o.open(); digest(o, h.digest());
    for(size_t k = 1; k < a.size(); ++k) { Buf b(a.str(k)); h.update(b.p, b.n); digest(o, h.digest()); digest(o, h.digest()); }
    o.close();
}
template<class T> void zero(Out &o, size_t n, size_t at, int how)
{
    Buf b(12 * sizeof(T));
    T *p = (T*)b.p + at;
    if(how == 0) c4::mem_zero(p, n); else if(how == 1) c4::mem_zero((void*)p, n * sizeof(T)); else c4::mem_zero(p);
    o.sz(sizeof(T)).bytes(b.str()).b(b.ok());
    emit(o);
}
int main(int argc, char **argv)
{
    auto &h = handlers();
    h["repeat"] = [](Args const& a, Out &o){
        Buf p(a.str(0)); size_t n = a.sz(1); Buf d(p.n * n);
        bool ok = guarded([&]{ c4::mem_repeat(d.p, p.p, p.n, n); });
        o.str(ok ? "ok" : "err").bytes(d.str()).b(d.ok() && p.ok() && p.str() == a.str(0));
        emit(o);
    };
    // inside of a larger memory, with the pattern right next to it
    h["repin"] = [](Args const& a, Out &o){
        std::string pat = a.str(0); size_t n = a.sz(1), before = a.sz(2);
        Buf m(pat.size() * (n + 1) + 7);
        char *p = before ? m.p : m.p + pat.size() * n, *d = before ? m.p + pat.size() : m.p;
        memcpy(p, pat.data(), pat.size());
        bool ok = guarded([&]{ c4::mem_repeat(d, p, pat.size(), n); });
        o.str(ok ? "ok" : "err").bytes(m.str()).b(m.ok());
        emit(o);
    };
    // destination and pattern overlap: refused
    h["repov"] = [](Args const& a, Out &o){
        std::string pat = a.str(0); size_t n = a.sz(1), at = a.sz(2);
        Buf m(pat.size() * (n + 1));
        memcpy(m.p + at, pat.data(), pat.size());
        bool ok = guarded([&]{ c4::mem_repeat(m.p, m.p + at, pat.size(), n); });
        o.str(ok ? "ok" : "err");
        emit(o);
    };
    h["zero"] = [](Args const& a, Out &o){
        std::string const& t = a.word(0); size_t n = a.sz(1), at = a.sz(2);
        if(t == "u8") zero<uint8_t>(o, n, at, 0); else if(t == "u16") zero<uint16_t>(o, n, at, 0); else if(t == "u32") zero<uint32_t>(o, n, at, 0); else if(t == "u64") zero<uint64_t>(o, n, at, 0);
        else if(t == "void") zero<uint16_t>(o, n, at, 1); else if(t == "one") zero<uint32_t>(o, n, at, 2); else zero<uint64_t>(o, n, at, 2);
    };
    h["ovl"] = [](Args const& a, Out &o){
        static char m[128];
        char *p = m + a.num(0), *q = m + a.num(2);
        o.b(c4::mem_overlaps(p, q, a.sz(1), a.sz(3))); emit(o);
    };
    h["algn"] = [](Args const& a, Out &o){
        uintptr_t ad = (uintptr_t)a.num(1) << (a.size() > 3 ? a.num(3) : 0), n = (uintptr_t)a.num(2); std::string const& t = a.word(0);
        bool r;
        if(t == "u8") r = n ? c4::is_aligned((uint8_t*)ad, n) : c4::is_aligned((uint8_t*)ad);
        else if(t == "u16") r = n ? c4::is_aligned((uint16_t*)ad, n) : c4::is_aligned((uint16_t*)ad);
        else if(t == "u32") r = n ? c4::is_aligned((uint32_t*)ad, n) : c4::is_aligned((uint32_t*)ad);
        else r = n ? c4::is_aligned((const uint64_t*)ad, n) : c4::is_aligned((const uint64_t*)ad);
        o.b(r); emit(o);
    };
    h["hash"] = [](Args const& a, Out &o){
        if(a.num(0) == 32) hash<32>(a, o); else hash<64>(a, o);
        std::string all; for(size_t k = 1; k < a.size(); ++k) all += a.str(k);
        Buf b(all);
        digest(o, c4::hash_bytes(b.p, b.n));
        emit(o);
    };
    h["space"] = [](Args const& a, Out &o){
        char c = (char)a.num(0); wchar_t w = (wchar_t)a.num(0);
        bool in = false, win = false;
        for(size_t k = 0; k < c4::char_traits<char>::num_whitespace_chars; ++k) in |= c4::char_traits<char>::whitespace_chars[k] == c;
        for(size_t k = 0; k < c4::char_traits<wchar_t>::num_whitespace_chars; ++k) win |= c4::char_traits<wchar_t>::whitespace_chars[k] == w;
        o.b(c4::isspace(c)).b(c4::isspace(w)).b(in).b(win).sz(c4::char_traits<char>::num_whitespace_chars).sz(c4::char_traits<wchar_t>::num_whitespace_chars);
        emit(o);
    };
    return run(argc, argv);
}
