// conformance driver: symbols of enumerations and bitmasks
//
//   syms T            the table, seen through iteration
//   offs T            the lengths of the prefixes
//   name T xNAME      look a name up
//   value T xBITS     look a value up (a value is given by the positions of its bits)
//   b2s T xBITS W N   bitmask to text in a buffer of N bytes; W: none, cls, pfx
//   bst T xBITS W     bitmask to stream
//   s2b T xTEXT       text to bitmask, by pointer and length; s2bc: zero-terminated
#include "vf.hpp"
#include "c4/enum.hpp"
#include "c4/bitmask.hpp"
#include <sstream>
#include <type_traits>
using namespace vf;

enum Plain { FOO = 0, BAR, BAZ, BAZAAR = 5 };
enum class Cls { FOO = 0, BAR, FOOT };
enum Mask { BM_NONE = 0, BM_FOO = 1, BM_BAR = 2, BM_BAZ = 4, BM_FOO_BAR = 3, BM_FOO_BAR_BAZ = 7, BM_D4 = 16 };
enum class K : uint16_t { BM_NONE = 0, BM_FOO = 1, BM_BAR = 2, BM_BAZ = 8, BM_FOO_BAR = 3 };
enum class NoNull : uint8_t { FOO_BAR = 3, FOO = 1, BAR = 2, FOO2 = 4, F = 8, x80 = 0x80 };
enum Over : unsigned { O_AB = 3, O_BC = 6, O_C = 4, O_A = 1 };
enum class Wide : uint64_t { z = 0, b0 = 1, b31 = UINT64_C(1) << 31, b32 = UINT64_C(1) << 32, b63 = UINT64_C(1) << 63, mid = UINT64_C(3) << 31, odd = (UINT64_C(1) << 7) | (UINT64_C(1) << 15) | (UINT64_C(1) << 62) };

// many symbols: the value of Vk is k
#define TEN(d) X(d, 0) X(d, 1) X(d, 2) X(d, 3) X(d, 4) X(d, 5) X(d, 6) X(d, 7) X(d, 8) X(d, 9)
#define MANY TEN(0) TEN(1) TEN(2) TEN(3) TEN(4) TEN(5) TEN(6) TEN(7)
enum class Many : uint8_t {
#define X(d, u) V##d##u = 10 * d + u,
MANY
#undef X
};

namespace c4 {
#define SYMS(E, ...) template<> const EnumSymbols<E> esyms<E>() { static const EnumSymbols<E>::Sym rs[] = { __VA_ARGS__ }; return EnumSymbols<E>(rs); }
SYMS(Plain, {FOO, "FOO"}, {BAR, "BAR"}, {BAZ, "BAZ"}, {BAZAAR, "BAZAAR"})
SYMS(Cls, {Cls::FOO, "Cls::FOO"}, {Cls::BAR, "Cls::BAR"}, {Cls::FOOT, "Cls::FOOT"})
template<> size_t eoffs_cls<Cls>() { return 5; }
SYMS(Mask, {BM_NONE, "BM_NONE"}, {BM_FOO, "BM_FOO"}, {BM_BAR, "BM_BAR"}, {BM_BAZ, "BM_BAZ"}, {BM_FOO_BAR, "BM_FOO_BAR"}, {BM_FOO_BAR_BAZ, "BM_FOO_BAR_BAZ"}, {BM_D4, "BM_D4"})
template<> size_t eoffs_pfx<Mask>() { return 3; }
SYMS(K, {K::BM_NONE, "K::BM_NONE"}, {K::BM_FOO, "K::BM_FOO"}, {K::BM_BAR, "K::BM_BAR"}, {K::BM_BAZ, "K::BM_BAZ"}, {K::BM_FOO_BAR, "K::BM_FOO_BAR"})
template<> size_t eoffs_cls<K>() { return 3; }
template<> size_t eoffs_pfx<K>() { return 6; }
SYMS(NoNull, {NoNull::FOO_BAR, "FOO_BAR"}, {NoNull::FOO, "FOO"}, {NoNull::BAR, "BAR"}, {NoNull::FOO2, "FOO2"}, {NoNull::F, "F"}, {NoNull::x80, "x80"})
SYMS(Over, {O_AB, "AB"}, {O_BC, "BC"}, {O_C, "C"}, {O_A, "A"})
SYMS(Wide, {Wide::z, "W_0"}, {Wide::b0, "W_b0"}, {Wide::b31, "W_b31"}, {Wide::b32, "W_b32"}, {Wide::b63, "W_b63"}, {Wide::mid, "W_mid"}, {Wide::odd, "W_odd"})
template<> size_t eoffs_pfx<Wide>() { return 2; }
#define X(d, u) {Many::V##d##u, "V" #d #u},
SYMS(Many, MANY)
#undef X
} // namespace c4

static void bits_out(Out &o, uint64_t v) { o.open(); for(int k = 0; k < 64; ++k) if((v >> k) & 1) o.i(k); o.close(); }
static uint64_t bits_in(std::string const& s) { uint64_t v = 0; for(char c : s) v |= UINT64_C(1) << (unsigned char)c; return v; }
static c4::EnumOffsetType which(std::string const& w) { return w == "none" ? c4::EOFFS_NONE : w == "cls" ? c4::EOFFS_CLS : c4::EOFFS_PFX; }
static const c4::EnumOffsetType all_which[] = { c4::EOFFS_NONE, c4::EOFFS_CLS, c4::EOFFS_PFX };

template<class E> struct D
{
    using I = typename std::underlying_type<E>::type;
    using U = typename std::make_unsigned<I>::type;
    using Sym = typename c4::EnumSymbols<E>::Sym;
    static uint64_t val(E e) { return (uint64_t)(U)(I)e; }
    static long long idx(c4::EnumSymbols<E> const& s, Sym const* p) { return p == nullptr ? 0 : (p >= s.begin() && p < s.end()) ? p - s.begin() + 1 : -1; }
    static void syms(Out &o)
    {
        auto s = c4::esyms<E>();
        o.sz(s.size()).b(s.empty() == (s.size() == 0) && s.end() == s.begin() + s.size());
        o.open();
        for(auto const& p : s)
        {
            o.open(); bits_out(o, val(p.value)); o.bytes(p.name, strlen(p.name));
            for(auto w : all_which) o.bytes(p.name_offs(w), strlen(p.name_offs(w)));
            bool same = false;
            bool ok = guarded([&]{ same = &s[(size_t)(&p - s.begin())] == &p; });
            o.str(ok && same ? "ok" : "bad").close();
        }
        o.close();
        bool ok = guarded([&]{ (void)s[s.size()]; });
        o.str(ok ? "ok" : "err");
        emit(o);
    }
    static void offs(Out &o)
    {
        for(auto w : all_which) o.sz(c4::eoffs<E>(w));
        bool ok = guarded([&]{ (void)c4::eoffs<E>((c4::EnumOffsetType)c4::_EOFFS_LAST); });
        o.str(ok ? "ok" : "err");
        emit(o);
    }
    template<class F> static void got(Out &o, c4::EnumSymbols<E> const& s, F f)
    {
        Sym const *p = nullptr;
        bool ok = guarded([&]{ p = f(); });
        o.open().str(ok ? "ok" : "err").i(ok ? idx(s, p) : 0).close();
    }
    static void name(Args const& a, Out &o)
    {
        auto s = c4::esyms<E>();
        std::string n = a.str(1);
        Buf b(n);
        o.i(idx(s, s.find(b.p, b.n)));
        got(o, s, [&]{ return s.get(b.p, b.n); });
        if(n.find('\0') != std::string::npos) { o.str("no"); emit(o); return; }
        Buf z(std::string(n.c_str(), n.size() + 1));
        o.str("c").i(idx(s, s.find(z.p)));
        got(o, s, [&]{ return s.get(z.p); });
        E e{};
        bool ok = guarded([&]{ e = c4::str2e<E>(z.p); });
        o.open().str(ok ? "ok" : "err"); bits_out(o, ok ? val(e) : 0); o.close();
        emit(o);
    }
    static void value(Args const& a, Out &o)
    {
        auto s = c4::esyms<E>();
        E e = (E)(I)bits_in(a.str(1));
        o.i(idx(s, s.find(e)));
        got(o, s, [&]{ return s.get(e); });
        const char *t = nullptr;
        bool ok = guarded([&]{ t = c4::e2str(e); });
        o.open().str(ok ? "ok" : "err").bytes(ok ? t : "", ok ? strlen(t) : 0).close();
        if(ok) { for(auto w : all_which) { const char *x = c4::e2stroffs(e, w); o.bytes(x, strlen(x)); } const char *x = c4::e2stroffs(e); o.bytes(x, strlen(x)); }
        emit(o);
    }
    static void b2s(Args const& a, Out &o)
    {
        I v = (I)bits_in(a.str(1));
        size_t n = a.sz(3);
        Buf b(n);
        size_t r = 0;
        auto w = which(a.word(2));
        bool scoped = n % 2; // the overload for scoped enumerations, too
        bool ok = guarded([&]{ r = n ? conv(v, b.p, n, w, scoped) : conv(v, nullptr, 0, w, scoped); });
        o.str(!b.ok() ? "wild" : ok ? "ok" : "err").sz(r).bytes(b.str());
        emit(o);
    }
    template<class X = E, typename std::enable_if<c4::is_scoped_enum<X>::value, int>::type = 0>
    static size_t conv(I v, char *p, size_t n, c4::EnumOffsetType w, bool scoped) { return scoped ? c4::bm2str<E>((E)v, p, n, w) : c4::bm2str<E>(v, p, n, w); }
    template<class X = E, typename std::enable_if<!c4::is_scoped_enum<X>::value, int>::type = 0>
    static size_t conv(I v, char *p, size_t n, c4::EnumOffsetType w, bool) { return c4::bm2str<E>(v, p, n, w); }
    template<class X = E, typename std::enable_if<c4::is_scoped_enum<X>::value, int>::type = 0>
    static void strm(std::stringstream &ss, I v, c4::EnumOffsetType w, bool scoped) { if(scoped) c4::bm2stream<E>(ss, (E)v, w); else c4::bm2stream<E>(ss, v, w); }
    template<class X = E, typename std::enable_if<!c4::is_scoped_enum<X>::value, int>::type = 0>
    static void strm(std::stringstream &ss, I v, c4::EnumOffsetType w, bool) { c4::bm2stream<E>(ss, v, w); }
    static void bst(Args const& a, Out &o)
    {
        I v = (I)bits_in(a.str(1));
        std::stringstream ss;
        auto w = which(a.word(2));
        bool ok = guarded([&]{ strm(ss, v, w, (uint64_t)v % 3 == 1); });
        o.str(ok ? "ok" : "err").bytes(ok ? ss.str() : std::string());
        emit(o);
    }
    static void s2b(Args const& a, Out &o, bool c)
    {
        std::string t = a.str(1);
        if(c) t.push_back('\0');
        Buf b(t);
        I v = 0;
        bool ok = guarded([&]{ v = c ? c4::str2bm<E>(b.p) : c4::str2bm<E>(b.p, b.n); });
        o.str(ok ? "ok" : "err"); bits_out(o, ok ? (uint64_t)(U)v : 0);
        emit(o);
    }
    static void run(std::string const& op, Args const& a, Out &o)
    {
        if(op == "syms") syms(o); else if(op == "offs") offs(o); else if(op == "name") name(a, o); else if(op == "value") value(a, o);
        else if(op == "b2s") b2s(a, o); else if(op == "bst") bst(a, o); else if(op == "s2b") s2b(a, o, false); else if(op == "s2bc") s2b(a, o, true);
        else _exit(44);
    }
};

int main(int argc, char **argv)
{
    for(const char *op : {"syms", "offs", "name", "value", "b2s", "bst", "s2b", "s2bc"})
    {
        std::string s = op;
        handlers()[s] = [s](Args const& a, Out &o) {
            std::string const& t = a.word(0);
            if(t == "plain") D<Plain>::run(s, a, o); else if(t == "cls") D<Cls>::run(s, a, o); else if(t == "mask") D<Mask>::run(s, a, o);
            else if(t == "mcls") D<K>::run(s, a, o); else if(t == "nonull") D<NoNull>::run(s, a, o); else if(t == "over") D<Over>::run(s, a, o);
            else if(t == "wide") D<Wide>::run(s, a, o); else if(t == "many") D<Many>::run(s, a, o); else _exit(44);
        };
    }
    return run(argc, argv);
}
