// conformance driver: bits, masks and integer powers
//
//   bit T xBITS          lowest and highest bit of the value with these bits; T: u8 u16 u32 u64 ull
//   bitct T K            the same at compile time, for the K-th constant of the table
//   mask T F L           the mask of the bits [F,L[
//   maskct T K           the same at compile time, for the K-th pair of the table
//   ipow T E xB N        B to the N-th; T the type of the base, E of the exponent
//   ipowct T E K N       the same with the K-th base of the table given at compile time, in both ways
//   ipowf T E M N        powers of 2^M as T in {float, double}
//   rem S M              bytes missing to the minimum, to the multiple
#include <cmath>
#include <limits>
#include "vf.hpp"
#include "c4/types.hpp"
#include "c4/char_traits.hpp"
#ifdef G_PORTABLE // as with a compiler without intrinsics
#undef __has_builtin
#define __has_builtin(x) 0
#endif
#include "c4/memory_util.hpp"
using namespace vf;

static uint64_t bits_in(std::string const& s) { uint64_t v = 0; for(char c : s) v |= UINT64_C(1) << (unsigned char)c; return v; }
static void bits_out(Out &o, uint64_t v) { o.open(); for(int k = 0; k < 64; ++k) if((v >> k) & 1) o.i(k); o.close(); }

template<class I> void lsb_msb(Out &o, uint64_t v)
{
    unsigned l = 0, m = 0;
    bool ok = guarded([&]{ l = c4::lsb((I)v); m = c4::msb((I)v); });
    o.str(ok ? "ok" : "err").i(l).i(m);
    emit(o);
}

//---- constants
template<class I, I... v> struct ct_list
{
    static void bits(Out &o, size_t k)
    {
        static const uint64_t val[] = { (uint64_t)v... };
        static const unsigned l[] = { (unsigned)c4::lsb11<I, v>::value... }, m[] = { (unsigned)c4::msb11<I, v>::value... };
        k %= sizeof...(v);
        bits_out(o, val[k]); o.i(l[k]).i(m[k]);
        emit(o);
    }
};
template<class I, class S> struct ct_from1;
template<class I, size_t... k> struct ct_from1<I, c4::index_sequence<k...>> : ct_list<I, (I)(k + 1)...> {};
using ct8 = ct_from1<uint8_t, c4::make_index_sequence<255>>;
using ct16 = ct_list<uint16_t, 1, 2, 3, 0x80, 0xff, 0x100, 0x180, 0x7fff, 0x8000, 0xffff, 0x4040, 0xa000>;
using ct32 = ct_list<uint32_t, 1, 2, 0x80, 0x8000, 0x10000, 0x18000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x40000000, 0x300, 0x80000001u>;
using ct64 = ct_list<uint64_t, 1, 6, UINT64_C(0x80000000), UINT64_C(0x100000000), UINT64_C(0x180000000), UINT64_C(0x8000000000000000), UINT64_C(0xffffffffffffffff), UINT64_C(0x7fffffffffffffff), UINT64_C(0xc000000000000000), UINT64_C(0xffffffff00000000), UINT64_C(0x8000000000000001)>;
using cti8 = ct_list<int8_t, 1, 2, 12, 64, 127>;
using cti32 = ct_list<int32_t, 1, 2, 12, 0x10000, 0x7fffffff, 0x40000000>;
using cti64 = ct_list<int64_t, 1, 40, INT64_C(0x7fffffffffffffff), INT64_C(0x4000000000000000), INT64_C(0x100000000)>;

//---- masks
template<class I> uint64_t u(I v) { return (uint64_t)(typename std::make_unsigned<I>::type)v; }
template<class I> void mask(Out &o, size_t f, size_t l) { bits_out(o, u(c4::contiguous_mask<I>((I)f, (I)l))); emit(o); }
template<class I, size_t f, size_t l> void maskct1(Out &o) { o.sz(f).sz(l); bits_out(o, u((I)c4::contiguous_mask11<I, (I)f, (I)l>::value)); emit(o); }
// all pairs f <= l <= W, in the order of their code f * (W + 1) + l
template<class I, size_t W, size_t code> struct pair_ct
{
    static void call(Out &o) { maskct1<I, (code / (W + 1) <= code % (W + 1) ? code / (W + 1) : code % (W + 1)), (code % (W + 1))>(o); }
};
template<class I, size_t W, class S> struct pairs_ct;
template<class I, size_t W, size_t... k> struct pairs_ct<I, W, c4::index_sequence<k...>>
{
    static void call(Out &o, size_t c) { static void (*const f[])(Out&) = { &pair_ct<I, W, k>::call... }; f[c % sizeof...(k)](o); }
};
template<class I, size_t W> void maskct(Out &o, size_t c) { pairs_ct<I, W, c4::make_index_sequence<(W + 1) * (W + 1)>>::call(o, c); }

//---- powers
template<class B> void out_int(Out &o, B v)
{
    bool neg = v < B(0);
    uint64_t m = neg ? (uint64_t)0 - (uint64_t)(int64_t)v : (uint64_t)v;
    o.open().b(neg).limbs(m).close();
}
template<class B, class E> void ipow1(Out &o, std::string const& b, long long n)
{
    B base = b[0] == '-' ? (B)-(B)strtoll(b.c_str() + 1, nullptr, 10) : (B)strtoull(b.c_str(), nullptr, 10);
    out_int(o, base); out_int(o, c4::ipow(base, (E)n));
    emit(o);
}
template<class B, B base, class E> void ipow2(Out &o, long long n)
{
    out_int(o, base); out_int(o, c4::ipow<B, base>((E)n)); out_int(o, c4::ipow<B, int, (int)base>((E)n));
    emit(o);
}
template<class B, class E> void ipow2k(Out &o, size_t k, long long n)
{
    switch(k)
    {
    case 0: ipow2<B, B(1), E>(o, n); break;
    case 1: ipow2<B, B(2), E>(o, n); break;
    case 2: ipow2<B, B(3), E>(o, n); break;
    case 3: ipow2<B, B(10), E>(o, n); break;
    case 4: ipow2<B, B(7), E>(o, n); break;
    case 5: ipow2<B, B(0), E>(o, n); break;
    default: ipow2<B, B(16), E>(o, n); break;
    }
}
template<class B, class E> void ipow2ks(Out &o, size_t k, long long n)
{
    switch(k)
    {
    case 7: ipow2<B, B(-1), E>(o, n); break;
    case 8: ipow2<B, B(-2), E>(o, n); break;
    case 9: ipow2<B, B(-3), E>(o, n); break;
    case 10: ipow2<B, B(-10), E>(o, n); break;
    default: ipow2k<B, E>(o, k, n);
    }
}
template<class T, class E> void ipowf(Out &o, int m, long long n)
{
    T r = c4::ipow(std::ldexp(T(1), m), (E)n);
    int e = 0; T f = std::frexp(r, &e);
    o.b(f == T(0.5)).i(e - 1);
    emit(o);
}
template<class F> void with_b(std::string const& t, F f)
{
    if(t == "i8") f(int8_t(0)); else if(t == "u8") f(uint8_t(0)); else if(t == "i16") f(int16_t(0)); else if(t == "u16") f(uint16_t(0));
    else if(t == "i32") f(int32_t(0)); else if(t == "u32") f(uint32_t(0)); else if(t == "i64") f(int64_t(0)); else f(uint64_t(0));
}
// (no generic lambdas: this is also built as C++11)
struct PowE { Out &o; std::string b; long long n; std::string e;
    template<class B> void operator()(B) const { if(e == "int") ipow1<B, int>(o, b, n); else if(e == "uint") ipow1<B, unsigned>(o, b, n); else if(e == "i8") ipow1<B, int8_t>(o, b, n); else if(e == "u8") ipow1<B, uint8_t>(o, b, n); else ipow1<B, uint64_t>(o, b, n); } };
struct PowCt { Out &o; size_t k; long long n; std::string e;
    template<class B> typename std::enable_if<std::is_signed<B>::value>::type operator()(B) const { if(e == "int") ipow2ks<B, int>(o, k, n); else if(e == "i8") ipow2ks<B, int8_t>(o, k, n); else ipow2ks<B, unsigned>(o, k, n); }
    template<class B> typename std::enable_if<!std::is_signed<B>::value>::type operator()(B) const { if(e == "int") ipow2k<B, int>(o, k, n); else if(e == "i8") ipow2k<B, int8_t>(o, k, n); else ipow2k<B, unsigned>(o, k, n); } };
struct MaskRt { Out &o; size_t f, l; template<class B> void operator()(B) const { mask<B>(o, f, l); } };

#if __cplusplus >= 201402L
// usable in constant expressions where the library says so
static_assert(c4::lsb(uint32_t(8)) == 3u && c4::msb(uint64_t(9)) == 3u && c4::ipow(2, 10) == 1024 && c4::contiguous_mask(1, 3) == 6, "");
#endif

int main(int argc, char **argv)
{
    auto &h = handlers();
    h["bit"] = [](Args const& a, Out &o){
        uint64_t v = bits_in(a.str(1)); std::string const& t = a.word(0);
        if(t == "u8") lsb_msb<uint8_t>(o, v); else if(t == "u16") lsb_msb<uint16_t>(o, v); else if(t == "u32") lsb_msb<uint32_t>(o, v);
        else if(t == "u64") lsb_msb<unsigned long>(o, v); else lsb_msb<unsigned long long>(o, v);
    };
    h["bitct"] = [](Args const& a, Out &o){
        std::string const& t = a.word(0); size_t k = a.sz(1);
        if(t == "u8") ct8::bits(o, k); else if(t == "u16") ct16::bits(o, k); else if(t == "u32") ct32::bits(o, k); else if(t == "u64") ct64::bits(o, k);
        else if(t == "i8") cti8::bits(o, k); else if(t == "i32") cti32::bits(o, k); else cti64::bits(o, k);
    };
    h["mask"] = [](Args const& a, Out &o){ with_b(a.word(0), MaskRt{o, a.sz(1), a.sz(2)}); };
    h["maskct"] = [](Args const& a, Out &o){
        std::string const& t = a.word(0); size_t k = a.sz(1);
        if(t == "u8") maskct<uint8_t, 8>(o, k); else if(t == "i8") maskct<int8_t, 7>(o, k); else if(t == "u16") maskct<uint16_t, 16>(o, k); else if(t == "i32") maskct<int32_t, 16>(o, k);
        else {
            static void (*const f[])(Out&) = { &maskct1<uint64_t,0,64>, &maskct1<uint64_t,0,63>, &maskct1<uint64_t,1,64>, &maskct1<uint64_t,31,33>, &maskct1<uint64_t,32,64>, &maskct1<uint64_t,63,64>, &maskct1<uint64_t,0,32>, &maskct1<uint64_t,64,64>, &maskct1<uint64_t,7,40>, &maskct1<uint64_t,31,32>, &maskct1<uint64_t,0,0> };
            f[k % (sizeof(f) / sizeof(f[0]))](o);
        }
    };
    h["ipow"] = [](Args const& a, Out &o){ with_b(a.word(0), PowE{o, a.word(2), a.num(3), a.word(1)}); };
    h["ipowct"] = [](Args const& a, Out &o){ with_b(a.word(0), PowCt{o, a.sz(2), a.num(3), a.word(1)}); };
    h["ipowf"] = [](Args const& a, Out &o){
        int m = (int)a.num(2); long long n = a.num(3); bool s = a.word(1) == "int";
        if(a.word(0) == "float") { if(s) ipowf<float, int>(o, m, n); else ipowf<float, unsigned>(o, m, n); }
        else { if(s) ipowf<double, int>(o, m, n); else ipowf<double, unsigned>(o, m, n); }
    };
    h["rem"] = [](Args const& a, Out &o){ o.sz(c4::min_remainder(a.sz(0), a.sz(1))).sz(c4::mult_remainder(a.sz(0), a.sz(1))); emit(o); };
    h["chars"] = [](Args const& a, Out &o){ size_t n = a.sz(0); o.sz(c4::num_needed_chars<char>(n)).sz(c4::num_needed_chars<wchar_t>(n)).sz(sizeof(wchar_t)); emit(o); };
    return run(argc, argv);
}
