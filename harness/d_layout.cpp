// conformance driver: pairs, padding, sequences, macros and names of types
//
//   pair C HIST    a tight pair of the case C: d (default), c.F.S (with values), f.V, s.V (write one), k (copy), a (assign)
//   pad T N        T with N bytes of padding; minimum N; multiple N; both N and M
//   seq T N        a sequence of N numbers of type T
//   each N         apply a macro to N arguments
//   tname K        the name of the K-th type
//   traits         facts about types
#define VF_ALIGNED
#include "vf.hpp"
#include "c4/types.hpp"
#include "c4/memory_util.hpp"
#include "c4/type_name.hpp"
#include "c4/char_traits.hpp"
#include <memory>
using namespace vf;

static std::vector<std::string> split(std::string const& s, char c)
{
    std::vector<std::string> v(1);
    for(char x : s) { if(x == c) v.emplace_back(); else v.back() += x; }
    return v;
}

//---- pairs
struct E0 {}; struct E1 {}; struct E2 : E0 {};
struct S1 { int8_t v; S1() : v(0) {} S1(int8_t x) : v(x) {} };
struct Pod3 { char v[3]; };
struct Tail { virtual ~Tail() {} int a; char v; Tail() : a(7), v(0) {} };
struct HasE0 { E0 e; int v; };
template<class T> struct V { static void set(T &t, long long x) { t = T(x); } static long long get(T const& t) { return (long long)t; } static T make(long long x) { T t = T(); set(t, x); return t; } };
#define EMPTYV(E) template<> struct V<E> { static void set(E &, long long) {} static long long get(E const&) { return 0; } static E make(long long) { return E(); } };
EMPTYV(E0) EMPTYV(E1) EMPTYV(E2)
#define STRUCTV(E, field) template<> struct V<E> { static void set(E &t, long long x) { t.field = (decltype(t.field + 0))x; } static long long get(E const& t) { return (long long)t.field; } static E make(long long x) { E t = E(); set(t, x); return t; } };
template<> struct V<S1> { static void set(S1 &t, long long x) { t.v = (int8_t)x; } static long long get(S1 const& t) { return t.v; } static S1 make(long long x) { return S1((int8_t)x); } };
template<> struct V<Pod3> { static void set(Pod3 &t, long long x) { t.v[0] = t.v[1] = t.v[2] = (char)x; } static long long get(Pod3 const& t) { return t.v[0] == t.v[1] && t.v[1] == t.v[2] ? (signed char)t.v[0] : -999; } static Pod3 make(long long x) { Pod3 t; set(t, x); return t; } };
template<> struct V<Tail> { static void set(Tail &t, long long x) { t.v = (char)x; t.a = (int)(x + 7); } static long long get(Tail const& t) { return t.a == (signed char)t.v + 7 ? (signed char)t.v : -999; } static Tail make(long long x) { Tail t; set(t, x); return t; } };
template<> struct V<HasE0> { static void set(HasE0 &t, long long x) { t.v = (int)x; } static long long get(HasE0 const& t) { return t.v; } static HasE0 make(long long x) { HasE0 t = HasE0(); t.v = (int)x; return t; } };
template<> struct V<std::string> { static void set(std::string &t, long long x) { t = x ? std::string(40, 'a') + std::to_string(x) : std::string(); } static long long get(std::string const& t) { return t.empty() ? 0 : atoll(t.c_str() + 40); } static std::string make(long long x) { std::string t; set(t, x); return t; } };

// a pair whose two arguments are the same object where the types are equal
template<class F, class S> struct Same { static c4::tight_pair<F, S>* make(void *m, long long x) { return new (m) c4::tight_pair<F, S>(V<F>::make(x), V<S>::make(x)); } };
template<class F> struct Same<F, F> { static c4::tight_pair<F, F>* make(void *m, long long x) { F const f = V<F>::make(x); return new (m) c4::tight_pair<F, F>(f, f); } };
template<class F, class S> void pair(std::string const& name, std::string const& hist, Out &o)
{
    using P = c4::tight_pair<F, S>;
    static_assert(std::is_same<typename P::first_type, F>::value && std::is_same<typename P::second_type, S>::value, "");
    struct Plain { F f; S s; };
    o.sz(sizeof(P)).sz(sizeof(F)).sz(sizeof(S)).sz(sizeof(Plain)).b(std::is_empty<F>::value).b(std::is_empty<S>::value);
    o.open();
    // memory that is not zero
    Buf m(sizeof(P) + 64, 0x33), m2(sizeof(P) + 64, 0x33);
    auto align = [](char *q){ return (void*)(((uintptr_t)q + 31) & ~(uintptr_t)31); };
    P *q = nullptr;
    for(auto const& w : split(hist, '_'))
    {
        auto f = split(w, '.');
        if(w == "d") { q = new (align(m.p)) P(); }
        else if(f[0] == "c") { q = new (align(m.p)) P(V<F>::make(atoi(f[1].c_str())), V<S>::make(atoi(f[2].c_str()))); }
        else if(f[0] == "g") { q = Same<F, S>::make(align(m.p), atoi(f[1].c_str())); }
        // built from the parts of another pair
        else if(f[0] == "p") { P *n = new (align(m2.p)) P(q->first(), q->second()); q->~P(); q = n; std::swap(m.p, m2.p); std::swap(m.raw, m2.raw); }
        else if(f[0] == "f") V<F>::set(q->first(), atoi(f[1].c_str()));
        else if(f[0] == "s") V<S>::set(q->second(), atoi(f[1].c_str()));
        else if(f[0] == "k") { P *n = new (align(m2.p)) P(*q); q->~P(); q = n; std::swap(m.p, m2.p); std::swap(m.raw, m2.raw); }
        else if(f[0] == "a") { P *n = new (align(m2.p)) P(V<F>::make(55), V<S>::make(56)); *n = *q; q->~P(); q = n; std::swap(m.p, m2.p); std::swap(m.raw, m2.raw); }
        P const& c = *q;
        o.open().i(V<F>::get(c.first())).i(V<S>::get(c.second())).b((void const*)&c.first() == (void const*)&q->first() && (void const*)&c.second() == (void const*)&q->second()).close();
    }
    q->~P();
    o.close();
    // the history as a sequence of steps
    std::string hj;
    for(auto const& w : split(hist, '_'))
    {
        auto f = split(w, '.');
        if(f[0] == "g") f = {"c", f[1], f[1]}; else if(f[0] == "p") f[0] = "k";
        hj += (hj.empty() ? "[[\"" : ",[\"") + f[0] + "\"";
        for(size_t k = 1; k < f.size(); ++k) hj += "," + f[k];
        hj += "]";
    }
    emit_as("pair", "\"" + name + "\"," + hj + "]", o);
}

//---- padding
struct Pod5 { char v[5]; };
struct PodIC { int v; char c; };
struct Priv { Priv(int x) : v(x), c((char)x) {} Priv() : v(1), c(1) {} int v; int get() const { return v == c ? v : -999; } private: char c; };
struct Virt { virtual ~Virt() {} Virt(int x) : v(x), c((char)x) {} int v; char c; };
struct Mo { Mo(int x) : p(new int(x)) {} std::unique_ptr<int> p; };
template<class T> int value(T const& t) { return t.v == t.c ? t.v : -999; }
inline int value(Pod5 const& t) { return t.v[0]; }
inline int value(E0 const&) { return 9; }
inline int value(Priv const& t) { return t.get(); }
inline int value(Mo const& t) { return *t.p; }
template<class P, class T> int kept(T const& t) { alignas(16) P p(t); return value((T const&)p); }
template<class T, size_t N, size_t M> void pad1(Out &o, T const& t, size_t k)
{
    using A = c4::Padded<T, N>; using B = c4::MinSized<T, N>; using C = c4::MultSized<T, (M ? M : 1)>; using D = c4::MinMultSized<T, N, (M ? M : 1)>; using U = c4::UbufSized<T>;
    o.sz(sizeof(T)).sz(N).sz(M ? M : 1).sz(sizeof(A)).sz(sizeof(B)).sz(sizeof(C)).sz(sizeof(D)).sz(sizeof(U));
    o.open();
    o.i(value(t)).i(kept<A>(t)).i(kept<B>(t)).i(kept<C>(t));
    // (padded classes have no alignment of their own)
    alignas(16) A p(t); alignas(16) A q(t); T moved(t); alignas(16) A r(std::move(moved));
    // the bytes that were added can be written without changing the value
    memset((char*)(void*)&p + sizeof(T), (int)k, sizeof(A) - sizeof(T));
    q = p;
    o.i(value((T const&)p)).i(value((T const&)q)).i(value((T const&)r)).close();
    emit(o);
}
template<class T> void pad2(Out &o, T const& t, size_t k)
{
    switch(k)
    {
    case 0: pad1<T, 0, 1>(o, t, k); break;   case 1: pad1<T, 1, 2>(o, t, k); break;   case 2: pad1<T, 2, 3>(o, t, k); break;
    case 3: pad1<T, 3, 4>(o, t, k); break;   case 4: pad1<T, 4, 5>(o, t, k); break;   case 5: pad1<T, 5, 7>(o, t, k); break;
    case 6: pad1<T, 7, 8>(o, t, k); break;   case 7: pad1<T, 8, 16>(o, t, k); break;  case 8: pad1<T, 9, 12>(o, t, k); break;
    case 9: pad1<T, 16, 16>(o, t, k); break; case 10: pad1<T, 17, 32>(o, t, k); break; case 11: pad1<T, 31, 64>(o, t, k); break;
    case 12: pad1<T, 32, 10>(o, t, k); break; case 13: pad1<T, 63, 17>(o, t, k); break; case 14: pad1<T, 64, 13>(o, t, k); break;
    default: pad1<T, 65, 16>(o, t, k); break;
    }
}

//---- sequences
template<class T, T... v> void nums(Out &o, c4::integer_sequence<T, v...>)
{
    o.sz(c4::integer_sequence<T, v...>::size()).open();
    long long x[] = { -1, (long long)v... };
    for(size_t k = 1; k < sizeof...(v) + 1; ++k) o.i(x[k]);
    o.close();
    emit(o);
}
template<class T, size_t N> void seq1(Out &o) { nums<T>(o, c4::make_integer_sequence<T, (T)N>()); }
template<class T, class S> struct seqs;
template<class T, size_t... k> struct seqs<T, c4::index_sequence<k...>> { static void call(Out &o, size_t n) { static void (*const f[])(Out&) = { &seq1<T, k>... }; f[n](o); } };
static void big_seq(Out &o, size_t n)
{
    switch(n)
    {
    #define N_(x) case x: nums<size_t>(o, c4::make_index_sequence<x>()); break;
    N_(511) N_(512) N_(513) N_(514) N_(515) N_(516) N_(517) N_(518) N_(519) N_(520) N_(575) N_(576) N_(600) N_(777) N_(1000) N_(1023) N_(1024) N_(1025)
    #undef N_
    default: nums<size_t>(o, c4::index_sequence_for<int, char, E0, E0, float>());
    }
}

//---- macros
#define FE_PUSH(x) v.push_back(#x)
#define FE_AND(x) (v.push_back(#x), true)
static std::vector<std::string> fe1() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1) return v; }
static std::vector<std::string> fs1() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe2() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2) return v; }
static std::vector<std::string> fs2() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe3() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3) return v; }
static std::vector<std::string> fs3() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe4() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4) return v; }
static std::vector<std::string> fs4() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe5() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5) return v; }
static std::vector<std::string> fs5() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe6() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6) return v; }
static std::vector<std::string> fs6() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe7() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7) return v; }
static std::vector<std::string> fs7() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe8() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8) return v; }
static std::vector<std::string> fs8() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe9() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9) return v; }
static std::vector<std::string> fs9() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe10() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10) return v; }
static std::vector<std::string> fs10() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe11() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11) return v; }
static std::vector<std::string> fs11() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe12() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12) return v; }
static std::vector<std::string> fs12() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe13() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13) return v; }
static std::vector<std::string> fs13() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe14() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14) return v; }
static std::vector<std::string> fs14() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe15() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15) return v; }
static std::vector<std::string> fs15() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe16() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16) return v; }
static std::vector<std::string> fs16() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe17() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17) return v; }
static std::vector<std::string> fs17() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe18() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18) return v; }
static std::vector<std::string> fs18() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe19() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19) return v; }
static std::vector<std::string> fs19() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe20() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20) return v; }
static std::vector<std::string> fs20() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe21() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21) return v; }
static std::vector<std::string> fs21() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe22() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22) return v; }
static std::vector<std::string> fs22() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe23() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23) return v; }
static std::vector<std::string> fs23() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe24() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24) return v; }
static std::vector<std::string> fs24() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe25() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25) return v; }
static std::vector<std::string> fs25() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe26() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26) return v; }
static std::vector<std::string> fs26() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe27() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27) return v; }
static std::vector<std::string> fs27() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe28() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28) return v; }
static std::vector<std::string> fs28() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe29() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29) return v; }
static std::vector<std::string> fs29() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe30() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29, w30) return v; }
static std::vector<std::string> fs30() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29, w30) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe31() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29, w30, w31) return v; }
static std::vector<std::string> fs31() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29, w30, w31) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> fe32() { std::vector<std::string> v; C4_FOR_EACH(FE_PUSH, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29, w30, w31, w32) return v; }
static std::vector<std::string> fs32() { std::vector<std::string> v; bool ok = C4_FOR_EACH_SEP(FE_AND, &&, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23, w24, w25, w26, w27, w28, w29, w30, w31, w32) true; if(!ok) v.clear(); return v; }
static std::vector<std::string> (*const g_fe[])() = { &fe1, &fe2, &fe3, &fe4, &fe5, &fe6, &fe7, &fe8, &fe9, &fe10, &fe11, &fe12, &fe13, &fe14, &fe15, &fe16, &fe17, &fe18, &fe19, &fe20, &fe21, &fe22, &fe23, &fe24, &fe25, &fe26, &fe27, &fe28, &fe29, &fe30, &fe31, &fe32 };
static std::vector<std::string> (*const g_fs[])() = { &fs1, &fs2, &fs3, &fs4, &fs5, &fs6, &fs7, &fs8, &fs9, &fs10, &fs11, &fs12, &fs13, &fs14, &fs15, &fs16, &fs17, &fs18, &fs19, &fs20, &fs21, &fs22, &fs23, &fs24, &fs25, &fs26, &fs27, &fs28, &fs29, &fs30, &fs31, &fs32 };
//---- names of types
namespace tn { struct A {}; template<class T> struct B { struct C {}; }; enum class K { z }; }
struct a_rather_long_name_of_a_type_without_any_template_arguments {};
template<class T> void tname1(Out &o)
{
    auto n = c4::type_name<T>(); T t = T(); auto m = c4::type_name(t);
    o.bytes(n.data(), n.size()).bytes(m.data(), m.size());
    emit(o);
}
static void tname(Out &o, size_t k)
{
    switch(k)
    {
    case 0: tname1<int>(o); break; case 1: tname1<float>(o); break; case 2: tname1<double>(o); break; case 3: tname1<char>(o); break; case 4: tname1<bool>(o); break;
    case 5: tname1<unsigned int>(o); break; case 6: tname1<E0>(o); break; case 7: tname1<tn::A>(o); break; case 8: tname1<tn::B<int>>(o); break; case 9: tname1<tn::B<tn::A>>(o); break;
    case 10: tname1<tn::K>(o); break; case 11: tname1<a_rather_long_name_of_a_type_without_any_template_arguments>(o); break; default: tname1<tn::B<int>::C>(o); break;
    }
}
//---- traits
C4_DEFINE_HAS_TYPEDEF(alpha);
C4_DEFINE_HAS_TYPEDEF(beta);
struct Ha { using alpha = int; }; struct Hb { using beta = int; int alpha; }; struct Hab { using alpha = char; typedef float beta; };
struct Small { int a; }; struct Large { char a[64]; }; struct Fat { Fat(); Fat(Fat const&); char c; };
template<class...> struct Tpl {}; template<class...> struct Tpl2 {};
#define M_ONE 1
#define M_TWO 2
#define name12 7
C4_FLATTEN static int flat(int x) { return x + 1; }
template<class T> bool by_value() { return std::is_same<c4::fastcref<T>, T>::value && !std::is_same<c4::fastcref<T>, T const&>::value; }

int main(int argc, char **argv)
{
    auto &h = handlers();
    h["pair"] = [](Args const& a, Out &o){
        std::string const& c = a.word(0); std::string const& s = a.word(1);
        #define P_(name, F, S) if(c == name) { pair<F, S>(c, s, o); return; }
        P_("int_int", int, int) P_("int_char", int, int8_t) P_("char_int", int8_t, int) P_("e_e", E0, E0) P_("e_e1", E0, E1) P_("e1_e", E1, E0) P_("e_int", E0, int) P_("int_e", int, E1)
        P_("e_str", E1, std::string) P_("str_e", std::string, E1) P_("str_str", std::string, std::string) P_("s_s", S1, S1) P_("s_int", S1, int) P_("pod_pod", Pod3, Pod3) P_("pod_e", Pod3, E0) P_("e_pod", E0, Pod3)
        P_("tail_char", Tail, int8_t) P_("char_tail", int8_t, Tail) P_("tail_tail", Tail, Tail) P_("e_tail", E0, Tail) P_("tail_e", Tail, E0) P_("e_has", E0, HasE0) P_("has_e", HasE0, E0) P_("e_derived", E1, E2) P_("long_str", int64_t, std::string)
        _exit(45);
    };
    h["pad"] = [](Args const& a, Out &o){
        std::string const& t = a.word(0); size_t k = a.sz(1);
        if(t == "pod5") pad2(o, Pod5{{3, 3, 3, 3, 3}}, k); else if(t == "podic") pad2(o, PodIC{4, 4}, k); else if(t == "priv") pad2(o, Priv(5), k);
        else if(t == "virt") pad2(o, Virt(6), k); else pad2(o, E0(), k);
    };
    // what can only be moved
    h["padmove"] = [](Args const& a, Out &o){
        int x = (int)a.num(0);
        Mo m(x); alignas(16) c4::Padded<Mo, 3> p(std::move(m)); Mo n(x + 1); alignas(16) c4::Padded<Mo, 0> q(std::move(n)); alignas(16) c4::Padded<Mo, 5> r(x + 2);
        o.i(*p.p).i(*q.p).i(*r.p).b(m.p == nullptr && n.p == nullptr);
        emit(o);
    };
    h["seq"] = [](Args const& a, Out &o){
        std::string const& t = a.word(0); size_t n = a.sz(1);
        using R = c4::make_index_sequence<130>;
        if(t == "size") seqs<size_t, R>::call(o, n); else if(t == "int") seqs<int, R>::call(o, n); else if(t == "u8") seqs<uint8_t, R>::call(o, n); else if(t == "ll") seqs<long long, R>::call(o, n);
        else big_seq(o, n);
    };
    h["each"] = [](Args const& a, Out &o){
        size_t n = a.sz(0);
        for(auto f : { g_fe[n - 1], g_fs[n - 1] }) { o.open(); for(auto const& w : f()) o.bytes(w); o.close(); }
        emit(o);
    };
    h["tname"] = [](Args const& a, Out &o){ tname(o, a.sz(0)); };
    h["traits"] = [](Args const&, Out &o){
        o.open().b(has_alpha<Ha>::value).b(has_beta<Ha>::value).b(has_alpha<Hb>::value).b(has_beta<Hb>::value).b(has_alpha<Hab>::value).b(has_beta<Hab>::value).b(has_alpha<E0>::value).close();
        o.open().b(by_value<int>()).b(by_value<char*>()).b(by_value<Small>()).b(by_value<double>()).b(by_value<Large>()).b(by_value<Fat>()).b(by_value<std::string>()).close();
        o.open().b(c4::is_instance_of_tpl<Tpl, Tpl<>>::value).b(c4::is_instance_of_tpl<Tpl, Tpl<int, E0>>::value).b(c4::is_instance_of_tpl<Tpl, Tpl2<int>>::value).b(c4::is_instance_of_tpl<Tpl, int>::value).close();
        int arr[] = {1, 2, 3, 4, 5};
        o.open().sz(C4_COUNTOF(arr)).i(C4_VERSION_CAT(1, 2, 3)).i(C4_VERSION_CAT(9, 14, 30)).i(C4_XCAT(M_ONE, M_TWO)).i(C4_CAT(name, 12)).i(flat(2)).close();
        o.bytes(C4_XQUOTE(M_ONE)).bytes(C4_QUOTE(M_ONE));
        o.bytes(C4_TXTTY("abc", char), 4).sz(wcslen(C4_TXTTY("abcd", wchar_t)));
        emit(o);
    };
    return run(argc, argv);
}
