// conformance driver: spans, blobs, size conversions (C++11)
//
//   span <class> <index type> <N> step...     a history of one span over an array of N elements
//   srel <class> <index type> <N> o1 s1 o2 s2 relations of two spans over one array (o = -1: null)
//   scmp <class> <index type> <class> <index type> xA xB   comparison of two spans of elements
//   szconv <out> <in> <value>
//   blob <what> <n>
#define VF_ALIGNED
#include "vf.hpp"
#include "c4/span.hpp"
#include "c4/blob.hpp"
#include "c4/szconv.hpp"
#include <type_traits>
#include <memory>
#include <sys/mman.h>
using namespace vf;

using E = uint16_t;

struct Arr
{
    Buf b; size_t n; E *p;
    bool ghost; // addresses only: the elements are never touched
    explicit Arr(size_t n_) : b(n_ > 100000 ? 0 : n_ * sizeof(E)), n(n_), p((E*)b.p), ghost(n_ > 100000)
    {
        if(ghost) { p = (E*)mmap(nullptr, n * sizeof(E), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if((void*)p == MAP_FAILED) _exit(45); }
        else for(size_t k = 0; k < n; ++k) p[k] = (E)(100 + k);
    }
    ~Arr() { if(ghost) munmap(p, n * sizeof(E)); }
};

static void parse(std::string const& w, char &c, std::vector<long long> &v)
{
    c = w[0];
    size_t p = 1;
    while(p < w.size() && w[p] == ':')
    {
        char *e = nullptr;
        v.push_back(strtoll(w.c_str() + p + 1, &e, 10));
        p = (size_t)(e - w.c_str());
    }
}

//---------------------------------------------------------------- one class
template<class S> long long offs_of(S const&) { return -1; }
template<class T, class I> long long offs_of(c4::spanrsl<T, I> const& s) { return (long long)s.offset(); }

template<class S, class I> struct Ops
{
    static void assign3(S &, E *, I, I) { _exit(44); }
    static void assign4(S &, E *, I, I, I) { _exit(44); }
    static S make3(E *, I, I) { _exit(44); }
    static S orig(S const&, int) { _exit(44); }
};
template<class I> struct Ops<c4::spanrs<E, I>, I>
{
    using S = c4::spanrs<E, I>;
    static void assign3(S &s, E *p, I a, I b) { s.assign(p, a, b); }
    static void assign4(S &, E *, I, I, I) { _exit(44); }
    static S make3(E *p, I a, I b) { return S(p, a, b); }
    static S orig(S const&, int) { _exit(44); }
};
template<class I> struct Ops<c4::spanrsl<E, I>, I>
{
    using S = c4::spanrsl<E, I>;
    static void assign3(S &s, E *p, I a, I b) { s.assign(p, a, b); }
    static void assign4(S &s, E *p, I a, I b, I o) { s.assign(p, a, b, o); }
    static S make3(E *p, I a, I b) { return S(p, a, b); }
    static S orig(S const& s, int how)
    {
        if(how == 0) return s.original();
        S t = s;
        if(how == 1) { c4::span<E, I> o = t.template original<c4::span>(); return S(o.data(), o.size()); }
        c4::spanrs<E, I> o = t.template original<c4::spanrs>(); return S(o.data(), o.size(), o.capacity());
    }
};

/// everything there is to see of a span
template<class S> void observe(Out &o, S &s, Arr const& a)
{
    S const& cs = s;
    o.i(s.data() == nullptr ? -1 : s.data() - a.p).i((long long)s.size()).i((long long)s.capacity()).i(offs_of(s));
    // the elements, through every way of getting at them: all must agree
    std::vector<long long> v[6];
    bool sane = s.data() == nullptr ? s.size() == 0 : (s.data() >= a.p && s.data() <= a.p + a.n && (unsigned long long)s.size() <= (unsigned long long)(a.p + a.n - s.data()));
    bool same = sane;
    if(sane && a.ghost)
    {
        same = s.empty() == (s.size() == 0) && s.data() == cs.data() && s.begin() == s.data() && s.end() - s.begin() == (ptrdiff_t)s.size() && cs.end() - cs.begin() == (ptrdiff_t)s.size()
            && s.cend() - s.cbegin() == (ptrdiff_t)s.size() && s.rend() - s.rbegin() == (ptrdiff_t)s.size() && cs.crend() - cs.crbegin() == (ptrdiff_t)s.size();
        if(s.size() > 0) same = same && &s.front() == s.data() && &s.back() - s.data() == (ptrdiff_t)s.size() - 1 && &cs.back() == &s.back() && &s[s.size() - 1] == &s.back();
        if(sizeof(s.size()) == 8) same = same && (size_t)s.byte_size() == (size_t)s.size() * sizeof(E);
    }
    else if(sane)
    {
        for(size_t k = 0; k < (size_t)s.size(); ++k) v[0].push_back(s[(decltype(s.size()))k]);
        for(size_t k = 0; k < (size_t)s.size(); ++k) v[1].push_back(cs[(decltype(s.size()))k]);
        for(auto &x : s) v[2].push_back(x);
        for(auto &x : cs) v[3].push_back(x);
        for(auto it = s.cbegin(); it != s.cend(); ++it) v[4].push_back(*it);
        for(auto it = s.rbegin(); it != s.rend(); ++it) v[5].insert(v[5].begin(), *it);
        for(int k = 1; k < 6; ++k) same = same && v[k] == v[0];
        v[5].clear(); for(auto it = cs.rbegin(); it != cs.rend(); ++it) v[5].insert(v[5].begin(), *it);
        same = same && v[5] == v[0];
        v[5].clear(); for(auto it = cs.crbegin(); it != cs.crend(); ++it) v[5].insert(v[5].begin(), *it);
        same = same && v[5] == v[0];
        same = same && s.empty() == v[0].empty() && s.data() == cs.data();
        if(!v[0].empty()) same = same && s.front() == v[0].front() && s.back() == v[0].back() && cs.front() == v[0].front() && cs.back() == v[0].back() && &s.front() == s.data() && &s.back() == s.data() + (v[0].size() - 1);
        if(sizeof(s.size()) > 1 || s.size() < 60) same = same && (size_t)s.byte_size() == v[0].size() * sizeof(E);
        same = same && s.value_size() == sizeof(E) && s.elm_size() == sizeof(E) && s.type_size() == sizeof(E);
    }
    o.open(); for(long long x : v[0]) o.i(x); o.close();
    o.b(same);
}

template<class S, class I> void conversions(Out &o, S &s, Arr const& a);
template<class T, class I> void conv_span(Out &o, c4::span<T, I> v, Arr const& a) { o.open().i(v.data() == nullptr ? -1 : v.data() - a.p).i((long long)v.size()).i((long long)v.capacity()).i(-1).close(); }
template<class T, class I> void conv_rs(Out &o, c4::spanrs<T, I> v, Arr const& a) { o.open().i(v.data() == nullptr ? -1 : v.data() - a.p).i((long long)v.size()).i((long long)v.capacity()).i(-1).close(); }
template<class T, class I> void conv_rsl(Out &o, c4::spanrsl<T, I> v, Arr const& a) { o.open().i(v.data() == nullptr ? -1 : v.data() - a.p).i((long long)v.size()).i((long long)v.capacity()).i((long long)v.offset()).close(); }
template<class I> void convs(Out &o, c4::span<E, I> &s, Arr const& a) { c4::span<const E, I> c = s; conv_span(o, c, a); conv_span(o, c4::span<E, I>(s), a); }
template<class I> void convs(Out &o, c4::spanrs<E, I> &s, Arr const& a) { c4::span<E, I> v = s; conv_span(o, v, a); c4::spanrs<const E, I> c = s; conv_rs(o, c, a); conv_rs(o, c4::spanrs<E, I>(s), a); }
template<class I> void convs(Out &o, c4::spanrsl<E, I> &s, Arr const& a)
{ c4::span<E, I> v = s; conv_span(o, v, a); c4::spanrs<E, I> w = s; conv_rs(o, w, a); c4::spanrsl<const E, I> c = s; conv_rsl(o, c, a); conv_rsl(o, c4::spanrsl<E, I>(s), a); }

template<class S, class I> void history(Args const& a)
{
    Arr arr((size_t)a.num(2));
    S s;
    std::string aj = "\"" + a.word(0) + "\",\"" + a.word(1) + "\"," + a.word(2) + ",[", rj;
    for(size_t k = 3; k < a.size(); ++k)
    {
        char c; std::vector<long long> v;
        parse(a.word(k), c, v);
        if(k > 3) aj += ',';
        aj += std::string("[\"") + c + "\"";
        for(long long x : v) aj += "," + std::to_string(x);
        aj += "]";
        auto n = [&](size_t q) -> I { return (I)v[q]; };
        Out cv;
        S prev = s;
        bool ok = guarded([&]{
            switch(c)
            {
            case 'N': s = v.size() == 2 ? S(arr.p + v[0], n(1)) : Ops<S, I>::make3(arr.p + v[0], n(1), n(2)); break;
            case 'A': if(v.size() == 2) s.assign(arr.p + v[0], n(1)); else if(v.size() == 3) Ops<S, I>::assign3(s, arr.p + v[0], n(1), n(2)); else Ops<S, I>::assign4(s, arr.p + v[0], n(1), n(2), n(3)); break;
            case 'D': s = S(); break;
            case 's': s = v.size() == 2 ? s.subspan(n(0), n(1)) : s.subspan(n(0)); break;
            case 'g': s = v.size() == 2 ? s.range(n(0), n(1)) : s.range(n(0)); break;
            case 'f': s = s.first(n(0)); break;
            case 'l': s = s.last(n(0)); break;
            case 'R': s.resize(n(0)); break;
            case 'T': s.rtrim(n(0)); break;
            case 'L': s.ltrim(n(0)); break;
            case 'C': s.clear(); break;
            case 'o': s = Ops<S, I>::orig(s, (int)v[0]); break;
            case 'k': { S t = s; S u; u = t; S w(std::move(u)); s = std::move(w); break; }
            case 'c': convs(cv, s, arr); break;
            case 'w': s[n(0)] = (E)v[1]; break;
            case 'W': { E *p = s.data(); if(p) p[v[0]] = (E)v[1]; break; }
            case 'F': s.front() = (E)v[0]; break;
            case 'B': s.back() = (E)v[0]; break;
            default: _exit(44);
            }
        });
        (void)prev;
        Out o;
        o.open().str(!arr.b.ok() ? "wild" : ok ? "ok" : "err");
        if(!guarded([&]{ observe(o, s, arr); })) o.str("observe failed");
        o.open(); if(!cv.s.empty()) o.rawj(cv.s); o.close();
        o.close();
        if(!rj.empty()) rj += ',';
        rj += o.s;
        if(!ok) { for(size_t q = k + 1; q < a.size(); ++q) { char c2; std::vector<long long> v2; parse(a.word(q), c2, v2); } break; }
    }
    aj += "]";
    Out o; o.rawj(rj);
    emit_as("span", aj, o);
}

template<class S, class I> void relations(Args const& a, Out &o)
{
    Arr arr((size_t)a.num(2)), other(4);
    auto mk = [&](size_t k) { return a.num(k) < 0 ? S() : a.num(k) >= 1000 && !arr.ghost ? S(other.p, (I)2) : S(arr.p + a.num(k), (I)a.num(k + 1)); };
    S x = mk(3), y = mk(5);
    S l, r;
    bool ok = guarded([&]{ l = x.compll(y); r = x.complr(y); });
    auto base = [&](S const& s) -> long long { return s.data() == nullptr ? -1 : (s.data() >= arr.p && s.data() <= arr.p + arr.n) ? s.data() - arr.p : (s.data() >= other.p && s.data() <= other.p + 4) ? 1000 + (s.data() - other.p) : -2; };
    o.str(ok ? "ok" : "err").b(x.is_subspan(y)).b(x.same_span(y));
    o.open().i(base(l)).i((long long)l.size()).close().open().i(base(r)).i((long long)r.size()).close();
    emit(o);
}

template<class A, class B> void compare_(Args const& a, Out &o, A const& x, B const& y)
{
    o.b(x == y).b(x != y).b(x < y).b(x <= y).b(x > y).b(x >= y);
    (void)a;
    emit(o);
}

template<template<class, class> class S1, class I1, template<class, class> class S2, class I2> void compare(Args const& a, Out &o)
{
    std::string s = a.str(4), t = a.str(5);
    Buf p(s.size() * sizeof(int)), q(t.size() * sizeof(int));
    int *ip = (int*)p.p, *iq = (int*)q.p;
    for(size_t k = 0; k < s.size(); ++k) ip[k] = (int)(signed char)s[k] * 100000;
    for(size_t k = 0; k < t.size(); ++k) iq[k] = (int)(signed char)t[k] * 100000;
    bool ok = guarded([&]{ compare_(a, o, S1<int, I1>(ip, (I1)s.size()), S2<int, I2>(iq, (I2)t.size())); });
    if(!ok) { o.s.clear(); o.first = true; o.str("err"); emit(o); }
    // where one is the beginning or the end of the other: the same, sharing the elements
    std::string const& lg = s.size() >= t.size() ? s : t, &sm = s.size() >= t.size() ? t : s;
    int *il = s.size() >= t.size() ? ip : iq;
    for(size_t at : {size_t(0), lg.size() - sm.size()})
    {
        if(lg.compare(at, sm.size(), sm) != 0) continue;
        int *xs = s.size() >= t.size() ? il : il + at, *xt = s.size() >= t.size() ? il + at : il;
        o.s.clear(); o.first = true;
        ok = guarded([&]{ compare_(a, o, S1<int, I1>(xs, (I1)s.size()), S2<int, I2>(xt, (I2)t.size())); });
        if(!ok) { o.s.clear(); o.first = true; o.str("err"); emit(o); }
    }
}

template<class I> void by_class(Args const& a)
{
    std::string const& c = a.word(0);
    if(c == "span") history<c4::span<E, I>, I>(a);
    else if(c == "rs") history<c4::spanrs<E, I>, I>(a);
    else if(c == "rsl") history<c4::spanrsl<E, I>, I>(a);
    else _exit(44);
}
template<class I> void rel_class(Args const& a, Out &o)
{
    std::string const& c = a.word(0);
    if(c == "span") relations<c4::span<E, I>, I>(a, o);
    else if(c == "rs") relations<c4::spanrs<E, I>, I>(a, o);
    else if(c == "rsl") relations<c4::spanrsl<E, I>, I>(a, o);
    else _exit(44);
}
template<template<class, class> class S1, class I1, template<class, class> class S2> void cmp3(Args const& a, Out &o)
{
    std::string const& i = a.word(3);
    if(i == "size") compare<S1, I1, S2, size_t>(a, o);
    else if(i == "int") compare<S1, I1, S2, int>(a, o);
    else if(i == "u8") compare<S1, I1, S2, uint8_t>(a, o);
    else _exit(44);
}
template<template<class, class> class S1, class I1> void cmp2(Args const& a, Out &o)
{
    std::string const& c = a.word(2);
    if(c == "span") cmp3<S1, I1, c4::span>(a, o);
    else if(c == "rs") cmp3<S1, I1, c4::spanrs>(a, o);
    else if(c == "rsl") cmp3<S1, I1, c4::spanrsl>(a, o);
    else _exit(44);
}
template<template<class, class> class S1> void cmp1(Args const& a, Out &o)
{
    std::string const& i = a.word(1);
    if(i == "size") cmp2<S1, size_t>(a, o);
    else if(i == "int") cmp2<S1, int>(a, o);
    else if(i == "u8") cmp2<S1, uint8_t>(a, o);
    else _exit(44);
}

/// spans made from whole arrays and from lists
template<template<class, class> class S, class I> void makes(Args const& a, Out &o)
{
    std::string const& how = a.word(2);
    E arr[5] = {100, 101, 102, 103, 104};
    E one[1] = {100};
    bool ok = true;
    auto see = [&](S<E, I> s) {
        ok = ok && (s.data() == arr || s.data() == one);
        o.i((long long)s.size()).i((long long)s.capacity()).i(offs_of(s)).open();
        for(E x : s) o.i(x);
        o.close();
    };
    o.open();
    if(how == "array5") see(S<E, I>(arr));
    else if(how == "array1") see(S<E, I>(one));
    else if(how == "assign5") { S<E, I> s(one, 1); s.assign(arr); see(s); }
    else if(how == "assign1") { S<E, I> s(arr + 2, 3); s.assign(one); see(s); }
    else _exit(44);
    o.close().b(ok);
    emit(o);
}
template<template<class, class> class S> void makes_list(Args const& a, Out &o)
{
    std::string const& how = a.word(2);
    using L = std::initializer_list<const E>;
    L l0 = {}, l1 = {100}, l3 = {100, 101, 102};
    bool ok = true;
    auto see = [&](S<const E, size_t> s, L l) {
        ok = ok && (l.size() == 0 || s.data() == l.begin());
        o.i((long long)s.size()).i((long long)s.capacity()).i(offs_of(s)).open();
        for(E x : s) o.i(x);
        o.close();
    };
    o.open();
    if(how == "list0") see(S<const E, size_t>(c4::aggregate, l0), l0);
    else if(how == "list1") see(S<const E, size_t>(c4::aggregate, l1), l1);
    else if(how == "list3") see(S<const E, size_t>(c4::aggregate, l3), l3);
    else if(how == "lassign1") { S<const E, size_t> s(l3.begin() + 1, 2); s.assign(c4::aggregate, l1); see(s, l1); }
    else if(how == "lassign3") { S<const E, size_t> s(l1.begin(), 1); s.assign(c4::aggregate, l3); see(s, l3); }
    else _exit(44);
    o.close().b(ok);
    emit(o);
}
template<template<class, class> class S> void make_of(Args const& a, Out &o)
{
    std::string const& i = a.word(1);
    if(a.word(2)[0] == 'l') makes_list<S>(a, o);
    else if(i == "size") makes<S, size_t>(a, o);
    else if(i == "int") makes<S, int>(a, o);
    else if(i == "u8") makes<S, uint8_t>(a, o);
    else _exit(44);
}

/// two spans with different index types are the same when they start and end alike
template<template<class, class> class S1, template<class, class> class S2> void same_(Args const& a, Out &o)
{
    Arr arr((size_t)a.num(2));
    auto at = [&](size_t k) -> E* { return a.num(k) < 0 ? nullptr : arr.p + a.num(k); };
    S1<E, size_t> x(at(3), (size_t)a.num(4));
    S2<E, int> y(at(5), (int)a.num(6));
    S2<E, uint8_t> z(at(5), (uint8_t)a.num(6));
    bool r[4] = {};
    bool ok = guarded([&]{ r[0] = x.same_span(y); r[1] = y.same_span(x); r[2] = x.same_span(z); r[3] = z.same_span(y); });
    o.str(ok ? "ok" : "err").b(r[0]).b(r[1]).b(r[2]).b(r[3]);
    emit(o);
}

//---------------------------------------------------------------- size conversions
template<class O, class N> void conv(long long v, Out &o)
{
    long long r = 0;
    bool ok = guarded([&]{ r = (long long)c4::szconv<O>((N)v); });
    o.str(ok ? "ok" : "err").i(ok ? r : 0);
    emit(o);
}
template<class O> void conv_in(Args const& a, Out &o)
{
    std::string const& i = a.word(1);
    long long v = a.num(2);
    if(i == "i8") conv<O, int8_t>(v, o); else if(i == "u8") conv<O, uint8_t>(v, o);
    else if(i == "i16") conv<O, int16_t>(v, o); else if(i == "u16") conv<O, uint16_t>(v, o);
    else if(i == "i32") conv<O, int32_t>(v, o); else if(i == "u32") conv<O, uint32_t>(v, o);
    else if(i == "i64") conv<O, int64_t>(v, o); else if(i == "u64") conv<O, uint64_t>(v, o);
    else _exit(44);
}

//---------------------------------------------------------------- blobs
template<class B> void blob_(Args const& a, Out &o)
{
    struct P3 { char c[3]; };
    static double d; static uint32_t arr[7]; static P3 parr[5]; static char c;
    std::string const& w = a.word(0);
    size_t n = a.sz(1);
    B b(c), m(c);
    const void *base = nullptr;
    if(w == "dbl") { b = B(d); m = d; base = &d; }
    else if(w == "chr") { b = B(c); m = c; base = &c; }
    else if(w == "arr") { b = B(arr); m = arr; base = arr; }
    else if(w == "parr") { b = B(parr); m = parr; base = parr; }
    else if(w == "ptr") { b = B(arr, n); m = b; base = arr; }
    else if(w == "pptr") { b = B(parr, n); m = b; base = parr; }
    else if(w == "void") { b = B((void*)arr, n); m = b; base = arr; }
    else _exit(44);
    c4::cblob cb = b; B cp(b); B mv(std::move(cp));
    o.b(b.buf == (decltype(b.buf))base && m.buf == b.buf && cb.buf == b.buf && mv.buf == b.buf).sz(b.len).b(m.len == b.len && cb.len == b.len && mv.len == b.len);
    emit(o);
}

int main(int argc, char **argv)
{
    auto &h = handlers();
    h["span"] = [](Args const& a, Out&) {
        std::string const& i = a.word(1);
        if(i == "size") by_class<size_t>(a); else if(i == "int") by_class<int>(a); else if(i == "u8") by_class<uint8_t>(a); else if(i == "i8") by_class<int8_t>(a); else _exit(44);
    };
    h["srel"] = [](Args const& a, Out &o) {
        std::string const& i = a.word(1);
        if(i == "size") rel_class<size_t>(a, o); else if(i == "int") rel_class<int>(a, o); else if(i == "u8") rel_class<uint8_t>(a, o); else _exit(44);
    };
    h["smake"] = [](Args const& a, Out &o) {
        std::string const& c = a.word(0);
        if(c == "span") make_of<c4::span>(a, o); else if(c == "rs") make_of<c4::spanrs>(a, o); else if(c == "rsl") make_of<c4::spanrsl>(a, o); else _exit(44);
    };
    h["ssame"] = [](Args const& a, Out &o) {
        std::string const& c = a.word(0), &d = a.word(1);
        if(c == "span" && d == "span") same_<c4::span, c4::span>(a, o); else if(c == "span" && d == "rs") same_<c4::span, c4::spanrs>(a, o); else if(c == "span") same_<c4::span, c4::spanrsl>(a, o);
        else if(c == "rs" && d == "span") same_<c4::spanrs, c4::span>(a, o); else if(c == "rs" && d == "rs") same_<c4::spanrs, c4::spanrs>(a, o); else if(c == "rs") same_<c4::spanrs, c4::spanrsl>(a, o);
        else if(d == "span") same_<c4::spanrsl, c4::span>(a, o); else if(d == "rs") same_<c4::spanrsl, c4::spanrs>(a, o); else same_<c4::spanrsl, c4::spanrsl>(a, o);
    };
    h["scmp"] = [](Args const& a, Out &o) {
        std::string const& c = a.word(0);
        if(c == "span") cmp1<c4::span>(a, o); else if(c == "rs") cmp1<c4::spanrs>(a, o); else if(c == "rsl") cmp1<c4::spanrsl>(a, o); else _exit(44);
    };
    h["szconv"] = [](Args const& a, Out &o) {
        std::string const& i = a.word(0);
        if(i == "i8") conv_in<int8_t>(a, o); else if(i == "u8") conv_in<uint8_t>(a, o);
        else if(i == "i16") conv_in<int16_t>(a, o); else if(i == "u16") conv_in<uint16_t>(a, o);
        else if(i == "i32") conv_in<int32_t>(a, o); else if(i == "u32") conv_in<uint32_t>(a, o);
        else if(i == "i64") conv_in<int64_t>(a, o); else if(i == "u64") conv_in<uint64_t>(a, o); else _exit(44);
    };
    h["blob"] = [](Args const& a, Out &o) { blob_<c4::blob>(a, o); };
    h["cblob"] = [](Args const& a, Out &o) { blob_<c4::cblob>(a, o); };
    return run(argc, argv);
}
