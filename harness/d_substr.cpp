// conformance driver: string views (substr.hpp and the std:: adapters)
#include "vf.hpp"
#include "c4/substr.hpp"
#include "c4/std/string.hpp"
#include "c4/std/vector.hpp"
#if __cplusplus >= 201703L
#include <string_view>
#include "c4/std/string_view.hpp"
#endif
#include <sstream>
using namespace vf;
using c4::csubstr;
using c4::substr;

static bool g_corrupt = false;
static void chk(Buf const& d, Out &o) { if(!d.ok()) g_corrupt = true; o.bytes(d.p, d.n); }

// string arguments are in blocks of their own; then, where their text occurs in the first
// argument, the query is asked once more with parts of that itself (its first, its last
// occurrence), and where the first is the beginning of the second, with that part of it
enum Place { APART, FIRST, LAST, INSIDE };
static Place g_place = APART;
static Buf const* g_host = nullptr; // the block of the first argument
static size_t g_shared = 0;         // how many arguments there were to be placed so
static size_t g_k = 0;              // which one was the first

// run a read-only query on both flavours of view
template<class V, class F> void run1(Args const& a, F f, Place place = APART)
{
    Buf own(place == INSIDE ? a.str(g_k) : a.str(0));
    Buf part(0);
    char *const praw = part.p;
    if(place == INSIDE) { part.p = own.p; part.n = a.str(0).size(); }
    Buf &b = place == INSIDE ? part : own;
    g_place = place; g_host = &own; g_shared = 0;
    V s;
    if(!a.isnull(0)) s = V(b.p, b.n);
    Out o;
    bool ok = guarded([&]{ o.str("ok"); f(s, b, o); });
    if(!ok) { o = Out(); o.str("err"); }
    if(!own.ok() || g_corrupt) { g_corrupt = false; o = Out(); o.str("corrupt"); }
    if(b.str() != a.str(0)) { o = Out(); o.str("modified"); }
    part.p = praw; part.n = 0;
    g_place = APART;
    if(place != INSIDE || g_shared) emit(o);
    if(place == APART && g_shared)
    {
        run1<V>(a, f, FIRST);
        run1<V>(a, f, LAST);
        if(!a.isnull(0) && a.str(g_k).compare(0, a.str(0).size(), a.str(0)) == 0) run1<V>(a, f, INSIDE);
    }
}
template<class F> void run2(Args const& a, F f)
{
    run1<csubstr>(a, f);
    run1<substr>(a, f);
}
// run a modifying operation; emits result, then the whole content
template<class F> void runw(Args const& a, F f)
{
    g_host = nullptr;
    Buf b(a.str(0));
    substr s;
    if(!a.isnull(0)) s = substr(b.p, b.n);
    Out o;
    bool ok = guarded([&]{ o.str("ok"); f(s, b, o); o.bytes(b.p, b.n); });
    if(!ok) { o = Out(); o.str("err"); }
    if(!b.ok() || g_corrupt) { g_corrupt = false; o = Out(); o.str("corrupt"); }
    emit(o);
}
#define Q(name, ...) h[name] = [](Args const& a, Out&) { run2(a, [&](auto s, Buf &b, Out &o) { (void)b; __VA_ARGS__; }); }
#define W(name, ...) h[name] = [](Args const& a, Out&) { runw(a, [&](substr s, Buf &b, Out &o) { (void)b; __VA_ARGS__; }); }
#define VIEW(expr) do { auto v_ = (expr); o.view((char const*)v_.str, v_.len, (char const*)b.p, b.n); } while(0)
// a further string argument
struct Arg2
{
    Buf b; csubstr v;
    Arg2(Args const& a, size_t k) : b(a.str(k))
    {
        if(a.isnull(k)) return;
        v = csubstr(b.p, b.n);
        if(!g_host) return;
        if(g_place == INSIDE) { if(k == g_k) { ++g_shared; v = csubstr(g_host->p, g_host->n); } return; }
        if(g_shared++ == 0 && g_place == APART) g_k = k;
        if(g_place == APART) return;
        std::string t = g_host->str();
        size_t at = g_place == FIRST ? t.find(b.str()) : t.rfind(b.str());
        if(at != std::string::npos) v = csubstr(g_host->p + at, b.n);
    }
    operator csubstr() const { return v; }
};

static int sgn(int v) { return v < 0 ? -1 : (v > 0 ? 1 : 0); }
template<class A, class B> void cmpops(Out &o, A const& x, B const& y)
{
    o.open(); o.b(x == y); o.b(x != y); o.b(x < y); o.b(x > y); o.b(x <= y); o.b(x >= y); o.close();
}

template<size_t N> void cmparr(Out &o, csubstr s, std::string const& t)
{
    char arr[N + 1];
    memcpy(arr, t.c_str(), N + 1);
    char const (&ca)[N + 1] = arr;
    cmpops(o, s, ca);
    cmpops(o, ca, s);
}

// the ways of making a view of an array of N characters and a terminator
template<size_t N> void makearr(Out &o, std::string const& t)
{
    char arr[N + 1];
    memcpy(arr, t.c_str(), N + 1);
    char const (&ca)[N + 1] = arr;
    #define SHOW(v) do { o.bytes((char const*)v.str, v.len); o.b(v.str == arr); } while(0)
    { substr v(arr); SHOW(v); } { csubstr v(ca); SHOW(v); }
    { substr v; v.assign(arr); SHOW(v); } { csubstr v; v.assign(ca); SHOW(v); }
    { substr v; v = arr; SHOW(v); } { csubstr v; v = ca; SHOW(v); }
    { substr v = c4::to_substr(arr); SHOW(v); } { csubstr v = c4::to_csubstr(ca); SHOW(v); }
    { substr x(arr); substr v = c4::to_substr(x); SHOW(v); csubstr w = c4::to_csubstr(x); SHOW(w); csubstr u = c4::to_csubstr(csubstr(x)); SHOW(u); csubstr y = x; SHOW(y); }
    { substr v(arr, N); SHOW(v); } { substr v(arr, arr + N); SHOW(v); } { substr v; v.assign(arr, N); SHOW(v); } { substr v; v.assign(arr, arr + N); SHOW(v); }
    { csubstr v; v.assign(ca, N); SHOW(v); }
    // terminated
    char *p = arr; char const *cp = arr;
    { substr v(p); SHOW(v); } { csubstr v(cp); SHOW(v); } { csubstr v(p); SHOW(v); }
    { substr v; v.assign(p); SHOW(v); } { csubstr v; v.assign(cp); SHOW(v); } { csubstr v; v.assign(p); SHOW(v); }
    { substr v; v = p; SHOW(v); } { csubstr v; v = cp; SHOW(v); } { csubstr v; v = p; SHOW(v); }
    { substr v = c4::to_substr(p); SHOW(v); } { csubstr v = c4::to_csubstr(cp); SHOW(v); } { csubstr v = c4::to_csubstr(p); SHOW(v); }
    // emptied
    { substr v(arr); v = nullptr; o.b(v.str == nullptr && v.len == 0); } { substr v(arr); v.clear(); o.b(v.str == nullptr && v.len == 0); }
    { csubstr v(ca); v = nullptr; o.b(v.str == nullptr && v.len == 0); } { csubstr v(ca); v.clear(); o.b(v.str == nullptr && v.len == 0); }
    { substr v(nullptr); o.b(v.str == nullptr && v.len == 0); } { csubstr v((char const*)nullptr); o.b(v.str == nullptr && v.len == 0); }
    { csubstr v(ca); v = (char const*)nullptr; o.b(v.str == nullptr && v.len == 0); } { csubstr v(ca); v.assign((char const*)nullptr); o.b(v.str == nullptr && v.len == 0); }
    #undef SHOW
}

int main(int argc, char **argv)
{
    auto &h = handlers();
#ifdef G_SEL
    h["make"] = [](Args const& a, Out&) { Out o; std::string t = a.str(0);
        bool ok = guarded([&]{ o.str("ok");
        switch(t.size()) { case 0: makearr<0>(o, t); break; case 1: makearr<1>(o, t); break; case 2: makearr<2>(o, t); break; case 3: makearr<3>(o, t); break;
        case 4: makearr<4>(o, t); break; case 5: makearr<5>(o, t); break; case 6: makearr<6>(o, t); break; default: o.str("toolong"); } });
        if(!ok) { o = Out(); o.str("err"); }
        emit(o); };
    Q("cindex", decltype(s) const cs = s; o.i((unsigned char)cs[a.sz(1)]); o.i((unsigned char)*(cs.data() + a.sz(1))); o.i((unsigned char)*(cs.begin() + a.sz(1))); o.sz((size_t)(cs.end() - cs.begin())));
    Q("cends", decltype(s) const cs = s; o.i((unsigned char)cs.front()); o.i((unsigned char)cs.back()));
    // ---- selection
    Q("sub1",  VIEW(s.sub(a.sz(1))));
    Q("sub2",  VIEW(s.sub(a.sz(1), a.sz(2))));
    Q("range1", VIEW(s.range(a.sz(1))));
    Q("range", VIEW(s.range(a.sz(1), a.sz(2))));
    Q("first", VIEW(s.first(a.sz(1))));
    Q("last",  VIEW(s.last(a.sz(1))));
    Q("offs",  VIEW(s.offs(a.sz(1), a.sz(2))));
    Q("left_of",   VIEW(s.left_of(a.sz(1))));
    Q("left_of_i", VIEW(s.left_of(a.sz(1), a.flag(2))));
    Q("right_of",   VIEW(s.right_of(a.sz(1))));
    Q("right_of_i", VIEW(s.right_of(a.sz(1), a.flag(2))));
    // the sub-view is [off,off+num[ of the same buffer
    Q("left_of_sub",  VIEW(s.left_of(csubstr(b.p + a.sz(1), a.sz(2)))));
    Q("right_of_sub", VIEW(s.right_of(csubstr(b.p + a.sz(1), a.sz(2)))));
    Q("index", o.i((unsigned char)s[a.sz(1)]));
    Q("front", o.i((unsigned char)s.front()));
    Q("back", o.i((unsigned char)s.back()));
    Q("info", o.b(s.empty()); o.b(s.not_empty()); o.sz(s.size()); o.b(s.has_str());
        o.b(s.begin() == s.str); o.b(s.end() == s.str + s.len); o.b(s.data() == s.str);
        o.b(s == nullptr); o.b(s != nullptr); std::string it; for(char c : s) it += c; o.bytes(it));
    // two views on the same buffer: [1,2[ and [3,4[ as (off,len)
    Q("rel", csubstr x(b.p + a.sz(1), a.sz(2)); csubstr y(b.p + a.sz(3), a.sz(4)); (void)s;
        o.b(x.is_sub(y)); o.b(x.is_super(y)); o.b(x.overlaps(y)));
    // ---- trim / strip
    Q("triml_c", VIEW(s.triml((char)a.num(1))));
    Q("trimr_c", VIEW(s.trimr((char)a.num(1))));
    Q("trim_c",  VIEW(s.trim((char)a.num(1))));
    Q("triml_s", Arg2 x(a, 1); VIEW(s.triml(x)));
    Q("trimr_s", Arg2 x(a, 1); VIEW(s.trimr(x)));
    Q("trim_s",  Arg2 x(a, 1); VIEW(s.trim(x)));
    Q("stripl", Arg2 x(a, 1); VIEW(s.stripl(x)));
    Q("stripr", Arg2 x(a, 1); VIEW(s.stripr(x)));
    Q("unquoted", VIEW(s.unquoted()));
#endif
#ifdef G_LOOK
    // ---- lookup
    Q("find_c", o.sz(s.find((char)a.num(1), a.sz(2))));
    Q("find_c0", o.sz(s.find((char)a.num(1))));
    Q("find_s", Arg2 x(a, 1); o.sz(s.find(x, a.sz(2))));
    Q("find_s0", Arg2 x(a, 1); o.sz(s.find(x)));
    Q("count_c", o.sz(s.count((char)a.num(1), a.sz(2))));
    Q("count_s", Arg2 x(a, 1); o.sz(s.count(x, a.sz(2))));
    Q("select_c", VIEW(s.select((char)a.num(1), a.sz(2))));
    Q("select_s", Arg2 x(a, 1); VIEW(s.select(x, a.sz(2))));
    Q("first_of_any2", Arg2 x(a, 1); Arg2 y(a, 2); auto r = s.first_of_any(x, y); o.sz(r.which); o.sz(r.pos); o.b((bool)r));
    Q("first_of_any3", Arg2 x(a, 1); Arg2 y(a, 2); Arg2 z(a, 3); auto r = s.first_of_any(x, y, z); o.sz(r.which); o.sz(r.pos); o.b((bool)r));
    Q("first_of_any4", Arg2 x(a, 1); Arg2 y(a, 2); Arg2 z(a, 3); Arg2 w(a, 4); auto r = s.first_of_any(x, y, z, w); o.sz(r.which); o.sz(r.pos); o.b((bool)r));
    Q("first_of_any5", Arg2 x(a, 1); Arg2 y(a, 2); Arg2 z(a, 3); Arg2 w(a, 4); Arg2 v(a, 5); auto r = s.first_of_any(x, y, z, w, v); o.sz(r.which); o.sz(r.pos); o.b((bool)r));
    Q("begins_with_c", o.b(s.begins_with((char)a.num(1))));
    Q("begins_with_cn", o.b(s.begins_with((char)a.num(1), a.sz(2))));
    Q("begins_with_s", Arg2 x(a, 1); o.b(s.begins_with(csubstr(x))));
    Q("begins_with_any", Arg2 x(a, 1); o.b(s.begins_with_any(x)));
    Q("ends_with_c", o.b(s.ends_with((char)a.num(1))));
    Q("ends_with_cn", o.b(s.ends_with((char)a.num(1), a.sz(2))));
    Q("ends_with_s", Arg2 x(a, 1); o.b(s.ends_with(csubstr(x))));
    Q("ends_with_any", Arg2 x(a, 1); o.b(s.ends_with_any(x)));
    Q("first_of_c", o.sz(s.first_of((char)a.num(1), a.sz(2))));
    Q("last_of_c", o.sz(s.last_of((char)a.num(1), a.sz(2))));
    Q("first_of_s", Arg2 x(a, 1); o.sz(s.first_of(csubstr(x), a.sz(2))));
    Q("last_of_s", Arg2 x(a, 1); o.sz(s.last_of(csubstr(x), a.sz(2))));
    Q("first_not_of_c", o.sz(s.first_not_of((char)a.num(1), a.sz(2))));
    Q("last_not_of_c", o.sz(s.last_not_of((char)a.num(1), a.sz(2))));
    Q("first_not_of_s", Arg2 x(a, 1); o.sz(s.first_not_of(csubstr(x), a.sz(2))));
    Q("last_not_of_s", Arg2 x(a, 1); o.sz(s.last_not_of(csubstr(x), a.sz(2))));
    // the overloads without a start position
    Q("nostart_c", char c = (char)a.num(1);
        o.sz(s.first_of(c)); o.sz(s.last_of(c)); o.sz(s.first_not_of(c)); o.sz(s.last_not_of(c)); o.sz(s.count(c)); VIEW(s.select(c)));
    Q("nostart_s", Arg2 x(a, 1); csubstr c = x;
        o.sz(s.first_of(c)); o.sz(s.last_of(c)); o.sz(s.first_not_of(c)); o.sz(s.last_not_of(c)); VIEW(s.select(c)));
    Q("pair_range", VIEW(s.pair_range((char)a.num(1), (char)a.num(2))));
    Q("pair_range_esc", VIEW(a.num(2) == '\\' ? s.pair_range_esc((char)a.num(1)) : s.pair_range_esc((char)a.num(1), (char)a.num(2))));
    Q("pair_range_nested", VIEW(s.pair_range_nested((char)a.num(1), (char)a.num(2))));
#endif
#ifdef G_NUM
    // ---- number tokens
    Q("spans", VIEW(s.first_non_empty_span()); VIEW(s.first_uint_span()); VIEW(s.first_int_span()); VIEW(s.first_real_span());
        o.b(s.is_number()); o.b(s.is_real()); o.b(s.is_integer()); o.b(s.is_unsigned_integer()));
#endif
#ifdef G_SPLIT
    // ---- splitting
    Q("split", o.open(); size_t n = 0;
        for(auto v : s.split((char)a.num(1))) { VIEW(v); if(++n > 5000) break; } o.close());
    Q("split_at", o.open(); size_t n = 0;
        for(auto v : s.split((char)a.num(1), a.sz(2))) { VIEW(v); if(++n > 5000) break; } o.close());
    Q("split_eq", auto px = s.split((char)a.num(1)); auto py = s.split((char)a.num(2)); auto x = px.begin(); auto y = py.begin();
        for(size_t k = 0; k < a.sz(3); ++k) ++x;
        for(size_t k = 0; k < a.sz(4); ++k) y++;
        bool eq = (x == y); o.b(eq); o.b(x != y));
    // next_split iterated by hand from a start position
    Q("next_split", size_t pos = a.sz(2); decltype(s) out; o.open(); size_t n = 0;
        while(s.next_split((char)a.num(1), &pos, &out)) { VIEW(out); if(++n > 5000) break; } o.close());
    Q("pop_left", VIEW(a.num(1) == '/' ? (a.flag(2) ? s.pop_left('/', true) : s.pop_left()) : a.flag(2) ? s.pop_left((char)a.num(1), true) : s.pop_left((char)a.num(1))));
    Q("pop_right", VIEW(a.num(1) == '/' ? (a.flag(2) ? s.pop_right('/', true) : s.pop_right()) : a.flag(2) ? s.pop_right((char)a.num(1), true) : s.pop_right((char)a.num(1))));
    Q("gpop_left", VIEW(a.num(1) == '/' ? (a.flag(2) ? s.gpop_left('/', true) : s.gpop_left()) : a.flag(2) ? s.gpop_left((char)a.num(1), true) : s.gpop_left((char)a.num(1))));
    Q("gpop_right", VIEW(a.num(1) == '/' ? (a.flag(2) ? s.gpop_right('/', true) : s.gpop_right()) : a.flag(2) ? s.gpop_right((char)a.num(1), true) : s.gpop_right((char)a.num(1))));
    Q("basename", VIEW(a.num(1) == '/' ? s.basename() : s.basename((char)a.num(1))));
    Q("dirname", VIEW(a.num(1) == '/' ? s.dirname() : s.dirname((char)a.num(1))));
    Q("exts", VIEW(s.name_wo_extshort()); VIEW(s.name_wo_extlong()); VIEW(s.extshort()); VIEW(s.extlong()));
#endif
#ifdef G_CMP
    // ---- comparison
    Q("cmp", Arg2 x(a, 1); csubstr t = x;
        o.i(sgn(s.compare(t))); o.i(sgn(s.compare(t.str, t.len)));
        cmpops(o, s, t);
        Buf tb(a.str(1)); substr tw; if(!a.isnull(1)) tw = substr(tb.p, tb.n);
        cmpops(o, s, tw));
    Q("cmp_c", char c = (char)a.num(1); o.i(sgn(s.compare(c))); cmpops(o, s, c); cmpops(o, c, s));
    // a view of more than 4G characters, of which only the first may be looked at
    Q("cmp_long", decltype(s) l(s.str, (size_t(1) << 32) + a.sz(2)); char c = (char)a.num(1); o.i(sgn(l.compare(c))); cmpops(o, l, c); cmpops(o, c, l));
    Q("cmp_std", std::string t = a.str(1); csubstr cs = s;
        cmpops(o, cs, t); cmpops(o, t, cs);
        std::vector<char> v(t.begin(), t.end());
        cmpops(o, cs, v); cmpops(o, v, cs);
        #if __cplusplus >= 201703L
        std::string_view sv(t);
        cmpops(o, cs, sv); cmpops(o, sv, cs);
        #else
        csubstr t2 = c4::to_csubstr(t);
        cmpops(o, cs, t2); cmpops(o, t2, cs);
        #endif
        );
    h["cmp_arr"] = [](Args const& a, Out&) { run1<csubstr>(a, [&](csubstr s, Buf&, Out &o) {
        std::string t = a.str(1);
        switch(t.size()) { case 0: cmparr<0>(o, s, t); break; case 1: cmparr<1>(o, s, t); break; case 2: cmparr<2>(o, s, t); break;
        case 3: cmparr<3>(o, s, t); break; case 4: cmparr<4>(o, s, t); break; default: o.str("toolong"); } }); };
#endif
#ifdef G_EDIT
    // ---- in-place edits
    W("toupper", s.toupper());
    W("tolower", s.tolower());
    W("fill", s.fill((char)a.num(1)));
    W("reverse", s.reverse());
    W("reverse_sub", s.reverse_sub(a.sz(1), a.sz(2)));
    W("reverse_range", s.reverse_range(a.sz(1), a.sz(2)));
    W("copy_from", Arg2 x(a, 1); s.copy_from(x, a.sz(2), a.sz(3)));
    W("copy_from0", Arg2 x(a, 1); s.copy_from(x));
    W("erase", VIEW(s.erase(a.sz(1), a.sz(2))));
    W("erase_range", VIEW(s.erase_range(a.sz(1), a.sz(2))));
    W("erase_sub", VIEW(s.erase(csubstr(b.p + a.sz(1), a.sz(2)))));
    W("replace_c", o.sz(a.sz(3) ? s.replace((char)a.num(1), (char)a.num(2), a.sz(3)) : s.replace((char)a.num(1), (char)a.num(2))));
    W("replace_s", Arg2 x(a, 1); o.sz(a.sz(3) ? s.replace(csubstr(x), (char)a.num(2), a.sz(3)) : s.replace(csubstr(x), (char)a.num(2))));
    // replace_all: src, dstlen, pattern, repl, pos
    Q("replace_all", Buf d(a.sz(1)); Arg2 pat(a, 2); Arg2 rep(a, 3);
        size_t r = a.sz(4) ? s.replace_all(substr(d.p, d.n), pat, rep, a.sz(4)) : s.replace_all(substr(d.p, d.n), pat, rep);
        o.sz(r); chk(d, o));
#endif
#ifdef G_CMP
    // ---- adapters and construction
    Q("adapt", std::string t = a.str(0); std::vector<char> v(t.begin(), t.end());
        csubstr x = c4::to_csubstr(t); o.bytes(x.str, x.len); o.b(x.str == t.data());
        substr y = c4::to_substr(t); o.bytes(y.str, y.len); o.b(y.str == t.data());
        csubstr z = c4::to_csubstr(v); o.bytes(z.str, z.len); o.b(z.len == 0 || z.str == v.data());
        substr w = c4::to_substr(v); o.bytes(w.str, w.len); o.b(w.len == 0 || w.str == v.data());
        csubstr q = csubstr(t.c_str()); o.bytes(q.str, q.len);
        csubstr q2; q2.assign(t.c_str()); o.bytes(q2.str, q2.len);
        csubstr q3; q3 = (char const*)t.c_str(); o.bytes(q3.str, q3.len);
        csubstr q4 = c4::to_csubstr(t.c_str()); o.bytes(q4.str, q4.len);
        csubstr q5(t.data(), t.data() + t.size()); o.bytes(q5.str, q5.len);
        csubstr q6; q6.assign(t.data(), t.data() + t.size()); o.bytes(q6.str, q6.len);
        std::ostringstream ss; ss << s; o.bytes(ss.str());
        #if __cplusplus >= 201703L
        csubstr q7 = c4::to_csubstr(std::string_view(t)); o.bytes(q7.str, q7.len); o.b(q7.str == t.data());
        #else
        o.bytes(t); o.b(true);
        #endif
        );
    // to_chars/from_chars between views and std containers: text, bufsize
    Q("std_chars", size_t n = a.sz(1);
        std::string t = a.str(0); std::vector<char> v(t.begin(), t.end());
        { Buf d(n); o.sz(c4::to_chars(substr(d.p, d.n), t)); chk(d, o); }
        { Buf d(n); o.sz(c4::to_chars(substr(d.p, d.n), v)); chk(d, o); }
        { Buf d(n);
        #if __cplusplus >= 201703L
        o.sz(c4::to_chars(substr(d.p, d.n), std::string_view(t)));
        #else
        o.sz(c4::to_chars(substr(d.p, d.n), t));
        #endif
        chk(d, o); }
        { std::string r(n, 'q'); o.b(c4::from_chars(csubstr(s), &r)); o.bytes(r); }
        { std::vector<char> r(n, 'q'); o.b(c4::from_chars(csubstr(s), &r)); o.bytes(std::string(r.begin(), r.end())); });
#endif
    return run(argc, argv);
}
