// conformance driver: cat/catsep/format, their inverses, and the dump family
#include "vf.hpp"
#include "c4/std/std.hpp"
#include "c4/charconv.hpp"
#include "c4/format.hpp"
#include "c4/dump.hpp"
#include <memory>
using c4::csubstr;
using c4::substr;

namespace vf {
/// any one of the argument types; serialized by the library's own to_chars()
struct Any
{
    char k; std::string s; long long n = 0; unsigned long long u = 0; size_t w = 0; char pad = ' ';
    std::shared_ptr<Any> in;
    std::string json;
};
size_t to_chars(substr buf, Any const& a);
struct AnyRef { Any const* a; };
inline size_t to_chars(substr buf, AnyRef r) { return to_chars(buf, *r.a); }

size_t to_chars(substr buf, Any const& a)
{
    namespace f = c4::fmt;
    switch(a.k)
    {
    case 's': return c4::to_chars(buf, csubstr(a.s.data(), a.s.size()));
    case 'w': { std::string t = a.s; return c4::to_chars(buf, substr(&t[0], t.size())); }
    case 'S': return c4::to_chars(buf, a.s);
    case 'z': return c4::to_chars(buf, a.s.c_str());
    case 'V': { std::vector<char> v(a.s.begin(), a.s.end()); return c4::to_chars(buf, v); }
    case 'n': return c4::to_chars(buf, csubstr());
    case 'i': return c4::to_chars(buf, (int)a.n);
    case 'j': return c4::to_chars(buf, (int8_t)a.n);
    case 'l': return c4::to_chars(buf, (int64_t)a.n);
    case 'u': return c4::to_chars(buf, (uint16_t)a.n);
    case 'U': return c4::to_chars(buf, (uint64_t)a.u);
    case 'h': return c4::to_chars(buf, f::hex((int)a.n));
    case 'o': return c4::to_chars(buf, f::oct((int)a.n));
    case 'b': return c4::to_chars(buf, f::bin((int)a.n));
    case 'd': return c4::to_chars(buf, f::integral((int)a.n));
    case 'H': return c4::to_chars(buf, f::hex((uint32_t)a.n));
    case 'P': return c4::to_chars(buf, f::hex((void const*)(uintptr_t)a.u));
    case 'Z': return c4::to_chars(buf, f::zpad((int)a.n, a.w));
    case 'Y': return c4::to_chars(buf, f::zpad(f::hex((int)a.n), a.w));
    case 'c': return c4::to_chars(buf, (char)a.n);
    case 'B': return c4::to_chars(buf, a.n != 0);
    case 'A': return c4::to_chars(buf, f::boolalpha(a.n != 0));
    case 'L': return c4::to_chars(buf, a.pad == ' ' ? f::left(AnyRef{a.in.get()}, a.w) : f::left(AnyRef{a.in.get()}, a.w, a.pad));
    case 'R': return c4::to_chars(buf, a.pad == ' ' ? f::right(AnyRef{a.in.get()}, a.w) : f::right(AnyRef{a.in.get()}, a.w, a.pad));
    }
    fprintf(stderr, "bad kind %c\n", a.k); _exit(42);
}

static std::string jbytes(std::string const& s) { Out o; o.bytes(s); return o.s; }
static std::string jmag(unsigned long long m)
{
    std::string s;
    while(m) { s.insert(s.begin(), (char)(m & 0xff)); m >>= 8; }
    return jbytes(s);
}
static std::string jint(int radix, long long v, size_t nd)
{
    return "[\"i\"," + std::to_string(radix) + "," + (v < 0 ? "true" : "false") + "," + jmag(v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v) + "," + std::to_string(nd) + "]";
}
/// kind letter, then its payload: bytes in hex, or a number, or number:width, or width:pad:(inner)
static Any parse_any(const char *&p)
{
    Any a; a.k = *p++;
    auto num = [&]{ char *e; errno = 0; long long v = strtoll(p, &e, 10); p = e; return v; };
    switch(a.k)
    {
    case 's': case 'w': case 'S': case 'z': case 'V':
    {
        auto h = [](char c){ return c <= '9' ? c - '0' : c - 'a' + 10; };
        while(isxdigit((unsigned char)p[0]) && isxdigit((unsigned char)p[1])) { a.s += (char)((h(p[0]) << 4) | h(p[1])); p += 2; }
        a.json = "[\"s\"," + jbytes(a.s) + "]";
        break;
    }
    case 'n': a.json = "[\"s\",[]]"; break;
    case 'i': case 'j': case 'l': case 'u': case 'd': a.n = num(); a.json = jint(10, a.n, 0); break;
    case 'U': { char *e; a.u = strtoull(p, &e, 10); p = e; a.json = "[\"i\",10,false," + jmag(a.u) + ",0]"; break; }
    case 'h': case 'H': a.n = num(); a.json = jint(16, a.n, 0); break;
    case 'P': { char *e; a.u = strtoull(p, &e, 10); p = e; a.json = "[\"i\",16,false," + jmag(a.u) + ",0]"; break; }
    case 'o': a.n = num(); a.json = jint(8, a.n, 0); break;
    case 'b': a.n = num(); a.json = jint(2, a.n, 0); break;
    case 'Z': a.n = num(); ++p; a.w = (size_t)num(); a.json = jint(10, a.n, a.w); break;
    case 'Y': a.n = num(); ++p; a.w = (size_t)num(); a.json = jint(16, a.n, a.w); break;
    case 'c': a.n = num(); a.json = "[\"s\",[" + std::to_string(a.n & 0xff) + "]]"; break;
    case 'B': a.n = num(); a.json = a.n ? "[\"s\",[49]]" : "[\"s\",[48]]"; break;
    case 'A': a.n = num(); a.json = a.n ? "[\"t\",true]" : "[\"t\",false]"; break;
    case 'L': case 'R':
    {
        a.w = (size_t)num(); ++p; a.pad = (char)num(); p += 2; // :(
        a.in = std::make_shared<Any>(parse_any(p));
        ++p; // )
        a.json = std::string("[\"") + a.k + "\"," + a.in->json + "," + std::to_string(a.w) + "," + std::to_string((int)(unsigned char)a.pad) + "]";
        break;
    }
    default: fprintf(stderr, "bad argument %s\n", p - 1); _exit(42);
    }
    return a;
}
/// a list of arguments: - or comma separated
static std::vector<Any> parse_args(std::string const& t, std::string *json, std::string *types = nullptr)
{
    std::vector<Any> v;
    *json = "[";
    const char *p = t.c_str();
    if(*p == '-') { *json += "]"; return v; }
    while(*p)
    {
        char ty = 'G';
        if(types) { ty = *p++; types->push_back(ty); }
        v.push_back(parse_any(p));
        if(v.size() > 1) *json += ",";
        if(types) *json += "[" + std::string(ty == 'G' ? "false" : "true") + "," + v.back().json + "]";
        else *json += v.back().json;
        if(*p == ',') ++p;
    }
    *json += "]";
    return v;
}
/// call f with 0..6, 8 or 10 arguments
template<class F> auto with_args(std::vector<Any> const& v, F f) -> decltype(f())
{
    switch(v.size())
    {
    case 0: return f();
    case 1: return f(v[0]);
    case 2: return f(v[0], v[1]);
    case 3: return f(v[0], v[1], v[2]);
    case 4: return f(v[0], v[1], v[2], v[3]);
    case 5: return f(v[0], v[1], v[2], v[3], v[4]);
    case 6: return f(v[0], v[1], v[2], v[3], v[4], v[5]);
    case 8: return f(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    case 10: return f(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]);
    }
    _exit(42);
}
struct Cat { substr b; template<class... A> size_t operator()(A const&... a) const { return c4::cat(b, a...); } };
struct CatSep { substr b; Any const& sep; template<class... A> size_t operator()(A const&... a) const { return c4::catsep(b, sep, a...); } };
struct Format { substr b; csubstr f; template<class... A> size_t operator()(A const&... a) const { return c4::format(b, f, a...); } };
struct SubCat { substr b; template<class... A> substr operator()(A const&... a) const { return c4::cat_sub(b, a...); } };
struct SubCatSep { substr b; Any const& sep; template<class... A> substr operator()(A const&... a) const { return c4::catsep_sub(b, sep, a...); } };
struct SubFormat { substr b; csubstr f; template<class... A> substr operator()(A const&... a) const { return c4::format_sub(b, f, a...); } };
template<class C> struct Rs
{
    C &c; int how; char mode; Any const& sep; csubstr f; std::pair<long,long> &region;
    template<class... A> int operator()(A const&... a) const
    {
        csubstr r;
        if(how == 0) { if(mode == 'c') c4::catrs(&c, a...); else if(mode == 's') c4::catseprs(&c, sep, a...); else c4::formatrs(&c, f, a...); }
        else if(how == 1)
        {
            if(mode == 'c') r = c4::catrs_append(&c, a...); else if(mode == 's') r = c4::catseprs_append(&c, sep, a...); else r = c4::formatrs_append(&c, f, a...);
            if(r.len) { region.first = (r.str >= c.data() && r.str <= c.data() + c.size()) ? r.str - c.data() : -2; }
            region.second = (long)r.len;
        }
        else { if(mode == 'c') c = c4::catrs<C>(a...); else if(mode == 's') c = c4::catseprs<C>(sep, a...); else c = c4::formatrs<C>(f, a...); }
        return 0;
    }
};

/// what a case's mode, separator or format, and arguments are
struct Call
{
    char mode; Any sep; std::string f; std::vector<Any> v; std::string types, json;
    Call(Args const& a, size_t k, bool typed = false)
    {
        mode = a.word(k)[0];
        std::string j2;
        json = "\"" + a.word(k) + "\",";
        if(mode == 'f') { f = a.str(k + 1); json += jbytes(f); }
        else if(mode == 's') { const char *p = a.word(k + 1).c_str(); sep = parse_any(p); json += sep.json; }
        else json += "[]";
        v = parse_args(a.word(k + 2), &j2, typed ? &types : nullptr);
        json += "," + j2;
    }
    csubstr fmt() const { return csubstr(f.data(), f.size()); }
};

#ifdef G_WRITE
static size_t do_write(Call const& c, substr b)
{
    if(c.mode == 'c') return with_args(c.v, Cat{b});
    if(c.mode == 's') return with_args(c.v, CatSep{b, c.sep});
    return with_args(c.v, Format{b, c.fmt()});
}
static substr do_sub(Call const& c, substr b)
{
    if(c.mode == 'c') return with_args(c.v, SubCat{b});
    if(c.mode == 's') return with_args(c.v, SubCatSep{b, c.sep});
    return with_args(c.v, SubFormat{b, c.fmt()});
}
/// buffers of every size 0..max: what is returned; the contents where everything fitted
static void op_write(Args const& a, Out &)
{
    Call c(a, 0);
    size_t max = a.sz(3);
    Out o;
    bool corrupt = false;
    bool ok = guarded([&]{
        std::vector<std::string> bufs;
        o.open();
        for(size_t n = 0; n <= max; ++n)
        {
            Buf b(n);
            size_t r = do_write(c, substr(b.p, b.n));
            o.sz(r);
            if(!b.ok()) corrupt = true;
            bufs.push_back(r <= n ? b.str() : std::string());
        }
        o.close(); o.open();
        for(auto &s : bufs) o.bytes(s);
        o.close();
    });
    if(!ok) { o = Out(); o.str("err"); }
    if(corrupt) { o = Out(); o.str("corrupt"); }
    emit_as("write", c.json, o);
}
static void op_sub(Args const& a, Out &)
{
    Call c(a, 0);
    Buf b(a.sz(3));
    Out o;
    bool ok = guarded([&]{ substr r = do_sub(c, substr(b.p, b.n)); o.str("ok"); o.view(r.str, r.len, b.p, b.n); });
    if(!ok) { o = Out(); o.str("err"); o.open(); o.i(-1); o.i(0); o.close(); }
    if(!b.ok()) { o = Out(); o.str("corrupt"); }
    emit_as("sub", c.json + "," + a.word(3), o);
}
template<class C> void rs(Call const& c, int how, std::string const& init)
{
    C cont(init.begin(), init.end());
    std::pair<long,long> region(-1, 0);
    Out o;
    bool ok = guarded([&]{ with_args(c.v, Rs<C>{cont, how, c.mode, c.sep, c.fmt(), region}); });
    if(ok) { o.str("ok"); o.bytes(cont.data(), cont.size()); o.open(); o.i(region.first); o.i(region.second); o.close(); }
    else o.str("err");
    emit_as("rs", c.json + "," + std::to_string(how) + "," + jbytes(init), o);
}
#endif

#ifdef G_READ
/// any one of the readable types
struct AnyIn
{
    char k; int32_t i = 77; int64_t l = 77; uint16_t u = 77; int8_t j = 77; char c = 'q'; bool b = false; csubstr s; substr w; std::string wbuf;
    explicit AnyIn(char k_) : k(k_), wbuf(16, 'Z') { w = substr(&wbuf[0], wbuf.size()); }
    void put(Out &o, csubstr whole) const
    {
        auto st = [&](uint64_t m){ o.rawj(jmag(m)); };
        switch(k)
        {
        case 'i': st((uint32_t)i); break;
        case 'l': st((uint64_t)l); break;
        case 'u': st(u); break;
        case 'j': st((uint8_t)j); break;
        case 'c': o.i((unsigned char)c); break;
        case 'B': o.b(b); break;
        case 's': o.open(); o.view(s.str, s.len, whole.str, whole.len); o.close(); break;
        case 'w': o.bytes(w.str, w.len); break;
        }
    }
};
size_t from_chars_first(csubstr buf, AnyIn *a)
{
    switch(a->k)
    {
    case 'i': return c4::from_chars_first(buf, &a->i);
    case 'l': return c4::from_chars_first(buf, &a->l);
    case 'u': return c4::from_chars_first(buf, &a->u);
    case 'j': return c4::from_chars_first(buf, &a->j);
    case 'c': return c4::from_chars_first(buf, &a->c);
    case 'B': return c4::from_chars_first(buf, &a->b);
    case 's': return c4::from_chars_first(buf, &a->s);
    case 'w': return c4::from_chars_first(buf, &a->w);
    }
    _exit(42);
}
template<class F> size_t with_in(std::vector<std::unique_ptr<AnyIn>> &v, F f)
{
    switch(v.size())
    {
    case 1: return f(*v[0]);
    case 2: return f(*v[0], *v[1]);
    case 3: return f(*v[0], *v[1], *v[2]);
    case 4: return f(*v[0], *v[1], *v[2], *v[3]);
    case 5: return f(*v[0], *v[1], *v[2], *v[3], *v[4]);
    case 7: return f(*v[0], *v[1], *v[2], *v[3], *v[4], *v[5], *v[6]);
    }
    _exit(42);
}
struct Uncat { csubstr b; template<class... A> size_t operator()(A&... a) const { return c4::uncat(b, a...); } };
struct UncatSep { csubstr b; AnyIn &sep; template<class... A> size_t operator()(A&... a) const { return c4::uncatsep(b, sep, a...); } };
struct Unformat { csubstr b; csubstr f; template<class... A> size_t operator()(A&... a) const { return c4::unformat(b, f, a...); } };
#endif

#ifdef G_DUMP
static std::string g_dumped;
static void dumper(csubstr s) { g_dumped.append(s.str, s.len); }
struct Ref { void operator()(csubstr s) const { g_dumped.append(s.str, s.len); } };
/// call f with the arguments as their own types: D a view, N a character array, G anything else
struct Dispatch
{
    std::vector<Any> const& v; std::string const& types;
    template<class F, class... A> void go(size_t i, F &f, A const&... a) const
    {
        if(i == v.size()) f(a...);
        else next(std::integral_constant<int, (sizeof...(A) < 3) ? 2 : (sizeof...(A) < 6) ? 1 : 0>(), i, f, a...);
    }
    template<class F, class... A> void next(std::integral_constant<int, 0>, size_t, F &, A const&...) const { _exit(42); }
    /// more than three: all of the general type
    template<class F, class... A> void next(std::integral_constant<int, 1>, size_t i, F &f, A const&...) const
    {
        if(i != 3) _exit(42);
        switch(v.size())
        {
        case 4: f(v[0], v[1], v[2], v[3]); break;
        case 5: f(v[0], v[1], v[2], v[3], v[4]); break;
        case 6: f(v[0], v[1], v[2], v[3], v[4], v[5]); break;
        default: _exit(42);
        }
    }
    template<class F, class... A> void next(std::integral_constant<int, 2>, size_t i, F &f, A const&... a) const
    {
        std::string const& s = v[i].s;
        if(types[i] == 'D') { csubstr d(s.data(), s.size()); go(i + 1, f, a..., d); }
        else if(types[i] == 'N') { char arr[4] = {}; if(s.size() != 3) _exit(42); memcpy(arr, s.data(), 3); go(i + 1, f, a..., static_cast<const char(&)[4]>(arr)); }
        else go(i + 1, f, a..., v[i]);
    }
};
struct DumpOnce
{
    char mode; bool tpl; substr b; Any const& sep; bool sepdirect; csubstr f; size_t ret;
    template<class... A> void operator()(A const&... a)
    {
        if(mode == 'c') { ret = tpl ? c4::cat_dump<dumper>(b, a...) : c4::cat_dump(Ref{}, b, a...); }
        else if(mode == 'f') { ret = tpl ? c4::format_dump<dumper>(b, f, a...) : c4::format_dump(Ref{}, b, f, a...); }
        else if(sepdirect) { csubstr s(sep.s.data(), sep.s.size()); ret = tpl ? c4::catsep_dump<dumper>(b, s, a...) : c4::catsep_dump(&dumper, b, s, a...); }
        else { ret = tpl ? c4::catsep_dump<dumper>(b, sep, a...) : c4::catsep_dump(&dumper, b, sep, a...); }
    }
};
struct DumpResume
{
    char mode; bool tpl; bool first; c4::DumpResults r; substr b; Any const& sep; bool sepdirect; csubstr f;
    template<class... A> void one(std::true_type, A const&... a) // with arguments
    {
        if(mode == 'c')
        {
            if(first) r = tpl ? c4::cat_dump_resume<dumper>(b, a...) : c4::cat_dump_resume(Ref{}, b, a...);
            else r = tpl ? c4::cat_dump_resume<dumper>(r, b, a...) : c4::cat_dump_resume(Ref{}, r, b, a...);
        }
        else if(mode == 's')
        {
            if(sepdirect) { csubstr s(sep.s.data(), sep.s.size()); sepd(s, a...); }
            else sepd(sep, a...);
        }
        else fmtd(a...);
    }
    template<class S, class... A> void sepd(S const& s, A const&... a)
    {
        if(first) r = tpl ? c4::catsep_dump_resume<dumper>(b, s, a...) : c4::catsep_dump_resume(&dumper, b, s, a...);
        else r = tpl ? c4::catsep_dump_resume<dumper>(r, b, s, a...) : c4::catsep_dump_resume(&dumper, r, b, s, a...);
    }
    template<class... A> void fmtd(A const&... a)
    {
        if(first) r = tpl ? c4::format_dump_resume<dumper>(b, f, a...) : c4::format_dump_resume(Ref{}, b, f, a...);
        else r = tpl ? c4::format_dump_resume<dumper>(r, b, f, a...) : c4::format_dump_resume(Ref{}, r, b, f, a...);
    }
    template<class... A> void one(std::false_type, A const&... a) { if(mode != 'f') _exit(42); fmtd(a...); }
    template<class... A> void operator()(A const&... a) { one(std::integral_constant<bool, (sizeof...(A) > 0)>(), a...); }
};
#endif
#ifdef G_WRITE
template<class X> std::string text(X const& x) { char tmp[160]; size_t n = c4::to_chars(substr(tmp, sizeof(tmp)), x); return std::string(tmp, n < sizeof(tmp) ? n : sizeof(tmp)); }
#define TEXT(...) o.bytes(text(__VA_ARGS__))
template<class T> void wrapped(Out &o, T v, size_t nd)
{
    namespace f = c4::fmt;
    TEXT(f::integral(v)); TEXT(f::integral(v, T(2))); TEXT(f::integral(v, T(8))); TEXT(f::integral(v, T(10))); TEXT(f::integral(v, T(16)));
    TEXT(f::hex(v)); TEXT(f::oct(v)); TEXT(f::bin(v));
    TEXT(f::zpad(v, nd)); TEXT(f::zpad(f::hex(v), nd)); TEXT(f::zpad(f::oct(v), nd)); TEXT(f::zpad(f::bin(v), nd)); TEXT(f::zpad(f::integral(v), nd));
}
static void op_wrap(Args const& a, Out &)
{
    Out o;
    std::string const& t = a.word(0);
    long long v = strtoll(a.word(1).c_str(), nullptr, 10); unsigned long long u = strtoull(a.word(1).c_str(), nullptr, 10);
    size_t nd = a.sz(2);
    bool neg = a.word(1)[0] == '-';
    if(t == "i8") wrapped<int8_t>(o, (int8_t)v, nd); else if(t == "u8") wrapped<uint8_t>(o, (uint8_t)v, nd);
    else if(t == "i16") wrapped<int16_t>(o, (int16_t)v, nd); else if(t == "u16") wrapped<uint16_t>(o, (uint16_t)v, nd);
    else if(t == "i32") wrapped<int32_t>(o, (int32_t)v, nd); else if(t == "u32") wrapped<uint32_t>(o, (uint32_t)v, nd);
    else if(t == "i64") wrapped<int64_t>(o, (int64_t)v, nd); else if(t == "u64") wrapped<uint64_t>(o, (uint64_t)u, nd);
    else if(t == "ll") wrapped<long long>(o, v, nd); else if(t == "ull") wrapped<unsigned long long>(o, u, nd);
    else _exit(42);
    emit_as("wrap", std::string(neg ? "true" : "false") + "," + jmag(neg ? 0ull - (unsigned long long)v : u) + "," + std::to_string(nd), o);
}
static void op_ptrs(Args const& a, Out &)
{
    namespace f = c4::fmt;
    Out o;
    uintptr_t u = (uintptr_t)strtoull(a.word(0).c_str(), nullptr, 10); size_t nd = a.sz(1);
    void *v = (void*)u; void const *cv = v; int *i = (int*)u; int const *ci = i; char *c = (char*)u; char const *cc = c; double *d = (double*)u;
    // hexadecimal
    TEXT(f::hex(v)); TEXT(f::hex(cv)); TEXT(f::hex(i)); TEXT(f::hex(ci)); TEXT(f::hex(c)); TEXT(f::hex(cc)); TEXT(d); TEXT(v); TEXT(cv);
    TEXT(f::oct(v)); TEXT(f::oct(cv)); TEXT(f::oct(i)); TEXT(f::oct(ci));
    TEXT(f::bin(v)); TEXT(f::bin(cv)); TEXT(f::bin(i)); TEXT(f::bin(ci));
    TEXT(f::integral(ci)); TEXT(f::integral(ci, 16)); TEXT(f::integral(ci, 2));
    TEXT(f::zpad(v, nd)); TEXT(f::zpad(cv, nd)); TEXT(f::zpad(i, nd)); TEXT(f::zpad(ci, nd)); TEXT(f::zpad(f::oct(v), nd)); TEXT(f::zpad(f::bin(i), nd));
    emit_as("ptrs", jmag(u) + "," + std::to_string(nd), o);
}
static void op_nulls(Args const& a, Out &o)
{
    namespace f = c4::fmt;
    size_t nd = a.sz(0);
    TEXT(f::hex(nullptr)); TEXT(f::oct(nullptr)); TEXT(f::bin(nullptr)); TEXT(f::integral<int>(nullptr)); TEXT(f::integral<int>(nullptr, 16));
    TEXT(f::zpad(nullptr, nd)); TEXT(f::zpad(f::bin(nullptr), nd));
    emit(o);
}
template<size_t N> void arrtext(Out &o, std::string const& t, size_t n)
{
    char arr[N + 1]; memcpy(arr, t.c_str(), N + 1);
    Buf d(n); o.sz(c4::to_chars(substr(d.p, d.n), static_cast<const char(&)[N + 1]>(arr))); o.bytes(d.p, d.n);
}
// text n: views and arrays written and read
static void op_views(Args const& a, Out &o)
{
    std::string t = a.str(0); size_t n = a.sz(1);
    Buf b(t); csubstr s(b.p, b.n); substr w(b.p, b.n);
    bool ok = guarded([&]{
        o.str("ok");
        { Buf d(n); o.sz(c4::to_chars(substr(d.p, d.n), s)); o.bytes(d.p, d.n).b(d.ok()); }
        { Buf d(n); o.sz(c4::to_chars(substr(d.p, d.n), w)); o.bytes(d.p, d.n).b(d.ok()); }
        { csubstr r; bool q = c4::from_chars(s, &r); o.b(q).view(r.str, r.len, b.p, b.n); }
        { Buf d(n); substr r(d.p, d.n); bool q = c4::from_chars(s, &r); o.b(q).sz(r.len).b(r.str == d.p).bytes(d.p, d.n).b(d.ok()); }
        { csubstr r(b.p, (size_t)0); size_t q = c4::from_chars_first(s, &r); o.sz(q).view(r.str, r.len, b.p, b.n); }
        { Buf d(n); substr r(d.p, d.n); size_t q = c4::from_chars_first(s, &r); o.sz(q).sz(r.len).b(r.str == d.p).bytes(d.p, d.n).b(d.ok()); }
        switch(t.size()) { case 0: arrtext<0>(o, t, n); break; case 1: arrtext<1>(o, t, n); break; case 2: arrtext<2>(o, t, n); break; case 3: arrtext<3>(o, t, n); break; default: o.sz(0).bytes(""); }
    });
    if(!ok) { o = Out(); o.str("err"); }
    emit(o);
}
struct alignas(8) Al8 { char c[8]; };
static void op_rawdef(Args const& a, Out &o)
{
    Al8 x; memset(&x, (int)a.num(0), sizeof(x)); Al8 const& cx = x; uint16_t h = 0x4142; char c = 'q';
    c4::blob b(x.c, sizeof(x)); c4::cblob cb(x.c, sizeof(x));
    namespace f = c4::fmt;
    o.sz(f::craw(cb).alignment).sz(f::raw(cb).alignment).sz(f::raw(b).alignment).sz(f::craw(x).alignment).sz(f::raw(cx).alignment).sz(f::raw(x).alignment);
    o.sz(f::craw(h).alignment).sz(f::raw(h).alignment).sz(f::raw(c).alignment).sz(f::craw(cx, 16).alignment).sz(f::raw(x, 32).alignment).sz(f::raw(cb, 4).alignment);
    o.sz(f::craw(cb).len).sz(f::raw(cx).len).sz(f::raw(x).len).sz(f::craw(h).len).sz(f::raw(c).len);
    alignas(32) char buf[64]; memset(buf, 0x5a, sizeof(buf));
    o.sz(c4::to_chars(substr(buf, 64), f::raw(cx))); o.bytes(buf, 16);
    Al8 y; memset(&y, 0, sizeof(y));
    o.b(c4::from_chars(csubstr(buf, 8), f::raw(y))).bytes(y.c, 8);
    emit(o);
}
#undef TEXT
#endif
} // namespace vf
using namespace vf;

int main(int argc, char **argv)
{
    auto &H = handlers();
#ifdef G_WRITE
    H["write"] = op_write;
    H["wrap"] = op_wrap;
    H["ptrs"] = op_ptrs;
    H["nulls"] = op_nulls;
    H["views"] = op_views;
    H["rawdef"] = op_rawdef;
    H["sub"] = op_sub;
    H["rs"] = [](Args const& a, Out&){ // mode sep/fmt args how container init
        Call c(a, 0);
        if(a.word(4) == "string") rs<std::string>(c, (int)a.num(3), a.str(5));
        else rs<std::vector<char>>(c, (int)a.num(3), a.str(5));
    };
    H["raw"] = [](Args const& a, Out &o){ // misalignment alignment data n
        size_t m = a.sz(0), al = a.sz(1), n = a.sz(3);
        std::string d = a.str(2);
        Buf back(m + n + 64, 0x5a);
        char *base = (char*)(((uintptr_t)back.p + 31) & ~(uintptr_t)31);
        size_t lead = (size_t)(base - back.p);
        substr b(base + m, n);
        bool corrupt = false;
        size_t r = 0;
        bool ok = guarded([&]{ r = c4::to_chars(b, c4::fmt::raw(c4::cblob(d.data(), d.size()), al)); });
        o.b(ok).sz(r).bytes(b.str, b.len);
        for(size_t k = 0; k < back.n; ++k) if((k < lead + m || k >= lead + m + n) && back.p[k] != 0x5a) corrupt = true;
        // read it back
        std::string in(d.size(), '#');
        c4::fmt::raw_wrapper w = c4::fmt::raw(c4::blob(&in[0], in.size()), al);
        bool rd = false;
        bool ok2 = guarded([&]{ rd = c4::from_chars(csubstr(b), &w); });
        o.b(ok2).b(rd).bytes(in);
        size_t rf = 0;
        std::string in2(d.size(), '#');
        c4::fmt::raw_wrapper w2 = c4::fmt::raw(c4::blob(&in2[0], in2.size()), al);
        bool ok3 = guarded([&]{ rf = c4::from_chars_first(csubstr(b), w2); });
        o.b(ok3).sz(rf).bytes(in2).b(corrupt || !back.ok());
        emit(o);
    };
    H["rawcat"] = [](Args const& a, Out &o){ // misalignment: three raw values through cat and uncat, text in between
        size_t m = a.sz(0);
        alignas(32) char store[160]; memset(store, 0x5a, sizeof(store));
        substr b(store + m, 96);
        uint16_t x = (uint16_t)a.num(1); uint64_t y = (uint64_t)a.num(2); uint8_t z = (uint8_t)a.num(3);
        size_t r = c4::cat(b, c4::fmt::craw(x), c4::fmt::craw(y), (char)99, c4::fmt::craw(z));
        uint16_t x2 = 0; uint64_t y2 = 0; uint8_t z2 = 0; char c2 = 0;
        c4::fmt::raw_wrapper rx = c4::fmt::raw(x2), ry = c4::fmt::raw(y2), rz = c4::fmt::raw(z2);
        size_t q = c4::uncat(csubstr(b), rx, ry, c2, rz);
        o.sz(r).sz(q).b(x2 == x).b(y2 == y).b(z2 == z).i(c2);
        emit(o);
    };
    H["blob"] = [](Args const& a, Out &o){ // blobs view exactly the object's bytes
        std::string d = a.str(0);
        c4::blob b(&d[0], d.size()); c4::cblob c(b); c4::cblob e; e = b; c4::cblob f2; f2 = c4::blob(b); c4::cblob &g = (e = b);
        int32_t v = 0; int32_t arr[3] = {}; c4::blob bv(v), ba(arr); c4::cblob cv(v); c4::blob bp(&arr[0], 2u); c4::blob as; as = v; c4::blob as2; as2 = arr;
        o.open().view((const char*)c.buf, c.len, d.data(), d.size()).view((const char*)e.buf, e.len, d.data(), d.size()).view((const char*)f2.buf, f2.len, d.data(), d.size()).close();
        o.b(&g == &e);
        o.open().view((const char*)bv.buf, bv.len, (const char*)&v, sizeof(v)).view((const char*)ba.buf, ba.len, (const char*)arr, sizeof(arr))
            .view((const char*)cv.buf, cv.len, (const char*)&v, sizeof(v)).view((const char*)bp.buf, bp.len, (const char*)arr, sizeof(arr))
            .view((const char*)as.buf, as.len, (const char*)&v, sizeof(v)).view((const char*)as2.buf, as2.len, (const char*)arr, sizeof(arr)).close();
        emit(o);
    };
#endif
#ifdef G_READ
    H["unread"] = [](Args const& a, Out &o){ // mode sepkind/fmt kinds text
        char mode = a.word(0)[0];
        Buf b(a.str(3));
        csubstr text(b.p, b.n);
        std::vector<std::unique_ptr<AnyIn>> v;
        for(char k : a.word(2)) v.emplace_back(new AnyIn(k));
        AnyIn sep(mode == 's' ? a.word(1)[0] : 'c');
        std::string f = mode == 'f' ? a.str(1) : std::string();
        size_t r = 0;
        bool ok = guarded([&]{
            if(mode == 'c') r = with_in(v, Uncat{text});
            else if(mode == 's') r = with_in(v, UncatSep{text, sep});
            else r = with_in(v, Unformat{text, csubstr(f.data(), f.size())});
        });
        if(!ok) { o.str("err"); }
        else
        {
            o.str("ok").sz(r).open();
            if(r != NPOS) for(auto &x : v) { o.open(); x->put(o, text); o.close(); }
            o.close().open();
            if(r != NPOS && mode == 's' && v.size() > 1) sep.put(o, text);
            o.close();
        }
        if(b.str() != a.str(3)) { o = Out(); o.str("modified"); }
        std::string ks;
        for(char k : a.word(2)) { if(!ks.empty()) ks += ","; ks += std::string("\"") + k + "\""; }
        emit_as("unread", "\"" + a.word(0) + "\"," + tok2json(a.word(1)) + ",[" + ks + "]," + tok2json(a.word(3)), o);
    };
#endif
#ifdef G_DUMP
    H["dump"] = [](Args const& a, Out&){ // tpl sepdirect mode sep/fmt typed-args n
        Call c(a, 2, true);
        Out o;
        size_t n = a.sz(5);
        Buf b(n);
        DumpOnce d{c.mode, a.flag(0), substr(b.p, b.n), c.sep, a.flag(1), c.fmt(), 0};
        g_dumped.clear();
        bool ok = guarded([&]{ Dispatch{c.v, c.types}.go(0, d); });
        if(ok) o.str("ok").sz(d.ret).bytes(g_dumped); else o.str("err");
        if(!b.ok()) { o = Out(); o.str("corrupt"); }
        emit_as("dump", (a.flag(1) ? "true," : "false,") + c.json + "," + a.word(5), o);
    };
    H["resume"] = [](Args const& a, Out&){ // tpl sepdirect mode sep/fmt typed-args n n n ...
        Call c(a, 2, true);
        DumpResume d{c.mode, a.flag(0), true, c4::DumpResults{}, substr(), c.sep, a.flag(1), c.fmt()};
        Out o;
        std::string js = c.json + ",[";
        bool corrupt = false;
        bool ok = guarded([&]{
            for(size_t k = 5; k < a.size(); ++k)
            {
                size_t n = a.sz(k);
                if(k > 5) js += ",";
                js += a.word(k);
                Buf b(n);
                d.b = substr(b.p, b.n);
                g_dumped.clear();
                Dispatch{c.v, c.types}.go(0, d);
                d.first = false;
                if(!b.ok()) corrupt = true;
                o.open().bytes(g_dumped).sz(d.r.lastok).sz(d.r.bufsize).sz(d.r.argfail()).b(d.r.success_until(2 * c.v.size()))
                 .b(d.r.success_until(0)).b(d.r.write_arg(1)).close();
            }
        });
        if(!ok) { o = Out(); o.str("err"); }
        if(corrupt) { o = Out(); o.str("corrupt"); }
        emit_as("resume", (a.flag(1) ? "true," : "false,") + js + "]", o);
    };
#endif
    return run(argc, argv);
}
