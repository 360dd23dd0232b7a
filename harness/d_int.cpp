// conformance driver: integers <-> text (charconv.hpp, integer parts; fmt integral wrappers)
#include "vf.hpp"
#include "c4/substr.hpp"
#include "c4/charconv.hpp"
#include "c4/format.hpp"
using namespace vf;
using c4::csubstr;
using c4::substr;

template<class T> T mkval(bool neg, std::string const& mag)
{
    uint64_t m = 0;
    for(unsigned char c : mag) m = (m << 8) | c;
    if(neg) m = 0 - m;
    return (T)m;
}
template<class T> void stored(Out &o, T v)
{
    uint64_t m = (uint64_t)(typename std::make_unsigned<T>::type)v;
    std::string s;
    while(m) { s.insert(s.begin(), (char)(m & 0xff)); m >>= 8; }
    o.bytes(s);
}
static bool g_corrupt = false;
/// write to buffers of every size 0..n with f(substr)
template<class F> void write_all(size_t n, F f)
{
    Out o;
    bool ok = guarded([&]{
        std::vector<std::string> bufs;
        o.str("ok"); o.open();
        for(size_t k = 0; k <= n; ++k)
        {
            Buf b(k);
            o.sz(f(substr(b.p, b.n)));
            if(!b.ok()) g_corrupt = true;
            bufs.push_back(b.str());
        }
        o.close(); o.open();
        for(auto const& b : bufs) o.bytes(b);
        o.close();
    });
    if(!ok) { o = Out(); o.str("err"); }
    if(g_corrupt) { g_corrupt = false; o = Out(); o.str("corrupt"); }
    emit(o);
}
/// read from an exact copy of a text
template<class F> void reading(Args const& a, size_t k, F f)
{
    Buf b(a.str(k));
    csubstr s;
    if(!a.isnull(k)) s = csubstr(b.p, b.n);
    Out o;
    bool ok = guarded([&]{ o.str("ok"); f(s, o); });
    if(!ok) { o = Out(); o.str("err"); }
    emit(o);
}

template<class T> struct tag { using type = T; };
template<class F> void fixed_type(std::string const& t, F f)
{
    if(t == "i8") f(tag<int8_t>{});
    else if(t == "u8") f(tag<uint8_t>{});
    else if(t == "i16") f(tag<int16_t>{});
    else if(t == "u16") f(tag<uint16_t>{});
    else if(t == "i32") f(tag<int32_t>{});
    else if(t == "u32") f(tag<uint32_t>{});
    else if(t == "i64") f(tag<int64_t>{});
    else if(t == "u64") f(tag<uint64_t>{});
    else { fprintf(stderr, "bad type %s\n", t.c_str()); _exit(42); }
}
template<class F> void any_type(std::string const& t, F f)
{
    if(t == "ll") f(tag<long long>{});
    else if(t == "ull") f(tag<unsigned long long>{});
    else fixed_type(t, f);
}

#ifdef G_WRITE
template<class T> auto toa(substr b, T v, int radix, size_t nd) -> typename std::enable_if<std::is_signed<T>::value, size_t>::type
{ return radix < 0 ? c4::itoa(b, v) : nd == NPOS ? c4::itoa(b, v, (T)radix) : c4::itoa(b, v, (T)radix, nd); }
template<class T> auto toa(substr b, T v, int radix, size_t nd) -> typename std::enable_if<!std::is_signed<T>::value, size_t>::type
{ return radix < 0 ? c4::utoa(b, v) : nd == NPOS ? c4::utoa(b, v, (T)radix) : c4::utoa(b, v, (T)radix, nd); }
template<class T> size_t xtoa_(substr b, T v, int radix, size_t nd)
{ return radix < 0 ? c4::xtoa(b, v) : nd == NPOS ? c4::xtoa(b, v, (T)radix) : c4::xtoa(b, v, (T)radix, nd); }
template<class T> size_t fmt_(substr b, T v, int radix, size_t nd)
{
    namespace fmt = c4::fmt;
    if(nd != NPOS)
        return radix < 0 ? c4::to_chars(b, fmt::zpad(v, nd)) : radix == 16 ? c4::to_chars(b, fmt::zpad(fmt::hex(v), nd))
             : radix == 8 ? c4::to_chars(b, fmt::zpad(fmt::oct(v), nd)) : radix == 2 ? c4::to_chars(b, fmt::zpad(fmt::bin(v), nd))
             : c4::to_chars(b, fmt::zpad(fmt::integral(v, (T)radix), nd));
    return radix < 0 ? c4::to_chars(b, fmt::integral(v)) : radix == 16 ? c4::to_chars(b, fmt::hex(v))
         : radix == 8 ? c4::to_chars(b, fmt::oct(v)) : radix == 2 ? c4::to_chars(b, fmt::bin(v))
         : c4::to_chars(b, fmt::integral(v, (T)radix));
}
template<class T> size_t tosub(substr b, T v)
{
    // the returned view must be what was written, or the whole buffer if it did not fit
    substr r = c4::to_chars_sub(b, v);
    size_t n = c4::to_chars(b, v);
    if(r.str != b.str || r.len != (n < b.len ? n : b.len)) g_corrupt = true;
    return n;
}
template<class T> void one_full(Args const& a)
{
    std::string f = a.word(0);
    int radix = (int)a.num(2);
    size_t nd = a.sz(5);
    T v = mkval<T>(a.flag(3), a.str(4));
    write_all(a.sz(6), [&](substr b) -> size_t {
        if(f == "toa") return toa(b, v, radix, nd);
        if(f == "to_chars") return c4::to_chars(b, v);
        if(f == "sub") return tosub(b, v);
        fprintf(stderr, "bad function %s\n", f.c_str()); _exit(42);
    });
}
template<class T> void one_full_fixed(Args const& a)
{
    std::string f = a.word(0);
    int radix = (int)a.num(2);
    size_t nd = a.sz(5);
    T v = mkval<T>(a.flag(3), a.str(4));
    write_all(a.sz(6), [&](substr b) -> size_t { return f == "xtoa" ? xtoa_(b, v, radix, nd) : fmt_(b, v, radix, nd); });
}
#endif

#ifdef G_READ
template<class T> auto ato(csubstr s, T *v) -> typename std::enable_if<std::is_signed<T>::value, bool>::type { return c4::atoi(s, v); }
template<class T> auto ato(csubstr s, T *v) -> typename std::enable_if<!std::is_signed<T>::value, bool>::type { return c4::atou(s, v); }
template<class T> auto atofirst(csubstr s, T *v) -> typename std::enable_if<std::is_signed<T>::value, size_t>::type { return c4::atoi_first(s, v); }
template<class T> auto atofirst(csubstr s, T *v) -> typename std::enable_if<!std::is_signed<T>::value, size_t>::type { return c4::atou_first(s, v); }
#endif

int main(int argc, char **argv)
{
    auto &h = handlers();
    #ifdef G_WRITE
    h["wide"] = [](Args const& a, Out&) { // more digits than any buffer has
        fixed_type(a.word(1), [&](auto tg) {
            using T = typename decltype(tg)::type;
            std::string f = a.word(0), w = a.str(5);
            int radix = (int)a.num(2);
            T v = mkval<T>(a.flag(3), a.str(4));
            size_t nd = 0, r = 0;
            for(char c : w) nd = nd << 8 | (unsigned char)c;
            Buf b(a.sz(6));
            substr s(b.p, b.n);
            Out o;
            bool ok = guarded([&]{
                r = f == "toa" ? toa(s, v, radix, nd) : f == "gtoa" ? xtoa_(s, v, radix, nd) : f == "fmt" ? fmt_(s, v, radix, nd) :
                    radix == 10 ? c4::write_dec(s, v, nd) : radix == 16 ? c4::write_hex(s, v, nd) : radix == 8 ? c4::write_oct(s, v, nd) : c4::write_bin(s, v, nd);
            });
            std::string q;
            for(size_t k = r; k; k >>= 8) q.insert(q.begin(), (char)(k & 0xff));
            o.str(!b.ok() ? "corrupt" : ok ? "ok" : "err").bytes(q).bytes(b.str());
            emit(o);
        });
    };
    h["one"] = h["wide"]; // many digits, and a buffer of about that size
    h["bare"] = [](Args const& a, Out&) {
        fixed_type(a.word(0), [&](auto tg) {
            using T = typename decltype(tg)::type;
            int radix = (int)a.num(1);
            T v = mkval<T>(a.flag(2), a.str(3));
            size_t nd = a.sz(4);
            write_all(a.sz(5), [&](substr b) -> size_t {
                if(nd == NPOS)
                    return radix == 10 ? c4::write_dec(b, v) : radix == 16 ? c4::write_hex(b, v) : radix == 8 ? c4::write_oct(b, v) : c4::write_bin(b, v);
                return radix == 10 ? c4::write_dec(b, v, nd) : radix == 16 ? c4::write_hex(b, v, nd) : radix == 8 ? c4::write_oct(b, v, nd) : c4::write_bin(b, v, nd);
            });
        });
    };
    h["full"] = [](Args const& a, Out&) {
        std::string f = a.word(0), t = a.word(1);
        if(t == "ptr")
        {
            uint64_t v = mkval<uint64_t>(a.flag(3), a.str(4));
            size_t nd = a.sz(5);
            write_all(a.sz(6), [&](substr b) -> size_t {
                if(f == "to_chars") return c4::to_chars(b, (int*)v);
                if(f == "xtoa") return c4::xtoa(b, (void*)v);
                if(nd != NPOS) return c4::to_chars(b, c4::fmt::zpad((int const*)v, nd));
                int radix = (int)a.num(2);
                return radix == 16 ? c4::to_chars(b, c4::fmt::hex((int const*)v)) : radix == 8 ? c4::to_chars(b, c4::fmt::oct((int*)v)) : c4::to_chars(b, c4::fmt::bin((int const*)v));
            });
        }
        else if(f == "xtoa" && (t == "ll" || t == "ull"))
        {
            any_type(t, [&](auto tg) {
                auto v = mkval<typename decltype(tg)::type>(a.flag(3), a.str(4));
                write_all(a.sz(6), [&](substr b) -> size_t { return c4::xtoa(b, v); });
            });
        }
        else if(f == "xtoa" || f == "fmt") fixed_type(t, [&](auto tg) { one_full_fixed<typename decltype(tg)::type>(a); });
        else any_type(t, [&](auto tg) { one_full<typename decltype(tg)::type>(a); });
    };
    h["span"] = [](Args const& a, Out&) {
        fixed_type(a.word(1), [&](auto tg) {
            using T = typename decltype(tg)::type;
            std::string f = a.word(0);
            int radix = (int)a.num(2);
            long long v0 = a.num(3), n = a.num(4);
            Out o;
            bool ok = guarded([&]{
                o.str("ok"); o.open();
                for(long long k = 0; k < n; ++k)
                {
                    Buf b(24);
                    substr s(b.p, b.n);
                    T v = (T)(v0 + k);
                    size_t r = f == "to_chars" ? c4::to_chars(s, v) : toa(s, v, radix, NPOS);
                    if(!b.ok()) g_corrupt = true;
                    o.bytes(b.p, r <= b.n ? r : 0);
                }
                o.close();
            });
            if(!ok) { o = Out(); o.str("err"); }
            if(g_corrupt) { g_corrupt = false; o = Out(); o.str("corrupt"); }
            emit(o);
        });
    };
    h["spanbare"] = [](Args const& a, Out&) {
        fixed_type(a.word(0), [&](auto tg) {
            using T = typename decltype(tg)::type;
            int radix = (int)a.num(1);
            long long v0 = a.num(2), n = a.num(3);
            Out o;
            bool ok = guarded([&]{
                o.str("ok"); o.open();
                for(long long k = 0; k < n; ++k)
                {
                    Buf b(24);
                    substr s(b.p, b.n);
                    T v = (T)(v0 + k);
                    size_t r = radix == 10 ? c4::write_dec(s, v) : radix == 16 ? c4::write_hex(s, v) : radix == 8 ? c4::write_oct(s, v) : c4::write_bin(s, v);
                    if(!b.ok()) g_corrupt = true;
                    o.bytes(b.p, r <= b.n ? r : 0);
                }
                o.close();
            });
            if(!ok) { o = Out(); o.str("err"); }
            if(g_corrupt) { g_corrupt = false; o = Out(); o.str("corrupt"); }
            emit(o);
        });
    };
    h["digits"] = [](Args const& a, Out&) {
        any_type(a.word(0), [&](auto tg) {
            using T = typename decltype(tg)::type;
            T v = mkval<T>(false, a.str(1));
            Out o;
            bool ok = guarded([&]{ o.str("ok"); o.open(); o.i(c4::digits_dec(v)); o.i(c4::digits_hex(v)); o.i(c4::digits_oct(v)); o.i(c4::digits_bin(v)); o.close(); });
            if(!ok) { o = Out(); o.str("err"); }
            emit(o);
        });
    };
    h["tobool"] = [](Args const& a, Out&) { bool v = a.flag(0); write_all(a.sz(1), [&](substr b) { return c4::to_chars(b, v); }); };
    h["tochar"] = [](Args const& a, Out&) { char v = (char)a.num(0); write_all(a.sz(1), [&](substr b) { return c4::to_chars(b, v); }); };
    #endif
    #ifdef G_READ
    h["read"] = [](Args const& a, Out&) {
        any_type(a.word(0), [&](auto tg) {
            using T = typename decltype(tg)::type;
            int radix = (int)a.num(1);
            reading(a, 2, [&](csubstr s, Out &o) {
                T v = (T)77;
                bool r = radix == 10 ? c4::read_dec(s, &v) : radix == 16 ? c4::read_hex(s, &v) : radix == 8 ? c4::read_oct(s, &v) : c4::read_bin(s, &v);
                o.b(r); stored(o, r ? v : T(0));
            });
        });
    };
    h["parse"] = [](Args const& a, Out&) {
        std::string f = a.word(0);
        if(a.word(1) == "ptr")
        {
            reading(a, 2, [&](csubstr s, Out &o) {
                int *v = (int*)(uintptr_t)77;
                bool r = f == "atox" ? c4::atox(s, &v) : c4::from_chars(s, &v);
                o.b(r); stored(o, r ? (intptr_t)v : intptr_t(0));
            });
            return;
        }
        any_type(a.word(1), [&](auto tg) {
            using T = typename decltype(tg)::type;
            reading(a, 2, [&](csubstr s, Out &o) {
                T v = (T)77;
                bool r = f == "ato" ? ato(s, &v) : f == "atox" ? c4::atox(s, &v) : c4::from_chars(s, &v);
                o.b(r); stored(o, r ? v : T(0));
            });
        });
    };
    h["first"] = [](Args const& a, Out&) {
        std::string f = a.word(0);
        if(a.word(1) == "ptr")
        {
            reading(a, 2, [&](csubstr s, Out &o) {
                int *v = (int*)(uintptr_t)77;
                size_t r = c4::from_chars_first(s, &v);
                o.sz(r); stored(o, r != NPOS ? (intptr_t)v : intptr_t(0));
            });
            return;
        }
        any_type(a.word(1), [&](auto tg) {
            using T = typename decltype(tg)::type;
            reading(a, 2, [&](csubstr s, Out &o) {
                T v = (T)77;
                size_t r = f == "ato" ? atofirst(s, &v) : c4::from_chars_first(s, &v);
                o.sz(r); stored(o, r != NPOS ? v : T(0));
            });
        });
    };
    h["overflows"] = [](Args const& a, Out&) {
        any_type(a.word(0), [&](auto tg) {
            using T = typename decltype(tg)::type;
            reading(a, 1, [&](csubstr s, Out &o) { o.b(c4::overflows<T>(s)); });
        });
    };
    h["checked"] = [](Args const& a, Out&) {
        fixed_type(a.word(0), [&](auto tg) {
            using T = typename decltype(tg)::type;
            for(int k = 0; k < 2; ++k)
                reading(a, 1, [&](csubstr s, Out &o) {
                    T v = (T)77;
                    auto w = c4::fmt::overflow_checked(v);
                    bool r = k == 0 ? c4::from_chars(s, w) : c4::from_chars(s, &w);
                    o.b(r); stored(o, r ? v : T(0));
                });
        });
    };
    h["bool"] = [](Args const& a, Out&) { reading(a, 0, [&](csubstr s, Out &o) { bool v = false; bool r = c4::from_chars(s, &v); o.b(r); o.b(r && v); }); };
    h["boolfirst"] = [](Args const& a, Out&) { reading(a, 0, [&](csubstr s, Out &o) { bool v = false; size_t r = c4::from_chars_first(s, &v); o.sz(r); o.b(r != NPOS && v); }); };
    h["char"] = [](Args const& a, Out&) { reading(a, 0, [&](csubstr s, Out &o) { char v = 0; bool r = c4::from_chars(s, &v); o.b(r); o.i(r ? (unsigned char)v : 0); }); };
    h["charfirst"] = [](Args const& a, Out&) { reading(a, 0, [&](csubstr s, Out &o) { char v = 0; size_t r = c4::from_chars_first(s, &v); o.sz(r); o.i(r != NPOS ? (unsigned char)v : 0); }); };
    h["roundtrip"] = [](Args const& a, Out&) {
        any_type(a.word(0), [&](auto tg) {
            using T = typename decltype(tg)::type;
            int radix = (int)a.num(1);
            T v = mkval<T>(a.flag(2), a.str(3)), w = 0;
            Out o;
            bool ok = guarded([&]{
                o.str("ok");
                Buf b(80);
                substr s(b.p, b.n);
                size_t n = c4::to_chars(s, c4::fmt::integral(v, (T)radix));
                Buf c(std::string(b.p, n <= b.n ? n : 0));
                bool r = c4::from_chars(csubstr(c.p, c.n), &w);
                o.b(r); stored(o, r ? w : T(0));
                o.b(c4::overflows<T>(csubstr(c.p, c.n)));
            });
            if(!ok) { o = Out(); o.str("err"); }
            emit(o);
        });
    };
    #endif
    return run(argc, argv);
}
