// conformance driver: reals <-> text (charconv.hpp real parts; fmt::real)
#include "vf.hpp"
#include "c4/substr.hpp"
#include "c4/charconv.hpp"
#include "c4/format.hpp"
using namespace vf;
using c4::csubstr;
using c4::substr;

#if C4CORE_HAVE_STD_TOCHARS
static const bool have_std = true;
#else
static const bool have_std = false;
#endif

template<class T> T frombits(std::string const& s)
{
    char b[sizeof(T)];
    for(size_t k = 0; k < sizeof(T); ++k) b[k] = s[sizeof(T) - 1 - k];
    T v; memcpy(&v, b, sizeof(T)); return v;
}
template<class T> std::string bitstr(T v)
{
    char b[sizeof(T)]; memcpy(b, &v, sizeof(T));
    std::string s;
    for(size_t k = sizeof(T); k-- > 0;) s += b[k];
    return s;
}
inline size_t toa(substr b, float v) { return c4::ftoa(b, v); }
inline size_t toa(substr b, double v) { return c4::dtoa(b, v); }
inline size_t toa(substr b, float v, int p, c4::RealFormat_e f) { return c4::ftoa(b, v, p, f); }
inline size_t toa(substr b, double v, int p, c4::RealFormat_e f) { return c4::dtoa(b, v, p, f); }
inline size_t toa1(substr b, float v, int p) { return c4::ftoa(b, v, p); }
inline size_t toa1(substr b, double v, int p) { return c4::dtoa(b, v, p); }
inline bool ato(csubstr s, float *v) { return c4::atof(s, v); }
inline bool ato(csubstr s, double *v) { return c4::atod(s, v); }
inline size_t atofirst(csubstr s, float *v) { return c4::atof_first(s, v); }
inline size_t atofirst(csubstr s, double *v) { return c4::atod_first(s, v); }

template<class T> size_t write(std::string const& f, std::string const& fm, int prec, substr b, T v)
{
    c4::RealFormat_e e = fm == "flt" ? c4::FTOA_FLOAT : fm == "sci" ? c4::FTOA_SCIENT : fm == "flx" ? c4::FTOA_FLEX : c4::FTOA_HEXA;
    if(f == "toa") return prec == -1 && fm == "flx" ? toa(b, v) : toa(b, v, prec, e);
    if(f == "toa1") return toa1(b, v, prec);
    if(f == "to_chars") return c4::to_chars(b, v);
    if(f == "sub") { substr r = c4::to_chars_sub(b, v); (void)r; return c4::to_chars(b, v); }
    if(f == "xtoa") return c4::xtoa(b, v);
    if(f == "xtoap") return fm == "flx" ? c4::xtoa(b, v, prec) : c4::xtoa(b, v, prec, e);
    if(f == "fmt") return fm == "flt" ? c4::to_chars(b, c4::fmt::real(v, prec)) : c4::to_chars(b, c4::fmt::real(v, prec, e));
    fprintf(stderr, "bad function %s\n", f.c_str()); _exit(42);
}
template<class T> void do_write(Args const& a)
{
    T v = frombits<T>(a.str(2));
    std::string f = a.word(0), fm = a.word(3);
    int prec = (int)a.num(4);
    Out o;
    bool corrupt = false;
    bool ok = guarded([&]{
        o.str("ok"); o.b(have_std); o.open();
        auto attempt = [&](size_t n) -> size_t {
            Buf b(n);
            size_t r = write(f, fm, prec, substr(b.p, b.n), v);
            if(!b.ok()) corrupt = true;
            o.open(); o.sz(n); o.sz(r); o.bytes(b.p, r <= n ? r : 0); o.close();
            return r;
        };
        size_t len;
        { Buf b(2400); len = write(f, fm, prec, substr(b.p, b.n), v); if(!b.ok()) corrupt = true; if(len > 2399) len = 0; }
        for(size_t n = 0; n < len + 3; ++n)
            if(len < 30 || n < 4 || n + 3 > len) attempt(n);
        attempt(2400);
        o.close();
    });
    if(!ok) { o = Out(); o.str("err"); }
    if(corrupt) { o = Out(); o.str("corrupt"); }
    emit(o);
}
template<class F> void reading(Args const& a, size_t k, F f)
{
    Buf b(a.str(k));
    csubstr s;
    if(!a.isnull(k)) s = csubstr(b.p, b.n);
    Out o;
    bool ok = guarded([&]{ o.str("ok"); f(s, o); });
    if(!ok) { o = Out(); o.str("err"); }
    emit(o);
}
template<class T> void do_read(Args const& a)
{
    std::string f = a.word(0);
    reading(a, 2, [&](csubstr s, Out &o) {
        T v = T(77);
        bool r = f == "ato" ? ato(s, &v) : f == "atox" ? c4::atox(s, &v) : c4::from_chars(s, &v);
        o.b(r); if(r) o.bytes(bitstr(v)); else o.bytes("");
    });
}
template<class T> void do_first(Args const& a)
{
    std::string f = a.word(0);
    reading(a, 2, [&](csubstr s, Out &o) {
        T v = T(77);
        size_t r = f == "ato" ? atofirst(s, &v) : c4::from_chars_first(s, &v);
        o.sz(r); if(r != NPOS) o.bytes(bitstr(v)); else o.bytes("");
    });
}
template<class T> void do_trip(Args const& a)
{
    T v = frombits<T>(a.str(2)), w = T(0);
    std::string f = a.word(0);
    Out o;
    bool ok = guarded([&]{
        o.str("ok");
        Buf b(2400);
        substr s(b.p, b.n);
        const int prec = sizeof(T) == 8 ? 17 : 9;
        size_t n = f == "flx" ? c4::to_chars(s, c4::fmt::real(v, prec, c4::FTOA_FLEX))
                 : f == "sci" ? c4::to_chars(s, c4::fmt::real(v, prec, c4::FTOA_SCIENT))
                 : c4::to_chars(s, c4::fmt::real(v, -1, c4::FTOA_HEXA));
        Buf c(std::string(b.p, n <= b.n ? n : 0));
        bool r = c4::from_chars(csubstr(c.p, c.n), &w);
        o.b(r); o.bytes(bitstr(w));
    });
    if(!ok) { o = Out(); o.str("err"); }
    emit(o);
}
#define DISPATCH(fn) [](Args const& a, Out&) { if(a.word(1) == "f") fn<float>(a); else fn<double>(a); }
int main(int argc, char **argv)
{
    auto &h = handlers();
    h["rwrite"] = DISPATCH(do_write);
    h["rread"] = DISPATCH(do_read);
    h["rfirst"] = DISPATCH(do_first);
    h["rtrip"] = DISPATCH(do_trip);
    return run(argc, argv);
}
