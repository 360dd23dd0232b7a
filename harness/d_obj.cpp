// Histories of objects in raw memory.
#define VF_ALIGNED
#include "vf.hpp"
#include "c4/ctor_dtor.hpp"
#include <type_traits>
using namespace vf;

// ----- what is known about the objects
struct St { int kind; int v; }; // 0 raw, 1 live, 2 moved
static std::map<void const*, St> reg;
static std::vector<std::string> bad;
static int stat(void const *p) { auto it = reg.find(p); return it == reg.end() ? 0 : it->second.kind; }
static void made(void const *p, int v) { if(stat(p) == 1) bad.push_back("built-over-live"); reg[p] = St{1, v}; }
static int used(void const *p) { if(stat(p) != 1) { bad.push_back("used-nonlive"); return 255; } return reg[p].v; }
static void assigned(void const *p, int v) { if(stat(p) == 0) bad.push_back("assigned-to-raw"); reg[p] = St{1, v}; }
static void left(void const *p) { reg[p].kind = 2; }
static void gone(void const *p) { if(stat(p) == 0) bad.push_back("destroyed-twice"); reg.erase(p); }

struct Trk
{
    uint32_t m;
    Trk() : m(0) { made(this, 0); }
    explicit Trk(int v) : m((uint32_t)v) { made(this, v); }
    Trk(Trk const& t) { if(&t == this) bad.push_back("built-from-itself"); int v = used(&t); made(this, v); m = (uint32_t)v; }
    Trk(Trk && t) { if(&t == this) bad.push_back("built-from-itself"); int v = used(&t); left(&t); made(this, v); m = (uint32_t)v; }
    Trk& operator= (Trk const& t) { int v = used(&t); assigned(this, v); m = (uint32_t)v; return *this; }
    Trk& operator= (Trk && t) { int v = used(&t); assigned(this, v); left(&t); m = (uint32_t)v; return *this; }
    ~Trk() { gone(this); }
};
struct Cpy
{
    char m[5];
    Cpy() { made(this, 0); }
    explicit Cpy(int v) { made(this, v); }
    Cpy(Cpy const& t) { if(&t == this) bad.push_back("built-from-itself"); made(this, used(&t)); }
    Cpy& operator= (Cpy const& t) { assigned(this, used(&t)); return *this; }
    ~Cpy() { gone(this); }
};
struct Pod { uint8_t b[5]; Pod() = default; explicit Pod(int v) { memset(b, v, 5); } };
struct Asg
{
    uint16_t b;
    Asg() = default;
    explicit Asg(int v) : b((uint16_t)(v * 0x101)) {}
    Asg(Asg const&) = default;
    Asg& operator= (Asg const& t) { b = t.b; return *this; }
};
template<class T> struct IsTracked : std::false_type {};
template<> struct IsTracked<Trk> : std::true_type {};
template<> struct IsTracked<Cpy> : std::true_type {};

template<class T> T val(int v, std::true_type /*scalar*/) { T t; memset(&t, v, sizeof(T)); return t; }
template<class T> T val(int v, std::false_type) { return T(v); }
template<class T> T val(int v) { return val<T>(v, std::is_scalar<T>()); }

template<class T> void slot(Out &o, T const *p, std::true_type)
{
    int s = stat(p);
    o.open();
    if(s == 0) o.str("raw"); else if(s == 2) o.str("moved"); else o.str("live").i(reg[p].v);
    o.close();
}
template<class T> void slot(Out &o, T const *p, std::false_type)
{
    unsigned char b[sizeof(T)];
    memcpy(b, p, sizeof(T));
    int v = b[0];
    for(size_t k = 0; k < sizeof(T); ++k) if(b[k] != v) v = -1;
    o.open().str("live").i(v).close();
}

static std::vector<std::string> parts(std::string const& s)
{
    std::vector<std::string> v(1);
    for(char c : s) { if(c == ':') v.emplace_back(); else v.back() += c; }
    return v;
}

// construct with arguments
template<class T, class I> struct Cons
{
    static void one(T *p, int v, std::true_type) { c4::construct(p, val<T>(v)); }
    static void many(T *p, I n, int v, std::true_type) { c4::construct_n(p, n, val<T>(v)); }
    static void one(T *p, int v, std::false_type) { c4::construct(p, v); }
    static void many(T *p, I n, int v, std::false_type) { c4::construct_n(p, n, v); }
};

template<class T, class I> void hist(Args const& a, Out &o)
{
    size_t N = (size_t)a.num(2);
    Buf mem(N * sizeof(T));
    T *p = (T*)mem.p;
    reg.clear(); bad.clear();
    std::string h;
    using Sc = std::is_scalar<T>;
    for(size_t k = 3; k < a.size(); ++k)
    {
        auto q = parts(a.word(k));
        h += k > 3 ? ",[" : "[";
        for(size_t m = 0; m < q.size(); ++m) { if(m) h += ","; h += tok2json(q[m]); }
        h += "]";
        if(q[0] == "!") q.erase(q.begin());
        auto num = [&](size_t m) { return atoi(q.at(m).c_str()); };
        auto I_ = [&](size_t m) { return (I)atoi(q.at(m).c_str()); };
        auto at = [&](size_t m) { return p + atoi(q.at(m).c_str()); };
        std::string const& s = q[0];
        bool ok = guarded([&]{
            if(s == "c") c4::construct(at(1));
            else if(s == "cv") Cons<T, I>::one(at(1), num(2), Sc());
            else if(s == "cn") c4::construct_n(at(1), I_(2));
            else if(s == "cnv") Cons<T, I>::many(at(1), I_(2), num(3), Sc());
            else if(s == "cc") c4::copy_construct(at(1), (T const*)at(2));
            else if(s == "ccn") c4::copy_construct_n(at(1), (T const*)at(2), I_(3));
            else if(s == "cca") c4::copy_construct<T, 3>(*(T(*)[3])at(1), *(T const(*)[3])at(2));
            else if(s == "ccv") { T t = val<T>(num(2)); c4::copy_construct(at(1), t); }
            else if(s == "ccvn") { T t = val<T>(num(2)); c4::copy_construct_n(at(1), t, I_(3)); }
            else if(s == "ca") c4::copy_assign(at(1), (T const*)at(2));
            else if(s == "can") c4::copy_assign_n(at(1), (T const*)at(2), I_(3));
            else if(s == "caa") c4::copy_assign<T, 3>(*(T(*)[3])at(1), *(T const(*)[3])at(2));
            else if(s == "cav") { T t = val<T>(num(2)); c4::copy_assign(at(1), t); }
            else if(s == "cavn") { T t = val<T>(num(2)); c4::copy_assign_n(at(1), t, I_(3)); }
            else if(s == "mc") c4::move_construct(at(1), at(2));
            else if(s == "mcn") c4::move_construct_n(at(1), at(2), I_(3));
            else if(s == "ma") c4::move_assign(at(1), at(2));
            else if(s == "man") c4::move_assign_n(at(1), at(2), I_(3));
            else if(s == "d") c4::destroy(at(1));
            else if(s == "dn") c4::destroy_n(at(1), I_(2));
            else if(s == "mr") c4::make_room(at(1), I_(2), I_(3));
            else if(s == "mrp") c4::make_room(at(1), I_(2), I_(3), I_(4), I_(5));
            else if(s == "mrt") c4::make_room(at(1), (T const*)at(2), I_(3), I_(4), I_(5));
            else if(s == "mrT") c4::make_room(at(1), (I)(num(3) + num(4)), (T const*)at(2), I_(3), I_(4), I_(5));
            else if(s == "dr") c4::destroy_room(at(1), I_(2), I_(3));
            else if(s == "drt") c4::destroy_room(at(1), (T const*)at(2), I_(3), I_(4), I_(5));
            else _exit(44);
        });
        if(!mem.ok()) bad.push_back("outside");
        o.open().str(ok ? "ok" : "err").open();
        for(size_t m = 0; m < N; ++m) slot(o, p + m, IsTracked<T>());
        o.close().open();
        for(auto const& b : bad) o.str(b);
        o.close().close();
        bad.clear();
    }
    emit_as("obj", "\"" + a.word(0) + "\",\"" + a.word(1) + "\"," + a.word(2) + ",90,[" + h + "]", o);
}
template<class T> void h_type(Args const& a, Out &o)
{
    std::string const& i = a.word(1);
    if(i == "size") hist<T, size_t>(a, o); else if(i == "int") hist<T, int>(a, o);
    else if(i == "u8") hist<T, uint8_t>(a, o); else if(i == "i16") hist<T, int16_t>(a, o); else _exit(44);
}
int main(int argc, char **argv)
{
    handlers()["obj"] = [](Args const& a, Out &o) {
        std::string const& t = a.word(0);
        if(t == "u8") h_type<uint8_t>(a, o); else if(t == "u64") h_type<uint64_t>(a, o); else if(t == "pod") h_type<Pod>(a, o);
        else if(t == "asg") h_type<Asg>(a, o); else if(t == "ptr") h_type<char*>(a, o); else if(t == "trk") h_type<Trk>(a, o); else if(t == "cpy") h_type<Cpy>(a, o); else _exit(44);
    };
    return run(argc, argv);
}
