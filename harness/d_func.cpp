// conformance driver: functions kept in place
//
//   func HIST     slots 1..4 (32 bytes of room) and 5..6 (64 bytes, in builds without assertions 256); steps joined by _:
//                 n.I (default), z.I (from nullptr), k.I.T.V / K.I.T.V (from a callable, copied / moved), c.I.J / m.I.J (built from another),
//                 C.I.J / M.I.J (assigned), Z.I (assign nullptr), A.I.T.V (assign a callable), s.I.J (swap), a.I.X (call), u.I.J / U.I.J (c / C with copies failing)
//   pass X Y      arguments and results of all kinds
//   room K        room and alignment of the K-th class
#include "vf.hpp"
#include <set>
#include <memory>
#include <functional>
#include "c4/ext/sg14/inplace_function.h"
using namespace vf;
using stdext::inplace_function;

static std::vector<std::string> split(std::string const& s, char c)
{
    std::vector<std::string> v(1);
    for(char x : s) { if(x == c) v.emplace_back(); else v.back() += x; }
    return v;
}
static std::set<void const*> g_live;
static bool g_ok = true, g_fail = false;
static void born(void const* p) { if(!g_live.insert(p).second) g_ok = false; }
static void died(void const* p) { if(!g_live.erase(p)) g_ok = false; }
static void used(void const* p) { if(!g_live.count(p)) g_ok = false; }
enum { PEEK = -12345 };
struct Failed {};
template<int Code, bool MayFail> struct Obj
{
    Obj const* self; int v;
    explicit Obj(int v_) : self(this), v(v_) { born(this); }
    Obj(Obj const& o) : self(this), v(o.v) { used(&o); if(MayFail && g_fail) throw Failed(); born(this); }
    Obj(Obj && o) noexcept : self(this), v(o.v) { used(&o); o.v = 999; born(this); }
    ~Obj() { died(this); if(self != this) g_ok = false; v = -777; self = nullptr; }
    int operator()(int x) { used(this); if(self != this) g_ok = false; return x == PEEK ? Code * 1000 + v : MayFail ? x + 2 * v : x + v; }
};
using T_ = Obj<2, false>; using R_ = Obj<6, true>;
template<int N, int Code, int Add> struct Plain
{
    int v[N];
    explicit Plain(int x) { for(int k = 0; k < N; ++k) v[k] = x + k; }
    int operator()(int x) { for(int k = 0; k < N; ++k) if(v[k] != v[0] + k) g_ok = false; return x == PEEK ? Code * 1000 + v[0] : Add ? x + v[0] + 1 : x - v[0]; }
};
using B_ = Plain<8, 3, 0>; using D_ = Plain<16, 7, 1>;
struct C_ { int v; explicit C_(int x) : v(x) {} int operator()(int x) { return x == PEEK ? 4000 + v : x + v++; } };
struct E_ { explicit E_(int) {} int operator()(int x) const { return x == PEEK ? 5000 : x; } };
template<int V> int fn(int x) { return x == PEEK ? 1000 + V : x * (V + 1); }
using Fn = int(*)(int);
static Fn fns[] = {&fn<0>, &fn<1>, &fn<2>, &fn<3>};

using S = inplace_function<int(int), 32>;
#ifdef NDEBUG
using L = inplace_function<int(int), 256, 64>; // much more room, stronger alignment
#else
using L = inplace_function<int(int), 64>;
#endif
/// calls f with a callable of the type, as an lvalue
template<class F> void callable(char t, int v, F f)
{
    switch(t)
    {
    case 'f': { Fn x = fns[v & 3]; f(x); break; }
    case 't': { T_ x(v); f(x); break; }
    case 'b': { B_ x(v); f(x); break; }
    case 'c': { C_ x(v); f(x); break; }
    case 'e': { E_ x(v); f(x); break; }
    case 'r': { R_ x(v); f(x); break; }
    default: _exit(42);
    }
}
template<class F> void callable_large(char t, int v, F f) { if(t == 'd') { D_ x(v); f(x); } else callable(t, v, f); }
template<class F> struct Raw // memory for one function, not zero
{
    F *p; void *m0;
    Raw() { m0 = ::operator new(sizeof(F) + 128); void *m = (char*)m0 + (64 - (uintptr_t)m0 % 64) % 64; memset(m, 0x33, sizeof(F) + 64); p = (F*)m; new (p) F(); }
    ~Raw() { p->~F(); ::operator delete(m0); }
    void kill() { p->~F(); memset((void*)p, 0x33, sizeof(F)); }
    bool guard() const { auto m = (unsigned char const*)p; for(size_t k = sizeof(F); k < sizeof(F) + 64; ++k) if(m[k] != 0x33) return false; return true; }
};
template<class F> void observe(Out &o, F const& f)
{
    o.open().b(bool(f)).b(f == nullptr).b(f != nullptr);
    try { int r = f(PEEK); o.i(r); } catch(std::bad_function_call const&) { o.i(-1); }
    o.close();
}
static void op_func(Args const& a, Out &o)
{
    g_live.clear(); g_ok = true; g_fail = false;
    std::string hj;
    {
        Raw<S> s[4]; Raw<L> l[2];
        for(auto const& w : split(a.word(0), '_'))
        {
            auto f = split(w, '.');
            char op = f[0][0]; int i = atoi(f[1].c_str()); bool big = i > 4; int j = 0;
            std::string j0 = "[\"" + f[0] + "\"," + f[1];
            std::string res = "[\"-\",0]";
            if(strchr("cmCMsuU", op)) { j = atoi(f[2].c_str()); if(!big && j > 4) _exit(42); }
            Raw<S> &si = s[(i - 1) & 3]; Raw<L> &li = l[(i - 5) & 1]; S *sj = j && j <= 4 ? s[j - 1].p : nullptr; L *lj = j > 4 ? l[j - 5].p : nullptr;
            if(op == 's' && (big != (j > 4))) _exit(42);
            g_fail = (op == 'u' || op == 'U');
            switch(op)
            {
            case 'n': if(big) { li.kill(); new (li.p) L(); } else { si.kill(); new (si.p) S(); } break;
            case 'z': if(big) { li.kill(); new (li.p) L(nullptr); } else { si.kill(); new (si.p) S(nullptr); } break;
            case 'Z': if(big) *li.p = nullptr; else *si.p = nullptr; break;
            case 'k': case 'K': case 'A':
            {
                char t = f[2][0]; int v = atoi(f[3].c_str());
                j0 += ",\"" + f[2] + "\"," + f[3];
                if(big) callable_large(t, v, [&](auto &x){ if(op == 'A') { *li.p = x; return; } li.kill(); if(op == 'k') new (li.p) L(x); else new (li.p) L(std::move(x)); });
                else callable(t, v, [&](auto &x){ if(op == 'A') { *si.p = x; return; } si.kill(); if(op == 'k') new (si.p) S(x); else new (si.p) S(std::move(x)); });
                break;
            }
            case 'c': case 'u':
                j0 += "," + f[2];
                try { if(big) { li.kill(); if(lj) new (li.p) L(*lj); else new (li.p) L(*sj); } else { si.kill(); new (si.p) S(*sj); } }
                catch(Failed const&) { res = "[\"failed\",0]"; if(big) new (li.p) L(); else new (si.p) S(); }
                break;
            case 'm':
                j0 += "," + f[2];
                if(big) { li.kill(); if(lj) new (li.p) L(std::move(*lj)); else new (li.p) L(std::move(*sj)); } else { si.kill(); new (si.p) S(std::move(*sj)); }
                break;
            case 'C': case 'U':
                j0 += "," + f[2];
                try { if(big) { if(lj) *li.p = *lj; else *li.p = *sj; } else *si.p = *sj; } catch(Failed const&) { res = "[\"failed\",0]"; }
                break;
            case 'M':
                j0 += "," + f[2];
                if(big) { if(lj) *li.p = std::move(*lj); else *li.p = std::move(*sj); } else *si.p = std::move(*sj);
                break;
            case 's': j0 += "," + f[2]; if(big) li.p->swap(*lj); else si.p->swap(*sj); break;
            case 'a':
                j0 += "," + f[2];
                try { int r = big ? (*li.p)(atoi(f[2].c_str())) : (*si.p)(atoi(f[2].c_str())); res = "[\"gives\"," + std::to_string(r) + "]"; } catch(std::bad_function_call const&) { res = "[\"nothing\",0]"; }
                break;
            default: _exit(42);
            }
            g_fail = false;
            o.open().rawj(res).open();
            for(auto &x : s) observe(o, *x.p);
            for(auto &x : l) observe(o, *x.p);
            for(auto &x : s) if(!x.guard()) g_ok = false;
            for(auto &x : l) if(!x.guard()) g_ok = false;
            o.close().sz(g_live.size()).b(g_ok).close();
            hj += (hj.empty() ? "" : ",") + j0 + "]";
        }
    }
    o.open().sz(g_live.size()).b(g_ok).close();
    emit_as("func", "[" + hj + "]", o);
}
struct Sum { int operator()(int const& a, int b) const { return a + b; } };
static void op_pass(Args const& a, Out &o)
{
    int x = (int)a.num(0), y = (int)a.num(1);
    inplace_function<int(int const&, int)> sum = Sum();
    o.i(sum(x, y));
    inplace_function<void(int&)> inc = [](int &r){ ++r; };
    int z = y; inc(z); o.i(z);
    inplace_function<int(std::unique_ptr<int>)> take = [](std::unique_ptr<int> p){ return *p; };
    std::unique_ptr<int> p(new int(x)); o.i(take(std::move(p))).b(!p);
    inplace_function<std::unique_ptr<int>(int), 8> give = [](int k){ return std::unique_ptr<int>(new int(2 * k)); };
    o.i(*give(x));
    inplace_function<int&(int&), 16> ref = [](int &r) -> int& { return r; };
    o.b(&ref(z) == &z);
    inplace_function<std::string(std::string&&, std::string const&)> str = [](std::string &&q, std::string const& w){ std::string t = std::move(q); return t + "," + w; };
    std::string q = std::to_string(x), w = std::to_string(y); auto g = split(str(std::move(q), w), ',');
    o.i(atoi(g[0].c_str())).i(w == std::to_string(y) ? atoi(g[1].c_str()) : -999);
    emit(o);
}
template<size_t Cap, size_t Al> void room(Out &o)
{
    using F = inplace_function<void(), Cap, Al>;
    struct alignas(Al) Full { char c[Cap]; void operator()() { if(((uintptr_t)this) % Al) g_ok = false; } };
    g_ok = true; F f = Full(), g = f; f(); g();
    o.sz(F::capacity::value).sz(F::alignment::value).b(alignof(F) >= Al && sizeof(F) >= Cap + sizeof(void*)).b(g_ok);
    emit_as("room", std::to_string(Cap) + "," + std::to_string(Al), o);
}
int main(int argc, char **argv)
{
    handlers()["func"] = op_func;
    handlers()["pass"] = op_pass;
    handlers()["room"] = [](Args const& a, Out &o){
        switch(a.num(0)) { case 0: room<1, 1>(o); break; case 1: room<8, 8>(o); break; case 2: room<32, 16>(o); break; case 3: room<40, 4>(o); break; case 4: room<64, 32>(o); break; default: room<256, 64>(o); }
    };
    return run(argc, argv);
}
