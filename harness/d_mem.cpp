// conformance driver: memory resources and allocators
//
// A case is a whole history:  mem <target> <params> step step ...
//   params  comma-separated numbers
//   step    letter:number:number...
// Emits {"o":"mem","a":[target,[params],[steps]],"r":[outcome of each step]}
#include "vf.hpp"
#include <list>
#include <deque>
#include <vector>
#include <string>
#include "c4/memory_resource.hpp"
#include "c4/allocator.hpp"
#include <memory>
#include <thread>
#include <functional>
using namespace vf;

#ifdef VF_ASAN
#include <sanitizer/asan_interface.h>
#endif

//---------------------------------------------------------------- the underlying resource
/// records every request; never reuses memory; can be told to fail
struct Probe : public c4::MemoryResource
{
    struct B { char *p; size_t sz, al; bool live; };
    std::vector<B> bs;
    std::vector<std::vector<char*>> dummy;
    std::string log;      // JSON of the requests since the last step
    bool failnext = false;
    bool ghost = false;   // sizes are in units of 2^30, and blocks are addresses only
    std::vector<void*> raws;
    std::string num(size_t sz) const { return !ghost ? std::to_string(sz) : sz & ((size_t(1) << 30) - 1) ? "-7" : std::to_string(sz >> 30); }
    ~Probe() override { for(void *r : raws) free(r); }
    void add(std::string const& e) { if(!log.empty()) log += ','; log += e; }
    std::string take() { std::string r = "[" + log + "]"; log.clear(); return r; }
    int find(void const *p) const { for(size_t k = 0; k < bs.size(); ++k) if(bs[k].p == p) return (int)k; return -1; }
    /// an address with exactly the requested alignment, not more
    char* raw(size_t sz, size_t al)
    {
        if(ghost) sz = 1;
        size_t a = al < 64 ? 64 : al;
        char *r = nullptr;
        if(posix_memalign((void**)&r, 2 * a, sz + 4 * a)) _exit(45);
        raws.push_back(r);
        char *p = r + a + (al < a ? al : 0);
        if(al >= a) p = r + al;
        memset(p, 0xEE, sz);
        return p;
    }
protected:
    void* do_allocate(size_t sz, size_t al, void*) override
    {
        if(failnext) { failnext = false; add("[\"X\"]"); C4_ERROR("probe: no memory"); }
        char *p = raw(sz, al);
        bs.push_back(B{p, ghost ? 1 : sz, al, true});
        add("[\"A\"," + std::to_string(bs.size()) + "," + num(sz) + "," + std::to_string(al) + "]");
        return p;
    }
    void do_deallocate(void *ptr, size_t sz, size_t al) override
    {
        int k = find(ptr);
        if(k >= 0) { bs[(size_t)k].live = false; memset(bs[(size_t)k].p, 0xDD, bs[(size_t)k].sz); }
        add("[\"F\"," + std::to_string(k + 1) + "," + num(sz) + "," + std::to_string(al) + "]");
    }
    void* do_reallocate(void *ptr, size_t oldsz, size_t newsz, size_t al) override
    {
        if(failnext) { failnext = false; add("[\"X\"]"); C4_ERROR("probe: no memory"); }
        int k = find(ptr);
        char *p = raw(newsz, al);
        if(k >= 0) { memcpy(p, bs[(size_t)k].p, std::min(std::min(oldsz, newsz), bs[(size_t)k].sz)); bs[(size_t)k].live = false; memset(bs[(size_t)k].p, 0xDD, bs[(size_t)k].sz); }
        bs.push_back(B{p, ghost ? 1 : newsz, al, true});
        add("[\"R\"," + std::to_string(k + 1) + "," + std::to_string(bs.size()) + "," + num(oldsz) + "," + num(newsz) + "," + std::to_string(al) + "]");
        return p;
    }
};

//---------------------------------------------------------------- targets
struct Target
{
    Probe probe;
    virtual ~Target() = default;
    virtual void* alloc(size_t sz, size_t al) = 0;
    virtual void* re(void *p, size_t osz, size_t nsz, size_t al) = 0;
    virtual void  de(void *p, size_t sz, size_t al) = 0;
    virtual size_t unit() const { return 1; }        // bytes per object
    /// where an address is
    virtual void where(Out &o, char const* p) { upwhere(o, p); }
    virtual void info(Out &o) { (void)o; }
    virtual bool extra(char, std::vector<long long> const&) { return false; }
    virtual bool ok() { return true; }
    void upwhere(Out &o, char const* p)
    {
        for(size_t k = 0; k < probe.bs.size(); ++k)
            if(p >= probe.bs[k].p && p <= probe.bs[k].p + probe.bs[k].sz && probe.bs[k].live)
            { o.open().str("u").i((long long)k + 1).i(p - probe.bs[k].p).close(); return; }
        o.open().str("?").i(0).close();
    }
};

struct Linear : public Target
{
    std::unique_ptr<c4::MemoryResourceLinear> l;
    std::vector<std::unique_ptr<Buf>> borrowed;
    std::vector<std::unique_ptr<c4::MemoryResource>> others;
    c4::MemoryResource *r = nullptr; // through which requests are made
    size_t mod = 64; // addresses are reported modulo this
    char* borrow(size_t cap, size_t mis)
    {
        borrowed.emplace_back(new Buf(cap + mod + mis));
        // the usable part ends exactly where the block ends
        Buf &b = *borrowed.back();
        char *p = b.p + b.n - cap;
        while((uintptr_t)p % mod != mis) --p;
        parts.push_back({p, cap});
        return p;
    }
    Linear(std::string const& kind, std::vector<long long> const& a)
    {
        c4::ScopedMemoryResource global(&probe); // where resources without an explicit one get their memory
        if(kind == "linw" || kind == "ownw") mod = 4096;
        if(kind == "lin" || kind == "linw") { l.reset(new c4::MemoryResourceLinear((void*)borrow((size_t)a[0], (size_t)a[1]), (size_t)a[0])); }
        else if(kind == "own" || kind == "ownw") l.reset(new c4::MemoryResourceLinear((size_t)a[0], &probe));
        else if(kind == "none") l.reset(new c4::MemoryResourceLinear(&probe));
        else if(kind == "arr16") l.reset(new c4::MemoryResourceLinearArr<16>());
        else if(kind == "arr40") l.reset(new c4::MemoryResourceLinearArr<40>());
        else _exit(44);
        r = l.get();
    }
    void* alloc(size_t sz, size_t al) override { return r->allocate(sz, al); }
    void* re(void *p, size_t o, size_t n, size_t al) override { return r->reallocate(p, o, n, al); }
    void  de(void *p, size_t sz, size_t al) override { r->deallocate(p, sz, al); }
    void where(Out &o, char const* p) override
    {
        if(!l || !l->mem()) { o.open().str("?").i(0).close(); return; }
        o.open().str("l").i(p - (char const*)l->mem()).close();
    }
    void info(Out &o) override
    {
        if(!l) { o.i(0).i(0).i(0).i(0); return; }
        o.i(l->mem() ? (long long)((uintptr_t)l->mem() % mod) : 0).sz(l->capacity()).sz(l->size()).sz(l->slack());
    }
    std::vector<std::pair<char*, size_t>> parts;
    bool ok() override // nothing around the borrowed memory has changed
    {
        for(size_t k = 0; k < borrowed.size(); ++k)
        {
            Buf &b = *borrowed[k];
            if(!b.ok()) return false;
            for(char *q = b.p; q < b.p + b.n; ++q)
                if((q < parts[k].first || q >= parts[k].first + parts[k].second) && *q != 0x5a) return false;
        }
        return true;
    }
    bool extra(char c, std::vector<long long> const& a) override
    {
        if(c == 'c') l->clear();
        else if(c == 'R') l->release();
        else if(c == 'Q') l->acquire((size_t)a[0]);
        else if(c == 'B') { char *p = borrow((size_t)a[0], (size_t)a[1]); l->acquire((void*)p, (size_t)a[0]); }
        else if(c == 'E') { r = nullptr; l.reset(); }
        else return false;
        return true;
    }
};

struct Counts : public Target // one or two levels of counting over the probe
{
    std::vector<std::unique_ptr<c4::MemoryResourceCounts>> c;
    int shift;
    Counts(long long n, int shift_) : shift(shift_) { probe.ghost = shift != 0; c4::MemoryResource *m = &probe; for(long long k = 0; k < n; ++k) { c.emplace_back(new c4::MemoryResourceCounts(m)); m = c.back().get(); } }
    void* alloc(size_t sz, size_t al) override { return c.back()->allocate(sz << shift, al); }
    void* re(void *p, size_t o, size_t n, size_t al) override { return c.back()->reallocate(p, o << shift, n << shift, al); }
    void  de(void *p, size_t sz, size_t al) override { c.back()->deallocate(p, sz << shift, al); }
    static void put(Out &o, c4::AllocationCounts const& k)
    { o.open().i(k.curr.allocs).i(k.curr.size).i(k.total.allocs).i(k.total.size).i(k.max.allocs).i(k.max.size).close(); }
    size_t unit() const override { return shift ? 0 : 1; }
    ssize_t num(ssize_t z) const { return z & ((ssize_t(1) << shift) - 1) ? -7 : z >> shift; }
    void info(Out &o) override
    {
        for(auto &k : c)
        {
            c4::AllocationCounts t = k->counts();
            t.curr.size = num(t.curr.size); t.total.size = num(t.total.size); t.max.size = num(t.max.size);
            put(o, t);
        }
    }
};

struct Malloc : public Target // the default aligned allocation functions, directly or as a resource
{
    c4::MemoryResource *m;
    bool direct;
    Malloc(long long d) : m(c4::get_memory_resource_malloc()), direct(d != 0) {}
    void* alloc(size_t sz, size_t al) override { return direct ? c4::aalloc(sz, al) : m->allocate(sz, al); }
    void* re(void *p, size_t o, size_t n, size_t al) override { return direct ? c4::arealloc(p, o, n, al) : m->reallocate(p, o, n, al); }
    void  de(void *p, size_t sz, size_t al) override { if(direct) c4::afree(p); else m->deallocate(p, sz, al); }
    void where(Out &o, char const* p) override { o.open().str("m").i((long long)((uintptr_t)p % 4096)).close(); }
};

struct Rec12 { int32_t a, b, c; };
struct alignas(16) Rec16 { char c[16]; };

template<class A> struct Typed : public Target
{
    using T = typename A::value_type;
    std::unique_ptr<A> a;
    c4::MemoryResource *saved = nullptr;
    bool small;
    size_t defal;
    char *objmem = nullptr;
    Typed(bool global, bool small_, size_t defal_) : small(small_), defal(defal_)
    {
        if(global) { saved = c4::get_memory_resource(); c4::set_memory_resource(&probe); a.reset(new A()); }
        else a.reset(mk(std::is_constructible<A, c4::MemoryResource*>()));
    }
    A* mk(std::true_type) { return new A(&probe); }
    A* mk(std::false_type) { return nullptr; }
    ~Typed() override { if(saved) c4::set_memory_resource(saved); }
    size_t unit() const override { return sizeof(T); }
    void* alloc(size_t n, size_t al) override { return al ? a->allocate(n, al) : a->allocate(n); }
    void* re(void *p, size_t o, size_t n, size_t al) override { return al ? a->reallocate((T*)p, o, n, al) : a->reallocate((T*)p, o, n); }
    void  de(void *p, size_t n, size_t al) override { if(al) a->deallocate((T*)p, n, al); else a->deallocate((T*)p, n); }
    void where(Out &o, char const* p) override
    {
        char const* obj = (char const*)a.get();
        if(p >= obj && p < obj + sizeof(A)) o.open().str("i").i(p - obj).close();
        else upwhere(o, p);
    }
    void info(Out &o) override { o.i((long long)((uintptr_t)a.get() % 64)).sz(sizeof(A)); }
};

static std::unique_ptr<Target> make(std::string const& t, std::vector<long long> const& p)
{
    Target *r = nullptr;
    if(t == "lin" || t == "own" || t == "linw" || t == "ownw" || t == "none" || t == "arr16" || t == "arr40") r = new Linear(t, p);
    else if(t == "cnt") r = new Counts(p[0], 0);
    else if(t == "cntg") r = new Counts(p[0], 30);
    else if(t == "malloc") r = new Malloc(p[0]);
    else if(t == "alc")  // params: sizeof, default alignment, type tag
    {
        switch(p[2])
        {
        case 0: r = new Typed<c4::allocator_mr<char>>(false, false, 1); break;
        case 1: r = new Typed<c4::allocator_mr<int32_t>>(false, false, 4); break;
        case 2: r = new Typed<c4::allocator_mr<Rec12>>(false, false, 4); break;
        case 3: r = new Typed<c4::allocator<Rec12>>(true, false, 4); break;
        case 4: r = new Typed<c4::allocator_mr<Rec16>>(false, false, 16); break;
        case 5: r = new Typed<c4::allocator<int64_t>>(true, false, 8); break;
        }
    }
    else if(t == "small") // params: sizeof, default alignment, type tag, N
    {
        switch(p[2])
        {
        case 0: r = new Typed<c4::small_allocator_mr<char, 8>>(false, true, 1); break;
        case 1: r = new Typed<c4::small_allocator_mr<int32_t, 4>>(false, true, 4); break;
        case 2: r = new Typed<c4::small_allocator_mr<Rec12, 3>>(false, true, 4); break;
        case 3: r = new Typed<c4::small_allocator_mr<char, 12, 8>>(false, true, 8); break;
        case 4: r = new Typed<c4::small_allocator<int32_t, 6>>(true, true, 4); break;
        case 5: r = new Typed<c4::small_allocator_mr<int16_t, 5, 4>>(false, true, 4); break;
        }
    }
    if(!r) { fprintf(stderr, "bad target %s\n", t.c_str()); _exit(44); }
    return std::unique_ptr<Target>(r);
}

static void parse(std::string const& tok, char &c, std::vector<long long> &v)
{
    c = tok[0]; v.clear();
    size_t p = 1;
    while(p < tok.size()) { v.push_back(strtoll(tok.c_str() + p + 1, nullptr, 10)); p = tok.find(':', p + 1); if(p == std::string::npos) break; }
}

static void history(Args const& a)
{
    std::string const& tgt = a.word(0);
    std::vector<long long> prm;
    { std::string const& s = a.word(1); size_t p = 0; while(p < s.size()) { prm.push_back(strtoll(s.c_str() + p, nullptr, 10)); p = s.find(',', p); if(p == std::string::npos) break; ++p; } }
    struct Live { char *p; size_t n; size_t al; };
    std::map<int, Live> live;
    std::string aj = "\"" + tgt + "\",[", rj;
    for(size_t k = 0; k < prm.size(); ++k) aj += (k ? "," : "") + std::to_string(prm[k]);
    aj += "],[";
    std::unique_ptr<Target> t;
    bool made = guarded([&]{ t = make(tgt, prm); });
    auto outcome = [&](std::string const& status, bool hasptr, char const* ptr) {
        Out o;
        o.open().str(status);
        if(hasptr) t->where(o, ptr); else o.open().close();
        o.open();
        for(auto &kv : live) o.open().i(kv.first).bytes(kv.second.p, kv.second.n * t->unit()).close();
        o.close();
        o.rawj(t->probe.take());
        o.open(); t->info(o); o.close();
        o.close();
        if(!rj.empty()) rj += ',';
        rj += o.s;
    };
    if(!made) { Out o; o.open().str("err").close(); rj = o.s; }
    else outcome("ok", false, nullptr);
    for(size_t s = 2; made && s < a.size(); ++s)
    {
        char c; std::vector<long long> v;
        parse(a.word(s), c, v);
        if(s > 2) aj += ',';
        aj += std::string("[\"") + c + "\"";
        for(long long x : v) aj += "," + std::to_string(x);
        aj += "]";
        char *ptr = nullptr; bool hasptr = false, skip = false;
        int id = v.empty() ? 0 : (int)v[0];
        bool ok = guarded([&]{
            switch(c)
            {
            case 'a': // id n align
                if(live.count(id)) { skip = true; break; }
                ptr = (char*)t->alloc((size_t)v[1], (size_t)v[2]);
                live[id] = Live{ptr, (size_t)v[1], (size_t)v[2]}; hasptr = true;
                break;
            case 'r': // id n
            {
                if(!live.count(id)) { skip = true; break; }
                Live &b = live[id];
                size_t n = v[1] < 0 ? NPOS - (size_t)(-v[1]) + 1 : (size_t)v[1];
                ptr = (char*)t->re(b.p, b.n, n, b.al);
                if(n > 100000) { hasptr = true; live.erase(id); break; }
                b.p = ptr; b.n = n; hasptr = true;
                break;
            }
            case 'd':
                if(!live.count(id)) { skip = true; break; }
                t->de(live[id].p, live[id].n, live[id].al);
                live.erase(id);
                break;
            case 'w': // id byte
                if(!live.count(id)) { skip = true; break; }
                memset(live[id].p, (int)v[1], live[id].n * t->unit());
                break;
            case 'f': t->probe.failnext = true; break;
            default:
                live.clear();
                if(!t->extra(c, v)) { fprintf(stderr, "bad step %c\n", c); _exit(44); }
            }
        });
        outcome(skip ? "skip" : ok ? "ok" : "err", hasptr && ok, ptr);
        if(!t->ok()) { rj += ",[\"corrupt\"]"; break; }
    }
    if(made && tgt == "malloc") for(auto &kv : live) t->de(kv.second.p, kv.second.n, kv.second.al);
    aj += "]";
    Out o; o.rawj(rj);
    emit_as("mem", aj, o);
    guarded([&]{ t.reset(); });
}

//---------------------------------------------------------------- scopes
// scope step...: the global resource; steps: S:k scoped resource k, C scoped counts,
// K:k scoped counts of resource k, P leave the innermost scope, s:k set, a:n / d:n allocate and free through the global resource, t other thread
static void scopes(Args const& a)
{
    struct Sc { std::unique_ptr<c4::ScopedMemoryResource> s; std::unique_ptr<c4::ScopedMemoryResourceCounts> c; int id; };
    std::vector<Sc> st;
    Probe pr[3];
    c4::MemoryResource *orig = c4::get_memory_resource();
    pr[2].name = orig->name; // resources are told apart by identity
    int nc = 0;
    std::map<int, std::pair<void*, size_t>> live; std::map<int, int> from;
    std::string aj = "[", rj;
    int nid = 0;
    // 0: the initial resource; 1..3: probes; 10+k: counts of scope k
    auto name = [&](c4::MemoryResource *m) -> int {
        if(m == orig) return 0;
        for(int k = 0; k < 3; ++k) if(m == &pr[k]) return k + 1;
        for(auto &s : st) if(s.c && m == &s.c->mr) return 10 + s.id;
        return -1;
    };
    auto outcome = [&](std::string const& status, long long extra) {
        Out o;
        o.open().str(status).i(name(c4::get_memory_resource())).i(extra);
        o.open();
        for(auto &s : st) if(s.c) { o.open().i(10 + s.id).i(name(s.c->mr.resource())); Counts::put(o, s.c->mr.counts()); o.close(); }
        o.close();
        o.open(); for(int k = 0; k < 3; ++k) o.rawj(pr[k].take()); o.close();
        o.close();
        if(!rj.empty()) rj += ',';
        rj += o.s;
    };
    for(size_t s = 0; s < a.size(); ++s)
    {
        char c; std::vector<long long> v;
        parse(a.word(s), c, v);
        if(s) aj += ',';
        aj += std::string("[\"") + c + "\"";
        for(long long x : v) aj += "," + std::to_string(x);
        aj += "]";
        bool skip = false; long long ex = 0;
        auto res = [&](long long k) -> c4::MemoryResource* { return k == 0 ? orig : &pr[k - 1]; };
        bool ok = guarded([&]{
            switch(c)
            {
            case 'S': { Sc x; x.id = nc++; x.s.reset(new c4::ScopedMemoryResource(res(v[0]))); st.push_back(std::move(x)); break; }
            case 'C': { Sc x; x.id = nc++; x.c.reset(new c4::ScopedMemoryResourceCounts()); st.push_back(std::move(x)); break; }
            case 'K': { Sc x; x.id = nc++; x.c.reset(new c4::ScopedMemoryResourceCounts(res(v[0]))); st.push_back(std::move(x)); break; }
            case 'P': if(st.empty()) skip = true; else st.pop_back(); break;
            case 's': c4::set_memory_resource(res(v[0])); break;
            case 'a': { void *p = c4::get_memory_resource()->allocate((size_t)v[0]); ex = ++nid; live[nid] = {p, (size_t)v[0]}; from[nid] = name(c4::get_memory_resource()); break; }
            case 'd': { int id = (int)v[0]; // only through the resource it came from
                if(!live.count(id) || from[id] != name(c4::get_memory_resource())) { skip = true; break; }
                c4::get_memory_resource()->deallocate(live[id].first, live[id].second); live.erase(id); break; }
            case 'f': if(c4::get_memory_resource() == orig) skip = true; else for(auto &p : pr) p.failnext = true; break;
            case 't': { // what another thread sees, and that it does not disturb this one
                c4::MemoryResource *seen = nullptr, *mine = c4::get_memory_resource();
                std::thread th([&]{ seen = c4::get_memory_resource(); c4::set_memory_resource(&pr[0]); });
                th.join();
                ex = (seen == c4::get_memory_resource_malloc() ? 1 : 0) + (mine == c4::get_memory_resource() ? 2 : 0);
                break; }
            default: _exit(44);
            }
        });
        if(c != 'f') for(auto &p : pr) p.failnext = false;
        outcome(skip ? "skip" : ok ? "ok" : "err", ex);
    }
    while(!st.empty()) st.pop_back();
    c4::set_memory_resource(orig);
    aj += "]";
    Out o; o.rawj(rj);
    emit_as("scope", aj, o);
}

//---------------------------------------------------------------- replaceable functions
// hooks via step...: A:k R:k F:k install function k (0: the original one); a:id:n:al r:id:n d:id w:id:byte
namespace hooks {
static std::string log;
static void add(std::string const& s) { if(!log.empty()) log += ','; log += s; }
static c4::aalloc_pfn A0; static c4::arealloc_pfn R0; static c4::afree_pfn F0;
static void* raw(size_t n, size_t al) { void *p = nullptr; if(al < sizeof(void*)) al = sizeof(void*); if(posix_memalign(&p, al, n ? n : 1)) _exit(45); memset(p, 0xEE, n); return p; }
template<int K> void* A(size_t n, size_t al) { add("[\"A\"," + std::to_string(K) + "," + std::to_string(n) + "," + std::to_string(al) + "]"); return raw(n, al); }
template<int K> void* R(void *p, size_t o, size_t n, size_t al) { add("[\"R\"," + std::to_string(K) + "," + std::to_string(o) + "," + std::to_string(n) + "," + std::to_string(al) + "]"); void *q = raw(n, al); memcpy(q, p, o < n ? o : n); free(p); return q; }
template<int K> void F(void *p) { add("[\"F\"," + std::to_string(K) + "]"); free(p); }
static c4::aalloc_pfn As(long long k) { return k == 0 ? A0 : k == 1 ? &A<1> : &A<2>; }
static c4::arealloc_pfn Rs(long long k) { return k == 0 ? R0 : k == 1 ? &R<1> : &R<2>; }
static c4::afree_pfn Fs(long long k) { return k == 0 ? F0 : k == 1 ? &F<1> : &F<2>; }
static void run(Args const& a)
{
    A0 = c4::get_aalloc(); R0 = c4::get_arealloc(); F0 = c4::get_afree();
    bool via = a.flag(0);
    c4::MemoryResource *m = c4::get_memory_resource_malloc();
    struct L { char *p; size_t n, al; }; std::map<int, L> live;
    std::string aj = "[", rj;
    for(size_t s = 1; s < a.size(); ++s)
    {
        char c; std::vector<long long> v; parse(a.word(s), c, v);
        if(s > 1) aj += ',';
        aj += std::string("[\"") + c + "\""; for(long long x : v) aj += "," + std::to_string(x); aj += "]";
        bool skip = false; int id = (int)v[0]; long long mis = 0;
        bool ok = guarded([&]{
            switch(c)
            {
            case 'A': c4::set_aalloc(As(v[0])); break;
            case 'R': c4::set_arealloc(Rs(v[0])); break;
            case 'F': c4::set_afree(Fs(v[0])); break;
            case 'a': { if(live.count(id)) { skip = true; break; } size_t n = (size_t)v[1], al = (size_t)v[2];
                char *p = (char*)(via ? m->allocate(n, al) : c4::aalloc(n, al)); live[id] = L{p, n, al}; memset(p, id, n); mis = (long long)((uintptr_t)p % al); break; }
            case 'r': { if(!live.count(id)) { skip = true; break; } L &b = live[id]; size_t n = (size_t)v[1];
                char *p = (char*)(via ? m->reallocate(b.p, b.n, n, b.al) : c4::arealloc(b.p, b.n, n, b.al));
                for(size_t k = 0; k < n && k < b.n; ++k) if(p[k] != (char)id) mis = -1;
                if(!mis) mis = (long long)((uintptr_t)p % b.al);
                b.p = p; b.n = n; memset(p, id, n); break; }
            case 'd': { if(!live.count(id)) { skip = true; break; } L b = live[id]; live.erase(id); if(via) m->deallocate(b.p, b.n, b.al); else c4::afree(b.p); break; }
            default: _exit(44);
            }
        });
        auto which = [](bool z, bool o, bool t) { return z ? 0 : o ? 1 : t ? 2 : -1; };
        Out o; o.open().str(skip ? "skip" : ok ? "ok" : "err").i(mis).rawj("[" + log + "]");
        o.i(which(c4::get_aalloc() == A0, c4::get_aalloc() == As(1), c4::get_aalloc() == As(2)));
        o.i(which(c4::get_arealloc() == R0, c4::get_arealloc() == Rs(1), c4::get_arealloc() == Rs(2)));
        o.i(which(c4::get_afree() == F0, c4::get_afree() == Fs(1), c4::get_afree() == Fs(2)));
        o.close(); log.clear();
        if(!rj.empty()) rj += ',';
        rj += o.s;
    }
    c4::set_aalloc(A0); c4::set_arealloc(R0); c4::set_afree(F0);
    for(auto &kv : live) c4::afree(kv.second.p);
    aj += "]";
    Out o; o.rawj(rj);
    emit_as("hooks", aj, o);
}
} // namespace hooks

//---------------------------------------------------------------- containers
struct Less2 { template<class T> bool operator()(T const& x, T const& y) const { return x < y; } };
template<class C> struct Seq
{
    static void put(C &c, Out &o) { o.open(); for(auto x : c) o.i((long long)x); o.close(); }
    static void step(C &c, char k, std::vector<long long> const& v)
    {
        typename C::iterator it = c.begin();
        size_t n = c.size();
        switch(k)
        {
        case 'p': c.push_back((typename C::value_type)v[0]); break;
        case 'o': if(n) c.pop_back(); break;
        case 'i': std::advance(it, (long)std::min((size_t)v[0], n)); c.insert(it, (typename C::value_type)v[1]); break;
        case 'e': if(n) { std::advance(it, (long)std::min((size_t)v[0], n - 1)); c.erase(it); } break;
        case 'z': c.resize((size_t)v[0], (typename C::value_type)7); break;
        case 'c': c.clear(); break;
        default: _exit(44);
        }
    }
};
template<class V> auto shrink(V &v, int) -> decltype(v.shrink_to_fit(), v.reserve(1), void()) { v.shrink_to_fit(); }
template<class V> void shrink(V &, long) {}
template<class V> auto reserve(V &v, size_t n, int) -> decltype(v.reserve(n), void()) { if(n < 500) v.reserve(n); }
template<class V> void reserve(V &, size_t, long) {}
template<class V> void copies(V &c, char k, std::true_type)
{
    if(k == 'x') { V d(c); V e(c.get_allocator()); e = d; c.swap(e); }     // copy, assign, swap
    else { V d(std::move(c)); c = std::move(d); }                          // move away and back
}
template<class V> void copies(V &, char, std::false_type) {}
template<class C, bool copyable, class A> void container(Args const& a, Probe &probe, A const& al, std::string &aj, std::string &rj)
{
    {
        C c(al);
        for(size_t s = 1; s < a.size(); ++s)
        {
            char k; std::vector<long long> v; parse(a.word(s), k, v);
            aj += std::string(s > 1 ? "," : "") + "[\"" + k + "\""; for(long long x : v) aj += "," + std::to_string(x); aj += "]";
            if(k == 'k') { if(copyable) shrink(c, 0); } // the library may go through a copy of the allocator
            else if(k == 'r') reserve(c, (size_t)v[0], 0);
            else if(k == 'x' || k == 'y') copies(c, k, std::integral_constant<bool, copyable>());
            else Seq<C>::step(c, k, v);
            Out o; Seq<C>::put(c, o); rj += (rj.empty() ? "" : ",") + o.s;
        }
    }
    rj += std::string(rj.empty() ? "" : ",") + probe.take();
}
static void containers(Args const& a)
{
    std::string const& t = a.word(0);
    std::string aj = "\"" + t + "\",[", rj;
    Probe probe;
    c4::MemoryResource *saved = c4::get_memory_resource();
    bool ok = guarded([&]{
        if(t == "vec") container<std::vector<int, c4::allocator_mr<int>>, true>(a, probe, c4::allocator_mr<int>(&probe), aj, rj);
        else if(t == "gvec") { c4::set_memory_resource(&probe); container<std::vector<int, c4::allocator<int>>, true>(a, probe, c4::allocator<int>(), aj, rj); }
        else if(t == "svec") container<std::vector<int, c4::small_allocator_mr<int, 4>>, false>(a, probe, c4::small_allocator_mr<int, 4>(&probe), aj, rj);
        else if(t == "list") container<std::list<int, c4::allocator_mr<int>>, true>(a, probe, c4::allocator_mr<int>(&probe), aj, rj);
        else if(t == "deq") container<std::deque<int, c4::allocator_mr<int>>, true>(a, probe, c4::allocator_mr<int>(&probe), aj, rj);
        else if(t == "str") container<std::basic_string<char, std::char_traits<char>, c4::allocator_mr<char>>, true>(a, probe, c4::allocator_mr<char>(&probe), aj, rj);
        else _exit(44);
    });
    c4::set_memory_resource(saved);
    if(!ok) { Out o; o.open().str("err").close(); rj = o.s; }
    aj += "]";
    Out o; o.rawj(rj);
    emit_as("cont", aj, o);
}

int main(int argc, char **argv)
{
    auto &h = handlers();
    h["hooks"] = [](Args const& a, Out&) { hooks::run(a); };
    h["cont"] = [](Args const& a, Out&) { containers(a); };
    // alceq c r1 d r2 e: allocators made while c and d are current, of r1 and r2 (0: whichever is current); then e is current
    h["alceq"] = [](Args const& a, Out& o) {
        Probe pr[3];
        c4::MemoryResource *saved = c4::get_memory_resource();
        auto res = [&](size_t k) -> c4::MemoryResource* { size_t i = a.sz(k); return i ? &pr[i - 1] : nullptr; };
        auto which = [&](c4::MemoryResource *r) { for(int k = 0; k < 3; ++k) if(r == &pr[k]) return k + 1; return -1; };
        using AI = c4::allocator_mr<int>; using AD = c4::allocator_mr<double>; using G = c4::allocator<int>; using GD = c4::allocator<double>;
        bool ok = guarded([&]{
            c4::set_memory_resource(res(0));
            AI x(res(1)); AI x0;
            c4::set_memory_resource(res(2));
            AD y(res(3)); AD y0; G g; GD gd;
            c4::set_memory_resource(res(4));
            o.str("ok");
            o.i(which(x.resource())).i(which(x0.resource())).i(which(y.resource())).i(which(y0.resource())).i(which(g.resource()));
            AI c = x; AD rb = x.rebound<double>(); AI sel = x.select_on_container_copy_construct(); AI as; as = x; AD cv(x); AI mv(std::move(c)); AI ct(x);
            o.i(which(mv.resource())).i(which(rb.resource())).i(which(sel.resource())).i(which(as.resource())).i(which(cv.resource())).i(which(ct.resource()));
            o.b(x == x0).b(x != x0).b(x == y).b(x != y).b(y == x0).b(y != x0).b(x == rb).b(x != cv).b(g == gd).b(g != gd).b(y == gd).b(y != g);
            // what is allocated from
            AI(x).deallocate(AI(x).allocate(3), 3); for(int k = 0; k < 3; ++k) o.rawj(pr[k].take());
            rb.deallocate(rb.allocate(2), 2); for(int k = 0; k < 3; ++k) o.rawj(pr[k].take());
            g.deallocate(g.allocate(1), 1); for(int k = 0; k < 3; ++k) o.rawj(pr[k].take());
        });
        c4::set_memory_resource(saved);
        if(!ok) { o = Out(); o.str("err"); }
        emit(o);
    };
    // more objects than there are bytes: the size in bytes wraps
    h["many"] = [](Args const& a, Out& o) {
        struct alignas(8) S24 { char c[24]; };
        std::string w = a.word(0);
        size_t k = a.sz(1);
        auto one = [&](auto *t) {
            using T = typename std::remove_pointer<decltype(t)>::type;
            size_t n = ~size_t(0) / sizeof(T) + 1 + k;
            Buf room(4096);
            c4::MemoryResourceLinear lin(room.p, room.n);
            c4::Allocator<T> g; c4::Allocator<T, c4::MemRes> m(&lin); c4::SmallAllocator<T, 4> s; c4::SmallAllocator<T, 4, alignof(T), c4::MemRes> sm(&lin);
            T *p = nullptr; bool got = false;
            auto take = [&](T *q) { p = q; got = true; };
            bool ok = guarded([&]{
                if(w == "g") take(g.allocate(n)); else if(w == "m") take(m.allocate(n)); else if(w == "s") take(s.allocate(n)); else if(w == "sm") take(sm.allocate(n));
                else if(w == "gr") { T *q = g.allocate(2); take(g.reallocate(q, 2, n)); }
                else if(w == "mr") { T *q = m.allocate(2); take(m.reallocate(q, 2, n)); }
                else if(w == "sr") { T *q = s.allocate(2); take(s.reallocate(q, 2, n)); }
                else if(w == "sor") { T *q = s.allocate(6); take(s.reallocate(q, 6, n)); }
                else if(w == "lin") { lin.allocate(k + 1, 1); lin.allocate(~size_t(0) - k, alignof(T)); got = true; }
                else if(w == "linr") { void *q = lin.allocate(k + 1, 1); lin.reallocate(q, k + 1, ~size_t(0) - k, 1); got = true; }
                else _exit(44);
            });
            o.str(!room.ok() ? "wild" : got ? "block" : ok ? "none" : "err");
        };
        if(a.num(2) == 8) one((uint64_t*)nullptr); else one((S24*)nullptr);
        emit(o); };
    // more memory than there is
    h["huge"] = [](Args const& a, Out& o) { size_t n = ~size_t(0) / 2 - a.sz(0), al = a.sz(1); void *p = nullptr;
        bool ok = guarded([&]{ p = a.flag(2) ? c4::get_memory_resource_malloc()->allocate(n, al) : c4::aalloc(n, al); });
        o.str(ok ? (p ? "block" : "null") : "err"); emit(o); };
    h["bigre"] = [](Args const& a, Out& o) { // direct, old size, new size, alignment
        bool d = a.flag(0); size_t n = a.sz(1), m = a.sz(2), al = a.sz(3);
        c4::MemoryResource *r = c4::get_memory_resource_malloc();
        char *p = nullptr, *q = nullptr; size_t same = 0, x = 0, y = 0;
        auto pat = [](size_t k) { return (char)(k * 2654435761u >> 13); };
        bool ok = guarded([&]{
            p = (char*)(d ? c4::aalloc(n, al) : r->allocate(n, al)); x = (uintptr_t)p % al;
            for(size_t k = 0; k < n; ++k) p[k] = pat(k);
            q = (char*)(d ? c4::arealloc(p, n, m, al) : r->reallocate(p, n, m, al)); y = (uintptr_t)q % al;
            while(same < n && same < m && q[same] == pat(same)) ++same;
            memset(q, 0x33, m);
            if(d) c4::afree(q); else r->deallocate(q, m, al);
        });
        o.str(ok ? "ok" : "err").sz(same).sz(x).sz(y); emit(o); };
    h["mem"] = [](Args const& a, Out&) { history(a); };
    h["scope"] = [](Args const& a, Out&) { scopes(a); };
    h["cntop"] = [](Args const& a, Out& o) { // two histories of counts; -, +, update, clear
        c4::AllocationCounts x, y;
        auto fill = [&](c4::AllocationCounts &c, std::string const& s) { for(char ch : s) { long long n = (unsigned char)ch; if(n < 128) c.add_counts(&x, (size_t)n); else c.rem_counts(&x, (size_t)(n - 128)); } };
        fill(x, a.str(0)); fill(y, a.str(1));
        o.str("ok");
        Counts::put(o, x); Counts::put(o, y); Counts::put(o, x - y); Counts::put(o, x + y);
        c4::AllocationCounts z = x; z.update(y); Counts::put(o, z);
        c4::AllocationCounts w = x; w.add_counts(nullptr, 5); w.rem_counts(nullptr, 5); Counts::put(o, w);
        w.clear_counts(); Counts::put(o, w);
        emit(o);
    };
    return run(argc, argv);
}
