// Histories of error settings, and errors raised in a child process.
#include "vf.hpp"
#include <new>
#include <stdexcept>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/ptrace.h>
using namespace vf;

struct Shared { int ncalls; int end; int line; struct { int id; size_t len, strl; char msg[2048]; } c[4]; char what[2048]; };
static Shared *sh;
static jmp_buf out;
static void rec(int id, const char *m, size_t n)
{
    if(sh->ncalls < 4)
    {
        auto &c = sh->c[sh->ncalls];
        c.id = id; c.len = n; c.strl = strnlen(m, 2047);
        memcpy(c.msg, m, n < 2047 ? n : 2047);
    }
    ++sh->ncalls;
}
static void cb1(const char *m, size_t n) { rec(1, m, n); }
static void cb2(const char *m, size_t n) { rec(2, m, n); throw 2; }
static void cb3(const char *m, size_t n) { rec(3, m, n); longjmp(out, 1); }
// an error in the callback, which the callback throws
static void cb4(const char *m, size_t n) { rec(4, m, n); if(sh->ncalls == 1) C4_ERROR("inner"); throw 2; }
// an error in the callback, with settings of its own, which it gets over
static void cb5(const char *m, size_t n)
{
    rec(5, m, n);
    c4::ScopedErrorSettings s(c4::ON_ERROR_CALLBACK, cb2);
    try { C4_ERROR("inner %d", 1); } catch(int) {}
}
static const c4::error_callback_type cbs[] = {nullptr, cb1, cb2, cb3, cb4, cb5};
static c4::error_callback_type cb_of(int k) { return cbs[k]; }
static int id_of(c4::error_callback_type c) { for(int k = 0; k < 6; ++k) if(cbs[k] == c) return k; return -1; }

#define AT(...) do { sh->line = __LINE__; __VA_ARGS__; return; } while(0)
static void raise_it(std::string const& site, int n, const char *t)
{
    (void)n; (void)t;
    if(site == "err") AT(C4_ERROR("%s", t));
    if(site == "lit") AT(C4_ERROR("literal"));
    if(site == "num") AT(C4_ERROR("a=%d b=%s.", n, t));
    if(site == "bad") AT(C4_ERROR("a=%d %ls", n, L"\x4e2d"));
    if(site == "warn") AT(C4_WARNING("%s", t));
    if(site == "check") AT(C4_CHECK(n % 2 == 1));
    if(site == "checkm") AT(C4_CHECK_MSG(n % 2 == 1, "n=%d %s", n, t));
    if(site == "assert") AT(C4_ASSERT(n % 2 == 1));
    if(site == "assertm") AT(C4_ASSERT_MSG(n % 2 == 1, "n=%d %s", n, t));
    if(site == "Xassert") AT(C4_XASSERT(n % 2 == 1));
    if(site == "Xassertm") AT(C4_XASSERT_MSG(n % 2 == 1, "n=%d %s", n, t));
    if(site == "assertif") AT(C4_ASSERT_IF(n > 0, n % 2 == 1));
    if(site == "Xassertif") AT(C4_XASSERT_IF(n > 0, n % 2 == 1));
    if(site == "ni") AT(C4_NOT_IMPLEMENTED());
    if(site == "nim") AT(C4_NOT_IMPLEMENTED_MSG("%s", t));
    if(site == "niif") AT(C4_NOT_IMPLEMENTED_IF(n % 2 == 0));
    if(site == "niifm") AT(C4_NOT_IMPLEMENTED_IF_MSG(n % 2 == 0, "%s", t));
    if(site == "never") AT(C4_NEVER_REACH());
    if(site == "neverm") AT(C4_NEVER_REACH_MSG("%s", t));
    _exit(44);
}

static void raised(std::string const& site, int n, std::string const& t, Out &o)
{
    fflush(g_out); fflush(stderr); fflush(stdout);
    memset((void*)sh, 0, sizeof(Shared));
    int p[2];
    if(pipe(p) != 0) _exit(43);
    fcntl(p[1], F_SETPIPE_SZ, 1 << 16);
    pid_t pid = fork();
    if(pid < 0) _exit(43);
    if(pid == 0)
    {
        dup2(p[1], 2);
        int end = 5;
        if(setjmp(out) == 0)
        {
            try { raise_it(site, n, t.c_str()); end = 1; }
            catch(int) { end = 2; }
            catch(std::runtime_error const& e) { end = 4; strncpy(sh->what, e.what(), 2047); }
            catch(...) { end = 6; }
        }
        else end = 3;
        sh->end = end;
        _exit(0);
    }
    close(p[1]);
    std::string log; char b[4096]; ssize_t k;
    while((k = read(p[0], b, sizeof(b))) > 0) log.append(b, (size_t)k);
    close(p[0]);
    int ws = 0;
    waitpid(pid, &ws, 0);
    const char *e = "?";
    if(WIFSIGNALED(ws) && WTERMSIG(ws) == SIGABRT && sh->end == 0) e = "abort";
    else if(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)
    {
        static const char *names[] = {"exit", "returned", "thrown", "jumped", "exception", "?", "other"};
        e = names[sh->end];
    }
    o.open().str(e).open();
    for(int c = 0; c < sh->ncalls && c < 4; ++c)
        o.open().i(sh->c[c].id).bytes(sh->c[c].msg, sh->c[c].len < 2047 ? sh->c[c].len : 2047).b(sh->c[c].strl == sh->c[c].len).close();
    o.close().bytes(log).bytes(std::string(__FILE__) + ":" + std::to_string(sh->line) + ":").bytes(std::string(sh->what)).close();
}

static std::vector<std::string> parts(std::string const& s)
{
    std::vector<std::string> v(1);
    for(char c : s) { if(c == ':') v.emplace_back(); else v.back() += c; }
    return v;
}

static void h_err(Args const& a, Out &o)
{
    c4::set_error_flags(c4::ON_ERROR_DEFAULTS);
    c4::set_error_callback(nullptr);
    std::vector<c4::ScopedErrorSettings*> scopes;
    std::string hist;
    for(size_t k = 0; k < a.size(); ++k)
    {
        auto p = parts(a.word(k));
        hist += k ? ",[" : "[";
        for(size_t m = 0; m < p.size(); ++m) { if(m) hist += ","; hist += tok2json(p[m]); }
        hist += "]";
        auto num = [&](size_t m) { return (uint32_t)atoi(p.at(m).c_str()); };
        Out x;
        if(p[0] == "F") c4::set_error_flags(num(1));
        else if(p[0] == "C") c4::set_error_callback(cb_of((int)num(1)));
        else if(p[0] == "pF") scopes.push_back(new c4::ScopedErrorSettings(num(1)));
        else if(p[0] == "pC") scopes.push_back(new c4::ScopedErrorSettings(cb_of((int)num(1))));
        else if(p[0] == "pB") scopes.push_back(new c4::ScopedErrorSettings(num(1), cb_of((int)num(2))));
        else if(p[0] == "q") { delete scopes.back(); scopes.pop_back(); }
        else if(p[0] == "E") { Args q; q.t = p; raised(p[1], (int)num(2), q.str(3), x); }
        else _exit(44);
        o.open().i(c4::get_error_flags()).i(id_of(c4::get_error_callback()));
        if(p[0] == "E") o.rawj(x.s); else o.open().close();
        o.close();
    }
    for(size_t k = scopes.size(); k-- > 0; ) delete scopes[k];
    #ifdef NDEBUG
    std::string pre = "false";
    #else
    std::string pre = "true";
    #endif
    #if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
    pre += ",true";
    #else
    pre += ",false";
    #endif
    arm_errors();
    emit_as("err", pre + ",[" + hist + "]", o);
}

// is_debugger_attached() against what the system says
static int traced()
{
    FILE *f = fopen("/proc/self/status", "r");
    char b[256]; int r = 0;
    if(!f) return 0;
    while(fgets(b, sizeof(b), f)) if(!strncmp(b, "TracerPid:", 10)) r = atoi(b + 10) != 0;
    fclose(f);
    return r;
}
static void h_dbg(Args const& a, Out &o)
{
    fflush(g_out);
    memset((void*)sh, 0, sizeof(Shared));
    bool want = a.flag(0);
    pid_t pid = fork();
    if(pid < 0) _exit(43);
    if(pid == 0)
    {
        if(want && ptrace(PTRACE_TRACEME, 0, nullptr, nullptr) != 0) want = false;
        sh->ncalls = traced();
        sh->line = c4::is_debugger_attached();
        sh->end = c4::is_debugger_attached() == (bool)sh->line;
        _exit(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    o.b(sh->ncalls != 0).b(sh->line != 0 && sh->end);
    if(!sh->end) o.str("unstable");
    emit(o);
}

int main(int argc, char **argv)
{
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    handlers()["err"] = h_err;
    handlers()["dbg"] = h_dbg;
    return run(argc, argv);
}
