// conformance driver: pseudo-random generators
//
//   rng KIND HIST   two generators A and B of a kind; steps: n (A fresh), N.HEX (A from a seed), s.HEX (seed A),
//                   d (draw from A), b (draw from B), k.N (skip N in A), j.HEX (skip that many in A), c (copy A to B), e (compare), u (draw through a standard distribution's view: min and max)
#include "vf.hpp"
#include "c4/ext/rng/rng.hpp"
using namespace vf;

static std::vector<std::string> split(std::string const& s, char c)
{
    std::vector<std::string> v(1);
    for(char x : s) { if(x == c) v.emplace_back(); else v.back() += x; }
    return v;
}
static uint64_t u64(std::string const& h) { return strtoull(h.c_str(), nullptr, 16); }
static std::string jb(uint64_t v, int n) { std::string s = "["; for(int k = 0; k < n; ++k) s += (k ? "," : "") + std::to_string((v >> (8 * k)) & 0xff); return s + "]"; }
template<class G> G with_seed(uint64_t s) { return G(s); }
template<> c4::rng::xorshift with_seed<c4::rng::xorshift>(uint64_t s) { c4::rng::xorshift g; g.seed(s); return g; }
template<class G> void go(Args const& a, Out &o)
{
    G A, B; std::string hj;
    for(auto const& w : split(a.word(1), '_'))
    {
        auto f = split(w, '.');
        std::string j = "[\"" + f[0] + "\"";
        switch(f[0][0])
        {
        case 'n': A = G(); o.str("-"); break;
        case 'N': A = with_seed<G>(u64(f[1])); j += "," + jb(u64(f[1]), 8); o.str("-"); break;
        case 's': A.seed(u64(f[1])); j += "," + jb(u64(f[1]), 8); o.str("-"); break;
        case 'd': o.rawj(jb(A(), 4)); break;
        case 'b': o.rawj(jb(B(), 4)); break;
        case 'k': A.discard(strtoull(f[1].c_str(), nullptr, 10)); j += "," + f[1]; o.str("-"); break;
        case 'j': A.discard(u64(f[1])); j += "," + jb(u64(f[1]), 8); o.str("-"); break;
        case 'c': B = A; o.str("-"); break;
        case 'e': o.open().b(A == B).b(A != B).b(B == A).b(B != A).close(); break;
        default: o.open().rawj(jb((G::min)(), 4)).rawj(jb((G::max)(), 4)).i((long long)sizeof(typename G::result_type)).close(); break;
        }
        hj += (hj.empty() ? "" : ",") + j + "]";
    }
    emit_as("rng", "\"" + a.word(0) + "\",[" + hj + "]", o);
}
int main(int argc, char **argv)
{
    handlers()["rng"] = [](Args const& a, Out &o){
        if(a.word(0) == "splitmix") go<c4::rng::splitmix>(a, o); else if(a.word(0) == "xorshift") go<c4::rng::xorshift>(a, o); else go<c4::rng::pcg>(a, o);
    };
    return run(argc, argv);
}
