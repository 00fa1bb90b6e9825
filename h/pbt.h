// Small property-based-testing engine: every generated case is a function of a
// sequence of integer choices, so any failing case can be shrunk by simplifying
// the sequence, and replayed from it.
#pragma once
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <functional>

namespace pbt {

struct Discard {};                       // the drawn case is outside the domain
struct Failure { std::string site, msg; };

class Source {
public:
    Source(uint64_t seed) : m_state(seed), m_random(true) {}
    Source(const std::vector<uint32_t> & in) : m_in(in), m_random(false) {}

    // integer in [0,n)
    uint32_t draw(uint32_t n)
    {
        uint32_t v;
        if (n<=1) return 0;
        if (m_random) v = (uint32_t)(next() % n);
        else { v = m_pos<m_in.size() ? m_in[m_pos] : 0; if (v>=n) v = n-1; }
        m_pos++;
        m_rec.push_back(v);
        if (m_hook) m_hook(v);
        return v;
    }
    int    range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi-lo+1)); }
    // k-th choice 0 is the simplest
    bool   flag(int percent=50)  { return draw(100) >= (uint32_t)(100-percent); }
    // real in [lo,hi]; choice 0 is 'simple'. Roughly 1/32 of the draws are simple or an end point
    double real(double lo, double hi, double simple)
    {
        uint32_t v = draw(1u<<20);
        if (v < (1u<<14)) return simple;
        if (v < (1u<<14)+(1u<<12)) return lo;
        if (v < (1u<<14)+(1u<<13)) return hi;
        double s = double(v-(1u<<14)-(1u<<13))/double((1u<<20)-(1u<<14)-(1u<<13)-1);
        return lo + (hi-lo)*s;
    }
    double real(double lo, double hi) { return real(lo,hi,lo); }
    double sym(double a) { return real(-a,a,0.0); }
    double logreal(double lo, double hi, double simple) { return std::exp(real(std::log(lo),std::log(hi),std::log(simple))); }

    const std::vector<uint32_t> & record() const { return m_rec; }
    std::function<void(uint32_t)> m_hook;
private:
    uint64_t next()
    {   // splitmix64
        uint64_t z = (m_state += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::vector<uint32_t> m_in, m_rec;
    size_t m_pos = 0;
    uint64_t m_state = 0;
    bool m_random;
};

class Ctx {
public:
    Source & s;
    explicit Ctx(Source & src, const std::string & tier) : s(src), tier(tier) {}
    std::string tier;
    bool thorough() const { return tier=="thorough"; }
    // description of the case (a sample for the evidence, and the text of a failure)
    std::ostringstream desc;
    std::vector<std::string> labels;
    bool m_nontrivial = false;
    long m_checks = 0;
    void nontrivial(bool b=true) { if (b) m_nontrivial = true; }
    void label(const std::string & l) { labels.push_back(l); }
    void discard() { throw Discard(); }
    void require(bool b) { if (!b) throw Discard(); }   // domain restriction
    void fail(const std::string & site, const std::string & msg) { throw Failure{site,msg}; }
    void check(bool b, const std::string & site, const std::string & msg="")
    { m_checks++; if (!b) fail(site,msg); }
    // |a-b| <= tol*scale
    void close(double a, double b, double scale, double tol, const std::string & site, const std::string & msg="")
    {
        m_checks++;
        if (!(std::abs(a-b) <= tol*scale))
        {
            std::ostringstream o; o.precision(12);
            o<<msg<<" got "<<a<<" expected "<<b<<" diff "<<std::abs(a-b)<<" > "<<tol<<" * "<<scale;
            fail(site,o.str());
        }
    }
    template<class M1, class M2>
    void closeM(const M1 & a, const M2 & b, double scale, double tol, const std::string & site, const std::string & msg="")
    {
        m_checks++;
        if (a.rows()!=b.rows() || a.cols()!=b.cols())
        {
            std::ostringstream o; o<<msg<<" shape got "<<a.rows()<<"x"<<a.cols()<<" expected "<<b.rows()<<"x"<<b.cols();
            fail(site,o.str());
        }
        for (int j=0;j<(int)a.cols();++j) for (int i=0;i<(int)a.rows();++i)
        {
            double x=a(i,j), y=b(i,j);
            if (!(std::abs(x-y) <= tol*scale))
            {
                std::ostringstream o; o.precision(12);
                o<<msg<<" entry ("<<i<<","<<j<<") got "<<x<<" expected "<<y<<" diff "<<std::abs(x-y)<<" > "<<tol<<" * "<<scale;
                fail(site,o.str());
            }
        }
    }
};

typedef void (*PropFn)(Ctx &);
struct Prop { std::string id; std::string rule; PropFn fn; double weight; std::string sub; };
std::vector<Prop> & registry();
struct Reg { Reg(const char * id, const char * sub, double weight, const char * rule, PropFn fn) { registry().push_back(Prop{id,rule,fn,weight,sub}); } };

// PROP(id, sub, weight, "rule") { body using ctx }
#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define PROP(id,sub,weight,rule) \
  static void PBT_CAT(prop_,__LINE__)(pbt::Ctx & ctx); \
  static pbt::Reg PBT_CAT(reg_,__LINE__)(#id,#sub,weight,rule,&PBT_CAT(prop_,__LINE__)); \
  static void PBT_CAT(prop_,__LINE__)(pbt::Ctx & ctx)

} // namespace pbt
