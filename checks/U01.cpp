// U01: bounded strings, results and size helpers: all source lengths, all operation sequences to a depth, all arguments.
#include "mc.hpp"
#include "cler.hpp"
#include "cler_utils.hpp"
#include "cler_embeddable_string.hpp"
#include "cler_result.hpp"
#include <memory>
#include <string>
#include <vector>
#include <utility>
using namespace mc;
static uint64_t NE;
static void flush() { count_eval(NE); count_trans(NE); NE = 0; }
static std::string src(int len, int k) { std::string s; for (int i = 0; i < len; ++i) s += (char)(k == 0 ? 'a' + i % 26 : k == 1 ? 'Z' - i % 26 : (i * 37 + 129) | 128); return s; }
template <size_t N> struct Str {
    typedef cler::EmbeddableString<N> E;
    static std::string cut(const std::string& s) { return s.substr(0, N - 1); }
    // every string lives in a heap block of its exact size, before and after it are red zones
    static void same(const std::unique_ptr<E>& e, const std::string& w, const std::string& how) {
        ++NE; MC_CHECK(e->length() == w.size(), "length", "bounded string of %zu after%s: length %zu, expected %zu", N, how.c_str(), e->length(), w.size());
        MC_CHECK(strlen(e->c_str()) == w.size() && w == e->c_str(), "content", "bounded string of %zu after%s: \"%s\", expected \"%s\"", N, how.c_str(), e->c_str(), w.c_str());
        MC_CHECK((const char*)*e == e->c_str() && e->empty() == w.empty(), "content", "bounded string of %zu after%s: views differ", N, how.c_str());
        state(hmix(N, w.size()));
    }
    static void single() {
        for (int len = 0; len <= (int)N + 70; ++len) for (int k = 0; k < 3; ++k) {
            std::string s = src(len, k); char* p = (char*)malloc(len + 1); memcpy(p, s.c_str(), len + 1);
            std::unique_ptr<E> a(new E((const char*)p)), b(new E(s)), c(new E()), d(new E((const char*)nullptr)); std::string h = " construction from " + std::to_string(len);
            same(a, cut(s), h); same(b, cut(s), h); same(c, "", " default construction"); same(d, "", " construction from null");
            for (int l2 = 0; l2 <= (int)N + 3; ++l2) { std::string t = src(l2, 1); char* q = (char*)malloc(l2 + 1); memcpy(q, t.c_str(), l2 + 1); std::unique_ptr<E> r(new E(*a + (const char*)q)), u(new E(*a + E(t))); same(r, cut(cut(s) + t), h + " + " + std::to_string(l2)); same(u, cut(cut(s) + cut(t)), h + " + bounded " + std::to_string(l2)); same(a, cut(s), h); free(q); }
            std::unique_ptr<E> n(new E(*a + (const char*)nullptr)); same(n, cut(s), h + " + null"); free(p);
        }
    }
    static void hist(int depth) {
        // two strings; ops: assign from literal of 4 lengths, copy, self assign, a = a + b, a = a + lit, a = b + a, a = a + a, copy construct
        const int LENS[] = {0, 1, (int)N / 2, (int)N - 1, (int)N, 2 * (int)N}; const int K = 6 + 3 + 6 + 3 + 1; uint64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= 2 * K;
        for (uint64_t code = 0; code < tot; ++code) {
            std::unique_ptr<E> s[2] = {std::unique_ptr<E>(new E()), std::unique_ptr<E>(new E("x"))}; std::string w[2] = {"", cut("x")}; uint64_t c = code; std::string how;
            for (int i = 0; i < depth; ++i) {
                int o = c % (2 * K); c /= 2 * K; int t = o & 1; o /= 2; E &a = *s[t], &b = *s[!t];
                if (o < 6) { std::string v = src(LENS[o], t); a = E(v); w[t] = cut(v); how += " =lit"; }
                else if (o == 6) { a = b; w[t] = w[!t]; how += " =other"; }
                else if (o == 7) { E& r = a; a = r; how += " =self"; }
                else if (o == 8) { s[t].reset(new E(b)); w[t] = w[!t]; how += " copy"; }
                else if (o < 15) { std::string v = src(LENS[o - 9], 1); a = a + v.c_str(); w[t] = cut(w[t] + v); how += " +lit"; }
                else if (o == 15) { a = a + b; w[t] = cut(w[t] + w[!t]); how += " +other"; }
                else if (o == 16) { a = b + a; w[t] = cut(w[!t] + w[t]); how += " other+"; }
                else if (o == 17) { a = a + a; w[t] = cut(w[t] + w[t]); how += " +self"; }
                else { a = a.c_str(); how += " =own text"; }
                same(s[0], w[0], how); same(s[1], w[1], how);
            }
        }
        outcome(N);
    }
};
struct Live { int v; Live* self; static long n; Live(int x) : v(x), self(this) { ++n; } Live(const Live& o) : v(o.v), self(this) { ok(o); ++n; } Live(Live&& o) : v(o.v), self(this) { ok(o); o.v = -1; ++n; } Live& operator=(const Live& o) { ok(*this); ok(o); v = o.v; return *this; } Live& operator=(Live&& o) { ok(*this); ok(o); v = o.v; if (&o != this) o.v = -1; return *this; } ~Live() { ok(*this); self = nullptr; --n; }
    static void ok(const Live& l) { MC_CHECK(l.self == &l, "lifetime", "a stored value was used outside its lifetime"); } };
long Live::n = 0;
struct Bad { Live l; std::string text; };
template <class R, class MkT, class MkE, class EqT, class EqE> static void results(const char* name, int depth, MkT mt, MkE me, EqT eqt, EqE eqe) {
    const int K = 9; uint64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= 2 * K;
    for (uint64_t code = 0; code < tot; ++code) {
        long before = Live::n;
        {
            std::unique_ptr<R> r[2] = {std::unique_ptr<R>(new R(mt(1))), std::unique_ptr<R>(new R(me(2)))}; struct W { bool ok; int v; bool gone; } w[2] = {{true, 1, false}, {false, 2, false}}; uint64_t c = code; std::string how; int nx = 3;
            for (int i = 0; i < depth; ++i) {
                int o = c % (2 * K); c /= 2 * K; int t = o & 1; o /= 2; R &a = *r[t], &b = *r[!t];
                switch (o) {
                    case 0: r[t].reset(new R(mt(nx))); w[t] = {true, nx, false}; how += " new value"; break;
                    case 1: r[t].reset(new R(me(nx))); w[t] = {false, nx, false}; how += " new error"; break;
                    case 2: a = R(mt(nx)); w[t] = {true, nx, false}; how += " assign value"; break;
                    case 3: a = R(me(nx)); w[t] = {false, nx, false}; how += " assign error"; break;
                    case 4: r[t].reset(new R(b)); w[t] = w[!t]; how += " copy"; break;
                    case 5: r[t].reset(new R(std::move(b))); w[t] = w[!t]; w[!t].gone = true; how += " move"; break;
                    case 6: a = b; w[t] = w[!t]; how += " copy assign"; break;
                    case 7: a = std::move(b); w[t] = w[!t]; w[!t].gone = true; how += " move assign"; break;
                    case 8: { R f = [&]() -> R { return a; }(); r[t].reset(new R(f)); how += " returned"; break; }
                }
                ++nx;
                for (int k = 0; k < 2; ++k) {
                    R& x = *r[k]; ++NE; MC_CHECK(x.is_ok() == w[k].ok && x.is_err() == !w[k].ok, "kind", "%s after%s: is_ok %d is_err %d, expected %s", name, how.c_str(), x.is_ok(), x.is_err(), w[k].ok ? "a value" : "an error");
                    if (!w[k].gone) MC_CHECK(w[k].ok ? eqt(x.unwrap(), w[k].v) : eqe(x.unwrap_err(), w[k].v), "value", "%s after%s: a different %s came out than was put in (%d)", name, how.c_str(), w[k].ok ? "value" : "error", w[k].v);
                    bool thrown = false; try { if (w[k].ok) x.unwrap_err(); else x.unwrap(); } catch (const std::exception&) { thrown = true; }
                    MC_CHECK(thrown, "wrong-side", "%s after%s: taking the %s of a result without one did not fail", name, how.c_str(), w[k].ok ? "error" : "value");
                    MC_CHECK(x.is_ok() == w[k].ok, "kind", "%s after%s: the failed access changed the result", name, how.c_str());
                    state(hmix(w[k].ok * 2 + w[k].gone, i));
                }
            }
        }
        MC_CHECK(Live::n == before, "lifetime", "%s, history %llu: %ld stored values were never destroyed", name, (unsigned long long)code, Live::n - before);
    }
    flush(); outcome(depth);
}
static void p2(size_t x) {
    ++NE; bool is = false; size_t fl = 0, ce = 0; for (int b = 0; b < 64; ++b) { size_t p = size_t(1) << b; if (p == x) is = true; if (p <= x) fl = p; if (!ce && p >= x) ce = p; }
    MC_CHECK(cler::is_power_of_2(x) == is, "is-power", "is_power_of_2(%zu) = %d", x, cler::is_power_of_2(x));
    if (x) MC_CHECK(cler::floor2p2(x) == fl, "floor", "floor2p2(%zu) = %zu, expected %zu", x, cler::floor2p2(x), fl);
    if (ce) MC_CHECK(cler::ceil2p2(x) == ce, "ceil", "ceil2p2(%zu) = %zu, expected %zu", x, cler::ceil2p2(x), ce);
}
static void setup() {
    int d = thorough() ? 4 : 3;
#define STR(n) scenario("string " #n, [=] { Str<n>::single(); Str<n>::hist(d); flush(); });
    STR(1) STR(2) STR(3) STR(4) STR(5) STR(8) STR(16) STR(33) STR(64)
    scenario("result int", [=] { results<cler::Result<int, cler::Error>>("Result<int, Error>", d + 1, [](int v) { return v; }, [](int v) { return v % 2 ? cler::Error::BadData : cler::Error::TERM_IOError; }, [](int a, int v) { return a == v; }, [](cler::Error e, int v) { return e == (v % 2 ? cler::Error::BadData : cler::Error::TERM_IOError); }); });
    scenario("result empty", [=] { results<cler::Result<cler::Empty, cler::Error>>("Result<Empty, Error>", d, [](int) { return cler::Empty{}; }, [](int v) { return v % 2 ? cler::Error::OK : cler::Error::NotEnoughSpace; }, [](cler::Empty, int) { return true; }, [](cler::Error e, int v) { return e == (v % 2 ? cler::Error::OK : cler::Error::NotEnoughSpace); }); });
    scenario("result string", [=] { results<cler::Result<std::string, int>>("Result<string, int>", d, [](int v) { return std::string(v * 7, 'a' + v % 26); }, [](int v) { return v; }, [](const std::string& s, int v) { return s == std::string(v * 7, 'a' + v % 26); }, [](int e, int v) { return e == v; }); });
    scenario("result counted", [=] { results<cler::Result<Live, Bad>>("Result<counted, counted error>", d, [](int v) { return Live(v); }, [](int v) { return Bad{Live(v), std::string(40, 'e')}; }, [](const Live& l, int v) { Live::ok(l); return l.v == v; }, [](const Bad& b, int v) { Live::ok(b.l); return b.l.v == v && b.text.size() == 40; }); });
    scenario("unwrapping twice and by reference", [=] { for (int v = 0; v < 100; ++v) { cler::Result<std::string, int> r(std::string(v, 'q')); r.unwrap() += "z"; MC_CHECK(r.unwrap() == std::string(v, 'q') + "z", "value", "a change through unwrap is lost"); cler::Result<int, std::string> e(std::string(v, 'q')); e.unwrap_err() += "z"; MC_CHECK(e.unwrap_err() == std::string(v, 'q') + "z", "value", "a change through unwrap_err is lost"); NE += 2; } flush(); });
    for (int w = 0; w < 8; ++w) scenario("powers of two " + std::to_string(w), [=] {
        for (size_t x = w; x < (thorough() ? 1u << 26 : 1u << 21); x += 8) p2(x);
        for (int b = w; b < 64; b += 8) for (int o = -300; o <= 300; ++o) { p2((size_t(1) << b) + o); for (int c = 0; c < b; ++c) p2((size_t(1) << b) + (size_t(1) << c) + o); state(b); }
        for (size_t o = 0; o < 300; ++o) p2(~size_t(0) - o); flush(); outcome(w);
    });
    scenario("error classes", [=] {
        using E = cler::Error; for (E e : {E::OK, E::Unknown, E::NotEnoughSamples, E::NotEnoughSpace, E::NotEnoughSpaceOrSamples, E::ProcedureError, E::BadData}) { MC_CHECK(!cler::is_fatal(e), "fatal", "error %d counts as fatal", (int)e); MC_CHECK(cler::to_str(e) && cler::error_to_cstring(e), "text", "no text"); ++NE; }
        for (E e : {E::TERMINATE_FLOWGRAPH, E::TERM_InvalidChannelIndex, E::TERM_ProcedureError, E::TERM_IOError, E::TERM_EOFReached}) { MC_CHECK(cler::is_fatal(e), "fatal", "fatal error %d does not count as fatal", (int)e); MC_CHECK(cler::to_str(e) && cler::error_to_cstring(e), "text", "no text"); ++NE; }
        flush();
    });
}
MC_MAIN(setup)
