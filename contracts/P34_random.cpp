// VF-SOURCES: math/RandomGenerator.cxx
// VF-BOUNDED: [in=history] histories of four operations
// VF-REPLACE: ^std::mersenne_twister_engine<.*>::mersenne_twister_engine\(\) => vfr_engine
// VF-REPLACE: ^std::mersenne_twister_engine<.*>::mersenne_twister_engine\(unsigned long\) => vfr_seed
// VF-REPLACE: ^std::mersenne_twister_engine<.*>::seed\(unsigned long\) => vfr_seed
// VF-REPLACE: ^std::mersenne_twister_engine<.*>::operator\(\)\(\) => vfr_word
// VF-REPLACE: ^double std::uniform_real_distribution<double>::operator\(\)<.*>\(std::mersenne_twister_engine<[^&]*>&\) => vfr_draw
// VF-REPLACE: ^std::basic_ostream<.*operator<<[ <].*mersenne_twister_engine => vfr_save
// VF-REPLACE: ^std::basic_istream<.*operator>>[ <].*mersenne_twister_engine => vfr_load
// VF-ASSUME: the standard Mersenne twister, its stream operators (a state that is written and read again is the same state) and the standard uniform distribution (numbers in [0,1) determined by the state) are external and assumed
#include "vf.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include <sstream>
using namespace PROPOSAL;
typedef std::mt19937 Engine;
typedef std::uniform_real_distribution<double> Uniform;
// ghost: state of every engine; the last state written to a stream
static struct { const void* p; double state; } g_engine[8];
static int g_engines;
static double g_saved = -1;
static double& state_of(const void* p) {
    for (int i = 0; i < g_engines; i++) if (g_engine[i].p == p) return g_engine[i].state;
    g_engine[g_engines].p = p; g_engine[g_engines].state = 5489;
    return g_engine[g_engines++].state;
}
extern "C" void vfr_seed(Engine* e, unsigned long s) { state_of(e) = vf_uf1("seeded", (double)(int)s); }
extern "C" void vfr_engine(Engine* e) { state_of(e) = vf_uf1("seeded", 5489.); }
extern "C" unsigned long vfr_word(Engine* e) { double& s = state_of(e); s = vf_uf1("next", s); vf_stop(); return 0; } // raw words are not drawn by the code
extern "C" double vfr_draw(Uniform* d, Engine* e) {
    double& s = state_of(e);
    double u = vf_uf1("number", s);
    vf_assume(u >= 0 && u < 1);
    s = vf_uf1("next", s);
    return d->a() + (d->b() - d->a()) * u;
}
extern "C" std::ostream* vfr_save(std::ostream* o, const Engine* e) { g_saved = state_of(e); return o; }
extern "C" std::istream* vfr_load(std::istream* i, Engine* e) { state_of(e) = g_saved; return i; }

static void kept_state(Engine& to, Engine& from) {
    if (vf_symbolic()) state_of(&to) = state_of(&from);
    else to = from;
}
static RandomGenerator& fresh() { auto& r = RandomGenerator::Get(); r.SetDefaultRandomNumberGenerator(); return r; }
static int any_seed(const char* n = "seed") { int s = vf_int(n, 0, 2000000000); vf_assume(s >= 0 && s <= 2000000000); return s; }

// the stream is the one of the standard generator, from the seed on
VF_CONTRACT(stream) {
    auto& r = fresh(); int s = any_seed();
    for (int i = vf_choose("drawn", 3); i > 0; i--) r.RandomDouble(); // whatever was drawn before
    r.SetSeed(s);
    Engine e(s); Uniform u(0.0, 1.0);
    for (int i = 0; i < 4; i++) {
        double x = r.RandomDouble(), want = u(e);
        vf_assert_eq(x, want, "number of the standard generator");
        vf_assert(x >= 0 && x < 1, "numbers lie in the unit interval");
    }
}
VF_CONTRACT(equal_seeds) {
    auto& r = fresh(); int s = any_seed(), t = any_seed("other"); double a[3];
    r.SetSeed(s); for (double& x : a) x = r.RandomDouble();
    r.SetSeed(t); for (int i = vf_choose("drawn", 3); i > 0; i--) r.RandomDouble();
    r.SetSeed(s); for (double x : a) vf_assert_eq(r.RandomDouble(), x, "equal seeds, equal sequences");
}
// saving does not disturb the sequence, restoring resumes it
VF_CONTRACT(saved) {
    auto& r = fresh(); int s = any_seed(); std::stringstream stream; double a[3];
    r.SetSeed(s); for (int i = vf_choose("before", 3); i > 0; i--) r.RandomDouble();
    r.Serialize(stream);
    for (double& x : a) x = r.RandomDouble();
    if (vf_choose("reseeded", 2)) r.SetSeed(any_seed("other"));
    r.Deserialize(stream);
    for (double x : a) vf_assert_eq(r.RandomDouble(), x, "restoring resumes the sequence");
}
VF_CONTRACT(saving) {
    auto& r = fresh(); int s = any_seed(); std::stringstream stream; double a[3]; int n = vf_choose("before", 3);
    r.SetSeed(s); for (int i = n; i > 0; i--) r.RandomDouble();
    for (double& x : a) x = r.RandomDouble();
    r.SetSeed(s); for (int i = n; i > 0; i--) r.RandomDouble();
    r.Serialize(stream);
    for (double x : a) vf_assert_eq(r.RandomDouble(), x, "saving does not disturb the sequence");
}
// a supplied generator
VF_CONTRACT(supplied) {
    auto& r = fresh(); int s = any_seed(); double a[4], v = vf_real("v", 0, 0.9); int calls = 0;
    vf_assume(v >= 0 && v <= 0.9);
    r.SetSeed(s); for (double& x : a) x = r.RandomDouble();
    r.SetSeed(s);
    vf_assert_eq(r.RandomDouble(), a[0], "first number");
    std::function<double()> f = [&calls, v] { calls++; return v + calls * 0.01; };
    r.SetRandomNumberGenerator(f);
    f = nullptr; // the generator keeps its own copy
    for (int i = 1; i <= 3; i++) vf_assert_eq(r.RandomDouble(), v + i * 0.01, "number of the supplied generator");
    vf_assert(calls == 3, "one call for each number");
    bool seeded = vf_choose("seeded", 2);
    if (seeded) r.SetSeed(s);
    vf_assert_eq(r.RandomDouble(), v + 0.04, "seeding does not replace the supplied generator");
    r.SetDefaultRandomNumberGenerator();
    for (int i = seeded ? 0 : 1; i < 4; i++) vf_assert_eq(r.RandomDouble(), a[i], "the internal stream is not disturbed");
    vf_assert(calls == 4, "the supplied generator is no longer called");
}
// any history of four operations against a model of it
VF_CONTRACT(history) {
    auto& r = fresh(); int s = any_seed(); Engine e(s), kept(s); Uniform u(0.0, 1.0); std::stringstream stream; bool saved = false, own = false; int calls = 0;
    std::function<double()> f = [&calls] { calls++; return 0.125; };
    r.SetSeed(s);
    for (int k = 0; k < 4; k++) {
        int op = vf_choose("operation", 5);
        if (op == 0) { if (own) vf_assert_eq(r.RandomDouble(), 0.125, "supplied"); else vf_assert_eq(r.RandomDouble(), u(e), "internal"); }
        if (op == 1) { int t = any_seed("other"); r.SetSeed(t); e.seed(t); }
        if (op == 2 && !saved) { r.Serialize(stream); kept_state(kept, e); saved = true; }
        else if (op == 2) { r.Deserialize(stream); kept_state(e, kept); if (!vf_symbolic()) { stream.str(""); stream.clear(); } saved = false; }
        if (op == 3) { r.SetRandomNumberGenerator(f); own = true; }
        if (op == 4) { r.SetDefaultRandomNumberGenerator(); own = false; }
    }
    r.SetDefaultRandomNumberGenerator();
    vf_assert_eq(r.RandomDouble(), u(e), "state after the history");
}
