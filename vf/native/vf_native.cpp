// Native runtime of the contract language: the contract text is compiled against the real
// code and run on concrete inputs (replay of solver models, directed sampling).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <csetjmp>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <chrono>
#include <unistd.h>
#include <dlfcn.h>
#include "vf.h"

struct Discard {};
struct Failed { std::string name; std::string detail; };

static uint64_t S[2];
static uint64_t nxt() {
    uint64_t a = S[0], b = S[1];
    S[0] = b; a ^= a << 23; S[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return S[1] + b;
}
static void seed(uint64_t s) {
    auto mix = [&s]() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); };
    S[0] = mix(); S[1] = mix();
}
static double U() { return (nxt() >> 11) * (1.0 / 9007199254740992.0); }

struct Rec { std::string name; bool isint; double d; long i; };
static std::vector<Rec> rec;
static std::map<std::string, int> cnt;
static std::map<std::string, double> fixed_;     // forced inputs (replay)
static double perturb = 0;                       // relative perturbation of forced inputs
static bool integrals;
static double tolscale = 1;
static std::string current_fail, current_detail;
static bool verbose;
static uint64_t ufseed;

static std::string uniq(const char* n) {
    int k = ++cnt[n];
    if (k == 1) return n;
    return std::string(n) + "#" + std::to_string(k);
}
extern "C" {
double vf_real(const char* name, double lo, double hi) {
    std::string n = uniq(name);
    double v;
    auto f = fixed_.find(n);
    if (f != fixed_.end()) {
        v = f->second;
        if (perturb) v += v * perturb * (2 * U() - 1);
    } else {
        double m = U();
        if (m < 0.03) v = lo;
        else if (m < 0.06) v = hi;
        else if (m < 0.10) { double k = std::floor(U() * 5) / 4; v = lo + (hi - lo) * k; }
        else if (lo > 0 && hi / lo > 20 && m < 0.8) v = lo * std::exp(U() * std::log(hi / lo));
        else if (lo == 0 && m < 0.4) v = hi * std::exp(-U() * 12);
        else if (lo < 0 && hi > 0 && m < 0.25) v = (U() < 0.5 ? lo : hi) * std::exp(-U() * 10);
        else v = lo + (hi - lo) * U();
    }
    rec.push_back({n, false, v, 0});
    return v;
}
int vf_int(const char* name, int lo, int hi) {
    std::string n = uniq(name);
    auto f = fixed_.find(n);
    long v = f != fixed_.end() ? (long)f->second : lo + (long)(nxt() % (uint64_t)((long)hi - lo + 1));
    rec.push_back({n, true, 0, v});
    return (int)v;
}
int vf_choose(const char* name, int n) { return vf_int(name, 0, n - 1); }
int vf_bool(const char* name) { return vf_int(name, 0, 1); }
void vf_assume(bool c) { if (!c) throw Discard(); }
void vf_no_split() {}
void vf_stop() { throw Discard(); }
void vf_assert(bool c, const char* name) { if (!c) throw Failed{name, ""}; }
void vf_assert_eq_tol(double a, double b, const char* name, double tol) {
    if (a == b) return;
    if (std::isnan(a) && std::isnan(b)) return;
    if ((a == 0 || b == 0) && std::fabs(a - b) < 1e-12) return; // cancellation
    if (integrals) tol = std::max(tol, 5e-3);
    static double loose = getenv("VF_TOL") ? atof(getenv("VF_TOL")) : 0;
    tol = std::max(tol, loose) * tolscale;
    if (std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b))) return;
    char buf[200];
    snprintf(buf, sizeof buf, "code %.17g, specification %.17g", a, b);
    throw Failed{name, buf};
}
void vf_assert_eq(double a, double b, const char* name) { vf_assert_eq_tol(a, b, name, 1e-4); }
void vf_cover(const char*) {}
int vf_symbolic() { return 0; }
void vf_debug(const char* n, double x) { if (verbose) fprintf(stderr, "DEBUG %s %.17g\n", n, x); }
void vf_debug_facts() {}
int vf_same_int(unsigned long a, unsigned long b) { return a == b; }
int vf_same_real(double a, double b) { return a == b; }
static double uf(const char* n, int k, const double* a) {
    // some smooth function depending on the name and on every argument
    uint64_t s0 = S[0], s1 = S[1];
    uint64_t h = 1469598103934665603ULL ^ ufseed;
    for (const char* p = n; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ULL;
    seed(h);
    double r = 1.5 + U();
    for (int i = 0; i < k; ++i) r += (0.2 + U()) * std::sin((0.3 + U()) * std::asinh(a[i]) + 6 * U()) / (k + 1);
    S[0] = s0; S[1] = s1;
    return r;
}
double vf_uf1(const char* n, double a) { return uf(n, 1, &a); }
double vf_uf2(const char* n, double a, double b) { double v[] = {a, b}; return uf(n, 2, v); }
double vf_uf3(const char* n, double a, double b, double c) { double v[] = {a, b, c}; return uf(n, 3, v); }
double vf_uf4(const char* n, double a, double b, double c, double d) { double v[] = {a, b, c, d}; return uf(n, 4, v); }
static const double GX[] = {0.991455371120812639206854697526329, 0.949107912342758524526189684047851, 0.864864423359769072789712788640926, 0.741531185599394439863864773280788, 0.586087235467691130294144691693305, 0.405845151377397166906606412076961, 0.207784955007898467600689403773245, 0.0};
static const double GK[] = {0.022935322010529224963732008058970, 0.063092092629978553290700663189204, 0.104790010322250183839876322541518, 0.140653259715525918745189590510238, 0.169004726639267902826583426598550, 0.190350578064785409913256402421014, 0.204432940075298892414161999234649, 0.209482141084727828012999174891714};
static const double GG[] = {0.129484966168869693270611432679082, 0.279705391489276667901467771423780, 0.381830050505118944950369775488975, 0.417959183673469387755102040816327};
static double gk(const std::function<double(double)>& f, double a, double b, double& err) {
    double c = 0.5 * (a + b), h = 0.5 * (b - a), k = 0, g = 0;
    for (int i = 0; i < 8; ++i) {
        double v = i == 7 ? f(c) : f(c - h * GX[i]) + f(c + h * GX[i]);
        k += GK[i] * v;
        if (i & 1) g += GG[i / 2] * v;
    }
    err = std::fabs((k - g) * h);
    return k * h;
}
static double adapt(const std::function<double(double)>& f, double a, double b, double scale, int d) {
    double e, v = gk(f, a, b, e);
    if (d <= 0 || e <= 1e-8 * (std::fabs(v) + scale)) return v;
    double m = 0.5 * (a + b);
    return adapt(f, a, m, scale, d - 1) + adapt(f, m, b, scale, d - 1);
}
double vf_integral_p(double lo, double hi, const std::function<double(double)>* f) {
    integrals = true;
    if (lo == hi) return 0;
    double r = 0;
    if (lo > 0 && hi / lo > 5) {
        auto g = [f](double u) { double x = std::exp(u); return (*f)(x) * x; };
        double e, v = gk(g, std::log(lo), std::log(hi), e);
        r = adapt(g, std::log(lo), std::log(hi), std::fabs(v), 12);
    } else {
        double e, v = gk(*f, lo, hi, e);
        r = adapt(*f, lo, hi, std::fabs(v), 12);
    }
    return r;
}
}
extern "C" void vf_reset() __attribute__((weak));
static sigjmp_buf jb;
static void onsig(int s) { siglongjmp(jb, s); }
typedef void (*fn_t)();

// 0 passed, 1 failed, 2 discarded
static int one(fn_t fn) {
    cnt.clear(); rec.clear(); integrals = false; current_fail.clear(); current_detail.clear();
    int sg = sigsetjmp(jb, 1);
    if (sg) { current_fail = "memory-safety"; current_detail = "signal " + std::to_string(sg); return 1; }
    if (vf_reset) vf_reset();
    alarm(20);
    try { fn(); }
    catch (Discard&) { alarm(0); return 2; }
    catch (Failed& f) { alarm(0); current_fail = f.name; current_detail = f.detail; return 1; }
    catch (std::exception& e) { alarm(0); current_fail = "no-unexpected-exception"; current_detail = e.what(); return 1; }
    catch (...) { alarm(0); current_fail = "no-unexpected-exception"; return 1; }
    alarm(0);
    return 0;
}
static void dump(const char* tag) {
    printf("%s\t%s\t%s\n", tag, current_fail.c_str(), current_detail.c_str());
    for (auto& r : rec) {
        if (r.isint) printf("I\t%s\t%ld\n", r.name.c_str(), r.i);
        else printf("R\t%s\t%a\t%.17g\n", r.name.c_str(), r.d, r.d);
    }
    printf("END\n");
    fflush(stdout);
}
// usage: prog search <harness> <seed> <seconds> [fixed-file...]   |   prog replay <harness> <file>
int main(int argc, char** argv) {
    std::string mode = argv[1];
    fn_t fn = (fn_t)dlsym(RTLD_DEFAULT, argv[2]);
    if (!fn) { fprintf(stderr, "no harness %s\n", argv[2]); return 3; }
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER; sigaction(s, &sa, nullptr);
    }
    auto readfile = [](const char* p) {
        fixed_.clear();
        FILE* f = fopen(p, "r");
        if (!f) return;
        char n[256], v[256];
        while (fscanf(f, "%255s %255s", n, v) == 2) fixed_[n] = strtod(v, nullptr);
        fclose(f);
    };
    if (mode == "replay") {
        seed(1);
        verbose = true;
        readfile(argv[3]);
        int r = one(fn);
        if (r == 1) { dump("FAIL"); return 1; }
        printf(r == 0 ? "PASS\n" : "DISCARDED (a precondition does not hold)\n");
        return 0;
    }
    uint64_t sd = strtoull(argv[3], nullptr, 10);
    double secs = atof(argv[4]);
    long n = 0, disc = 0, unst = 0;
    auto t0 = std::chrono::steady_clock::now();
    auto confirm = [&]() {
        // re-run with slightly perturbed inputs: a failure that disappears is a rounding artefact
        // or a knife-edge input; it is reported as unstable
        std::vector<Rec> r0 = rec;
        std::string nm = current_fail, det = current_detail;
        int ok = 0;
        auto save = fixed_;
        for (int k = 0; k < 6; ++k) {
            fixed_.clear();
            for (auto& r : r0) fixed_[r.name] = r.isint ? (double)r.i : r.d;
            perturb = 1e-9;
            tolscale = 2;
            int q = one(fn);
            tolscale = 1;
            perturb = 0;
            if (q == 1 && current_fail == nm) ++ok;
        }
        fixed_ = save;
        rec = r0; current_fail = nm; current_detail = det;
        return ok >= 4;
    };
    for (int a = 5; a < argc; ++a) {
        readfile(argv[a]);
        seed(sd);
        if (one(fn) == 1) { bool c = confirm(); dump(c ? "FAIL" : "UNSTABLE"); if (c) return 1; }
    }
    fixed_.clear();
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        ++n;
        seed(sd * 1000003ULL + n);
        ufseed = n % 16;
        int r = one(fn);
        if (r == 2) ++disc;
        if (r == 1) {
            bool c = confirm();
            if (c || unst++ < 3) dump(c ? "FAIL" : "UNSTABLE");
            if (c) { return 1; }
        }
    }
    printf("NONE %ld samples, %ld discarded by preconditions\n", n, disc);
    return 0;
}
