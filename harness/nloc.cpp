// Conformance harness for spec/Nloc.tla: the real NLOptConSolver (both backends) on the exactly computable problem of the
// specification.  With PERTURB=<seed> in the environment, threads are delayed at arbitrary points (signals), around
// condition variables and mutexes (interposed pthread functions) and in the user's callbacks.
#include <ct/optcon/optcon.h>
#include "common.h"
#include <atomic>
#include <csignal>
#include <dlfcn.h>
#include <pthread.h>
#include <set>
#include <thread>
#include <unistd.h>
using namespace ct::core;
using namespace ct::optcon;
static const double SC = 65536.0;

// ------------------------------------------------------------------ schedule perturbation
static int g_pert = 0;
static std::atomic<bool> g_on(false);
static thread_local unsigned t_rng = 0;
static std::atomic<unsigned> g_threads(0);
static unsigned rnd()
{
    if (!t_rng) t_rng = 2654435761u * (g_pert + 1) + 40503u * (++g_threads);
    t_rng ^= t_rng << 13; t_rng ^= t_rng >> 17; t_rng ^= t_rng << 5;
    return t_rng;
}
static void nap(unsigned us) { struct timespec t{0, (long)us * 1000}; nanosleep(&t, nullptr); }
static void maybe(unsigned one_in, unsigned us)
{
    if (!g_on.load(std::memory_order_relaxed)) return;
    unsigned r = rnd();
    if (r % one_in == 0) nap(1 + (r >> 8) % us);
}
#ifdef VP_TSAN
// data races between the threads, as seen by the thread sanitizer
static std::atomic<int> g_races(0);
extern "C" void __tsan_on_report(void*) { g_races.fetch_add(1, std::memory_order_relaxed); }
extern "C" const char* __tsan_default_options() { return "exitcode=0:detect_deadlocks=0:report_thread_leaks=0:report_signal_unsafe=0"; }
struct Null : public std::streambuf { int overflow(int c) override { return c; } } g_null;   // printing is not judged
#else
extern "C" {
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static int (*f)(pthread_cond_t*, pthread_mutex_t*) = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    maybe(3, 800);   // between the test of the condition and the wait
    int r = f(c, m);
    maybe(4, 300);
    return r;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    static int (*f)(pthread_cond_t*) = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    maybe(6, 300);
    int r = f(c);
    maybe(6, 300);
    return r;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    maybe(8, 200);
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = f(m);
    maybe(8, 200);
    return r;
}
}
#endif
static void onSignal(int) { int e = errno; nap(100 + rnd() % 1500); errno = e; }
static pthread_mutex_t g_tm = PTHREAD_MUTEX_INITIALIZER;
static std::set<pthread_t> g_workers;
struct Start { void* (*f)(void*); void* a; };
static void* runThread(void* p)
{
    Start s = *(Start*)p; delete (Start*)p;
    pthread_mutex_lock(&g_tm); g_workers.insert(pthread_self()); pthread_mutex_unlock(&g_tm);
    void* r = s.f(s.a);
    pthread_mutex_lock(&g_tm); g_workers.erase(pthread_self()); pthread_mutex_unlock(&g_tm);
    return r;
}
static thread_local bool t_own = false;   // threads of the harness itself
#ifndef VP_TSAN
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* a)
{
    static int (*f)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    if (t_own) return f(t, at, fn, a);
    return f(t, at, runThread, new Start{fn, a});
}
#endif
static std::atomic<long> g_beat(0);
static void startHelpers()
{
    t_own = true;
    // watchdog: an operation that does not come back is a hang
    std::thread([] {
        long last = -1; int idle = 0;
        while (true)
        {
            struct timespec t{0, 500000000}; nanosleep(&t, nullptr);
            long b = g_beat;
            idle = (b == last) ? idle + 1 : 0;
            last = b;
            if (idle > 80 && b % 2 == 1) { fprintf(stderr, "an operation did not return within 40 s\n"); _exit(97); }
        }
    }).detach();
    if (g_pert)
        std::thread([] {
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_RESTART;
            sigaction(SIGUSR1, &sa, nullptr);
            while (true)
            {
                nap(200 + rnd() % 800);
                if (!g_on) continue;
                pthread_mutex_lock(&g_tm);
                if (!g_workers.empty()) { auto it = g_workers.begin(); std::advance(it, rnd() % g_workers.size()); pthread_kill(*it, SIGUSR1); }
                pthread_mutex_unlock(&g_tm);
            }
        }).detach();
    t_own = false;
}

// ------------------------------------------------------------------ the user's problem
static std::atomic<int> g_calls(0);     // > 0 while the harness is inside a call of the solver
static std::atomic<int> g_stray(0);     // callbacks outside of any call
static std::atomic<int> g_shared(0);    // one instance used by two threads at a time
struct Use
{
#ifdef VP_TSAN
    Use(std::atomic<int>&) {}   // nothing that would order the threads
#else
    std::atomic<int>& n;
    Use(std::atomic<int>& x) : n(x)
    {
        if (!g_calls) g_stray++;
        if (n++ != 0) g_shared++;
        maybe(12, 600);
    }
    ~Use() { n--; }
#endif
};
struct Guard { std::atomic<int> n{0}; Guard() {} Guard(const Guard&) {} };
// x+ = x + sigma_k u + k + 1 + off with sigma_k = 1, -1, 1, ... (or its negative); no successor beyond the limit.
#ifdef CONT
// the same, as a continuous-time system integrated with Euler's method over steps of one half
static long stage(double t) { return (long)std::floor(2 * t + 1e-6); }
struct Plant : public ControlledSystem<1, 1>
{
    long off, f, lim; Guard g;
    Plant(long o, long f_, long l) : off(o), f(f_), lim(l) {}
    Plant(const Plant& p) : ControlledSystem<1, 1>(p), off(p.off), f(p.f), lim(p.lim) {}
    Plant* clone() const override { return new Plant(*this); }
    void computeControlledDynamics(const StateVector<1>& x, const time_t& t, const ControlVector<1>& u, StateVector<1>& y) override
    {
        Use c(g.n);
        long n = stage(t);
        y(0) = 2 * ((n % 2 == f ? 1 : -1) * u(0) + n + 1 + off);
        if (std::fabs(x(0) + (0.5 * (n + 1) - t) * y(0)) > lim) y(0) = std::nan("");
    }
};
struct Lin : public LinearSystem<1, 1>
{
    Guard g; long f;
    Lin(long f_) : f(f_) {}
    Lin* clone() const override { return new Lin(*this); }
    const state_matrix_t& getDerivativeState(const StateVector<1>& x, const ControlVector<1>& u, const double t) override { Use c(g.n); A(0, 0) = 0; return A; }
    const state_control_matrix_t& getDerivativeControl(const StateVector<1>& x, const ControlVector<1>& u, const double t) override { Use c(g.n); B(0, 0) = stage(t) % 2 == f ? 2 : -2; return B; }
    state_matrix_t A; state_control_matrix_t B;
};
typedef ContinuousOptConProblem<1, 1> Problem;
typedef NLOptConSolver<1, 1, 0, 0, double, true> Solver;
#else
struct Plant : public DiscreteControlledSystem<1, 1>
{
    long off, f, lim; Guard g;
    Plant(long o, long f_, long l) : off(o), f(f_), lim(l) {}
    Plant(const Plant& p) : DiscreteControlledSystem<1, 1>(p), off(p.off), f(p.f), lim(p.lim) {}
    Plant* clone() const override { return new Plant(*this); }
    void propagateControlledDynamics(const StateVector<1>& x, const int n, const ControlVector<1>& u, StateVector<1>& y) override
    {
        Use c(g.n);
        y(0) = x(0) + (n % 2 == f ? 1 : -1) * u(0) + n + 1 + off;
        if (std::fabs(y(0)) > lim) y(0) = std::nan("");
    }
};
struct Lin : public DiscreteLinearSystem<1, 1>
{
    Guard g; long f;
    Lin(long f_) : f(f_) {}
    Lin* clone() const override { return new Lin(*this); }
    void getAandB(const StateVector<1>& x, const ControlVector<1>& u, const StateVector<1>&, const int n, size_t, StateMatrix<1>& A, StateControlMatrix<1, 1>& B) override
    {
        Use c(g.n);
        A(0, 0) = 1; B(0, 0) = n % 2 == f ? 1 : -1;
    }
};
typedef DiscreteOptConProblem<1, 1> Problem;
typedef NLOptConSolver<1, 1, 0, 0, double, false> Solver;
#endif
static long md(long a, long b) { return ((a % b) + b) % b; }
struct Cost : public CostFunctionQuadratic<1, 1>
{
    long g, h; Guard gd; std::thread::id who;
    Cost(long g_, long h_) : g(g_), h(h_) {}
    Cost(const Cost& o) : CostFunctionQuadratic<1, 1>(o), g(o.g), h(o.h) {}
    Cost* clone() const override { return new Cost(*this); }
    typedef StateVector<1> S; typedef ControlVector<1> C; typedef Eigen::Matrix<double, 1, 1> M;
    long k() const { return std::lround(this->t_ * 2); }
    static long q(double v) { double y = v * SC; return y == std::floor(y) && std::fabs(y) < 1e15 ? (long)y : 123457; }
    void setCurrentStateAndControl(const S& x, const C& u, const double& t) override
    {
        Use c(gd.n); who = std::this_thread::get_id();
        CostFunctionQuadratic<1, 1>::setCurrentStateAndControl(x, u, t);
    }
    void same() { if (who != std::this_thread::get_id()) g_shared++; }
    double evaluateIntermediate() override { Use c(gd.n); same(); if (std::isnan(this->x_(0)) || std::isnan(this->u_(0))) return std::nan(""); return 2.0 * (1 + (md(q(this->u_(0)), 997) * 31 + md(q(this->x_(0)), 991) * 17 + k() * 7 + h) % 50); }
    double evaluateTerminal() override { Use c(gd.n); same(); if (std::isnan(this->x_(0))) return std::nan(""); return (md(q(this->x_(0)), 983) * 13 + h) % 50; }
    S stateDerivativeIntermediate() override { Use c(gd.n); same(); S r; r(0) = this->x_(0) + 2.0 * (md(g, 3) - k()); return r; }
    S stateDerivativeTerminal() override { Use c(gd.n); same(); S r; r(0) = this->x_(0) + md(g, 7) - 3; return r; }
    M stateSecondDerivativeIntermediate() override { Use c(gd.n); same(); M r; r(0) = 1; return r; }
    M stateSecondDerivativeTerminal() override { Use c(gd.n); same(); M r; r(0) = 1; return r; }
    C controlDerivativeIntermediate() override { Use c(gd.n); same(); C r; r(0) = 2.0 * (this->u_(0) + md(g, 5) - 2 + 2 * k()); return r; }
    C controlDerivativeTerminal() override { C r; r(0) = 0; return r; }
    M controlSecondDerivativeIntermediate() override { Use c(gd.n); same(); M r; r(0) = 2; return r; }
    M controlSecondDerivativeTerminal() override { M r; r(0) = 0; return r; }
    M stateControlDerivativeIntermediate() override { Use c(gd.n); same(); M r; r(0) = 0; return r; }
    M stateControlDerivativeTerminal() override { M r; r(0) = 0; return r; }
};
struct InCall { InCall() { g_calls++; g_beat++; g_on = g_pert != 0; } ~InCall() { g_on = false; g_beat++; g_calls--; } };
struct S : public vp::Session
{
    std::unique_ptr<Solver> s;
    NLOptConSettings st;
    long K = 1;
    ~S() { InCall c; s.reset(); }
    static void settings(NLOptConSettings& q, const vp::Args& a, bool re = false)
    {
        q.nlocp_algorithm = (NLOptConSettings::NLOCP_ALGORITHM)a[0];
        q.K_shot = a[2];
        q.lineSearchSettings.type = a[3] == 0 ? LineSearchSettings::NONE : a[3] == 1 ? LineSearchSettings::SIMPLE : LineSearchSettings::ARMIJO;
        q.lineSearchSettings.armijo_parameter = 0.0;
        q.lineSearchSettings.maxIterations = a[4];
        q.lineSearchSettings.alpha_0 = 1.0;
        q.lineSearchSettings.n_alpha = 0.5;
        q.meritFunctionRho = a[5];
        q.max_iterations = a[7];
        q.min_cost_improvement = 0.125;
        q.maxDefectSum = 1.0;
        q.dt = 0.5;
        // continuous-time problems: Euler is exact for this plant; step type and sub-steps are fixed for the life of a solver
        q.discretization = a[5] % 2 ? NLOptConSettings::APPROXIMATION::FORWARD_EULER : NLOptConSettings::APPROXIMATION::MATRIX_EXPONENTIAL;
        if (!re)
        {
            q.integrator = a[0] % 2 ? IntegrationType::EULER : IntegrationType::EULERCT;
            q.useSensitivityIntegrator = a[0] % 3 == 1;
            q.timeVaryingDiscretization = a[0] % 3 == 1;
            q.K_sim = 1 + a[7] % 2;
        }
        q.epsilon = 1e-5;
        q.printSummary = false;
        q.nThreadsEigen = 1;
    }
    void traj(vp::Rec& out)
    {
        auto p = s->getSolution();
        auto x = s->getStateTrajectory(); auto u = s->getControlTrajectory();
        out.i(std::lround(s->getTimeHorizon() * 2));
        for (size_t i = 0; i < x.size(); i++) out.exact(x[i](0), SC);
        for (size_t i = 0; i < u.size(); i++) out.exact(u[i](0), SC);
        for (size_t i = 0; i < p.K().size(); i++) out.exact(p.K()[i](0), 2);
        // the policy and the trajectories agree, on the solver's grid
        bool same = p.x_ref().size() == x.size() && p.uff().size() == u.size();
        for (size_t i = 0; same && i < x.size(); i++) same = p.x_ref()[i](0) == x[i](0) && std::fabs(x.getTimeFromIndex(i) - 0.5 * i) < 1e-9 && std::fabs(s->getTimeArray()[i] - 0.5 * i) < 1e-9;
        for (size_t i = 0; same && i < u.size(); i++) same = p.uff()[i](0) == u[i](0) && std::fabs(u.getTimeFromIndex(i) - 0.5 * i) < 1e-9;
        if (!same) out.i(999999);
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        {
            InCall c;
#ifdef VP_TSAN
            std::cout.rdbuf(&g_null); std::cerr.rdbuf(&g_null);
#endif
            if (o == "new")
            {
                NLOptConSettings q; settings(q, a);
                q.nThreads = a[6];
                // the time horizon of a discrete-time problem is an integer, so it is set through the solver
                Problem p(2, StateVector<1>::Zero(), std::make_shared<Plant>(0, 0, 1000), std::make_shared<Cost>(0, 0), std::make_shared<Lin>(0));
                s.reset();
                s.reset(new Solver(p, q));
                s->changeTimeHorizon(a[1] * 0.5);
                st = q; K = a[1];
            }
            else if (o == "conf") { NLOptConSettings q = st; settings(q, a, true); s->configure(q); st = q; }
            else if (o == "guess")
            {
                long n = K + a[1], g = a[0];
                StateVectorArray<1> x(n + 1); ControlVectorArray<1> u(n); FeedbackArray<1, 1> L(n);
                for (long i = 1; i <= n + 1; i++) x[i - 1](0) = md(g * 7 + i * 3, 5) - 2;
                for (long i = 1; i <= n; i++) { u[i - 1](0) = md(g * 3 + i * 5, 7) - 3; L[i - 1](0) = (md(g + i, 3) - 1) * 0.5; }
                s->setInitialGuess(StateFeedbackController<1, 1>(x, u, L, 0.5));
                traj(out); out.exact(s->getCost());
            }
            else if (o == "tf") { s->changeTimeHorizon(a[0] * 0.5); K = a[0]; out.exact(s->getTimeHorizon(), 2); }
            else if (o == "x0") { StateVector<1> x; x(0) = a[0]; s->changeInitialState(x); }
            else if (o == "cost") s->changeCostFunction(std::make_shared<Cost>(a[0], a[1]));
            else if (o == "sys") { s->changeNonlinearSystem(std::make_shared<Plant>(a[0], a[1], a[2])); s->changeLinearSystem(std::make_shared<Lin>(a[1])); }
            else if (o == "iter" || o == "pf" || o == "solve" || o == "mpc")
            {
                bool r;
                if (o == "iter") r = s->runIteration();
                else if (o == "pf") { s->prepareIteration(); r = s->finishIteration(); }
                else if (o == "mpc") { s->prepareMPCIteration(); r = s->finishMPCIteration(); }
                else { s->solve(); r = false; }
                traj(out);
                auto& m = s->getBackend()->getSummary();
                out.i(o == "solve" ? -1 : r);
                out.i(m.iterations.size());
                if (o == "mpc" && !st.isSingleShooting()) {}
                else
                {
                    out.exact(s->getCost());
                    out.exact(s->getBackend()->getTotalDefect(), SC);
                    out.exact(m.stepSizes.back(), 64);
                    out.exact(m.lx_norms.back(), SC);
                    out.exact(m.lu_norms.back(), SC);
                    out.exact(m.merits.back(), SC);
                    if (std::fabs(m.totalCosts.back() - s->getCost()) > 1e-9) out.i(999998);
                    if (std::fabs(m.defect_l1_norms.back() - s->getBackend()->getTotalDefect()) > 1e-9) out.i(999997);
                }
            }
            else throw vp::bad("unknown operation");
        }
        if (g_pert) nap(rnd() % 300);
        if (g_stray) { out.i(900000 + g_stray); g_stray = 0; }
        if (g_shared) { out.i(910000 + g_shared); g_shared = 0; }
#ifdef VP_TSAN
        if (int n = g_races.exchange(0)) out.i(920000 + n);
#endif
    }
};
int main(int c, char** v)
{
    if (getenv("PERTURB")) g_pert = atoi(getenv("PERTURB"));
    startHelpers();
    int r = vp::run(c, v, [] { return new S; });
    fflush(nullptr);
    _exit(r);
}
