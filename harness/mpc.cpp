// Conformance harness for spec/Mpc.tla: the real MPC class on a recording stand-in solver and a virtual clock
#include <ct/optcon/optcon.h>
#include "common.h"
#include <sys/time.h>
static long g_clk = 0;   // ticks of 1/8 s
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    long us = g_clk * 125000;
    tv->tv_sec = 1700000000 + us / 1000000;
    tv->tv_usec = us % 1000000;
    return 0;
}
using namespace ct::core;
using namespace ct::optcon;
typedef StateFeedbackController<2, 1> Pol;
static const double DT = 0.25, TK = 0.125;
struct Plant : public ControlledSystem<2, 1>
{
    Plant* clone() const override { return new Plant(*this); }
    void computeControlledDynamics(const StateVector<2>& x, const double& t, const ControlVector<1>& u, StateVector<2>& d) override { d(0) = u(0); d(1) = 0; }
};
static Pol mk(long seed, long n)
{
    StateVectorArray<2> x(n + 1); ControlVectorArray<1> u(n); FeedbackArray<2, 1> K(n);
    for (long i = 0; i < n; i++) { u[i](0) = 100 * seed + i + 1; K[i] << 0, 10 * seed + i + 1; }
    for (long i = 0; i <= n; i++) x[i] << 1000 * seed + i + 1, 0;
    return Pol(x, u, K, DT, 0.0, ZOH);
}
static void flat(Pol p, vp::Rec& out)
{
    size_t n = p.uff().size();
    out.i(n);
    for (size_t i = 0; i < n; i++) out.exact(p.uff()[i](0));
    for (size_t i = 0; i < p.K().size(); i++) out.exact(p.K()[i](0) * 1e5 + p.K()[i](1));
    for (size_t i = 0; i < p.getFeedforwardTrajectory().getTimeArray().size(); i++)
    {
        double t = p.getFeedforwardTrajectory().getTimeArray()[i];
        // all three sequences share their stamps
        if (i >= p.getFeedbackTrajectory().getTimeArray().size() || std::abs(t - p.getFeedbackTrajectory().getTimeArray()[i]) > 1e-9 ||
            i >= p.time().size() || std::abs(t - p.time()[i]) > 1e-9) out.i(999999);
        out.exact(t, 8);
    }
    for (size_t i = 0; i < p.x_ref().size(); i++) out.exact(p.x_ref()[i](0));
    if (p.time().size() != p.x_ref().size()) out.i(999998);
}
struct Log { std::string calls; double T = 0; Pol guess; double x = 0; long dprep = 0, dsolve = 0, ok = 1, seed = 0; double horizon = 0; };
static Log* L;
struct Solver
{
    static const size_t STATE_D = 2, CONTROL_D = 1, POS_DIM = 0, VEL_DIM = 0;
    typedef double Scalar_t;
    typedef Pol Policy_t;
    struct Settings_t { double dt = DT; };
    typedef ContinuousOptConProblem<2, 1> P; typedef P OptConProblem_t;
    Pol sol;
    Solver(const P& p, const Settings_t&) { L->horizon = p.getTimeHorizon(); }
    double getTimeHorizon() const { return L->horizon; }
    void changeTimeHorizon(const double& T) { L->horizon = T; L->T = T; L->calls += 'T'; }
    void setInitialGuess(const Pol& p) { L->guess = p; L->calls += 'G'; }
    void prepareMPCIteration() { g_clk += L->dprep; L->calls += 'P'; }
    void changeInitialState(const StateVector<2>& x) { L->x = x(0); L->calls += 'X'; }
    bool finishMPCIteration()
    {
        L->calls += 'F';
        g_clk += L->dsolve;
        if (L->ok) sol = mk(L->seed, std::max(1L, std::lround(L->horizon / DT)));
        return L->ok;
    }
    const Pol& getSolution() { L->calls += 'S'; return sol; }
};
struct Strat : public ct::optcon::MpcTimeHorizon
{
    double T; bool f; double a = 0, b = 0;
    Strat(double T, bool f) : ct::optcon::MpcTimeHorizon(mpc_settings(), 1.0), T(T), f(f) {}
    bool computeNewTimeHorizon(const double& s, const double& q, double& n) override { a = s; b = q; n = T; return f; }
};
struct S : public vp::Session
{
    Log log;
    std::shared_ptr<MPC<Solver>> m;
    std::shared_ptr<Strat> strat;
    S() { L = &log; g_clk = 0; }
    mpc_settings set(const vp::Args& a)
    {
        mpc_settings q;
        q.mpc_mode = (MPC_MODE)a[0]; q.minimumTimeHorizonMpc_ = a[1] * TK; q.fixedDelayUs_ = a[2] * 125000; q.additionalDelayUs_ = a[3] * 125000;
        q.delayMeasurementMultiplier_ = a[4] * 0.5; q.measureDelay_ = a[5]; q.useExternalTiming_ = a[6]; q.stateForwardIntegration_ = a[7];
        q.postTruncation_ = a[8]; q.coldStart_ = a[9]; q.stateForwardIntegratorType_ = a[10] ? RK4CT : EULERCT; q.stateForwardIntegration_dt_ = a[11] * TK;
        return q;
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "new")
        {
            std::shared_ptr<ControlledSystem<2, 1>> pl(new Plant);
            ContinuousOptConProblem<2, 1> prob; 
            prob.setNonlinearSystem(pl); prob.setTimeHorizon(a[12] * TK);
            mpc_settings s = set(a);
            std::shared_ptr<PolicyHandler<Pol, 2, 1, double>> ph;
            if (!a[9]) ph.reset(new StateFeedbackPolicyHandler<2, 1, double>(DT));
            std::shared_ptr<MPC<Solver>> q(new MPC<Solver>(prob, Solver::Settings_t(), s, ph));
            m = q; strat.reset();
            m->setInitialGuess(mk(a[13], a[14]));
        }
        else if (o == "upd") m->updateSettings(set(a));
        else if (o == "clk") g_clk += a[0];
        else if (o == "prep")
        {
            log.calls.clear(); log.dprep = a[1];
            m->prepareIteration(a[0] * TK);
            if (log.calls != "TGP") out.i(777);
            out.exact(log.T, 8); out.i(m->timeHorizonReached());
            if (strat) { out.exact(strat->a, 8); out.exact(strat->b, 8); } else { out.i(-1); out.i(-1); }
            flat(log.guess, out);
        }
        else if (o == "fin")
        {
            log.calls.clear(); log.dsolve = a[2]; log.ok = a[3]; log.seed = a[4];
            StateVector<2> x; x << a[0], 0;
            Pol p; double ts = -99;
            std::shared_ptr<Controller<2, 1>> third;
            if (a[5] >= 0) { ControlVector<1> u; u << a[5]; third.reset(new ConstantController<2, 1>(u)); }
            bool ok = m->finishIteration(x, a[1] * TK, p, ts, third);
            size_t q = log.calls.find("XF");
            if (q == std::string::npos || (a[3] && log.calls.find('S', q) == std::string::npos)) out.i(777);
            out.exact(log.x, 96); out.i(ok); out.exact(ts, 8);
            flat(p, out);
        }
        else if (o == "reached") out.i(m->timeHorizonReached());
        else if (o == "since") out.exact(m->timeSinceFirstSuccessfulSolve(a[0] * TK), 8);
        else if (o == "reset") m->resetMpc(a[0] * TK);
        else if (o == "guess") m->setInitialGuess(mk(a[0], a[1]));
        else if (o == "strat") { strat.reset(new Strat(a[0] * TK, a[1])); m->setTimeHorizonStrategy(strat); }
        else if (o == "warm")
        {
            StateFeedbackPolicyHandler<2, 1, double> h(DT); Pol p = mk(a[0], a[1]);
            h.designWarmStartingPolicy(a[2] * TK, a[3] * TK, p);
            flat(p, out);
        }
        else if (o == "cut")
        {
            StateFeedbackPolicyHandler<2, 1, double> h(DT); Pol p = mk(a[0], a[1]); double e = -99;
            h.truncateSolutionFront(a[2] * TK, p, e);
            out.exact(e, 8); flat(p, out);
        }
        else throw vp::bad("op " + o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, []() { return new S; }); }
