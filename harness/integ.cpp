#include <ct/core/core.h>
#include "common.h"
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;
struct Sys : ControlledSystem<2, 1>
{
    double p = 0, q = 0;
    Sys(std::shared_ptr<Controller<2, 1>> c) : ControlledSystem<2, 1>(c) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { d(0) = x(1) + p * t; d(1) = q + u(0); }
};
struct Ctl : Controller<2, 1>
{
    double r = 0;
    Ctl* clone() const override { return new Ctl(*this); }
    void computeControl(const X&, const double& t, U& u) override { u(0) = r * t; }
};
struct ExpSys : System<1>
{
    ExpSys* clone() const override { return new ExpSys(*this); }
    void computeDynamics(const StateVector<1>& x, const double& t, StateVector<1>& d) override { d = x; }
};
struct Sy : SymplecticSystem<1, 1, 1>
{
    double c, k, u;
    Sy* clone() const override { return new Sy(*this); }
    void computePdot(const StateVector<2>& x, const StateVector<1>& v, const ControlVector<1>& uu, StateVector<1>& d) override { d(0) = v(0) + c; }
    void computeVdot(const StateVector<2>& x, const StateVector<1>& p, const ControlVector<1>& uu, StateVector<1>& d) override { d(0) = k * p(0) + u; }
};
struct A : EventHandler<2>
{
    std::vector<long> acted; long n = 0;
    bool callOnSubsteps() override { return false; }
    bool checkEvent(const X&, const double& t) override { n++; return std::lround(t * 2) % 2 == 0; }
    void handleEvent(const X&, const double& t) override { acted.push_back(std::lround(t * 2)); }
    void reset() override { acted.clear(); n = 0; }
};
struct Sub : EventHandler<2>
{
    std::vector<double> v;
    bool callOnSubsteps() override { return true; }
    bool checkEvent(const X&, const double& t) override { return true; }
    void handleEvent(const X& x, const double& t) override { v.push_back(t * 4); v.push_back(x(0) * 192); v.push_back(x(1) * 192); }
    void reset() override { v.clear(); }
};
struct Trig : EventHandler<2>
{
    std::shared_ptr<KillIntegrationEventHandler<2>> k; long at = 0, n = 0;
    bool callOnSubsteps() override { return false; }
    bool checkEvent(const X&, const double& t) override { n++; return at != 0 && n == at; }
    void handleEvent(const X&, const double&) override { k->setEvent(); }
    void reset() override { n = 0; }
};
static const IntegrationType TY[] = {EULER, RK4, MODIFIED_MIDPOINT, ODE45, RK5VARIABLE, RK78, BULIRSCHSTOER, EULERCT, RK4CT};

struct S : vp::Session
{
    std::shared_ptr<Ctl> ctl{new Ctl()};
    std::shared_ptr<Sys> sys{new Sys(ctl)};
    std::shared_ptr<A> a{new A()};
    std::shared_ptr<Sub> sub{new Sub()};
    std::shared_ptr<SubstepRecorder<2, 1>> rec{new SubstepRecorder<2, 1>(sys)};
    std::shared_ptr<Trig> trig{new Trig()};
    std::shared_ptr<KillIntegrationEventHandler<2>> kill{new KillIntegrationEventHandler<2>()};
    std::shared_ptr<MaxStepsEventHandler<2>> mx{new MaxStepsEventHandler<2>(1000)};
    std::unique_ptr<Integrator<2>> in;
    long ty = 7, recOn = 1, mxv = 1000;
    StateVectorArray<2> xs; TimeArray ts;      // deliberately reused between runs
    std::shared_ptr<StateVectorArray<2>> heldStates; StateVectorArray<2> heldCopy;
    S()
    {
        trig->k = kill;
        Integrator<2>::EventHandlerPtrVector h;
        h.push_back(a); h.push_back(sub); h.push_back(rec); h.push_back(trig); h.push_back(kill); h.push_back(mx);
        in.reset(new Integrator<2>(sys, EULERCT, h));
    }
    void op(const std::string& n, const vp::Args& q, vp::Rec& o) override
    {
        if (n == "type") { ty = q[0]; in->changeIntegrationType(TY[ty]); }
        else if (n == "cfg") { mxv = q[0]; mx->setMaxNumSteps(q[0]); trig->at = q[1]; recOn = q[2]; rec->setEnable(q[2] == 1); }
        else if (n == "run")
        {
            X x; x << q[1], q[2]; sys->p = q[3]; sys->q = q[4]; ctl->r = q[5];
            double t0 = q[6] * 0.5, dt = q[7] * 0.5; bool lg = q[0] % 2 == 0; bool numeric = ty != 2;
            bool sees = ty == 0 || ty == 1 || ty == 7 || ty == 8;
            auto put = [&](const X& v) { if (numeric) { o.exact(v(0), 192); o.exact(v(1), 192); } else { o.i(0); o.i(0); } };
            try
            {
                if (q[0] == 0) in->integrate_n_steps(x, t0, q[8], dt, xs, ts);
                else if (q[0] == 1) in->integrate_n_steps(x, t0, q[8], dt);
                else if (q[0] == 2) in->integrate_const(x, t0, q[8] * 0.5, dt, xs, ts);
                else in->integrate_const(x, t0, q[8] * 0.5, dt);
                put(x);
                if (lg)
                {
                    o.i(xs.size());
                    if (xs.size() != ts.size()) o.i(1000000011L);
                    for (size_t i = 0; i < xs.size() && i < ts.size(); i++) { o.exact(ts[i], 2); put(xs[i]); }
                }
            }
            catch (const std::exception&) { o.x = 1; o.r.clear(); }
            o.i(a->n); o.i(a->acted.size());
            for (long v : a->acted) o.i(v);
            if (sees)
            {
                o.i(sub->v.size() / 3);
                for (double v : sub->v) o.exact(v);
                auto st = rec->getSubstates(); auto ct = rec->getSubcontrols();
                if (heldStates && heldStates != st && heldStates->size() != heldCopy.size()) o.i(1000000012L);
                o.i(st->size());
                if (st->size() != ct->size()) o.i(1000000013L);
                for (size_t i = 0; i < st->size() && i < ct->size(); i++) { o.exact((*st)[i](0), 192); o.exact((*st)[i](1), 192); o.exact((*ct)[i](0), 4); }
                heldStates = st; heldCopy = *st;
            }
        }
        else if (n == "adapt" || n == "times")
        {
            X x; x << q[1], q[2]; sys->p = q[3]; sys->q = q[4]; ctl->r = q[5];
            mx->setMaxNumSteps(1000000); long keep = trig->at; trig->at = 0;
            struct R { S* s; long k; ~R() { s->trig->at = k; s->mx->setMaxNumSteps(s->mxv); } } guard{this, keep};
            if (n == "adapt")
            {
                X y = x; StateVectorArray<2> ls; TimeArray lt;
                auto limited = [&](int k) {      // does a run with that step limit end by itself?
                    X z; z << q[1], q[2]; mx->setMaxNumSteps(k);
                    try { in->integrate_adaptive(z, q[6] * 0.5, q[7] * 0.5, 0.05); } catch (const std::exception&) { return a->n == k + 1 ? 0 : 2; }
                    return a->n <= k ? 1 : 3;
                };
                in->integrate_adaptive(x, q[6] * 0.5, q[7] * 0.5, ls, lt, 0.05);
                bool asked = a->n == (long)lt.size();
                in->integrate_adaptive(y, q[6] * 0.5, q[7] * 0.5, 0.05);
                asked = asked && a->n == (long)lt.size() && limited(lt.size()) == 1 && limited(lt.size() - 1) == 0 && limited(lt.size()) == 1;
                bool mono = asked && ls.size() == lt.size() && (x - y).norm() < 1e-6 * (1 + x.norm()) && (x - ls.back()).norm() == 0;
                for (size_t i = 1; i < lt.size(); i++) mono = mono && lt[i] > lt[i - 1];
                o.i(mono); o.exact(lt.front(), 2); o.exact(lt.back(), 2); o.num(x(0), 192); o.num(x(1), 192);
            }
            else
            {
                TimeArray tt; for (size_t i = 6; i < q.size(); i++) tt.push_back(q[i] * 0.5);
                StateVectorArray<2> ls;
                X x0 = x;
                in->integrate_times(x, tt, ls, 0.05);
                long asked = a->n;
                auto acted = a->acted;
                for (int k = 1; k >= 0; k--)      // a limit one below the number of observations ends the run at the last one
                {
                    StateVectorArray<2> l2; int ended = 0; X z = x0;
                    mx->setMaxNumSteps(tt.size() - k);
                    try { in->integrate_times(z, tt, l2, 0.05); } catch (const std::exception&) { ended = 1; }
                    o.i(ended); o.i(a->n);
                }
                o.i(asked); o.i(acted.size());
                for (long v : acted) o.i(v);
                o.i(ls.size());
                for (auto& v : ls) { o.num(v(0), 192); o.num(v(1), 192); }
            }
        }
        else if (n == "tol")
        {
            std::shared_ptr<ExpSys> es(new ExpSys());
            double tol[] = {1e-3, 1e-6, 1e-10};
            Integrator<1> I(es, TY[q[0]]);
            for (int i = 0; i < 3; i++)
            {
                StateVector<1> x; x(0) = 1; StateVectorArray<1> ls; TimeArray lt;
                I.setApadativeErrorTolerances(tol[i], tol[i]);
                I.integrate_adaptive(x, 0.0, 4.0, ls, lt, 0.01);
                o.i(lt.size());
            }
            // a large state: loose absolute and tight relative tolerance, and the other way round
            for (int i = 0; i < 2; i++)
            {
                StateVector<1> x; x(0) = 1e6; StateVectorArray<1> ls; TimeArray lt;
                I.setApadativeErrorTolerances(i ? 1e-9 : 1e-3, i ? 1e-3 : 1e-12);
                I.integrate_adaptive(x, 0.0, 4.0, ls, lt, 0.01);
                o.i(lt.size());
            }
        }
        else if (n == "sym")
        {
            std::shared_ptr<Sy> s(new Sy()); s->c = q[2]; s->k = q[3]; s->u = q[4];
            IntegratorSymplecticEuler<1, 1, 1> I(s);
            X x, y; x << q[0], q[1]; y = x;
            StateVectorArray<2> ls; TimeArray lt;
            I.integrate_n_steps(x, q[7] * 0.5, q[6], q[5] * 0.5, ls, lt);
            I.integrate_n_steps(y, q[7] * 0.5, q[6], q[5] * 0.5);
            if ((x - y).norm() > 1e-9 * (1 + x.norm()) || (ls.back() - x).norm() != 0 || ls.size() != lt.size()) o.i(1000000014L);
            for (size_t i = 0; i < ls.size(); i++) { o.exact(lt[i], 2); o.exact(ls[i](0), 4096); o.exact(ls[i](1), 4096); }
        }
        else throw vp::bad("unknown op " + n);
    }
};
int main(int c, char** v) { return vp::run(c, v, [] { return new S(); }); }
