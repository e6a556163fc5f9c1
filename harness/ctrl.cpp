// Conformance harness for spec/Ctrl.tla
#include <ct/core/core.h>
#include "common.h"
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<2> U;
static long Dat(long seed, long j) { return ((seed * 37 + j * 29 + j * j * 5) % 13) - 6; }
template <class V>
static V Vec(long seed, long o, long i) { V v; v << Dat(seed, o + 4 * i), Dat(seed, o + 4 * i + 1); return v; }
static FeedbackMatrix<2, 2> Mat(long s, long o, long i)
{
    FeedbackMatrix<2, 2> m;
    m << Dat(s, o + 4 * i), Dat(s, o + 4 * i + 1), Dat(s, o + 4 * i + 2), Dat(s, o + 4 * i + 3);
    return m;
}
static const double TK = 0.25;
typedef StateFeedbackController<2, 2> SF;
typedef ConstantController<2, 2> CC;
typedef ConstantStateFeedbackController<2, 2> CF;
typedef Controller<2, 2> CB;
struct Plant : public ControlledSystem<2, 2>
{
    static const size_t STATE_DIM = 2, CONTROL_DIM = 2;
    Plant(std::shared_ptr<CB> c) : ControlledSystem<2, 2>(c) {}
    Plant(const Plant& p) : ControlledSystem<2, 2>(p) {}
    Plant* clone() const override { return new Plant(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override
    {
        d << x(1) + u(0), -2 * x(0) + t / TK * x(1) + u(1);
    }
};
struct Clock : public ControlledSystem<1, 1>
{
    static const size_t STATE_DIM = 1, CONTROL_DIM = 1;
    typedef double SCALAR;
    Clock() {}
    Clock(std::shared_ptr<Controller<1, 1>> c) : ControlledSystem<1, 1>(c) {}
    std::shared_ptr<std::atomic<long>> n = std::make_shared<std::atomic<long>>(0);
    Clock* clone() const override { return new Clock(*this); }
    void computeControlledDynamics(const StateVector<1>& x, const double& t, const ControlVector<1>& u, StateVector<1>& d) override { (*n)++; d << 1.0 + u(0); }
};
struct Sim : public ControlSimulator<Clock>
{
    std::vector<double> xs;
    size_t N;
    std::atomic<bool> over{false};
    Sim(double a, double b, const StateVector<1>& x0, std::shared_ptr<Clock> c, size_t N_) : ControlSimulator<Clock>(a, b, x0, c), N(N_) {}
    Sim(const Sim& o) : ControlSimulator<Clock>(o), N(o.N) {}
    void finishSystemIteration(Time t) override { xs.push_back(x_(0)); if (xs.size() >= N) { over = true; stop(); } }
    void prepareControllerIteration(Time) override { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    long evals() { return *system_->n; }
    void zero() { *system_->n = 0; }
    void setU(double v) { ControlVector<1> u; u << v; dynamic_cast<ConstantController<1, 1>&>(*controller_).setControl(u); }
};
struct S : public vp::Session
{
    std::shared_ptr<CB> c[4];
    std::shared_ptr<Plant> sys[3];
    std::shared_ptr<PIDController<>> pid[3];
    std::shared_ptr<SecondOrderSystem> so[3];
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        auto sf = [&](int k) -> SF* { auto p = dynamic_cast<SF*>(c[k].get()); if (!p) throw vp::bad("slot"); return p; };
        if (o == "sf")
        {
            StateVectorArray<2> xr; ControlVectorArray<2> uf; FeedbackArray<2, 2> K;
            for (long i = 1; i <= a[3]; i++) { uf.push_back(Vec<U>(a[4], 0, i)); K.push_back(Mat(a[4], 100, i)); }
            for (long i = 1; i <= a[3] + 1; i++) xr.push_back(Vec<X>(a[4], 200, i));
            c[1].reset(new SF(xr, uf, K, a[2] * TK, a[1] * TK, a[0] ? LIN : ZOH));
        }
        else if (o == "cc") { U u; u << a[0], a[1]; c[1].reset(new CC(u)); }
        else if (o == "cf") c[1].reset(new CF(Vec<U>(a[0], 0, 1), Vec<X>(a[0], 200, 1), Mat(a[0], 100, 1)));
        else if (o == "setu") { U u; u << a[1], a[2]; dynamic_cast<CC&>(*c[a[0]]).setControl(u); }
        else if (o == "law")
        {
            if (a[2]) dynamic_cast<CF&>(*c[a[0]]).updateControlLaw(Vec<U>(a[1], 0, 1), Vec<X>(a[1], 200, 1), Mat(a[1], 100, 1));
            else dynamic_cast<CF&>(*c[a[0]]).updateControlLaw(Vec<U>(a[1], 0, 1), Vec<X>(a[1], 200, 1));
        }
        else if (o == "upd")
        {
            long n = a[3];
            DiscreteArray<X> xr; DiscreteArray<U> uf; DiscreteArray<FeedbackMatrix<2, 2>> K; TimeArray t;
            double tt = Dat(a[1], 499);
            for (long i = 1; i <= n + 1; i++)
            {
                if (i > 1) { long g = Dat(a[1], 500 + i); tt += g < -2 ? 1 : g < 3 ? 2 : 4; }
                t.push_back(tt * TK); xr.push_back(Vec<X>(a[1], 200, i));
            }
            for (long i = 1; i <= n; i++) { uf.push_back(Vec<U>(a[1], 0, i)); K.push_back(Mat(a[1], 100, i)); }
            if (a[2] == 1) uf.push_back(U::Zero());
            if (a[2] == 2) K.pop_back();
            if (a[2] == 3) xr.pop_back();
            if (a[2] == 4) t.push_back(t.back() + 1);
            sf(a[0])->update(xr, uf, K, t);
        }
        else if (o == "edit") { U u; u << a[2], a[3]; sf(a[0])->getFeedforwardTrajectory()[a[1]] = u; }
        else if (o == "shift") sf(a[0])->getReferenceStateTrajectory().shiftTime(a[1] * TK);
        else if (o == "clone") c[2].reset(c[1]->clone());
        else if (o == "u") { X x; x << a[1], a[2]; U u = U::Constant(77); c[a[0]]->computeControl(x, a[3] * TK, u); out.mat(u, 16); }
        else if (o == "un")
        {
            X x; x << a[1], a[2]; U u = U::Constant(77);
            auto d = dynamic_cast<DiscreteController<2, 2>*>(c[a[0]].get()); if (!d) throw vp::bad("not discrete");
            d->computeControl(x, (int)a[3], u); out.mat(u, 16);
        }
        else if (o == "len")
        {
            SF* f = sf(a[0]); out.i(f->uff().size()); out.i(f->K().size()); out.i(f->x_ref().size());
            for (double t : f->time()) out.exact(t, 4);
        }
        else if (o == "ext")
        {
            StateTrajectory<2> xt(ZOH); ControlTrajectory<2> ut(ZOH);
            ut.push_back(U::Constant(5), 1.0, true);
            for (long i = 1; i <= a[2]; i++) xt.push_back(Vec<X>(a[1], 300, i), (a[1] + 3 * (i - 1)) * TK, true);
            sf(a[0])->extractControlTrajectory(xt, ut);
            out.i(ut.size());
            for (size_t i = 0; i < ut.size(); i++) { out.exact(ut.getTimeFromIndex(i), 4); out.mat(ut[i], 16); }
        }
        else if (o == "sys") { sys[1].reset(new Plant(a[0] ? c[a[0]] : nullptr)); sys[2].reset(); }
        else if (o == "att") sys[1]->setController(a[0] ? c[a[0]] : nullptr);
        else if (o == "scl") { sys[2].reset(sys[1]->clone()); c[3] = sys[2]->getController(); std::shared_ptr<CB> q; sys[2]->getController(q); if (q != c[3]) out.i(-1); }
        else if (o == "dyn") { X x, d; x << a[1], a[2]; d.setConstant(77); sys[a[0]]->computeDynamics(x, a[3] * TK, d); out.mat(d, 16); }
        else if (o == "cdyn") { X x, d; x << a[1], a[2]; U u; u << a[4], a[5]; sys[a[0]]->computeControlledDynamics(x, a[3] * TK, u, d); out.mat(d, 16); }
        else if (o == "last") out.mat(sys[a[0]]->getLastControlAction(), 16);
        else if (o == "pid")
            pid[1].reset(new PIDController<>(PIDController<>::parameters_t(a[0], a[1], a[2], 1.0 / a[3], a[4], a[5], a[6]), PIDController<>::setpoint_t(a[7], a[8])));
        else if (o == "ppar") pid[a[0]]->changeParameters(PIDController<>::parameters_t(a[1], a[2], a[3], 1.0 / a[4], a[5], a[6], a[7]));
        else if (o == "pcl") pid[2].reset(pid[1]->clone());
        else if (o == "pset") pid[a[0]]->setDesiredState(a[1]);
        else if (o == "psetv") pid[a[0]]->setDesiredState(a[1], a[2]);
        else if (o == "pini") pid[a[0]]->setInitialState(a[1]);
        else if (o == "prst") pid[a[0]]->reset();
        else if (o == "pu") out.exact(pid[a[0]]->computeControl(double(a[1]), Time(0)), 4);
        else if (o == "pv") out.exact(pid[a[0]]->computeControl(double(a[1]), double(a[2]), Time(0)), 4);
        else if (o == "step")
        {
            StepInputController st(StepInputController::Parameters(a[0], a[1] * TK));
            std::unique_ptr<StepInputController> q(st.clone());
            StateVector<1> x; x << 3; ControlVector<1> u; u << 77; q->computeControl(x, a[2] * TK, u); out.exact(u(0));
        }
        else if (o == "so") so[1].reset(new SecondOrderSystem(double(a[0]), double(a[1]), double(a[2])));
        else if (o == "sos") { if (!so[1]) so[1].reset(new SecondOrderSystem(1.0)); so[1]->setDynamics(a[0], a[1], a[2]); }
        else if (o == "sok") so[1].reset(new SecondOrderSystem(double(a[0] * a[0] * a[1]), double(a[1]), double(a[2] * a[1]), double(a[3])));
        else if (o == "socl") so[2].reset(so[1]->clone());
        else if (o == "soq") out.i(so[a[0]]->checkParameters() ? 1 : 0);
        else if (o == "sod") { X x, d; x << a[1], a[2]; ControlVector<1> u; u << a[3]; so[a[0]]->computeControlledDynamics(x, 0.0, u, d); out.mat(d); }
        else if (o == "sim")
        {
            ControlVector<1> u1; u1 << 1;
            std::shared_ptr<Clock> ck(a[4] ? new Clock(std::shared_ptr<Controller<1, 1>>(new ConstantController<1, 1>(u1))) : new Clock);
            StateVector<1> x0; x0 << 0;
            Sim first(a[0] * 1e-6, a[1] * 1e-6, x0, ck, a[2]);
            Sim copy(first);
            Sim& s = a[3] ? copy : first;
            if (a[4]) { s.setU(a[4]); (a[3] ? first : copy).setU(7); }   // every simulator owns the controller that drives its system
            s.zero();
            s.simulate(100.0);
            for (int k = 0; k < 20000 && !s.over; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            s.stop();
            s.finish();
            for (double x : s.xs) out.num(x, 1e6);
            out.i(s.evals());
        }
        else throw vp::bad("op " + o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, []() { return new S; }); }
