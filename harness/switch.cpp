#include <ct/core/core.h>
#include "common.h"
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;
typedef StateMatrix<2> MA;
typedef StateControlMatrix<2, 1> MB;
static void ab(double p, double q, double tau, MA& A, MB& B) { A << p, tau, 0, p; B << q, 1; }

struct CSys : ControlledSystem<2, 1>
{
    double p, q;
    CSys(double a, double b) : p(a), q(b) {}
    CSys* clone() const override { return new CSys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { MA A; MB B; ab(p, q, 4 * t, A, B); d = A * x + B * u; }
};
struct LSys : LinearSystem<2, 1>
{
    double p, q; MA A; MB B;
    LSys(double a, double b) : p(a), q(b) {}
    LSys* clone() const override { return new LSys(*this); }
    const MA& getDerivativeState(const X&, const U&, const double t = 0) override { ab(p, q, 4 * t, A, B); return A; }
    const MB& getDerivativeControl(const X&, const U&, const double t = 0) override { ab(p, q, 4 * t, A, B); return B; }
};
struct DSys : DiscreteControlledSystem<2, 1>
{
    double p, q;
    DSys(double a, double b) : p(a), q(b) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& d) override { MA A; MB B; ab(p, q, n, A, B); d = A * x + B * u; }
};
struct DLSys : DiscreteLinearSystem<2, 1>
{
    double p, q;
    DLSys(double a, double b) : p(a), q(b) {}
    DLSys* clone() const override { return new DLSys(*this); }
    void getAandB(const X&, const U&, const X&, const int n, size_t, MA& A, MB& B) override { ab(p, q, n, A, B); }
};
struct Ctl : Controller<2, 1>
{
    double v = 0;
    Ctl* clone() const override { return new Ctl(*this); }
    void computeControl(const X&, const double&, U& u) override { u(0) = v; }
};
struct DCtl : DiscreteController<2, 1>
{
    double v = 0;
    DCtl* clone() const override { return new DCtl(*this); }
    void computeControl(const X&, const int, U& u) override { u(0) = v; }
};
static const long P0[3][2] = {{1, 1}, {2, -1}, {-3, 2}};

struct S : vp::Session
{
    int kind = 0;
    std::unique_ptr<ContinuousModeSequence> cs{new ContinuousModeSequence(0)};
    std::unique_ptr<DiscreteModeSequence> ds{new DiscreteModeSequence(0)};
    std::vector<std::shared_ptr<CSys>> c; std::vector<std::shared_ptr<LSys>> l;
    std::vector<std::shared_ptr<DSys>> d; std::vector<std::shared_ptr<DLSys>> dl;
    std::shared_ptr<ControlledSystem<2, 1>> co[3];
    std::shared_ptr<DiscreteControlledSystem<2, 1>> dob[3];
    std::shared_ptr<Ctl> ctl; std::shared_ptr<DCtl> dctl;
    S() { init(); }
    void init()
    {
        c.clear(); l.clear(); d.clear(); dl.clear();
        for (auto& q : P0)
        {
            c.emplace_back(new CSys(q[0], q[1])); l.emplace_back(new LSys(q[0], q[1]));
            d.emplace_back(new DSys(q[0], q[1])); dl.emplace_back(new DLSys(q[0], q[1]));
        }
        ctl.reset(new Ctl()); dctl.reset(new DCtl());
        for (int k = 0; k < 3; k++) { co[k].reset(); dob[k].reset(); }
    }
    bool disc() const { return kind >= 2; }
    template <typename SEQ>
    void seq(SEQ& s, double tk, const std::string& n, const vp::Args& a, vp::Rec& o)
    {
        typedef decltype(s.getTotalDuration()) T;
        auto tm = [&](long v) { return T(v * tk); };
        double sc = 1.0 / tk;
        if (n == "add") s.addPhase(a[0], tm(a[1]));
        else if (n == "cnt") { o.i(s.getNumPhases()); o.i(s.getNumSwitches()); o.exact(s.getTotalDuration(), sc); }
        else if (n == "at") { o.exact(s.getStartTimeFromIdx(a[0]), sc); o.exact(s.getEndTimeFromIdx(a[0]), sc); o.i(s.getPhaseFromIdx(a[0])); }
        else if (n == "t") { o.i(s.getIdxFromTime(tm(a[0]))); o.i(s.getPhaseFromTime(tm(a[0]))); }
        else if (n == "ff") { o.i(s.getFirstPhase()); o.i(s.getFinalPhase()); }
        else if (n == "sw") { auto e = s.getSwitchEventFromIdx(a[0]); o.i(e.pre_phase); o.i(e.post_phase); o.exact(e.switch_time, sc); }
        else if (n == "swt") { auto e = s.getSwitchEventFromTime(tm(a[0])); o.i(e.pre_phase); o.i(e.post_phase); o.exact(e.switch_time, sc); }
        else throw vp::bad("unknown op " + n);
    }
    void op(const std::string& n, const vp::Args& a, vp::Rec& o) override
    {
        if (n == "new")
        {
            kind = a[0]; init();
            cs.reset(new ContinuousModeSequence(a[1] * 0.25)); ds.reset(new DiscreteModeSequence(a[1]));
        }
        else if (n == "mk")
        {
            if (kind == 0)
            {
                SwitchedControlledSystem<2, 1>::SwitchedSystems v(c.begin(), c.end());
                if (a[0]) co[1].reset(new SwitchedControlledSystem<2, 1>(v, *cs, ctl)); else co[1].reset(new SwitchedControlledSystem<2, 1>(v, *cs));
            }
            else if (kind == 1)
            {
                SwitchedLinearSystem<2, 1>::SwitchedLinearSystems v(l.begin(), l.end());
                co[1].reset(new SwitchedLinearSystem<2, 1>(v, *cs));
                if (a[0]) co[1]->setController(ctl);
            }
            else if (kind == 2)
            {
                SwitchedDiscreteControlledSystem<2, 1>::SwitchedSystems v(d.begin(), d.end());
                if (a[0]) dob[1].reset(new SwitchedDiscreteControlledSystem<2, 1>(v, *ds, dctl)); else dob[1].reset(new SwitchedDiscreteControlledSystem<2, 1>(v, *ds));
            }
            else
            {
                SwitchedDiscreteLinearSystem<2, 1>::SwitchedLinearSystems v(dl.begin(), dl.end());
                dob[1].reset(new SwitchedDiscreteLinearSystem<2, 1>(v, *ds));
                if (a[0]) dob[1]->setController(dctl);
            }
        }
        else if (n == "clone") { if (disc()) dob[2].reset(dob[1]->clone()); else co[2].reset(co[1]->clone()); }
        else if (n == "set") { c[a[0]]->p = l[a[0]]->p = d[a[0]]->p = dl[a[0]]->p = a[1]; c[a[0]]->q = l[a[0]]->q = d[a[0]]->q = dl[a[0]]->q = a[2]; }
        else if (n == "ctl") { ctl->v = a[0]; dctl->v = a[0]; }
        else if (n == "f" || n == "auto")
        {
            X x, r; x << a[1], a[2]; r.setZero(); U u;
            if (n == "f")
            {
                u(0) = a[3];
                if (disc()) dob[a[0]]->propagateControlledDynamics(x, a[4], u, r); else co[a[0]]->computeControlledDynamics(x, a[4] * 0.25, u, r);
            }
            else if (disc()) dob[a[0]]->propagateDynamics(x, a[3], r);
            else co[a[0]]->computeDynamics(x, a[3] * 0.25, r);
            o.mat(r);
        }
        else if (n == "lin")
        {
            X x = X::Zero(); U u = U::Zero(); MA A; MB B;
            if (disc()) static_cast<DiscreteLinearSystem<2, 1>*>(dob[a[0]].get())->getAandB(x, u, (int)a[1], A, B);
            else static_cast<LinearSystem<2, 1>*>(co[a[0]].get())->getDerivatives(A, B, x, u, a[1] * 0.25);
            o.mat(A); o.mat(B);
        }
        else if (disc()) seq(*ds, 1.0, n, a, o);
        else seq(*cs, 0.25, n, a, o);
    }
};
int main(int c, char** v) { return vp::run(c, v, [] { return new S(); }); }
