// Conformance harness for spec/Discr.tla
#include <ct/core/core.h>
#include "common.h"
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;
static const double SC = 36864;
struct Par { double k = 0, a = 0, w = 0, c = 0, b = 1; };
struct Sys : public SymplecticSystem<1, 1, 1>
{
    Par P;
    Sys* clone() const override { return new Sys(*this); }
    void computePdot(const X& x, const StateVector<1>& v, const U& u, StateVector<1>& d) override { d(0) = v(0); }
    void computeVdot(const X& x, const StateVector<1>& p, const U& u, StateVector<1>& d) override { d(0) = P.k * p(0) + P.a * p(0) * x(1) + P.b * u(0); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override
    {
        d(0) = x(1) + P.c * t * 1.0;
        d(1) = P.k * x(0) + P.a * x(0) * x(1) + P.w * t * x(0) + P.b * u(0);
    }
};
struct Lin : public LinearSystem<2, 1>
{
    Par P;
    StateMatrix<2> A; StateControlMatrix<2, 1> B;
    Lin(const Par& p) : P(p) {}
    Lin* clone() const override { return new Lin(*this); }
    const StateMatrix<2>& getDerivativeState(const X& x, const U& u, const double t) override { A << 0, 1, P.k + P.a * x(1) + P.w * t, P.a * x(0); return A; }
    const StateControlMatrix<2, 1>& getDerivativeControl(const X& x, const U& u, const double t) override { B << 0, P.b; return B; }
};
static IntegrationType TY(long t)
{
    static const IntegrationType q[] = {EULERCT, RK4CT, EULER_SYM, EULER, RK4, RK_SYM};
    return q[t];
}
typedef SystemDiscretizer<2, 1, 1, 1> D;
struct S : public vp::Session
{
    std::shared_ptr<Sys> sys{new Sys};
    std::shared_ptr<D> d[3];
    Par dp[3];
    long ty[3] = {0, 0, 0}, K[3] = {1, 1, 1}, h2[3] = {2, 2, 2};
    template <class M, class N> void ab(vp::Rec& out, const M& A, const N& B, double sc, bool ex)
    {
        if (ex) { out.mat(A, sc); out.mat(B, sc); } else { out.matn(A, sc); out.matn(B, sc); }
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        StateMatrix<2> A; StateControlMatrix<2, 1> B; A.setConstant(77); B.setConstant(77);
        X x, y; U u;
        if (o == "par") { Par& p = sys->P; p.k = a[0]; p.a = a[1]; p.w = a[2]; p.c = a[3]; p.b = a[4]; }
        else if (o == "new") { ty[1] = a[0]; K[1] = a[1]; h2[1] = a[2]; d[1].reset(new D(sys, a[1] * a[2] * 0.5, TY(a[0]), a[1])); dp[1] = sys->P; }
        else if (o == "cl") { d[2].reset(d[1]->clone()); ty[2] = ty[1]; K[2] = K[1]; h2[2] = h2[1]; dp[2] = dp[1]; }
        else if (o == "sett") { d[a[0]]->setIntegrationType(TY(a[1])); ty[a[0]] = a[1]; }
        else if (o == "setp") { d[a[0]]->setParameters(a[1] * a[2] * 0.5, a[1]); K[a[0]] = a[1]; h2[a[0]] = a[2]; }
        else if (o == "chg") { d[a[0]]->changeContinuousTimeSystem(sys); dp[a[0]] = sys->P; }
        else if (o == "step" || o == "sens")
        {
            long s = a[0];
            x << a[2], a[3]; u << a[4]; y.setConstant(77);
            d[s]->propagateControlledDynamics(x, a[1], u, y);
            if (o == "step")
            {
                out.mat(y, SC);
                auto xs = d[s]->getSubstates(); auto us = d[s]->getSubcontrols();
                out.i(xs->size());
                for (size_t i = 0; i < xs->size(); i++) { out.mat((*xs)[i], SC); out.exact((*us)[i](0)); }
            }
            else
            {
                typedef SensitivityIntegrator<2, 1, 1, 1> SI;
                std::shared_ptr<Controller<2, 1>> cc(new ConstantController<2, 1>);
                std::shared_ptr<LinearSystem<2, 1>> ls(new Lin(dp[s]));
                SI si(h2[s] * 0.5, ls, cc, TY(ty[s]), true);
                std::vector<std::shared_ptr<StateVectorArray<2>>, Eigen::aligned_allocator<std::shared_ptr<StateVectorArray<2>>>> xs(a[1] + 1);
                std::vector<std::shared_ptr<ControlVectorArray<1>>, Eigen::aligned_allocator<std::shared_ptr<ControlVectorArray<1>>>> us(a[1] + 1);
                xs[a[1]] = d[s]->getSubstates(); us[a[1]] = d[s]->getSubcontrols();
                si.setSubstepTrajectoryReference(&xs, &us);
                si.getAandB(x, u, y, a[1], K[s], A, B);
                ab(out, A, B, SC, true);
            }
        }
        else if (o == "fe" || o == "se" || o == "imp" || o == "exp")
        {
            typedef SensitivityApproximation<2, 1, 1, 1> SA;
            typedef SensitivityApproximationSettings::APPROXIMATION AP;
            std::shared_ptr<LinearSystem<2, 1>> ls(new Lin(sys->P));
            long q = o == "imp" ? 1 : 0;
            double h = a[q] * 0.5;
            x << a[q + 2], a[q + 3]; u << a[q + 4];
            AP ap = o == "fe" ? AP::FORWARD_EULER : o == "se" ? AP::SYMPLECTIC_EULER : o == "exp" ? AP::MATRIX_EXPONENTIAL : a[0] == 1 ? AP::BACKWARD_EULER : AP::TUSTIN;
            SA first(h, ls, ap);
            SA sa(first);
            y = x;
            if (o == "se") y(0) = x(0) + h * x(1);
            if (o == "imp") y << a[6], a[7];
            sa.getAandB(x, u, y, a[q + 1], 1, A, B);
            ab(out, A, B, o == "fe" || o == "se" ? SC : 1000, o == "fe" || o == "se");
            if (o == "exp") { sa.setTimeDiscretization(2 * h); sa.getAandB(x, u, y, a[1], 1, A, B); ab(out, A, B, 1000, false); }
        }
        else if (o == "lin")
        {   // double-sided?, t4, p, v, u
            SystemLinearizer<2, 1> l(sys, a[0] == 1);
            std::unique_ptr<SystemLinearizer<2, 1>> q(l.clone());
            x << a[2], a[3]; u << a[4];
            if (a[4] % 2) { A = q->getDerivativeState(x, u, a[1] * 0.25); B = q->getDerivativeControl(x, u, a[1] * 0.25); }
            else q->getDerivatives(A, B, x, u, a[1] * 0.25);
            ab(out, A, B, 1000, false);
        }
        else if (o == "dlin")
        {
            DiscreteSystemLinearizer<2, 1> l(d[a[0]], true);
            std::unique_ptr<DiscreteSystemLinearizer<2, 1>> q(l.clone());
            x << a[2], a[3]; u << a[4];
            q->getAandB(x, u, x, a[1], 1, A, B);
            ab(out, A, B, 1000, false);
        }
        else if (o == "lti" || o == "dlti")
        {
            StateMatrix<2> C; StateControlMatrix<2, 1> Dm; Dm << 2, -1;
            A << a[0], a[1], a[2], a[3]; B << a[4], a[5]; C << a[6], a[7], a[8], a[9]; x << a[10], a[11]; u << a[12];
            U three; three << 3;
            Eigen::Matrix<double, 2, 2> CO;
            X f, g, z; StateMatrix<2> A2; StateControlMatrix<2, 1> B2;
            if (o == "lti")
            {
                LTISystem<2, 1> l(A, B, C, Dm);
                l.computeControllabilityMatrix(CO); out.mat(CO); out.i(l.isControllable()); out.i(l.isObservable());
                l.computeControlledDynamics(x, 0.0, u, f); l.computeOutput(x, 0.0, u, g);
                l.setController(std::shared_ptr<Controller<2, 1>>(new ConstantController<2, 1>(three)));
                std::unique_ptr<LTISystem<2, 1>> q(l.clone());
                l.setController(nullptr); 
                q->getDerivatives(A2, B2, x, u); q->computeDynamics(x, 0.0, z);
            }
            else
            {
                DiscreteLTISystem<2, 1> l(A, B, C, Dm);
                l.computeControllabilityMatrix(CO); out.mat(CO); out.i(l.isControllable()); out.i(l.isObservable());
                l.propagateControlledDynamics(x, 0, u, f); l.computeOutput(x, 0, u, g);
                l.setController(std::shared_ptr<DiscreteController<2, 1>>(new ConstantController<2, 1>(three)));
                std::unique_ptr<DiscreteLTISystem<2, 1>> q(l.clone());
                l.setController(nullptr);
                q->getAandB(x, u, x, 0, 1, A2, B2); q->propagateDynamics(x, 0, z);
            }
            out.mat(f); out.mat(g); out.mat(A2); out.mat(B2); out.mat(z);
        }
        else throw vp::bad("op " + o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, []() { return new S; }); }
