// Conformance harness for spec/Lqr.tla
#include <ct/optcon/optcon.h>
#include "common.h"
using namespace ct::core;
using namespace ct::optcon;
static const double U = 64, V = 1024;
template <int R, int C> static Eigen::Matrix<double, R, C> get(const vp::Args& a, size_t& o)
{
    Eigen::Matrix<double, R, C> m;
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++) m(i, j) = a[o++] / U;
    return m;
}
typedef Eigen::Matrix<double, 2, 2> M22;
typedef Eigen::Matrix<double, 2, 3> M23;
typedef Eigen::Matrix<double, 3, 3> M33;
typedef Eigen::Matrix<double, 3, 2> M32;
struct Data
{
    std::vector<M22> A, Q; std::vector<M23> B; std::vector<M33> R; M22 QT; double dt; int N;
    StateVectorArray<2> x; ControlVectorArray<3> u;
    // a wrong point or time shows in everything that is evaluated there
    double off(const StateVector<2>& xx, const ControlVector<3>* uu, double t, int& i) const
    {
        i = std::min(N, std::max(0, (int)std::lround(t / dt)));
        double d = std::fabs(t - i * dt) + (xx - x[i]).norm();
        if (uu && i < N) d += (*uu - u[i]).norm();
        return 5 * d;
    }
};
struct Sys : public LinearSystem<2, 3>
{
    const Data& d; StateMatrix<2> a; StateControlMatrix<2, 3> b;
    Sys(const Data& d_) : d(d_) {}
    Sys* clone() const override { return new Sys(*this); }
    const StateMatrix<2>& getDerivativeState(const StateVector<2>& x, const ControlVector<3>& u, const double t) override
    { int i; double e = d.off(x, &u, t, i); a = (d.A[i] - M22::Identity()) / d.dt + M22::Constant(e); return a; }
    const StateControlMatrix<2, 3>& getDerivativeControl(const StateVector<2>& x, const ControlVector<3>& u, const double t) override
    { int i; double e = d.off(x, &u, t, i); b = d.B[i] / d.dt + M23::Constant(e); return b; }
};
struct Cost : public CostFunctionQuadratic<2, 3>
{
    const Data& d;
    Cost(const Data& d_) : d(d_) {}
    Cost* clone() const override { return new Cost(*this); }
    double evaluateIntermediate() override { return 0; }
    double evaluateTerminal() override { return 0; }
    StateVector<2> stateDerivativeIntermediate() override { return StateVector<2>::Constant(9); }
    StateVector<2> stateDerivativeTerminal() override { return StateVector<2>::Constant(9); }
    M22 stateSecondDerivativeIntermediate() override { int i; double e = d.off(x_, &u_, t_, i); return d.Q[i] / d.dt + M22::Constant(e); }
    M22 stateSecondDerivativeTerminal() override { int i; double e = d.off(x_, nullptr, t_, i); return d.QT + M22::Constant(e + 7 * (i != d.N)); }
    ControlVector<3> controlDerivativeIntermediate() override { return ControlVector<3>::Constant(9); }
    ControlVector<3> controlDerivativeTerminal() override { return ControlVector<3>::Constant(9); }
    M33 controlSecondDerivativeIntermediate() override { int i; double e = d.off(x_, &u_, t_, i); return d.R[i] / d.dt + M33::Constant(e); }
    M33 controlSecondDerivativeTerminal() override { return M33::Constant(9); }
    M32 stateControlDerivativeIntermediate() override { return M32::Zero(); }
    M32 stateControlDerivativeTerminal() override { return M32::Zero(); }
};
struct S : public vp::Session
{
    DARE<2, 2> dare; CARE<2, 2> care_; LQR<2, 2> lqr; DynamicRiccatiEquation<2, 3> dre;
    Data d; std::shared_ptr<Cost> cost{new Cost(d)}; FHDTLQR<2, 3> fhd{cost};
    FeedbackArray<2, 3> Kf;
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        size_t q = 0;
        if (o == "dare" || o == "nodare")
        {
            q = o == "dare" ? 2 : 0;
            M22 Q = get<2, 2>(a, q), R = get<2, 2>(a, q), A = get<2, 2>(a, q), B = get<2, 2>(a, q), K, P;
            K.setConstant(77);
            if (o == "nodare") { dare.computeSteadyStateRiccatiMatrix(Q, R, A, B, K); return; }
            q += 8;
            M22 W = get<2, 2>(a, q);
            P = a[0] ? dare.computeSteadyStateRiccatiMatrix(Q, R, A, B, W, K, false, 1e-6, a[1]) : dare.computeSteadyStateRiccatiMatrix(Q, R, A, B, K, false, 1e-6, a[1]);
            out.matn(P, V); out.matn(K, V);
        }
        else if (o == "care")
        {
            q = 3;
            M22 Q = get<2, 2>(a, q), R = get<2, 2>(a, q), A = get<2, 2>(a, q), B = get<2, 2>(a, q), K, P;
            K.setConstant(77);
            if (a[2] == 0) { bool ok = lqr.compute(Q, R, A, B, K, a[1], a[0]); if (!ok) K.setConstant(88); out.matn(K, V); }
            else { P = care_.computeSteadyStateRiccatiMatrix(Q, R, A, B, a[1], a[0]); out.matn(P, V); }
        }
        else if (o == "dre")
        {
            q = 1;
            M22 Q = get<2, 2>(a, q); M33 R = get<3, 3>(a, q); M22 A = get<2, 2>(a, q); M23 B = get<2, 3>(a, q); M22 P = get<2, 2>(a, q); M32 K;
            K.setConstant(77);
            if (a[0]) dre.iterateRobust(Q, R, A, B, P, K); else dre.iterateNaive(Q, R, A, B, P, K);
            out.matn(P, V); out.matn(K, V);
        }
        else if (o == "fhd")
        {
            int N = a[2];
            d = Data(); d.N = N; d.dt = a[4] * 0.5;
            q = 5;
            StateMatrixArray<2> As; StateControlMatrixArray<2, 3> Bs;
            for (int k = 0; k < N; k++)
            {
                d.A.push_back(get<2, 2>(a, q)); d.B.push_back(get<2, 3>(a, q)); d.Q.push_back(get<2, 2>(a, q)); d.R.push_back(get<3, 3>(a, q)); q += 6;
                As.push_back(d.A.back()); Bs.push_back(d.B.back());
                d.x.push_back(Eigen::Vector2d(1 + k, -k)); ControlVector<3> u; u << k, 2 * k, -1; d.u.push_back(u);
            }
            d.x.push_back(Eigen::Vector2d(1 + N, -N));
            d.A.push_back(M22::Constant(33)); d.B.push_back(M23::Constant(33)); d.Q.push_back(M22::Constant(33)); d.R.push_back(M33::Constant(33));
            d.QT = get<2, 2>(a, q);
            ControlVectorArray<3> u = d.u;
            if (a[3] == 1) u.push_back(u.back());
            if (a[3] == 2) As.push_back(As.back());
            if (a[3] == 3) Bs.pop_back();
            if (a[0] == 0 || a[3] > 1) fhd.designController(d.x, u, As, Bs, d.dt, Kf, a[1]);
            else fhd.designController(d.x, u, std::shared_ptr<LinearSystem<2, 3>>(new Sys(d)), d.dt, Kf, a[1]);
            for (auto& k : Kf) out.matn(k, V);
        }
        else throw vp::bad("unknown operation " + o);
    }
};
int main(int c, char** v) { return vp::run(c, v, [] { return new S; }); }
