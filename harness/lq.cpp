// Conformance harness for spec/Lq.tla
#include <ct/optcon/optcon.h>
#include "common.h"
using namespace ct::core;
using namespace ct::optcon;
static const double U = 64;
typedef LQOCProblem<2, 2> P;
typedef GNRiccatiSolver<2, 2> G;
template <class M> static M get(const vp::Args& a, size_t& o, int r, int c)
{
    M m;
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++) m(i, j) = a[o++] / U;
    return m;
}
typedef Eigen::Matrix2d M2;
typedef Eigen::Vector2d V2;
struct LTI : public DiscreteLinearSystem<2, 2>
{
    M2 A, B;
    LTI* clone() const override { return new LTI(*this); }
    void getAandB(const StateVector<2>&, const ControlVector<2>&, const StateVector<2>&, const int, size_t, StateMatrix<2>& a, StateControlMatrix<2, 2>& b) override { a = A; b = B; }
};
struct Cost : public CostFunctionQuadratic<2, 2>
{
    M2 W, M, V, WT; V2 wx, wu, wT;
    Cost* clone() const override { return new Cost(*this); }
    double evaluateIntermediate() override { return 0; }
    double evaluateTerminal() override { return 0; }
    StateVector<2> stateDerivativeIntermediate() override { return W * x_ + M.transpose() * u_ + wx; }
    StateVector<2> stateDerivativeTerminal() override { return WT * x_ + wT; }
    M2 stateSecondDerivativeIntermediate() override { return W; }
    M2 stateSecondDerivativeTerminal() override { return WT; }
    ControlVector<2> controlDerivativeIntermediate() override { return V * u_ + M * x_ + wu; }
    ControlVector<2> controlDerivativeTerminal() override { return V2::Constant(99); }
    M2 controlSecondDerivativeIntermediate() override { return V; }
    M2 controlSecondDerivativeTerminal() override { return M2::Constant(99); }
    M2 stateControlDerivativeIntermediate() override { return M; }
    M2 stateControlDerivativeTerminal() override { return M2::Constant(99); }
};
struct S : public vp::Session
{
    std::shared_ptr<P> p, c{new P(0)};
    std::shared_ptr<G> g;
    static void fill(P& p, const vp::Args& a, size_t o, int N)
    {
        for (int k = 0; k < N; k++)
        {
            p.A_[k] = get<M2>(a, o, 2, 2); p.B_[k] = get<M2>(a, o, 2, 2); p.b_[k] = get<V2>(a, o, 2, 1); p.P_[k] = get<M2>(a, o, 2, 2);
            p.Q_[k] = get<M2>(a, o, 2, 2); p.R_[k] = get<M2>(a, o, 2, 2); p.qv_[k] = get<V2>(a, o, 2, 1); p.rv_[k] = get<V2>(a, o, 2, 1);
        }
        p.Q_[N] = get<M2>(a, o, 2, 2); p.qv_[N] = get<V2>(a, o, 2, 1); p.b_[N].setConstant(55); p.q_.setConstant(3);
    }
    static void box(P& p, const std::string& o, const vp::Args& a)
    {
        size_t q = o == "tbox" ? 0 : 1;
        int n = a[q];
        Eigen::MatrixXd lb(n, 1), ub(n, 1); Eigen::VectorXi sp(n);
        for (int j = 0; j < n; j++) { sp(j) = a[q + 1 + j]; lb(j) = a[q + 3 + j]; ub(j) = a[q + 5 + j]; }
        V2 nom(a[q + 7], a[q + 8]);
        int K = p.getNumberOfStages();
        if (o == "tbox") p.setTerminalBoxConstraints(n, lb, ub, sp, nom);
        else if (o == "ubox") { if (a[0] < 0) p.setInputBoxConstraints(n, lb, ub, sp, ControlVectorArray<2>(K, nom)); else p.setInputBoxConstraint(a[0], n, lb, ub, sp, nom); }
        else { if (a[0] < 0) p.setIntermediateStateBoxConstraints(n, lb, ub, sp, StateVectorArray<2>(K + 1, nom)); else p.setIntermediateStateBoxConstraint(a[0], n, lb, ub, sp, nom); }
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "lq")
        {
            int N = a[5];
            NLOptConSettings s;
            s.fixedHessianCorrection = a[2]; s.epsilon = a[3] / U; s.recordSmallestEigenvalue = a[4]; s.nThreadsEigen = 1;
            if (!p || a[0] != 0) p.reset(new P(a[0] == 1 ? N + 1 : N));
            if (p->getNumberOfStages() != N) p->changeNumStages(N);
            fill(*p, a, 6, N);
            if (a[0] == 2) { g.reset(new G(N)); g->configure(s); g->setProblem(p); }
            else if (a[0] == 3) { g.reset(new G(p)); g->configure(s); }
            else { if (!g) g.reset(new G()); g->configure(s); g->setProblem(p); }
            g->initializeAndAllocate();
            if (a[1]) for (int k = N - 1; k >= 0; k--) g->solveSingleStage(k);
            else g->solve();
            g->computeFeedbackMatrices(); g->compute_lv(); g->computeStatesAndControls();
            out.i(g->getSolutionFeedback().size()); out.i(g->get_lv().size()); out.i(g->getSolutionState().size()); out.i(g->getSolutionControl().size());
            for (auto& m : g->getSolutionFeedback()) out.mat(m, U);
            for (auto& m : g->get_lv()) out.mat(m, U);
            for (auto& m : g->getSolutionState()) out.mat(m, U);
            for (auto& m : g->getSolutionControl()) out.mat(m, U);
            bool diag = true;
            if (a[4])
            {
                // the smallest eigenvalue is on the grid only when all control Hessians are diagonal: recompute them
                double e = g->getSmallestEigenvalue();
                M2 Sm = p->Q_[N];
                for (int k = N - 1; k >= 0; k--)
                {
                    M2 H = p->R_[k] + p->B_[k].transpose() * Sm * p->B_[k], Gm = p->P_[k] + p->B_[k].transpose() * Sm * p->A_[k];
                    if (std::fabs(H(0, 1)) > 1e-9) diag = false;
                    M2 L = g->getSolutionFeedback()[k];
                    Sm = (p->Q_[k] + p->A_[k].transpose() * Sm * p->A_[k] + L.transpose() * Gm).eval();
                }
                if (diag) out.exact(e, U); else out.i(0);
            }
            else out.i(0);
        }
        else if (o == "new") c.reset(new P(a[0]));
        else if (o == "stages") c->changeNumStages(a[0]);
        else if (o == "zero")
        {
            // whatever the problem held before is gone
            int K = c->getNumberOfStages();
            for (int k = 0; k < K; k++) { c->A_[k].setOnes(); c->B_[k].setOnes(); c->b_[k].setOnes(); c->P_[k].setOnes(); c->rv_[k].setOnes(); c->R_[k].setOnes(); }
            for (int k = 0; k <= K; k++) { c->qv_[k].setOnes(); c->Q_[k].setOnes(); c->q_[k] = 1; }
            c->setZero(a[0]);
            double e = 0;
            for (int k = 0; k < K; k++) e += c->A_[k].norm() + c->B_[k].norm() + c->b_[k].norm() + c->P_[k].norm() + c->rv_[k].norm() + c->R_[k].norm();
            for (int k = 0; k <= K; k++) e += c->qv_[k].norm() + c->Q_[k].norm() + std::fabs(c->q_[k]);
            out.i(e == 0);
        }
        else if (o == "ubox" || o == "xbox" || o == "tbox") box(*c, o, a);
        else if (o == "gen")
        {
            int n = a[0] == 9 ? 1 : a[0];
            Eigen::MatrixXd lo(n, 1), hi(n, 1), C(a[0] == 9 ? 2 : n, 2), D(C.rows(), 2);
            C.setZero(); D.setZero();
            for (int j = 0; j < n; j++) { size_t q = 1 + 6 * j; lo(j) = a[q]; hi(j) = a[q + 1]; C(j, 0) = a[q + 2]; C(j, 1) = a[q + 3]; D(j, 0) = a[q + 4]; D(j, 1) = a[q + 5]; }
            c->setGeneralConstraints(lo, hi, C, D);
        }
        else if (o == "dump")
        {
            int K = c->getNumberOfStages();
            out.i(K); out.i(c->isConstrained()); out.i(c->isInputBoxConstrained()); out.i(c->isStateBoxConstrained()); out.i(c->isGeneralConstrained());
            if ((int)c->nbu_.size() != K || (int)c->nbx_.size() != K + 1 || (int)c->ng_.size() != K + 1) { out.i(-999); return; }
            for (int k = 0; k < K; k++) { int n = c->nbu_[k]; out.i(n); for (int j = 0; j < n; j++) out.i(c->u_I_[k](j)); for (int j = 0; j < n; j++) out.exact(c->u_lb_[k](j)); for (int j = 0; j < n; j++) out.exact(c->u_ub_[k](j)); }
            for (int k = 0; k <= K; k++) { int n = c->nbx_[k]; out.i(n); for (int j = 0; j < n; j++) out.i(c->x_I_[k](j)); for (int j = 0; j < n; j++) out.exact(c->x_lb_[k](j)); for (int j = 0; j < n; j++) out.exact(c->x_ub_[k](j)); }
            for (int k = 0; k <= K; k++) { out.i(c->ng_[k]); if (!c->ng_[k]) continue; out.mat(c->d_lb_[k]); out.mat(c->d_ub_[k]); out.mat(c->C_[k]); out.mat(c->D_[k]); }
        }
        else if (o == "refuse") { G s; s.setProblem(c); }
        else if (o == "tilq")
        {
            size_t q = 2;
            LTI l; Cost f;
            l.A = get<M2>(a, q, 2, 2); l.B = get<M2>(a, q, 2, 2);
            V2 off = get<V2>(a, q, 2, 1);
            f.W = get<M2>(a, q, 2, 2); f.M = get<M2>(a, q, 2, 2); f.V = get<M2>(a, q, 2, 2); f.wx = get<V2>(a, q, 2, 1); f.wu = get<V2>(a, q, 2, 1);
            f.WT = get<M2>(a, q, 2, 2); f.wT = get<V2>(a, q, 2, 1);
            f.setCurrentStateAndControl(V2(7, 7), V2(5, 5), 3.0);
            P t(a[0]);
            t.setFromTimeInvariantLinearQuadraticProblem(l, f, off, a[1] * 0.5);
            int K = t.getNumberOfStages();
            out.i(K);
            for (int k = 0; k < K; k++) { out.mat(t.A_[k], U); out.mat(t.B_[k], U); out.mat(t.b_[k], U); out.mat(t.P_[k], U); out.mat(t.Q_[k], U); out.mat(t.R_[k], U); out.mat(t.qv_[k], U); out.mat(t.rv_[k], U); }
            out.mat(t.Q_[K], U); out.mat(t.qv_[K], U);
        }
        else throw vp::bad("unknown operation " + o);
    }
};
int main(int c, char** v) { return vp::run(c, v, [] { return new S; }); }
