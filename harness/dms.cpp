// Conformance harness for spec/Dms.tla: the nonlinear program of the direct multiple shooting transcription.
#include <ct/optcon/optcon.h>
#include "common.h"
using namespace ct::core;
using namespace ct::optcon;
typedef Eigen::VectorXd V;
typedef StateVector<3> X3;
typedef ControlVector<2> U2;

struct Plant : public ControlledSystem<3, 2>
{
    double k, a, w, c, b, g;
    Plant* clone() const override { return new Plant(*this); }
    void computeControlledDynamics(const X3& x, const double& t, const U2& u, X3& d) override
    {
        d(0) = x(1) - u(1);
        d(1) = x(2) + c * t;
        d(2) = k * x(1) + a * x(1) * x(2) + w * t * x(1) + b * u(0) + g * x(0) * u(1);
    }
};
struct Lin : public LinearSystem<3, 2>
{
    Plant p;
    StateMatrix<3> A;
    StateControlMatrix<3, 2> B;
    Lin(const Plant& q) : p(q) {}
    Lin* clone() const override { return new Lin(*this); }
    const StateMatrix<3>& getDerivativeState(const X3& x, const U2& u, const double t) override
    {
        A << 0, 1, 0, 0, 0, 1, p.g * u(1), p.k + p.a * x(2) + p.w * t, p.a * x(1);
        return A;
    }
    const StateControlMatrix<3, 2>& getDerivativeControl(const X3& x, const U2& u, const double t) override
    {
        B << 0, -1, 0, 0, p.b, p.g * x(0);
        return B;
    }
};
struct UserCost : public CostFunctionQuadratic<3, 2>
{
    double q[7], f[3];
    typedef Eigen::Matrix<double, 3, 1> V3;
    UserCost* clone() const override { return new UserCost(*this); }
    double evaluateIntermediate() override
    {
        return q[0] * x_(0) * x_(0) + q[1] * x_(1) * x_(1) + q[2] * x_(2) * u_(0) + q[3] * u_(0) * u_(0) + q[4] * u_(1) * u_(1) +
               q[5] * t_ * x_(1) + q[6] * x_(0) * u_(1);
    }
    X3 stateDerivativeIntermediate() override
    {
        X3 d;
        d << 2 * q[0] * x_(0) + q[6] * u_(1), 2 * q[1] * x_(1) + q[5] * t_, q[2] * u_(0);
        return d;
    }
    U2 controlDerivativeIntermediate() override
    {
        U2 d;
        d << q[2] * x_(2) + 2 * q[3] * u_(0), 2 * q[4] * u_(1) + q[6] * x_(0);
        return d;
    }
    double evaluateTerminal() override { return f[0] * x_(0) * x_(0) + f[1] * x_(1) * x_(2) + f[2] * t_ * x_(2); }
    X3 stateDerivativeTerminal() override
    {
        X3 d;
        d << 2 * f[0] * x_(0), f[1] * x_(2), f[1] * x_(1) + f[2] * t_;
        return d;
    }
    state_matrix_t stateSecondDerivativeIntermediate() override { throw std::runtime_error("not needed"); }
    control_matrix_t controlSecondDerivativeIntermediate() override { throw std::runtime_error("not needed"); }
    control_state_matrix_t stateControlDerivativeIntermediate() override { throw std::runtime_error("not needed"); }
    state_matrix_t stateSecondDerivativeTerminal() override { throw std::runtime_error("not needed"); }
    control_matrix_t controlSecondDerivativeTerminal() override { throw std::runtime_error("not needed"); }
};
// general constraint: end 0: (p u1 + t, z - u2^2), end 1: (z^2 + v + t, p u1); sparse: only the entries that can be nonzero
struct Gen : public ConstraintBase<3, 2>
{
    int end, sparse;
    Gen(int e, int s) : end(e), sparse(s)
    {
        lb_.resize(2); ub_.resize(2);
        if (e) { lb_ << -17, -18; ub_ << 19, 20; } else { lb_ << -13, -14; ub_ << 15, 16; }
    }
    Gen* clone() const override { return new Gen(*this); }
    size_t getConstraintSize() const override { return 2; }
    V evaluate(const X3& x, const U2& u, const double t) override
    {
        V g(2);
        if (end) g << x(0) * x(0) + x(2) + t, x(1) * u(0);
        else g << x(1) * u(0) + t, x(0) - u(1) * u(1);
        return g;
    }
    Eigen::MatrixXd jacobianState(const X3& x, const U2& u, const double t) override
    {
        Eigen::MatrixXd j(2, 3);
        if (end) j << 2 * x(0), 0, 1, 0, u(0), 0;
        else j << 0, u(0), 0, 1, 0, 0;
        return j;
    }
    Eigen::MatrixXd jacobianInput(const X3& x, const U2& u, const double t) override
    {
        Eigen::MatrixXd j(2, 2);
        if (end) j << 0, 0, x(1), 0;
        else j << x(1), 0, 0, -2 * u(1);
        return j;
    }
    V jacobianStateSparse(const X3& x, const U2& u, const double t) override
    {
        if (!sparse) return ConstraintBase<3, 2>::jacobianStateSparse(x, u, t);
        V v(end ? 3 : 2);
        if (end) v << 2 * x(0), 1, u(0); else v << u(0), 1;
        return v;
    }
    V jacobianInputSparse(const X3& x, const U2& u, const double t) override
    {
        if (!sparse) return ConstraintBase<3, 2>::jacobianInputSparse(x, u, t);
        V v(end ? 1 : 2);
        if (end) v << x(1); else v << x(1), -2 * u(1);
        return v;
    }
    void sparsityPatternState(Eigen::VectorXi& r, Eigen::VectorXi& c) override
    {
        if (!sparse) { ConstraintBase<3, 2>::sparsityPatternState(r, c); return; }
        r.resize(end ? 3 : 2); c.resize(end ? 3 : 2);
        if (end) { r << 0, 0, 1; c << 0, 2, 1; } else { r << 0, 1; c << 1, 0; }
    }
    void sparsityPatternInput(Eigen::VectorXi& r, Eigen::VectorXi& c) override
    {
        if (!sparse) { ConstraintBase<3, 2>::sparsityPatternInput(r, c); return; }
        r.resize(end ? 1 : 2); c.resize(end ? 1 : 2);
        if (end) { r << 1; c << 0; } else { r << 0, 1; c << 0, 1; }
    }
    size_t getNumNonZerosJacobianState() const override { return sparse ? (end ? 3 : 2) : 6; }
    size_t getNumNonZerosJacobianInput() const override { return sparse ? (end ? 1 : 2) : 4; }
};

struct S : public vp::Session
{
    typedef DmsProblem<3, 2> Prob;
    typedef ct::optcon::tpl::Nlp<double> N;
    std::shared_ptr<Prob> p;
    static V vec(const vp::Args& a, size_t o) { V v(a.size() - o); for (size_t i = o; i < a.size(); i++) v(i - o) = a[i]; return v; }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "new")
        {
            DmsSettings s;
            s.N_ = a[0]; s.T_ = a[0] * a[1] / 2.0; s.dt_sim_ = a[2] / 2.0;
            s.splineType_ = a[3] ? DmsSettings::PIECEWISE_LINEAR : DmsSettings::ZERO_ORDER_HOLD;
            s.integrationType_ = a[4] ? DmsSettings::RK4 : DmsSettings::EULER;
            s.costEvaluationType_ = a[5] ? DmsSettings::FULL : DmsSettings::SIMPLE;
            s.nThreads_ = a[7];
            Plant q;
            q.k = a[8]; q.a = a[9]; q.w = a[10]; q.c = a[11]; q.b = a[12]; q.g = a[13];
            UserCost c;
            for (int i = 0; i < 7; i++) c.q[i] = a[14 + i];
            for (int i = 0; i < 3; i++) c.f[i] = a[21 + i];
            typedef Prob::OptConProblem_t OC;
            std::vector<OC::DynamicsPtr_t> sys;
            std::vector<OC::LinearPtr_t> lin;
            std::vector<OC::CostFunctionPtr_t> cost;
            for (size_t i = 0; i < s.N_; i++)
            {
                sys.push_back(OC::DynamicsPtr_t(new Plant(q)));
                lin.push_back(OC::LinearPtr_t(new Lin(q)));
                cost.push_back(OC::CostFunctionPtr_t(new UserCost(c)));
            }
            std::vector<OC::ConstraintPtr_t> in, st, gen;
            typedef ConstraintContainerAnalytical<3, 2> Box;
            if (a[6] & 1)
            {
                U2 l, u;
                l << -3, -4; u << 5, 6;
                auto b = std::make_shared<Box>();
                b->addIntermediateConstraint(std::make_shared<ControlInputConstraint<3, 2>>(l, u), false);
                b->initialize();
                in.push_back(b);
            }
            if (a[6] & 2)
            {
                X3 l, u;
                l << -7, -8, -9; u << 10, 11, 12;
                auto b = std::make_shared<Box>();
                b->addIntermediateConstraint(std::make_shared<StateConstraint<3, 2>>(l, u), false);
                b->addTerminalConstraint(std::make_shared<StateConstraint<3, 2>>(l, u), false);
                b->initialize();
                st.push_back(b);
            }
            if (a[6] & 4)
            {
                auto b = std::make_shared<Box>();
                b->addIntermediateConstraint(std::make_shared<Gen>(0, a[8] == 0), false);
                b->addTerminalConstraint(std::make_shared<Gen>(1, a[11] == 0), false);
                b->initialize();
                gen.push_back(b);
            }
            X3 x0;
            x0 << a[24], a[25], a[26];
            p.reset(new Prob(s, sys, lin, cost, in, st, gen, x0));
            out.i(p->getVarCount());
            out.i(p->getConstraintsCount());
        }
        else if (o == "set")
        {
            V w = vec(a, 1);
            N::MapConstVecXs m(w.data(), w.size());
            p->extractOptimizationVars(m, a[0] == 1);
        }
        else if (o == "cost") out.res(p->evaluateCostFun());
        else if (o == "grad")
        {
            V g = V::Constant(p->getVarCount(), 77), d = vec(a, 0);
            N::MapVecXs m(g.data(), g.size());
            p->evaluateCostGradient(g.size(), m);
            if (d.size() != g.size()) throw vp::bad("direction");
            out.res(g.dot(d));
        }
        else if (o == "con")
        {
            V g = V::Constant(p->getConstraintsCount(), 77);
            N::MapVecXs m(g.data(), g.size());
            p->evaluateConstraints(m);
            out.matr(g);
        }
        else if (o == "jac")
        {
            size_t nz = p->getNonZeroJacobianCount(), rows = p->getConstraintsCount(), cols = p->getVarCount();
            V v = V::Constant(nz, 77), d = vec(a, 0), y = V::Zero(rows);
            Eigen::VectorXi r = Eigen::VectorXi::Constant(nz, -5), c = r;
            N::MapVecXs mv(v.data(), nz);
            N::MapVecXi mr(r.data(), nz), mc(c.data(), nz);
            p->getSparsityPatternJacobian(nz, mr, mc);
            p->evaluateConstraintJacobian(nz, mv);
            std::vector<std::vector<int>> seen(rows, std::vector<int>(cols, 0));
            for (size_t i = 0; i < nz; i++)
            {
                if (r(i) < 0 || (size_t)r(i) >= rows || c(i) < 0 || (size_t)c(i) >= cols || seen[r(i)][c(i)]++) { out.i(-1); return; }
                y(r(i)) += v(i) * d(c(i));
            }
            out.matr(y);
        }
        else if (o == "bnd")
        {
            size_t m = p->getConstraintsCount();
            V l(m), u(m);
            N::MapVecXs ml(l.data(), m), mu(u.data(), m);
            p->getConstraintBounds(ml, mu, m);
            out.mat(l);
            out.mat(u);
            V vl(p->getVarCount()), vu(p->getVarCount());
            N::MapVecXs a1(vl.data(), vl.size()), a2(vu.data(), vu.size());
            p->getVariableBounds(a1, a2, vl.size());
            if (vl.maxCoeff() > -1e300 || vu.minCoeff() < 1e300) out.i(-1);   // the variables themselves are unbounded
        }
        else if (o == "sol")
        {
            auto x = p->getStateSolution();
            auto u = p->getInputSolution();
            for (auto& v : x) out.matr(v);
            for (auto& v : u) out.matr(v);
            for (double t : p->getTimeSolution()) out.res(t);
            out.res(p->getTimeHorizon());
        }
        else if (o == "ipopt")   // the solver hands over its result and reads the multipliers back for a warm start
        {
            V x = vec(a, 0), zl = x.array() + 1, zu = x.array() - 1, la = V::LinSpaced(p->getConstraintsCount(), 1, p->getConstraintsCount());
            size_t n = x.size(), m = la.size();
            p->extractIpoptSolution(N::MapConstVecXs(x.data(), n), N::MapConstVecXs(zl.data(), n), N::MapConstVecXs(zu.data(), n), N::MapConstVecXs(la.data(), m));
            V b1(n), b2(n), b3(m);
            N::MapVecXs m1(b1.data(), n), m2(b2.data(), n), m3(b3.data(), m);
            p->getBoundMultipliers(n, m1, m2);
            p->getLambdaVars(m, m3);
            out.matr(b1);
            out.matr(b2);
            out.matr(b3);
        }
        else if (o == "snopt")
        {
            V x = vec(a, 0), xm = x.array() + 2, fm = V::LinSpaced(p->getConstraintsCount() + 1, 0, p->getConstraintsCount());
            size_t n = x.size(), m = fm.size();
            Eigen::VectorXi xs = Eigen::VectorXi::Constant(n, 3), fs = Eigen::VectorXi::Constant(m, 4);
            N::MapVecXs mx(x.data(), n), mm(xm.data(), n), mf(fm.data(), m);
            N::MapVecXi ms(xs.data(), n), mg(fs.data(), m);
            p->extractSnoptSolution(mx, mm, ms, mf, mg);
            V b1(n), b2(m);
            Eigen::VectorXi i1(n), i2(m);
            N::MapVecXs m1(b1.data(), n), m2(b2.data(), m);
            N::MapVecXi m3(i1.data(), n), m4(i2.data(), m);
            p->getOptimizationMultState(n, m1, m3);
            p->getConstraintsMultState(m, m2, m4);
            out.matr(b1);
            out.matr(b2);
            out.matr(i1);
            out.matr(i2);
        }
        else if (o == "x0") { X3 x; x << a[0], a[1], a[2]; p->changeInitialState(x); }
        else if (o == "T") p->changeTimeHorizon(a[0] * (double)(p->getVarCount() / 5 - 1) / 2.0);
        else if (o == "guess")
        {
            StateVectorArray<3> x(a[0]);
            ControlVectorArray<2> u(a[1]);
            for (size_t i = 0; i < x.size(); i++) x[i] << a[2 + 5 * i], a[3 + 5 * i], a[4 + 5 * i];
            for (size_t i = 0; i < u.size(); i++) u[i] << a[5 + 5 * i], a[6 + 5 * i];
            p->setInitialGuess(x, u);
        }
        else if (o == "init")
        {
            V w(p->getVarCount());
            N::MapVecXs m(w.data(), w.size());
            p->getInitialGuess(w.size(), m);
            out.matr(w);
        }
        else if (o == "spl")
        {
            auto g = std::make_shared<ct::optcon::tpl::TimeGrid<double>>(a[1], a[1] * a[2] / 2.0);
            std::shared_ptr<SplinerBase<U2>> s;
            if (a[0]) s.reset(new LinearSpliner<U2>(g)); else s.reset(new ZeroOrderHoldSpliner<U2>(g));
            std::vector<U2, Eigen::aligned_allocator<U2>> n(a[1] + 1);
            for (size_t i = 0; i < n.size(); i++) n[i] << a[6 + 2 * i], a[7 + 2 * i];
            s->computeSpline(n);
            double t = g->getShotStartTime(a[3]) + g->getShotDuration(a[3]) * a[4] / a[5];
            out.matr(s->evalSpline(t, a[3]));
            out.matr(s->splineDerivative_t(t, a[3]));
            out.matr(s->splineDerivative_h_i(t, a[3]));
            out.matr(s->splineDerivative_q_i(t, a[3]));
            out.matr(s->splineDerivative_q_iplus1(t, a[3]));
        }
        else if (o == "grid")
        {
            ct::optcon::tpl::TimeGrid<double> g(a[0], a[1] / 2.0);
            size_t n = a[0];
            if (a[2] == 1) { g.changeShotCount(a[3]); n = a[3]; }
            if (a[2] == 2) g.changeTimeHorizon(a[3] / 2.0);
            if (a[2] == 3) g.updateTimeGrid(vec(a, 3) / 2.0);
            if (g.toImplementation().size() != n + 1) { out.i(-1); return; }
            for (double t : g.toImplementation()) out.res(t);
            for (size_t i = 0; i < n; i++) out.res(g.getShotStartTime(i));
            for (size_t i = 0; i < n; i++) out.res(g.getShotEndTime(i));
            for (size_t i = 0; i < n; i++) out.res(g.getShotDuration(i));
            out.res(g.getTimeHorizon());
            out.res(g.getOptimizedTimeHorizon());
        }
        else if (o == "og")
        {
            DmsSettings s;
            s.N_ = a[0];
            OptVectorDms<3, 2> v(5 * (a[0] + 1), s);
            X3 x0, xf;
            U2 u;
            x0 << a[1], a[2], a[3]; xf << a[4], a[5], a[6]; u << a[7], a[8];
            v.setInitGuess(x0, xf, u);
            V w(v.size());
            N::MapVecXs m(w.data(), w.size());
            v.getInitialGuess(w.size(), m);
            out.matr(w);
        }
        else throw vp::bad(o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, [] { return new S; }); }
