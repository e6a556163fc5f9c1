// Conformance harness for spec/Constr.tla: constraint terms, analytical and switched constraint containers.
#include <ct/optcon/optcon.h>
#include "common.h"
using namespace ct::core;
using namespace ct::optcon;
typedef LinearConstraintContainer<3, 2> Box;
typedef ConstraintContainerAnalytical<3, 2> Plain;
typedef Eigen::VectorXd V;

struct User : public ConstraintBase<3, 2>
{
    typedef ConstraintBase<3, 2> Base;
    double k;
    User(double k_) : k(k_)
    {
        this->lb_.resize(2); this->ub_.resize(2);
        this->lb_ << -3, -5; this->ub_ << 4, 6;
    }
    User* clone() const override { return new User(*this); }
    size_t getConstraintSize() const override { return 2; }
    V evaluate(const StateVector<3>& x, const ControlVector<2>& u, const double t) override
    {
        V g(2);
        g << k * x(0) * u(0) + t * x(1), x(1) * x(2) - u(1) * u(1) + k;
        return g;
    }
    Eigen::MatrixXd jacobianState(const StateVector<3>& x, const ControlVector<2>& u, const double t) override
    {
        Eigen::MatrixXd j(2, 3);
        j << k * u(0), t, 0, 0, x(2), x(1);
        return j;
    }
    Eigen::MatrixXd jacobianInput(const StateVector<3>& x, const ControlVector<2>& u, const double t) override
    {
        Eigen::MatrixXd j(2, 2);
        j << k * x(0), 0, 0, -2 * u(1);
        return j;
    }
};

struct S : public vp::Session
{
    std::shared_ptr<Box> c[5];
    std::vector<std::shared_ptr<ConstraintBase<3, 2>>> h[5][2];   // handles of the terms the user added
    static StateVector<3> X(const vp::Args& a, size_t o) { StateVector<3> x; x << a[o], a[o + 1], a[o + 2]; return x; }
    static ControlVector<2> U(const vp::Args& a, size_t o) { ControlVector<2> u; u << a[o], a[o + 1]; return u; }
    template <int N, typename T>
    static std::shared_ptr<ConstraintBase<3, 2>> box(const vp::Args& a, size_t o, bool bad)
    {
        Eigen::VectorXi m(N);
        Eigen::Matrix<double, N, 1> l, u;
        V ls, us;
        for (int i = 0; i < N; i++)
        {
            m(i) = a[o + 1 + i]; l(i) = a[o + 1 + N + i]; u(i) = a[o + 1 + 2 * N + i];
            if (m(i)) { ls.conservativeResize(ls.size() + 1); us.conservativeResize(us.size() + 1); ls(ls.size() - 1) = l(i); us(us.size() - 1) = u(i); }
        }
        if (bad) { us.conservativeResize(us.size() + 1); us(us.size() - 1) = 100; }
        if (a[o] == 0 && !bad) return std::make_shared<T>(l, u);
        return std::make_shared<T>(ls, us, m);
    }
    std::shared_ptr<ConstraintBase<3, 2>> term(const vp::Args& a, bool bad)
    {
        switch (a[3])
        {
            case 1: return box<3, StateConstraint<3, 2>>(a, 4, bad);
            case 2: return box<2, ControlInputConstraint<3, 2>>(a, 4, bad);
            case 3: return std::make_shared<TerminalConstraint<3, 2>>(X(a, 4));
            case 4:
            {
                Eigen::Matrix3d A = Eigen::Matrix3d::Zero(), Sm = Eigen::Matrix3d::Zero();
                A(0, 0) = a[7]; A(1, 1) = a[8]; A(2, 2) = a[9]; A(0, 1) = a[10];
                for (int i = 0; i < 3; i++) Sm((i + a[11]) % 3, i) = 1;   // (S'v)_i = v_{i + perm}
                auto e = std::make_shared<Ellipsoid>(Eigen::Vector3d(a[4], a[5], a[6]), A, Sm);
                return std::make_shared<ObstacleConstraint<3, 2>>(e,
                    [](const StateVector<3>& x, Eigen::Vector3d& p) { p << x(0), x(0) * x(1), x(2); },
                    [](const StateVector<3>& x, Eigen::Matrix3d& j) { j << 1, 0, 0, x(1), x(0), 0, 0, 0, 1; });
            }
            case 5: return std::make_shared<User>(a[4]);
        }
        throw vp::bad("term");
    }
    static void triplets(vp::Rec& out, size_t nz, const V& v, const Eigen::VectorXi& r, const Eigen::VectorXi& q, size_t rows, int cols)
    {
        Eigen::MatrixXd m = Eigen::MatrixXd::Zero(rows, cols);
        if ((size_t)v.size() != nz || (size_t)r.size() != nz || (size_t)q.size() != nz) { out.i(-1); out.i(v.size()); out.i(r.size()); out.i(q.size()); return; }
        for (size_t i = 0; i < nz; i++)
        {
            if (r(i) < 0 || r(i) >= (int)rows || q(i) < 0 || q(i) >= cols) { out.i(-2); return; }
            m(r(i), q(i)) += v(i);
        }
        out.i(nz);
        out.mat(m);
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "new")
        {
            h[a[0]][0].clear(); h[a[0]][1].clear();
            if (a[1] == 1) c[a[0]].reset(new Plain(X(a, 2), U(a, 5), a[7]));
            else c[a[0]].reset(new Plain());
        }
        else if (o == "add")
        {
            auto t = term(a, a[2] == 1);
            auto p = std::dynamic_pointer_cast<Plain>(c[a[0]]);
            if (!p) throw vp::bad("add to a switched container");
            if (a[1] == 0) p->addIntermediateConstraint(t, false); else p->addTerminalConstraint(t, true);
            h[a[0]][a[1]].push_back(t);
        }
        else if (o == "mut")
        {
            auto& l = h[a[0]][a[1]];
            if ((size_t)a[2] <= l.size())
                if (auto u = std::dynamic_pointer_cast<User>(l[a[2] - 1])) u->k = a[3];
        }
        else if (o == "init") c[a[0]]->initialize();
        else if (o == "set") c[a[0]]->setCurrentStateAndControl(X(a, 1), U(a, 4), a[6]);
        else if (o == "clone")
        {
            c[a[1]].reset(c[a[0]]->clone());
            // terms added to the clone later on come behind the ones it was cloned with, of which nobody has a handle
            for (int k = 0; k < 2; k++) h[a[1]][k] = std::vector<std::shared_ptr<ConstraintBase<3, 2>>>(h[a[0]][k].size());
        }
        else if (o == "switch")
        {
            std::vector<std::shared_ptr<Box>> subs;
            for (int i = 1; i <= 3; i++) subs.push_back(std::shared_ptr<Box>(c[i]->clone()));
            ContinuousModeSequence ms(a[1]);
            for (size_t i = 2; i + 1 < a.size(); i += 2) ms.addPhase(a[i] - 1, (double)a[i + 1]);
            SwitchedLinearConstraintContainer<3, 2>::SwitchedLinearConstraintContainers v;
            for (auto& s : subs) v.push_back(s);
            c[a[0]].reset(new SwitchedLinearConstraintContainer<3, 2>(v, ms));
        }
        else if (o == "cnt")
        {
            out.i(c[a[0]]->getConstraintsCount());
            out.i(c[a[0]]->getJacNonZeroCount());
            out.i(c[a[0]]->isInitialized());
        }
        else if (o == "q")
        {
            Box& b = *c[a[0]];
            const bool T = a[1] == 1;
            Eigen::VectorXi r, q;
            switch (a[2])
            {
                case 0:
                    out.i(T ? b.getTerminalConstraintsCount() : b.getIntermediateConstraintsCount());
                    out.i(T ? b.getJacobianStateNonZeroCountTerminal() : b.getJacobianStateNonZeroCountIntermediate());
                    out.i(T ? b.getJacobianInputNonZeroCountTerminal() : b.getJacobianInputNonZeroCountIntermediate());
                    break;
                case 1: out.mat(T ? b.evaluateTerminal() : b.evaluateIntermediate()); break;
                case 2:
                    // bounds have no meaning before the container is initialised: same refusal as for the values
                    if (T) b.evaluateTerminal(); else b.evaluateIntermediate();
                    out.mat(T ? b.getLowerBoundsTerminal() : b.getLowerBoundsIntermediate());
                    out.mat(T ? b.getUpperBoundsTerminal() : b.getUpperBoundsIntermediate());
                    break;
                case 3: out.mat(T ? b.getLowerBoundsViolationTerminal() : b.getLowerBoundsViolationIntermediate()); break;
                case 4: out.mat(T ? b.getUpperBoundsViolationTerminal() : b.getUpperBoundsViolationIntermediate()); break;
                case 5: out.mat(T ? b.getTotalBoundsViolationTerminal() : b.getTotalBoundsViolationIntermediate()); break;
                case 6: out.mat(T ? b.jacobianStateTerminal() : b.jacobianStateIntermediate()); break;
                case 7: out.mat(T ? b.jacobianInputTerminal() : b.jacobianInputIntermediate()); break;
                case 8:
                {
                    V v = T ? b.jacobianStateSparseTerminal() : b.jacobianStateSparseIntermediate();
                    if (T) b.sparsityPatternStateTerminal(r, q); else b.sparsityPatternStateIntermediate(r, q);
                    triplets(out, T ? b.getJacobianStateNonZeroCountTerminal() : b.getJacobianStateNonZeroCountIntermediate(), v, r, q,
                        T ? b.getTerminalConstraintsCount() : b.getIntermediateConstraintsCount(), 3);
                    break;
                }
                case 9:
                {
                    V v = T ? b.jacobianInputSparseTerminal() : b.jacobianInputSparseIntermediate();
                    if (T) b.sparsityPatternInputTerminal(r, q); else b.sparsityPatternInputIntermediate(r, q);
                    triplets(out, T ? b.getJacobianInputNonZeroCountTerminal() : b.getJacobianInputNonZeroCountIntermediate(), v, r, q,
                        T ? b.getTerminalConstraintsCount() : b.getIntermediateConstraintsCount(), 2);
                    break;
                }
            }
        }
        else throw vp::bad("unknown operation");
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, [] { return new S; }); }
