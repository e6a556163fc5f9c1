// Conformance harness for spec/Cost.tla: cost functions, their terms, and activations.
#include <ct/optcon/optcon.h>
#include <unistd.h>
#include "common.h"
using namespace ct::core;
using namespace ct::optcon;
typedef CostFunctionQuadratic<3, 2> Base;
typedef TermBase<3, 2> Term;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix2d M2;
typedef Eigen::Matrix<double, 2, 3> M23;
static StateVector<3> X(const vp::Args& a, size_t o) { StateVector<3> x; x << a[o], a[o + 1], a[o + 2]; return x; }
static ControlVector<2> U(const vp::Args& a, size_t o) { ControlVector<2> u; u << a[o], a[o + 1]; return u; }
static M3 Q3(const vp::Args& a, size_t o) { M3 m; for (int i = 0; i < 9; i++) m(i / 3, i % 3) = a[o + i]; return m; }
static M2 R2(const vp::Args& a, size_t o) { M2 m; for (int i = 0; i < 4; i++) m(i / 2, i % 2) = a[o + i]; return m; }
static M23 P23(const vp::Args& a, size_t o) { M23 m; for (int i = 0; i < 6; i++) m(i / 3, i % 3) = a[o + i]; return m; }

struct File
{
    std::string path;
    File(const std::string& text)
    {
        char t[] = "/tmp/vp_cost_XXXXXX";
        int fd = mkstemp(t);
        if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) throw vp::bad("scratch file");
        close(fd);
        path = t;
    }
    ~File() { unlink(path.c_str()); }
};
static std::string s(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
// activation a[o..o+n)
static std::shared_ptr<ct::core::tpl::ActivationBase<double>> activation(const vp::Args& a, size_t o)
{
    switch (a[o])
    {
        case 0: return std::make_shared<ct::core::tpl::ActivationBase<double>>();
        case 1: return std::make_shared<ct::core::tpl::SingleActivation<double>>(a[o + 1], a[o + 2]);
        case 2: return std::make_shared<ct::core::tpl::LinearActivation<double>>(a[o + 1], a[o + 2], a[o + 3], a[o + 4]);
        case 3: return std::make_shared<ct::core::tpl::PeriodicActivation<double>>(a[o + 1] / 4.0, a[o + 2], a[o + 3], a[o + 4]);
        case 4: return std::make_shared<ct::core::tpl::RBFGaussActivation<double>>(a[o + 1], a[o + 2]);
        case 5:
        {
            auto b = std::make_shared<BarrierActivation>(a[o + 3], a[o + 4], a[o + 5]);
            if (a[o + 1] == 1 && a[o + 2] == 0) b->setUpperBoundOnly(a[o + 3], a[o + 5]);
            if (a[o + 1] == 0 && a[o + 2] == 1) b->setLowerBoundOnly(a[o + 4], a[o + 5]);
            if (a[o + 1] == 0 && a[o + 2] == 0) b = std::make_shared<BarrierActivation>();
            return b;
        }
    }
    throw vp::bad("activation");
}
static std::string activationText(const vp::Args& a, size_t o)
{
    switch (a[o])
    {
        case 1: return " kind single\n t_on " + s(a[o + 1]) + "\n t_off " + s(a[o + 2]) + "\n";
        case 2: return " kind linear\n t_on " + s(a[o + 1]) + "\n t_off " + s(a[o + 2]) + "\n slope " + s(a[o + 3]) + "\n startVal " + s(a[o + 4]) + "\n";
        case 3:
            return " kind periodic\n active_percentage " + s(a[o + 1] / 4.0) + "\n period " + s(a[o + 2]) + "\n activation_offset " + s(a[o + 3]) +
                   "\n period_offset " + s(a[o + 4]) + "\n t_end " + s(a[o + 5] == -1 ? 1e9 : a[o + 5]) + "\n";
        case 4: return " kind rbf\n mu " + s(a[o + 1]) + "\n sigma " + s(a[o + 2]) + "\n";
        case 5:
        {
            std::string t = " kind barrier\n alpha " + s(a[o + 5]) + "\n";
            if (a[o + 1]) t += " upper_bound " + s(a[o + 3]) + "\n";
            if (a[o + 2]) t += " lower_bound " + s(a[o + 4]) + "\n";
            return t;
        }
    }
    throw vp::bad("activation");
}
template <typename M>
static std::string mat(const char* name, const M& m, double scaling)
{
    std::string t = std::string("  ") + name + "\n  {\n";
    if (scaling != 1) t += "   scaling " + s(scaling) + "\n";
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++)
            if (m(i, j) != 0) t += "   (" + std::to_string(i) + "," + std::to_string(j) + ") " + s(m(i, j) / scaling) + "\n";
    return t + "  }\n";
}

struct S : public vp::Session
{
    std::shared_ptr<Base> c[4];
    std::vector<std::shared_ptr<Term>> h[4][2];
    std::vector<vp::Args> pend[4];
    static InterpolationType kind(long k) { return k == 0 ? InterpolationType::ZOH : InterpolationType::LIN; }
    static void track(const vp::Args& a, size_t o, StateTrajectory<3>& x, ControlTrajectory<2>& u)
    {
        for (int k = 0; k < 3; k++) { x.push_back(X(a, o + 16 + 3 * k), 2.0 * k, true); u.push_back(U(a, o + 25 + 2 * k), 2.0 * k, true); }
    }
    static std::shared_ptr<Term> term(const vp::Args& a, size_t o)
    {
        ControlVector<2> u;
        // without references: the other constructors
        const size_t ref = a[o] == 3 ? o + 7 : o + 14;
        if (a[o] >= 2 && a[o] <= 4 && X(a, ref).isZero() && U(a, ref + 3).isZero())
        {
            if (a[o] == 3)
            {
                if (a[o + 1] % 2) return std::make_shared<TermMixed<3, 2>>(P23(a, o + 1));
                auto t = std::make_shared<TermMixed<3, 2>>();
                t->setWeights(P23(a, o + 1));
                return t;
            }
            if (a[o] == 2)
            {
                if (a[o + 1] % 2) return std::make_shared<TermQuadratic<3, 2>>(Q3(a, o + 1), R2(a, o + 10));
                auto t = std::make_shared<TermQuadratic<3, 2>>();
                t->setWeights(Q3(a, o + 1), R2(a, o + 10));
                return t;
            }
            if (a[o + 1] % 2) return std::make_shared<TermQuadMult<3, 2>>(Q3(a, o + 1), R2(a, o + 10));
            auto t = std::make_shared<TermQuadMult<3, 2>>();
            t->setWeights(Q3(a, o + 1), R2(a, o + 10));
            return t;
        }
        switch (a[o])
        {
            case 1:
                if (!a[o + 6]) return std::make_shared<TermLinear<3, 2>>(X(a, o + 1), U(a, o + 4));
                return std::make_shared<TermLinear<3, 2>>(X(a, o + 1), U(a, o + 4), a[o + 6]);
            case 2: return std::make_shared<TermQuadratic<3, 2>>(Q3(a, o + 1), R2(a, o + 10), X(a, o + 14), U(a, o + 17));
            case 3: u = U(a, o + 10); return std::make_shared<TermMixed<3, 2>>(P23(a, o + 1), X(a, o + 7), u);
            case 4: u = U(a, o + 17); return std::make_shared<TermQuadMult<3, 2>>(Q3(a, o + 1), R2(a, o + 10), X(a, o + 14), u);
            case 5:
            {
                auto t = std::make_shared<TermQuadTracking<3, 2>>(Q3(a, o + 1), R2(a, o + 10), kind(a[o + 15]), kind(a[o + 15]), a[o + 14] == 1);
                StateTrajectory<3> x(kind(a[o + 15]));
                ControlTrajectory<2> uu(kind(a[o + 15]));
                track(a, o, x, uu);
                t->setStateAndControlReference(x, uu);
                return t;
            }
            case 6: return std::make_shared<TermSmoothAbs<3, 2>>(125 * X(a, o + 1), X(a, o + 6), 125 * U(a, o + 4), U(a, o + 9), 4.0);
        }
        throw vp::bad("term");
    }
    static int kindOf(const std::shared_ptr<Term>& t)
    {
        if (std::dynamic_pointer_cast<TermLinear<3, 2>>(t)) return 1;
        if (std::dynamic_pointer_cast<TermQuadratic<3, 2>>(t)) return 2;
        if (std::dynamic_pointer_cast<TermMixed<3, 2>>(t)) return 3;
        if (std::dynamic_pointer_cast<TermQuadMult<3, 2>>(t)) return 4;
        if (std::dynamic_pointer_cast<TermQuadTracking<3, 2>>(t)) return 5;
        return 6;
    }
    // reconfigure a term through the user's pointer; linear and smooth-abs terms have no setters
    static void reconfigure(std::shared_ptr<Term> t, const vp::Args& a, size_t o)
    {
        ControlVector<2> u;
        if (auto q = std::dynamic_pointer_cast<TermQuadratic<3, 2>>(t)) { q->setWeights(Q3(a, o + 1), R2(a, o + 10)); q->setStateAndControlReference(X(a, o + 14), U(a, o + 17)); }
        else if (auto m = std::dynamic_pointer_cast<TermMixed<3, 2>>(t)) { m->setWeights(P23(a, o + 1)); m->setStateAndControlReference(X(a, o + 7), U(a, o + 10)); }
        else if (auto m = std::dynamic_pointer_cast<TermQuadMult<3, 2>>(t)) { u = U(a, o + 17); m->setWeights(Q3(a, o + 1), R2(a, o + 10)); m->setStateAndControlReference(X(a, o + 14), u); }
        else if (auto k = std::dynamic_pointer_cast<TermQuadTracking<3, 2>>(t))
        {
            StateTrajectory<3> x(kind(a[o + 15]));
            ControlTrajectory<2> uu(kind(a[o + 15]));
            track(a, o, x, uu);
            k->setWeights(Q3(a, o + 1), R2(a, o + 10));
            k->setStateAndControlReference(x, uu);
        }
        else throw vp::bad("term cannot be reconfigured");
    }
    static std::string text(const std::vector<vp::Args>& pend)
    {
        static const char* kinds[] = {"", "linear", "quadratic", "mixed", "quadratic-multiplicative", "", "smooth-abs"};
        std::string t;
        for (size_t k = 0; k < pend.size(); k++)
        {
            const vp::Args& a = pend[k];
            const size_t n = a[2], o = 3 + n;
            const double sc = k % 2 ? 2.0 : 1.0;
            t += "term" + std::to_string(k) + "\n{\n name \"t" + std::to_string(k + 1) + "\"\n kind \"" + kinds[a[o]] + "\"\n type " + std::to_string(a[1]) + "\n";
            if (a[3] != 0) t += " time_activation\n {\n" + activationText(a, 3) + " }\n";
            else if (k % 3 == 2) t += " time_activation\n {\n kind unheard-of\n }\n";
            t += " weights\n {\n";
            switch (a[o])
            {
                case 1: t += mat("a", X(a, o + 1), sc) + mat("b", U(a, o + 4), 1); break;
                case 2:
                case 4: t += mat("Q", Q3(a, o + 1), sc) + mat("R", R2(a, o + 10), 1) + mat("x_des", X(a, o + 14), 1) + mat("u_des", U(a, o + 17), sc); break;
                case 3: t += mat("P", P23(a, o + 1), sc) + mat("x_des", X(a, o + 7), 1) + mat("u_des", U(a, o + 10), 1); break;
                case 6:
                    t += mat("a", Eigen::Vector3d(125 * X(a, o + 1)), 1) + mat("b", Eigen::Vector2d(125 * U(a, o + 4)), sc) + mat("x_ref", X(a, o + 6), 1) +
                         mat("u_ref", U(a, o + 9), 1) + "  alpha 4\n";
                    break;
                default: throw vp::bad("not loadable");
            }
            t += " }\n}\n";
        }
        return t;
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "act")
        {
            std::shared_ptr<ct::core::tpl::ActivationBase<double>> p;
            vp::Args q(1, a[0]);
            q.insert(q.end(), a.begin() + 2, a.end() - 1);
            const double t = a.back();
            if (a[1] == 1)
            {
                File f("x\n{\n" + activationText(q, 0) + "}\n");
                switch (a[0])
                {
                    case 1: p = std::make_shared<ct::core::tpl::SingleActivation<double>>(); break;
                    case 2: p = std::make_shared<ct::core::tpl::LinearActivation<double>>(); break;
                    case 3: p = std::make_shared<ct::core::tpl::PeriodicActivation<double>>(); break;
                    case 4: p = std::make_shared<ct::core::tpl::RBFGaussActivation<double>>(); break;
                    case 5: p = std::make_shared<BarrierActivation>(); break;
                    default: throw vp::bad("activation");
                }
                p->loadConfigFile(f.path, "x");
            }
            else p = activation(q, 0);
            if (a[1] == 2)
            {
                if (auto z = std::dynamic_pointer_cast<ct::core::tpl::SingleActivation<double>>(p)) p = std::make_shared<ct::core::tpl::SingleActivation<double>>(*z);
                else if (auto z = std::dynamic_pointer_cast<ct::core::tpl::LinearActivation<double>>(p)) p = std::make_shared<ct::core::tpl::LinearActivation<double>>(*z);
                else if (auto z = std::dynamic_pointer_cast<ct::core::tpl::PeriodicActivation<double>>(p)) p = std::make_shared<ct::core::tpl::PeriodicActivation<double>>(*z);
                else if (auto z = std::dynamic_pointer_cast<ct::core::tpl::RBFGaussActivation<double>>(p)) p = std::make_shared<ct::core::tpl::RBFGaussActivation<double>>(*z);
                else if (auto z = std::dynamic_pointer_cast<BarrierActivation>(p)) p = std::make_shared<BarrierActivation>(*z);
            }
            out.i(p->isActive(t));
            out.num(p->computeActivation(t), a[0] == 5 ? 1e4 : 1e6);
            if (a[0] == 5) { out.num(p->firstOrderDerivative(t), 1e4); out.num(p->secondOrderDerivative(t), 1e4); }
            return;
        }
        const long i = a[0];
        if (o == "new")
        {
            h[i][0].clear(); h[i][1].clear(); pend[i].clear();
            if (a.size() == 1) c[i].reset(new CostFunctionAnalytical<3, 2>());
            else if (std::all_of(a.begin() + 1, a.end(), [](long v) { return v == 0; })) c[i].reset(new CostFunctionQuadraticSimple<3, 2>());
            else c[i].reset(new CostFunctionQuadraticSimple<3, 2>(Q3(a, 1), R2(a, 10), X(a, 14), U(a, 17), X(a, 19), Q3(a, 22)));
            return;
        }
        Base& b = *c[i];
        if (o == "add")
        {
            auto t = term(a, 3 + a[2]);
            if (a[3] != 0) t->setTimeActivation(activation(a, 3));
            size_t id = a[1] == 1 ? b.addFinalTerm(t) : b.addIntermediateTerm(t);
            if (id != h[i][a[1]].size()) out.i(id);
            h[i][a[1]].push_back(t);
        }
        else if (o == "upd")
        {
            auto& l = h[i][a[1]];
            const size_t oo = 4 + a[3];
            if ((size_t)a[2] > l.size() || !l[a[2] - 1] || kindOf(l[a[2] - 1]) != a[oo]) return;
            reconfigure(l[a[2] - 1], a, oo);
            l[a[2] - 1]->setTimeActivation(activation(a, 4));
        }
        else if (o == "pend") pend[i].push_back(a);
        else if (o == "load")
        {
            File f(text(pend[i]));
            b.loadFromConfigFile(f.path);
            size_t n[2] = {0, 0};
            for (auto& p : pend[i]) n[p[1]]++;
            for (int k = 0; k < 2; k++)
            {
                h[i][k].clear();
                for (size_t j = 0; j < n[k]; j++) h[i][k].push_back(k ? b.getFinalTermById(j) : b.getIntermediateTermById(j));
            }
            pend[i].clear();
        }
        else if (o == "set") b.setCurrentStateAndControl(X(a, 1), U(a, 4), a[6]);
        else if (o == "shift") b.shiftTime(a[1]);
        else if (o == "refx") b.updateReferenceState(X(a, 1));
        else if (o == "refu") b.updateReferenceControl(U(a, 1));
        else if (o == "reff") b.updateFinalState(X(a, 1));
        else if (o == "clone")
        {
            c[a[1]].reset(b.clone());
            for (int k = 0; k < 2; k++) h[a[1]][k] = std::vector<std::shared_ptr<Term>>(h[i][k].size());
            pend[a[1]].clear();
        }
        else if (o == "nd") out.i(a[1] == 2 ? b.stateDerivativeIntermediateTest() : b.controlDerivativeIntermediateTest());
        else if (o == "ref")
        {
            auto t = a[1] == 1 ? b.getFinalTermById(a[2] - 1) : b.getIntermediateTermById(a[2] - 1);
            out.mat(t->getReferenceState());
        }
        else if (o == "name")
        {
            std::string n = "t" + std::to_string(a[3]);
            auto t = a[1] == 1 ? b.getFinalTermByName(n) : b.getIntermediateTermByName(n);
            long at = 0;
            for (size_t k = 0; k < h[i][a[1]].size(); k++)
                if ((a[1] == 1 ? b.getFinalTermById(k) : b.getIntermediateTermById(k)) == t) { at = k + 1; break; }
            out.i(at);
        }
        else if (o == "q")
        {
            const double sc = 8.0;
            switch (a[1])
            {
                case 0: out.exact(b.evaluateIntermediate(), sc); break;
                case 1: out.exact(b.evaluateTerminal(), sc); break;
                case 2: out.mat(b.stateDerivativeIntermediate(), sc); break;
                case 3: out.mat(b.stateSecondDerivativeIntermediate(), sc); break;
                case 4: out.mat(b.controlDerivativeIntermediate(), sc); break;
                case 5: out.mat(b.controlSecondDerivativeIntermediate(), sc); break;
                case 6: out.mat(b.stateControlDerivativeIntermediate(), sc); break;
                case 7: out.mat(b.stateDerivativeTerminal(), sc); break;
                case 8: out.mat(b.stateSecondDerivativeTerminal(), sc); break;
                case 9: out.mat(b.controlDerivativeTerminal(), sc); break;
                case 10: out.mat(b.controlSecondDerivativeTerminal(), sc); break;
                case 11: out.mat(b.stateControlDerivativeTerminal(), sc); break;
                case 12:
                {
                    Eigen::Matrix<double, 3, 1> x;
                    Eigen::Matrix<double, 2, 1> u;
                    double t;
                    b.getCurrentStateAndControl(x, u, t);
                    out.mat(x); out.mat(u); out.exact(t);
                    break;
                }
                default: throw vp::bad("query");
            }
        }
        else throw vp::bad("unknown operation");
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, [] { return new S; }); }
