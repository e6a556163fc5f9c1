// Conformance harness for spec/Filter.tla: estimators, their models, and the disturbed systems.
#include <unistd.h>
#include <ct/optcon/optcon.h>
#include "common.h"
using namespace ct::core;
using namespace ct::optcon;
using vp::Args;
using vp::Rec;

template <typename Mt>
Mt mx(const Args& a, size_t o, long d)
{
    Mt r;
    for (int i = 0; i < r.rows(); i++)
        for (int j = 0; j < r.cols(); j++) r(i, j) = (double)a.at(o + i * r.cols() + j) / (double)d;
    return r;
}
// A x + b u + k t g + q x1 xn + t x1 p
template <size_t N>
struct Poly
{
    Eigen::Matrix<double, N, N> A, V;
    Eigen::Matrix<double, N, 1> b, g, q, p;
    double s;
    Poly(const Args& a)
    {
        typedef Eigen::Matrix<double, N, N> MN;
        typedef Eigen::Matrix<double, N, 1> VN;
        const size_t k = N * N;
        A = mx<MN>(a, 1, 1); b = mx<VN>(a, 1 + k, 1); g = mx<VN>(a, 1 + k + N, 1); q = mx<VN>(a, 1 + k + 2 * N, 1); p = mx<VN>(a, 1 + k + 3 * N, 1);
        V = mx<MN>(a, 1 + k + 4 * N, a.at(2 + 2 * k + 4 * N));
        s = a.at(1 + 2 * k + 4 * N);
    }
    Eigen::Matrix<double, N, 1> rate(const Eigen::Matrix<double, N, 1>& x, double u, double t, double dg) const
    {
        return A * x + b * u + dg * t * g + q * (x(0) * x(N - 1)) + t * x(0) * p;
    }
    Eigen::Matrix<double, N, N> rateX(const Eigen::Matrix<double, N, 1>& x, double t) const
    {
        Eigen::Matrix<double, N, N> F = A;
        F.col(0) += q * x(N - 1) + p * t;
        F.col(N - 1) += q * x(0);
        return F;
    }
};
template <size_t N>
struct UserModel : public SystemModelBase<N, 1>
{
    Poly<N> f;
    UserModel(const Poly<N>& f) : f(f) {}
    StateVector<N> computeDynamics(const StateVector<N>& x, const ControlVector<1>& u, const double dt, double t) override { return f.rate(x, u(0), t, dt); }
    StateMatrix<N> computeDerivativeState(const StateVector<N>& x, const ControlVector<1>&, const double, double t) override { return f.rateX(x, t); }
    StateMatrix<N> computeDerivativeNoise(const StateVector<N>& x, const ControlVector<1>&, const double, double) override
    {
        return f.V + f.s * x(0) * Eigen::Matrix<double, N, N>::Identity();
    }
};
template <size_t N>
struct CtSystem : public ControlledSystem<N, 1>
{
    Poly<N> f;
    CtSystem(const Poly<N>& f) : ControlledSystem<N, 1>(SYSTEM_TYPE::GENERAL), f(f) {}
    CtSystem* clone() const override { return new CtSystem(*this); }
    void computeControlledDynamics(const StateVector<N>& x, const double& t, const ControlVector<1>& u, StateVector<N>& d) override { d = f.rate(x, u(0), t, 1.0); }
};
template <size_t N>
struct CtLinear : public LinearSystem<N, 1>
{
    Poly<N> f;
    StateMatrix<N> A;
    StateControlMatrix<N, 1> B;
    CtLinear(const Poly<N>& f) : LinearSystem<N, 1>(SYSTEM_TYPE::GENERAL), f(f) {}
    CtLinear* clone() const override { return new CtLinear(*this); }
    const StateMatrix<N>& getDerivativeState(const StateVector<N>& x, const ControlVector<1>&, const double t = 0.0) override { A = f.rateX(x, t); return A; }
    const StateControlMatrix<N, 1>& getDerivativeControl(const StateVector<N>&, const ControlVector<1>&, const double t = 0.0) override { B = f.b; return B; }
};
template <size_t N, size_t M>
struct UserMeas : public LinearMeasurementModel<M, N>
{
    Eigen::Matrix<double, M, N> C;
    Eigen::Matrix<double, M, 1> e, r;
    Eigen::Matrix<double, M, M> W;
    double w;
    UserMeas(const Args& a)
    {
        const size_t k = M * N;
        C = mx<Eigen::Matrix<double, M, N>>(a, 1, 1);
        e = mx<Eigen::Matrix<double, M, 1>>(a, 1 + k, 1);
        r = mx<Eigen::Matrix<double, M, 1>>(a, 1 + k + M, 1);
        W = mx<Eigen::Matrix<double, M, M>>(a, 1 + k + 2 * M, a.at(2 + k + 2 * M + M * M));
        w = a.at(1 + k + 2 * M + M * M);
    }
    OutputVector<M> computeMeasurement(const StateVector<N>& x, const Time& t = 0) override { return C * x + t * e + r * (x(0) * x(1)); }
    OutputStateMatrix<M, N> computeDerivativeState(const StateVector<N>& x, const Time&) override
    {
        Eigen::Matrix<double, M, N> H = C;
        H.col(0) += r * x(1);
        H.col(1) += r * x(0);
        return H;
    }
    OutputMatrix<M> computeDerivativeNoise(const StateVector<N>& x, const Time&) override { return W + w * x(1) * Eigen::Matrix<double, M, M>::Identity(); }
};
struct Est
{
    virtual ~Est() {}
    virtual bool op(const std::string& n, const Args& a, Rec& o) = 0;
};
template <typename Mt>
void put(std::ofstream& f, const std::string& name, const Mt& m)
{
    f << name << "\n{\n scaling 1\n";
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++) f << " (" << i << "," << j << ") " << m(i, j) << "\n";
    f << "}\n";
}
template <size_t N, size_t M>
struct EstI : public Est
{
    typedef EstimatorBase<N, 1, M> B;
    std::shared_ptr<SystemModelBase<N, 1>> f;
    std::shared_ptr<LinearMeasurementModel<M, N>> h;
    std::shared_ptr<B> est;
    ExtendedKalmanFilter<N, 1, M>* ekf = nullptr;
    SteadyStateKalmanFilter<N, 1, M>* ss = nullptr;
    std::shared_ptr<SystemModelBase<N, 1>> sys(const Args& a)
    {
        Poly<N> p(a);
        if (a[0] == 0) return std::shared_ptr<SystemModelBase<N, 1>>(new UserModel<N>(p));
        return ctModel(p);
    }
    template <size_t K>
    static std::shared_ptr<SystemModelBase<K, 1>> ctModel(const Poly<K>& p) { throw vp::bad("CTSystemModel: two states only"); }
    static std::shared_ptr<SystemModelBase<2, 1>> ctModel(const Poly<2>& p)
    {
        std::shared_ptr<ControlledSystem<2, 1>> s(new CtSystem<2>(p));
        std::shared_ptr<LinearSystem<2, 1>> l(new CtLinear<2>(p));
        typedef CTSystemModel<2, 1>::SensitivityApprox_t SA;
        std::shared_ptr<SA> sa(new SA(0.125, l));
        return std::shared_ptr<SystemModelBase<2, 1>>(new CTSystemModel<2, 1>(s, sa, StateMatrix<2>(p.V)));
    }
    std::shared_ptr<LinearMeasurementModel<M, N>> meas(const Args& a)
    {
        std::shared_ptr<UserMeas<N, M>> u(new UserMeas<N, M>(a));
        if (a[0] == 0) return u;
        return std::shared_ptr<LinearMeasurementModel<M, N>>(new LTIMeasurementModel<M, N>(OutputStateMatrix<M, N>(u->C), OutputMatrix<M>(u->W)));
    }
    void show(const StateVector<N>& x, Rec& o)
    {
        o.matr(x);
        if (ekf) o.matr(ekf->getCovarianceMatrix());
    }
    // the numbers a script hands over are exact; those of the steady-state filter are not judged exactly
    bool op(const std::string& n, const Args& a, Rec& o) override
    {
        if (n == "sys") { f = sys(a); if (est) est->setSystemModel(f); }
        else if (n == "meas") { h = meas(a); if (est) est->setMeasurementModel(h); }
        else if (n == "new")
        {
            StateVector<N> x0 = mx<StateVector<N>>(a, 5, 1);
            StateMatrix<N> P0 = mx<StateMatrix<N>>(a, 5 + N, a.at(5 + N + N * N));
            ekf = nullptr;
            if (a[0] == 0)
            {
                StateMatrix<N> Q = 2.0 * P0;
                OutputMatrix<M> R = OutputMatrix<M>::Identity();
                ekf = new ExtendedKalmanFilter<N, 1, M>(f, h, Q, R, x0, P0);
                est.reset(ekf);
            }
            else if (a[3] % 8 != 0) est.reset(new UnscentedKalmanFilter<N, 1, M>(f, h, x0, a[1] / 4.0, a[2] / 4.0, a[3] / 4.0, P0));
            else
            {
                char name[] = "/tmp/vpukfXXXXXX";
                int fd = mkstemp(name);
                if (fd < 0) throw vp::bad("scratch file");
                close(fd);
                {
                    std::ofstream s(name);
                    s.precision(17);
                    s << "ukf\n{\n alpha " << a[1] / 4.0 << "\n beta " << a[2] / 4.0 << "\n kappa " << a[3] / 4.0 << "\n";
                    put(s, "x0", x0);
                    put(s, "P0", P0);
                    s << "}\n";
                }
                UnscentedKalmanFilterSettings<N> st;
                try { st.load(name, false, "ukf"); }
                catch (...) { unlink(name); throw; }
                unlink(name);
                est.reset(new UnscentedKalmanFilter<N, 1, M>(f, h, st));
            }
        }
        else if (n == "setQ") ekf->setQ(mx<StateMatrix<N>>(a, 0, a.at(N * N)));
        else if (n == "setR") ekf->setR(mx<OutputMatrix<M>>(a, 0, a.at(M * M)));
        else if (n == "setx") est->setEstimate(mx<StateVector<N>>(a, 0, a.at(N)));
        else if (n == "pred")
        {
            const double dt = (double)a[1] / (double)a[2];
            ControlVector<1> u;
            u << a[0];
            show(est->predict(u, dt, a[3] * dt), o);
        }
        else if (n == "upd") show(est->update(mx<OutputVector<M>>(a, 1, a.at(1 + M)), 0.25, a[0] / 2.0), o);
        else if (n == "get") show(est->getEstimate(), o);
        else if (n == "ssn")
        {
            const size_t o1 = 2 + N * N, o2 = o1 + N, o3 = o2 + M * N, o4 = o3 + M, o5 = o4 + N * N, o6 = o5 + M * M, o8 = o6 + N * N + N * M;
            Args s(1, 0), q(1, 0);
            s.resize(3 + 2 * N * N + 4 * N, 0);
            s.back() = 1;
            Poly<N> p(s);
            p.A = mx<StateMatrix<N>>(a, 2, 64);
            p.b = mx<StateVector<N>>(a, o1, 64);
            f.reset(new UserModel<N>(p));
            q.resize(3 + M * N + 2 * M + M * M, 0);
            q.back() = 1;
            UserMeas<N, M>* u = new UserMeas<N, M>(q);
            u->C = mx<Eigen::Matrix<double, M, N>>(a, o2, 64);
            u->e = mx<Eigen::Matrix<double, M, 1>>(a, o3, 64);
            h.reset(u);
            ss = new SteadyStateKalmanFilter<N, 1, M>(f, h, mx<StateMatrix<N>>(a, o4, 64), mx<OutputMatrix<M>>(a, o5, 64), mx<StateVector<N>>(a, o8, 64));
            est.reset(ss);
        }
        else if (n == "ssp")
        {
            ControlVector<1> u;
            u << a[0];
            o.matn(est->predict(u, 0.5, a[1]), 1024.0);
        }
        else if (n == "ssu") o.matn(est->update(mx<OutputVector<M>>(a, 1, 1), 0.5, a[0]), 1024.0);
        else if (n == "ssg") o.matn(est->getEstimate(), 1024.0);
        else if (n == "ssi") ss->setMaxDAREIterations(a[0]);
        else if (n == "sss") est->setEstimate(mx<StateVector<N>>(a, 0, 1));
        else return false;
        return true;
    }
};
// disturbed systems
struct Nominal : public ControlledSystem<2, 1>
{
    Args p;
    Nominal(const Args& p, std::shared_ptr<Controller<2, 1>> c) : ControlledSystem<2, 1>(c, SYSTEM_TYPE::GENERAL), p(p) {}
    Nominal* clone() const override { return new Nominal(*this); }
    void computeControlledDynamics(const StateVector<2>& x, const double& t, const ControlVector<1>& u, StateVector<2>& d) override
    {
        d(0) = p[0] * x(0) + p[1] * x(1) + p[4] * u(0) + p[6] * t;
        d(1) = p[2] * x(0) + p[3] * x(1) + p[5] * u(0) - p[6] * t;
    }
};
struct Feedback : public Controller<2, 1>
{
    double v, k1, k2;
    Feedback(double v, double k1, double k2) : v(v), k1(k1), k2(k2) {}
    Feedback* clone() const override { return new Feedback(*this); }
    void computeControl(const StateVector<2>& x, const double& t, ControlVector<1>& u) override { u(0) = k1 * x(0) + k2 * x(1) + v * t; }
};
inline std::shared_ptr<Controller<2, 1>> ctl(const long* c)
{
    if (c[0] == 0) return nullptr;
    if (c[0] == 2) return std::shared_ptr<Controller<2, 1>>(new Feedback(c[1], c[2], c[3]));
    ControlVector<1> u;
    u << c[1];
    return std::shared_ptr<Controller<2, 1>>(new ConstantController<2, 1>(u));
}
struct S : public vp::Session
{
    std::unique_ptr<Est> e;
    std::shared_ptr<Nominal> nom;
    std::unique_ptr<InputDisturbedSystem<2, 1>> d[2];
    void dims(long n, long m)
    {
        if (n == 2 && m == 1) e.reset(new EstI<2, 1>);
        else if (n == 2) e.reset(new EstI<2, 2>);
        else if (m == 1) e.reset(new EstI<3, 1>);
        else e.reset(new EstI<3, 2>);
    }
    void op(const std::string& n, const Args& a, Rec& o) override
    {
        if (n == "dim") { dims(a[0], a[1]); return; }
        if (n == "ssn") dims(a[0], a[1]);
        if (e && e->op(n, a, o)) return;
        if (n == "dsn")
        {
            nom.reset(new Nominal(Args(a.begin(), a.begin() + 7), ctl(&a[7])));
            d[1].reset();
            d[0].reset(new InputDisturbedSystem<2, 1>(nom));
        }
        else if (n == "dsc") d[1].reset(d[0]->clone());
        else if (n == "dss") d[a[0] - 1]->setController(ctl(&a[1]));
        else if (n == "dsm") nom->p = a;
        else if (n == "dsf" || n == "dsd")
        {
            StateVector<3> x, r;
            x << a[1], a[2], a[3];
            r.setConstant(77);
            if (n == "dsf") d[a[0] - 1]->computeDynamics(x, (double)a[4], r);
            else
            {
                ControlVector<1> u;
                u << a[5];
                d[a[0] - 1]->computeControlledDynamics(x, (double)a[4], u, r);
            }
            o.mat(r);
        }
        else throw vp::bad("op");
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, [] { return new S; }); }
