// Conformance harness for spec/Deriv.tla: numerical and automatic derivatives, automatic linearisers, solvers without pivoting.
#include <cppad/cppad.hpp>
namespace CppAD { namespace cg { template <typename T> class CG; } }   // named, never used, by the lineariser's assertion
#include <ct/core/core.h>
#define CPPADCG
#include <ct/core/systems/linearizer/DynamicsLinearizerAD.h>
#include <ct/core/systems/continuous_time/linear/AutoDiffLinearizer.h>
#include <ct/core/systems/discrete_time/linear/DiscreteSystemLinearizerAD.h>
#undef CPPADCG
#include "common.h"
using namespace ct::core;
using vp::Args;
using vp::Rec;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
typedef std::vector<double> Co;
// 12 coefficients per output, inputs beyond n are zero
template <typename T>
T poly(const Co& c, int k, const T* x)
{
    const T a = x[0], b = x[1], d = x[2];
    const double* p = c.data() + 12 * k;
    return T(p[0]) + p[1] * a + p[2] * b + p[3] * d + p[4] * a * a + p[5] * a * b + p[6] * a * d + p[7] * b * b + p[8] * b * d + p[9] * d * d + p[10] * a * b * d + p[11] * a * a * b;
}
struct Any
{
    virtual ~Any() {}
    virtual Any* clone() const = 0;
    virtual void update(const Co& c, int n, int m) { throw vp::bad("update"); }
    virtual V zero(const V&) { throw std::runtime_error("none"); }
    virtual M jac(const V&) = 0;
    virtual void sj(const V&, V&, Eigen::VectorXi&, Eigen::VectorXi&) { throw std::runtime_error("none"); }
    virtual V sjv(const V&) { throw std::runtime_error("none"); }
    virtual M hes(const V&, const V&) { throw std::runtime_error("none"); }
    virtual void sh(const V&, const V&, V&, Eigen::VectorXi&, Eigen::VectorXi&) { throw std::runtime_error("none"); }
    virtual V shv(const V&, const V&) { throw std::runtime_error("none"); }
};
template <typename B, int I, int O>
struct Der : public Any
{
    std::shared_ptr<Derivatives<I, O, double>> d;
    V zero(const V& x) override { return d->forwardZero(x); }
    M jac(const V& x) override { return d->jacobian(x); }
    void sj(const V& x, V& j, Eigen::VectorXi& r, Eigen::VectorXi& c) override { d->sparseJacobian(x, j, r, c); }
    V sjv(const V& x) override { return d->sparseJacobianValues(x); }
    M hes(const V& x, const V& l) override { return d->hessian(x, l); }
    void sh(const V& x, const V& l, V& j, Eigen::VectorXi& r, Eigen::VectorXi& c) override { d->sparseHessian(x, l, j, r, c); }
    V shv(const V& x, const V& l) override { return d->sparseHessianValues(x, l); }
    Any* clone() const override { auto k = new B; k->d.reset(d->clone()); return k; }
};
template <typename T, int I, int O>
std::function<Eigen::Matrix<T, O, 1>(const Eigen::Matrix<T, I, 1>&)> fun(const Co& c, int n, int m)
{
    return [c, n, m](const Eigen::Matrix<T, I, 1>& x) {
        T z[3] = {T(0.0), T(0.0), T(0.0)};
        if (x.rows() != n) throw std::runtime_error("wrong input dimension");
        for (int i = 0; i < n; i++) z[i] = x(i);
        Eigen::Matrix<T, O, 1> y(m);
        for (int k = 0; k < m; k++) y(k) = poly<T>(c, k, z);
        return y;
    };
}
template <int I, int O>
struct Num : public Der<Num<I, O>, I, O>
{
    Num() {}
    Num(const Co& c, int n, int m, bool two) { auto f = fun<double, I, O>(c, n, m); if (two) this->d.reset(new DerivativesNumDiff<I, O>(f, true)); else this->d.reset(new DerivativesNumDiff<I, O>(f)); }
};
template <int I, int O>
struct Ad : public Der<Ad<I, O>, I, O>
{
    typedef DerivativesCppad<I, O> D;
    Ad() {}
    Ad(const Co& c, int n, int m) { typename D::FUN_TYPE_AD f = fun<ADScalar, I, O>(c, n, m); if (I > 0) this->d.reset(new D(f)); else this->d.reset(new D(f, n, m)); }
    void update(const Co& c, int n, int m) override { typename D::FUN_TYPE_AD f = fun<ADScalar, I, O>(c, n, m); D& k = static_cast<D&>(*this->d); if (I > 0) k.update(f); else k.update(f, n, m); }
};
typedef CppAD::AD<double> A;
struct Sys : public ControlledSystem<2, 1, A>
{
    Co c;
    Sys(const Co& c_) : c(c_) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const StateVector<2, A>& x, const A& t, const ControlVector<1, A>& u, StateVector<2, A>& d) override { A z[3] = {x(0), x(1), u(0)}; for (int k = 0; k < 2; k++) d(k) = poly<A>(c, k, z); }
};
struct DSys : public DiscreteControlledSystem<2, 1, A>
{
    Co c;
    DSys(const Co& c_) : c(c_) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const StateVector<2, A>& x, const int n, const ControlVector<1, A>& u, StateVector<2, A>& d) override { A z[3] = {x(0), x(1), u(0)}; for (int k = 0; k < 2; k++) d(k) = poly<A>(c, k, z); }
};
static StateVector<2> xs(const V& z) { StateVector<2> x; x << z(0), z(1); return x; }
static ControlVector<1> us(const V& z) { ControlVector<1> u; u << z(2); return u; }
struct Lin : public Any
{
    std::shared_ptr<LinearSystem<2, 1>> l;
    long n = 0;
    Any* clone() const override { auto k = new Lin; k->l.reset(l->clone()); return k; }
    M jac(const V& z) override
    {
        M J(2, 3);
        StateMatrix<2> A1;
        StateControlMatrix<2, 1> B1;
        // both orders of asking, and both ways
        if (n % 3 == 0) l->getDerivatives(A1, B1, xs(z), us(z), 0.25);
        if (n++ % 2) { J.rightCols<1>() = l->getDerivativeControl(xs(z), us(z), 0.5); J.leftCols<2>() = l->getDerivativeState(xs(z), us(z), 0.5); }
        else { J.leftCols<2>() = l->getDerivativeState(xs(z), us(z), 0.5); J.rightCols<1>() = l->getDerivativeControl(xs(z), us(z), 0.5); }
        if (n % 3 != 1) l->getDerivatives(A1, B1, xs(z), us(z), 0.25);
        if (A1 != J.leftCols<2>() || B1 != J.rightCols<1>()) J.setConstant(std::nan(""));
        return J;
    }
};
struct DLin : public Any
{
    typedef DiscreteSystemLinearizerAD<2, 1> L;
    std::shared_ptr<L> l;
    int n = 0;
    Any* clone() const override { auto k = new DLin; k->l.reset(l->clone()); return k; }
    M jac(const V& z) override
    {
        M J(2, 3);
        StateMatrix<2> A1;
        StateControlMatrix<2, 1> B1;
        StateVector<2> nx;
        nx << 5, 6;
        if (n++ % 2 == 0) l->getAandB(xs(z), us(z), nx, 2, 1, A1, B1);       // whatever was asked for before
        J.leftCols<2>() = l->getDerivativeState(xs(z), us(z), 3);
        J.rightCols<1>() = l->getDerivativeControl(xs(z), us(z), 3);
        if (n % 2 == 0) l->getAandB(xs(z), us(z), nx, 2, 1, A1, B1);
        if (A1 != J.leftCols<2>() || B1 != J.rightCols<1>()) J.setConstant(std::nan(""));
        return J;
    }
};
struct S : public vp::Session
{
    std::shared_ptr<Any> o_[4];
    long N[4] = {0, 0, 0, 0};
    static Co co(const Args& a, size_t o) { Co c; for (size_t k = 0; k < 24; k++) c.push_back(a.at(o + k)); return c; }
    static Any* make(long kind, int n, int m, const Co& c)
    {
        const bool std_ = n == 3 && m == 2;
        switch (kind)
        {
            case 0: return std_ ? (Any*)new Num<3, 2>(c, n, m, false) : new Num<2, 1>(c, n, m, false);
            case 1: return std_ ? (Any*)new Num<3, 2>(c, n, m, true) : new Num<2, 1>(c, n, m, true);
            case 2: return new Num<-1, -1>(c, n, m, false);
            case 3: return new Num<-1, -1>(c, n, m, true);
            case 4: return std_ ? (Any*)new Ad<3, 2>(c, n, m) : new Ad<2, 1>(c, n, m);
            case 5: return new Ad<-1, -1>(c, n, m);
            case 6: { auto l = new Lin; l->l.reset(new AutoDiffLinearizer<2, 1>(std::shared_ptr<ControlledSystem<2, 1, A>>(new Sys(c)))); return l; }
            case 7: { auto l = new DLin; l->l.reset(new DLin::L(std::shared_ptr<DiscreteControlledSystem<2, 1, A>>(new DSys(c)))); return l; }
        }
        throw vp::bad("kind");
    }
    V vec(const Args& a, size_t o, long n) { V x(n); for (long i = 0; i < n; i++) x(i) = a.at(o + i); return x; }
    // the matrix which the triplets describe
    static void triplets(const V& v, const Eigen::VectorXi& r, const Eigen::VectorXi& c, int m, int n, Rec& out)
    {
        if (v.size() != r.size() || v.size() != c.size()) { out.i(-1); out.i(v.size()); return; }
        M J = M::Zero(m, n);
        for (int k = 0; k < v.size(); k++)
        {
            if (r(k) < 0 || r(k) >= m || c(k) < 0 || c(k) >= n) { out.i(-2); return; }
            J(r(k), c(k)) += v(k);
        }
        out.matn(J, 1000);
    }
    long Mo[4] = {0, 0, 0, 0};
    void op(const std::string& o, const Args& a, Rec& out) override
    {
        if (o == "lu" || o == "ldl")
        {
            const int n = a[0], m = a[1];
            M K(n, n), X(n, m);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) K(i, j) = a.at(2 + i * n + j);
            for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) X(i, j) = a.at(2 + n * n + i * m + j);
            const M B = K * X;
            out.matn(o == "lu" ? LUsolve<double>(K, B) : LDLTsolve<double>(K, B), 1000);
            return;
        }
        const long i = a[0];
        if (o == "new") { o_[i].reset(make(a[1], a[2], a[3], co(a, 4))); N[i] = a[2]; Mo[i] = a[3]; return; }
        Any& d = *o_[i];
        const long n = N[i], m = Mo[i];
        if (o == "upd") { d.update(co(a, 3), a[1], a[2]); N[i] = a[1]; Mo[i] = a[2]; }
        else if (o == "cl") { o_[a[1]].reset(d.clone()); N[a[1]] = n; Mo[a[1]] = m; }
        else if (o == "f0") out.mat(d.zero(vec(a, 1, n)));
        else if (o == "jac") out.matn(d.jac(vec(a, 1, n)), 1000);
        else if (o == "sj")
        {
            V v; Eigen::VectorXi r, c;
            d.sj(vec(a, 1, n), v, r, c);
            const V w = d.sjv(vec(a, 1, n));
            if (w.size() != v.size() || w != v) { out.i(-3); return; }
            triplets(v, r, c, m, n, out);
        }
        else if (o == "hes") out.matn(d.hes(vec(a, 1, n), vec(a, 1 + n, m)), 1000);
        else if (o == "sh")
        {
            V v; Eigen::VectorXi r, c;
            d.sh(vec(a, 1, n), vec(a, 1 + n, m), v, r, c);
            const V w = d.shv(vec(a, 1, n), vec(a, 1 + n, m));
            if (w.size() != v.size() || w != v) { out.i(-3); return; }
            triplets(v, r, c, n, n, out);
        }
        else throw vp::bad(o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, [] { return new S; }); }
