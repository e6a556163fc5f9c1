// Conformance harness for spec/Rbd.tla (one binary per robot, VP_BOT; the quadrotor is in quad.cpp)
#include <iostream>
#include <ct/iit/rbd/rbd.h>
#include "robots_gen.h"
#include "common.h"
using namespace R;
static long Dat(long seed, long j) { return ((seed * 37 + j * 29 + j * j * 5 + (seed * j * 11)) % 7) - 3; }
static long fl(long a, long b) { return (a >= 0) ? a / b : -((-a + b - 1) / b); }
static long md(long a, long b) { return ((a % b) + b) % b; }
static double Ang(long c)
{
    static const double B[3][2] = {{1, 0}, {0.8, 0.6}, {0.6, 0.8}};
    double x = B[c / 4][0], y = B[c / 4][1];
    for (long i = 0; i < c % 4; i++) { double t = x; x = -y; y = t; }
    return std::atan2(y, x);
}
typedef Eigen::Matrix<double, 6, 1> V6;
static const int N = jointsCount;
static const long DK = 6250000000L;     // kinematics: 1e7 * 5^4
static const long DD = 10000000000L;    // dynamics
struct Set
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    dyn::InertiaProperties ip;
    MotionTransforms mt, mt2, mt3;
    ForceTransforms ft, ft2;
    HomogeneousTransforms ht, ht2;
    Jacobians jac;
    dyn::InverseDynamics id, id2;    // id2 (own transforms) is the second opinion for the forward dynamics
    dyn::ForwardDynamics fd;
    dyn::JSIM jsim;
    Set() : id(ip, mt), id2(ip, mt2), fd(ip, mt), jsim(ip, ft) {}
};
template <class A, class F>
static void rows(vp::Rec& out, const A& m, F f)
{
    for (int a = 0; a < m.rows(); a++)
        for (int b = 0; b < m.cols(); b++) f(out, m(a, b));
}
static void rk(vp::Rec& o, double v) { o.resd(v, DK); }
static void rd(vp::Rec& o, double v) { o.resd(v, DD); }
static void r6(vp::Rec& o, double v) { o.num(v, 1e6); }
struct S : public vp::Session
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    std::unique_ptr<Set> p{new Set};
    JointState Q(const vp::Args& a, size_t o) { JointState q; for (int i = 0; i < N; i++) q(i) = Ang(a[o + i]); return q; }
    JointState I(const vp::Args& a, size_t o) { JointState q; for (int i = 0; i < N; i++) q(i) = a[o + i]; return q; }
    V6 Six(const vp::Args& a, size_t o) { V6 q; for (int i = 0; i < 6; i++) q(i) = a[o + i]; return q; }
    dyn::InverseDynamics::ExtForces Ext(long seed)
    {
        dyn::InverseDynamics::ExtForces e(V6::Zero());
        if (seed)
            for (int l = 0; l < linksCount; l++)
            {
                V6 f;
                for (int j = 0; j < 6; j++) f(j) = Dat(seed, 6 * l + 101 + j);
                e[orderedLinkIDs[l]] = f;
            }
        return e;
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        Set& s = *p;
        if (o == "bot")
        {
            p.reset(new Set);
            JointState z; z.setZero();
            p->id.setJointStatus(z);
        }
        else if (o == "par")
        {
#define F(i, n, L) { auto& T = s.ip.getTensor_##n(); auto c = s.ip.getCOM_##n(); Eigen::Vector3d c2 = T.getCOM(); out.num(s.ip.getMass_##n(), 1e7); for (int k = 0; k < 3; k++) out.num((c2 - c).norm() < 1e-9 ? c(k) : 99, 1e7); \
    for (int x = 0; x < 3; x++) for (int y = x; y < 3; y++) out.num(T(x, y), 1e7); }
            VP_L(F)
#undef F
            out.num(s.ip.getTotalMass(), 1e7);
        }
        else if (o == "ins")
        {
            long sd = a[0];
            auto put = [&](const iit::rbd::InertiaMatrixDense& T, const Eigen::Vector3d& com, long l) {
                double m = md(Dat(sd, 10 * l), 3) + 1;
                Eigen::Vector3d c, q, d;
                for (int k = 0; k < 3; k++)
                {
                    c(k) = fl(Dat(sd, 10 * l + 1 + k), 2);
                    q(k) = fl(Dat(sd, 10 * l + 4 + k), 3);
                    d(k) = md(Dat(sd, 10 * l + 7 + k), 3) + 3;
                }
                Eigen::Matrix3d J = m * (c.squaredNorm() * Eigen::Matrix3d::Identity() - c * c.transpose());
                J(0, 0) += d(0); J(1, 1) += d(1); J(2, 2) += d(2);
                J(0, 1) += q(0); J(1, 0) += q(0); J(0, 2) += q(1); J(2, 0) += q(1); J(1, 2) += q(2); J(2, 1) += q(2);
                const_cast<iit::rbd::InertiaMatrixDense&>(T).fill(m, c, J);
                const_cast<Eigen::Vector3d&>(com) = c;
            };
#define F(i, n, L) put(s.ip.getTensor_##n(), s.ip.getCOM_##n(), L);
            VP_L(F)
#undef F
        }
        else if (o == "tf")
        {
            JointState q = Q(a, 2);
#define F(i, n) if (a[1] == i + 1) { if (a[0] == 0) { Eigen::Matrix4d m = s.ht.n(q); rows(out, m, rk); } else if (a[0] == 1) { Eigen::Matrix<double, 6, 6> m = s.mt3.n(q); rows(out, m, rk); } else { Eigen::Matrix<double, 6, 6> m = s.ft2.n(q); rows(out, m, rk); } }
            VP_X(F)
#undef F
        }
        else if (o == "jac")
        {
            JointState q = Q(a, 1);
#define F(i, n) if (a[0] == i + 1) { Eigen::MatrixXd m = s.jac.n(q); rows(out, m, rk); }
            VP_J(F)
#undef F
        }
        else if (o == "com") { Eigen::Vector3d c = getWholeBodyCOM(s.ip, Q(a, 0), s.ht2) * s.ip.getTotalMass(); rows(out, c, rd); }
        else if (o == "set") { if (a[0]) s.fd.setJointStatus(Q(a, 1)); else s.id.setJointStatus(Q(a, 1)); }
        else if (o == "M") { s.jsim.update(Q(a, 0)); Eigen::MatrixXd m = s.jsim; rows(out, m, rd); }
        else if (o == "L")
        {
            s.jsim.update(Q(a, 0));
            s.jsim.computeL();
            s.jsim.computeInverse();
            Eigen::MatrixXd L = s.jsim.getL(), M = s.jsim, V = s.jsim.getInverse();
            L = L.triangularView<Eigen::Lower>().toDenseMatrix();
            Eigen::MatrixXd D = L.transpose() * L - M;
            Eigen::MatrixXd E = V * M;
            rows(out, D, r6);
            rows(out, E, r6);
        }
#if !VP_FLOATING
        else if (o == "id")
        {
            JointState t; t.setConstant(77);
            if (a[0]) s.id.id(t, Q(a, 2), I(a, 2 + N), I(a, 2 + 2 * N), Ext(a[1]));
            else s.id.id(t, I(a, 2 + N), I(a, 2 + 2 * N), Ext(a[1]));
            rows(out, t, rd);
        }
        else if (o == "G") { JointState t; t.setConstant(77); if (a[0]) s.id.G_terms(t, Q(a, 2)); else s.id.G_terms(t); rows(out, t, rd); }
        else if (o == "C") { JointState t; t.setConstant(77); if (a[0]) s.id.C_terms(t, Q(a, 2), I(a, 2 + N)); else s.id.C_terms(t, I(a, 2 + N)); rows(out, t, rd); }
        else if (o == "fd")
        {
            JointState t, qdd; qdd.setConstant(77);
            s.id2.id(t, Q(a, 2), I(a, 2 + N), I(a, 2 + 2 * N), Ext(a[1]));
            if (a[0]) s.fd.fd(qdd, Q(a, 2), I(a, 2 + N), t, Ext(a[1]));
            else s.fd.fd(qdd, I(a, 2 + N), t, Ext(a[1]));
            rows(out, qdd, r6);
        }
#else
        else if (o == "idb" || o == "Gb" || o == "Cb" || o == "idf" || o == "fdb")
        {
            JointState q = Q(a, 2), qd = I(a, 2 + N), qdd = I(a, 2 + 2 * N), t; t.setConstant(77);
            V6 v = Six(a, 2 + 3 * N), ac = Six(a, 8 + 3 * N), g = Six(a, 14 + 3 * N), w; w.setConstant(77);
            auto e = Ext(a[1]);
            if (o == "idb") { if (a[0]) s.id.id_fully_actuated(w, t, g, v, ac, q, qd, qdd, e); else s.id.id_fully_actuated(w, t, g, v, ac, qd, qdd, e); }
            if (o == "Gb") { if (a[0]) s.id.G_terms_fully_actuated(w, t, g, q); else s.id.G_terms_fully_actuated(w, t, g); }
            if (o == "Cb") { if (a[0]) s.id.C_terms_fully_actuated(w, t, v, q, qd); else s.id.C_terms_fully_actuated(w, t, v, qd); }
            if (o == "idf")
            {
                V6 ba; JointState t2;
                if (a[0]) s.id.id(t, ba, g, v, q, qd, qdd, e); else s.id.id(t, ba, g, v, qd, qdd, e);
                s.id2.id_fully_actuated(w, t2, g, v, ba, q, qd, qdd, e);
                t -= t2;
                rows(out, w, r6); rows(out, t, r6);
                return;
            }
            if (o == "fdb")
            {
                s.id2.id_fully_actuated(w, t, g, v, ac, q, qd, qdd, e);
                e[orderedLinkIDs[0]] += w;
                V6 ba; JointState y; y.setConstant(77);
                if (a[0]) s.fd.fd(y, ba, v, g, q, qd, t, e); else s.fd.fd(y, ba, v, g, qd, t, e);
                rows(out, y, r6); rows(out, ba, r6);
                return;
            }
            rows(out, w, rd); rows(out, t, rd);
        }
#endif
        else throw vp::bad("op " + o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, []() { return new S; }); }
