// the robot of a ct_rbd harness (VP_BOT), numbers of the specifications (module RbdBase) and link inertias
#pragma once
#include <iostream>
#include <ct/rbd/rbd.h>
#if VP_BOT == 0
#include <ct/models/InvertedPendulum/InvertedPendulum.h>
namespace B = ct::rbd::InvertedPendulum;
#elif VP_BOT == 1
#include <ct/models/DoubleInvertedPendulum/DoubleInvertedPendulum.h>
namespace B = ct::rbd::DoubleInvertedPendulum;
#elif VP_BOT == 2
#include <ct/models/HyA/HyA.h>
#include <ct/models/HyA/HyAInverseKinematics.h>
namespace B = ct::rbd::HyA;
#elif VP_BOT == 3
#include <ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h>
namespace B = ct::rbd::quadrotor;
#else
#include <ct/models/HyQ/HyQ.h>
namespace B = ct::rbd::HyQ;
#endif
#include "robots_gen.h"
#include "common.h"
using namespace ct::rbd;
typedef B::Kinematics Kin;
typedef B::Dynamics Dyn;
typedef Kin::ROBCOGEN Raw;
static const int N = Kin::NJOINTS, NE = Kin::NUM_EE, FL = VP_FLOATING, M6 = N + 6 * FL;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, N, 1> VN;
typedef RigidBodyPose Pose;
typedef RBDState<N> State;
static const long D5 = 31250000000L, DF = 781250000000L, DD = 10000000000L, DR = 187500, DL = 2250000, DT = 500000000000L;
static long Dat(long seed, long j) { return ((seed * 37 + j * 29 + j * j * 5 + (seed * j * 11)) % 7) - 3; }
static long fl(long a, long b) { return (a >= 0) ? a / b : -((-a + b - 1) / b); }
static long md(long a, long b) { return ((a % b) + b) % b; }
static double Ang(long c)
{
    static const double T[3][2] = {{1, 0}, {0.8, 0.6}, {0.6, 0.8}};
    double x = T[c / 4][0], y = T[c / 4][1];
    for (long i = 0; i < c % 4; i++) { double t = x; x = -y; y = t; }
    return std::atan2(y, x);
}
static V3 vec(const vp::Args& a, size_t o) { return V3(a[o], a[o + 1], a[o + 2]); }
static V6 six(const vp::Args& a, size_t o) { V6 v; for (int i = 0; i < 6; i++) v(i) = a[o + i]; return v; }
static VN Q(const vp::Args& a, size_t o) { VN q; for (int i = 0; i < N; i++) q(i) = Ang(a[o + i]); return q; }
static VN I(const vp::Args& a, size_t o) { VN q; for (int i = 0; i < N; i++) q(i) = a[o + i]; return q; }
static V3 ang(const vp::Args& a, size_t o) { return V3(Ang(a[o]), Ang(a[o + 1]), Ang(a[o + 2])); }
static M3 euler(const V3& e) { return (Eigen::AngleAxisd(e(0), V3::UnitX()) * Eigen::AngleAxisd(e(1), V3::UnitY()) * Eigen::AngleAxisd(e(2), V3::UnitZ())).toRotationMatrix(); }
static M3 skew(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
static Eigen::Quaterniond quat(const V3& e) { return Eigen::Quaterniond(euler(e)); }
template <class A>
static void put(vp::Rec& o, const A& m, long D) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o.resd(m(i, j), D); }
template <class A>
static void near(vp::Rec& o, const A& m, double s = 1e6) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o.num(m(i, j), s); }
static void inertias(Raw& r, long sd)
{
    auto& ip = r.inertiaProperties();
    auto setl = [&](const iit::rbd::InertiaMatrixDense& T, const V3& com, long l) {
        double m = md(Dat(sd, 10 * l), 3) + 1;
        V3 c, q, d;
        for (int k = 0; k < 3; k++)
        {
            c(k) = fl(Dat(sd, 10 * l + 1 + k), 2);
            q(k) = fl(Dat(sd, 10 * l + 4 + k), 3);
            d(k) = md(Dat(sd, 10 * l + 7 + k), 3) + 3;
        }
        M3 J = m * (c.squaredNorm() * M3::Identity() - c * c.transpose());
        J(0, 0) += d(0); J(1, 1) += d(1); J(2, 2) += d(2);
        J(0, 1) += q(0); J(1, 0) += q(0); J(0, 2) += q(1); J(2, 0) += q(1); J(1, 2) += q(2); J(2, 1) += q(2);
        const_cast<iit::rbd::InertiaMatrixDense&>(T).fill(m, c, J);
        const_cast<V3&>(com) = c;
    };
    using namespace R;
#define F(i, n, L) setl(ip.getTensor_##n(), ip.getCOM_##n(), L);
    VP_L(F)
#undef F
}
