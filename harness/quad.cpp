// Conformance harness for the quadrotor part of spec/Rbd.tla
#include <ct/core/core.h>
#include <ct/models/Quadrotor/Quadrotor.hpp>
#include <ct/models/Quadrotor/QuadrotorLinear.hpp>
#include <Quadrotor/A_quadrotor.cpp>
#include <Quadrotor/B_quadrotor.cpp>
#include <Quadrotor/quadrotor_ode.cpp>
#include "common.h"
namespace Q = ct::models;
using namespace ct::models;
static double Ang(long c)
{
    static const double B[3][2] = {{1, 0}, {0.8, 0.6}, {0.6, 0.8}};
    double x = B[c / 4][0], y = B[c / 4][1];
    for (long i = 0; i < c % 4; i++) { double t = x; x = -y; y = t; }
    return std::atan2(y, x);
}
static const long D = 273L * 29 * 144 * 4 * 1250;   // 1/mQ, 1/Thxxyy, Thzz/Thxxyy, 1/cos^2, fifths, tenths
struct S : public vp::Session
{
    std::unique_ptr<Quadrotor> q{new Quadrotor};
    std::unique_ptr<QuadrotorLinear> l{new QuadrotorLinear};
    template <class M> void rows(vp::Rec& out, const M& m) { for (int a = 0; a < m.rows(); a++) for (int b = 0; b < m.cols(); b++) out.resd(m(a, b), D); }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "bot") return;
        if (o == "cl") { q.reset(q->clone()); l.reset(l->clone()); return; }
        ct::core::StateVector<12> x, d; ct::core::ControlVector<4> u;
        for (int i = 0; i < 12; i++) x(i) = a[3 + i];
        for (int i = 0; i < 3; i++) x(3 + i) = Ang(a[i]);
        for (int i = 0; i < 4; i++) u(i) = a[15 + i] / 10.0;
        if (o == "qo") { d.setConstant(77); q->computeControlledDynamics(x, 0.5, u, d); rows(out, d); }
        else if (o == "qA") rows(out, l->getDerivativeState(x, u, 0.5));
        else if (o == "qB") rows(out, l->getDerivativeControl(x, u, 0.5));
        else throw vp::bad("op " + o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, []() { return new S; }); }
