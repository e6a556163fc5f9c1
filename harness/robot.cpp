// Conformance harness for spec/Robot.tla: the joint layer of ct_rbd that needs no kindr.
#include <ct/core/core.h>
#include "common.h"
#include <ct/rbd/state/JointState.h>
#include <ct/rbd/state/JointAcceleration.h>
#include <ct/rbd/common/SimpleArmTrajectoryGenerator.h>
#include <ct/rbd/common/math/JacobiSingularity.h>
#include <ct/rbd/robot/actuator/ActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder-impl.h>
#include <ct/rbd/robot/control/JointPositionPIDController.h>
#include <ct/rbd/robot/control/JointPositionPIDController-impl.h>
#include <ct/rbd/robot/control/SelectionMatrix.h>
#include <ct/rbd/robot/control/SelectionMatrix-impl.h>
#include <ct/rbd/robot/kinematics/RBDDataMap.h>
#include <ct/rbd/robot/kinematics/InverseKinematicsBase.h>
using namespace ct::core;
using namespace ct::rbd;
using vp::Args;
using vp::Rec;
typedef JointState<3> JS;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 2, 1> V2;
static V3 v3(const Args& a, size_t o, double k = 1) { V3 v; v << a.at(o) * k, a.at(o + 1) * k, a.at(o + 2) * k; return v; }
static V2 v2(const Args& a, size_t o, double k = 1) { V2 v; v << a.at(o) * k, a.at(o + 1) * k; return v; }

struct Ik : public InverseKinematicsBase<3>
{
    typedef InverseKinematicsBase<3> B;
    B::JointPositionsVector_t sols;
    bool ok = true;
    bool computeInverseKinematics(B::JointPositionsVector_t& s, const B::RigidBodyPoseTpl& ee, const std::vector<size_t>& f) override { throw std::runtime_error("not used"); }
    bool computeInverseKinematics(B::JointPositionsVector_t& s, const B::RigidBodyPoseTpl& ee, const B::RigidBodyPoseTpl& base, const std::vector<size_t>& f) override
    {
        ok = ee.id == 5 && base.id == (f.size() == 1 ? 6 : 0);
        s = sols;
        return !s.empty();
    }
};
template <size_t C, size_t D>
void sel(bool fb, Rec& o)
{
    SelectionMatrix<C, D> m(fb), k(m);
    m.setConstant(9);
    m.setIdentity(fb);
    if (Eigen::Matrix<double, C, D>(m) != Eigen::Matrix<double, C, D>(k)) { o.i(-1); return; }
    o.mat(k);
}
struct S : public vp::Session
{
    JS q[3];
    JointAcceleration<3> acc;
    SingleDOFTrajectoryGenerator g;
    std::shared_ptr<SimpleArmTrajectoryGenerator<2>> arm;
    std::shared_ptr<JointPositionPIDController<2>> pid;
    typedef ActuatorDynamics<4, 2> A4;
    typedef ActuatorDynamics<2, 2> A2;
    std::shared_ptr<A4> act[3];
    std::shared_ptr<A2> sea[3];
    RBDDataMap<long, 3> map[3];
    S()
    {
        for (auto& m : map) m = 0L;
        arm.reset(new SimpleArmTrajectoryGenerator<2>(V2::Ones(), V2::Ones()));
        pid.reset(new JointPositionPIDController<2>(V2::Zero(), V2::Zero(), PIDController<double>::parameters_t(0, 0, 0, 1, 0, 0, 0)));
        for (int k = 1; k < 3; k++) { act[k].reset(new SecondOrderActuatorDynamics<2>(0.0, 0.0, 0.0)); sea[k].reset(new SEADynamicsFirstOrder<2>(1, 1)); }
    }
    static PIDController<double>::parameters_t par(const Args& a, size_t o) { return PIDController<double>::parameters_t(a[o], a[o + 1], a[o + 2], 1.0 / a[o + 3], a[o + 4], a[o + 5], a[o + 6]); }
    static StateVector<4> s4(const Args& a, size_t o) { StateVector<4> x; x << a[o], a[o + 1], a[o + 2], a[o + 3]; return x; }
    static StateVector<2> s2(const Args& a, size_t o) { StateVector<2> x; x << a[o], a[o + 1]; return x; }
    static ControlVector<2> c2(const Args& a, size_t o) { ControlVector<2> x; x << a[o], a[o + 1]; return x; }
    static JointState<2> j2(const Args& a, size_t o) { JointState<2> j; j.getPositions() = v2(a, o); j.getVelocities() << 31, 32; return j; }
    void op(const std::string& o, const Args& a, Rec& out) override
    {
        if (o == "js") { JS::joint_state_vector_t v; for (int i = 0; i < 6; i++) v(i) = a[1 + i] / 4.0; q[a[0]] = JS(v); }
        else if (o == "jp") q[a[0]].getPosition(a[1]) = a[2] / 4.0;
        else if (o == "jv") q[a[0]].getVelocity(a[1]) = a[2] / 4.0;
        else if (o == "jpb") q[a[0]].getPositions() = v3(a, 1, 0.25);
        else if (o == "jvb") q[a[0]].getVelocities() = v3(a, 1, 0.25);
        else if (o == "jz") q[a[0]].setZero();
        else if (o == "jcp") q[2] = JS(q[1]);
        else if (o == "jg")
        {
            JS& m = q[a[0]];
            const JS& c = m;
            out.mat(c.getPositions(), 4); out.mat(c.getVelocities(), 4);
            for (int i = 0; i < 3; i++) out.exact(c.getPosition(i), 4);
            for (int i = 0; i < 3; i++) out.exact(m.getVelocity(i), 4);
            if (m.getPosition(1) != c.getPosition(1) || m.getVelocity(2) != c.getVelocity(2) || m.toImplementation() != c.toImplementation()) { out.i(-1); return; }
            out.mat(c.toImplementation(), 4);
        }
        else if (o == "jop")
        {
            const JS &x = q[1], &y = q[2];
            switch (a[0])
            {
                case 0: out.mat((x + y).toImplementation(), 4); break;
                case 1: out.mat((x - y).toImplementation(), 4); break;
                case 2: out.mat((x * double(a[1])).toImplementation(), 4); break;
                case 3: out.mat((x / double(a[1])).toImplementation(), 4 * a[1]); break;
                case 4: out.i(x == y); break;
                case 5: out.i(x != y); break;
                case 6: out.i(x < y); break;
                case 7: out.i(x > y); break;
            }
        }
        else if (o == "jlim")
        {
            V3 l = v3(a, 2, 0.25), u = v3(a, 5, 0.25);
            std::vector<double> ls(l.data(), l.data() + 3), us(u.data(), u.data() + 3);
            bool r = q[a[0]].checkPositionLimits(l, u, a[1] / 4.0);
            if (r != q[a[0]].checkPositionLimits(ls, us, a[1] / 4.0)) { out.i(-1); return; }
            out.i(r);
        }
        else if (o == "jvl") out.i(q[a[0]].checkVelocityLimits(v3(a, 1, 0.25)));
        else if (o == "juq")
        {
            JS j;
            j.getPositions() = v3(a, 1, M_PI / 12);
            j.getVelocities() << 5, 6, 7;
            j.toUniquePosition(v3(a, 4, M_PI / 12), a[0] * M_PI / 12);
            out.mat(j.getPositions(), 12 / M_PI);
            out.mat(j.getVelocities());
        }
        else if (o == "jas") { if (a[0] % 2) acc = JointAcceleration<3>(v3(a, 0)); else acc.setAcceleration(v3(a, 0)); }
        else if (o == "jai") acc(a[0]) = a[1];
        else if (o == "jag")
        {
            const JointAcceleration<3>& c = acc;
            out.i(acc.getSize());
            out.mat(c.getAcceleration());
            for (int i = 0; i < 3; i++) out.exact(acc(i));
        }
        else if (o == "jaz") { JointAcceleration<3> z = JointAcceleration<3>::Zero(); out.mat(z.getAcceleration()); }
        else if (o == "gn") g = SingleDOFTrajectoryGenerator();
        else if (o == "gs") out.exact(g.setup(a[0] / 16.0, a[1] / 16.0, a[2], a[3]), 64);
        else if (o == "gq")
        {
            double x = 99, v = 99;
            g.queryTrajectory(a[0] / 64.0, x, v);
            out.exact(x, 8192);
            out.exact(v, 64);
        }
        else if (o == "arm") arm.reset(new SimpleArmTrajectoryGenerator<2>(v2(a, 0), v2(a, 2)));
        else if (o == "ag")
        {
            auto t = arm->generateTrajectory(v2(a, 0, 1 / 16.0), v2(a, 2, 1 / 16.0), a[4] / 64.0);
            out.i(t.size());
            for (size_t i = 0; i < t.size(); i++)
            {
                out.exact(t.getTimeArray()[i], 64);
                out.exact(t[i](0), 8192); out.exact(t[i](1), 8192); out.exact(t[i](2), 64); out.exact(t[i](3), 64);
            }
        }
        else if (o == "pp")
        {
            if (a[0] == 0) pid.reset(new JointPositionPIDController<2>(v2(a, 1), v2(a, 3), par(a, 5)));
            else pid.reset(new JointPositionPIDController<2>(v2(a, 1), v2(a, 3), std::vector<PIDController<double>::parameters_t>{par(a, 5), par(a, 12)}));
        }
        else if (o == "pc") { ControlVector<2> u; u << 77, 77; pid->computeControl(s4(a, 0), 0.0, u); out.mat(u, 4); }
        else if (o == "pd") pid->setDesiredPosition(v2(a, 0));
        else if (o == "pd1") pid->setDesiredPosition(double(a[1]), (int)a[0]);
        else if (o == "pg") pid->setAllPIDGains(a[0], a[1], a[2]);
        else if (o == "pr") pid->reset();
        else if (o == "act")
        {
            typedef std::vector<double> D;
            typedef SecondOrderActuatorDynamics<2> T;
            if (a[0] == 0) act[1].reset(new T(a[1], a[2] / 4.0));
            if (a[0] == 1) act[1].reset(new T(a[1], a[2] / 4.0, a[3]));
            if (a[0] == 2) act[1].reset(new T(D{double(a[1]), double(a[2])}, D{a[3] / 4.0, a[4] / 4.0}));
            if (a[0] == 3) act[1].reset(new T(D{double(a[1]), double(a[2])}, D{a[3] / 4.0, a[4] / 4.0}, D{double(a[5]), double(a[6])}));
            if (a[0] == 4)   // wrong sizes
            {
                if (a[1] == 0) act[1].reset(new T(D{1, 2, 3}, D{1, 2}));
                if (a[1] == 1) act[1].reset(new T(D{1, 2}, D{1}));
                if (a[1] == 2) act[1].reset(new T(D{1, 2}, D{1, 2}, D{1}));
                if (a[1] == 3) act[1].reset(new T(D{1}, D{1, 2}, D{1, 2}));
                if (a[1] == 4) act[1].reset(new T(D{1, 2}, D{1, 2, 3}, D{1, 2}));
            }
        }
        else if (o == "acl") act[2].reset(act[1]->clone());
        else if (o == "ad") { StateVector<4> d; d.setConstant(77); act[a[0]]->computeActuatorDynamics(j2({11, 12}, 0), s4(a, 1), 3.0, c2(a, 5), d); out.mat(d, 2); }
        else if (o == "ao") out.mat(act[a[0]]->computeControlOutput(j2({11, 12}, 0), s4(a, 1)));
        else if (o == "as") out.mat(act[a[0]]->computeStateFromOutput(j2({11, 12}, 0), c2(a, 1)));
        else if (o == "sea") sea[1].reset(new SEADynamicsFirstOrder<2>(a[0], a[1])), ratio[1] = a[1], stiff[1] = a[0];
        else if (o == "scl") sea[2].reset(sea[1]->clone()), ratio[2] = ratio[1], stiff[2] = stiff[1];
        else if (o == "sd") { StateVector<2> d; d.setConstant(77); sea[a[0]]->computeActuatorDynamics(j2({11, 12}, 0), s2({13, 14}, 0), 3.0, c2(a, 1), d); out.mat(d, ratio[a[0]]); }
        else if (o == "so") out.mat(sea[a[0]]->computeControlOutput(j2(a, 1), s2(a, 3)));
        else if (o == "ss") out.mat(sea[a[0]]->computeStateFromOutput(j2(a, 1), c2(a, 3)), stiff[a[0]]);
        else if (o == "sel")
        {
            bool fb = a[2];
            if (a[0] == 2 && a[1] == 3) sel<2, 3>(fb, out);
            else if (a[0] == 3 && a[1] == 3) sel<3, 3>(fb, out);
            else if (a[0] == 2 && a[1] == 8) sel<2, 8>(fb, out);
            else if (a[0] == 3 && a[1] == 9) sel<3, 9>(fb, out);
            else if (a[0] == 2 && a[1] == 5) sel<2, 5>(fb, out);
            else throw vp::bad(o);
        }
        else if (o == "jac")
        {
            typedef JacobiSingularity<2, 3> J;
            J::Jacobian m;
            m << a[0], a[1], a[2], a[3], a[4], a[5];
            J j(m);
            double w1 = j.calc_manipulability(J::DIRECT), w2 = j.calc_manipulability(J::SINGULAR_VALUES), D = (m * m.transpose()).determinant();
            out.exact(w1 * w1); out.exact(w2 * w2);
            out.mat(j.calc_joint_vel(v2(a, 6)), D);
            double c = j.calc_condition_number();
            out.exact((c * c + 1 / (c * c)) * D);
            auto s = j.calc_singular_values();
            out.exact(s(0) * s(0) + s(1) * s(1)); out.exact(s(0) * s(0) * s(1) * s(1));
        }
        else if (o == "ik")
        {
            Ik ik;
            for (long i = 0; i < a[1]; i++) ik.sols.push_back(v3(a, 5 + 3 * i));
            Ik::RigidBodyPoseTpl ee, base;
            ee.id = 5; base.id = 6;
            V3 s = V3::Constant(77);
            bool r = a[0] ? ik.computeInverseKinematicsCloseTo(s, ee, base, v3(a, 2), std::vector<size_t>(1, 2)) : ik.computeInverseKinematicsCloseTo(s, ee, v3(a, 2));
            out.i(ik.ok ? r : -1);
            out.mat(s);
        }
        else if (o == "ms") { if (a[1] % 2) map[a[0]] = a[1]; else map[a[0]] = RBDDataMap<long, 3>(a[1]); }
        else if (o == "me") map[a[0]][a[1]] = a[2];
        else if (o == "mc") { if (a[2]) { RBDDataMap<long, 3> k(map[a[1]]); map[a[0]] = k; } else map[a[0]] = map[a[1]]; }
        else if (o == "mg") { const RBDDataMap<long, 3>& m = map[a[0]]; for (int i = 0; i < 3; i++) out.i(m[i]); }
        else throw vp::bad(o);
    }
    double ratio[3] = {1, 1, 1}, stiff[3] = {1, 1, 1};
};
int main(int argc, char** argv) { return vp::run(argc, argv, [] { return new S; }); }
