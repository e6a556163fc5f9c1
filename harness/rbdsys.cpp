// Conformance harness for spec/RbdSys.tla: ct_rbd on top of the generated robots (one binary per robot, VP_BOT)
#include "rbdbase.h"
#include <ct/rbd/robot/costfunction/TermTaskspaceGeometricJacobian.hpp>
// an actuator whose state is its torque and whose input is the rate of the state
struct Act : public ActuatorDynamics<N, N>
{
    typedef ActuatorDynamics<N, N> A;
    A* clone() const override { return new Act(*this); }
    void computeActuatorDynamics(const ct::rbd::JointState<N>&, const ct::core::StateVector<N>&, const double&, const ct::core::ControlVector<N>& u, ct::core::StateVector<N>& d) override { d = u; }
    ct::core::ControlVector<N> computeControlOutput(const ct::rbd::JointState<N>&, const act_state_vector_t& x) override { return ct::core::ControlVector<N>(x); }
    ct::core::StateVector<N> computeStateFromOutput(const ct::rbd::JointState<N>&, const ct::core::ControlVector<N>& u) override { return ct::core::StateVector<N>(u); }
};
struct S : public vp::Session
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    std::shared_ptr<Kin> kin{new Kin};
    std::unique_ptr<Dyn> dyn{new Dyn(kin)};
    std::unique_ptr<Raw> raw{new Raw};     // second opinion with its own transforms and inertias
    Pose p[3];
    long ins = 1;
    Raw::LinkForceMap Ext(long seed)
    {
        Raw::LinkForceMap e(V6::Zero());
        if (seed)
            for (int l = 0; l < R::linksCount; l++)
            {
                V6 f;
                for (int j = 0; j < 6; j++) f(j) = Dat(seed, 6 * l + 101 + j);
                e[R::orderedLinkIDs[l]] = f;
            }
        return e;
    }
    void pose(vp::Rec& out, const Pose& x)
    {
        put(out, x.getRotationMatrix().toImplementation(), D5);
        put(out, x.getRotationQuaternion().toImplementation().toRotationMatrix(), D5);
        put(out, euler(x.getEulerAnglesXyz().toImplementation()), D5);
        put(out, x.position().toImplementation(), D5);
    }
    void block(vp::Rec& out, const M3& R_, const V3& x, const VN& q, const V6& v, const VN& qd)
    {
        put(out, R_, D5); put(out, x, D5); put(out, q, D5); put(out, v, D5); put(out, qd, D5);
    }
    template <class T>
    void block(vp::Rec& out, const T& s) { block(out, s.basePose().getRotationMatrix().toImplementation(), s.basePose().position().toImplementation(), s.jointPositions(), s.baseVelocities().getVector(), s.jointVelocities()); }
    template <class T>
    void vq(vp::Rec& out, const T& v) { block(out, Eigen::Quaterniond(v(0), v(1), v(2), v(3)).toRotationMatrix(), v.template segment<3>(4), v.template segment<N>(7), v.template segment<6>(7 + N), v.template segment<N>(13 + N)); }
    template <class T>
    void ve(vp::Rec& out, const T& v) { block(out, euler(v.template head<3>()), v.template segment<3>(3), v.template segment<N>(6), v.template segment<6>(6 + N), v.template segment<N>(12 + N)); }
    State state(bool eul, const V3& e, const V3& x, const VN& q, const V6& v, const VN& qd)
    {
        State s(eul ? Pose::EULER : Pose::QUAT);
        s.basePose().setFromEulerAnglesXyz(e);
        s.basePose().position().toImplementation() = x;
        s.baseVelocities().setVector(v);
        s.jointPositions() = q;
        s.jointVelocities() = qd;
        return s;
    }
    State state(int slot, const VN& q, const V6& v, const VN& qd)
    {
        State s(p[slot].getStorageType());
        s.basePose() = p[slot];
        s.baseVelocities().setVector(v);
        s.joints().getPositions() = q;
        s.joints().getVelocities() = qd;
        return s;
    }
    // translational Jacobian of all end-effectors for base and joints, from the generated Jacobians
    Eigen::MatrixXd full(const VN& q)
    {
        Eigen::MatrixXd J(3 * NE, 6 + N);
        for (int e = 0; e < NE; e++)
        {
            V3 x = raw->getEEPositionInBase(e, q).toImplementation();
            J.block(3 * e, 0, 3, 3) = -skew(x);
            J.block(3 * e, 3, 3, 3) = M3::Identity();
            J.block(3 * e, 6, 3, N) = raw->getJacobianBaseEEbyId(e, q).bottomRows<3>();
        }
        return J;
    }
    Eigen::MatrixXd rate(const VN& q, const VN& qd)
    {
        double h = 1e-5;
        return (full(q + h * qd) - full(q - h * qd)) / (2 * h);
    }
#if VP_FLOATING
    Eigen::VectorXd gen(const State& s, const V6& ac, const VN& qdd)
    {
        V6 w; VN t;
        V6 g = V6::Zero();
        g.tail<3>() = euler(s.basePose().getEulerAnglesXyz().toImplementation()).transpose() * V3(0, 0, -9.81);
        raw->inverseDynamics().id_fully_actuated(w, t, g, s.baseVelocities().getVector(), ac, s.jointPositions(), s.jointVelocities(), qdd, Ext(0));
        Eigen::VectorXd r(6 + N);
        r << w, t;
        return r;
    }
    template <bool Qt, bool EE>
    void gp(const vp::Args& a, vp::Rec& out)
    {
        typedef FloatingBaseFDSystem<Dyn, Qt, EE> Sys;
        Sys sys;
        V3 e = ang(a, 1);
        V6 v = six(a, 7 + N);
        State s = state(!Qt, e, vec(a, 4), I(a, 7), v, I(a, 13 + N));
        typename Sys::StateVector x = sys.template toStateVector<Qt>(s);
        ct::core::StateVector<6 + N> vv;
        vv << v, I(a, 13 + N);
        x.template tail<6 + N>().setConstant(5);     // the velocities are the argument's
        ct::core::StateVector<6 + N + Qt> d; d.setConstant(77);
        typename Sys::ControlVector u; u.setZero();
        sys.computePdot(x, vv, u, d);
        if (Qt)
        {
            Eigen::Quaterniond q(x(0), x(1), x(2), x(3)), dq(d(0), d(1), d(2), d(3)), w = q.conjugate() * dq;
            put(out, M3(q.toRotationMatrix() * skew(2 * w.vec())) + (std::abs(w.w()) > 1e-9 ? 99 : 0) * M3::Ones(), DR);
        }
        else put(out, d.template head<3>(), DR);
        put(out, d.template tail<3 + N>(), DR);
    }
    template <bool Qt, bool EE>
    void gr(const vp::Args& a, vp::Rec& out)
    {
        typedef FloatingBaseFDSystem<Dyn, Qt, EE> Sys;
        std::unique_ptr<Sys> sys(new Sys);
        std::shared_ptr<typename Sys::ContactModel> cm;
        if (a[0] % 10 == 4)
        {
            cm.reset(new typename Sys::ContactModel(30.0, 4.0, 100.0, -1.0, 0.0, Sys::ContactModel::NONE));
            sys->setContactModel(cm);
        }
        if (a[0] >= 10) sys.reset(sys->clone());
        inertias(sys->dynamics().kinematics().robcogen(), ins);
        State s = state(!Qt, ang(a, 1), vec(a, 4), Q(a, 7), six(a, 7 + N), I(a, 13 + N));
        typename Sys::StateVector x = sys->template toStateVector<Qt>(s);
        typename Sys::ControlVector u;
        VN t = I(a, 13 + 2 * N);
        u.template head<N>() = t;
        std::array<V3, NE> f;
        for (int e = 0; e < NE; e++)
        {
            f[e] = EE ? vec(a, 13 + 3 * N + 3 * e) : V3(V3::Zero());
            if (EE) for (int k = 0; k < 3; k++) u(N + 3 * e + k) = f[e](k);
        }
        if (cm) { auto c = cm->computeContactForces(s); for (int e = 0; e < NE; e++) f[e] += c[e]; }
        ct::core::StateVector<6 + N> d; d.setConstant(77);
        ct::core::StateVector<6 + N + Qt> pp = x.template head<6 + N + Qt>();
        x.template head<6 + N + Qt>().setConstant(0.3);     // the positions are the argument's
        sys->computeVdot(x, pp, u, d);
        Eigen::VectorXd r = gen(s, d.template head<6>(), d.template tail<N>());
        Eigen::MatrixXd J = full(VN(s.jointPositions()));
        M3 Rt = euler(ang(a, 1)).transpose();
        for (int e = 0; e < NE; e++) r -= J.block(3 * e, 0, 3, 6 + N).transpose() * (Rt * f[e]);
        r.tail(N) -= t;
        near(out, r);
    }
    template <bool Qt>
    void psys(const vp::Args& a, const State& s, RBDAcceleration<N>& acc, const RBDDataMap<bool, NE>& m, const VN& u)
    {
        typedef ProjectedFDSystem<Dyn, Qt> Sys;
        Sys sys(m);
        RBDDataMap<bool, NE> mm(m);
        sys.setEEInContact(mm);
        inertias(sys.dynamics().kinematics().robcogen(), ins);
        typename Sys::StateVector x, d; d.setConstant(77);
        if (Qt) { auto y = s.toStateVectorQuaternion(); for (int i = 0; i < x.size(); i++) x(i) = y(i); }
        else { auto y = s.toStateVectorEulerXyz(); for (int i = 0; i < x.size(); i++) x(i) = y(i); }
        ct::core::ControlVector<N> uu(u);
        sys.computeControlledDynamics(x, 0.0, uu, d);
        acc.base().fromVector6d(d.template segment<6>(6 + N + Qt));
        acc.joints().setAcceleration(d.template tail<N>());
    }
#else
    template <class Sys>
    void fsys(Sys* made, const vp::Args& a, vp::Rec& out, bool ee, bool act, bool sym)
    {
        std::unique_ptr<Sys> sys(made);
        if (a[0] >= 10) sys.reset(static_cast<Sys*>(sys->clone()));
        inertias(sys->dynamics().kinematics().robcogen(), ins);
        VN q = Q(a, 2), qd = I(a, 2 + N), qdd = I(a, 2 + 2 * N), t;
        raw->inverseDynamics().id(t, q, qd, qdd, Ext(0));
        M3 Rt = sym ? M3(M3::Identity()) : M3(p[a[1] - 1].getRotationMatrix().toImplementation().transpose());
        ct::core::StateVector<Sys::STATE_DIM> x, d;
        ct::core::ControlVector<Sys::CONTROL_DIM> u;
        x.setZero(); d.setConstant(77); u.setZero();
        for (int e = 0; e < NE && ee; e++)
        {
            V3 f = vec(a, 2 + 3 * N + 3 * e);
            t -= raw->getJacobianBaseEEbyId(e, q).bottomRows<3>().transpose() * (Rt * f);
            u.segment(N + 3 * e, 3) = f;
        }
        x.template head<N>() = q;
        x.segment(N, N) = qd;
        if (act)
        {
            x.tail(N) = t;
            for (int i = 0; i < N; i++) u(i) = a[2 + i];
        }
        else u.template head<N>() = t;
        sys->computeControlledDynamics(x, 0.0, u, d);
        near(out, d);
    }
#endif
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "bot") {}
        else if (o == "ins") { ins = a[0]; inertias(kin->robcogen(), ins); inertias(*raw, ins); }
        else if (o == "pset")
        {
            Pose& x = p[a[0] - 1];
            V3 e = ang(a, 3), t = vec(a, 6);
            auto st = a[2] ? Pose::EULER : Pose::QUAT;
            kindr::EulerAnglesXyz<double> ke(e(0), e(1), e(2));
            Eigen::Quaterniond q = quat(e);
            kindr::RotationQuaternion<double> kq(q);
            kindr::Position<double, 3> kt(t(0), t(1), t(2));
            Eigen::Matrix4d H = Eigen::Matrix4d::Identity();
            H.topLeftCorner<3, 3>() = euler(e);
            H.topRightCorner<3, 1>() = t;
            switch (a[1])
            {
                case 0: x = Pose(ke, kt, st); break;
                case 1: x = Pose(kq, kt, st); break;
                case 2: x = Pose(q, t, st); break;
                case 3: x = Pose(H, st); break;
                case 4: x.setFromEulerAnglesXyz(ke); break;
                case 5: x.setFromEulerAnglesXyz(e); break;
                case 6: x.setFromRotationQuaternion(kq); break;
                case 7: x.setFromRotationQuaternion(q); break;
                case 8: x.setFromRotationMatrix(kindr::RotationMatrix<double>(euler(e))); break;
                default: x.setIdentity();
            }
            if (a[1] >= 4 && a[1] <= 8) x.position() = kt;
            pose(out, x);
            out.i(x.getStorageType() == Pose::EULER);
        }
        else if (o == "pref") { p[2] = p[a[0] - 1].inReferenceFrame(p[a[1] - 1]); pose(out, p[2]); }
        else if (o == "pcp") { Pose y(p[a[0] - 1]); p[a[1] - 1] = y; pose(out, p[a[1] - 1]); }
        else if (o == "near") out.i(p[a[0] - 1].isNear(p[a[1] - 1]));
        else if (o == "prot")
        {
            const Pose& x = p[a[0] - 1];
            V3 v = vec(a, 1);
            kindr::Position<double, 3> k(v(0), v(1), v(2));
            put(out, x.rotateBaseToInertia(v), D5);
            put(out, x.rotateBaseToInertia(k).toImplementation(), D5);
            put(out, x.rotateInertiaToBase(v), D5);
            put(out, x.rotateInertiaToBase(k).toImplementation(), D5);
            put(out, x.computeGravityB(v), D5);
            put(out, x.computeGravityB6D(), D5);
            put(out, x.rotateBaseToInertiaMat(skew(v)), D5);
        }
        else if (o == "see")
        {
            auto keep = kin->getEndEffector(a[0] - 1), x = keep;
            x.setLinkId(a[1]);
            kin->setEndEffector(a[0] - 1, x);
            out.i(kin->getEndEffector(a[0] - 1).getLinkId());
            kin->getEndEffector(a[0] - 1) = keep;
        }
        else if (o == "ee")
        {
            int e = a[0] - 1;
            const Pose& b = p[a[1] - 1];
            VN q = Q(a, 2);
            if (a.size() > size_t(2 + N)) { std::shared_ptr<Kin> c(kin->clone()); kin->getEndEffector(0); out.i(c->getEndEffector(e).getLinkId()); }
            else out.i(kin->getEndEffector(e).getLinkId());
            put(out, kin->getEEPositionInBase(e, q).toImplementation(), D5);
            put(out, kin->getEERotInBase(e, q), D5);
            Pose x = kin->getEEPoseInBase(e, q);
            put(out, x.getRotationMatrix().toImplementation(), D5);
            put(out, x.position().toImplementation(), D5);
            put(out, kin->getEEPositionInWorld(e, b, q).toImplementation(), D5);
            put(out, kin->getEERotInWorld(e, b, q), D5);
            Pose y = kin->getEEPoseInWorld(e, b, q);
            put(out, y.getRotationMatrix().toImplementation(), D5);
            put(out, y.position().toImplementation(), D5);
        }
        else if (o == "eev")
        {
            int e = a[0] - 1;
            State s = state(a[1] - 1, Q(a, 2), six(a, 2 + 2 * N), I(a, 2 + N));
            put(out, kin->getEEVelocityInBase(e, s).toImplementation(), D5);
            put(out, kin->getEEVelocityInWorld(e, s).toImplementation(), D5);
        }
        else if (o == "eef")
        {
            int e = a[0] - 1;
            const Pose& b = p[a[1] - 1];
            VN q = Q(a, 2);
            Kin::EEForce f(six(a, 2 + N));
            put(out, kin->mapForceFromWorldToLink3d(vec(a, 5 + N), b, q, e), DF);
            put(out, kin->mapForceFromWorldToLink(f, b, q, e), DF);
            put(out, kin->mapForceFromEEToLink(f, b, q, e), DF);
        }
        else if (o == "lnk")
        {
            VN q = Q(a, 1);
            Eigen::Matrix4d H = kin->robcogen().getHomogeneousTransformBaseLinkById(a[0], q);
            Eigen::Matrix<double, 6, 6> X = kin->robcogen().getForceTransformLinkBaseById(a[0], q);
            put(out, H, D5); put(out, X, D5);
        }
        else if (o == "jb") { State s = state(0, Q(a, 1), V6::Zero(), VN::Zero()); Eigen::Matrix<double, 6, N> J = kin->getJacobianBaseEEbyId(a[0] - 1, s); put(out, J, D5); }
        else if (o == "cj" || o == "cd" || o == "cp")
        {
            ConstraintJacobian<Kin, 3 * NE, N> c;
            for (int e = 0; e < NE; e++)
            {
                c.eeInContact_[e] = (a[0] >> e) & 1;
                if (c.eeInContact_[e]) { c.ee_indices_.push_back(e); c.c_size_ += 3; }
            }
            VN qd = VN::Zero();
            if (o != "cj") qd = I(a, 1 + N);
            State s0 = state(0, VN::Constant(0.4), V6::Zero(), VN::Ones());
            c.updateState(s0);
            c.J(); c.dJdt(); c.P();
            State s = state(0, Q(a, 1), V6::Zero(), qd);
            c.updateState(s);
            if (o == "cj") put(out, c.J(), D5);
            else if (o == "cd") put(out, c.dJdt(), D5);
            else
            {
                Eigen::MatrixXd P = c.P(), J = c.J(), d = c.dJdt();
                decltype(c)::jacobian_t nd;
                c.getJacobianOriginDerivativeNumdiff(s, nd);
                Eigen::MatrixXd T = c.JdagerLDLT() * J;      // the projector on the constrained directions has as many dimensions as constraints
                double e = std::max((J * P).cwiseAbs().maxCoeff(), (P * P - P).cwiseAbs().maxCoeff());
                out.num(std::max(e, std::abs(T.trace() - 3 * (long)c.ee_indices_.size())), 1e6);
                out.num((d - nd).cwiseAbs().maxCoeff(), 1e6);
            }
        }
        else if (o == "sv")
        {
            State s = state(a[0], ang(a, 1), vec(a, 4), I(a, 7), six(a, 7 + N), I(a, 13 + N));
            auto q = s.toStateVectorQuaternion();
            auto e = s.toStateVectorEulerXyz();
            block(out, s);
            vq(out, q);
            ve(out, e);
            ve(out, s.toStateVectorEulerXyzUnique());
            State::state_vector_euler_t c, cu;
            c << s.toCoordinatePosition(), s.toCoordinateVelocity();
            cu << s.toCoordinatePositionUnique(), s.toCoordinateVelocity();
            ve(out, c);
            ve(out, cu);
            for (int k = 0; k < 2; k++)
            {
                State x(k ? Pose::EULER : Pose::QUAT), y(k ? Pose::EULER : Pose::QUAT);
                x.fromStateVectorQuaternion(q);
                y.fromStateVectorEulerXyz(e);
                block(out, x);
                block(out, y);
            }
            State r(Pose::QUAT);
            r.fromStateVectorRaw(q);
            block(out, r);
            State cp(s), as;
            as = cp;
            block(out, as);
            block(out, State(s.base(), s.joints()));
        }
        else if (o == "sa")
        {
            State s = state(a[0], ang(a, 1), vec(a, 4), I(a, 7), six(a, 7 + N), I(a, 13 + N));
            typedef FloatingBaseRobotState<N, 3> F;
            F f(s, ct::core::StateVector<3>(vec(a, 13 + 2 * N)));
            block(out, f.rbdState()); put(out, f.actuatorState(), D5);
            auto q = f.toStateVectorQuaternion();
            auto e = f.toStateVectorEulerXyz();
            auto u = f.toStateVectorEulerXyzUnique();
            vq(out, q.head<2 * N + 13>()); put(out, q.tail<3>(), D5);
            ve(out, e.head<2 * N + 12>()); put(out, e.tail<3>(), D5);
            ve(out, u.head<2 * N + 12>()); put(out, u.tail<3>(), D5);
            F x(Pose::QUAT), y(Pose::EULER);
            x.fromStateVectorRaw(q);
            y.fromStateVectorEulerXyz(e);
            block(out, x.rbdState()); put(out, x.actuatorState(), D5);
            F z(y);
            block(out, z.rbdState()); put(out, z.actuatorState(), D5);
        }
        else if (o == "s0")
        {
            State s = state(a[0], ang(a, 1), vec(a, 4), I(a, 7), six(a, 7 + N), I(a, 13 + N));
            typedef FloatingBaseRobotState<N, 0> F;
            F f(s.base(), s.joints()), x(Pose::QUAT), y(Pose::EULER);
            vq(out, f.toStateVectorQuaternion());
            ve(out, f.toStateVectorEulerXyz());
            ve(out, f.toStateVectorEulerXyzUnique());
            x.fromStateVectorQuaternion(f.toStateVectorQuaternion());
            y.fromStateVectorEulerXyz(f.toStateVectorEulerXyz());
            block(out, x.rbdState());
            block(out, y.rbdState());
        }
        else if (o == "sf")
        {
            VN q = I(a, 0), d = I(a, N);
            V3 x = vec(a, 2 * N);
            typedef FixBaseRobotState<N, 3> F;
            typedef FixBaseRobotState<N, 0> F0;
            ct::rbd::JointState<N> j;
            j.getPositions() = q; j.getVelocities() = d;
            F f(j, ct::core::StateVector<3>(x));
            F::state_vector_t v = f.toStateVector();
            put(out, v, D5);
            F g(v), h(g);
            put(out, h.joints().getPositions(), D5); put(out, h.joints().getVelocities(), D5); put(out, h.actuatorState(), D5);
            ct::core::StateVector<2 * N> jv;
            jv << q, d;
            put(out, F::toFullState(jv, ct::core::StateVector<3>(x)), D5);
            auto k = F::jointStateFromVector(v);
            put(out, k.getPositions(), D5); put(out, k.getVelocities(), D5);
            auto b = F::rbdStateFromVector(v, p[0]);
            put(out, b.jointPositions(), D5); put(out, b.jointVelocities(), D5); put(out, F::actuatorStateFromVector(v), D5);
            auto c = f.toRBDState(p[0]);
            bool same = c.basePose().isNear(p[0]) && b.basePose().isNear(p[0]) && c.baseVelocities().getVector().norm() == 0;
            put(out, VN(c.jointPositions() * (same ? 1 : 99)), D5); put(out, c.jointVelocities(), D5);
            F0 f0(j);
            put(out, f0.toStateVector(), D5);
            F0 g0(f0.toStateVector());
            put(out, g0.joints().getPositions(), D5); put(out, g0.joints().getVelocities(), D5);
        }
        else if (o == "sd")
        {
            State s = state(a[0], ang(a, 1), vec(a, 4), I(a, 7), six(a, 7 + N), I(a, 13 + N));
            ct::rbd::tpl::RigidBodyAcceleration<double> b(six(a, 13 + 2 * N));
            RBDAcceleration<N> c(b, JointAcceleration<N>(I(a, 19 + 2 * N)));
            auto e = c.toStateUpdateVectorEulerXyz(s);
            auto d = c.toStateUpdateVectorQuaternion(s);
            put(out, e, DR);
            Eigen::Quaterniond q = s.basePose().getRotationQuaternion().toImplementation(), dq(d(0), d(1), d(2), d(3)), w = q.conjugate() * dq;
            put(out, M3(q.toRotationMatrix() * skew(2 * w.vec())) + (std::abs(w.w()) > 1e-9 ? 99 : 0) * M3::Ones(), DR);
            put(out, d.tail<2 * N + 9>(), DR);
            put(out, c.toCoordinateAcceleration(), DR);
        }
#if !VP_FLOATING
        else if (o == "xid")
        {
            ct::rbd::JointState<N> x;
            x.getPositions() = Q(a, 1); x.getVelocities() = I(a, 1 + N);
            JointAcceleration<N> c(I(a, 1 + 2 * N));
            Dyn::control_vector_t u; u.setConstant(77);
            if (a[0]) dyn->FixBaseID(x, c, Ext(a[0]), u);
            else
            {
                dyn->FixBaseID(x, c, u);
                FixBaseFDSystem<Dyn> sys;
                inertias(sys.dynamics().kinematics().robcogen(), ins);
                if ((sys.computeIDTorques(x, c) - u).norm() > 1e-9) u.setConstant(99);
                FixBaseFDSystem<Dyn, N> as(std::shared_ptr<Act>(new Act));
                inertias(as.dynamics().kinematics().robcogen(), ins);
                Dyn::control_vector_t g;
                dyn->FixBaseID(x, JointAcceleration<N>(VN(VN::Zero())), g);
                if ((as.computeConsistentActuatorState(x) - g).norm() > 1e-9) u.setConstant(98);
            }
            put(out, u, DD);
        }
        else if (o == "xfd")
        {
            ct::rbd::JointState<N> x;
            x.getPositions() = Q(a, 1); x.getVelocities() = I(a, 1 + N);
            VN t;
            raw->inverseDynamics().id(t, Q(a, 1), I(a, 1 + N), I(a, 1 + 2 * N), Ext(a[0]));
            JointAcceleration<N> c;
            auto f = Ext(a[0]);
            if (a[0]) dyn->FixBaseForwardDynamics(x, t, f, c); else dyn->FixBaseForwardDynamics(x, t, c);
            near(out, c.getAcceleration());
        }
        else if (o == "fs")
        {
            const Pose& b = p[a[1] - 1];
            switch (a[0] % 10)
            {
                case 0: fsys(new FixBaseFDSystem<Dyn>(b), a, out, false, false, false); break;
                case 1: fsys(new FixBaseFDSystem<Dyn, 0, true>(b), a, out, true, false, false); break;
                case 2: fsys(new FixBaseFDSystemSymplectic<Dyn>, a, out, false, false, true); break;
                case 3: fsys(new FixBaseFDSystemSymplectic<Dyn, 0, true>, a, out, true, false, true); break;
                case 4: fsys(new FixBaseFDSystem<Dyn, N>(std::shared_ptr<Act>(new Act), b), a, out, false, true, false); break;
                case 5: fsys(new FixBaseFDSystem<Dyn, N, true>(std::shared_ptr<Act>(new Act), b), a, out, true, true, false); break;
            }
        }
        else if (o == "fk")
        {
            if (a[0] == 0)
            {
                std::unique_ptr<FixBaseAccSystem<Dyn>> s(FixBaseAccSystem<Dyn>().clone());
                ct::core::StateVector<2 * N> x, d; ct::core::ControlVector<N> u(I(a, 1 + 2 * N));
                x << I(a, 1), I(a, 1 + N);
                s->computeControlledDynamics(x, 0.0, u, d);
                put(out, d, D5);
            }
            else
            {
                std::unique_ptr<FixBaseVelSystem<Dyn>> s(FixBaseVelSystem<Dyn>().clone());
                ct::core::StateVector<N> x(I(a, 1)), d; ct::core::ControlVector<N> u(I(a, 1 + 2 * N));
                s->computeControlledDynamics(x, 0.0, u, d);
                put(out, d, D5);
            }
        }
        else if (o == "tc" || o == "tg")
        {
            typedef TermTaskspaceGeometricJacobian<Kin, 2 * N, N> Term;
            ct::core::StateVector<2 * N> x; x.setConstant(3);
            VN q = Q(a, 6);
            x.template head<N>() = q;
            ct::core::ControlVector<N> u; u.setConstant(2);
            M3 W = vec(a, 0).asDiagonal();
            if (o == "tc")
            {
                Term t(0, W, M3::Zero(), p[0]);
                t.setReferencePosition(vec(a, 3));
                std::unique_ptr<Term> c(t.clone());
                out.resd(c->evaluate(x, u, 0.0), DT);
                put(out, c->stateDerivative(x, u, 0.0), DT);
                put(out, c->stateSecondDerivative(x, u, 0.0), DT);
                if (c->controlDerivative(x, u, 0.0).norm() + c->controlSecondDerivative(x, u, 0.0).norm() + c->stateControlDerivative(x, u, 0.0).norm() != 0) out.i(-1);
            }
            else
            {
                // same weight for all rotation axes: the gradient is the derivative of the value
                Term t(0, W, M3(a[0] * M3::Identity()), ct::core::StateVector<3>(vec(a, 3)), p[0].getRotationQuaternion().toImplementation());
                ct::core::StateVector<2 * N> g = t.stateDerivative(x, u, 0.0);
                double e = g.tail(N).norm();
                for (int i = 0; i < N; i++)
                {
                    auto y = x, z = x;
                    y(i) += 1e-5; z(i) -= 1e-5;
                    e = std::max(e, std::abs((t.evaluate(y, u, 0.0) - t.evaluate(z, u, 0.0)) / 2e-5 - g(i)));
                }
                M3 Rd = p[0].getRotationMatrix().toImplementation();
                double angle = Eigen::AngleAxisd(M3(raw->getEERotInBase(0, q) * Rd.transpose())).angle();
                V3 d = raw->getEEPositionInBase(0, q).toImplementation() - vec(a, 3);
                out.num(angle > 3 ? 0 : e, 1e4);      // half a turn: no derivative
                out.num(t.evaluate(x, u, 0.0) - 0.5 * (d.dot(W * d) + a[0] * angle * angle), 1e4);
            }
        }
#else
        else if (o == "xfa" || o == "xff" || o == "xfi")
        {
            State s = state(a[1] - 1, Q(a, 2), six(a, 2 + 3 * N), I(a, 2 + N));
            V6 ac = six(a, 8 + 3 * N), w; w.setConstant(77);
            VN qdd = I(a, 2 + 2 * N), t;
            JointAcceleration<N> jc(qdd);
            auto e = Ext(a[0]);
            V6 g = V6::Zero();
            g.tail<3>() = euler(s.basePose().getEulerAnglesXyz().toImplementation()).transpose() * V3(0, 0, -9.81);
            Dyn::control_vector_t u; u.setConstant(77);
            if (o == "xfa")
            {
                dyn->FloatingBaseFullyActuatedID(s, RigidBodyAcceleration(ac), jc, e, w, u);
                put(out, w, DD); put(out, u, DD);
            }
            else if (o == "xff")
            {
                raw->inverseDynamics().id_fully_actuated(w, t, g, s.baseVelocities().getVector(), ac, s.jointPositions(), s.jointVelocities(), qdd, e);
                e[R::orderedLinkIDs[0]] += w;
                RBDAcceleration<N> xd;
                dyn->FloatingBaseForwardDynamics(s, t, e, xd);
                near(out, xd.joints().getAcceleration()); near(out, xd.base().getVector6d());
            }
            else
            {
                RigidBodyAcceleration ba;
                dyn->FloatingBaseID(s, jc, e, u, ba);
                raw->inverseDynamics().id_fully_actuated(w, t, g, s.baseVelocities().getVector(), ba.getVector6d(), s.jointPositions(), s.jointVelocities(), qdd, e);
                near(out, w); near(out, VN(u - t));
            }
        }
        else if (o == "pfd" || o == "pid")
        {
            State s = state(a[2] - 1, Q(a, 3), six(a, 3 + 2 * N), I(a, 3 + N));
            VN u = I(a, 9 + 2 * N);
            RBDDataMap<bool, NE> m(false), other(true);
            for (int e = 0; e < NE; e++) m[e] = (a[1] >> e) & 1;
            RBDAcceleration<N> acc;
            ProjectedDynamics<Raw, NE> pd(kin, other);
            if (o == "pfd")
            {
                RBDDataMap<V3, NE> lam;
                pd.setContactConfiguration(m);
                if (a[0] == 0) { dyn->ProjectedForwardDynamics(other, s, u, acc); dyn->ProjectedForwardDynamics(m, s, u, acc); }
                else if (a[0] == 1) pd.ProjectedForwardDynamics(s, u, acc);
                else if (a[0] == 2) psys<false>(a, s, acc, m, u);
                else psys<true>(a, s, acc, m, u);
                pd.getContactForcesInBase(s, u, lam);
                Eigen::VectorXd r = gen(s, acc.base().getVector6d(), acc.joints().getAcceleration());
                Eigen::MatrixXd J = full(VN(s.jointPositions())), dJ = rate(s.jointPositions(), s.jointVelocities());
                for (int e = 0; e < NE; e++) r -= J.block(3 * e, 0, 3, 6 + N).transpose() * lam[e];
                r.tail(N) -= u;
                near(out, r, 1e4);
                Eigen::VectorXd vel = J * s.toCoordinateVelocity();
                Eigen::VectorXd xa = J * acc.toCoordinateAcceleration() + dJ * s.toCoordinateVelocity();
                V3 w = s.baseVelocities().getVector().head<3>();
                for (int e = 0; e < NE; e++)
                {
                    V3 z = m[e] ? V3(xa.segment<3>(3 * e) + w.cross(V3(vel.segment<3>(3 * e)))) : lam[e];
                    near(out, z, 1e4);
                }
            }
            else
            {
                RBDAcceleration<N> acc2, zero;
                Dyn::control_vector_t u2, u3, u4;
                dyn->ProjectedForwardDynamics(m, s, u, acc);
                dyn->ProjectedInverseDynamics(m, s, acc, u2);
                dyn->ProjectedForwardDynamics(m, s, u2, acc2);
                near(out, Eigen::VectorXd(acc2.toCoordinateAcceleration() - acc.toCoordinateAcceleration()), 1e4);
                dyn->ProjectedInverseDynamicsNoGravity(m, s, acc, u3);
                State rest = state(a[2] - 1, Q(a, 3), V6::Zero(), VN::Zero());
                dyn->ProjectedInverseDynamics(m, rest, zero, u4);
                near(out, VN(u2 - u3 - u4), 1e4);
            }
        }
        else if (o == "gp") { switch (a[0]) { case 0: gp<false, false>(a, out); break; case 1: gp<true, false>(a, out); break; case 2: gp<false, true>(a, out); break; default: gp<true, true>(a, out); } }
        else if (o == "gr") { switch (a[0] % 10) { case 0: case 4: gr<false, false>(a, out); break; case 1: gr<true, false>(a, out); break; case 2: gr<false, true>(a, out); break; default: gr<true, true>(a, out); } }
#endif
        else if (o == "cm")
        {
            typedef EEContactModel<Kin> CM;
            CM c(7.0, 3.0, 2.0, a[2] ? 1e-300 : -1.0, 1.0, CM::VELOCITY_SMOOTHING(a[0]));
            c.alpha() = a[1]; c.k() = a[3]; c.d() = a[4]; c.zOffset() = a[5];
            CM::ActiveMap m;
            for (int e = 0; e < NE; e++) m[e] = (a[6] >> e) & 1;
            c.setActiveEE(m);
            std::unique_ptr<CM> d(c.clone());
            State s = state(a[7] - 1, Q(a, 8), six(a, 8 + 2 * N), I(a, 8 + N));
            auto f = d->computeContactForces(s);
            for (int e = 0; e < NE; e++) put(out, f[e], 2 * D5);
        }
        else if (o == "lx" || o == "lu" || o == "ld")
        {
#if VP_FLOATING
            typedef FloatingBaseFDSystem<Dyn, false, false> Sys;
#else
            typedef FixBaseFDSystem<Dyn> Sys;
#endif
            typedef RbdLinearizer<Sys> Lin;
            std::shared_ptr<Sys> sys(new Sys);
            std::unique_ptr<Lin> l(new Lin(sys, true));
            if (a[0]) { l.reset(l->clone()); ins = 0; }      // a copy has its own system, with the robot's own inertias
            else inertias(sys->dynamics().kinematics().robcogen(), ins);
            static const int NS = 2 * M6;
            ct::core::StateVector<NS> x;
            if (FL) { ct::core::StateVector<2 * N + 12> y; y << ang(a, 1), vec(a, 4), Q(a, 7), six(a, 7 + N), I(a, 13 + N); for (int i = 0; i < NS; i++) x(i) = y(i); }
            else { ct::core::StateVector<2 * N> y; y << Q(a, 7), I(a, 13 + N); for (int i = 0; i < NS; i++) x(i) = y(i); }
            ct::core::ControlVector<N> u(I(a, 13 + 2 * N));
            ct::core::StateMatrix<NS> A = l->getDerivativeState(x, u, 0.0);
            ct::core::StateControlMatrix<NS, N> Bm = l->getDerivativeControl(x, u, 0.0);
            if (o == "lx") { put(out, A.template block<3, 3>(0, 0), DL); put(out, A.template block<3, 3>(3, 0), DL); put(out, A.template block<3, 3>(0, M6), DL); put(out, A.template block<3, 3>(3, M6 + 3), DL); }
            else if (o == "lu")
            {
                near(out, Bm.topRows(M6));
                std::unique_ptr<Raw> own(new Raw);
                if (ins) inertias(*own, ins);
                Eigen::MatrixXd M = own->jSim().update(VN(Q(a, 7)));
                near(out, Eigen::MatrixXd(M * Bm.bottomRows(M6)));
            }
            else
            {
                // against differences of the system (a system of its own)
                Sys s2;
                if (ins) inertias(s2.dynamics().kinematics().robcogen(), ins);
                ct::core::StateVector<NS> f1, f2;
                Eigen::MatrixXd num(NS, NS);
                for (int j = 0; j < NS; j++)
                {
                    auto y = x, z = x;
                    y(j) += 1e-5; z(j) -= 1e-5;
                    s2.computeControlledDynamics(y, 0.0, u, f1);
                    s2.computeControlledDynamics(z, 0.0, u, f2);
                    num.col(j) = (f1 - f2) / 2e-5;
                }
                for (int i = 0; i < M6; i++)
                {
                    double e = 0;
                    for (int k = 0; k < 2; k++)
                        for (int j = 0; j < NS; j++) e = std::max(e, std::abs(A(i + k * M6, j) - num(i + k * M6, j)) / (1 + std::abs(num(i + k * M6, j)) + num.row(i + k * M6).norm()));
                    out.num(e, 1e3);
                }
            }
            if (a[0]) ins = keepIns;
        }
#if VP_BOT == 2
        else if (o == "ik")
        {
            HyAInverseKinematics<double> ik;
            VN q;
            for (int i = 0; i < N; i++) q(i) = a[1 + i] / 100.0;
            const Pose& b = p[a[0] - 1];
            Pose t = kin->getEEPoseInWorld(0, b, q), tb = kin->getEEPoseInBase(0, q);
            HyAInverseKinematics<double>::JointPositionsVector_t r, r2;
            bool ok = ik.computeInverseKinematics(r, t, b, std::vector<size_t>()), ok2 = ik.computeInverseKinematics(r2, tb, std::vector<size_t>());
            double e = ok && ok2 && !r.empty() && r.size() == r2.size() ? 0 : 9, lim = 0, has = 1e9, best = 1e9;
            VN lo = ct::models::HyA::jointLowerLimit(), hi = ct::models::HyA::jointUpperLimit(), z = VN::Constant(0.2), c;
            for (const VN& y : r)
            {
                e = std::max(e, (raw->getEEPositionInBase(0, y).toImplementation() - tb.position().toImplementation()).norm());
                e = std::max(e, (raw->getEERotInBase(0, y) - raw->getEERotInBase(0, q)).norm());
                for (int i = 0; i < N; i++) if (y(i) < lo(i) - 1e-9 || y(i) > hi(i) + 1e-9) lim = 1;
                has = std::min(has, (y - q).norm());
                best = std::min(best, (y - z).norm());
            }
            bool k = ik.computeInverseKinematicsCloseTo(c, t, b, z);
            out.num(e, 1e4);
            out.num(lim, 1e6);
            out.num(has < 1e-3 ? 1 : 0, 1e6);
            out.num(k ? (c - z).norm() - best : 9, 1e6);
        }
        else if (o == "iks") kin->addIKSolver(std::shared_ptr<HyAInverseKinematics<double>>(new HyAInverseKinematics<double>), a[0], a[1]);
        else if (o == "ikg") { const Kin& k = *kin; out.i(k.getIKSolver(a[0], a[1]) != nullptr); }
#endif
        else throw vp::bad("op " + o);
        keepIns = ins;
    }
    long keepIns = 1;
};
int main(int argc, char** argv) { return vp::run(argc, argv, []() { return new S; }); }
