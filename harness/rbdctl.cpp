// Conformance harness for spec/RbdCtl.tla: controllers, inverse kinematics problem and operational space on top of the robots (VP_BOT)
#include "rbdbase.h"
#include <ct/rbd/robot/jacobian/FrameJacobian.h>
#include <ct/rbd/robot/jacobian/OperationalJacobianBase.h>
#include <ct/rbd/operationalSpace/rigid_body/OperationalModel.h>
#include <ct/rbd/operationalSpace/rigid_body/OperationalModelRBD.h>
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
// a task whose Jacobian and its derivative are integers depending on the state
struct Task : public OperationalJacobianBase<3, N>
{
    typedef ct::rbd::OperationalJacobianBase<3, N> Base;
    void getJacobianOrigin(const Base::state_t& s, Base::jacobian_t& J) override
    {
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < N + 6; j++) J(i, j) = Dat(7, 18 * i + j) + s.jointVelocities()((i + j) % N) + (i == j ? 20 : 0);
    }
    void getJacobianOriginDerivative(const Base::state_t& s, Base::jacobian_t& J) override
    {
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < N + 6; j++) J(i, j) = Dat(9, 18 * i + j) + s.jointVelocities()((i + 2 * j) % N);
    }
};
struct Coord : public CoordinateBase<3, N>
{
    coordinate_t getCoordinate(const state_t& s) override { return s.jointVelocities().template tail<3>(); }
};
#if VP_BOT == 1
// an actuator whose state is its torque
struct Act : public ActuatorDynamics<N, N>
{
    typedef ActuatorDynamics<N, N> A;
    A* clone() const override { return new Act(*this); }
    void computeActuatorDynamics(const ct::rbd::JointState<N>&, const ct::core::StateVector<N>&, const double&, const ct::core::ControlVector<N>& u, ct::core::StateVector<N>& d) override { d = u; }
    ct::core::ControlVector<N> computeControlOutput(const ct::rbd::JointState<N>&, const act_state_vector_t& x) override { return ct::core::ControlVector<N>(x); }
    ct::core::StateVector<N> computeStateFromOutput(const ct::rbd::JointState<N>&, const ct::core::ControlVector<N>& u) override { return ct::core::StateVector<N>(u); }
};
template <size_t AD>
struct Opt
{
    typedef FixBaseFDSystem<Dyn, AD> Sys;
    typedef FixBaseNLOC<Sys> Nloc;
    typedef typename Nloc::NLOptConSolver Solver;
    typedef typename Nloc::RobotState_t RS;
    static const int NX = Nloc::STATE_DIM;
    std::shared_ptr<Sys> sys;
    std::shared_ptr<ct::optcon::CostFunctionQuadratic<NX, N>> cost;
    std::unique_ptr<Nloc> nloc;
    ct::optcon::NLOptConSettings st;
    Raw own;
    long last = 0;
    ct::core::StateVector<NX> start;
    static std::shared_ptr<FixBaseFDSystem<Dyn, 0>> mk(FixBaseFDSystem<Dyn, 0>*) { return std::shared_ptr<FixBaseFDSystem<Dyn, 0>>(new FixBaseFDSystem<Dyn, 0>); }
    static std::shared_ptr<FixBaseFDSystem<Dyn, N>> mk(FixBaseFDSystem<Dyn, N>*) { return std::shared_ptr<FixBaseFDSystem<Dyn, N>>(new FixBaseFDSystem<Dyn, N>(std::shared_ptr<Act>(new Act))); }
    static void setAct(FixBaseRobotState<N, 0>&, const VN&) {}
    static void setAct(FixBaseRobotState<N, N>& s, const VN& a) { s.actuatorState() = a; }
    RS robot(const VN& q, const VN& qd, const VN& act) { RS s; s.joints().getPositions() = q; s.joints().getVelocities() = qd; setAct(s, act); return s; }
    VN torque(const VN& q, const VN& qd)
    {
        VN t;
        own.inverseDynamics().id(t, q, qd, VN::Zero(), Raw::LinkForceMap(V6::Zero()));
        return t;
    }
    typename Nloc::FeedbackMatrix gain(long seed) { typename Nloc::FeedbackMatrix K; for (int i = 0; i < N; i++) for (int j = 0; j < NX; j++) K(i, j) = seed ? Dat(seed, i * NX + j) : 0; return K; }
    void state(vp::Rec& out, const ct::core::StateVector<NX>& x)
    {
        for (int i = 0; i < N; i++) { out.resd(std::cos(x(i)), 5); out.resd(std::sin(x(i)), 5); }
        for (int i = N; i < 2 * N; i++) out.resd(x(i), 1);
    }
    void sizes(vp::Rec& out)
    {
        out.i(nloc->getStateVectorArray().size()); out.i(nloc->getControlVectorArray().size()); out.i(nloc->getFeedbackArray().size());
        const auto& t = nloc->getTimeArray();
        out.i(t.size()); out.num(8 * t.back(), 1);
    }
    void fresh(long ins)
    {
        sys = mk((Sys*)nullptr);
        if (ins) { inertias(sys->dynamics().kinematics().robcogen(), ins); inertias(own, ins); }
        Eigen::Matrix<double, NX, NX> Qm = Eigen::Matrix<double, NX, NX>::Identity();
        Eigen::Matrix<double, N, N> Rm = Eigen::Matrix<double, N, N>::Identity() * 0.1;
        ct::core::StateVector<NX> xr; xr.setConstant(0.1);
        ct::core::ControlVector<N> ur; ur.setZero();
        cost.reset(new ct::optcon::CostFunctionQuadraticSimple<NX, N>(Qm, Rm, xr, ur, xr, Qm));
        st.dt = 0.125; st.K_sim = 1; st.integrator = ct::core::IntegrationType::RK4; st.max_iterations = 2; st.nThreads = 1;
        st.nlocp_algorithm = ct::optcon::NLOptConSettings::NLOCP_ALGORITHM::ILQR;
        st.lqocp_solver = ct::optcon::NLOptConSettings::LQOCP_SOLVER::GNRICCATI_SOLVER;
        st.printSummary = false;
        nloc.reset(new Nloc(cost, st, sys));
        last = 0;
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out, long ins)
    {
        if (o == "fnew") { fresh(ins); return; }
        if (!nloc) throw vp::bad("no solver");
        if (o == "fst" || o == "fex")
        {
            // a = actuators, stages, q, qd, actuator state, seed of the gain
            int n = a[1];
            RS x0 = robot(Q(a, 2), I(a, 2 + N), I(a, 2 + 2 * N));
            start = x0.toStateVector();
            ct::core::ControlVector<N> u; u.setConstant(77);
            if (o == "fst") nloc->initializeSteadyPose(x0, n * 0.125, n, u, gain(a[2 + 3 * N]));
            else
            {
                u = I(a, 2 + 2 * N);
                nloc->initialize(x0, n * 0.125, typename Nloc::StateVectorArray(n + 1, x0.toStateVector()), typename Nloc::FeedbackArray(n, gain(a[2 + 3 * N])), typename Nloc::ControlVectorArray(n, u));
            }
            sizes(out);
            put(out, u, DD);
            for (int k : {0, n - 1}) { put(out, nloc->getControlVectorArray()[k], DD); put(out, nloc->getFeedbackArray()[k], 1); }
            for (int k : {0, n}) { state(out, nloc->getStateVectorArray()[k]); for (size_t j = 0; j < AD; j++) out.resd(nloc->getStateVectorArray()[k](2 * N + j), 1); }
            last = n;
        }
        else if (o == "fin")
        {
            // a = actuators, stages, q, qd, actuator state, seed of the gain, how, final q, final qd
            int n = a[1];
            VN q0 = Q(a, 2), d0 = I(a, 2 + N), ac = I(a, 2 + 2 * N), qf = Q(a, 4 + 3 * N), df = I(a, 4 + 4 * N);
            RS x0 = robot(q0, d0, ac), xf = robot(qf, df, VN::Constant(5));
            start = x0.toStateVector();
            ct::core::ControlVectorArray<N> ua;
            ct::core::StateVectorArray<NX> xa;
            if (a[3 + 3 * N]) nloc->initializeDirectInterpolation(x0, xf, n * 0.125, n, ua, xa, gain(a[2 + 3 * N]));
            else { nloc->initializeDirectInterpolation(x0, xf, n * 0.125, n, gain(a[2 + 3 * N])); ua = nloc->getControlVectorArray(); xa = nloc->getStateVectorArray(); }
            sizes(out);
            auto xs = nloc->getStateVectorArray();
            auto us = nloc->getControlVectorArray();
            put(out, us[0], DD);
            for (int k : {0, n - 1}) put(out, nloc->getFeedbackArray()[k], 1);
            state(out, xs[0]); state(out, xs[n]);
            for (size_t j = 0; j < AD; j++) out.resd(xs[0](2 * N + j), 1);
            double e = 0, t = 0, s = 0;
            for (int k = 0; k <= n; k++)
            {
                double l = double(k) / n;
                VN q = q0 + l * (qf - q0), d = d0 + l * (df - d0), w = torque(q, d);
                e = std::max(e, (xs[k].template head<N>() - q).norm() + (xs[k].template segment<N>(N) - d).norm() + (xs[k] - xa[k]).norm());
                if (k < n) t = std::max(t, (us[k] - (AD ? VN(VN::Zero()) : w)).norm() + (us[k] - ua[k]).norm());
                if (AD && k > 0 && k < n) s = std::max(s, (xs[k].template tail<NX - 2 * N>() - Eigen::Matrix<double, NX - 2 * N, 1>(w.template head<NX - 2 * N>())).norm());
            }
            out.num(e, 1e6); out.num(t, 1e6); out.num(s, 1e6);
            last = n;
        }
        else if (o == "fit")
        {
            // the same problem and guess given to a solver directly
            ct::optcon::ContinuousOptConProblem<NX, N> pr(sys, cost);
            pr.setTimeHorizon(last * 0.125);
            pr.setInitialState(start);
            Solver own2(pr, st);
            own2.setInitialGuess(nloc->getSolution());
            int x = 2, y = 2;  // 2: refused (the guess diverges)
            try { x = a[1] ? nloc->solve() : nloc->runIteration(); } catch (std::runtime_error&) {}
            try { y = a[1] ? own2.solve() : own2.runIteration(); } catch (std::runtime_error&) {}
            if (x == 2 || y == 2)
            {
                out.i(x == y); out.i(0); out.i(0);
                fresh(ins);
                return;
            }
            auto& s = nloc->getSolution();
            auto& r = own2.getSolution();
            double e = 0;
            for (int k = 0; k < last; k++) e = std::max(e, (s.uff()[k] - r.uff()[k]).norm() + (s.x_ref()[k + 1] - r.x_ref()[k + 1]).norm() + (s.K()[k] - r.K()[k]).norm());
            out.i(x == y);
            out.num(e, 1e6);
            out.num((nloc->getStateVectorArray()[0] - start).norm(), 1e6);
            last = 0;
        }
        else throw vp::bad("op " + o);
    }
};
#endif
struct S : public vp::Session
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Pose p[2];
    long ins = 0;
    std::shared_ptr<Dyn> dyn{new Dyn}, dyn2{new Dyn};
    // operational space
    Task task;
    State ts;
    MX W = MX::Identity(N + 6, N + 6);
#if VP_BOT == 1
    Opt<0> o0;
    Opt<N> o1;
#elif VP_FLOATING
    typedef IDControllerFB<Dyn> Idc;
    typedef OperationalModelRBD<Raw, NE> Full;
    typedef OperationalModel<3, N, NE> Op;
    V6 kp = V6::Zero(), kd = V6::Zero();
    State des;
    std::unique_ptr<Idc> idc{new Idc(dyn)};
    std::unique_ptr<WholeBodyController<N>> wbc{new WholeBodyController<N>};
    std::shared_ptr<Raw> raw{new Raw};
    Full::ptr fullm;
    std::shared_ptr<Op> op_;
    void models()
    {
        std::array<EndEffector<N>, NE> ee;
        fullm.reset(new Full(raw, ee));
        op_.reset(new Op(fullm, std::shared_ptr<Task>(new Task), std::shared_ptr<Coord>(new Coord)));
    }
    S() { models(); }
#else
    typedef IKNLP<Kin> Nlp;
    typedef IKCostEvaluator<Kin> Cost;
    typedef InfiniteHorizonLQRwithInverseDynamics<Dyn> Lqr;
    typedef FixBaseFDSystem<Dyn> Sys;
    struct Reg : public IKRegularizerBase
    {
        double r;
        Reg(double x) : r(x) {}
        MX computeRegularizer(const VX) override { return r * MX::Identity(N, N); }
    };
    std::shared_ptr<Cost> cost;
    std::unique_ptr<Nlp> nlp;
    V3 wp;
    double wr = 0;
    std::shared_ptr<Sys> sys;
    std::unique_ptr<Lqr> lqr;
    void design()
    {
        sys.reset(new Sys);
        if (ins) inertias(sys->dynamics().kinematics().robcogen(), ins);
        lqr.reset(new Lqr(sys, std::shared_ptr<RbdLinearizer<Sys>>(new RbdLinearizer<Sys>(sys))));
    }
#endif
    State state(const Pose& b, const VN& q, const V6& v, const VN& qd)
    {
        State s(b.getStorageType());
        s.basePose() = b;
        s.baseVelocities().setVector(v);
        s.joints().getPositions() = q;
        s.joints().getVelocities() = qd;
        return s;
    }
    MX JJ() { Task::Base::jacobian_t J; Task t; t.getJacobianOrigin(ts, J); return J; }
    MX DJ() { Task::Base::jacobian_t J; Task t; t.getJacobianOriginDerivative(ts, J); return J; }
    static double mx(const MX& m) { return m.cwiseAbs().maxCoeff(); }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "bot") { if (a[0] != VP_BOT) throw vp::bad("robot"); }
        else if (o == "ps")
        {
            Pose x(a[1] ? Pose::EULER : Pose::QUAT);
            x.setFromEulerAnglesXyz(ang(a, 2));
            x.position().toImplementation() = vec(a, 5);
            p[a[0] - 1] = x;
        }
        else if (o == "ins")
        {
            ins = a[0];
            inertias(dyn->kinematics().robcogen(), ins); inertias(dyn2->kinematics().robcogen(), ins);
#if VP_FLOATING
            inertias(*raw, ins);
#endif
        }
        else if (o == "fj")
        {
            // a = slot r(3) w v qd seed seed
            typedef FrameJacobian<N> FJ;
            Eigen::Matrix<double, 6, N> b, db;
            for (int i = 0; i < 6; i++)
                for (int j = 0; j < N; j++) { b(i, j) = Dat(a[10 + N], i * N + j); db(i, j) = Dat(a[11 + N], i * N + j); }
            Eigen::Matrix<double, N + 6, 1> v;
            v << six(a, 4), I(a, 10);
            Eigen::Matrix<double, 6, N + 6> J, dJ; J.setConstant(77); dJ.setConstant(77);
            M3 R_ = p[a[0] - 1].getRotationMatrix().toImplementation();
            FJ::FromBaseJacobianToInertiaJacobian(R_, vec(a, 1), b, J);
            FJ::FromBaseJacobianDevToInertiaJacobianDev(v, R_, vec(a, 1), b, db, dJ);
            put(out, J, D5); put(out, dJ, D5);
        }
        else if (o == "oju")
        {
            // a = weighting, qd
            VN qd = I(a, 1);
            ts = state(p[0], VN::Zero(), V6::Zero(), qd);
            W = MX::Identity(N + 6, N + 6);
            if (a[0]) for (int j = 0; j < N + 6; j++) W(j, j) = 1 + (j * a[0]) % 3;
            if (a[0]) task.updateState(ts, W); else task.updateState(ts);
        }
        else if (o == "ojq")
        {
            MX J = JJ(), E = MX::Identity(N + 6, N + 6);
            if (a[0] == 0) put(out, task.J(), 1);
            else if (a[0] == 1) put(out, task.dJdt(), 1);
            else if (a[0] == 2 || a[0] == 3)
            {
                MX D = a[0] == 2 ? task.JdagerLDLT() : task.JdagerSVD();
                near(out, MX(J * D - MX::Identity(3, 3)));
                out.num(mx((E - D * J) * W * J.transpose()), 1e6);
            }
            else if (a[0] == 4)
            {
                MX P = task.P();
                out.num(mx(J * P), 1e6); out.num(mx(P * P - P), 1e6); out.num(mx(P * W * J.transpose()), 1e6); out.num(P.trace() - (N + 3), 1e6);
            }
            else if (a[0] == 5) { MX D = W * J.transpose() * (J * W * J.transpose()).inverse(); out.num(mx(J * task.dJdagerdt() + DJ() * D), 1e6); }
            else { MX D = W * J.transpose() * (J * W * J.transpose()).inverse(); out.num(mx(J * task.dPdt() + DJ() * (E - D * J)), 1e6); }
        }
#if VP_BOT == 1
        else if (o[0] == 'f')
        {
            if (a[0]) o1.op(o, a, out, ins); else o0.op(o, a, out, ins);
        }
#elif VP_FLOATING
        else if (o == "ids") { des = state(p[a[0] - 1], VN::Constant(0.3), six(a, 1), VN::Constant(2)); idc->setDesiredState(des); }
        else if (o == "ikp") { kp = six(a, 0); idc->setPoseGains(kp); }
        else if (o == "ikd") { kd = six(a, 0); idc->setTwistGains(kd); }
        else if (o == "inew")
        {
            if (a[0] == 0) { idc.reset(new Idc(dyn)); kp.setZero(); kd.setZero(); des = State(); des.setZero(); }
            else if (a[0] == 1) idc.reset(new Idc(dyn, des, kp, kd));
            else idc.reset(new Idc(*idc));
        }
        else if (o == "ia")
        {
            // a = slot w v
            V6 v = six(a, 1), d = des.base().velocities().getVector();
            const Pose& b = p[a[0] - 1];
            auto acc = [&](const V6& w) {
                auto x = idc->computeDesiredAcceleration(state(b, VN::Constant(0.1), w, VN::Constant(1)));
                if (x.joints().getAcceleration().norm() != 0) throw vp::bad("joint acceleration");
                return V6(x.base().getVector6d());
            };
            V6 x = acc(v), y = acc(V6::Zero()), z = acc(d);
            V6 dv = x - y;
            put(out, dv, 1);
            put(out, V3(x.tail<3>()), D5);
            V3 e = z.head<3>();
            bool full = kp(0) != 0 && kp(1) != 0 && kp(2) != 0;
            if (full)
            {
                e = e.cwiseQuotient(kp.head<3>());
                put(out, euler(e), D5);
                out.i(std::abs(e(1)) <= M_PI / 2 + 1e-9);
            }
            else for (int i = 0; i < 3; i++) out.i(kp(i) == 0 && e(i) != 0);
        }
        else if (o == "it")
        {
            // a = slot, contact, gravity, q, w v, qd
            Dyn::EE_in_contact_t c;
            for (int e = 0; e < NE; e++) c[e] = (a[1] >> e) & 1;
            State s = state(p[a[0] - 1], Q(a, 3), six(a, 3 + N), I(a, 9 + N));
            auto acc = idc->computeDesiredAcceleration(s);
            Dyn::control_vector_t u, t;
            u = a[2] == 2 ? idc->computeTorque(s, c) : idc->computeTorque(s, c, a[2] != 0);
            if (a[2]) dyn2->ProjectedInverseDynamics(c, s, acc, t); else dyn2->ProjectedInverseDynamicsNoGravity(c, s, acc, t);
            out.num((u - t).norm() / (1 + t.norm()), 1e6);
        }
        else if (o == "wg") wbc->getJointController().setAllPIDGains(a[0], 0, a[1]);
        else if (o == "wp") wbc->getJointController().setDesiredPosition(I(a, 0));
        else if (o == "wj") wbc->getJointController().setDesiredPosition(double(a[1]), int(a[0]));
        else if (o == "wr") wbc->getJointController().reset();
        else if (o == "wc")
        {
            ct::core::StateVector<12 + 2 * N> x;
            x << ang(a, 1), vec(a, 4), I(a, 7), six(a, 7 + N), I(a, 13 + N);
            ct::core::ControlVector<N> u; u.setConstant(77);
            wbc->computeControl(x, a[0], u);
            put(out, u, 1);
        }
        else if (o == "om" || o == "oo")
        {
            // a = slot, q, qd, qdd, w v, acceleration
            State s = state(p[a[0] - 1], Q(a, 1), six(a, 1 + 3 * N), I(a, 1 + N));
            VX v(N + 6), qdd(N + 6);
            v << six(a, 1 + 3 * N), I(a, 1 + N);
            qdd << six(a, 7 + 3 * N), I(a, 1 + 2 * N);
            if (o == "om")
            {
                fullm->update(s);
                VX f = fullm->M() * qdd + fullm->C() + fullm->G();
                put(out, f, DD);
                put(out, fullm->G(), DD);
                for (int e = 0; e < NE; e++) put(out, fullm->Jc(e), D5);
                put(out, fullm->getVelocities(), 1);
                put(out, fullm->getAccelerations(qdd), 1);
                auto x = fullm->getPositions();
                put(out, euler(x.head<3>()), D5);
                put(out, V3(x.segment<3>(3)), D5);
                out.num(mx(x.tail<N>() - Q(a, 1)), 1e6);
                out.num(mx(fullm->M() * fullm->MInverse() - MX::Identity(N + 6, N + 6)), 1e6);
                MX sel(N, N + 6); sel << MX::Zero(N, 6), MX::Identity(N, N);
                out.num(mx(fullm->S() - sel), 1e6);
            }
            else
            {
                op_->update(s);
                ts = s;
                put(out, op_->getVelocities(), 1);
                put(out, op_->getAccelerations(qdd), 1);
                put(out, op_->getPositions(), 1);
                // forces that make the robot accelerate with qdd, as torques of the joints and forces at the end-effectors
                Full ref(std::shared_ptr<Raw>(new Raw), std::array<EndEffector<N>, NE>());
                std::shared_ptr<Raw> rr(new Raw);
                if (ins) inertias(*rr, ins);
                Full own(rr, std::array<EndEffector<N>, NE>());
                own.update(s);
                VX tau = VX::LinSpaced(N, -3, 4), f = own.S().transpose() * tau - own.C() - own.G();
                VX g = op_->S().transpose() * tau;
                for (int e = 0; e < NE; e++) { V3 l(e + 1, 2 - e, 3); f += own.Jc(e).transpose() * l; g += op_->Jc(e).transpose() * l; }
                VX ac = own.M().ldlt().solve(f);
                VX xdd = JJ() * ac + DJ() * v;
                VX r = op_->M() * xdd + op_->C() + op_->G() - g;
                out.num(r.norm() / (1 + g.norm()), 1e6);
                // gravity alone
                out.num((op_->G() - op_->M() * (JJ() * own.M().ldlt().solve(own.G()))).norm() / (1 + op_->G().norm()), 1e6);
                out.num(mx(op_->M() * op_->MInverse() - MX::Identity(3, 3)), 1e6);
                MX T = op_->STransposeDager();
                out.num(mx(op_->S().transpose() * T - MX::Identity(3, 3)), 1e6);
                MX orth = MX::Zero(N, 2); orth(1, 0) = 1; orth(4, 1) = 2; orth(5, 1) = 1;
                MX U = op_->STransposeDager(orth);
                out.num(mx(op_->S().transpose() * U - MX::Identity(3, 3)), 1e6);
                out.num(mx(orth.transpose() * U), 1e6);
            }
        }
#else
        else if (o == "nnew")
        {
            // a = weights(3), weight of the rotation, bounds
            wp = vec(a, 0); wr = a[3];
            if (wr == 1 && wp == V3(1, 1, 1)) cost.reset(new Cost(0));
            else cost.reset(new Cost(0, M3(wp.asDiagonal()), M3(wr * M3::Identity())));
            nlp.reset(new Nlp(cost, I(a, 4), I(a, 4 + N)));
        }
        else if (o == "nt")
        {
            const Pose& t = p[a[1] - 1];
            auto c = nlp->getIKCostEvaluator();
            if (a[0] == 0) c->setTargetPose(t);
            else c->setTargetPose(ct::core::StateVector<3>(t.position().toImplementation()), t.getRotationQuaternion().toImplementation());
            Pose g = c->getTargetPose();
            put(out, g.getRotationMatrix().toImplementation(), D5);
            put(out, g.position().toImplementation(), D5);
        }
        else if (o == "nr") { if (a[0]) cost->setRegularizer(std::shared_ptr<Reg>(new Reg(a[0]))); else cost->setRegularizer(nullptr); }
        else if (o == "ng") nlp->setInitialGuess(Q(a, 0));
        else if (o == "nx") { VX q = Q(a, 1); Nlp::MapConstVecXs m(q.data(), N); nlp->extractOptimizationVars(m, a[0] != 0); }
        else if (o == "nz") { Cost c(0); VX g(N); Nlp::MapVecXs m(g.data(), N); if (a[0] == 0) c.eval(); else if (a[0] == 1) c.evalGradient(N, m); else { VX h, w(1); w << 1; c.sparseHessianValues(VX::Zero(N), w, h); } }
        else if (o == "ns")
        {
            VN q = nlp->getSolution();
            VX g(N), lo(N), up(N), cn(N), cj(N);
            Nlp::MapVecXs mg(g.data(), N), ml(lo.data(), N), mu(up.data(), N), mc(cn.data(), N), mj(cj.data(), N);
            nlp->evaluateConstraints(mc);
            for (int i = 0; i < N; i++) { out.resd(std::cos(q(i)), 5); out.resd(std::sin(q(i)), 5); }
            for (int i = 0; i < N; i++) { out.resd(std::cos(cn(i)), 5); out.resd(std::sin(cn(i)), 5); }
            nlp->getConstraintBounds(ml, mu, N);
            put(out, lo, 1); put(out, up, 1);
            nlp->evaluateConstraintJacobian(N, mj);
            Eigen::VectorXi r(N), c(N);
            Nlp::MapVecXi mr(r.data(), N), mk(c.data(), N);
            nlp->getSparsityPatternJacobian(N, mr, mk);
            MX J = MX::Zero(N, N);
            for (int i = 0; i < N; i++) J(r(i), c(i)) += cj(i);
            out.num(mx(J - MX::Identity(N, N)), 1e6);
            out.i(nlp->getVarCount()); out.i(nlp->getConstraintsCount()); out.i(nlp->getNonZeroJacobianCount());
        }
        else if (o == "ne" || o == "nn")
        {
            // a = objective factor
            VX g = VX::Constant(N, 77), lam = VX::Constant(N, 3);
            Nlp::MapVecXs mg(g.data(), N);
            double val = nlp->evaluateCostFun();
            nlp->evaluateCostGradient(N, mg);
            int nh = nlp->getNonZeroHessianCount();
            VX h(nh);
            Eigen::VectorXi r(nh), c(nh);
            Nlp::MapVecXs mh(h.data(), nh);
            Nlp::MapVecXi mr(r.data(), nh), mk(c.data(), nh);
            Nlp::MapConstVecXs ml(lam.data(), N);
            nlp->getSparsityPatternHessian(nh, mr, mk);
            nlp->evaluateHessian(nh, mh, a[0], ml);
            MX H = MX::Zero(N, N);
            for (int i = 0; i < nh; i++) { if (r(i) < c(i)) throw vp::bad("upper triangle"); H(r(i), c(i)) += h(i); if (r(i) != c(i)) H(c(i), r(i)) += h(i); }
            if (o == "ne") { out.resd(val, DT); put(out, g, DT); put(out, H, DT); }
            else
            {
                // with a weight on the rotation: value, gradient against differences, Hessian positive semidefinite
                VN q = nlp->getSolution();
                Raw raw;
                Pose t = nlp->getIKCostEvaluator()->getTargetPose();
                M3 Rd = t.getRotationMatrix().toImplementation();
                double angle = Eigen::AngleAxisd(M3(raw.getEERotInBase(0, q) * Rd.transpose())).angle();
                V3 d = raw.getEEPositionInBase(0, q).toImplementation() - t.position().toImplementation();
                out.num(val - 0.5 * (d.dot(wp.asDiagonal() * d) + wr * angle * angle), 1e4);
                double e = 0;
                for (int i = 0; i < N; i++)
                {
                    VX y = q, z = q;
                    y(i) += 1e-5; z(i) -= 1e-5;
                    Nlp::MapConstVecXs my(y.data(), N), mz(z.data(), N);
                    nlp->extractOptimizationVars(my, true); double fy = nlp->evaluateCostFun();
                    nlp->extractOptimizationVars(mz, true); double fz = nlp->evaluateCostFun();
                    e = std::max(e, std::abs((fy - fz) / 2e-5 - g(i)));
                }
                VX qq = q;
                Nlp::MapConstVecXs mq(qq.data(), N);
                nlp->extractOptimizationVars(mq, true);
                out.num(angle > 3 ? 0 : e, 1e4);
                out.i(Eigen::SelfAdjointEigenSolver<MX>(H).eigenvalues()(0) > -1e-6);
            }
        }
        else if (o == "lnew") design();
        else if (o == "ld")
        {
            // a = how, weight of the state, weight of the control, q, qd
            ct::core::StateVector<2 * N> x;
            x << Q(a, 3), I(a, 3 + N);
            ct::core::StateMatrix<2 * N> Qm = ct::core::StateMatrix<2 * N>::Identity() * a[1];
            Lqr::control_matrix_t Rm = Lqr::control_matrix_t::Identity() * a[2];
            Lqr::feedback_matrix_t K; K.setConstant(77);
            bool ok = a[0] ? lqr->designInfiniteHorizonLQR(x, Qm, Rm) : lqr->designInfiniteHorizonLQR(x, Qm, Rm, K);
            out.i(ok);
            put(out, lqr->getIDTorques(), DD);
            out.num((lqr->getStateSetpoint() - x).norm(), 1e6);
            if (a[0]) K = lqr->getK(); else out.i(0);
            // the gain is the one of the Riccati equation of the linearised system
            RbdLinearizer<Sys> lin(sys);
            ct::core::StateMatrix<2 * N> A = lin.getDerivativeState(x, ct::core::ControlVector<N>(lqr->getIDTorques()));
            ct::core::StateControlMatrix<2 * N, N> Bm = lin.getDerivativeControl(x, ct::core::ControlVector<N>(lqr->getIDTorques()));
            ct::optcon::LQR<2 * N, N> l2;
            Lqr::feedback_matrix_t K2;
            l2.compute(Qm, Rm, A, Bm, K2, false, false);
            out.num((K - K2).norm() / (1 + K2.norm()), 1e3);
            out.num((lqr->getK() - K).norm(), 1e6);
            if (a[0]) out.i(0);
            MX cl = A - Bm * K;
            out.i(cl.eigenvalues().real().maxCoeff() < 0);
        }
        else if (o == "lc")
        {
            // a = copy, q, qd
            ct::core::StateVector<2 * N> x;
            x << Q(a, 1), I(a, 1 + N);
            ct::core::ControlVector<N> u; u.setConstant(77);
            if (a[0]) { std::unique_ptr<Lqr> c(lqr->clone()); c->computeControl(x, 0.0, u); }
            else lqr->computeControl(x, 0.0, u);
            VX d = x - lqr->getStateSetpoint();
            VX r = u - lqr->getIDTorques() + lqr->getK() * d;
            out.num(r.norm() / (1 + u.norm()), 1e6);
            out.i(u == VX(lqr->getIDTorques()));
        }
#endif
        else throw vp::bad("op " + o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, []() { return new S; }); }
