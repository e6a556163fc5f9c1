From eb2493749204f736fe671c78b12293d54af8381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:42 +0000
Subject: [PATCH 01/97] fix: Interpolation::findIndex on an empty time array no
 longer leaves an invalid cached index behind

---
 ct_core/include/ct/core/common/Interpolation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_core/include/ct/core/common/Interpolation.h b/ct_core/include/ct/core/common/Interpolation.h
index 98dd000..7de4185 100644
--- a/ct_core/include/ct/core/common/Interpolation.h
+++ b/ct_core/include/ct/core/common/Interpolation.h
@@ -118,6 +118,10 @@ public:
     //! find an index corresponding to a certain inquiry time
     int findIndex(const tpl::TimeArray<SCALAR>& timeArray, const SCALAR& enquiryTime)
     {
+        // an empty array must not leave an invalid cached index behind
+        if (timeArray.size() == 0)
+            throw std::runtime_error("Interpolation.h : TimeArray is size 0.");
+
         int index = -1;
 
         index_ = std::min(index_, (int)timeArray.size() - 1);
-- 
2.43.0


From 30409d7fe7e416abf826d71beebddeb581fa7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:40 +0000
Subject: [PATCH 02/97] fix: DiscreteControlledSystem copies deep-copy their
 controller (copy constructor took the continuous-time type)

---
 .../ct/core/systems/discrete_time/DiscreteControlledSystem.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
index 81c216c..cb90870 100644
--- a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
@@ -68,7 +68,7 @@ public:
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(type), controller_(controller){};
 
     //! copy constructor
-    DiscreteControlledSystem(const ControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
+    DiscreteControlledSystem(const DiscreteControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(arg)
     {
         if (arg.controller_)
-- 
2.43.0


From 25cab7d29983a21409b52dec947616a647886075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:04 +0000
Subject: [PATCH 03/97] fix: KillIntegrationEventHandler overrides
 EventHandler's methods, so that it can be instantiated

---
 .../integration/EventHandlers/KillIntegrationEventHandler.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
index da97fa9..ec9c5c1 100644
--- a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
+++ b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
@@ -22,7 +22,7 @@ template <size_t STATE_DIM>
 class KillIntegrationEventHandler : public EventHandler<STATE_DIM>
 {
 public:
-    typedef Eigen::Matrix<double, STATE_DIM, 1> State_T;
+    typedef ct::core::StateVector<STATE_DIM> State_T;
 
     //! default constructor
     /*!
-- 
2.43.0


From a8a54840ca81af5d500042956421391c821317c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:48 +0000
Subject: [PATCH 04/97] fix: error tolerances set on an integrator take effect
 in its error-controlled steppers

---
 .../ct/core/integration/internal/StepperBase.h     |  2 +-
 .../ct/core/integration/internal/SteppersODEInt.h  | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/internal/StepperBase.h b/ct_core/include/ct/core/integration/internal/StepperBase.h
index ba57e3c..ccd9400 100644
--- a/ct_core/include/ct/core/integration/internal/StepperBase.h
+++ b/ct_core/include/ct/core/integration/internal/StepperBase.h
@@ -171,7 +171,7 @@ public:
      * @param[in]  absErrTol  The absolute error tolerance
      * @param[in]  relErrTol  The relative error tolerance
      */
-    void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
     {
         absErrTol_ = absErrTol;
         relErrTol_ = relErrTol;
diff --git a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
index 731baa6..afd7dd4 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
@@ -118,6 +118,13 @@ public:
         stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    //! set the error tolerances and apply them to the error-controlled stepper
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
@@ -175,6 +182,13 @@ public:
         stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    //! set the error tolerances and apply them to the error-controlled stepper
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
-- 
2.43.0


From 3670ee01260552cf94f3840ac9a3e4e80a2f51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:48 +0000
Subject: [PATCH 05/97] fix: scalar + vector used by odeint's error checker
 adds (it multiplied, which voided the absolute tolerance and hung on zero
 states)

---
 ct_core/include/ct/core/integration/eigenIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/eigenIntegration.h b/ct_core/include/ct/core/integration/eigenIntegration.h
index 6bd13d5..2325892 100644
--- a/ct_core/include/ct/core/integration/eigenIntegration.h
+++ b/ct_core/include/ct/core/integration/eigenIntegration.h
@@ -40,7 +40,7 @@ inline Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtC
     const MatrixBase<D>& m)
 {
     Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtCompileTime, 1> result = m;
-    result *= s;
+    result.array() += s;
     return result;
 }
 
-- 
2.43.0


From 2d95516274dd5100c4703769d76187ce297ca593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:56 +0000
Subject: [PATCH 06/97] fix: ControlSimulator copy constructor clones the
 system as a system (it did not compile when used)

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 156f305..7bbecab 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -55,11 +55,11 @@ public:
 
     //! copy constructor
     ControlSimulator(const ControlSimulator& arg)
-        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_)
+        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(false), verbose_(arg.verbose_)
     {
         if (!arg.system_)
             return;
-        system_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.system_->clone());
+        system_ = std::shared_ptr<CONTROLLED_SYSTEM>(arg.system_->clone());
         if (arg.controller_)
         {
             controller_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.controller_->clone());
-- 
2.43.0


From ab230408b4697f627119f6e893efa82dc4541425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:56 +0000
Subject: [PATCH 07/97] fix: ControlSimulator integrates the remainder of a
 control step in seconds (it used the fraction of a simulation step as a step
 size), and does not keep a reference to a temporary integration type

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 7bbecab..1ebe558 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -81,7 +81,7 @@ public:
         stop_ = false;
         sim_start_time_ = std::chrono::high_resolution_clock::now();
         x_ = x0_;
-        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, std::ref(intType));
+        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, intType);
         control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
     }
 
@@ -115,7 +115,7 @@ protected:
             {
                 integrator.integrate_n_steps(temp_x, sim_time, int(control_dt_ / sim_dt_), sim_dt_);
                 if (residue > 1e-6)
-                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue);
+                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue * sim_dt_);
 
                 if (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - wall_time).count() >=
                     control_dt_)
-- 
2.43.0


From d20d58929bedaf7e733c7e00b3f9f3dbd4020aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:56 +0000
Subject: [PATCH 08/97] fix: damping ratio of the spring-mass-damper
 SecondOrderSystem is d / (2 sqrt(m k))

---
 .../include/ct/core/systems/continuous_time/SecondOrderSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
index 64e0ec2..64c79fd 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
@@ -113,7 +113,7 @@ public:
         : ControlledSystem<2, 1>(controller),
           w_n_(std::sqrt(k / m)),
           w_n_square_(w_n_ * w_n_),
-          zeta_(d / (2.0 * m * k)),
+          zeta_(d / (2.0 * std::sqrt(m * k))),
           g_dc_(g_dc)
     {
     }
-- 
2.43.0


From 78315958143589f1a512f5d558153aae0c7b9520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:44 +0000
Subject: [PATCH 09/97] fix: controllability/observability matrices of
 LTISystem and DiscreteLTISystem (did not compile; observability blocks were
 written outside the matrix)

---
 .../systems/continuous_time/linear/LTISystem.h     | 14 +++++++-------
 .../discrete_time/linear/DiscreteLTISystem.h       | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index d69c064..803fcd3 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -127,12 +127,12 @@ public:
 	 */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -156,16 +156,16 @@ public:
 	 * \todo Move to LinearSystem
 	 *
 	 * Computes the observability matrix to assess observability. See isObservable() for the full test.
-	 * @param O observability matrix
+	 * @param O observability matrix, side by side in transposed form: [C^T, (CA)^T, (CA^2)^T, ...]
 	 */
     void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_.transpose();
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(0, i * STATE_DIM) =
+                A_.transpose() * O.template block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM);
         }
     }
 
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index 36ffa3e..7abae2a 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -109,12 +109,12 @@ public:
      */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -168,16 +168,16 @@ public:
     /*!
      * Computes the observability matrix to assess observability. See
      * isObservable() for the full test.
-     * @param O observability matrix
+     * @param O observability matrix, side by side in transposed form: [C^T, (CA)^T, (CA^2)^T, ...]
      */
     void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_.transpose();
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(0, i * STATE_DIM) =
+                A_.transpose() * O.template block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM);
         }
     }
 
-- 
2.43.0


From ec6388953f7229e3df8eeaf4827df6ddcce6ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:44 +0000
Subject: [PATCH 10/97] fix: copies and clones of an LTISystem keep its
 controller

---
 .../include/ct/core/systems/continuous_time/linear/LTISystem.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index 803fcd3..942ac6b 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -57,7 +57,7 @@ public:
     }
 
     //! copy constructor
-    LTISystem(const LTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    LTISystem(const LTISystem& arg) : Base(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
     //! deep clone
     LTISystem<STATE_DIM, CONTROL_DIM>* clone() const override { return new LTISystem<STATE_DIM, CONTROL_DIM>(*this); }
     virtual ~LTISystem() {}
-- 
2.43.0


From ff0f8e0ee629cb5146b0e647e2dae6c79aecca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:03 +0000
Subject: [PATCH 11/97] fix: DiscreteLTISystem implements the
 DiscreteLinearSystem interface (it was abstract and could not be
 instantiated), copies keep the controller

---
 .../discrete_time/linear/DiscreteLTISystem.h  | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index 7abae2a..1702d42 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -34,6 +34,13 @@ class DiscreteLTISystem : public DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>
 public:
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 
+    typedef DiscreteLinearSystem<STATE_DIM, CONTROL_DIM> Base;
+    typedef typename Base::time_t time_t;
+    typedef typename Base::state_vector_t state_vector_t;
+    typedef typename Base::control_vector_t control_vector_t;
+    typedef typename Base::state_matrix_t state_matrix_t;
+    typedef typename Base::state_control_matrix_t state_control_matrix_t;
+
     //! Constructs a discrete linear time invariant system
     /*!
      * @param A A matrix
@@ -51,7 +58,7 @@ public:
     }
 
     //! copy constructor
-    DiscreteLTISystem(const DiscreteLTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    DiscreteLTISystem(const DiscreteLTISystem& arg) : Base(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
     //! deep clone
     DiscreteLTISystem<STATE_DIM, CONTROL_DIM>* clone() const override
     {
@@ -74,14 +81,27 @@ public:
      * @param control control input
      * @param derivative state derivative
      */
-    void propagateControlledDynamics(const Eigen::Matrix<double, STATE_DIM, 1>& state,
-        const time_t& n,
-        const Eigen::Matrix<double, CONTROL_DIM, 1>& control,
-        Eigen::Matrix<double, STATE_DIM, 1>& stateNext)
+    virtual void propagateControlledDynamics(const state_vector_t& state,
+        const time_t n,
+        const control_vector_t& control,
+        state_vector_t& stateNext) override
     {
         stateNext = A_ * state + B_ * control;
     }
 
+    //! get both linear system matrices A and B
+    virtual void getAandB(const state_vector_t& x,
+        const control_vector_t& u,
+        const state_vector_t& x_next,
+        const int n,
+        size_t subSteps,
+        state_matrix_t& A,
+        state_control_matrix_t& B) override
+    {
+        A = A_;
+        B = B_;
+    }
+
     //! computes the system output (measurement)
     /*!
      * Computes \f$ y_{n+1} = Cx_n + Du_n \f$
-- 
2.43.0


From 8f7916e39ef5f7873a068c2e977f5238459fc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:03 +0000
Subject: [PATCH 12/97] fix: copying or cloning a SystemDiscretizer
 dereferenced its own, not yet existing system and controller

---
 .../systems/discrete_time/SystemDiscretizer-impl.h   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 2aae2ae..aeb32cd 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -56,9 +56,15 @@ SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::~SystemDiscreti
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SystemDiscretizer(const SystemDiscretizer& arg)
-    : dt_(arg.dt_), K_sim_(arg.K_sim_), dt_sim_(arg.dt_sim_), integratorType_(arg.integratorType_)
-{
-    changeContinuousTimeSystem(ContinuousSystemPtr(cont_time_system_->clone()));
+    : Base(arg),
+      dt_(arg.dt_),
+      K_sim_(arg.K_sim_),
+      dt_sim_(arg.dt_sim_),
+      integratorType_(arg.integratorType_),
+      cont_constant_controller_(arg.cont_constant_controller_->clone())
+{
+    if (arg.cont_time_system_)
+        changeContinuousTimeSystem(arg.cont_time_system_);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From 04f8e0b50e4a8b6b49126a9ba727d3fb2103bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:03 +0000
Subject: [PATCH 13/97] fix: SystemDiscretizer::setIntegrationType takes effect
 (the integrator was not rebuilt)

---
 .../ct/core/systems/discrete_time/SystemDiscretizer-impl.h      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index aeb32cd..6e4b884 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -87,6 +87,8 @@ void SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::setIntegra
     const ct::core::IntegrationType& integratorType)
 {
     integratorType_ = integratorType;
+    if (cont_time_system_)
+        initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From f7e7fdd631b551b88e7082c34aca87f68bbac367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:03 +0000
Subject: [PATCH 14/97] fix: Tustin approximation uses half steps at both ends
 (as its unit test states), not two full steps

---
 .../core/integration/sensitivity/SensitivityApproximation.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index 30ae591..ca4336f 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -150,10 +150,10 @@ public:
 
                 // front derivatives
                 linearSystem_->getDerivatives(Ac_front, Bc_front, x, u, n * settings_.dt_);
-                Ac_front *= settings_.dt_;
+                Ac_front *= 0.5 * settings_.dt_;
 
                 state_matrix_t Ac_back =
-                    settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
+                    0.5 * settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
 
 
                 //! tustin approximation
-- 
2.43.0


From f7d2042f047eed8057179a280e2061317ca89de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:05 +0000
Subject: [PATCH 15/97] fix: matrix-exponential discretization of systems with
 a singular A matrix (input matrix was NaN)

---
 .../sensitivity/SensitivityApproximation.h          | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index ca4336f..b71f79c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -227,11 +227,16 @@ private:
         state_control_matrix_t Bc;
         linearSystem_->getDerivatives(Ac, Bc, x_n, u_n, n * settings_.dt_);
 
-        state_matrix_t Adt = settings_.dt_ * Ac;
-
-        A_discr.template topLeftCorner<STATE_DIM, STATE_DIM>() = Adt.exp();
+        // the exponential of [A B; 0 0] * dt contains both matrices, also if A is singular
+        typedef Eigen::Matrix<SCALAR, STATE_DIM + CONTROL_DIM, STATE_DIM + CONTROL_DIM> augmented_matrix_t;
+        augmented_matrix_t ABdt = augmented_matrix_t::Zero();
+        ABdt.template topLeftCorner<STATE_DIM, STATE_DIM>() = settings_.dt_ * Ac;
+        ABdt.template topRightCorner<STATE_DIM, CONTROL_DIM>() = settings_.dt_ * Bc;
+        const augmented_matrix_t ABexp = ABdt.exp();
+
+        A_discr.template topLeftCorner<STATE_DIM, STATE_DIM>() = ABexp.template topLeftCorner<STATE_DIM, STATE_DIM>();
         B_discr.template topLeftCorner<STATE_DIM, CONTROL_DIM>() =
-            Ac.inverse() * (A_discr - state_matrix_t::Identity()) * Bc;
+            ABexp.template topRightCorner<STATE_DIM, CONTROL_DIM>();
     }
 
 
-- 
2.43.0


From 7be65cbb9a0109aad68276e9e6885323a9583323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:05 +0000
Subject: [PATCH 16/97] fix: SensitivityIntegrator evaluates every sub-step of
 a time-varying system at its own time

---
 .../ct/core/integration/sensitivity/SensitivityIntegrator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
index d73e7fc..8a39e6c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
@@ -144,7 +144,7 @@ public:
 
         for (size_t i = 0; i < numSteps; ++i)
         {
-            stepper_->do_step(dFdxDot_, AB, k * dt_, dt_);
+            stepper_->do_step(dFdxDot_, AB, (k * numSteps + i) * dt_, dt_);
         }
 
         A = AB.template leftCols<STATE_DIM>();
@@ -196,8 +196,8 @@ public:
 
         if (!timeVarying_)
         {
-            Aconst_ = linearSystem_->getDerivativeState(x, u, n * dt_);
-            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * dt_);
+            Aconst_ = linearSystem_->getDerivativeState(x, u, n * numSteps * dt_);
+            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * numSteps * dt_);
         }
 
         integrateSensitivity(n, numSteps, A, B);
-- 
2.43.0


From 76ed5976eb8886c6fdd846ae16c48743063777d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 17/97] fix: sub-steps recorded by the symplectic integrators
 are the evaluated state and control (was: the state after the step and a
 stale control), as the sensitivity integrator needs them

---
 .../core/integration/IntegratorSymplectic-impl.h   |  6 ++++--
 .../systems/continuous_time/SymplecticSystem.h     | 14 ++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 7137914..dc8d061 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -47,10 +47,11 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     for (size_t i = 0; i < numSteps; ++i)
     {
         xCached_ = state;
+        const StateVector<POS_DIM + VEL_DIM, SCALAR> stepStartState = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
+        observer_.observeInternal(stepStartState, time);
         time += dt;
         stateTrajectory.push_back(state);
         timeTrajectory.push_back(time);
@@ -71,10 +72,11 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     for (size_t i = 0; i < numSteps; ++i)
     {
         xCached_ = state;
+        const StateVector<POS_DIM + VEL_DIM, SCALAR> stepStartState = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
+        observer_.observeInternal(stepStartState, time);
         time += dt;
     }
 }
diff --git a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
index 5233ea0..9e3e510 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
@@ -91,13 +91,12 @@ public:
         const StateVector<VEL_DIM, SCALAR>& v,
         StateVector<POS_DIM, SCALAR>& pDot)
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, 0.0, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computePdot(x, v, controlAction, pDot);
+        computePdot(x, v, this->controlAction_, pDot);
     }
 
     /**
@@ -111,13 +110,12 @@ public:
         const StateVector<POS_DIM, SCALAR>& p,
         StateVector<VEL_DIM, SCALAR>& vDot)
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, 0.0, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computeVdot(x, p, controlAction, vDot);
+        computeVdot(x, p, this->controlAction_, vDot);
     }
 
 
-- 
2.43.0


From 600cb7ccee8489af7f8fc484c018619ae82516de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 18/97] fix: MpcTimeKeeper starts its delay timer also when the
 measurement is not used for prediction (stopDelayMeasurement always stops it;
 the first policy time stamp was off by the absolute time)

---
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 0f93e6b..1e110ad 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -199,13 +199,10 @@ public:
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-        if (mpc_settings_.measureDelay_)
-        {
-            if (mpc_settings_.useExternalTiming_)
-                ext_timer_.start(externalTime);
-            else
-                timer_.start();
-        }
+        if (mpc_settings_.useExternalTiming_)
+            ext_timer_.start(externalTime);
+        else
+            timer_.start();
     }
 
 
-- 
2.43.0


From d9f5b5fe4a4cbd6b572c8bc1d0cbce90a4380430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 19/97] fix: MPC::setTimeHorizonStrategy takes effect (the time
 keeper kept using the old strategy)

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h      | 1 +
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index fabc657..711d050 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -85,6 +85,7 @@ template <typename OPTCON_SOLVER>
 void MPC<OPTCON_SOLVER>::setTimeHorizonStrategy(std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy)
 {
     timeHorizonStrategy_ = timeHorizonStrategy;
+    timeKeeper_.setTimeHorizonStrategy(timeHorizonStrategy);
 }
 
 
diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 1e110ad..9bbb57c 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -196,6 +196,12 @@ public:
 	 * 	the new settings to be handed over
 	 */
     void updateSettings(const mpc_settings& settings) { mpc_settings_ = settings; }
+    //! replace the time horizon strategy
+    void setTimeHorizonStrategy(std::shared_ptr<MpcTimeHorizon<SCALAR>> timeHorizonStrategy)
+    {
+        timeHorizonStrategy_ = timeHorizonStrategy;
+    }
+
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-- 
2.43.0


From 1583371e5382e328a4bc9e2ecbe8e9e137442d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 20/97] fix: warm-starting policy is extended at its end
 (samples were appended with the absolute time stamp dt)

---
 .../default/StateFeedbackPolicyHandler-impl.h             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
index 352d866..ecbb8c0 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
@@ -62,12 +62,12 @@ void StateFeedbackPolicyHandler<STATE_DIM, CONTROL_DIM, SCALAR>::designWarmStart
     if (Kn_new > currentSize)
     {
         //extend at back with constant value taken from last element
-        bool timeIsRelative = true;
+        const bool timeIsAbsolute = false;
         for (int i = 0; i < Kn_new - currentSize; i++)
         {
-            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsRelative);
-            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsRelative);
-            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsRelative);
+            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsAbsolute);
+            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsAbsolute);
+            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsAbsolute);
         }
     }
     else if (Kn_new < currentSize)
-- 
2.43.0


From 9a2b1e96faf201c4eba1b56143ebdc08c92f89b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:57 +0000
Subject: [PATCH 21/97] fix: default PolicyHandler::truncateSolutionFront
 reports that it truncated nothing (output was left uninitialised)

---
 .../include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
index 614f659..9b65104 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
@@ -31,6 +31,7 @@ void PolicyHandler<POLICY, STATE_DIM, CONTROL_DIM, SCALAR>::truncateSolutionFron
     POLICY& policy,
     SCALAR& effectivelyTruncated)
 {
+    effectivelyTruncated = SCALAR(0.0);
 }
 
 template <typename POLICY, size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From cf9de8d955dd5cb06aba92096bcd2b7501097a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:06 +0000
Subject: [PATCH 22/97] fix: MPC forward-integrates the state with the policy
 of the previous iteration (it used the policy already shifted for warm
 starting, hence shifted twice)

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 4 +++-
 ct_optcon/include/ct/optcon/mpc/MPC.h      | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 711d050..0811677 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -95,6 +95,7 @@ void MPC<OPTCON_SOLVER>::setInitialGuess(const Policy_t& initGuess)
     solver_.setInitialGuess(initGuess);
     policyHandler_->setPolicy(initGuess);
     currentPolicy_ = initGuess;
+    previousPolicy_ = initGuess;
 }
 
 
@@ -128,7 +129,7 @@ void MPC<OPTCON_SOLVER>::doForwardIntegration(const Scalar_t& t_forward_start,
         else
         {
             // ... or with the controller obtained from the solver (solution of last mpc-run).
-            std::shared_ptr<Policy_t> prevController(new Policy_t(currentPolicy_));
+            std::shared_ptr<Policy_t> prevController(new Policy_t(previousPolicy_));
             integrateForward(t_forward_start, t_forward_stop, x_start, prevController);
         }
     }
@@ -252,6 +253,7 @@ bool MPC<OPTCON_SOLVER>::finishIteration(const core::StateVector<STATE_DIM, Scal
 
     // update policy result
     newPolicy = currentPolicy_;
+    previousPolicy_ = currentPolicy_;
 
     // stop the delay measurement. This needs to be the last method called in finishIteration().
     timeKeeper_.stopDelayMeasurement(x_ts);
diff --git a/ct_optcon/include/ct/optcon/mpc/MPC.h b/ct_optcon/include/ct/optcon/mpc/MPC.h
index 6399a2f..ef5ebb1 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC.h
@@ -242,6 +242,9 @@ private:
     //! currently optimal policy, initial guess respectively
     Policy_t currentPolicy_;
 
+    //! policy returned by the previous iteration, the reference for the state forward integration
+    Policy_t previousPolicy_;
+
     //! time horizon strategy, e.g. receding horizon optimal control
     std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy_;
 
-- 
2.43.0


From a5c0338bb9663f5217866d2b24872923beb571c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:02 +0000
Subject: [PATCH 23/97] fix: NLOCBackendMP lost wake-ups and stale workers
 between processes

Wake-up and completion notifications were sent without holding the mutex
the waiting side checks its predicate under, so either side could sleep
forever (including in the destructor). The main thread also continued as
soon as all stages were completed, while workers might still be inside the
previous process and pick up indices of the next one with the old task, and
two consecutive processes of the same kind had the same process ID, in
which case the workers never woke up. Issue processes under the mutex,
number them, and wait until every worker has left.
---
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 134 ++++++------------
 .../include/ct/optcon/nloc/NLOCBackendMP.hpp  |  20 +--
 2 files changed, 46 insertions(+), 108 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 45f183f..030fbc6 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -46,8 +46,12 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::st
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::shutdownRoutine()
 {
-    workersActive_ = false;
-    workerTask_ = SHUTDOWN;
+    {
+        std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+        workersActive_ = false;
+        workerTask_ = SHUTDOWN;
+        processCounter_++;
+    }
     workerWakeUpCondition_.notify_all();
 
 #ifdef DEBUG_PRINT_MP
@@ -75,53 +79,24 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
 
     // local variables
     int workerTask_local = IDLE;
-    size_t uniqueProcessID = 0;
-    size_t iteration_local = this->iteration_;
-    size_t lqpCounter_local = this->lqpCounter_;
+    size_t processCounter_local = 0;
 
 
     while (workersActive_)
     {
-        workerTask_local = workerTask_.load();
-        iteration_local = this->iteration_;
-        lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-        printString("[Thread " + std::to_string(threadId) + "]: previous procId: " + std::to_string(uniqueProcessID) +
-                    ", current procId: " +
-                    std::to_string(generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local)));
-#endif
-
-
-        /*!
-         * We want to put the worker to sleep if
-         * - the workerTask_ is IDLE
-         * - or we are finished but workerTask_ is not yet reset, thus the process ID is still the same
-         * */
-        if (workerTask_local == IDLE ||
-            uniqueProcessID == generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local))
         {
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: going to sleep !");
-#endif
-
-            // sleep until the state is not IDLE any more and we have a different process ID than before
+            // sleep until the main thread has issued a process which this worker has not yet taken part in
             std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
-            while (workerTask_ == IDLE || (uniqueProcessID == generateUniqueProcessID(this->iteration_,
-                                                                  (int)workerTask_.load(), this->lqpCounter_)))
-            {
-                workerWakeUpCondition_.wait(waitLock);
-            }
-            waitLock.unlock();
+            workerWakeUpCondition_.wait(
+                waitLock, [&] { return !workersActive_ || processCounter_ != processCounter_local; });
 
+            processCounter_local = processCounter_;
             workerTask_local = workerTask_.load();
-            iteration_local = this->iteration_;
-            lqpCounter_local = this->lqpCounter_;
+        }
 
 #ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: woke up !");
+        printString("[Thread " + std::to_string(threadId) + "]: woke up !");
 #endif  // DEBUG_PRINT_MP
-        }
 
         if (!workersActive_)
         {
@@ -140,7 +115,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now busy with LINE_SEARCH !");
 #endif  // DEBUG_PRINT_MP
                 lineSearchWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, LINE_SEARCH, lqpCounter_local);
                 break;
             }
             case ROLLOUT_SHOTS:
@@ -149,7 +123,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing shot rollouts !");
 #endif  // DEBUG_PRINT_MP
                 rolloutShotWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, ROLLOUT_SHOTS, lqpCounter_local);
                 break;
             }
             case COMPUTE_LQ_PROBLEM:
@@ -158,7 +131,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing LQ approximation !");
 #endif  // DEBUG_PRINT_MP
                 computeLQProblemWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, COMPUTE_LQ_PROBLEM, lqpCounter_local);
                 break;
             }
             case SHUTDOWN:
@@ -182,6 +154,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 break;
             }
         }
+
+        // tell the main thread that this worker has left the current process
+        {
+            std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+            workersBusy_--;
+        }
+        workersDoneCondition_.notify_all();
     }
 
 #ifdef DEBUG_PRINT_MP
@@ -200,6 +179,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
 
     workersActive_ = true;
     workerTask_ = IDLE;
+    processCounter_ = 0;
+    workersBusy_ = 0;
 
     for (int i = 0; i < (int)this->settings_.nThreads; i++)
     {
@@ -208,6 +189,21 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
 }
 
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::runWorkers(WORKER_STATE task)
+{
+    std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
+    workerTask_ = task;
+    workersBusy_ = workerThreads_.size();
+    processCounter_++;
+    workerWakeUpCondition_.notify_all();
+
+    // wait until every worker has left the process, such that none of them can interfere with a subsequent one
+    workersDoneCondition_.wait(waitLock, [this] { return workersBusy_ == 0; });
+    workerTask_ = IDLE;
+}
+
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::computeLQApproximation(size_t firstIndex,
     size_t lastIndex)
@@ -241,24 +237,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 #endif  //DEBUG_PRINT_MP
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Waking up workers to do LQ approximation.");
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = COMPUTE_LQ_PROBLEM;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    printString("[MP]: Will sleep now until done with LQ approximation.");
-#endif  //DEBUG_PRINT_MP
-
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runWorkers(COMPUTE_LQ_PROBLEM);
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Woke up again, should have computed LQ approximation now.");
 #endif  //DEBUG_PRINT_MP
@@ -286,9 +271,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
                             std::to_string(KMax_) + " and KMin_ is " + std::to_string(KMin_));
 #endif
 
-            //kCompleted_++;
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -302,8 +284,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 
         if (this->generalConstraints_[threadId] != nullptr)
             this->computeLinearizedConstraints(threadId, KMax_ - k);  // linearize constraints backwards
-
-        kCompleted_++;
     }
 }
 
@@ -340,7 +320,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
@@ -348,17 +327,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers to do shot rollouts." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = ROLLOUT_SHOTS;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    std::cout << "[MP]: Will sleep now until we have rolled out all shots." << std::endl;
-#endif  //DEBUG_PRINT_MP
-
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runWorkers(ROLLOUT_SHOTS);
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have rolled out all shots now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -379,8 +348,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
         if (k > KMax_ - KMin_)
         {
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -399,8 +366,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
             this->computeSingleDefect(kShot, this->x_, this->xShot_, this->d_);
         }
-
-        kCompleted_++;
     }
 }
 
@@ -421,16 +386,7 @@ SCALAR NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = LINE_SEARCH;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    std::cout << "[MP]: Will sleep now until done line search." << std::endl;
-#endif  //DEBUG_PRINT_MP
-    std::unique_lock<std::mutex> waitLock(alphaBestFoundMutex_);
-    alphaBestFoundCondition_.wait(waitLock, [this] { return alphaBestFound_.load(); });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runWorkers(LINE_SEARCH);
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have results now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -577,22 +533,12 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         if (allPreviousAlphasProcessed)
         {
             alphaBestFound_ = true;
-            alphaBestFoundCondition_.notify_all();
         }
 
         lineSearchResultMutex_.unlock();
     }
 }
 
-template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-size_t NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::generateUniqueProcessID(
-    const size_t& iterateNo,
-    const int workerState,
-    const size_t resetCount)
-{
-    return (10e12 * (resetCount + 1) + 10e6 * (workerState + 1) + iterateNo + 1);
-}
-
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::printString(const std::string& text)
 {
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
index 8d2d405..648f288 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
@@ -97,11 +97,8 @@ private:
     //! rolls out a shot and computes the defect
     void rolloutShotWorker(size_t threadId);
 
-    /*! heuristic that generates a unique id for a process, such that we can manage the tasks.
-	 * Generates a unique identifiers for task, iteration:
-	 * @todo replace by proper hash
-	 * */
-    size_t generateUniqueProcessID(const size_t& iterateNo, const int workerState, const size_t resetCount);
+    //! let all workers take part in a task and return once every one of them has left it
+    void runWorkers(WORKER_STATE task);
 
     //! wrapper method for nice debug printing
     void printString(const std::string& text);
@@ -110,18 +107,14 @@ private:
     std::atomic_bool workersActive_;
     std::atomic_int workerTask_;
 
+    //! protects the handshake between the main thread and the workers, i.e. processCounter_ and workersBusy_
     std::mutex workerWakeUpMutex_;
     std::condition_variable workerWakeUpCondition_;
-
-    std::mutex kCompletedMutex_;
-    std::condition_variable kCompletedCondition_;
-
-    std::mutex kCompletedMutexCost_;
-    std::condition_variable kCompletedConditionCost_;
+    std::condition_variable workersDoneCondition_;
+    size_t processCounter_;  //! number of processes issued to the workers so far
+    size_t workersBusy_;     //! number of workers which have not yet left the current process
 
     std::mutex lineSearchResultMutex_;
-    std::mutex alphaBestFoundMutex_;
-    std::condition_variable alphaBestFoundCondition_;
 
     std::atomic_size_t alphaTaken_;
     size_t alphaMax_;
@@ -131,7 +124,6 @@ private:
     std::vector<size_t> alphaProcessed_;
 
     std::atomic_size_t kTaken_;
-    std::atomic_size_t kCompleted_;
 
     size_t KMax_;
     size_t KMin_;
-- 
2.43.0


From ed4233e358c4655b2c4de3e12b0f51c9d0e86311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:02 +0000
Subject: [PATCH 24/97] fix: multi-threaded line search keeps the largest
 accepted step

A worker finishing later with a smaller accepted step replaced a larger
step which had been accepted before, while larger candidates were still
being processed. The single-threaded backend takes the largest one.
---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 030fbc6..81aeb7c 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -465,8 +465,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
 
         if (stepAccepted)
         {
-            // make sure we do not alter an existing result
-            if (alphaBestFound_)
+            // make sure we do not alter an existing result, or replace a larger step which has already been accepted
+            if (alphaBestFound_ || alphaExp > alphaExpBest_)
             {
                 lineSearchResultMutex_.unlock();
                 break;
-- 
2.43.0


From abf9ba571e9c9d32ab9bd4e95935d7823bb7722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:02 +0000
Subject: [PATCH 25/97] fix: NLOCBackendMP treats an empty stage range as
 nothing to do

With K_shot equal to the horizon, multiple shooting asks for the stages
K..K-1; the unsigned difference of the bounds wrapped around and the
workers processed indices far outside of the horizon.
---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 81aeb7c..f8a5918 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -212,6 +212,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
     if (lastIndex == (static_cast<size_t>(this->K_) - 1))
         this->initializeCostToGo();
 
+    // nothing to do for an empty range, e.g. if the first shot covers the whole horizon
+    if (lastIndex < firstIndex)
+        return;
+
     /*
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
@@ -292,6 +296,10 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, type
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::rolloutShots(size_t firstIndex,
     size_t lastIndex)
 {
+    // nothing to do for an empty range, e.g. if the first shot covers the whole horizon
+    if (lastIndex < firstIndex)
+        return;
+
     /*!
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
-- 
2.43.0


From 9e287395dfef9379101c0c20cd1bf4ece26865a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:02 +0000
Subject: [PATCH 26/97] fix: a shot cannot be longer than the horizon

With K_shot larger than the number of stages (e.g. after MPC has shrunk the
horizon) the LQ approximation and the Riccati recursion of the first shot
ran past the last stage.
---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 9ec54b6..28d0518 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1661,7 +1661,7 @@ int NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::g
     if (settings_.isSingleShooting())
         return K_;
     else
-        return settings_.K_shot;
+        return std::min(K_, static_cast<int>(settings_.K_shot));
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From 74d3198a8de3b623a30149d0055cf29d1290708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:02 +0000
Subject: [PATCH 27/97] fix: keep the defects if the line search does not
 accept a step

The defects were zeroed before the line search, which records those of an
accepted step in its own buffers. Without an accepted step the trajectory
is unchanged, but its defects were reported, and used in the next LQ
problem, as zero.
---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 28d0518..6c44e25 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1049,8 +1049,6 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
                       (e_box_norm_ + e_gen_norm_) * settings_.meritFunctionRhoConstraints;
         lowestCostPrevious = lowestCost_;
 
-        resetDefects();
-
 
         if (settings_.lineSearchSettings.debugPrint)
         {
-- 
2.43.0


From 90a10cc3c53ecafee8ead3decf32c4cd189ba8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:35 +0000
Subject: [PATCH 28/97] fix: GNRiccatiSolver: set up the problem handed to the
 constructor

The solver stored the problem but never sized its containers, so solving it accessed empty arrays.
---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 8f90f0c..d45481c 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -15,6 +15,10 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 {
     Eigen::initParallel();
     Eigen::setNbThreads(settings_.nThreadsEigen);
+
+    // a problem which is handed over at construction needs the same set-up as one which is set later
+    if (lqocProblem)
+        setProblemImpl(lqocProblem);
 }
 
 
-- 
2.43.0


From ffa6a18fd0bba40bcb725c11d0bfebfd0e005fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:35 +0000
Subject: [PATCH 29/97] fix: GNRiccatiSolver: initialise the number of stages
 before comparing it

The constructor taking the number of stages compared the uninitialised member N_ with N and could skip the allocation.
---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index d45481c..e52fe96 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -23,7 +23,7 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N)
+GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N) : N_(-1)
 {
     changeNumberOfStages(N);
 }
-- 
2.43.0


From eeecd7fff80f3b649112b9b470eb3be16bcbe6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:35 +0000
Subject: [PATCH 30/97] fix: DynamicRiccatiEquation: use the self-adjoint
 eigenvalue solver

H is inverted as V D^-1 V', which requires orthonormal eigenvectors. The general eigenvalue solver does not return
orthogonal eigenvectors when the symmetric H has repeated eigenvalues, which gave wrong gains.
---
 .../ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp  | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp b/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
index d5f2de3..8eca7b7 100644
--- a/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
@@ -78,11 +78,9 @@ public:
         H_n = (H_n + H_n.transpose()).eval() / 2.0;
 
         // compute eigenvalues with eigenvectors enabled
-        eigenvalueSolver_.compute(H_n, true);
-        const control_matrix_t& V = eigenvalueSolver_.eigenvectors().real();
-        const control_vector_t& lambda = eigenvalueSolver_.eigenvalues().real();
-        assert(eigenvalueSolver_.eigenvectors().imag().norm() < 1e-7 && "Eigenvectors not real");
-        assert(eigenvalueSolver_.eigenvalues().imag().norm() < 1e-7 && "Eigenvalues is not real");
+        eigenvalueSolver_.compute(H_n, Eigen::ComputeEigenvectors);
+        const control_matrix_t& V = eigenvalueSolver_.eigenvectors();
+        const control_vector_t& lambda = eigenvalueSolver_.eigenvalues();
         // Corrected Eigenvalue Matrix
         control_matrix_t D = control_matrix_t::Zero();
         // make D positive semi-definite (as described in IV. B.)
@@ -111,7 +109,8 @@ public:
 
 private:
     SCALAR epsilon_;
-    Eigen::EigenSolver<control_matrix_t> eigenvalueSolver_;
+    //! H is symmetric: only the self-adjoint solver guarantees orthogonal eigenvectors for repeated eigenvalues
+    Eigen::SelfAdjointEigenSolver<control_matrix_t> eigenvalueSolver_;
 };
 
 
-- 
2.43.0


From 6987d38720d714c5dc9bcf89fed753858566a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:35 +0000
Subject: [PATCH 31/97] fix: FHDTLQR: linearise the model at the time of each
 trajectory point

The derivatives of a time-varying system were always evaluated at time zero.
---
 ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
index 73f626d..66f42dd 100644
--- a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
@@ -65,8 +65,9 @@ void FHDTLQR<STATE_DIM, CONTROL_DIM, SCALAR>::linearizeModel(const state_vector_
 
     for (int i = 0; i < N; i++)
     {
-        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i]);
-        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i]);
+        A[i] = state_matrix_t::Identity() +
+               dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i], i * dt);
+        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i], i * dt);
     }
 }
 
-- 
2.43.0


From ca7b4d36e6d3fda5ccd21acf8071426e4589df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:28 +0000
Subject: [PATCH 32/97] fix: multiple shooting reports an unstable rollout

A rollout which leaves the finite range was ignored by multiple shooting: the stages
behind it have no substeps, and the sensitivity integrator dereferenced null. Throw,
as single shooting does.
---
 .../ct/optcon/nloc/NLOCBackendBase.hpp        |  4 ++--
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 20 ++++++++++++-------
 .../include/ct/optcon/nloc/NLOCBackendMP.hpp  |  3 ++-
 .../ct/optcon/nloc/NLOCBackendST-impl.hpp     | 11 +++++++---
 .../include/ct/optcon/nloc/NLOCBackendST.hpp  |  2 +-
 .../nloc/algorithms/MultipleShooting-impl.hpp | 12 +++++++----
 6 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
index 7726909..2da851a 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase.hpp
@@ -356,8 +356,8 @@ public:
     //! update the nominal defects
     void computeDefectsNorm();
 
-    //! integrates the specified shots and computes the corresponding defects
-    virtual void rolloutShots(size_t firstIndex, size_t lastIndex) = 0;
+    //! integrates the specified shots and computes the corresponding defects, returns false if the system became unstable
+    virtual bool rolloutShots(size_t firstIndex, size_t lastIndex) = 0;
 
     //! do a single threaded rollout and defect computation of the shots - useful for line-search
     bool rolloutShotsSingleThreaded(size_t threadId,
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index f8a5918..e56bcaa 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -293,12 +293,14 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::rolloutShots(size_t firstIndex,
+bool NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::rolloutShots(size_t firstIndex,
     size_t lastIndex)
 {
     // nothing to do for an empty range, e.g. if the first shot covers the whole horizon
     if (lastIndex < firstIndex)
-        return;
+        return true;
+
+    rolloutsGood_ = true;
 
     /*!
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
@@ -311,11 +313,12 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
                     ". Not waking up workers.");
 #endif  //DEBUG_PRINT_MP
 
-        this->rolloutSingleShot(this->settings_.nThreads, firstIndex, this->u_ff_, this->x_, this->x_ref_lqr_,
-            this->xShot_, *this->substepsX_, *this->substepsU_);
+        if (!this->rolloutSingleShot(this->settings_.nThreads, firstIndex, this->u_ff_, this->x_, this->x_ref_lqr_,
+                this->xShot_, *this->substepsX_, *this->substepsU_))
+            rolloutsGood_ = false;
 
         this->computeSingleDefect(firstIndex, this->x_, this->xShot_, this->d_);
-        return;
+        return rolloutsGood_;
     }
 
     /*!
@@ -344,6 +347,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Restoring " + std::to_string(Eigen::nbThreads()) + " Eigen threads.");
 #endif  //DEBUG_PRINT_MP
+
+    return rolloutsGood_;
 }
 
 
@@ -369,8 +374,9 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
                             std::to_string(KMax_ - k));
 #endif
 
-            this->rolloutSingleShot(threadId, kShot, this->u_ff_, this->x_, this->x_ref_lqr_, this->xShot_,
-                *this->substepsX_, *this->substepsU_);
+            if (!this->rolloutSingleShot(threadId, kShot, this->u_ff_, this->x_, this->x_ref_lqr_, this->xShot_,
+                    *this->substepsX_, *this->substepsU_))
+                rolloutsGood_ = false;
 
             this->computeSingleDefect(kShot, this->x_, this->xShot_, this->d_);
         }
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
index 648f288..42eb2bc 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
@@ -50,7 +50,7 @@ public:
 protected:
     virtual void computeLQApproximation(size_t firstIndex, size_t lastIndex) override;
 
-    virtual void rolloutShots(size_t firstIndex, size_t lastIndex) override;
+    virtual bool rolloutShots(size_t firstIndex, size_t lastIndex) override;
 
     SCALAR performLineSearch() override;
 
@@ -124,6 +124,7 @@ private:
     std::vector<size_t> alphaProcessed_;
 
     std::atomic_size_t kTaken_;
+    std::atomic_bool rolloutsGood_;
 
     size_t KMax_;
     size_t KMin_;
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendST-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendST-impl.hpp
index 925de1a..589fda9 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendST-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendST-impl.hpp
@@ -52,17 +52,22 @@ void NLOCBackendST<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-void NLOCBackendST<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::rolloutShots(size_t firstIndex,
+bool NLOCBackendST<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::rolloutShots(size_t firstIndex,
     size_t lastIndex)
 {
+    bool dynamicsGood = true;
+
     for (size_t k = firstIndex; k <= lastIndex; k = k + this->getNumStepsPerShot())
     {
         // rollout the shot
-        this->rolloutSingleShot(this->settings_.nThreads, k, this->u_ff_, this->x_, this->x_ref_lqr_, this->xShot_,
-            *this->substepsX_, *this->substepsU_);
+        if (!this->rolloutSingleShot(this->settings_.nThreads, k, this->u_ff_, this->x_, this->x_ref_lqr_, this->xShot_,
+                *this->substepsX_, *this->substepsU_))
+            dynamicsGood = false;
 
         this->computeSingleDefect(k, this->x_, this->xShot_, this->d_);
     }
+
+    return dynamicsGood;
 }
 
 
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendST.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendST.hpp
index 37b80c7..5bc09a6 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendST.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendST.hpp
@@ -42,7 +42,7 @@ public:
 protected:
     virtual void computeLQApproximation(size_t firstIndex, size_t lastIndex) override;
 
-    virtual void rolloutShots(size_t firstIndex, size_t lastIndex) override;
+    virtual bool rolloutShots(size_t firstIndex, size_t lastIndex) override;
 
     SCALAR performLineSearch() override;
 };
diff --git a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
index 825016d..c0a23bb 100644
--- a/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/algorithms/MultipleShooting-impl.hpp
@@ -56,7 +56,8 @@ void MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     // if first iteration, compute shots and rollout and cost!
     if (this->backend_->iteration() == 0)
     {
-        this->backend_->rolloutShots(K_shot, K - 1);
+        if (!this->backend_->rolloutShots(K_shot, K - 1))
+            throw std::runtime_error("Rollout failed. System became unstable");
     }
 
     auto start = std::chrono::steady_clock::now();
@@ -100,7 +101,8 @@ bool MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     // if first iteration, compute shots and rollout and cost!
     if (this->backend_->iteration() == 0)
     {
-        this->backend_->rolloutShots(0, K_shot - 1);
+        if (!this->backend_->rolloutShots(0, K_shot - 1))
+            throw std::runtime_error("Rollout failed. System became unstable");
         this->backend_->updateCosts();
         this->backend_->computeDefectsNorm();
     }
@@ -180,7 +182,8 @@ void MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
 
     this->backend_->resetDefects();
 
-    this->backend_->rolloutShots(K_shot, K - 1);
+    if (!this->backend_->rolloutShots(K_shot, K - 1))
+        throw std::runtime_error("Rollout failed. System became unstable");
 
     auto start = std::chrono::steady_clock::now();
     this->backend_->setInputBoxConstraintsForLQOCProblem();
@@ -223,7 +226,8 @@ bool MultipleShooting<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>:
     auto startFinish = std::chrono::steady_clock::now();
 
 
-    this->backend_->rolloutShots(0, K_shot - 1);
+    if (!this->backend_->rolloutShots(0, K_shot - 1))
+        throw std::runtime_error("Rollout failed. System became unstable");
     this->backend_->updateCosts();         //! todo: replace by a simple sum after computeQuadraticCostsAround....
     this->backend_->computeDefectsNorm();  //! todo: we might not need this in MPC
 
-- 
2.43.0


From 329b6556cfb4bdb9ca2f5bf461e94168b65ba5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:21 +0000
Subject: [PATCH 33/97] fix: terminal Jacobians check that the terminal
 constraints are initialised

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 237c492..11cbe99 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -190,7 +190,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::VectorXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparseTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
@@ -211,7 +211,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::MatrixXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
-- 
2.43.0


From 2750b2abd76c1d0f18696883bb28ca539ad0bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:21 +0000
Subject: [PATCH 34/97] fix: ConstraintContainerAnalytical: use state, control
 and time given to the constructor

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 11cbe99..14f522e 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -18,6 +18,9 @@ ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::ConstraintContain
     const input_vector_t& u,
     const SCALAR& t)
 {
+    this->x_ = x;
+    this->u_ = u;
+    this->t_ = t;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From 48f629762323ac2b3f5fbaa8676b57a82de609ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:21 +0000
Subject: [PATCH 35/97] fix: default sparse constraint Jacobians are ordered
 like their sparsity pattern

---
 .../include/ct/optcon/constraint/term/ConstraintBase-impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
index 9d85769..21e5158 100644
--- a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
@@ -101,7 +101,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacState = jacobianState(x, u, t);
+    // row-wise, as the elements are ordered in the sparsity pattern
+    MatrixXs jacState = jacobianState(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacState.data(), jacState.rows() * jacState.cols()));
 
@@ -114,7 +115,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianInputSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacInput = jacobianInput(x, u, t);
+    // row-wise, as the elements are ordered in the sparsity pattern
+    MatrixXs jacInput = jacobianInput(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacInput.data(), jacInput.rows() * jacInput.cols()));
     return jac;
-- 
2.43.0


From 254a7bb5b34501bd3993fbea4fcd03fb3a884f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:21 +0000
Subject: [PATCH 36/97] fix: SwitchedLinearConstraintContainer: evaluate
 terminal constraints at the current state

---
 .../optcon/constraint/SwitchedLinearConstraintContainer-impl.h  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 992e6c3..67d11af 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -221,6 +221,8 @@ void SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::update()
 
     this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
     this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
+
+    terminalLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
 }
 
 }  // namespace optcon
-- 
2.43.0


From 4e449b083703d5a4604f82a6d75b4c2e7ad706b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:21 +0000
Subject: [PATCH 37/97] fix: SwitchedLinearConstraintContainer: a copy keeps
 the active mode

---
 .../constraint/SwitchedLinearConstraintContainer-impl.h     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 67d11af..8cdd666 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -32,7 +32,13 @@ SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::SwitchedLinea
         switchedLinearConstraintContainers_.emplace_back(linearConstraintContainer->clone());
     }
 
+    // the clone of the container which is active in the original
     activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.front();
+    for (size_t i = 0; i < switchedLinearConstraintContainers_.size(); i++)
+    {
+        if (arg.switchedLinearConstraintContainers_[i] == arg.activeLinearConstraintContainer_)
+            activeLinearConstraintContainer_ = switchedLinearConstraintContainers_[i];
+    }
     terminalLinearConstraintContainer_ =
         switchedLinearConstraintContainers_.at(continuousModeSequence_.getFinalPhase());
 }
-- 
2.43.0


From 6c6571add631208e5c9f9f25ea044d0989b4ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:21 +0000
Subject: [PATCH 38/97] fix: SwitchedLinearConstraintContainer: intermediate
 bounds are available after initialize()

---
 .../optcon/constraint/SwitchedLinearConstraintContainer-impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 8cdd666..ea01491 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -206,6 +206,9 @@ bool SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::initiali
             return false;
         }
     }
+
+    this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
+    this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
     return true;
 }
 
-- 
2.43.0


From 2626eb751dea099e8dfc01a5977598ddc56426ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:45 +0000
Subject: [PATCH 39/97] fix: CostFunctionQuadratic: apply the time activation
 once

TermBase::eval() already scales the term by its activation, evaluateIntermediateBase() scaled it a second time, so that
value and derivatives of the cost disagreed.
---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 3b79d02..9c2be86 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -317,7 +317,7 @@ SCALAR CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::evaluateIntermedia
         {
             continue;
         }
-        y += it->computeActivation(this->t_) * it->eval(this->x_, this->u_, this->t_);
+        y += it->eval(this->x_, this->u_, this->t_);
     }
 
     return y;
-- 
2.43.0


From 8630e06c1166922897a47acd8b68b9a3eca5ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:45 +0000
Subject: [PATCH 40/97] fix: CostFunctionQuadratic: numerical derivatives at,
 and leaving, the current point

With a time shift, the perturbed points were evaluated at a time shifted twice, and the cost function was left at the
last perturbed point. CostFunctionQuadraticSimple ignored the time shift.
---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp   | 6 ++++++
 .../costfunction/CostFunctionQuadraticSimple-impl.hpp       | 4 +---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 9c2be86..cab1096 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -179,6 +179,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    t_local -= this->t_shift_;  // gets added again when setting the perturbed point
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < STATE_DIM; ++i)
@@ -214,6 +215,8 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
         }
     }
 
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
+
     return dFdx;
 }
 
@@ -226,6 +229,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    t_local -= this->t_shift_;  // gets added again when setting the perturbed point
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < CONTROL_DIM; ++i)
@@ -262,6 +266,8 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
         }
     }
 
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
+
     return dFdu;
 }
 
diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index d85f5d0..ba8ff22 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -66,9 +66,7 @@ void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStat
     const control_vector_t& u,
     const SCALAR& t)
 {
-    this->x_ = x;
-    this->u_ = u;
-    this->t_ = t;
+    CostFunction<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStateAndControl(x, u, t);
 
     this->x_deviation_ = x - x_nominal_;
     this->u_deviation_ = u - u_nominal_;
-- 
2.43.0


From ecbd39083cc4d9c319b08e3e8e029b3ade5736b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:45 +0000
Subject: [PATCH 41/97] fix: CostFunctionQuadraticSimple: a copy keeps the
 current state, control and time

---
 .../optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index ba8ff22..16ac7af 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -42,7 +42,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::~CostFunctionQuadra
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadraticSimple(
     const CostFunctionQuadraticSimple& arg)
-    : x_deviation_(arg.x_deviation_),
+    : CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>(arg),
+      x_deviation_(arg.x_deviation_),
       x_nominal_(arg.x_nominal_),
       Q_(arg.Q_),
       u_deviation_(arg.u_deviation_),
-- 
2.43.0


From dc473eb5cd80fc894cd548aa10b042b9e94142b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 42/97] fix: CostFunctionQuadraticSimple: reference updates
 take effect

A new reference state was not used before the next call of setCurrentStateAndControl(), a new reference control never.
---
 .../CostFunctionQuadraticSimple-impl.hpp             | 12 ++++++++++--
 .../costfunction/CostFunctionQuadraticSimple.hpp     |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index 16ac7af..82b0e56 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -30,8 +30,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadrat
     const state_matrix_t& Q_final)
     : x_nominal_(x_nominal), Q_(Q), u_nominal_(u_nominal), R_(R), x_final_(x_final), Q_final_(Q_final)
 {
-    x_deviation_.setZero();
-    u_deviation_.setZero();
+    x_deviation_ = this->x_ - x_nominal_;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
@@ -142,6 +142,14 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceState(const state_vector_t& x_ref)
 {
     x_nominal_ = x_ref;
+    x_deviation_ = this->x_ - x_nominal_;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
+void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceControl(const control_vector_t& u_ref)
+{
+    u_nominal_ = u_ref;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
index 2b472d2..6c2f629 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
@@ -86,6 +86,8 @@ public:
 
     virtual void updateReferenceState(const state_vector_t& x_ref) override;
 
+    virtual void updateReferenceControl(const control_vector_t& u_ref) override;
+
     virtual void updateFinalState(const state_vector_t& x_final) override;
 
 protected:
-- 
2.43.0


From 436265fce8f7e29bdfac5c83a02ae4749c944c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 43/97] fix: cost terms with a reference follow reference
 updates

TermMixed ignored updates of the reference control, TermQuadMult and TermSmoothAbs those of both references.
---
 .../optcon/costfunction/term/TermMixed-impl.hpp   |  7 +++++++
 .../ct/optcon/costfunction/term/TermMixed.hpp     |  2 ++
 .../costfunction/term/TermQuadMult-impl.hpp       | 14 ++++++++++++++
 .../ct/optcon/costfunction/term/TermQuadMult.hpp  |  4 ++++
 .../costfunction/term/TermSmoothAbs-impl.hpp      | 15 +++++++++++++++
 .../ct/optcon/costfunction/term/TermSmoothAbs.hpp |  4 ++++
 6 files changed, 46 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 8d1df09..660aca5 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -167,5 +167,12 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceStat
 {
     x_ref_ = newRefState;
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
index d9b3bd5..aeb7203 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
@@ -85,6 +85,8 @@ public:
 
     void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
 
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
index 21f347f..607a5f8 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
@@ -185,5 +185,19 @@ void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(c
     }
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
index b884402..2dd6a2f 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
@@ -85,6 +85,10 @@ public:
 
     void loadConfigFile(const std::string& filename, const std::string& termName, bool verbose = false) override;
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 
 protected:
     template <typename SC>
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
index a78b9e6..4aaf5ac 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
@@ -158,5 +158,20 @@ void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
         std::cout << "\nRead alpha^2 as " << alphaSquared_ << std::endl;
     }
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
index c938096..be6bb5e 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
@@ -80,6 +80,10 @@ public:
         const std::string& termName,
         bool verbose = false) override;  // virtual function for data loading
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
-- 
2.43.0


From 926cdf232ca8b18ec52da0792a227322ff87f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 44/97] fix: TermLinear: the default constructor initialises
 the coefficients

A linear term loaded from file had a random constant offset.
---
 .../include/ct/optcon/costfunction/term/TermLinear-impl.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
index dfd971d..773a498 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
@@ -31,6 +31,9 @@ TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::clone() const
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear()
+    : a_(core::StateVector<STATE_DIM, SCALAR_EVAL>::Zero()),
+      b_(core::ControlVector<CONTROL_DIM, SCALAR_EVAL>::Zero()),
+      c_(SCALAR_EVAL(0.0))
 {
 }
 
-- 
2.43.0


From 0c9c968ff7cdc12e0d0b3e6dc5d98738316fadbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 45/97] fix: quadratic and mixed cost terms take their name
 from the configuration file

---
 .../include/ct/optcon/costfunction/term/TermMixed-impl.hpp      | 2 +-
 .../include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 660aca5..5930b32 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -148,7 +148,7 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(cons
     } catch (...)
     {
     }
-    this->name_ = pt.get<std::string>(termName + ".name.", termName);
+    this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "P", P_, termName);
     loadMatrixCF(filename, "x_des", x_ref_, termName);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
index 827d088..582db55 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
@@ -203,7 +203,7 @@ void TermQuadratic<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
     } catch (...)
     {
     }
-    this->name_ = pt.get<std::string>(termName + ".name.", termName);
+    this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "Q", Q_, termName);
     loadMatrixCF(filename, "R", R_, termName);
-- 
2.43.0


From 7b7ac68f4f6f5a2ed06ec16c4b7439cb7f458a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 46/97] fix: TermBase: do not dereference an unsupported time
 activation

---
 ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
index aa9f83b..da98679 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
@@ -160,13 +160,13 @@ void TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadTimeActivation(c
         boost::algorithm::to_lower(activationKind);
         std::shared_ptr<ct::core::tpl::ActivationBase<SCALAR_EVAL>> c_i;
         CT_LOADABLE_ACTIVATIONS(SCALAR_EVAL);
-        c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
         if (!c_i)
         {
             throw std::runtime_error("Activation type \"" + activationKind + "\" not supported");
         }
         else
         {
+            c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
             c_i_ = c_i;
             if (verbose)
                 c_i_->printInfo();
-- 
2.43.0


From 7855ed9cf9c06bc3607e5fb622658603723ad85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 47/97] fix: RBFGaussActivation: the constructor sets up a bell
 curve

The sign of the exponent differed from the one after loading from file, the activation grew without bound.
---
 ct_core/include/ct/core/common/activations/RBFGaussActivation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
index b5a6e35..6c0e238 100644
--- a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
+++ b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
@@ -18,7 +18,7 @@ public:
     RBFGaussActivation() {}
     RBFGaussActivation(const SCALAR mu, const SCALAR sigma) : mu_(mu), sigma_(sigma)
     {
-        sigma2inv_ = SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
+        sigma2inv_ = -SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
         factor_ = SCALAR(1.0) / sqrt(SCALAR(2.0) * M_PI * sigma_ * sigma_);
     }
     virtual ~RBFGaussActivation() {}
-- 
2.43.0


From 0529bed4e97ecafbf0db4333078f3f131031cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 48/97] fix: PeriodicActivation: the constructor initialises
 the end time

---
 .../include/ct/core/common/activations/PeriodicActivation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
index 1157cce..7ad4100 100644
--- a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <cmath>
+#include <limits>
 
 #include "../activations/ActivationBase.hpp"
 #include <ct/core/internal/traits/TraitSelectorSpecs.h>
@@ -22,7 +23,8 @@ public:
         : active_percentage_(active_percentage),
           period_(period),
           activation_offset_(activation_offset),
-          period_offset_(period_offset)
+          period_offset_(period_offset),
+          t_end_(std::numeric_limits<double>::max())
     {
     }
     virtual ~PeriodicActivation() {}
-- 
2.43.0


From 5afa5a111f718fd59c9d52e0ad8b23b282698a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 49/97] fix: BarrierActivation: bounds loaded from file are
 active

---
 .../include/ct/core/common/activations/BarrierActivation.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
index ddd2e60..8c05150 100644
--- a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
@@ -58,6 +58,7 @@ public:
         {
             // if there is no or a wrongly specified upper bound
             ub_ = pt.get<SCALAR>(termName + ".upper_bound");
+            ub_active_ = true;
         } catch (std::exception& e)
         {
             // we set the upper bound inactive
@@ -69,6 +70,7 @@ public:
         {
             // if there is no or a wrongly specified lower bound
             lb_ = pt.get<SCALAR>(termName + ".lower_bound");
+            lb_active_ = true;
         } catch (std::exception& e)
         {
             // we set the lower bound inactive
-- 
2.43.0


From b079a43d1ce44e67f489770b9a0e99a4c628864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:24 +0000
Subject: [PATCH 50/97] fix: OptVectorDms: interpolate the initial guess

The interpolation factor was an integer division, so every node but the last got x0.
---
 .../ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
index 39ce2d7..69181be 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
@@ -110,7 +110,7 @@ void OptVectorDms<STATE_DIM, CONTROL_DIM, SCALAR>::setInitGuess(const state_vect
                 break;
             }
             case 1:
-                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (i / (numPairs_ - 1));
+                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (SCALAR(i) / SCALAR(numPairs_ - 1));
                 break;
         }
         this->xInit_.segment(q_index, CONTROL_DIM) = u0;
-- 
2.43.0


From 6934e4799251a601892b4555a490880adad2462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:24 +0000
Subject: [PATCH 51/97] fix: ConstraintDiscretizer: count the input Jacobian
 entries of general constraints

They are evaluated and enumerated in the sparsity pattern but were not counted, so the buffers were overrun.
---
 .../ct/optcon/dms/constraints/ConstraintDiscretizer.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index 04940e9..e801f02 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -110,8 +110,10 @@ public:
         discreteLowerBound_.resize(constraintsCount_);
         discreteUpperBound_.resize(constraintsCount_);
 
-        nonZeroJacCountIntermediate_ += (N_ + 1) * generalConstraints->getJacobianStateNonZeroCountIntermediate();
-        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal();
+        nonZeroJacCountIntermediate_ += (N_ + 1) * (generalConstraints->getJacobianStateNonZeroCountIntermediate() +
+                                                       generalConstraints->getJacobianInputNonZeroCountIntermediate());
+        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal() +
+                                    generalConstraints->getJacobianInputNonZeroCountTerminal();
         nonZeroJacCount_ = nonZeroJacCountIntermediate_ + nonZeroJacCountTerminal_;
 
         discreteJac_.resize(nonZeroJacCount_);
-- 
2.43.0


From 71720494b7294c5022b2f86cab5f34a370a5b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:24 +0000
Subject: [PATCH 52/97] fix: ConstraintDiscretizer: take the control at a node
 from the optimization vector

There is no shot starting at the last node: with piecewise linear controls, evaluating the spline there read past the
end of the time grid and of the spline nodes.
---
 .../include/ct/optcon/dms/constraints/ConstraintDiscretizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index e801f02..f859bd9 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -132,7 +132,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 constraintSize = constraint->getIntermediateConstraintsCount();
                 if (constraintSize > 0)
                 {
@@ -167,7 +167,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 jacSize = constraint->getJacobianStateNonZeroCountIntermediate();
                 if (jacSize > 0)
                 {
-- 
2.43.0


From fbe2c4a03d5e3206d22f877e62f85f7f943d8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:24 +0000
Subject: [PATCH 53/97] fix: CostEvaluatorSimple: weight of the last node with
 piecewise linear controls

It was computed from the duration of shot N, which does not exist (read past the end of the time grid).
---
 .../ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 7bd7a0a..2bb149b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -141,7 +141,7 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updatePhi()
             for (size_t i = 1; i < settings_.N_; i++)
                 phi_(i) = SCALAR(0.5) * (timeGrid_->getShotEndTime(i) - timeGrid_->getShotStartTime(i - 1));
 
-            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_));
+            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_ - 1));
             break;
         }
         default:
-- 
2.43.0


From 63dc87373fdab49bc5c0b5a52eb419873be01e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:24 +0000
Subject: [PATCH 54/97] fix: DmsProblem: changeInitialState() updates the
 initial state constraint

Only the optimization vector was changed, the problem kept being solved for the initial state it was constructed with.
---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 2fbf7d1..95a9610 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -256,7 +256,8 @@ public:
 	 */
     void changeInitialState(const state_vector_t& x0)
     {
-        // constraints_->changeInitialConstraint(x0);
+        std::static_pointer_cast<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(this->constraints_)
+            ->changeInitialConstraint(x0);
         optVariablesDms_->changeInitialState(x0);
     }
 
-- 
2.43.0


From b83152892c3977e1ee87ebc87964d69666014df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:42 +0000
Subject: [PATCH 55/97] fix: DmsProblem: changeTimeHorizon() takes effect on
 the shots and the cost

The time grid was changed, but the shots were still integrated from their old start times over their old durations,
and the simple cost evaluator kept weighting the nodes with the old shot durations.
---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h    | 8 +++++++-
 ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h | 9 +++++++++
 .../dms/dms_core/cost_evaluator/CostEvaluatorSimple.h    | 4 ++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 95a9610..dfb355f 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -248,7 +248,13 @@ public:
 	 *
 	 * @param[in]  tf    The new time horizon
 	 */
-    void changeTimeHorizon(const SCALAR tf) { timeGrid_->changeTimeHorizon(tf); }
+    void changeTimeHorizon(const SCALAR tf)
+    {
+        timeGrid_->changeTimeHorizon(tf);
+        for (auto shotContainer : shotContainers_)
+            shotContainer->updateTimeGrid();
+    }
+
     /**
 	 * @brief      Updates the initial state
 	 *
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index b9fceb6..6391ae6 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -201,6 +201,15 @@ public:
         }
     }
 
+    /**
+	 * @brief      Adapts the start time and the number of integration steps to a changed time grid
+	 */
+    void updateTimeGrid()
+    {
+        tStart_ = timeGrid_->getShotStartTime(shotNr_);
+        nSteps_ = timeGrid_->getShotDuration(shotNr_) / settings_.dt_sim_ + 0.5;
+    }
+
     void reset()
     {
         integratorCT_->clearStates();
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 2bb149b..80dcf95 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -84,7 +84,7 @@ private:
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
 {
-    // updatePhi();
+    updatePhi();
     SCALAR cost = SCALAR(0.0);
 
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
@@ -105,7 +105,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t grad_length,
     Eigen::Map<Eigen::Matrix<SCALAR, Eigen::Dynamic, 1>>& grad)
 {
-    // updatePhi();
+    updatePhi();
     grad.setZero();
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
     {
-- 
2.43.0


From bb19dca7d8dd7383ba92b34a0445ae5a7f40a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:42 +0000
Subject: [PATCH 56/97] fix: DMS cost evaluators: evaluate the terminal cost at
 the final time

It was evaluated at time zero, which is wrong for terminal cost terms that depend on time.
---
 ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h    | 4 ++++
 .../optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h  | 6 ++++--
 .../dms/dms_core/cost_evaluator/CostEvaluatorSimple.h       | 6 ++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index 6391ae6..9a155fe 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -223,6 +223,10 @@ public:
 	 * @return     The integrated state
 	 */
     const state_vector_t& getStateIntegrated() { return stateSubsteps_.back(); }
+    /**
+	 * @brief      Returns the end time of the shot
+	 */
+    const SCALAR getShotEndTime() const { return timeGrid_->getShotEndTime(shotNr_); }
     /**
 	 * @brief      Returns the end time of the integration	
 	 *
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
index 782ff57..a9f3107 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
@@ -80,7 +80,8 @@ public:
         for (auto shotContainer : shotContainers_)
             cost += shotContainer->getCostIntegrated();
 
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(
+            w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), shotContainers_.back()->getShotEndTime());
         cost += costFct_->evaluateTerminal();
         return cost;
     }
@@ -134,7 +135,8 @@ public:
         }
 
         /* gradient of terminal cost */
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(
+            w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), shotContainers_.back()->getShotEndTime());
         grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) +=
             costFct_->stateDerivativeTerminal();  // * dXdSi.back();
     }
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 80dcf95..4c785c4 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -94,7 +94,8 @@ SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
         cost += phi_(i) * costFct_->evaluateIntermediate();
     }
 
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(
+        w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), timeGrid_->getShotStartTime(settings_.N_));
     cost += costFct_->evaluateTerminal();
     assert(cost == cost);
     return cost;
@@ -116,7 +117,8 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t gr
     }
 
     /* gradient of terminal cost */
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(
+        w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), timeGrid_->getShotStartTime(settings_.N_));
     grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) += costFct_->stateDerivativeTerminal();
 }
 
-- 
2.43.0


From 539a598ad3da98074870236d1297462be05b6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:58 +0000
Subject: [PATCH 57/97] fix: ExtendedKalmanFilter: predict the measurement at
 the time of the update

The derivatives of the measurement model were taken at time t, but its value at time zero: with a time dependent
measurement model the innovation was wrong.
---
 ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index 743c12b..d99261c 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -64,7 +64,7 @@ auto ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(co
         P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + dHdw * (R_)*dHdw.transpose()).inverse();
 
     // STEP 3 - state estimate correction
-    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_));
+    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_, t));
 
     // STEP 4 - covariance matrix correction
     P_ -= (K * dHdx * P_).eval();
-- 
2.43.0


From 54ae9e940d1062a49484fe9f02e5387dd1b0c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 58/97] fix: SteadyStateKalmanFilter: hand the time step to the
 system model

The system model interface takes the time step and the time; the filter could not be instantiated.
---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index a0d1c6c..3a82558 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -38,8 +38,8 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predic
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
-    A_ = this->f_->computeDerivativeState(this->x_est_, u, t);
-    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, t);
+    A_ = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
+    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
     return this->x_est_;
 }
 
-- 
2.43.0


From 1dcbf4c398293032cf3b21878c1c1996c220cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 59/97] fix: SteadyStateKalmanFilter: correct the estimate with
 the filter gain

The feedback gain of the dual Riccati equation is the gain of the one-step predictor, A P C' S^-1. It was applied to
the estimate predict() had already propagated; for an unstable system the estimate diverged.
---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index 3a82558..d54dca1 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -61,7 +61,11 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update
         throw;
     }
 
-    this->x_est_ -= K.transpose() * (y - this->h_->computeMeasurement(this->x_est_, t));
+    // the gain of the Riccati solver also maps the estimate to the next time step, which predict() does already
+    const Eigen::Matrix<SCALAR, STATE_DIM, OUTPUT_DIM> L =
+        P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + R_).inverse();
+
+    this->x_est_ += L * (y - this->h_->computeMeasurement(this->x_est_, t));
     return this->x_est_;
 }
 
-- 
2.43.0


From 10cd1a25b683211d1c875bb0a8b02f9ebace1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 60/97] fix: UnscentedKalmanFilter: compute the sigma point
 weights on construction

Weights and spread of the sigma points were never computed, predict() and update() worked with uninitialised values.
---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 2e5dfb5..b2284f1 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -62,6 +62,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
     const ct::core::StateMatrix<STATE_DIM, SCALAR>& P0)
     : Base(f, h, x0), alpha_(alpha), beta_(beta), kappa_(kappa), P_(P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
@@ -75,6 +76,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
       kappa_(ukf_settings.kappa),
       P_(ukf_settings.P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
-- 
2.43.0


From 60cb30bfa29234c5d0a9540dfa770fcf06127432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 61/97] fix: UnscentedKalmanFilter: the predicted measurement
 has the dimension of the output

It was returned as a state vector, so that the filter could only be used with as many outputs as states.
---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 +-
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index b2284f1..c7d8903 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -266,7 +266,7 @@ void UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computeS
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
 template <size_t DIM>
 auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computePredictionFromSigmaPoints(
-    const SigmaPoints<DIM>& sigmaPoints) -> state_vector_t
+    const SigmaPoints<DIM>& sigmaPoints) -> Eigen::Matrix<SCALAR, DIM, 1>
 {
     // Use efficient matrix x vector computation
     return sigmaPoints * sigmaWeights_m_;
diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
index bffac4c..05f525d 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
@@ -149,7 +149,7 @@ public:
 
     //! Make a prediction based on sigma points.
     template <size_t DIM>
-    state_vector_t computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
+    Eigen::Matrix<SCALAR, DIM, 1> computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
 
 private:
     state_matrix_t P_;                                          //! Covariance matrix.
-- 
2.43.0


From ff078bcf3c381d3d9f14a63005e5d249098aa64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 62/97] fix: UnscentedKalmanFilterSettings: load alpha, beta
 and kappa as numbers

They were read as booleans.
---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 596b149..26247e2 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -213,9 +213,9 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         ct::core::loadMatrix(filename, "x0", x0, ns);
-        alpha = pt.get<bool>(ns + ".alpha");
-        beta = pt.get<bool>(ns + ".beta");
-        kappa = pt.get<bool>(ns + ".kappa");
+        alpha = pt.get<SCALAR>(ns + ".alpha");
+        beta = pt.get<SCALAR>(ns + ".beta");
+        kappa = pt.get<SCALAR>(ns + ".kappa");
         ct::core::loadMatrix(filename, "P0", P0, ns);
 
         if (verbose)
-- 
2.43.0


From 545fa148df0c7d1215f0784cd7b8d50dfac1a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 63/97] fix: CTSystemModel: linearise at the time of the
 prediction

The step index was truncated: for t = 0.3 and dt = 0.1 the system was linearised at t = 0.2.
---
 ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
index d566c98..f0b69fd 100644
--- a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
@@ -51,7 +51,7 @@ auto CTSystemModel<STATE_DIM, CONTROL_DIM, SCALAR>::computeDerivativeState(const
 
     sensApprox_->setTimeDiscretization(dt);
 
-    sensApprox_->getAandB(state, u, state, int(t / dt), 1, A, Btemp);
+    sensApprox_->getAandB(state, u, state, int(t / dt + 0.5), 1, A, Btemp);
     return A;
 }
 
-- 
2.43.0


From 308cef552861baedd79d9cd5dc6b6e7ad93854ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 64/97] fix: InputDisturbedSystem: copy the base of the copied
 system

The copy constructor copied the base class from itself, before its construction.
---
 ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
index c73e369..605225d 100644
--- a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
@@ -18,7 +18,7 @@ InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(const InputDisturbedSystem& other)
-    : Base(*this), system_(other.system_->clone())
+    : Base(other), system_(other.system_->clone())
 {
 }
 
-- 
2.43.0


From be8d1670c29a7a42d384ee1113a903419dbf9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 65/97] fix: DisturbedSystemController: can be copied without a
 nominal controller

The copy constructor dereferenced a null pointer.
---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index c4b6c1d..6a3fdd1 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -18,7 +18,7 @@ DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSy
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
 DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSystemController(
     const DisturbedSystemController& other)
-    : controller_(other.controller_->clone())
+    : controller_(other.controller_ ? other.controller_->clone() : nullptr)
 {
 }
 
-- 
2.43.0


From aa20b2603a4f88a8ac855ee4989d8d3b53bb8d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 66/97] fix: DisturbedSystem: a controller can be set after
 default construction

setController() dereferenced a null pointer.
---
 ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
index 720a3da..f098b97 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
@@ -10,7 +10,7 @@ namespace optcon {
 
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
 DisturbedSystem<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSystem()
-    : ct::core::ControlledSystem<AUGMENTED_DIM, CONTROL_DIM, SCALAR>(ct::core::SYSTEM_TYPE::GENERAL)
+    : DisturbedSystem(std::shared_ptr<ct::core::Controller<STATE_DIM, CONTROL_DIM, SCALAR>>())
 {
 }
 
-- 
2.43.0


From ce3c9fd2bea6ed076d6930c23c48236376925329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 67/97] fix: UnscentedKalmanFilterSettings: load the matrices
 from the namespace of the scalars

alpha was looked up as "ns.alpha" but P0 as "nsP0": no namespace could provide both, and missing matrices are zero.
---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 26247e2..2e2ad97 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -212,11 +212,11 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
 
-        ct::core::loadMatrix(filename, "x0", x0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, ns + ".");
         alpha = pt.get<SCALAR>(ns + ".alpha");
         beta = pt.get<SCALAR>(ns + ".beta");
         kappa = pt.get<SCALAR>(ns + ".kappa");
-        ct::core::loadMatrix(filename, "P0", P0, ns);
+        ct::core::loadMatrix(filename, "P0", P0, ns + ".");
 
         if (verbose)
         {
-- 
2.43.0


From 50b9e31efe5d3519160fb9561babfc133edf225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 68/97] fix: JointState: make the comparison operators usable

---
 ct_rbd/include/ct/rbd/state/JointState.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/state/JointState.h b/ct_rbd/include/ct/rbd/state/JointState.h
index 2beb6e4..38929b6 100644
--- a/ct_rbd/include/ct/rbd/state/JointState.h
+++ b/ct_rbd/include/ct/rbd/state/JointState.h
@@ -59,12 +59,12 @@ public:
 
     inline bool operator<(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() < rhs.array()).isConstant(1);
+        return (state_.array() < rhs.state_.array()).all();
     }
 
     inline bool operator>(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() > rhs.array()).isConstant(1);
+        return (state_.array() > rhs.state_.array()).all();
     }
 
     bool isApprox(const JointState<NJOINTS, SCALAR>& rhs, const SCALAR& tol = 1e-10)
-- 
2.43.0


From 01b9bfc139dd6a5de40a128540f8dbfac47480a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 69/97] fix: SecondOrderActuatorDynamics: make the constructors
 with one entry per joint usable

---
 .../robot/actuator/SecondOrderActuatorDynamics-impl.h    | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
index 3a02d0b..afeb66a 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
@@ -27,10 +27,9 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n or zeta is not correct size");
 
-    oscillators_.resize(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] =
-            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i]));
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i])));
 }
 
 template <size_t NJOINTS, typename SCALAR>
@@ -41,9 +40,9 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS) || (g_dc.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n, zeta or g_dc is not correct size");
 
-    oscillators_.resize(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] = ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]);
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]));
 }
 
 template <size_t NJOINTS, typename SCALAR>
-- 
2.43.0


From a0236fcec10142ab91a6b3a632252e0f62677882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 70/97] fix: SecondOrderActuatorDynamics: unit amplification is
 a DC gain of one

---
 .../ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
index afeb66a..f7e9038 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
@@ -10,7 +10,7 @@ namespace rbd {
 
 template <size_t NJOINTS, typename SCALAR>
 SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(double w_n, double zeta)
-    : oscillators_(NJOINTS, ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n, (SCALAR)zeta, (SCALAR)(w_n * w_n)))
+    : oscillators_(NJOINTS, ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n, (SCALAR)zeta, SCALAR(1.0)))
 {
 }
 
@@ -29,7 +29,7 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
 
     for (size_t i = 0; i < NJOINTS; i++)
         oscillators_.push_back(
-            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i])));
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], SCALAR(1.0)));
 }
 
 template <size_t NJOINTS, typename SCALAR>
-- 
2.43.0


From 51a7c07b8663ef9f5958fe231c9a1391833b11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 71/97] fix: JointPositionPIDController: setting the gains
 keeps time step, anti-windup and saturation limits

---
 .../robot/control/JointPositionPIDController-impl.h    | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h b/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
index 7dbd3dc..eb5cb3a 100644
--- a/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
@@ -80,14 +80,12 @@ void JointPositionPIDController<NJOINTS>::setDesiredPosition(double desiredPosit
 template <size_t NJOINTS>
 void JointPositionPIDController<NJOINTS>::setAllPIDGains(double kp, double ki, double kd)
 {
-    PIDController::parameters_t parameters;
-    parameters.k_p = kp;
-    parameters.k_i = ki;
-    parameters.k_d = kd;
-
     for (size_t i = 0; i < NJOINTS; i++)
     {
-        jointControllers_[i].changeParameters(parameters);
+        PIDController::parameters_t& parameters = jointControllers_[i].Parameters();
+        parameters.k_p = kp;
+        parameters.k_i = ki;
+        parameters.k_d = kd;
     }
 }
 
-- 
2.43.0


From f5b6d13a68a60bf7db6052174a7b4f89eb0f63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:32 +0000
Subject: [PATCH 72/97] fix: DerivativesNumDiff: size the jacobian of a
 function with dynamic dimensions

---
 ct_core/include/ct/core/math/DerivativesNumDiff.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_core/include/ct/core/math/DerivativesNumDiff.h b/ct_core/include/ct/core/math/DerivativesNumDiff.h
index a20eee3..6230f9a 100644
--- a/ct_core/include/ct/core/math/DerivativesNumDiff.h
+++ b/ct_core/include/ct/core/math/DerivativesNumDiff.h
@@ -90,6 +90,9 @@ public:
             // get evaluation of f(x,u)
             OUT_TYPE y_perturbed = f_(x_perturbed);
 
+            if (i == 0)
+                jac.resize(y_perturbed.rows(), x.rows());
+
             if (doubleSidedDerivative_)
             {
                 volatile double x_mh = x(i) - h;
-- 
2.43.0


From f7d65ac95baa06eb838ee7efbc1beb7c290c3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:32 +0000
Subject: [PATCH 73/97] fix: DerivativesCppad: the sparse jacobian and hessian
 return the indices of their values

---
 ct_core/include/ct/core/math/DerivativesCppad.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ct_core/include/ct/core/math/DerivativesCppad.h b/ct_core/include/ct/core/math/DerivativesCppad.h
index cbdffd0..80dcd75 100644
--- a/ct_core/include/ct/core/math/DerivativesCppad.h
+++ b/ct_core/include/ct/core/math/DerivativesCppad.h
@@ -122,6 +122,7 @@ public:
             throw std::runtime_error("Outdim dim smaller 0; Define output dim in DerivativesCppad constructor");
 
         jac = adCppadFun_.SparseJacobian(x);
+        rowMajorIndices(outputDim_, inputDim_, iRow, jCol);
     }
 
     virtual Eigen::VectorXd sparseJacobianValues(const Eigen::VectorXd& x)
@@ -154,6 +155,7 @@ public:
             throw std::runtime_error("Outdim dim smaller 0; Define output dim in DerivativesCppad constructor");
 
         hes = adCppadFun_.SparseHessian(x, lambda);
+        rowMajorIndices(inputDim_, inputDim_, iRow, jCol);
     }
 
 
@@ -166,6 +168,20 @@ public:
     }
 
 private:
+    /**
+     * @brief      Row and column indices of the entries of a matrix stored in row-major order
+     */
+    static void rowMajorIndices(int rows, int cols, Eigen::VectorXi& iRow, Eigen::VectorXi& jCol)
+    {
+        iRow.resize(rows * cols);
+        jCol.resize(rows * cols);
+        for (int i = 0; i < rows * cols; i++)
+        {
+            iRow(i) = i / cols;
+            jCol(i) = i % cols;
+        }
+    }
+
     /**
      * @brief      Records the auto-diff terms
      */
-- 
2.43.0


From 2825bef56eaebcf9ee8b10f86ff827c6de26743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:35 +0000
Subject: [PATCH 74/97] fix: SteadyStateKalmanFilterSettings: load the initial
 state from the namespace of the iterations

---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 2e2ad97..d8473ab 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -113,7 +113,7 @@ struct SteadyStateKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         maxDAREIterations = pt.get<size_t>(ns + ".maxDAREIterations", 1000);
-        ct::core::loadMatrix(filename, "x0", x0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, ns + ".");
 
         if (verbose)
         {
-- 
2.43.0


From c246a020ae7165244f89696e47ffd772e1d0155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:35 +0000
Subject: [PATCH 75/97] fix: NLOptConSettings: an entry without the entries
 before it is loaded, too

---
 .../ct/optcon/solver/NLOptConSettings.hpp        | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
index fd6918b..f156587 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
@@ -548,7 +548,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
+        try
+        {
             std::string discretizationStr = pt.get<std::string>(ns + ".discretization");
             if (stringToDiscretization.find(discretizationStr) != stringToDiscretization.end())
             {
@@ -565,7 +570,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
+        try
+        {
             std::string nlocp_algorithmStr = pt.get<std::string>(ns + ".nlocp_algorithm");
             if (stringToNlocAlgorithm.find(nlocp_algorithmStr) != stringToNlocAlgorithm.end())
             {
@@ -583,8 +593,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
-
+        try
+        {
             std::string locp_solverStr = pt.get<std::string>(ns + ".locp_solver");
             if (stringToLqocSolver.find(locp_solverStr) != stringToLqocSolver.end())
             {
-- 
2.43.0


From d1dacbae141ee8c48a9521794638d3b7837eb92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:53 +0000
Subject: [PATCH 76/97] fix: HyQ: the inverse dynamics of the unactuated base
 compiles

---
 .../HyQ/generated/inverse_dynamics.impl.h     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h b/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
index c5972c6..3a2077d 100644
--- a/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
+++ b/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
@@ -255,40 +255,40 @@ void iit::HyQ::dyn::tpl::InverseDynamics<TRAIT>::id(
     trunk_a = - trunk_Ic.inverse() * trunk_f;
     
     LF_hipassembly_a = xm->fr_LF_hipassembly_X_fr_trunk * trunk_a;
-    jForces(LF_HAA) = (LF_hipassembly_Ic.row(iit::rbd::AZ) * LF_hipassembly_a + LF_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(LF_HAA) = (LF_hipassembly_Ic.row(iit::rbd::AZ) * LF_hipassembly_a + LF_hipassembly_f(iit::rbd::AZ));
     
     LF_upperleg_a = xm->fr_LF_upperleg_X_fr_LF_hipassembly * LF_hipassembly_a;
-    jForces(LF_HFE) = (LF_upperleg_Ic.row(iit::rbd::AZ) * LF_upperleg_a + LF_upperleg_f(iit::rbd::AZ))(0);
+    jForces(LF_HFE) = (LF_upperleg_Ic.row(iit::rbd::AZ) * LF_upperleg_a + LF_upperleg_f(iit::rbd::AZ));
     
     LF_lowerleg_a = xm->fr_LF_lowerleg_X_fr_LF_upperleg * LF_upperleg_a;
-    jForces(LF_KFE) = (LF_lowerleg_Ic.row(iit::rbd::AZ) * LF_lowerleg_a + LF_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(LF_KFE) = (LF_lowerleg_Ic.row(iit::rbd::AZ) * LF_lowerleg_a + LF_lowerleg_f(iit::rbd::AZ));
     
     RF_hipassembly_a = xm->fr_RF_hipassembly_X_fr_trunk * trunk_a;
-    jForces(RF_HAA) = (RF_hipassembly_Ic.row(iit::rbd::AZ) * RF_hipassembly_a + RF_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(RF_HAA) = (RF_hipassembly_Ic.row(iit::rbd::AZ) * RF_hipassembly_a + RF_hipassembly_f(iit::rbd::AZ));
     
     RF_upperleg_a = xm->fr_RF_upperleg_X_fr_RF_hipassembly * RF_hipassembly_a;
-    jForces(RF_HFE) = (RF_upperleg_Ic.row(iit::rbd::AZ) * RF_upperleg_a + RF_upperleg_f(iit::rbd::AZ))(0);
+    jForces(RF_HFE) = (RF_upperleg_Ic.row(iit::rbd::AZ) * RF_upperleg_a + RF_upperleg_f(iit::rbd::AZ));
     
     RF_lowerleg_a = xm->fr_RF_lowerleg_X_fr_RF_upperleg * RF_upperleg_a;
-    jForces(RF_KFE) = (RF_lowerleg_Ic.row(iit::rbd::AZ) * RF_lowerleg_a + RF_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(RF_KFE) = (RF_lowerleg_Ic.row(iit::rbd::AZ) * RF_lowerleg_a + RF_lowerleg_f(iit::rbd::AZ));
     
     LH_hipassembly_a = xm->fr_LH_hipassembly_X_fr_trunk * trunk_a;
-    jForces(LH_HAA) = (LH_hipassembly_Ic.row(iit::rbd::AZ) * LH_hipassembly_a + LH_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(LH_HAA) = (LH_hipassembly_Ic.row(iit::rbd::AZ) * LH_hipassembly_a + LH_hipassembly_f(iit::rbd::AZ));
     
     LH_upperleg_a = xm->fr_LH_upperleg_X_fr_LH_hipassembly * LH_hipassembly_a;
-    jForces(LH_HFE) = (LH_upperleg_Ic.row(iit::rbd::AZ) * LH_upperleg_a + LH_upperleg_f(iit::rbd::AZ))(0);
+    jForces(LH_HFE) = (LH_upperleg_Ic.row(iit::rbd::AZ) * LH_upperleg_a + LH_upperleg_f(iit::rbd::AZ));
     
     LH_lowerleg_a = xm->fr_LH_lowerleg_X_fr_LH_upperleg * LH_upperleg_a;
-    jForces(LH_KFE) = (LH_lowerleg_Ic.row(iit::rbd::AZ) * LH_lowerleg_a + LH_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(LH_KFE) = (LH_lowerleg_Ic.row(iit::rbd::AZ) * LH_lowerleg_a + LH_lowerleg_f(iit::rbd::AZ));
     
     RH_hipassembly_a = xm->fr_RH_hipassembly_X_fr_trunk * trunk_a;
-    jForces(RH_HAA) = (RH_hipassembly_Ic.row(iit::rbd::AZ) * RH_hipassembly_a + RH_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(RH_HAA) = (RH_hipassembly_Ic.row(iit::rbd::AZ) * RH_hipassembly_a + RH_hipassembly_f(iit::rbd::AZ));
     
     RH_upperleg_a = xm->fr_RH_upperleg_X_fr_RH_hipassembly * RH_hipassembly_a;
-    jForces(RH_HFE) = (RH_upperleg_Ic.row(iit::rbd::AZ) * RH_upperleg_a + RH_upperleg_f(iit::rbd::AZ))(0);
+    jForces(RH_HFE) = (RH_upperleg_Ic.row(iit::rbd::AZ) * RH_upperleg_a + RH_upperleg_f(iit::rbd::AZ));
     
     RH_lowerleg_a = xm->fr_RH_lowerleg_X_fr_RH_upperleg * RH_upperleg_a;
-    jForces(RH_KFE) = (RH_lowerleg_Ic.row(iit::rbd::AZ) * RH_lowerleg_a + RH_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(RH_KFE) = (RH_lowerleg_Ic.row(iit::rbd::AZ) * RH_lowerleg_a + RH_lowerleg_f(iit::rbd::AZ));
     
 
     trunk_a += g;
-- 
2.43.0


From 1d56126f558aeb37f71541c8d644db8ab935d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:53 +0000
Subject: [PATCH 77/97] fix: QuadrotorLinear: return the matrix types of
 LinearSystem (did not compile)

---
 ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
index 32c2283..5a7bd46 100644
--- a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
+++ b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
@@ -18,8 +18,8 @@ public:
     typedef ct::core::StateVector<quadrotor::nStates> state_vector_t;
     typedef ct::core::ControlVector<quadrotor::nControls> control_vector_t;
 
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nStates> state_matrix_t;
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
+    typedef ct::core::StateMatrix<quadrotor::nStates> state_matrix_t;
+    typedef ct::core::StateControlMatrix<quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
 
 
     QuadrotorLinear* clone() const override { return new QuadrotorLinear(*this); }
-- 
2.43.0


From 5b08d9f3d4c0f559e62b9ab4266a92ffc90bd0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 78/97] fix: floating-base JSIM: factorise and invert the whole
 matrix, base included

---
 .../ct/models/HyQ/generated/jsim.impl.h       | 136 ++----------------
 .../QuadrotorWithLoad/generated/jsim.impl.h   |  27 ++--
 2 files changed, 24 insertions(+), 139 deletions(-)

diff --git a/ct_models/include/ct/models/HyQ/generated/jsim.impl.h b/ct_models/include/ct/models/HyQ/generated/jsim.impl.h
index b26126c..2571594 100644
--- a/ct_models/include/ct/models/HyQ/generated/jsim.impl.h
+++ b/ct_models/include/ct/models/HyQ/generated/jsim.impl.h
@@ -204,141 +204,29 @@ const typename iit::HyQ::dyn::tpl::JSIM<TRAIT>& iit::HyQ::dyn::tpl::JSIM<TRAIT>:
 
 template <typename TRAIT>
 void iit::HyQ::dyn::tpl::JSIM<TRAIT>::computeL() {
+    // the whole matrix, floating base (first six rows and columns) included
     L = this -> template triangularView<Eigen::Lower>();
-    // Joint RH_KFE, index 11 :
-    L(11, 11) = std::sqrt(L(11, 11));
-    L(11, 10) = L(11, 10) / L(11, 11);
-    L(11, 9) = L(11, 9) / L(11, 11);
-    L(10, 10) = L(10, 10) - L(11, 10) * L(11, 10);
-    L(10, 9) = L(10, 9) - L(11, 10) * L(11, 9);
-    L(9, 9) = L(9, 9) - L(11, 9) * L(11, 9);
-    
-    // Joint RH_HFE, index 10 :
-    L(10, 10) = std::sqrt(L(10, 10));
-    L(10, 9) = L(10, 9) / L(10, 10);
-    L(9, 9) = L(9, 9) - L(10, 9) * L(10, 9);
-    
-    // Joint RH_HAA, index 9 :
-    L(9, 9) = std::sqrt(L(9, 9));
-    
-    // Joint LH_KFE, index 8 :
-    L(8, 8) = std::sqrt(L(8, 8));
-    L(8, 7) = L(8, 7) / L(8, 8);
-    L(8, 6) = L(8, 6) / L(8, 8);
-    L(7, 7) = L(7, 7) - L(8, 7) * L(8, 7);
-    L(7, 6) = L(7, 6) - L(8, 7) * L(8, 6);
-    L(6, 6) = L(6, 6) - L(8, 6) * L(8, 6);
-    
-    // Joint LH_HFE, index 7 :
-    L(7, 7) = std::sqrt(L(7, 7));
-    L(7, 6) = L(7, 6) / L(7, 7);
-    L(6, 6) = L(6, 6) - L(7, 6) * L(7, 6);
-    
-    // Joint LH_HAA, index 6 :
-    L(6, 6) = std::sqrt(L(6, 6));
-    
-    // Joint RF_KFE, index 5 :
-    L(5, 5) = std::sqrt(L(5, 5));
-    L(5, 4) = L(5, 4) / L(5, 5);
-    L(5, 3) = L(5, 3) / L(5, 5);
-    L(4, 4) = L(4, 4) - L(5, 4) * L(5, 4);
-    L(4, 3) = L(4, 3) - L(5, 4) * L(5, 3);
-    L(3, 3) = L(3, 3) - L(5, 3) * L(5, 3);
-    
-    // Joint RF_HFE, index 4 :
-    L(4, 4) = std::sqrt(L(4, 4));
-    L(4, 3) = L(4, 3) / L(4, 4);
-    L(3, 3) = L(3, 3) - L(4, 3) * L(4, 3);
-    
-    // Joint RF_HAA, index 3 :
-    L(3, 3) = std::sqrt(L(3, 3));
-    
-    // Joint LF_KFE, index 2 :
-    L(2, 2) = std::sqrt(L(2, 2));
-    L(2, 1) = L(2, 1) / L(2, 2);
-    L(2, 0) = L(2, 0) / L(2, 2);
-    L(1, 1) = L(1, 1) - L(2, 1) * L(2, 1);
-    L(1, 0) = L(1, 0) - L(2, 1) * L(2, 0);
-    L(0, 0) = L(0, 0) - L(2, 0) * L(2, 0);
-    
-    // Joint LF_HFE, index 1 :
-    L(1, 1) = std::sqrt(L(1, 1));
-    L(1, 0) = L(1, 0) / L(1, 1);
-    L(0, 0) = L(0, 0) - L(1, 0) * L(1, 0);
-    
-    // Joint LF_HAA, index 0 :
-    L(0, 0) = std::sqrt(L(0, 0));
-    
+    for (int k = L.rows() - 1; k >= 0; k--)
+    {
+        L(k, k) = std::sqrt(L(k, k));
+        for (int i = 0; i < k; i++)
+            L(k, i) = L(k, i) / L(k, k);
+        for (int i = 0; i < k; i++)
+            for (int j = 0; j <= i; j++)
+                L(i, j) = L(i, j) - L(k, i) * L(k, j);
+    }
 }
 
 template <typename TRAIT>
 void iit::HyQ::dyn::tpl::JSIM<TRAIT>::computeInverse() {
     computeLInverse();
 
-    inverse(0, 0) =  + (Linv(0, 0) * Linv(0, 0));
-    inverse(1, 1) =  + (Linv(1, 0) * Linv(1, 0)) + (Linv(1, 1) * Linv(1, 1));
-    inverse(1, 0) =  + (Linv(1, 0) * Linv(0, 0));
-    inverse(0, 1) = inverse(1, 0);
-    inverse(2, 2) =  + (Linv(2, 0) * Linv(2, 0)) + (Linv(2, 1) * Linv(2, 1)) + (Linv(2, 2) * Linv(2, 2));
-    inverse(2, 1) =  + (Linv(2, 0) * Linv(1, 0)) + (Linv(2, 1) * Linv(1, 1));
-    inverse(1, 2) = inverse(2, 1);
-    inverse(2, 0) =  + (Linv(2, 0) * Linv(0, 0));
-    inverse(0, 2) = inverse(2, 0);
-    inverse(3, 3) =  + (Linv(3, 3) * Linv(3, 3));
-    inverse(4, 4) =  + (Linv(4, 3) * Linv(4, 3)) + (Linv(4, 4) * Linv(4, 4));
-    inverse(4, 3) =  + (Linv(4, 3) * Linv(3, 3));
-    inverse(3, 4) = inverse(4, 3);
-    inverse(5, 5) =  + (Linv(5, 3) * Linv(5, 3)) + (Linv(5, 4) * Linv(5, 4)) + (Linv(5, 5) * Linv(5, 5));
-    inverse(5, 4) =  + (Linv(5, 3) * Linv(4, 3)) + (Linv(5, 4) * Linv(4, 4));
-    inverse(4, 5) = inverse(5, 4);
-    inverse(5, 3) =  + (Linv(5, 3) * Linv(3, 3));
-    inverse(3, 5) = inverse(5, 3);
-    inverse(6, 6) =  + (Linv(6, 6) * Linv(6, 6));
-    inverse(7, 7) =  + (Linv(7, 6) * Linv(7, 6)) + (Linv(7, 7) * Linv(7, 7));
-    inverse(7, 6) =  + (Linv(7, 6) * Linv(6, 6));
-    inverse(6, 7) = inverse(7, 6);
-    inverse(8, 8) =  + (Linv(8, 6) * Linv(8, 6)) + (Linv(8, 7) * Linv(8, 7)) + (Linv(8, 8) * Linv(8, 8));
-    inverse(8, 7) =  + (Linv(8, 6) * Linv(7, 6)) + (Linv(8, 7) * Linv(7, 7));
-    inverse(7, 8) = inverse(8, 7);
-    inverse(8, 6) =  + (Linv(8, 6) * Linv(6, 6));
-    inverse(6, 8) = inverse(8, 6);
-    inverse(9, 9) =  + (Linv(9, 9) * Linv(9, 9));
-    inverse(10, 10) =  + (Linv(10, 9) * Linv(10, 9)) + (Linv(10, 10) * Linv(10, 10));
-    inverse(10, 9) =  + (Linv(10, 9) * Linv(9, 9));
-    inverse(9, 10) = inverse(10, 9);
-    inverse(11, 11) =  + (Linv(11, 9) * Linv(11, 9)) + (Linv(11, 10) * Linv(11, 10)) + (Linv(11, 11) * Linv(11, 11));
-    inverse(11, 10) =  + (Linv(11, 9) * Linv(10, 9)) + (Linv(11, 10) * Linv(10, 10));
-    inverse(10, 11) = inverse(11, 10);
-    inverse(11, 9) =  + (Linv(11, 9) * Linv(9, 9));
-    inverse(9, 11) = inverse(11, 9);
+    inverse = Linv * Linv.transpose();
 }
 
 template <typename TRAIT>
 void iit::HyQ::dyn::tpl::JSIM<TRAIT>::computeLInverse() {
     //assumes L has been computed already
-    Linv(0, 0) = 1 / L(0, 0);
-    Linv(1, 1) = 1 / L(1, 1);
-    Linv(2, 2) = 1 / L(2, 2);
-    Linv(3, 3) = 1 / L(3, 3);
-    Linv(4, 4) = 1 / L(4, 4);
-    Linv(5, 5) = 1 / L(5, 5);
-    Linv(6, 6) = 1 / L(6, 6);
-    Linv(7, 7) = 1 / L(7, 7);
-    Linv(8, 8) = 1 / L(8, 8);
-    Linv(9, 9) = 1 / L(9, 9);
-    Linv(10, 10) = 1 / L(10, 10);
-    Linv(11, 11) = 1 / L(11, 11);
-    Linv(1, 0) = - Linv(0, 0) * ((Linv(1, 1) * L(1, 0)) + 0);
-    Linv(2, 1) = - Linv(1, 1) * ((Linv(2, 2) * L(2, 1)) + 0);
-    Linv(2, 0) = - Linv(0, 0) * ((Linv(2, 1) * L(1, 0)) + (Linv(2, 2) * L(2, 0)) + 0);
-    Linv(4, 3) = - Linv(3, 3) * ((Linv(4, 4) * L(4, 3)) + 0);
-    Linv(5, 4) = - Linv(4, 4) * ((Linv(5, 5) * L(5, 4)) + 0);
-    Linv(5, 3) = - Linv(3, 3) * ((Linv(5, 4) * L(4, 3)) + (Linv(5, 5) * L(5, 3)) + 0);
-    Linv(7, 6) = - Linv(6, 6) * ((Linv(7, 7) * L(7, 6)) + 0);
-    Linv(8, 7) = - Linv(7, 7) * ((Linv(8, 8) * L(8, 7)) + 0);
-    Linv(8, 6) = - Linv(6, 6) * ((Linv(8, 7) * L(7, 6)) + (Linv(8, 8) * L(8, 6)) + 0);
-    Linv(10, 9) = - Linv(9, 9) * ((Linv(10, 10) * L(10, 9)) + 0);
-    Linv(11, 10) = - Linv(10, 10) * ((Linv(11, 11) * L(11, 10)) + 0);
-    Linv(11, 9) = - Linv(9, 9) * ((Linv(11, 10) * L(10, 9)) + (Linv(11, 11) * L(11, 9)) + 0);
+    Linv = L.template triangularView<Eigen::Lower>().solve(MatrixType::Identity());
 }
 
diff --git a/ct_models/include/ct/models/QuadrotorWithLoad/generated/jsim.impl.h b/ct_models/include/ct/models/QuadrotorWithLoad/generated/jsim.impl.h
index 66ee1a0..4d26a0f 100644
--- a/ct_models/include/ct/models/QuadrotorWithLoad/generated/jsim.impl.h
+++ b/ct_models/include/ct/models/QuadrotorWithLoad/generated/jsim.impl.h
@@ -60,33 +60,30 @@
 
  template <typename TRAIT>
  void iit::ct_quadrotor::dyn::tpl::JSIM<TRAIT>::computeL() {
+     // the whole matrix, floating base (first six rows and columns) included
      L = this -> template triangularView<Eigen::Lower>();
-     // Joint jB, index 1 :
-     L(1, 1) = std::sqrt(L(1, 1));
-     L(1, 0) = L(1, 0) / L(1, 1);
-     L(0, 0) = L(0, 0) - L(1, 0) * L(1, 0);
-     
-     // Joint jA, index 0 :
-     L(0, 0) = std::sqrt(L(0, 0));
-     
+     for (int k = L.rows() - 1; k >= 0; k--)
+     {
+         L(k, k) = std::sqrt(L(k, k));
+         for (int i = 0; i < k; i++)
+             L(k, i) = L(k, i) / L(k, k);
+         for (int i = 0; i < k; i++)
+             for (int j = 0; j <= i; j++)
+                 L(i, j) = L(i, j) - L(k, i) * L(k, j);
+     }
  }
 
  template <typename TRAIT>
  void iit::ct_quadrotor::dyn::tpl::JSIM<TRAIT>::computeInverse() {
      computeLInverse();
 
-     inverse(0, 0) =  + (Linv(0, 0) * Linv(0, 0));
-     inverse(1, 1) =  + (Linv(1, 0) * Linv(1, 0)) + (Linv(1, 1) * Linv(1, 1));
-     inverse(1, 0) =  + (Linv(1, 0) * Linv(0, 0));
-     inverse(0, 1) = inverse(1, 0);
+     inverse = Linv * Linv.transpose();
  }
 
  template <typename TRAIT>
  void iit::ct_quadrotor::dyn::tpl::JSIM<TRAIT>::computeLInverse() {
      //assumes L has been computed already
-     Linv(0, 0) = 1 / L(0, 0);
-     Linv(1, 1) = 1 / L(1, 1);
-     Linv(1, 0) = - Linv(0, 0) * ((Linv(1, 1) * L(1, 0)) + 0);
+     Linv = L.template triangularView<Eigen::Lower>().solve(MatrixType::Identity());
  }
 
 
-- 
2.43.0


From 5fd85688071349006f9aa06394968a5525236fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:49 +0000
Subject: [PATCH 79/97] fix: InertiaMatrixDense::changeMass compiles

---
 ct_rbd/include/ct/iit/rbd/InertiaMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h b/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
index a6251c7..f475901 100644
--- a/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
+++ b/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
@@ -206,7 +206,7 @@ TPL
 inline void CLASS::changeMass(Scalar newMass) {
     // Note the use of indices AX and hard-coded 0, to make it independent from
     //  the convention angular/linear
-    this->block<3,6>(AX,0) *= newMass/getMass();
+    this->template block<3,6>(AX,0) *= newMass/getMass();
     block33(LX,AX) = block33(AX,LX).transpose();
     data(LX,LX) = data(LY,LY) = data(LZ,LZ) = newMass;
 }
-- 
2.43.0


From 810976ce18c526f15d2ebf183960825a9cc2e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:49 +0000
Subject: [PATCH 80/97] fix: vxIv about the z axis: the moment about y comes
 from the xz product of inertia

---
 ct_rbd/include/ct/iit/rbd/robcogen_commons.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/iit/rbd/robcogen_commons.h b/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
index a264b1e..9761716 100644
--- a/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
+++ b/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
@@ -128,7 +128,7 @@ inline Force<DScalar> vxIv(const DScalar& omegaz, const MatrixBase<Derived>& I)
     DScalar wz2 = omegaz*omegaz;
     Force<DScalar> ret;
     ret(AX) = -I(AY,AZ) * wz2;
-    ret(AY) =  I(AX,AY) * wz2;
+    ret(AY) =  I(AX,AZ) * wz2;
     ret(AZ) =  0;
     ret(LX) =  I(AY,LZ) * wz2;
     ret(LY) =  I(AZ,LX) * wz2;
-- 
2.43.0


From 3583295c54f237ec25a446f95acd1b2519c91188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 81/97] fix: Dynamics: the fully actuated inverse dynamics uses
 the base acceleration it is given

---
 ct_rbd/include/ct/rbd/robot/Dynamics.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Dynamics.h b/ct_rbd/include/ct/rbd/robot/Dynamics.h
index 5fa5c65..a9290b5 100644
--- a/ct_rbd/include/ct/rbd/robot/Dynamics.h
+++ b/ct_rbd/include/ct/rbd/robot/Dynamics.h
@@ -312,10 +312,8 @@ ENABLE_FLOAT_BASE_IMPL Dynamics<RBD, NEE>::FloatingBaseFullyActuatedID(const RBD
     ForceVector_t& base_w,
     control_vector_t& u)
 {
-    Vector6d_t b_accel;
-
     kinematics_->robcogen().inverseDynamics().id_fully_actuated(base_w, u, x.basePose().computeGravityB6D(),
-        x.baseVelocities().getVector(), b_accel, x.joints().getPositions(), x.joints().getVelocities(),
+        x.baseVelocities().getVector(), base_a.getVector6d(), x.joints().getPositions(), x.joints().getVelocities(),
         qdd.getAcceleration(), l_forces);
 }
 
-- 
2.43.0


From efff5e22ac9f2295dc3f7e2a7c8037fae1faee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 82/97] fix: RigidBodyPose: the constructor from an Eigen
 quaternion keeps the storage type

---
 ct_rbd/include/ct/rbd/state/RigidBodyPose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/state/RigidBodyPose.h b/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
index eda608a..a391037 100644
--- a/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
+++ b/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
@@ -83,7 +83,7 @@ public:
     RigidBodyPose(const Eigen::Quaternion<SCALAR>& orientationQuat,
         const Eigen::Matrix<SCALAR, 3, 1>& position,
         STORAGE_TYPE storage = EULER)
-        : RigidBodyPose(kindr::RotationQuaternion<SCALAR>(orientationQuat), Position3Tpl(position))
+        : RigidBodyPose(kindr::RotationQuaternion<SCALAR>(orientationQuat), Position3Tpl(position), storage)
     {
     }
 
-- 
2.43.0


From 31a0dbe2dbe751d248849a5da3ef8da759f7612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 83/97] fix: FloatingBaseFDSystem without contact model can be
 copied

---
 ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
index a17653a..526a6d8 100644
--- a/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
@@ -47,7 +47,7 @@ public:
 
     FloatingBaseFDSystem() : Base(), dynamics_(), eeContactModel_(nullptr) {}
     FloatingBaseFDSystem(const FloatingBaseFDSystem<RBDDynamics, QUAT_INTEGRATION, EE_ARE_CONTROL_INPUTS>& other)
-        : Base(other), dynamics_(other.dynamics_), eeContactModel_(other.eeContactModel_->clone())
+        : Base(other), dynamics_(other.dynamics_), eeContactModel_(other.eeContactModel_ ? other.eeContactModel_->clone() : nullptr)
     {
     }
 
-- 
2.43.0


From 3d91bf28f1699da56b8cb4a0177d159b3168f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 84/97] fix: EEContactModel: no force on end-effectors that are
 not active

---
 ct_rbd/include/ct/rbd/physics/EEContactModel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_rbd/include/ct/rbd/physics/EEContactModel.h b/ct_rbd/include/ct/rbd/physics/EEContactModel.h
index e5fb898..4c927c3 100644
--- a/ct_rbd/include/ct/rbd/physics/EEContactModel.h
+++ b/ct_rbd/include/ct/rbd/physics/EEContactModel.h
@@ -147,6 +147,7 @@ public:
     EEForcesLinear computeContactForces(const RBDState<NJOINTS, SCALAR>& state)
     {
         EEForcesLinear eeForces;
+        eeForces.fill(EEForceLinear::Zero());
 
         for (size_t i = 0; i < NUM_EE; i++)
         {
-- 
2.43.0


From 177c8b4245e98daa71029aacd8f4126af8f2d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 85/97] fix: FloatingBaseRobotState without actuators is set
 from a state vector with Euler angles

---
 ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h b/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
index 34eac66..5691d98 100644
--- a/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
+++ b/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
@@ -155,7 +155,7 @@ public:
     typename std::enable_if<(ACT_STATE_DIM == 0), T>::type fromStateVectorEulerXyz(const state_vector_euler_t& state)
     {
         // transcribe RBDState only
-        Base_t::state_vector_euler_t(state);
+        Base_t::fromStateVectorEulerXyz(state);
     }
 
     //! a convenience method
-- 
2.43.0


From 2aa9670b388dea70c5cbbe76a80216a1204cdf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 86/97] fix: Kinematics::setEndEffector sets the end-effector

---
 ct_rbd/include/ct/rbd/robot/Kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Kinematics.h b/ct_rbd/include/ct/rbd/robot/Kinematics.h
index 9645ae5..8594c23 100644
--- a/ct_rbd/include/ct/rbd/robot/Kinematics.h
+++ b/ct_rbd/include/ct/rbd/robot/Kinematics.h
@@ -86,7 +86,7 @@ public:
      * @param id end-effector id
      * @param ee end-effector
      */
-    void setEndEffector(size_t id, const EndEffector<NJOINTS, SCALAR>& ee){};
+    void setEndEffector(size_t id, const EndEffector<NJOINTS, SCALAR>& ee) { endEffectors_[id] = ee; }
 
     Jacobian getJacobianBaseEEbyId(size_t eeId, const RBDState<NJOINTS, SCALAR>& rbdState)
     {
-- 
2.43.0


From 73b54f37b40da331f3391c9abd7fba13e9293c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 87/97] fix: Kinematics::getIKSolver compiles

---
 ct_rbd/include/ct/rbd/robot/Kinematics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Kinematics.h b/ct_rbd/include/ct/rbd/robot/Kinematics.h
index 8594c23..e21f0a6 100644
--- a/ct_rbd/include/ct/rbd/robot/Kinematics.h
+++ b/ct_rbd/include/ct/rbd/robot/Kinematics.h
@@ -240,7 +240,8 @@ public:
         if (solverID >= 100)
             throw std::runtime_error("Solver ID must be less than 100.");
         size_t hash = eeID * 100 + solverID;
-        return ikSolvers_[hash];
+        const auto solver = ikSolvers_.find(hash);
+        return solver != ikSolvers_.end() ? solver->second : nullptr;
     }
 
     /**
-- 
2.43.0


From d4fa264c2db83e250df99d0ac213f7fa7fa5c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 88/97] fix: robcogenHelpers: the transform between base and
 base is the identity

---
 ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h b/ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h
index 5603edf..1ed5bab 100644
--- a/ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h
+++ b/ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h
@@ -90,8 +90,7 @@ public:
             case 0:
             {
                 typename TRANS::MatrixType identity;
-                identity.setZero();
-                identity.template topRightCorner<3, 3>().setIdentity();
+                identity.setIdentity();
                 return identity;
                 break;
             }
@@ -227,8 +226,7 @@ public:
             case 0:
             {
                 typename TRANS::MatrixType identity;
-                identity.setZero();
-                identity.template topRightCorner<3, 3>().setIdentity();
+                identity.setIdentity();
                 return identity;
                 break;
             }
-- 
2.43.0


From 3b7bbb658f9bcd46af432d37252461c3ef858c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 89/97] fix: QuadrotorWithLoad: the end-effector is on the
 second link

---
 .../include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_models/include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h b/ct_models/include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h
index 363ead3..a7fc84f 100644
--- a/ct_models/include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h
+++ b/ct_models/include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h
@@ -30,7 +30,7 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 // define first end effector, the endeffector frame
 #define CT_N_EE 1
 #define CT_EE0 fr_ee
-#define CT_EE0_IS_ON_LINK 1
+#define CT_EE0_IS_ON_LINK 2
 #define CT_EE0_FIRST_JOINT 0
 #define CT_EE0_LAST_JOINT 1
 
-- 
2.43.0


From 86fb652d02abf836ac7fbeef03dc4fb26b5c42ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 90/97] fix: FixBaseFDSystem with actuators and end-effector
 forces compiles

---
 ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
index 1c3e434..a06a2dc 100644
--- a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
@@ -135,8 +135,7 @@ public:
         control_vector_t& controlOut)
     {
         // get references to the current actuator position, velocity and input
-        const Eigen::Ref<const typename control_vector_t::Base> actControlIn =
-            controlIn.template topRows<BASE::NJOINTS>();
+        const ct::core::ControlVector<BASE::NJOINTS, SCALAR> actControlIn(controlIn.template topRows<BASE::NJOINTS>());
 
         actuator_state_vector_t actStateDerivative;  // todo use vector block for this?
         actuatorDynamics_->computeActuatorDynamics(
@@ -145,7 +144,8 @@ public:
         stateDerivative.template tail<ACTUATOR_STATE_DIM>() = actStateDerivative;
 
         // overwrite control with actuator control output as a function of current robot and actuator states
-        controlOut = actuatorDynamics_->computeControlOutput(robotState.joints(), robotState.actuatorState());
+        controlOut.template topRows<BASE::NJOINTS>() =
+            actuatorDynamics_->computeControlOutput(robotState.joints(), robotState.actuatorState());
     }
 
     //! do nothing if actuators disabled
-- 
2.43.0


From f089e4ba6edbcdfca12045d7b247fe8b0a011af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:02 +0000
Subject: [PATCH 91/97] fix:
 FixBaseFDSystem::computeConsistentActuatorState(jState) compiles
 (computeIDTorques is a member of the dependent base)

---
 ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
index a06a2dc..0ad0e5f 100644
--- a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
@@ -181,7 +181,7 @@ public:
     typename std::enable_if<(ACT_STATE_DIM > 0), T>::type computeConsistentActuatorState(
         const JointState<BASE::NJOINTS, SCALAR>& jStateRef)
     {
-        const ct::core::ControlVector<BASE::NJOINTS> torqueRef = computeIDTorques(jStateRef);
+        const ct::core::ControlVector<BASE::NJOINTS> torqueRef = this->computeIDTorques(jStateRef);
         return computeConsistentActuatorState(jStateRef, torqueRef);
     }
 
-- 
2.43.0


From 4a96f06c6add365439d34aab9aafccc7b715130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:02 +0000
Subject: [PATCH 92/97] fix: ActuatorDynamicsSymplectic (and
 FixBaseFDSystemSymplectic with it) compiles: clone() overrides nothing

---
 .../include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h b/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
index aba8bd0..ec758db 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
@@ -35,7 +35,7 @@ public:
 
     virtual ~ActuatorDynamicsSymplectic(){};
 
-    virtual ActuatorDynamicsSymplectic<NJOINTS, ACT_STATE_DIMS, SCALAR>* clone() const override = 0;
+    virtual ActuatorDynamicsSymplectic<NJOINTS, ACT_STATE_DIMS, SCALAR>* clone() const = 0;
 
     virtual void computePdot(const JointState<NJOINTS, SCALAR>& robotJointState,
         const act_state_vector_t& x,
-- 
2.43.0


From 47ad1b2bbe37f5faa741fb9e5cec58e555221174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:12 +0000
Subject: [PATCH 93/97] fix: QuadrotorWithLoad names its link frames as the
 generated transforms do (link transforms by id compile)

---
 .../include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_models/include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h b/ct_models/include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h
index a7fc84f..d53b546 100644
--- a/ct_models/include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h
+++ b/ct_models/include/ct/models/QuadrotorWithLoad/QuadrotorWithLoad.h
@@ -24,8 +24,8 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 
 // define the links
 #define CT_BASE fr_body
-#define CT_L0 link1
-#define CT_L1 link2
+#define CT_L0 fr_link1
+#define CT_L1 fr_link2
 
 // define first end effector, the endeffector frame
 #define CT_N_EE 1
-- 
2.43.0


From 548b97c4a3bcd146a58b4a844b374a4928feae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:31 +0000
Subject: [PATCH 94/97] fix: MPC::updateSettings left the forward integrator
 with references to a destroyed temporary

Assigning a temporary Integrator copies function objects that capture the temporary itself, so the next prediction
called into a destroyed object. Change the integration type in place instead.
---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 0811677..49a98ff 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -291,7 +291,7 @@ void MPC<OPTCON_SOLVER>::updateSettings(const mpc_settings& settings)
     checkSettings(settings);
 
     if (settings.stateForwardIntegratorType_ != mpc_settings_.stateForwardIntegratorType_)
-        forwardIntegrator_ = ct::core::Integrator<STATE_DIM, Scalar_t>(dynamics_, settings.stateForwardIntegratorType_);
+        forwardIntegrator_.changeIntegrationType(settings.stateForwardIntegratorType_);
 
     mpc_settings_ = settings;
     timeKeeper_.updateSettings(settings);
-- 
2.43.0


From b1c58c7a2ce659ead7bb8b528f1efaa6d793475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:27 +0000
Subject: [PATCH 95/97] fix: QuantizationNoise accessed its rests beyond their
 end for every new index and after reset()

---
 ct_core/include/ct/core/common/QuantizationNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/QuantizationNoise.h b/ct_core/include/ct/core/common/QuantizationNoise.h
index 5af2170..53519ea 100644
--- a/ct_core/include/ct/core/common/QuantizationNoise.h
+++ b/ct_core/include/ct/core/common/QuantizationNoise.h
@@ -49,7 +49,7 @@ public:
     void noisify(double& value, size_t index = 0)
     {
         if (index >= quantizationRest_.size())
-            quantizationRest_.resize(index, 0);
+            quantizationRest_.resize(index + 1, 0.0);
 
         double currentValue = value + quantizationRest_[index];
         double nQuantsDouble = currentValue / quantizationInterval_;
-- 
2.43.0


From 0818880e4445e2244f6a98db8ee396d7170d14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 96/97] fix: FixBaseNLOC::initialize takes the state vector of
 the robot state

RobotState has no toImplementation(), so the method did not compile when used.
---
 ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h b/ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h
index 388dd70..c7b1297 100644
--- a/ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h
+++ b/ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h
@@ -66,7 +66,7 @@ void FixBaseNLOC<FIX_BASE_FD_SYSTEM>::initialize(const RobotState_t& x0,
 
     nlocSolver_->changeTimeHorizon(tf);
     nlocSolver_->setInitialGuess(policy);
-    nlocSolver_->changeInitialState(x0.toImplementation());
+    nlocSolver_->changeInitialState(x0.toStateVector());
 }
 
 template <class FIX_BASE_FD_SYSTEM>
-- 
2.43.0


From 910aed306cf9d137323be2d00e171865166e8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:01 +0000
Subject: [PATCH 97/97] fix: time array of the robot optimal control solvers is
 not a reference into a temporary

FixBaseNLOC and FloatingBaseNLOCContactModel returned a reference into the
state trajectory of the solver, which is returned by value.
---
 ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h                  | 2 +-
 ct_rbd/include/ct/rbd/nloc/FloatingBaseNLOCContactModel-impl.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h b/ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h
index c7b1297..497df8e 100644
--- a/ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h
+++ b/ct_rbd/include/ct/rbd/nloc/FixBaseNLOC-impl.h
@@ -193,7 +193,7 @@ const typename FixBaseNLOC<FIX_BASE_FD_SYSTEM>::StateFeedbackController& FixBase
 template <class FIX_BASE_FD_SYSTEM>
 const core::TimeArray& FixBaseNLOC<FIX_BASE_FD_SYSTEM>::getTimeArray()
 {
-    return nlocSolver_->getStateTrajectory().getTimeArray();
+    return nlocSolver_->getSolution().time();
 }
 
 template <class FIX_BASE_FD_SYSTEM>
diff --git a/ct_rbd/include/ct/rbd/nloc/FloatingBaseNLOCContactModel-impl.h b/ct_rbd/include/ct/rbd/nloc/FloatingBaseNLOCContactModel-impl.h
index 1dcc4e8..a45e29d 100644
--- a/ct_rbd/include/ct/rbd/nloc/FloatingBaseNLOCContactModel-impl.h
+++ b/ct_rbd/include/ct/rbd/nloc/FloatingBaseNLOCContactModel-impl.h
@@ -82,7 +82,7 @@ FloatingBaseNLOCContactModel<RBDDynamics>::getStateVectorArray()
 template <class RBDDynamics>
 const core::TimeArray& FloatingBaseNLOCContactModel<RBDDynamics>::getTimeArray()
 {
-    return solver_->getStateTrajectory().getTimeArray();
+    return solver_->getSolution().time();
 }
 
 template <class RBDDynamics>
-- 
2.43.0

