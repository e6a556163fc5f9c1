S_ = C + 'systems/'
prop('C04', 'Controllers and the closed loop compute their documented law, copies are own',
     'A constant, constant-feedback, or sampled state-feedback controller returns exactly its documented control for every state and time (feedforward plus gain times deviation from the reference, all three interpolated as stamped and held at both ends; the discrete-time call uses the sample it names), and updates or edits take effect completely or, with inconsistent lengths, are refused. A controlled system evaluates its dynamics with the control of the attached controller at the time and state of the call and reports that control as the last one. A PID keeps its integrated error within the integral limit and its output within its saturation bounds for every sequence of inputs, set points and resets. Copies and clones of controllers, controlled systems, PIDs and second-order systems are independent of the original. The control simulator advances the system by exactly its simulation steps and applies the control computed for each control step for exactly that long.',
     ['inputs', 'histories'], 'all states, times, gain schedules of any length, histories of updates, copies, clones and calls',
     'The tests construct each controller once and compare one or two values; update histories, clones, saturation and time-step remainders are not reached.',
     [C + 'control/StateFeedbackController.h', C + 'control/StateFeedbackController-impl.h', C + 'control/continuous_time/ConstantStateFeedbackController.h', C + 'control/continuous_time/siso/PIDController-impl.h', S_ + 'continuous_time/ControlledSystem.h', S_ + 'continuous_time/SecondOrderSystem.h', C + 'simulation/ControlSimulator.h'],
     [('interpolated feedback law', C + 'control/StateFeedbackController-impl.h'), ('anti-windup and saturation', C + 'control/continuous_time/siso/PIDController-impl.h'), ('control/simulation step interleaving', C + 'simulation/ControlSimulator.h')],
     (), 'PID and clone graph exhaustive to depth 4-5; transition tours and seeded random behaviours replayed.', TECH % 'Ctrl')
prop('C05', 'Discretisations and their sensitivities are those of the step actually taken',
     'Propagating a discretised system over interval n applies the chosen step type to the given plant, K equal sub-steps starting at time n*dt, with the control held, and reports exactly the sub-step states and controls at which the dynamics were evaluated. The linearisation of such a step (exact sensitivity integration, or numerical differentiation of the discretised system) is the derivative of that very step with respect to state and control; forward Euler, symplectic Euler, backward Euler, Tustin and matrix-exponential approximations satisfy their defining equations, also for singular system matrices. Changing step type, time step, sub-step count or plant takes effect in the next call, and clones keep what they had. Numerical linearisers return the partial derivatives of the dynamics, and LTI systems (continuous and discrete) return A x + B u, C x + D u, their controllability matrix and the correct controllability and observability verdicts.',
     ['inputs', 'histories'], 'all step types, sub-step counts, intervals, plants, states, controls and reconfiguration histories',
     'The tests compare discretisation and sensitivities on one or two linear systems at interval 0 with a loose tolerance.',
     [S_ + 'discrete_time/SystemDiscretizer-impl.h', S_ + 'discrete_time/SystemDiscretizer.h', C + 'integration/sensitivity/SensitivityIntegrator.h', C + 'integration/sensitivity/SensitivityApproximation.h', S_ + 'continuous_time/linear/SystemLinearizer.h', S_ + 'discrete_time/linear/DiscreteSystemLinearizer.h', S_ + 'linearizer/DynamicsLinearizerNumDiff.h', S_ + 'continuous_time/linear/LTISystem.h', S_ + 'discrete_time/linear/DiscreteLTISystem.h'],
     [('sub-step recording', S_ + 'discrete_time/SystemDiscretizer-impl.h'), ('chain rule over recorded sub-steps', C + 'integration/sensitivity/SensitivityIntegrator.h')],
     (), 'Exact rational oracle (dual-number step) on polynomial plants; reconfiguration/clone graph exhaustive to depth 4-5.', TECH % 'Discr')
prop('C06', 'MPC keeps its clock, horizon, warm start and prediction consistent',
     'In every sequence of prepare/finish iterations, with external or internal timing, the forward prediction starts at the time since the previous iteration ended and lasts the configured (fixed plus additional, or measured times multiplier plus additional) delay, none in the first run, both ends truncated to the horizon of the policy in use; the state handed to the solver is the measured state predicted over exactly that window with the policy of the previous iteration (or the controller supplied); the new horizon and the final-point flag follow the selected mode or the custom strategy last set; the warm start handed to the solver is the previous policy shifted by the whole steps elapsed until the end of the prediction and cut or extended (last sample held, on the same grid) to the new horizon, or the initial guess when cold starting; the returned policy is the solver\'s solution, post-truncated when it was late, and its time stamp is the state\'s time stamp plus prediction plus truncation (plus solving time in the first run). Reset, new initial guesses, new strategies and new settings take effect in the next iteration; contradictory settings are refused and change nothing.',
     ['histories', 'inputs'], 'all histories of prepare, finish (successful or not), reset, reconfiguration and passing of time, all settings',
     'The test runs one settings combination with one fixed delay on an easy problem and checks loose bounds on the states.',
     [O + 'mpc/MPC-impl.h', O + 'mpc/MPC.h', O + 'mpc/MpcTimeKeeper.h', O + 'mpc/timehorizon/MpcTimeHorizon-impl.h', O + 'mpc/policyhandler/PolicyHandler-impl.h', O + 'mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h', C + 'common/Timer.h', C + 'common/ExternallyDrivenTimer.h'],
     [('delay timers and truncation to the horizon', O + 'mpc/MpcTimeKeeper.h'), ('shift and resize of the policy', O + 'mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h')],
     [('currentPolicy_', 'policy in use / warm start', O + 'mpc/MPC.h'), ('firstRun_', 'no prediction yet', O + 'mpc/MpcTimeKeeper.h')],
     'Run protocol exhaustive to depth 6-7 over four modes; tours and random runs of up to 12 iterations replayed on the real MPC class with a recording stand-in solver and a virtual clock.', TECH % 'Mpc')
prop('C07', 'The multi-threaded solver equals the single-threaded one under every schedule',
     'For every scheduling of its worker threads, a solver configured with several threads computes the same trajectories, gains, cost, defects, step sizes and return values as the single-threaded solver: every stage of a parallel phase is worked on exactly once and completely before the phase returns, the line search picks the largest acceptable step regardless of the order in which candidates finish, no worker calls the user\'s dynamics, linearisation or cost function outside a call of the solver or shares an instance of them with another worker, every call returns, and destruction ends all workers.',
     ['schedules', 'histories'], 'all interleavings of main thread and 2..n workers, all histories of iterations and reconfigurations',
     'The tests run each configuration once under the ordinary scheduler, on problems where any accepted step looks alike; lost wake-ups, late workers and completion orders are not reached.',
     [O + 'nloc/NLOCBackendMP-impl.hpp', O + 'nloc/NLOCBackendMP.hpp', O + 'nloc/NLOCBackendBase-impl.hpp', O + 'system_interface/OptconDiscreteSystemInterface-impl.h', O + 'system_interface/OptconContinuousSystemInterface-impl.h'],
     [('work distribution by shared counter', O + 'nloc/NLOCBackendMP-impl.hpp'), ('wake-up, completion and shutdown', O + 'nloc/NLOCBackendMP-impl.hpp'), ('line search over concurrent candidates', O + 'nloc/NLOCBackendMP-impl.hpp')],
     [('workerTask_, workersActive_', 'phase issued to the workers', O + 'nloc/NLOCBackendMP.hpp'), ('alphaBestFound_', 'line search decided', O + 'nloc/NLOCBackendMP.hpp')],
     'Protocol exhaustive for 2 and 3 workers, 2-3 phases, all acceptance patterns, with spurious wake-ups and late starters, including termination under fairness; real solver replayed with 2-6 threads under 8 perturbed schedules per run.', TECH % 'Workers (protocol) and Nloc (results)')
prop('C08', 'Every iteration of the optimal control solver is the documented algorithm',
     'From every initial guess and after every change of cost function, dynamics, initial state, horizon or settings, an iteration of each of the seven algorithms (GNMS, iLQR, MS-iLQR, open- and closed-loop single shooting, GNMS(M) open- and closed-loop) rolls the guess out on its shooting grid, solves the linear-quadratic subproblem around it and takes the documented step (with the documented feedback): the stored trajectory satisfies the dynamics exactly within shots, starts at the initial state, and its gaps between shots are exactly the reported defects; the reported cost, merit, step size and norms are those of the stored trajectory; with a line search the merit never increases, the largest acceptable step of the sequence is taken, candidates that are not numbers are never taken, and when none is acceptable everything stays as it was and convergence is reported; solve() stops at convergence or the iteration limit; prepare/finish and real-time iterations give the same as their whole. Policy, state and control trajectory and time grid agree with each other and with the current horizon; too short guesses and contradictory settings are refused.',
     ['histories', 'inputs'], 'all algorithms, shot lengths, line-search settings, guesses, and histories of iterations and changes',
     'The tests check convergence on easy problems; intermediate iterates, rejected steps, histories of changes and defects are not compared with anything.',
     [O + 'nloc/NLOCBackendBase-impl.hpp', O + 'nloc/NLOCBackendST-impl.hpp', O + 'nloc/algorithms/MultipleShooting-impl.hpp', O + 'nloc/algorithms/SingleShooting-impl.hpp', O + 'solver/NLOptConSolver-impl.hpp', O + 'solver/NLOptConSettings.hpp', O + 'solver/lqp/GNRiccatiSolver-impl.hpp'],
     [('shooting rollout and defects', O + 'nloc/NLOCBackendBase-impl.hpp'), ('line search acceptance', O + 'nloc/NLOCBackendBase-impl.hpp')],
     [('d_', 'gaps between shots', O + 'nloc/NLOCBackendBase.hpp'), ('lowestCost_', 'merit of the stored trajectory', O + 'nloc/NLOCBackendBase.hpp')],
     'Exact dyadic problem; run graph exhaustive to depth 5-6 over all algorithms, both line searches and two shot lengths; tours and random runs (horizons 1-4, up to 3 iterations per guess) replayed bit for bit, discrete- and continuous-time.', TECH % 'Nloc')
prop('C09', 'The LQ solver returns the optimum and gains of exactly the problem last set',
     'For every unconstrained discrete-time linear-quadratic optimal control problem (time-varying, affine dynamics, cross terms, linear cost terms, any number of stages), solving at once or stage by stage gives the optimal feedback gains, feed-forward terms, states and controls of that problem: with the documented correction of the control Hessian (none, a fixed shift, or raising its eigenvalues to epsilon), whatever problems of whatever length the same solver object solved before, and however solver and problem were brought together. The smallest eigenvalue reported is that of the Hessians met. Box constraints are stored relative to the nominal point at the stages and for the components named and only there, general constraints at every stage; malformed constraints are refused and change nothing; a constrained problem reports so and is refused by the Riccati solver; setting a problem to zero makes all its matrices zero and removes all constraints; a problem built from a time-invariant system and cost function has their matrices, running cost times the time step, at every stage.',
     ['inputs', 'histories'], 'all problem data, stage counts, Hessian corrections, and histories of problems solved with one solver object and of constraint settings',
     'The tests compare Riccati and HPIPM solvers on a handful of random problems; without HPIPM nothing is compared, and reuse of a solver or problem is not exercised.',
     [O + 'solver/lqp/GNRiccatiSolver-impl.hpp', O + 'solver/lqp/GNRiccatiSolver.hpp', O + 'solver/lqp/LQOCSolver.hpp', O + 'problem/LQOCProblem-impl.hpp', O + 'problem/LQOCProblem.hpp'],
     [('backward recursion', O + 'solver/lqp/GNRiccatiSolver-impl.hpp'), ('relative box constraints', O + 'problem/LQOCProblem-impl.hpp')],
     [('N_', 'number of stages the solver is sized for', O + 'solver/lqp/GNRiccatiSolver.hpp')],
     'The recursion is checked to satisfy the first-order conditions and not to be improvable on a catalogue of problems with 1-3 stages; catalogue and random problems (1-4 stages) replayed exactly on one solver object.', TECH % 'Lq')
prop('C10', 'LQR designs solve their Riccati equations and stabilise the system',
     'For every stabilisable system and admissible weights the steady-state discrete-time Riccati solver (cold or warm started), the continuous-time one and the LQR (iterative or direct, diagonal or full control weight) return the stabilising solution of the algebraic Riccati equation and its gain; a system whose unstable mode cannot be reached, or too few iterations, are refused instead of answered. One step of the dynamic Riccati equation, naive or robust, is the exact step for every positive-definite control Hessian, also with repeated eigenvalues. The finite-horizon LQR returns for each step the gain of the time-varying problem given by the weights, matrices or model derivatives at that step\'s state, control and time; trajectories of inconsistent length and, when numerical checks are on, inadmissible weights are refused. Results do not depend on what the object solved before.',
     ['inputs', 'histories'], 'all systems and weights, solver variants, horizons and histories of designs with one object',
     'The tests compare the two CARE solvers with each other on one system and check one DARE fixed point; repeated eigenvalues, time-varying models and refusals are not reached.',
     [O + 'lqr/LQR-impl.hpp', O + 'lqr/FHDTLQR-impl.hpp', O + 'lqr/riccati/DARE-impl.hpp', O + 'lqr/riccati/CARE-impl.hpp', O + 'lqr/riccati/DynamicRiccatiEquation.hpp'],
     [('regularised Riccati step', O + 'lqr/riccati/DynamicRiccatiEquation.hpp'), ('stable subspace selection', O + 'lqr/riccati/CARE-impl.hpp')],
     (), 'Certificates are shown optimal (Bellman/HJB inequality, cost along the closed loop) on a catalogue of 2x2 problems; catalogue and random designs replayed, compared with the certified solution within 2e-3.', TECH % 'Lqr')
K_ = O + 'constraint/'
prop('C11', 'Constraint containers stack exactly their terms, bounds and sparse Jacobians',
     'For every composition of box, terminal, obstacle and user-defined terms, a constraint container returns the values, lower and upper bounds, state and control Jacobians, row counts and non-zero counts of its terms, stacked in the order in which they were added, at the state, control and time last set (or given to its constructor), for intermediate and terminal constraints alike; the sparse Jacobian values together with the row and column patterns it reports describe the same matrix as the dense Jacobian, in the same order. Reported violations are exactly the distances by which values leave their bounds. Box constraints whose lower bound exceeds the upper or whose bounds do not fit the sparsity mask are refused; a container to which terms were added and that was not initialised since refuses evaluations. Changes of a term through the user\'s handle take effect; copies and clones answer like the original did when copied and are not affected by later changes of it. A switched constraint container answers with the container of the mode active at the time last set for intermediate, and of the last phase for terminal, constraints.',
     ['inputs', 'histories'], 'all lists of terms, masks, bounds, states, controls and times, and all histories of adding, initialising, changing, copying and evaluating',
     'The tests check a few fixed terms one by one; stacking offsets, sparse patterns of mixed lists, copies, refusals and switched containers are not compared.',
     [K_ + 'ConstraintContainerAnalytical-impl.h', K_ + 'ConstraintContainerBase-impl.h', K_ + 'LinearConstraintContainer-impl.h', K_ + 'SwitchedLinearConstraintContainer-impl.h', K_ + 'term/ConstraintBase-impl.h', K_ + 'term/BoxConstraintBase-impl.h', K_ + 'term/StateConstraint-impl.h', K_ + 'term/ControlInputConstraint-impl.h', K_ + 'term/TerminalConstraint-impl.h', K_ + 'term/ObstacleConstraint-impl.h', C + 'geometry/Ellipsoid.h'],
     [('row and column offsets of stacked terms', K_ + 'ConstraintContainerAnalytical-impl.h'), ('default sparsity pattern', K_ + 'term/ConstraintBase-impl.h')],
     [('initializedIntermediate_, initializedTerminal_', 'counts and bounds are up to date', K_ + 'LinearConstraintContainer.h')],
     'Edit/copy/evaluate graph exhaustive to depth 4-5 over a small catalogue; tours and random histories over all term kinds (with and without sparsity masks) replayed exactly.', TECH % 'Constr')
F_ = O + 'costfunction/'
prop('C12', 'A cost function is the sum of its active terms; derivatives are its own',
     'For every list of linear, quadratic, mixed, product, tracking and smooth-absolute terms with or without a time activation, a cost function returns as intermediate cost the sum of the intermediate terms, each scaled once by its activation at the (shifted) time last set, and as terminal cost the sum of the final terms; every first and second derivative it returns, analytical or numerical, is the derivative of exactly that sum with respect to state and control, and asking for it changes nothing. Tracking terms use their reference trajectory at that time. Changing the reference state or control, a weight or the time shift takes effect in the next evaluation of every term it concerns; terms loaded from a configuration file are the terms the file describes; copies and clones keep the current point and are independent of later changes of the original. The simple quadratic cost (symmetric weights) obeys the same. Time activations (single, recurring, ramped, bell-shaped, barrier) are active and scaled exactly as their parameters say, also at the ends of their windows.',
     ['inputs', 'histories'], 'all lists of terms, weights, references, activations, states, controls and times, and all histories of changes, copies and evaluations',
     'The tests compare analytical with numerical or generated derivatives at random points for a few terms without activation; values, activations, reference updates and copies are compared with nothing.',
     [F_ + 'CostFunctionAnalytical-impl.hpp', F_ + 'CostFunctionQuadratic-impl.hpp', F_ + 'CostFunctionQuadraticSimple-impl.hpp', F_ + 'CostFunction-impl.hpp', F_ + 'term/TermBase-impl.hpp', F_ + 'term/TermLinear-impl.hpp', F_ + 'term/TermQuadratic-impl.hpp', F_ + 'term/TermMixed-impl.hpp', F_ + 'term/TermQuadMult-impl.hpp', F_ + 'term/TermQuadTracking-impl.hpp', F_ + 'term/TermSmoothAbs-impl.hpp', C + 'common/activations/SingleActivation.hpp', C + 'common/activations/PeriodicActivation.hpp'],
     [('summation of active terms', F_ + 'CostFunctionQuadratic-impl.hpp'), ('time activation', F_ + 'term/TermBase-impl.hpp')],
     [('x_, u_, t_', 'point last set', F_ + 'CostFunction.hpp')],
     'Derivatives of the specified terms are checked against differences of the specified values on a catalogue; edit/copy/evaluate graph exhaustive to depth 4; tours and random histories replayed exactly (numerical derivatives within a rounding bound).', TECH % 'Cost')
D_ = O + 'dms/dms_core/'
prop('C13', 'The multiple-shooting NLP is the transcription of the current problem',
     'For every optimal control problem, number of shots, control parametrisation (piecewise constant or linear), fixed-step integrator, cost evaluation (at the nodes or along the trajectory), set of constraints and number of threads, the nonlinear program a direct multiple-shooting problem presents to its solver is the transcription of that problem: its constraint values are the initial-state error, the continuity gaps of every shot and the node and terminal constraints, in the order of the reported bounds; its cost is the documented quadrature of the running cost plus the terminal cost at the final time; its sparse Jacobian and its gradient are the derivatives of exactly these functions at the variables last set, whatever order the solver asks in and whatever it asked before. Changing the initial state, the time horizon or the initial guess takes effect in the following evaluations; the solution read back is what the solver (IPOPT or SNOPT interface) handed over, split into states, controls and times of the current grid; multipliers handed over are returned for a warm start. Guesses of wrong length are refused.',
     ['inputs', 'histories'], 'all problems, grids, parametrisations, variable vectors, directions, and histories of evaluations and changes',
     'The tests need IPOPT or SNOPT for end-to-end solves and otherwise compare a few matrices of one fixed example; neither solver is available here, and Jacobian offsets, caching and changes of horizon are not compared.',
     [D_ + 'DmsProblem.h', D_ + 'ShotContainer.h', D_ + 'TimeGrid.h', D_ + 'implementation/OptVectorDms-impl.h', D_ + 'spline/Linear/LinearSpliner.h', D_ + 'cost_evaluator/CostEvaluatorSimple.h', D_ + 'cost_evaluator/CostEvaluatorFull.h', O + 'dms/constraints/ContinuityConstraint.h', O + 'dms/constraints/InitStateConstraint.h', O + 'dms/constraints/ConstraintDiscretizer.h', O + 'dms/constraints/implementation/ConstraintsContainerDms-impl.h', O + 'nlp/Nlp.h', O + 'nlp/OptVector.h', O + 'nlp/DiscreteConstraintContainerBase.h', D_ + 'SensitivityIntegratorCT.h'],
     [('shot integration, cached per evaluation count', D_ + 'ShotContainer.h'), ('offsets of node variables and constraints', D_ + 'implementation/OptVectorDms-impl.h')],
     [('updateCount_', 'evaluation caches keyed by the update counter of the variables', O + 'nlp/OptVector.h')],
     'Derivatives of the specification are dual-number evaluations, checked against central differences for all changes to depth 3-4; tours and random histories (1-4 shots, 3 states, 2 controls) replayed, compared exactly as residues.', TECH % 'Dms')
W_ = O + 'filter/'
prop('C14', 'State estimators perform exactly the Kalman recursions of their models',
     'For every system and measurement model (nonlinear, time dependent, with state dependent noise derivatives) and every history of predictions, updates and changes of weights, models or estimate, the extended Kalman filter returns the propagated estimate and covariance, linearised at the previous estimate, the input and the time given, and the corrected estimate and covariance with the optimal gain at the predicted estimate and the time of the measurement; changing weights or models changes neither estimate nor covariance, and takes effect in the next step. The unscented filter propagates the weighted sigma points of its scaling parameters (given directly or by settings file) and returns their mean, and the correction by their cross covariance; for affine models it equals the linear recursion. The steady-state filter corrects with the gain of the stabilising solution of its Riccati equation, and when that cannot be found in the allowed iterations refuses and keeps its estimate. The continuous-time system model predicts with the integrator and linearises at the given state, input and time. An input-disturbed system moves like the nominal system with the disturbance added to the input and keeps the disturbance constant; clones are independent.',
     ['inputs', 'histories'], 'all models, weights, measurements, time steps and times, and histories of predictions, updates and changes',
     'No test exercises any filter; the examples run one time-invariant case and print it.',
     [W_ + 'ExtendedKalmanFilter-impl.h', W_ + 'UnscentedKalmanFilter-impl.h', W_ + 'SteadyStateKalmanFilter-impl.h', W_ + 'EstimatorBase.h', W_ + 'CTSystemModel-impl.h', W_ + 'LTIMeasurementModel-impl.h', W_ + 'FilterSettings.h', W_ + 'InputDisturbedSystem-impl.h', W_ + 'DisturbedSystemController-impl.h', W_ + 'DisturbedSystem-impl.h'],
     [('covariance prediction and correction', W_ + 'ExtendedKalmanFilter-impl.h'), ('sigma point weights', W_ + 'UnscentedKalmanFilter-impl.h')],
     [('P_', 'covariance', W_ + 'ExtendedKalmanFilter.h'), ('x_est_', 'estimate', W_ + 'EstimatorBase.h')],
     'Symmetry, Joseph form, optimality of the gain, commuting scalar updates and equality of sigma points and moments checked on the model to depth 3-4; random histories with exactly representable results replayed (up to 3 updates), steady-state filter against certified solutions.', TECH % 'Filter')
R_ = 'ct_rbd/include/ct/rbd/'
prop('C15', 'The robot joint layer plans, limits, controls and actuates as documented',
     'For every pair of positions, speed and acceleration limit, a planned joint motion starts at the start and ends at the target at rest, moves straight towards it, never exceeds speed or acceleration limit, is at one of the limits at every moment (so no feasible motion is faster), its velocity is the slope of its position, and a new plan forgets the one before; an arm motion plans every joint with its own limits and samples all of them at the requested interval until the slowest has arrived. Joint states return, joint by joint and as a whole, what was last written; position and velocity limit checks say exactly whether every joint is inside (with the tolerance given); joint angles are brought into the full turn starting at their lower limit by whole turns, leaving angles already inside (within the tolerance) alone and velocities untouched. The joint position PID computes for each joint its own PID law with its own gains, limits and set point; changing gains or set points changes nothing else. Second-order actuators amplify a constant input by their static gain, with the dynamics of each joint\'s own frequency and damping; series elastic actuators return stiffness times deflection; the control that an actuator reports for a desired torque, and the state for a desired position, reproduce them. The selection matrix selects the actuated joints; joint velocities for an end-effector velocity, singular values, condition number and manipulability are those of the Jacobian given; the inverse kinematics choice is a solution closest to the query; per-link data maps keep what was stored per link. Copies and clones are independent.',
     ['inputs', 'histories'], 'all plans, joint states, limits, gains, actuator parameters, Jacobians, solution sets and histories of changes and calls',
     'The robot part is not built without kindr; of its tests only one of joint limits and angle ranges with a handful of values runs here.',
     [R_ + 'state/JointState.h', R_ + 'state/JointAcceleration.h', R_ + 'common/SimpleArmTrajectoryGenerator.h', R_ + 'common/math/JacobiSingularity.h', R_ + 'robot/actuator/SecondOrderActuatorDynamics-impl.h', R_ + 'robot/actuator/SEADynamicsFirstOrder-impl.h', R_ + 'robot/control/JointPositionPIDController-impl.h', R_ + 'robot/control/SelectionMatrix-impl.h', R_ + 'robot/kinematics/RBDDataMap.h', R_ + 'robot/kinematics/InverseKinematicsBase.h'],
     [('trapezoidal or bang-bang profile', R_ + 'common/SimpleArmTrajectoryGenerator.h'), ('whole turns into the limits', R_ + 'state/JointState.h')],
     (), 'Profiles checked for limits, slope, direction and time optimality for all plans of a catalogue, with histories of replanning to depth 2-3; tours and random histories replayed exactly.', TECH % 'Robot')
prop('C16', 'Numerical and automatic derivatives are the derivatives of the given function',
     'For every function of fixed or dynamic input and output dimension, the derivative objects return its value and its Jacobian at the given point (one- and two-sided finite differences within their documented accuracy, automatic differentiation exactly), automatic differentiation also the Hessian of the output combination with the given weights; sparse values with the row and column indices reported with them describe the same matrices; an operation a derivative object does not offer is refused. The automatic linearisers of continuous- and discrete-time systems return the state and control Jacobian of the system\'s dynamics at the given state and control. Replacing the function replaces all later answers, and clones keep answering for the function they were made from, independently of the original. The linear solvers for automatic-differentiation scalars (LU and LDLT, without pivoting) return the solution of the system given whenever the leading minors are not zero.',
     ['inputs', 'histories'], 'all (polynomial) functions, points, weights, systems and histories of constructions, updates, clones and evaluations in any order',
     'The tests compare one fixed example function and mostly need code generation, which is not available; clones, updates, dynamic sizes, sparse indices and the solvers are not compared.',
     [C + 'math/DerivativesNumDiff.h', C + 'math/DerivativesCppad.h', C + 'math/Derivatives.h', C + 'math/Inverses.h', C + 'systems/linearizer/DynamicsLinearizerAD.h', C + 'systems/linearizer/DynamicsLinearizerADBase.h', C + 'systems/continuous_time/linear/AutoDiffLinearizer.h', C + 'systems/discrete_time/linear/DiscreteSystemLinearizerAD.h', C + 'internal/autodiff/SparsityPattern.h'],
     [('central and forward differences', C + 'math/DerivativesNumDiff.h'), ('recorded operation sequence', C + 'math/DerivativesCppad.h')],
     [('adCppadFun_', 'recorded function', C + 'math/DerivativesCppad.h')],
     'Specified derivatives checked against differences of the specified values and for independence of clones, graph exhaustive to depth 3; tours and random polynomial functions replayed (automatic ones exactly, numerical within their error bound).', TECH % 'Deriv')
prop('C17', 'Settings loaded from a file are exactly what the file says',
     'For every settings file, name space and previous contents, loading settings of the nonlinear optimal control solver (with its line search and LQ solver sections), the NLP solvers (IPOPT, SNOPT), direct multiple shooting, automatic differentiation, MPC and the steady-state Kalman filter takes over every recognised entry found in the given name space, whatever other entries the file has or lacks and in whatever order they stand; settings without an entry keep their value (or get their documented default: maximum step length = initial step length, not adaptive); only the section of the selected NLP solver is read; a missing required entry is refused with an exception. Matrices are read entry by entry, missing entries being zero, times their scaling; missing optional scalars become the default given, missing scalars are refused. Settings no file was loaded into have the library\'s default values and pass their own check. The validity checks accept exactly the settings within the documented bounds; the number of stages of a horizon is the nearest integer multiple of the sampling time, at least one, and negative horizons are refused; each algorithm is classified as open- or closed-loop and single or multiple shooting as its name says. Loading changes only the object it is called on.',
     ['inputs', 'histories'], 'all combinations of present and missing entries, values, name spaces and previous contents, and histories of loads, changes and copies',
     'The tests load two fixed complete files and check none of the values.',
     [O + 'solver/NLOptConSettings.hpp', O + 'nlp/solver/NlpSolverSettings.h', O + 'dms/dms_core/DmsSettings.h', O + 'mpc/MpcSettings.h', O + 'filter/FilterSettings.h', C + 'math/DerivativesCppadSettings.h', C + 'common/InfoFileParser.h'],
     [('entries looked up one by one below the name space', O + 'solver/NLOptConSettings.hpp')],
     (), 'Loading shown idempotent, complete and local on the model for all single missing or present entries of every class; the same files (with decoys in other name spaces) and random files replayed exactly.', TECH % 'Settings')
M_ = 'ct_models/include/ct/models/'
I_ = 'ct_rbd/include/ct/iit/rbd/'
prop('C18', 'The robot models move as rigid-body mechanics says their links must',
     'For every generated robot model (inverted and double inverted pendulum, HyA arm, quadrotor with load, HyQ quadruped), every joint configuration, velocity, acceleration, set of link inertias and external wrenches: every homogeneous, motion and force transform is the rigid transform between the two frames it names on the robot\'s kinematic tree, every Jacobian maps joint velocities to the velocity of its frame, the centre of mass and the link masses are those of the links; inverse dynamics (with and without the gravity and Coriolis parts alone, with given or previously set joint state, fixed or floating base, fully actuated or not) returns the forces of the Newton-Euler equations; the joint-space inertia matrix is the mass matrix of these equations, its factor and its inverse are a factor and the inverse of it, floating base included; forward dynamics is the inverse of inverse dynamics. The quadrotor model\'s state derivative, linearisation and input matrix are those of a rigid body with its mass, inertia and angles. The spatial-algebra helpers below (cross products, inertia objects and their changes of mass, centre of mass and frame, bias forces, articulated inertias of revolute and prismatic joints, rotation matrices) compute what their definitions say, for every argument.',
     ['inputs', 'histories'], 'all joint configurations, velocities, accelerations, inertias, wrenches and frames of the five robots, the quadrotor, and histories of setting the joint state, replacing inertias and calls',
     'The models are not exercised by any test that runs here: the robot part is not built without kindr, and its tests compare one implementation of the library with another.',
     [M_ + 'HyA/generated/', M_ + 'HyQ/generated/', M_ + 'InvertedPendulum/generated/', M_ + 'DoubleInvertedPendulum/generated/', M_ + 'QuadrotorWithLoad/generated/', M_ + 'Quadrotor/Quadrotor.hpp', M_ + 'Quadrotor/QuadrotorLinear.hpp', 'ct_models/src/Quadrotor/A_quadrotor.cpp', 'ct_models/src/Quadrotor/B_quadrotor.cpp', 'ct_models/src/Quadrotor/quadrotor_ode.cpp', I_ + 'InertiaMatrix.h', I_ + 'robcogen_commons.h', I_ + 'utils.h', I_ + 'StateDependentMatrix.h'],
     [('recursive Newton-Euler passes', M_ + 'HyQ/generated/inverse_dynamics.impl.h'), ('articulated-body forward dynamics', M_ + 'HyQ/generated/forward_dynamics.impl.h'), ('composite inertias', M_ + 'HyQ/generated/jsim.impl.h')],
     [('joint state', 'joint state last set in the dynamics objects', M_ + 'HyQ/generated/inverse_dynamics.h')],
     'Laws of mechanics (rigid transforms, power, symmetric inertia, linearity in the acceleration, virtual work) checked on the model along a walk through configurations of all robots; every transform and Jacobian of every robot and random dynamics queries replayed and compared exactly (as residues) with Newton-Euler in three-vectors; joint angles with rational sine and cosine.', TECH % 'Rbd')

prop('C19', 'Robot states, contacts and robot dynamics systems agree with the robot they wrap',
     'For every robot and every input: a rigid-body pose means the same pose whatever its storage (Euler angles or quaternion) and however it was set, composed, copied or expressed in another reference frame; every vector form of a robot state (Euler, unique Euler, quaternion, raw, coordinate, with or without actuator state, fixed or floating base) round-trips to the same state, and state-update vectors are its time derivative; end-effector poses, velocities and the mapping of end-effector forces to link wrenches agree with the robot\'s kinematics, for each end-effector and link; constraint Jacobians have the stacked end-effector Jacobians as rows (zero for end-effectors not in contact), their time derivative and a null-space projector; the dynamics interface solves the equations of motion it names (fixed and floating base, forward and inverse, projected on contacts with no force on free feet and no acceleration of feet in contact) with the given gravity, base acceleration and external forces; the robot systems (fixed base with or without actuators and end-effector inputs, symplectic, floating base, projected, kinematic), also cloned ones, have these accelerations as their derivatives; contact forces are spring and damper forces of the active end-effectors in contact only; the linearisation of a robot system is the derivative of its dynamics; inverse-kinematics solutions reach the pose within joint limits and include the generating configuration; task-space costs have the value and derivatives of the end-effector error.',
     ['inputs', 'histories'], 'all poses, joint configurations, velocities, forces, contact sets, storages and system variants of the five robots, and histories of setting poses, inertias and solvers',
     'No test of this part is built here (kindr is missing), and its own tests compare a handful of random states of one or two robots.',
     [R_ + 'state/RigidBodyPose.h', R_ + 'state/RBDState.h', R_ + 'state/RBDAcceleration.h', R_ + 'state/FloatingBaseRobotState.h', R_ + 'state/FixBaseRobotState.h', R_ + 'robot/Kinematics.h', R_ + 'robot/Dynamics.h', R_ + 'robot/ProjectedDynamics.h', R_ + 'robot/jacobian/', R_ + 'robot/robcogen/', R_ + 'physics/EEContactModel.h', R_ + 'systems/', R_ + 'systems/linear/RbdLinearizer.h', R_ + 'robot/costfunction/TermTaskspaceGeometricJacobian.hpp', M_ + 'HyA/HyAInverseKinematics.h'],
     [('mapping of end-effector forces to links', R_ + 'robot/Kinematics.h'), ('gravity and base acceleration', R_ + 'robot/Dynamics.h'), ('null-space projection', R_ + 'robot/ProjectedDynamics.h'), ('storage of a pose', R_ + 'state/RigidBodyPose.h')],
     [('pose storage', 'which of the two representations a pose holds', R_ + 'state/RigidBodyPose.h'), ('end-effectors', 'link of each end-effector', R_ + 'robot/Kinematics.h')],
     'Laws between the parts of the model (Jacobian and velocity, power, angle rates, group of poses) checked by TLC; random sessions of every robot replayed into the real classes (kindr replaced by a stand-in) and compared exactly, or by the residual of the defining equation where the result is not rational.', TECH % 'RbdSys')

prop('C20', 'Quantisation, noise, geometry and stop watches keep their documented laws',
     'For every history of calls: quantisation returns whole multiples of its interval (rounded down or to nearest) plus the bias, carries the rest of each index to the next call with that index - so that over any number of calls nothing is lost - and forgets it on reset; indices, vector entries and copied objects do not influence each other; uniform and Gaussian noise have the given mean and half-width or standard deviation, uniform noise never leaves its interval, entries are drawn separately, and perturbing a value adds such a sample; a plane returns the coefficients it was last given, solving it for one coordinate gives a point of the plane, and an estimated plane is the least-squares fit (refused below three points); an ellipsoid contains a point exactly if its value is not positive and takes its orientation from a quaternion; a stop watch returns the time between its last start and stop, whatever was measured before; a stored control trajectory returns what was last set, copies are own.',
     ['inputs', 'histories'], 'all values, intervals, indices and orders of calls',
     'The tests construct one object and look at one or two values; carried rests, resets, many indices and copies are never exercised.',
     [C + 'common/QuantizationNoise.h', C + 'common/UniformNoise.h', C + 'common/GaussianNoise.h', C + 'geometry/Plane.h', C + 'geometry/PlaneEstimator.h', C + 'geometry/Ellipsoid.h', C + 'common/Timer.h', C + 'common/ExternallyDrivenTimer.h', C + 'control/continuous_time/ConstantTrajectoryController.h', C + 'control/continuous_time/mimo/LinearFunctions.h'],
     [('quantisation step', C + 'common/QuantizationNoise.h'), ('least squares', C + 'geometry/PlaneEstimator.h'), ('elapsed time', C + 'common/Timer.h')],
     [('quantizationRest_', 'rest of every index', C + 'common/QuantizationNoise.h'), ('start_time, stop_time', 'stamps of a stop watch', C + 'common/Timer.h')],
     'Conservation (inputs = outputs + rest), bounds of the rest and independence of objects checked by TLC over all histories of the bounded model; transition tours and random histories replayed into the real classes and compared exactly; least squares by its normal equations; random generators by their support and by statistics beyond eight standard deviations.', TECH % 'Util')

prop('C21', 'Robot controllers, task spaces and inverse kinematics act on the true robot',
     'For every robot state, gain, target and order of calls: a Jacobian taken from the base to the world has the velocity of its point for every base and joint velocity, and its time derivative the acceleration; a task-space Jacobian, its derivative, its (weighted) right inverse and its null-space projector are those of the state and weighting last given, in whatever order they are asked for; the full-body model has the inertia, Coriolis, gravity, selection and contact terms of the robot\'s equations of motion in that state, and the operational-space model accelerates the task exactly as these equations accelerate the robot, its velocities, accelerations and positions being those of the task; the floating-base inverse-dynamics controller asks for the acceleration of its gains times the error (orientation error in the current base frame, position error weighted in the world) to the desired state last set, and returns the torques of projected inverse dynamics for it, with or without gravity; the whole-body controller is the joint controller on the joint part of the state; the LQR around a set point applies the torques that hold the set point minus its gain times the deviation, the gain being the stabilising Riccati gain of the linearised robot there, also in copies; the inverse-kinematics program has the joint angles last given as variables, the joint limits as bounds, the weighted pose error to the target last set as cost, its derivative as gradient and the Gauss-Newton Hessian plus regulariser, times the objective factor; optimal control of a fixed-base robot starts from the states, gains and controls it is given (explicitly, standing still or interpolated between two poses; the controls are the torques holding each pose), has that many stages and times, and then iterates as the solver given the same problem directly.',
     ['inputs', 'histories'], 'all robot states, gains, targets, weights and histories of settings, updates and queries',
     'No test of this part is built here (kindr is missing); its own tests use a task whose Jacobian is constant and one pose.',
     [R_ + 'robot/jacobian/FrameJacobian.h', R_ + 'robot/jacobian/OperationalJacobianBase.h', R_ + 'operationalSpace/rigid_body/', R_ + 'robot/control/IDControllerFB.h', R_ + 'robot/control/WholeBodyController-impl.h', R_ + 'robot/control/InfiniteHorizonLQRwithInverseDynamics.h', R_ + 'robot/kinematics/ik_nlp/', R_ + 'nloc/FixBaseNLOC-impl.h'],
     [('flags of cached quantities', R_ + 'robot/jacobian/OperationalJacobianBase.h'), ('operational-space terms', R_ + 'operationalSpace/rigid_body/OperationalModel.h'), ('desired acceleration', R_ + 'robot/control/IDControllerFB.h')],
     [('JUpdated_ ...', 'which quantities were computed since the last update', R_ + 'robot/jacobian/OperationalJacobianBase.h'), ('desState_, Kp_, Kd_', 'set point and gains', R_ + 'robot/control/IDControllerFB.h'), ('id_torques_, K_', 'design of the LQR', R_ + 'robot/control/InfiniteHorizonLQRwithInverseDynamics.h')],
     'Laws between the parts of the model (world Jacobian and velocity, its derivative and acceleration, gradient and value of the cost, zero demand at the set point) checked by TLC along walks through configurations; random histories replayed into the real classes (kindr replaced by a stand-in) and compared exactly, or by the residual of the defining equation where the result is not rational.', TECH % 'RbdCtl')
