// Conformance harness for spec/Settings.tla: settings written to a file (below a name space, next to entries of another name
// space with other values) and loaded by the real loaders.
#include <unistd.h>
#include <ct/optcon/optcon.h>
#include "common.h"
using namespace ct::core;
using namespace ct::optcon;
using vp::Args;
using vp::Rec;
typedef NLOptConSettings NL;
typedef LineSearchSettings LS;
typedef NL::APPROXIMATION AP;
struct Obj
{
    LS ls; LQOCSolverSettings lq; NL nl; SnoptSettings sn; IpoptSettings ip; NlpSolverSettings np; DerivativesCppadSettings cp;
    DmsSettings dm; mpc_settings mp; SteadyStateKalmanFilterSettings<2> kf;
};
struct Field
{
    std::string key, type;                       // d: thousandths, i: integer, b: flag, or the names of the values separated by |
    std::function<double(Obj&)> get;             // in the unit of the specification (named values: position in the list)
    std::function<void(Obj&, long)> set;
};
static std::vector<std::string> names(const std::string& s)
{
    std::vector<std::string> v; std::stringstream q(s); std::string w;
    while (std::getline(q, w, '|')) v.push_back(w);
    return v;
}
#define D(k, m) Field{k, "d", [](Obj& o) { return o.m * 1000.0; }, [](Obj& o, long v) { o.m = v / 1000.0; }}
#define I(k, m) Field{k, "i", [](Obj& o) { return double(o.m); }, [](Obj& o, long v) { o.m = decltype(o.m)(v); }}
#define B(k, m) Field{k, "b", [](Obj& o) { return double(o.m); }, [](Obj& o, long v) { o.m = v != 0; }}
#define S(k, m, L) Field{k, L, [](Obj& o) { auto n = names(L); for (size_t i = 0; i < n.size(); i++) if (n[i] == o.m) return double(i); return -1.0; }, [](Obj& o, long v) { o.m = names(L)[v]; }}
#define EN(k, m, L, T, ...) Field{k, L, [](Obj& o) { const T t[] = {__VA_ARGS__}; for (size_t i = 0; i < sizeof(t) / sizeof(T); i++) if (t[i] == o.m) return double(i); return -1.0; }, [](Obj& o, long v) { const T t[] = {__VA_ARGS__}; o.m = t[v]; }}
static std::vector<Field> lineSearch(const std::string& p)
{
#define LSF(X) {EN(p + "type", X.type, "NONE|SIMPLE|ARMIJO|GOLDSTEIN", LS::TYPE, LS::NONE, LS::SIMPLE, LS::ARMIJO, LS::GOLDSTEIN), I(p + "maxIterations", X.maxIterations), D(p + "alpha_0", X.alpha_0), D(p + "n_alpha", X.n_alpha), B(p + "debugPrint", X.debugPrint), D(p + "armijo_parameter", X.armijo_parameter), B(p + "adaptive", X.adaptive), D(p + "alpha_max", X.alpha_max)}
    if (p == "") return LSF(ls);
    return LSF(nl.lineSearchSettings);
}
#define LQF(p, X) I(p "num_lqoc_iterations", X.num_lqoc_iterations), B(p "lqoc_debug_print", X.lqoc_debug_print)
#define SNF(p, X) I(p "MaxMinorIterations", X.minor_iteration_limit_param_), I(p "MaxMajorIterations", X.major_iteration_limit_param_), I(p "MinorPrintLevelVerbosity", X.minor_print_level_param_), I(p "MajorPrintLevelVerbosity", X.major_print_level_param_), D(p "OptimalityTolerance", X.major_optimality_tolerance_param_)
#define IPF(p, X) I(p "MaxIterations", X.max_iter_), \
    Field{p "CheckDerivatives", "b", [](Obj& o) { return o.X.derivativeTest_ == "first-order" ? 1.0 : o.X.derivativeTest_ == "none" ? 0.0 : -1.0; }, [](Obj& o, long v) { o.X.derivativeTest_ = v ? "first-order" : "none"; }}, \
    Field{p "ExactHessian", "b", [](Obj& o) { return o.X.hessian_approximation_ == "exact" ? 1.0 : o.X.hessian_approximation_ == "limited-memory" ? 0.0 : -1.0; }, [](Obj& o, long v) { o.X.hessian_approximation_ = v ? "exact" : "limited-memory"; }}, \
    I(p "Verbosity", X.printLevel_), D(p "OptimalityTolerance", X.tol_), S(p "jacobianApproximation", X.jacobianApproximation_, "exact|finite-difference-values"), D(p "restoAcceptableTol", X.restoAcceptableTol_), D(p "constr_viol_tol", X.constr_viol_tol_), D(p "restoTol", X.restoTol_), D(p "acceptableTol", X.acceptableTol_), S(p "linear_scaling_on_demand", X.linear_scaling_on_demand_, "no|yes"), S(p "nlp_scaling_method", X.nlp_scaling_method_, "none|gradient-based|user-scaling"), S(p "print_user_options", X.print_user_options_, "no|yes"), S(p "printInfoString", X.printInfoString_, "no|yes"), D(p "derivativeTestTol", X.derivativeTestTol_), D(p "derivativeTestPerturbation", X.derivativeTestPerturbation_), D(p "point_perturbation_radius", X.point_perturbation_radius_), S(p "checkDerivativesForNaninf", X.checkDerivativesForNaninf_, "no|yes"), S(p "derivativeTestPrintAll", X.derivativeTestPrintAll_, "no|yes"), S(p "linear_solver", X.linear_solver_, "mumps|ma27|ma57"), S(p "linearSystemScaling", X.linearSystemScaling_, "none|mc19")
#define NPF(p, X) EN(p "SolverType", X.solverType_, "0|1", NlpSolverType, NlpSolverType::IPOPT, NlpSolverType::SNOPT), B(p "UseGeneratedCostGradient", X.useGeneratedCostGradient_), B(p "UseGeneratedConstraintJacobian", X.useGeneratedConstraintJacobian_), IPF(p "ipopt.", X.ipoptSettings_), SNF(p "snopt.", X.snoptSettings_)
#define CPF(p, X) B(p "MultiThreading", X.multiThreading_), B(p "CreateForwardZero", X.createForwardZero_), B(p "CreateForwardOne", X.createForwardOne_), B(p "CreateReverseOne", X.createReverseOne_), B(p "CreateReverseTwo", X.createReverseTwo_), B(p "CreateJacobian", X.createJacobian_), B(p "CreateSparseJacobian", X.createSparseJacobian_), B(p "CreateHessian", X.createHessian_), B(p "CreateSparseHessian", X.createSparseHessian_), I(p "MaxAssignements", X.maxAssignements_), B(p "GenerateSourceCode", X.generateSourceCode_), B(p "UseDynamicLibrary", X.useDynamicLibrary_), EN(p "Compiler", X.compiler_, "GCC|CLANG|OTHER", DerivativesCppadSettings::CompilerType, DerivativesCppadSettings::GCC, DerivativesCppadSettings::CLANG)
static const std::vector<Field>& fields(int c)
{
    static std::vector<std::vector<Field>> T;
    if (T.empty())
    {
        std::vector<Field> nl = {D("epsilon", nl.epsilon), B("timeVaryingDiscretization", nl.timeVaryingDiscretization), D("min_cost_improvement", nl.min_cost_improvement), D("maxDefectSum", nl.maxDefectSum), D("meritFunctionRho", nl.meritFunctionRho), D("meritFunctionRhoConstraints", nl.meritFunctionRhoConstraints), I("max_iterations", nl.max_iterations), I("nThreads", nl.nThreads), S("loggingPrefix", nl.loggingPrefix, "alg|ilqr|gnms"), B("debugPrint", nl.debugPrint), B("printSummary", nl.printSummary), B("useSensitivityIntegrator", nl.useSensitivityIntegrator), B("logToMatlab", nl.logToMatlab), D("dt", nl.dt), I("K_sim", nl.K_sim), I("K_shot", nl.K_shot), I("nThreadsEigen", nl.nThreadsEigen), B("recordSmallestEigenvalue", nl.recordSmallestEigenvalue), B("fixedHessianCorrection", nl.fixedHessianCorrection),
            EN("integrator", nl.integrator, "Euler|RK4|MODIFIED_MIDPOINT|ODE45|RK5VARIABLE|RK78|BULIRSCHSTOER|EulerCT|RK4CT|Euler_Sym|Rk_Sym", IntegrationType, EULER, RK4, MODIFIED_MIDPOINT, ODE45, RK5VARIABLE, RK78, BULIRSCHSTOER, EULERCT, RK4CT, EULER_SYM, RK_SYM),
            EN("discretization", nl.discretization, "Forward_euler|Backward_euler|Symplectic_euler|Tustin|Matrix_exponential", AP, AP::FORWARD_EULER, AP::BACKWARD_EULER, AP::SYMPLECTIC_EULER, AP::TUSTIN, AP::MATRIX_EXPONENTIAL),
            EN("nlocp_algorithm", nl.nlocp_algorithm, "GNMS|ILQR|MS_ILQR|SS_OL|SS_CL|GNMS_M_OL|GNMS_M_CL", NL::NLOCP_ALGORITHM, NL::GNMS, NL::ILQR, NL::MS_ILQR, NL::SS_OL, NL::SS_CL, NL::GNMS_M_OL, NL::GNMS_M_CL),
            EN("locp_solver", nl.lqocp_solver, "GNRICCATI_SOLVER|HPIPM_SOLVER", NL::LQOCP_SOLVER, NL::GNRICCATI_SOLVER, NL::HPIPM_SOLVER)};
        for (auto& f : lineSearch("line_search.")) nl.push_back(f);
        for (auto& f : std::vector<Field>{LQF("lqoc_solver_settings.", nl.lqoc_solver_settings)}) nl.push_back(f);
        T = {{}, lineSearch(""), {LQF("", lq)}, nl, {SNF("", sn)}, {IPF("", ip)}, {NPF("", np)}, {CPF("", cp)},
            {I("N", dm.N_), D("T", dm.T_), I("nThreads", dm.nThreads_), EN("InterpolationType", dm.splineType_, "0|1", DmsSettings::SplineType_t, DmsSettings::ZERO_ORDER_HOLD, DmsSettings::PIECEWISE_LINEAR), EN("CostEvaluationType", dm.costEvaluationType_, "0|1", DmsSettings::CostEvaluationType_t, DmsSettings::SIMPLE, DmsSettings::FULL), EN("ObjectiveType", dm.objectiveType_, "0|1", DmsSettings::ObjectiveType_t, DmsSettings::KEEP_TIME_AND_GRID, DmsSettings::OPTIMIZE_GRID), D("h_min", dm.h_min_), EN("IntegrationType", dm.integrationType_, "0|1|2", DmsSettings::IntegrationType_t, DmsSettings::EULER, DmsSettings::RK4, DmsSettings::RK5), D("dt_sim", dm.dt_sim_), D("AbsErrTol", dm.absErrTol_), D("RelErrTol", dm.relErrTol_), NPF("solver.", dm.solverSettings_), CPF("cppad.", dm.cppadSettings_)},
            {B("measureDelay", mp.measureDelay_), B("stateForwardIntegration", mp.stateForwardIntegration_), D("stateForwardIntegration_dt", mp.stateForwardIntegration_dt_), EN("stateForwardIntegratorType", mp.stateForwardIntegratorType_, "0|1|2|3|4|5|6|7|8|9|10", IntegrationType, EULER, RK4, MODIFIED_MIDPOINT, ODE45, RK5VARIABLE, RK78, BULIRSCHSTOER, EULERCT, RK4CT, EULER_SYM, RK_SYM), I("fixedDelayUs", mp.fixedDelayUs_), I("additionalDelayUs", mp.additionalDelayUs_), D("timeHorizon", mp.minimumTimeHorizonMpc_), B("coldStart", mp.coldStart_), B("postTruncation", mp.postTruncation_), D("delayMeasurementMultiplier", mp.delayMeasurementMultiplier_), B("useExternalTiming", mp.useExternalTiming_)},
            {D("x0.(0,0)", kf.x0(0)), D("x0.(1,0)", kf.x0(1)), I("maxDAREIterations", kf.maxDAREIterations)}};
    }
    return T.at(c);
}
struct Run : vp::Session
{
    Obj o[3];
    std::string file;
    Run() { char t[] = "/tmp/vp_set_XXXXXX"; int fd = mkstemp(t); if (fd >= 0) close(fd); file = t; }
    ~Run() { unlink(file.c_str()); }
    static std::string text(const Field& f, long v, bool decoy)
    {
        char b[64];
        if (f.type == "d") { std::snprintf(b, sizeof b, "%.3f", v / 1000.0 + decoy); return b; }
        if (f.type == "i") return std::to_string(v + decoy);
        if (f.type == "b") return (v != 0) != decoy ? (decoy ? "1" : "true") : (decoy ? "0" : "false");
        auto n = names(f.type);
        return n[(v + decoy) % n.size()];
    }
    struct Node { std::string val; std::vector<std::pair<std::string, Node>> sub; };
    static void put(Node& n, const std::string& key, const std::string& v)
    {
        auto p = key.find('.');
        std::string h = key.substr(0, p);
        auto it = n.sub.begin();
        while (it != n.sub.end() && it->first != h) ++it;
        if (it == n.sub.end()) it = n.sub.insert(n.sub.end(), {h, Node()});
        if (p == std::string::npos) it->second.val = v; else put(it->second, key.substr(p + 1), v);
    }
    static void write(std::ostream& s, const Node& n)
    {
        for (auto& c : n.sub)
        {
            s << c.first;
            if (c.second.sub.empty()) s << " " << c.second.val << "\n";
            else { s << "\n{\n"; write(s, c.second); s << "}\n"; }
        }
    }
    void save(const Node& n) { std::ofstream f(file); write(f, n); }
    void op(const std::string& op, const Args& a, Rec& out) override
    {
        if (op == "init") { Obj& q = o[a[0]]; const auto& F = fields(a[1]); Obj fresh; assign(q, fresh, a[1]); for (size_t i = 0; i < F.size(); i++) F[i].set(q, a[2 + i]); }
        else if (op == "dfl") { Obj n; for (auto& f : fields(a[0])) out.exact(f.get(n)); out.i(a[0] == 1 ? n.ls.parametersOk() : a[0] == 3 ? n.nl.parametersOk() : a[0] == 8 ? n.dm.parametersOk() : true); }
        else if (op == "set") fields(a[1])[a[2] - 1].set(o[a[0]], a[3]);
        else if (op == "cp") assign(o[a[1]], o[a[0]], a[2]);
        else if (op == "get") for (auto& f : fields(a[1])) out.exact(f.get(o[a[0]]));
        else if (op == "load")   // slot, class, name space, verbose, field, value, ...
        {
            const auto& F = fields(a[1]);
            static const char* NS[] = {"alg", "first.second", "x"};
            std::string ns = a[1] == 9 ? "mpc" : NS[a[2]], other = a[1] == 9 ? "mpc2" : a[2] == 1 ? "first.other" : "other";
            Node n; put(n, "unused", "1");
            for (size_t i = 4; i + 1 < a.size(); i += 2) { put(n, other + "." + F[a[i] - 1].key, text(F[a[i] - 1], a[i + 1], true)); put(n, F[a[i] - 1].key, text(F[a[i] - 1], a[i + 1], true)); }
            for (size_t i = 4; i + 1 < a.size(); i += 2) put(n, ns + "." + F[a[i] - 1].key, text(F[a[i] - 1], a[i + 1], false));
            save(n);
            Obj& q = o[a[0]]; bool v = a[3] != 0;
            switch (a[1])
            {
                case 1: q.ls.load(file, v, ns); break;
                case 2: q.lq.load(file, v, ns); break;
                case 3: if (a[3] == 2) q.nl = NL::fromConfigFile(file, v, ns); else q.nl.load(file, v, ns); break;
                case 4: q.sn.load(file, v, ns); break;
                case 5: q.ip.load(file, v, ns); break;
                case 6: q.np.load(file, v, ns); break;
                case 7: q.cp.load(file, v, ns); break;
                case 8: q.dm.load(file, v, ns); break;
                case 9: loadMpcSettings(file, q.mp); if (v) q.mp.print(); break;
                case 10: q.kf.load(file, v, ns); break;
                default: throw vp::bad("class");
            }
        }
        else if (op == "ok") out.i(a[1] == 1 ? o[a[0]].ls.parametersOk() : a[1] == 3 ? o[a[0]].nl.parametersOk() : o[a[0]].dm.parametersOk());
        else if (op == "K") out.i(o[a[0]].nl.computeK(a[1] / 1000.0));
        else if (op == "alg") { NL& q = o[a[0]].nl; out.i(q.closedLoopShooting()); out.i(q.isSingleShooting()); out.exact(q.getSimulationTimestep() * q.K_sim, 1000.0); }
        else if (op == "mat")    // rows, columns, name space, scaling (0: none), entries: row, column, value
        {
            Node n; std::string p = a[2] ? "here." : "";
            if (a[3]) put(n, p + "M.scaling", std::to_string(a[3]));
            put(n, "there.M.(0,0)", "77"); put(n, p + "N.(0,0)", "78"); put(n, p + "M.other", "5");
            for (size_t i = 4; i + 2 < a.size(); i += 3) put(n, p + "M.(" + std::to_string(a[i]) + "," + std::to_string(a[i + 1]) + ")", std::to_string(a[i + 2]));
            save(n);
            if (a[0] == 2 && a[1] == 3) { Eigen::Matrix<double, 2, 3> m; loadMatrix(file, "M", m, p); out.mat(m); }
            else if (a[0] == 3 && a[1] == 1) { Eigen::Matrix<double, 3, 1> m; loadMatrix(file, "M", m, p); out.mat(m); }
            else { Eigen::MatrixXd m(a[0], a[1]); loadMatrix(file, "M", m, p); out.mat(m); }
        }
        else if (op == "sc")     // optional, in name space, present, value, default
        {
            Node n; std::string p = a[1] ? "here." : "";
            put(n, "there.s", "33"); put(n, p + "r", "34");
            if (a[2]) put(n, p + "s", std::to_string(a[3]));
            save(n);
            int v = 0; double w = 0;
            if (a[0]) { loadScalarOptional(file, "s", v, int(a[4]), p); loadScalarOptional(file, "s", w, double(a[4]), p); }
            else { loadScalar(file, "s", v, p); loadScalar(file, "s", w, p); }
            out.i(v); out.exact(w);
        }
        else throw vp::bad(op);
    }
    static void assign(Obj& t, const Obj& f, int c)
    {
        switch (c)
        {
            case 1: t.ls = f.ls; break; case 2: t.lq = f.lq; break; case 3: t.nl = f.nl; break; case 4: t.sn = f.sn; break; case 5: t.ip = f.ip; break;
            case 6: t.np = f.np; break; case 7: t.cp = f.cp; break; case 8: t.dm = f.dm; break; case 9: t.mp = f.mp; break; default: t.kf = f.kf;
        }
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, [] { return new Run; }); }
