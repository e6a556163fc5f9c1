// Conformance harness for spec/Util.tla: quantisation, noise, planes, ellipsoids, stop watches, stored trajectories
#include <ct/core/core.h>
#include "common.h"
#include <sys/time.h>
static long g_clk = 0;   // sixteenths of a second
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    long us = g_clk * 62500 + 437500;
    tv->tv_sec = 1700000000 + us / 1000000;
    tv->tv_usec = us % 1000000;
    return 0;
}
using namespace ct::core;
using vp::Args;
using vp::Rec;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef ConstantTrajectoryController<1, 1> CT;
typedef LinearFunctionMIMO<1, 1> LF;
typedef GeneralLinearFunction<1, 1, 1> GF;
template <class G>
static void noise(G& g, double mean, double lo, double hi, bool gauss, long n, Rec& out)
{
    // support, separate entries, location, spread, vectors, perturbed values; the margins of the statistics are beyond eight sigma
    auto judge = [&](const std::vector<double>& v, double m) {
        double s = 0, q = 0, mn = 1e300, mx = -1e300; long same = 0, in = 0, below = 0;
        for (size_t i = 0; i < v.size(); i++)
        {
            s += v[i]; q += (v[i] - m) * (v[i] - m); mn = std::min(mn, v[i]); mx = std::max(mx, v[i]);
            if (i && v[i] == v[i - 1]) same++;
            if (v[i] >= m + lo && v[i] <= m + hi) in++;
            if (v[i] < m) below++;
        }
        double N = v.size(), sd = gauss ? hi / 12 : (hi - lo) / std::sqrt(12.0);
        return std::vector<bool>{in == long(v.size()), same == 0, std::abs(s / N - m) < 9 * sd / std::sqrt(N) && std::abs(below / N - 0.5) < 5 / std::sqrt(N), std::abs(std::sqrt(q / N) / sd - 1) < 9 / std::sqrt(2 * N)};
    };
    std::vector<double> a, b, c, d;
    for (long i = 0; i < n; i++) a.push_back(g());
    for (long i = 0; i < n; i++) { V3 v = g.template gen<3>(); b.insert(b.end(), {v(0), v(1), v(2)}); }
    for (long i = 0; i < n; i++) { double v = 7; g.noisify(v); c.push_back(v); }
    for (long i = 0; i < n; i++) { V3 v(7, 7, 7); g.template noisify<3>(v); d.insert(d.end(), {v(0), v(1), v(2)}); }
    auto A = judge(a, mean), B = judge(b, mean), C = judge(c, mean + 7), D = judge(d, mean + 7);
    for (int i = 0; i < 4; i++) out.i(A[i]);
    out.i(B[0] && B[1] && B[2] && B[3]);
    out.i(C[0] && C[1] && C[2] && C[3] && D[0] && D[1] && D[2] && D[3]);
}
struct Run : vp::Session
{
    std::shared_ptr<QuantizationNoise> q[3]; Plane p[3]; Timer w[2]; ExternallyDrivenTimer x[2]; CT c[3]; LF l[3]; GF gl[3];
    Run() { g_clk = 0; }
    static ControlVectorArray<1> us(const Args& a, size_t i, size_t e) { ControlVectorArray<1> r; for (; i < e; i++) { ControlVector<1> u; u << a[i]; r.push_back(u); } return r; }
    static StateVectorArray<1> xs(const Args& a, size_t i, size_t e) { StateVectorArray<1> r; for (; i < e; i++) { StateVector<1> u; u << a[i]; r.push_back(u); } return r; }
    void op(const std::string& o, const Args& a, Rec& out) override
    {
        if (o == "qnew") q[a[0]].reset(a[1] || a[2] != 16 || a[3] ? new QuantizationNoise(a[1] / 16.0, a[2] / 16.0, a[3] ? QuantizationNoise::ROUND : QuantizationNoise::FLOOR) : new QuantizationNoise);
        else if (o == "qcp") q[a[1]].reset(new QuantizationNoise(*q[a[0]]));
        else if (o == "qv") { double v = a[2] / 16.0; if (a[1]) q[a[0]]->noisify(v, a[1]); else q[a[0]]->noisify(v); out.exact(v, 16); }
        else if (o == "qvec") { V3 v(a[1] / 16.0, a[2] / 16.0, a[3] / 16.0); q[a[0]]->noisify<3>(v); for (int i = 0; i < 3; i++) out.exact(v(i), 16); }
        else if (o == "qreset") q[a[0]]->reset();
        else if (o == "uni") { UniformNoise n(a[0] / 16.0, a[1] / 16.0); noise(n, a[0] / 16.0, -a[1] / 16.0, a[1] / 16.0, false, a[2], out); }
        else if (o == "gauss") { GaussianNoise n(a[0] / 16.0, a[1] / 16.0); noise(n, a[0] / 16.0, -12 * a[1] / 16.0, 12 * a[1] / 16.0, true, a[2], out); }
        else if (o == "pnew")
        {
            if (a[1] == 0) p[a[0]].set(a[2], a[3], a[4], a[5]);
            else if (a[1] == 1) p[a[0]] = Plane(a[2], a[3], a[4], a[5]);
            else p[a[0]] = Plane(Eigen::Vector4d(a[2], a[3], a[4], a[5]));
        }
        else if (o == "pcp") p[a[1]] = p[a[0]];
        else if (o == "pcoef") { double& r = p[a[0]].getCoefficient(a[1]); out.exact(r); r = a[2]; }
        else if (o == "pget") { Plane& r = p[a[0]]; out.exact(r.a()); out.exact(r.b()); out.exact(r.c()); out.exact(r.d()); for (int i = 0; i < 4; i++) out.exact(r.getCoefficients()(i)); }
        else if (o == "psolve")
        {
            Plane& r = p[a[0]]; double u = a[2] / 16.0, v = a[3] / 16.0;
            out.exact(a[1] == 1 ? r.solveX(u, v) * r.a() : a[1] == 2 ? r.solveY(u, v) * r.b() : r.solveZ(u, v) * r.c(), 16);
        }
        else if (o == "pest")
        {
            PlaneEstimator::point_measurements_t pts;
            for (size_t i = 0; i + 2 < a.size(); i += 3) pts.push_back(Eigen::Vector3d(a[i], a[i + 1], a[i + 2]));
            Plane r = PlaneEstimator().estimate(pts);
            for (int i = 0; i < 4; i++) out.i(std::lround(r.getCoefficient(i) * 1e5));
        }
        else if (o == "ell" || o == "quat")
        {
            Eigen::Vector3d x0, x; Eigen::Matrix3d A, S; x0.setOnes(); A.setIdentity(); S.setOnes();
            if (o == "ell")
            {
                x0 << a[0], a[1], a[2]; A << a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]; S << a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20]; x << a[21], a[22], a[23];
                Ellipsoid e(x0, A, S), f(x, S, A);
                f.x0() = e.x0(); f.A() = e.A(); f.S() = e.S();
                double v = e.insideEllipsoid(x);
                if (std::abs(v - f.insideEllipsoid(x)) > 1e-9) out.i(777);
                out.exact(v);
            }
            else
            {
                Ellipsoid e(x0, A, S);
                Eigen::Quaterniond k(a[0], a[1], a[2], a[3]); double n = k.squaredNorm();
                e.setFromQuaterion(k.normalized());
                for (int i = 0; i < 9; i++) out.exact(e.S()(i / 3, i % 3) * n);
            }
        }
        else if (o == "clk") g_clk += a[0];
        else if (o == "tstart") { if (a[0] < 2) w[a[0]].start(); else x[a[0] - 2].start(a[1] / 16.0); }
        else if (o == "tstop") { if (a[0] < 2) w[a[0]].stop(); else x[a[0] - 2].stop(a[1] / 16.0); }
        else if (o == "treset") { if (a[0] < 2) w[a[0]].reset(); else x[a[0] - 2].reset(); }
        else if (o == "tget") out.exact(a[0] < 2 ? w[a[0]].getElapsedTime() : x[a[0] - 2].getElapsedTime(), 16);
        else if (o == "cnew") { CT n(us(a, 2, 2 + a[1]), xs(a, 2 + a[1], a.size())); c[a[0]] = n; }
        else if (o == "cu") c[a[0]].setControlVectorArray(us(a, 1, a.size()));
        else if (o == "cx") c[a[0]].setStateVectorArray(xs(a, 1, a.size()));
        else if (o == "ccp") { std::unique_ptr<CT> n(c[a[0]].clone()); c[a[1]] = *n; }
        else if (o == "cget")
        {
            out.i(c[a[0]].getControlVectorArray().size()); for (auto& u : c[a[0]].getControlVectorArray()) out.exact(u(0));
            out.i(c[a[0]].getStateVectorArray().size()); for (auto& u : c[a[0]].getStateVectorArray()) out.exact(u(0));
        }
        else if (o == "crun") { ControlVector<1> u; c[a[0]].computeControl(StateVector<1>::Zero(), 0.0, u); }
        else if (o == "lset") { l[a[0]].uff_ = us(a, 1, 2); l[a[0]].deltaUff_ = us(a, 2, 3); l[a[0]].k_.resize(1); l[a[0]].k_[0] << a[3]; auto& g = gl[a[0]]; g.uff_.resize(1); g.uff_[0] << a[1]; g.deltaUff_.resize(1); g.deltaUff_[0] << a[2]; g.k_.resize(1); g.k_[0] << a[3]; }
        else if (o == "lswap") { l[a[0]].swap(l[a[1]]); gl[a[1]].swap(gl[a[0]]); }
        else if (o == "lget")
        {
            LF& f = l[a[0]]; GF& g = gl[a[0]];
            if (f.uff_.size() != g.uff_.size() || f.k_.size() != g.k_.size() || f.deltaUff_.size() != g.deltaUff_.size()) out.i(777);
            for (size_t i = 0; i < f.uff_.size(); i++) { if (f.uff_[i](0) != g.uff_[i](0) || f.deltaUff_[i](0) != g.deltaUff_[i](0) || f.k_[i](0) != g.k_[i](0)) out.i(777); out.exact(f.uff_[i](0)); out.exact(f.deltaUff_[i](0)); out.exact(f.k_[i](0)); }
        }
        else throw vp::bad(o);
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, [] { return new Run; }); }
