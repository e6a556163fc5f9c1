// Conformance harness for the spatial-algebra part of spec/Rbd.tla (iit/rbd)
#include <ct/core/core.h>
#include <iit/rbd/rbd.h>
#include <iit/rbd/InertiaMatrix.h>
#include <iit/rbd/utils.h>
#include <iit/rbd/robcogen_commons.h>
#include "common.h"
using namespace iit::rbd;
static double Ang(long c)
{
    static const double B[3][2] = {{1, 0}, {0.8, 0.6}, {0.6, 0.8}};
    double x = B[c / 4][0], y = B[c / 4][1];
    for (long i = 0; i < c % 4; i++) { double t = x; x = -y; y = t; }
    return std::atan2(y, x);
}
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;
static V3 v3(const vp::Args& a, size_t o) { return V3(a.at(o), a.at(o + 1), a.at(o + 2)); }
static V6 v6(const vp::Args& a, size_t o) { V6 v; for (int i = 0; i < 6; i++) v(i) = a.at(o + i); return v; }
static M3 sym3(const vp::Args& a, size_t k) { M3 m; m << a.at(k), a.at(k + 1), a.at(k + 2), a.at(k + 1), a.at(k + 3), a.at(k + 4), a.at(k + 2), a.at(k + 4), a.at(k + 5); return m; }
static M3 skew(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
static M3 rot(const vp::Args& a, size_t k)
{
    return (Eigen::AngleAxisd(Ang(a.at(k)), V3::UnitX()) * Eigen::AngleAxisd(Ang(a.at(k + 1)), V3::UnitY()) * Eigen::AngleAxisd(Ang(a.at(k + 2)), V3::UnitZ())).toRotationMatrix();
}
static M6 mot(const M3& R, const V3& t) { M6 X; X << R, M3::Zero(), skew(t) * R, R; return X; }
static M6 frc(const M3& R, const V3& t) { M6 X; X << R, skew(t) * R, M3::Zero(), R; return X; }
static long fmod3(long x) { return ((x % 7) + 7) % 7 - 3; }
static long dat(long s, long j) { return fmod3(s * 37 + j * 29 + j * j * 5 + s * j * 11); }
static M6 syms(long s, int z)
{
    M6 m;
    for (int i = 1; i <= 6; i++) for (int j = 1; j <= 6; j++) m(i - 1, j - 1) = (i == z || j == z) ? 0 : dat(s, 7 * std::min(i, j) + std::max(i, j));
    return m;
}
static const long D = 15625L * 16 * 3;
struct S : public vp::Session
{
    std::unique_ptr<InertiaMatrixDense> I{new InertiaMatrixDense};
    template <class M> void rows(vp::Rec& out, const M& m) { for (int a = 0; a < m.rows(); a++) for (int b = 0; b < m.cols(); b++) out.resd(m(a, b), D); }
    void rep(vp::Rec& out)
    {
        const InertiaMatrixDense& c = *I;
        rows(out, c); out.resd(c.getMass(), D); rows(out, c.getCOM()); M3 t = c.get3x3Tensor(); rows(out, t);
    }
    void op(const std::string& o, const vp::Args& a, vp::Rec& out) override
    {
        if (o == "bot") return;
        if (o == "vxIv") { InertiaMatrixDense J(a.at(6), v3(a, 7), sym3(a, 10)); rows(out, vxIv(v6(a, 0), J)); }
        else if (o == "vxIz") { InertiaMatrixDense J(a.at(1), v3(a, 2), sym3(a, 5)); rows(out, vxIv(double(a.at(0)), J)); }
        else if (o == "mcx" || o == "fcx")
        {
            M6 m = M6::Zero(), k = M6::Constant(7);
            V6 v = v6(a, 0);
            if (o == "mcx") { motionCrossProductMx<double>(v, m); Utils::fillAsMotionCrossProductMx<double>(v, k); }
            else { forceCrossProductMx<double>(v, m); Utils::fillAsForceCrossProductMx<double>(v, k); }
            rows(out, m);
            if (!m.isApprox(k)) out.i(-1);
        }
        else if (o == "ti")
        {
            InertiaMatrixDense J(a.at(6), v3(a, 7), sym3(a, 10)), K;
            M3 R = rot(a, 0).transpose();
            M6 X = frc(R, -R * v3(a, 3));
            transformInertia<double>(J, X, K);
            rows(out, K);
        }
        else if (o == "ctr" || o == "ctp")
        {
            M6 X = mot(rot(a, 0), v3(a, 3)), K;
            K.setConstant(99);
            if (o == "ctr") ctransform_Ia_revolute(syms(a.at(6), 3), X, K);
            else ctransform_Ia_prismatic(syms(a.at(6), 6), X, K);
            rows(out, K);
        }
        else if (o == "Iar" || o == "Iap")
        {
            int z = o == "Iar" ? 2 : 5;
            M6 B = syms(a.at(0), 0), K = M6::Constant(5);
            B(z, z) = a.at(1);
            K.row(z).setZero(); K.col(z).setZero();
            V6 U = B.col(z);
            if (z == 2) compute_Ia_revolute(B, U, double(a.at(1)), K); else compute_Ia_prismatic(B, U, double(a.at(1)), K);
            rows(out, K);
        }
        else if (o == "rot")
        {
            M3 m = Utils::buildRotationMatrix(Ang(a.at(0)), Ang(a.at(1)), Ang(a.at(2))), k;
            Utils::fillAsRotationMatrix(Ang(a.at(0)), Ang(a.at(1)), Ang(a.at(2)), k);
            rows(out, m);
            if (!m.isApprox(k)) out.i(-1);
        }
        else if (o == "tra")
        {
            Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
            T.topLeftCorner<3, 3>() = rot(a, 0);
            T.topRightCorner<3, 1>() = v3(a, 3);
            V3 p = Utils::transform(T, v3(a, 6)), q = Utils::positionVector(T), z = Utils::zAxis(T);
            M3 R = Utils::rotationMx(T);
            rows(out, p); rows(out, q); rows(out, z); rows(out, R);
        }
        else if (o == "skw")
        {
            M3 m = Utils::buildCrossProductMatrix(v3(a, 0)), k;
            Utils::fillAsCrossProductMatrix(v3(a, 0), k);
            rows(out, m);
            if (!m.isApprox(k) && m.norm() > 0) out.i(-1);
        }
        else if (o == "bit") rows(out, Utils::buildInertiaTensor<double>(a.at(0), a.at(1), a.at(2), a.at(3), a.at(4), a.at(5)));
        else
        {
            if (o == "imf") I->fill(a.at(0), v3(a, 1), sym3(a, 4));
            else if (o == "imc") I.reset(new InertiaMatrixDense(a.at(0), v3(a, 1), sym3(a, 4)));
            else if (o == "imm") I->changeMass(a.at(0));
            else if (o == "imo") I->changeCOM(v3(a, 0));
            else if (o == "imr") I->changeRotationalInertia(sym3(a, 0));
            else if (o == "ima") *I += InertiaMatrixDense(a.at(0), v3(a, 1), sym3(a, 4));
            else if (o == "ims") { M6 m = InertiaMatrixDense(a.at(0), v3(a, 1), sym3(a, 4)); *I = m; }
            else throw vp::bad("op " + o);
            rep(out);
        }
    }
};
int main(int argc, char** argv) { return vp::run(argc, argv, []() { return new S; }); }
