#include <ct/core/core.h>
#include "common.h"
using namespace ct::core;
typedef StateVector<2> V;
typedef StateTrajectory<2> Tr;
typedef DiscreteArray<V> Ar;
static const double TK = 0.25;
static V vec(long v) { V x; x << double(v), 3.0 - 2.0 * v; return x; }

struct S : vp::Session
{
    std::unique_ptr<Tr> t[3];
    Ar a[3];
    S() { t[1].reset(new Tr()); t[2].reset(new Tr()); }
    static void put(vp::Rec& o, const V& v, double sc = 1.0) { o.exact(v(0), sc); o.exact(v(1), sc); }
    void op(const std::string& n, const vp::Args& q, vp::Rec& o) override
    {
        auto ty = [&](long y) { return y ? InterpolationType::LIN : InterpolationType::ZOH; };
        auto data = [&](size_t from, size_t cnt) { Ar d; for (size_t i = 0; i < cnt; i++) d.push_back(vec(q[from + i])); return d; };
        auto time = [&](size_t from, size_t cnt) { TimeArray d; for (size_t i = 0; i < cnt; i++) d.push_back(q[from + i] * TK); return d; };
        if (n == "mk") { t[q[0]].reset(new Tr(data(5, q[1]), q[2] * TK, q[3] * TK, ty(q[4]))); }
        else if (n == "mkt") { t[q[0]].reset(new Tr(time(3, q[2]), data(3 + q[2], q[2]), ty(q[1]))); }
        else if (n == "copy") { const Tr& src = *t[q[1]]; t[q[0]].reset(new Tr(src)); }
        else if (n == "assign") { *t[q[0]] = *t[q[1]]; }
        else if (n == "sub") { t[q[0]].reset(new Tr(*t[q[1]], q[2], q[3])); }
        else if (n == "setT") { t[q[0]]->setTime(time(2, q[1])); }
        else if (n == "setD") { t[q[0]]->setData(data(2, q[1])); }
        else if (n == "type") { t[q[0]]->setInterpolationType(ty(q[1])); }
        else if (n == "shift") { t[q[0]]->shiftTime(q[1] * TK); }
        else if (n == "push") { t[q[0]]->push_back(vec(q[1]), q[2] * TK, q[3] == 1); }
        else if (n == "pop") { t[q[0]]->pop_back(); }
        else if (n == "efr") { if (q[2] == 0) t[q[0]]->eraseFront(q[1]); else t[q[0]]->eraseFront(q[1], q[2] * TK); }
        else if (n == "clear") { t[q[0]]->clear(); }
        else if (n == "swap") { t[q[0]]->swapData(*t[q[1]]); }
        else if (n == "wr") { (*t[q[0]])[q[1]] = vec(q[2]); }
        else if (n == "eval") { V v = t[q[0]]->eval(q[1] * TK); put(o, v, 840.0); }
        else if (n == "idx") { o.i((long)t[q[0]]->getIndexFromTime(q[1] * TK)); }
        else if (n == "size") { o.i((long)t[q[0]]->size()); }
        else if (n == "ends")
        {
            Tr& T = *t[q[0]]; const Tr& C = T;
            if (T.front() != C.front() || T.back() != C.back()) throw vp::bad("const mismatch");
            put(o, C.front()); put(o, C.back()); o.exact(C.startTime(), 4); o.exact(C.finalTime(), 4); o.exact(C.duration(), 4);
        }
        else if (n == "at") { const Tr& C = *t[q[0]]; put(o, C[q[1]]); o.exact(C.getTimeFromIndex(q[1]), 4); }
        else if (n == "dump")
        {
            const Tr& C = *t[q[0]];
            o.i(C.getTimeArray().size()); o.i(C.getDataArray().size());
            for (size_t i = 0; i < C.getTimeArray().size(); i++) o.exact(C.getTimeArray()[i], 4);
            for (size_t i = 0; i < C.getDataArray().size(); i++) put(o, C.getDataArray()[i]);
        }
        else if (n == "aset") { a[q[0]] = data(2, q[1]); for (auto& v : a[q[0]]) v(1) = v(0); }
        else if (n == "amulS") { a[q[0]] = a[q[0]] * double(q[1]); }
        else if (n == "adivS") { a[q[0]] = a[q[0]] / double(q[1]); }
        else if (n == "aconst") { V c = V::Constant(q[1]); a[q[0]].setConstant(c); }
        else if (n == "aoff") { V c = V::Constant(q[1]); a[q[0]].addOffset(c); }
        else if (n == "aerase") { a[q[0]].eraseFront(q[1]); }
        else if (n == "aswap") { a[1].swap(a[2]); }
        else if (n == "acopy") { Ar c(a[q[1]]); a[q[0]] = Ar(); a[q[0]].swap(c); }
        else if (n == "aassign") { a[q[0]] = a[q[1]]; }
        else if (n == "aresize") { V c = V::Constant(q[2]); a[q[0]].resize(q[1], c); }
        else if (n == "apush") { a[q[0]].push_back(V::Constant(q[1])); }
        else if (n == "apop") { a[q[0]].pop_back(); }
        else if (n == "aclear") { a[q[0]].clear(); }
        else if (n == "aplus" || n == "aminus") { Ar r = n == "aplus" ? a[1] + a[2] : a[1] - a[2]; both(o, r); }
        else if (n == "aplusE") { a[1] += a[2]; }
        else if (n == "aminusE") { a[1] -= a[2]; }
        else if (n == "adump") { o.i(a[q[0]].size()); both(o, a[q[0]]); }
        else if (n == "aend") { o.exact(a[q[0]].front()(0)); o.exact(a[q[0]].back()(0)); }
        else if (n == "tarr") { TimeArray T(q[0] * TK, (size_t)q[1], q[2] * TK); for (auto v : T) o.exact(v, 4); }
        else if (n == "tconst") { TimeArray T((size_t)q[0], q[1] * TK); for (auto v : T) o.exact(v, 4); }
        else if (n == "lin")
        {
            ScalarArray<double> L = linspace<ScalarArray<double>>(q[0] * TK, (q[0] + (q[2] - 1) * q[1]) * TK, (size_t)q[2]);
            for (auto v : L) o.exact(v, 4);
        }
        else if (n == "eig")
        {
            ScalarArray<double> L;
            for (auto& v : a[q[0]]) L.push_back(v(0));
            auto e = L.toEigenTrajectory();
            ScalarArray<double> M;
            M.fromEigenTrajectory(e);
            ScalarArray<double> C(M);
            for (auto v : C) o.exact(v);
        }
        else if (n == "tpose")
        {
            Ar d;
            for (auto& v : a[q[0]]) d.push_back(vec(std::lround(v(0))));
            if (d.size() == 0) return;
            auto r = transposeArray(d);
            for (auto& m : r) for (int i = 0; i < m.rows(); i++) o.exact(m(i, 0));
        }
        else throw vp::bad("unknown op " + n);
    }
    static void both(vp::Rec& o, const Ar& r)
    {
        for (size_t i = 0; i < r.size(); i++) { if (r[i](0) == r[i](1)) o.exact(r[i](0)); else o.i(1000000009L); }
    }
};
int main(int c, char** v) { return vp::run(c, v, [] { return new S(); }); }
