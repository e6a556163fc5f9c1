// Shared by all conformance harnesses: reads a script (sessions of integer-argument operations), hands every
// operation to the harness' interpreter, and writes one JSON line per session: the recorded behaviour that TLC
// then validates against the specification.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {
typedef std::vector<long> Args;

struct Rec
{
    Args r;      // observation
    int x = 0;   // 1: the operation threw an exception
    // value * scale, rounded; not-a-number / overflow / "not representable at this scale" get sentinels
    void num(double v, double scale = 1.0)
    {
        double y = v * scale;
        if (std::isnan(y)) { r.push_back(1000000007L); return; }
        if (std::fabs(y) > 9.0e8) { r.push_back(y > 0 ? 1000000001L : -1000000001L); return; }
        r.push_back(std::lround(y));
    }
    // like num, but a value that is not (numerically) an integer after scaling is reported as such
    void exact(double v, double scale = 1.0)
    {
        double y = v * scale;
        if (std::isnan(y)) { r.push_back(1000000007L); return; }
        if (std::fabs(y) > 9.0e8) { r.push_back(y > 0 ? 1000000001L : -1000000001L); return; }
        double q = std::round(y);
        if (std::fabs(y - q) > 1e-6 * std::max(1.0, std::fabs(y))) { r.push_back(1000000003L); return; }
        r.push_back((long)q);
    }
    // the residue modulo 32749 of a rational number whose denominator divides 2^18 3^5 (others are reported as such)
    void res(double v)
    {
        const long P = 32749, D = 63700992L;
        double y = v * (double)D;
        if (std::isnan(y)) { r.push_back(1000000007L); return; }
        if (std::fabs(y) > 2.0e14) { r.push_back(y > 0 ? 1000000001L : -1000000001L); return; }
        double q = std::round(y);
        if (std::fabs(y - q) > 0.05) { r.push_back(1000000003L); return; }
        long inv = 1, e = P - 2, b = D % P;   // Fermat
        for (; e; e >>= 1, b = b * b % P) if (e & 1) inv = inv * b % P;
        r.push_back(((long)q % P + P) % P * inv % P);
    }
    // residue of a rational with denominator D (must divide evenly up to floating-point noise)
    void resd(double v, long D)
    {
        const long P = 32749;
        double y = v * (double)D;
        if (std::isnan(y)) { r.push_back(1000000007L); return; }
        if (std::fabs(y) > 4.0e15) { r.push_back(y > 0 ? 1000000001L : -1000000001L); return; }
        double q = std::round(y);
        if (std::fabs(y - q) > 0.1) { r.push_back(1000000003L); return; }
        long inv = 1, e = P - 2, b = D % P;
        for (; e; e >>= 1, b = b * b % P) if (e & 1) inv = inv * b % P;
        r.push_back(((long)q % P + P) % P * inv % P);
    }
    template <typename M>
    void matr(const M& m)
    {
        for (int a = 0; a < m.rows(); a++)
            for (int b = 0; b < m.cols(); b++) res(m(a, b));
    }
    void i(long v) { r.push_back(v); }
    template <typename M>
    void mat(const M& m, double scale = 1.0)  // row-major
    {
        for (int a = 0; a < m.rows(); a++)
            for (int b = 0; b < m.cols(); b++)
                exact(m(a, b), scale);
    }
    template <typename M>
    void matn(const M& m, double scale = 1.0)
    {
        for (int a = 0; a < m.rows(); a++)
            for (int b = 0; b < m.cols(); b++)
                num(m(a, b), scale);
    }
};

struct Session
{
    virtual ~Session() {}
    virtual void op(const std::string& name, const Args& a, Rec& out) = 0;
};

// leaves a recognisable value in the stack memory the next operation is going to use: a local of the code under test
// that is read before it is written then never happens to be zero
__attribute__((noinline)) inline void poisonStack()
{
    volatile unsigned char b[96 * 1024];
    for (size_t k = 0; k < sizeof(b); k++) b[k] = 0x7F;
}

inline void put(std::string& s, const Args& a)
{
    s += '[';
    for (size_t k = 0; k < a.size(); k++)
    {
        if (k) s += ',';
        s += std::to_string(a[k]);
    }
    s += ']';
}

// script format: "S <id>" starts a session; any other line is "<op> <int>*"
inline int run(int argc, char** argv, std::function<Session*()> make)
{
    if (argc < 3) { fprintf(stderr, "usage: harness SCRIPT OUT\n"); return 2; }
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    if (!in || !out) return 2;
    std::streambuf* keep = std::cout.rdbuf();
    std::ostringstream sink;
    std::cout.rdbuf(sink.rdbuf());
    std::string line, cur;
    std::unique_ptr<Session> s;
    bool first = true, open = false;
    auto close = [&]() {
        if (open) { cur += "]}\n"; fputs(cur.c_str(), out); fflush(out); }
        open = false;
        s.reset();
        sink.str("");
    };
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        std::istringstream ls(line);
        std::string name;
        ls >> name;
        if (name == "S")
        {
            std::string id;
            ls >> id;
            close();
            poisonStack();
            s.reset(make());
            cur = "{\"id\":" + id + ",\"ev\":[";
            first = true;
            open = true;
            fprintf(out, "#%s\n", id.c_str());   // in-flight marker: names the session if the code crashes
            fflush(out);
            continue;
        }
        Args a;
        long v;
        while (ls >> v) a.push_back(v);
        Rec r;
        poisonStack();
        try { s->op(name, a, r); }
        catch (const std::logic_error& e) {
            if (std::string(e.what()).find("HARNESS") == 0) { fprintf(stderr, "%s: %s\n", e.what(), line.c_str()); return 2; }
            r.r.clear(); r.x = 1;
        }
        catch (const std::exception&) { r.r.clear(); r.x = 1; }
        if (!first) cur += ',';
        first = false;
        cur += "{\"op\":\"" + name + "\",\"a\":";
        put(cur, a);
        cur += ",\"r\":";
        put(cur, r.r);
        cur += ",\"x\":" + std::to_string(r.x) + "}";
    }
    close();
    fclose(out);
    std::cout.rdbuf(keep);
    return 0;
}
inline std::logic_error bad(const std::string& w) { return std::logic_error("HARNESS " + w); }
}  // namespace vp
