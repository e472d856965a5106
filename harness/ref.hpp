// The documented model equations, integrated with the explicit Euler method.
#pragma once
#include "common.hpp"

struct Ref {
    const ModelInfo *m = nullptr;
    int ver = 3;
    double start = 0;
    long n = 0;                      // internal steps made
    bool pending = false;            // an event was met and is not handled yet
    bool ambiguous = false;          // too close to a decision to predict it
    bool terminate = false;
    bool changed = false;            // the last event update changed the states
    long events = 0, bounces = 0;
    // BouncingBall
    double h = 1, v = 0, g = -9.81, e = 0.7;
    bool rest = false;
    bool exact = false;              // the impact is met without rounding errors
    // Dahlquist, VanDerPol
    double x = 1, k = 1, x0 = 2, x1 = 0, mu = 1;
    // Stair
    int counter = 1;
    double next = 1;
    // Roberts
    bool dae = false;
    double y1 = 1, y2 = 0, y3 = 0;
    // StateSpace
    size_t d[3] = {3, 3, 3};         // m n r
    double A[25], B[25], C[25], D[25], X0[5], U[5], X[5];
    // Feedthrough, Resource, everything else: raw values of the variables
    std::map<uint32_t, std::string> raw;

    void init(const ModelInfo &mi, int version);
    void begin(double start);        // end of initialization
    double time() const { return start + (double)n * m->step; }
    void step();                     // one internal step; sets pending
    void handle();                   // event update
    std::vector<double> der() const;
    std::vector<double> states() const;
    void setStates(const std::vector<double> &);
    std::vector<double> indicators() const;
    std::vector<double> nominals() const;
    std::vector<double> y() const;
    // expected value of a floating point variable (all elements)
    bool value(uint32_t vr, std::vector<double> *out) const;
    bool finite() const;
private:
    bool is(const char *s) const { return !strcmp(m->name, s); }
};
