#include "ref.hpp"
#include <cfloat>

void Ref::init(const ModelInfo &mi, int version) {
    *this = Ref();
    m = &mi;
    ver = version;
    for (int i = 0; i < 25; i++) A[i] = B[i] = C[i] = D[i] = 0;
    for (int i = 0; i < 5; i++) { X0[i] = 0; X[i] = 0; U[i] = i + 1; }
    for (int i = 0; i < 3; i++) A[i * 3 + i] = B[i * 3 + i] = C[i * 3 + i] = D[i * 3 + i] = 1;
}

void Ref::begin(double s) { start = s; n = 0; }

std::vector<double> Ref::y() const {
    std::vector<double> o(d[2], 0.0);
    for (size_t i = 0; i < d[2]; i++) {
        for (size_t j = 0; j < d[1]; j++) o[i] += C[i * d[1] + j] * X[j];
        for (size_t j = 0; j < d[0]; j++) o[i] += D[i * d[0] + j] * U[j];
    }
    return o;
}
std::vector<double> Ref::der() const {
    if (is("BouncingBall")) return {v, g};
    if (is("Dahlquist")) return {-k * x};
    if (is("VanDerPol")) return {x1, mu * ((1.0 - x0 * x0) * x1) - x0};
    if (is("Roberts")) {
        double z = dae ? y3 : 1.0 - y1 - y2;
        return {-0.04 * y1 + 1e4 * y2 * z, 0.04 * y1 - 1e4 * y2 * z - 3e7 * y2 * y2};
    }
    if (is("StateSpace")) {
        std::vector<double> o(d[1], 0.0);
        for (size_t i = 0; i < d[1]; i++) {
            for (size_t j = 0; j < d[1]; j++) o[i] += A[i * d[1] + j] * X[j];
            for (size_t j = 0; j < d[0]; j++) o[i] += B[i * d[0] + j] * U[j];
        }
        return o;
    }
    return {};
}
std::vector<double> Ref::states() const {
    if (is("BouncingBall")) return {h, v};
    if (is("Dahlquist")) return {x};
    if (is("VanDerPol")) return {x0, x1};
    if (is("Roberts")) return {y1, y2};
    if (is("StateSpace")) return std::vector<double>(X, X + d[1]);
    return {};
}
void Ref::setStates(const std::vector<double> &s) {
    if (is("BouncingBall")) { h = s[0]; v = s[1]; }
    if (is("Dahlquist")) x = s[0];
    if (is("VanDerPol")) { x0 = s[0]; x1 = s[1]; }
    if (is("Roberts")) { y1 = s[0]; y2 = s[1]; }
    if (is("StateSpace")) for (size_t i = 0; i < d[1]; i++) X[i] = s[i];
}
std::vector<double> Ref::indicators() const {
    if (is("BouncingBall")) return {h > -1e-10 && h <= 0 && v > 0 ? -1e-10 : h};
    if (is("Roberts")) { double z = dae ? y3 : 1.0 - y1 - y2; return {y1 - 1e-4, z - 0.01}; }
    return {};
}
std::vector<double> Ref::nominals() const {
    if (is("Roberts")) return {1e-4, 1e-2};
    return std::vector<double>(states().size(), 1.0);
}

void Ref::step() {
    std::vector<double> s = states(), ds = der();
    for (size_t i = 0; i < s.size(); i++) s[i] += m->step * ds[i];
    double before = h;
    setStates(s);
    n++;
    if (is("BouncingBall")) {
        if (!rest && fabs(h) < 1e-9 && !(exact && h == 0)) ambiguous = true;
        if (before > 0 && h <= 0) { pending = true; events++; }
    }
    if (is("Stair") && time() > next - 1e-6) { pending = true; events++; }
}

void Ref::handle() {
    pending = false;
    changed = false;
    if (is("BouncingBall") && h <= 0 && v < 0) {
        bounces++;
        h = DBL_MIN;
        v = -v * e;
        if (fabs(v - 0.1) < 1e-9) ambiguous = true;
        if (v < 0.1) { v = 0; g = 0; rest = true; }
        changed = true;
    }
    if (is("Stair")) {
        if (fabs(time() - next) < 1e-6) { counter++; next += 1; }
        if (counter >= 10) terminate = true;
    }
}

bool Ref::value(uint32_t vr, std::vector<double> *o) const {
    o->clear();
    if (vr == 0) { *o = {time()}; return true; }
    if (is("BouncingBall")) {
        const double a[] = {0, h, v, v, g, g, e, 0.1};
        *o = {a[vr]};
        return true;
    }
    if (is("Dahlquist")) { const double a[] = {0, x, -k * x, k}; *o = {a[vr]}; return true; }
    if (is("VanDerPol")) { auto q = der(); const double a[] = {0, x0, q[0], x1, q[1], mu}; *o = {a[vr]}; return true; }
    if (is("Roberts")) {
        auto q = der();
        double z = dae ? y3 : 1.0 - y1 - y2;
        const double a[] = {0, 0, y1, q[0], y2, q[1], z, 1e-2, y1 + y2 + z - 1.0, y1 - 1e-4, z - 0.01};
        *o = {a[vr]};
        return true;
    }
    if (is("StateSpace")) {
        auto all = [&](const double *p, size_t c) { o->assign(p, p + c); };
        switch (vr) {
        case 4: all(A, d[1] * d[1]); return true;
        case 5: all(B, d[1] * d[0]); return true;
        case 6: all(C, d[2] * d[1]); return true;
        case 7: all(D, d[2] * d[0]); return true;
        case 8: all(X0, d[1]); return true;
        case 9: all(U, d[0]); return true;
        case 10: *o = y(); return true;
        case 11: all(X, d[1]); return true;
        case 12: *o = der(); return true;
        }
    }
    return false;
}

bool Ref::finite() const {
    for (double q : states()) if (!(fabs(q) < 1e9)) return false;
    return true;
}
