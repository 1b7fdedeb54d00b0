// Independent reference model of the documented method: O(n^2) neighbours, explicit lattice sums,
// dense elimination in long double.  Deliberately boring; shares no code with the implementation.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <string>
#include <vector>

namespace ref {
using V3 = std::array<double, 3>;
inline V3 operator+(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator-(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator*(V3 a, double s) { return {a[0] * s, a[1] * s, a[2] * s}; }
inline double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double len(V3 a) { return std::sqrt(dot(a, a)); }

enum Type { Ghost = 0, Fluid = 1, Wall = 2, Dummy = 3 };
enum State { Ignored = 0, Surface = 1, Inner = 3 };
inline const char* typeName(int t) { static const char* n[] = {"Ghost", "Fluid", "Wall", "DummyWall"}; return t >= 0 && t < 4 ? n[t] : "?"; }

struct Params {
    int dim = 2;
    double l0 = 0.5, dt = 1.0 / 16, nu = 0;
    V3 g{0, 0, 0};
    bool xyz = true;
    double gNorm = 0, gAngle = 0;
    double reN = 0.75, reG = 0.75, reL = 0.75;
    double thrN = 0.97;
    bool dist = false;
    double thrD = 1.0;
    bool implicit = false;
    double comp = 1e-6, gamma = 0.2, c = 0;
    double colDist = 0, rest = 0.25;
    double cfl = 1e9;
    bool exact = false; // all quantities are exactly representable: equality with a threshold is decided
    V3 lo{-8, -8, 0}, hi{8, 8, 0};
    double reMax() const { return std::max(reN, std::max(reG, reL)); }
};
struct RP {
    int type;
    V3 x, v;
    double rho = 1000;
    int fluid = 0;
    double p = 0, n = 0;
    int bc = Ignored;
};

inline double w(double r, double re) { return r < re ? re / r - 1.0 : 0.0; }

inline void lattice(int dim, double l0, double re, double& n0, double& lambda) {
    int m = (int) std::ceil(re / l0) + 1;
    long double s = 0, t = 0;
    for (int i = -m; i <= m; i++)
        for (int j = -m; j <= m; j++)
            for (int k = (dim == 3 ? -m : 0); k <= (dim == 3 ? m : 0); k++) {
                if (!i && !j && !k) continue;
                double r = l0 * std::sqrt((double) (i * i + j * j + k * k));
                s += w(r, re);
                t += (long double) r * r * w(r, re);
            }
    n0 = (double) s;
    lambda = (double) (t / s);
}

struct Model {
    Params p;
    std::vector<RP> ps;
    bool ambiguous = false; // some comparison is within rounding of its threshold
    bool contact = false;   // some pair collided
    bool multi = false;     // a particle had several simultaneous contacts (order dependent)
    struct Contact { int i, j; double d; };
    std::vector<Contact> contacts; // pairs nearer than the collision distance after prediction
    std::vector<int> order;        // the order in which they are resolved (empty: by index)
    double courant = 0;
    double n0N, lamN, n0L, lamL, n0G, lamG;
    std::vector<std::vector<std::pair<int, double>>> nb;

    explicit Model(const Params& p_) : p(p_) {
        lattice(p.dim, p.l0, p.reN, n0N, lamN);
        lattice(p.dim, p.l0, p.reL, n0L, lamL);
        lattice(p.dim, p.l0, p.reG, n0G, lamG);
    }
    V3 gravity() const {
        if (p.xyz) return p.g;
        double t = p.gAngle * 3.14159265358979323846 / 180.0;
        return {p.gNorm * std::sin(t), -p.gNorm * std::cos(t), 0.0};
    }
    void border(double d, double R) { if (d != R && std::fabs(d - R) < 1e-9 * std::max(1.0, std::fabs(R))) ambiguous = true; }
    bool inside(const V3& x) const {
        for (int a = 0; a < 3; a++) if (!(x[a] >= p.lo[a] && x[a] <= p.hi[a])) return false;
        return true;
    }
    void neighbours(bool forCollisions = false) {
        for (auto& q : ps) {
            if (q.type == Ghost) continue;
            for (int a = 0; a < 3; a++) { border(q.x[a], p.lo[a]); border(q.x[a], p.hi[a]); }
            if (!inside(q.x)) q.type = Ghost;
        }
        nb.assign(ps.size(), {});
        for (size_t i = 0; i < ps.size(); i++)
            for (size_t j = 0; j < ps.size(); j++) {
                if (i == j || ps[i].type == Ghost || ps[j].type == Ghost) continue;
                double d = len(ps[j].x - ps[i].x);
                border(d, p.reMax()); border(d, p.reN); border(d, p.reG); border(d, p.reL);
                if (forCollisions && p.colDist > 0) border(d, p.colDist);
                if (d < 1e-6 * p.l0) ambiguous = true;
                if (d < p.reMax()) nb[i].push_back({(int) j, d});
            }
    }
    void predict() {
        V3 g = gravity();
        double a = p.nu * 2.0 * p.dim / (n0L * lamL);
        std::vector<V3> acc(ps.size(), V3{0, 0, 0});
        for (size_t i = 0; i < ps.size(); i++) {
            if (ps[i].type != Fluid) continue;
            V3 s{0, 0, 0};
            for (auto& [j, d] : nb[i]) if (d < p.reL) s = s + (ps[j].v - ps[i].v) * w(d, p.reL);
            acc[i] = g + s * a;
        }
        for (size_t i = 0; i < ps.size(); i++)
            if (ps[i].type == Fluid) {
                ps[i].v = ps[i].v + acc[i] * p.dt;
                ps[i].x = ps[i].x + ps[i].v * p.dt;
            }
    }
    std::vector<RP> atContact; // the state in which the contacts were found
    // one contact; returns whether it hangs on rounding
    bool resolve(RP& a, RP& b, double d) const {
        double bi = 1 / a.rho, bj = b.type == Fluid ? 1 / b.rho : 0;
        V3 e = b.x - a.x;
        e = e * (1 / len(e));
        double rel = dot(b.v - a.v, e);
        double J = rel < 0 ? -(1 + p.rest) * rel / (bi + bj) : 0;
        double s = (p.colDist - d) / (bi + bj);
        a.v = a.v - e * (J * bi);
        a.x = a.x - e * (s * bi);
        if (b.type == Fluid) {
            b.v = b.v + e * (J * bj);
            b.x = b.x + e * (s * bj);
        }
        return std::fabs(rel) < 1e-12 && rel != 0;
    }
    void collide() {
        contacts.clear();
        std::vector<int> count(ps.size(), 0);
        for (size_t i = 0; i < ps.size(); i++)
            for (auto& [j, d] : nb[i]) {
                if (ps[i].type != Fluid) continue;
                if (ps[j].type == Fluid && j >= (int) i) continue;
                if (!(d < p.colDist)) continue;
                contacts.push_back({(int) i, j, d});
                count[i]++; count[j]++;
            }
        atContact = ps;
        for (size_t k = 0; k < contacts.size(); k++) {
            auto [i, j, d] = contacts[order.size() == contacts.size() ? order[k] : k];
            if (resolve(ps[i], ps[j], d)) ambiguous = true;
        }
        // a wall in contact with several particles is no matter: it does not move
        for (size_t i = 0; i < ps.size(); i++) if (count[i]) { contact = true; if (count[i] > 1 && ps[i].type == Fluid) multi = true; }
    }
    // The contacts in groups that share no fluid particle: contacts of different groups commute.
    std::vector<std::vector<int>> groups() const {
        int n = (int) contacts.size();
        std::vector<int> up(n), first(ps.size(), -1);
        for (int k = 0; k < n; k++) up[k] = k;
        auto root = [&](int k) { while (up[k] != k) k = up[k] = up[up[k]]; return k; };
        for (int k = 0; k < n; k++)
            for (int i : {contacts[k].i, contacts[k].j}) {
                if (ps[i].type != Fluid) continue;
                if (first[i] < 0) first[i] = k;
                else { int a = root(first[i]), b = root(k); up[std::max(a, b)] = std::min(a, b); }
            }
        std::vector<std::vector<int>> r;
        std::vector<int> at(n, -1);
        for (int k = 0; k < n; k++) {
            int g = root(k);
            if (at[g] < 0) { at[g] = (int) r.size(); r.push_back({}); }
            r[at[g]].push_back(k);
        }
        return r;
    }
    // Every order of the contacts that can make a difference. Empty when there are more than `limit`.
    std::vector<std::vector<int>> orders(size_t limit) const {
        std::vector<std::vector<int>> all = {{}};
        for (auto m : groups()) {
            size_t f = 1;
            for (size_t k = 2; k <= m.size(); k++) { f *= k; if (f * all.size() > limit) return {}; }
            std::vector<std::vector<int>> next;
            do for (auto& a : all) { next.push_back(a); next.back().insert(next.back().end(), m.begin(), m.end()); } while (std::next_permutation(m.begin(), m.end()));
            all = next;
        }
        return all;
    }
    void density() {
        for (size_t i = 0; i < ps.size(); i++) {
            ps[i].n = 0;
            for (auto& [j, d] : nb[i]) ps[i].n += w(d, p.reN);
        }
    }
    bool surface(size_t i) {
        double thr = p.thrN * n0N;
        if (std::fabs(ps[i].n - thr) < 1e-9 * n0N && !(p.exact && ps[i].n == thr)) ambiguous = true;
        if (!(ps[i].n < thr)) return false;
        if (!p.dist) return true;
        if (nb[i].empty()) return true;
        V3 s{0, 0, 0};
        for (auto& [j, d] : nb[i]) s = s + (ps[j].x - ps[i].x);
        double t = p.thrD * p.l0;
        bool r = false;
        for (int a = 0; a < 3; a++) { border(std::fabs(s[a]), t); if (std::fabs(s[a]) > t) r = true; }
        return r;
    }
    void classify() {
        for (size_t i = 0; i < ps.size(); i++)
            ps[i].bc = (ps[i].type == Ghost || ps[i].type == Dummy) ? Ignored : surface(i) ? Surface : Inner;
    }
    void pressureExplicit() {
        for (auto& q : ps) q.p = (q.type != Ghost && q.n > n0N) ? p.c * p.c * q.rho * (q.n - n0N) / n0N : 0.0;
    }
    void pressureImplicit() {
        classify();
        if (ps.size() > 60) { pressureLarge(); return; }
        size_t n = ps.size();
        double a = 2.0 * p.dim / (n0L * lamL);
        std::vector<std::vector<long double>> A(n, std::vector<long double>(n + 1, 0.0L));
        for (size_t i = 0; i < n; i++) {
            if (ps[i].bc != Inner) { A[i][i] = 1; continue; }
            A[i][n] = (long double) p.gamma / ((long double) p.dt * p.dt) * ((ps[i].n - n0N) / n0N);
            A[i][i] = (long double) p.comp / ((long double) p.dt * p.dt);
            for (auto& [j, d] : nb[i]) {
                if (ps[j].bc == Ignored || !(d < p.reL)) continue;
                long double k = (long double) a * w(d, p.reL) / ps[i].rho;
                A[i][j] -= k;
                A[i][i] += k;
            }
        }
        for (size_t k = 0; k < n; k++) {
            size_t piv = k;
            for (size_t i = k + 1; i < n; i++) if (fabsl(A[i][k]) > fabsl(A[piv][k])) piv = i;
            if (fabsl(A[piv][k]) == 0) { ambiguous = true; return; }
            std::swap(A[k], A[piv]);
            for (size_t i = k + 1; i < n; i++) {
                long double f = A[i][k] / A[k][k];
                if (f == 0) continue;
                for (size_t c = k; c <= n; c++) A[i][c] -= f * A[k][c];
            }
        }
        std::vector<long double> xs(n, 0);
        for (size_t k = n; k-- > 0;) {
            long double s = A[k][n];
            for (size_t c = k + 1; c < n; c++) s -= A[k][c] * xs[c];
            xs[k] = s / A[k][k];
        }
        for (size_t i = 0; i < n; i++) ps[i].p = xs[i] < 0 ? 0.0 : (double) xs[i];
    }
    // The same equations for larger sets: rows times density are symmetric and positive definite, solved by
    // conjugate gradients in long double to a residual far below what is compared.
    void pressureLarge() {
        size_t n = ps.size();
        double a = 2.0 * p.dim / (n0L * lamL);
        std::vector<int> un, no(n, -1);
        for (size_t i = 0; i < n; i++) { ps[i].p = 0; if (ps[i].bc == Inner) { no[i] = (int) un.size(); un.push_back((int) i); } }
        size_t m = un.size();
        if (!m) return;
        using L = long double;
        std::vector<std::vector<std::pair<int, L>>> A(m);
        std::vector<L> D(m), b(m), x(m, 0), r, z(m), q, Aq(m);
        for (size_t u = 0; u < m; u++) {
            auto& s = ps[un[u]];
            b[u] = (L) s.rho * (L) p.gamma / ((L) p.dt * p.dt) * ((s.n - n0N) / n0N);
            D[u] = (L) s.rho * (L) p.comp / ((L) p.dt * p.dt);
            for (auto& [j, d] : nb[un[u]]) {
                if (ps[j].bc == Ignored || !(d < p.reL)) continue;
                L k = (L) a * w(d, p.reL);
                D[u] += k;
                if (no[j] >= 0) A[u].push_back({no[j], -k});
            }
        }
        auto mul = [&](const std::vector<L>& y, std::vector<L>& o) { for (size_t u = 0; u < m; u++) { L s = D[u] * y[u]; for (auto& [v, k] : A[u]) s += k * y[v]; o[u] = s; } };
        auto dotL = [&](const std::vector<L>& y, const std::vector<L>& t) { L s = 0; for (size_t u = 0; u < m; u++) s += y[u] * t[u]; return s; };
        r = b;
        for (size_t u = 0; u < m; u++) z[u] = r[u] / D[u];
        q = z;
        L rz = dotL(r, z), bb = dotL(b, b);
        for (size_t it = 0; it < 20 * m + 100 && dotL(r, r) > 1e-30L * bb; it++) {
            mul(q, Aq);
            L al = rz / dotL(q, Aq);
            for (size_t u = 0; u < m; u++) { x[u] += al * q[u]; r[u] -= al * Aq[u]; }
            for (size_t u = 0; u < m; u++) z[u] = r[u] / D[u];
            L nz = dotL(r, z);
            for (size_t u = 0; u < m; u++) q[u] = z[u] + nz / rz * q[u];
            rz = nz;
        }
        if (!(dotL(r, r) <= 1e-24L * bb)) ambiguous = true;
        for (size_t u = 0; u < m; u++) ps[un[u]].p = x[u] < 0 ? 0.0 : (double) x[u];
    }
    void correct() {
        double a = p.dim / n0G;
        std::vector<V3> acc(ps.size(), V3{0, 0, 0});
        for (size_t i = 0; i < ps.size(); i++) {
            if (ps[i].type != Fluid) continue;
            double pmin = ps[i].p;
            for (auto& [j, d] : nb[i]) if (ps[j].type != Dummy && d < p.reG) pmin = std::min(pmin, ps[j].p);
            V3 s{0, 0, 0};
            for (auto& [j, d] : nb[i]) {
                if (ps[j].type == Dummy || !(d < p.reG)) continue;
                s = s + (ps[j].x - ps[i].x) * ((ps[j].p - pmin) / (d * d) * w(d, p.reG));
            }
            acc[i] = s * (-a / ps[i].rho);
        }
        for (size_t i = 0; i < ps.size(); i++)
            if (ps[i].type == Fluid) {
                ps[i].v = ps[i].v + acc[i] * p.dt;
                ps[i].x = ps[i].x + acc[i] * (p.dt * p.dt);
            }
    }
    void step() {
        neighbours(); predict();
        neighbours(true); collide();
        neighbours(); density();
        if (p.implicit) pressureImplicit(); else pressureExplicit();
        correct();
        courant = 0;
        for (auto& q : ps) if (q.type == Fluid) courant = std::max(courant, len(q.v) * p.dt / p.l0);
    }
};
} // namespace ref
