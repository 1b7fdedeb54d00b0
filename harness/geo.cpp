// Properties of the geometry layer: neighbour search (C01), removal of particles that leave the domain (C02,
// search level, under AddressSanitizer) and kernel / reference values (C05).
#include "common.hpp"

using std::string;
using std::vector;
namespace {
bool T() { return mc::opt.thorough(); }

struct Box { V3 lo, hi; double re; int dim; const char* name; };
// flat, smaller than a cell, exact multiple, not a multiple, away from the origin, negative, 3D, 1D
const vector<Box>& boxes() {
    static const vector<Box> b = {
        {{0, 0, 0}, {2, 2, 0}, 1, 2, "2D exact multiple"},
        {{0, 0, 0}, {2.5, 1.75, 0}, 1, 2, "2D not a multiple"},
        {{-3.25, 7, 0}, {-0.5, 8.25, 0}, 0.75, 2, "2D away from the origin, ratio not whole"},
        {{0, 0, 0}, {0.5, 0.25, 0}, 1, 2, "2D smaller than a cell"},
        {{-0.5, -0.5, -1}, {0.5, 2, 1}, 1, 3, "3D around the origin"},
        {{4, 4, 4}, {6.5, 4.5, 5}, 1, 3, "3D away from the origin"},
        {{-1, 0, 0}, {4.25, 0, 0}, 1, 1, "1D"},
        {{0, -100, 0}, {3, -96.5, 0.5}, 1.25, 3, "thin slab far out"},
        {{1e6 + 0.03, -4e6, 0}, {1e6 + 2.75, -4e6 + 2, 0}, 0.7, 2, "2D very far from the origin"},
    };
    return b;
}
vector<double> axis(double lo, double hi, double re, int want) {
    if (hi == lo) return {lo};
    vector<double> c = {lo, lo + re, hi, std::nextafter(lo + re, lo), lo + re / 2, lo + re * (1 - 1e-7), lo + 2 * re, hi - re, (lo + hi) / 2, std::nextafter(lo + 2 * re, lo), lo + 1.5 * re, std::nextafter(lo + re, hi)};
    vector<double> r;
    for (double v : c)
        if (v >= lo && v <= hi && std::find(r.begin(), r.end(), v) == r.end() && (int) r.size() < want) r.push_back(v);
    return r;
}
bool insideOf(const Box& b, const V3& x) {
    for (int a = 0; a < 3; a++) if (!(x[a] >= b.lo[a] && x[a] <= b.hi[a])) return false;
    return true;
}
// Compares the real lists with brute force; false when a comparison is within rounding.
bool lists(Ctx& x, Particles& ps, double re, const string& when) {
    bool anyPair = false;
    for (int i = 0; i < ps.size(); i++) {
        if (ps[i].type == ParticleType::Ghost) continue;
        vector<int> seen(ps.size(), 0);
        for (auto& nb : ps[i].neighbors) {
            if (nb.id < 0 || nb.id >= ps.size()) x.fail(when + ": neighbour index " + std::to_string(nb.id) + " of particle " + std::to_string(i) + " does not exist");
            seen[nb.id]++;
            double d = ref::len(R3(ps[nb.id].position) - R3(ps[i].position));
            if (std::fabs(d - nb.distance) > 1e-12 * (1 + d)) x.fail(when + ": distance " + std::to_string(i) + "-" + std::to_string(nb.id) + " is listed as " + mc::num(nb.distance) + ", it is " + mc::num(d));
        }
        for (int j = 0; j < ps.size(); j++) {
            int want = 0;
            if (j != i && ps[j].type != ParticleType::Ghost) {
                double d = ref::len(R3(ps[j].position) - R3(ps[i].position));
                if (d != re && std::fabs(d - re) < 1e-12 * re) { if (seen[j] <= 1) continue; }
                want = d < re;
            }
            anyPair |= want;
            if (seen[j] != want)
                x.fail(when + ": particle " + std::to_string(i) + " lists particle " + std::to_string(j) + " " + std::to_string(seen[j]) + " times, expected " + std::to_string(want));
        }
    }
    return anyPair;
}
void search(Ctx& x, NeighborSearcher& s, Particles& ps, const Box& b, const string& when) {
    vector<char> in, was;
    for (auto& p : ps) { in.push_back(insideOf(b, R3(p.position))); was.push_back(p.type == ParticleType::Ghost); }
    auto o = mc::guarded([&] { s.setNeighbors(ps); });
    x.transition();
    if (!o.ok()) x.fail(when + ": the search ended the program: " + o.str());
    for (int i = 0; i < ps.size(); i++) {
        bool ghost = ps[i].type == ParticleType::Ghost;
        if (ghost != (was[i] || !in[i])) x.fail(when + ": particle " + std::to_string(i) + " at " + str(R3(ps[i].position)) + (ghost ? " was removed although it is inside" : " is outside but was not removed"));
    }
}
void show(Ctx& x, const Box& b, Particles& ps, const string& when) {
    if (!x.describing) return;
    x.out << when << ": box " << b.name << " " << str(b.lo) << ".." << str(b.hi) << " re=" << b.re << "\n";
    for (auto& p : ps) x.out << "  " << ref::typeName((int) p.type) << " " << str(R3(p.position)) << "\n";
}
uint64_t hashPs(const Particles& ps, int salt) {
    uint64_t h = salt;
    for (auto& p : ps) { h = mc::mix(h, (uint64_t) p.type); for (int a = 0; a < 3; a++) h = mc::mix(h, mc::hashDouble(p.position[a])); }
    return h;
}
uint64_t hashNb(const Particles& ps) {
    uint64_t h = 3;
    for (auto& p : ps) { uint64_t s = 0; for (auto& n : p.neighbors) s += mc::mix(n.id, mc::hashDouble(n.distance)); h = mc::mix(h, s); }
    return h;
}

// domains with very many cells: one axis of more than 2^15 / 2^16 cells, or more than 2^20 cells in all
void manyCells(Ctx& x) {
    static const Box big[] = {
        {{0, 0, 0}, {70000, 2, 0}, 1, 2, "strip of 70000 cells"},
        {{-1, -35000, 0}, {1.5, 35000, 0}, 1, 2, "tower of 70000 cells"},
        {{0, 0, 0}, {1200, 900, 0}, 1, 2, "plain of more than 2^20 cells"},
        {{0, -5, 3}, {110, 105, 113}, 1, 3, "cube of more than 2^20 cells"},
        {{0, 0, 0}, {1, 1, 40000}, 1, 3, "shaft of 40000 cells"},
    };
    int bi = x.choose(5, "box");
    const Box& b = big[bi];
    vector<double> A[3];
    for (int a = 0; a < 3; a++) {
        double L = b.hi[a] - b.lo[a];
        if (L == 0) { A[a] = {b.lo[a]}; continue; }
        if (L < 3) { A[a] = {b.lo[a] + 0.4}; continue; }
        vector<double> at = {0.5, L - 0.5};
        for (double v : {31.7, 127.9, 255.6, 1023.3, 32766.5, 65535.7}) if (v < L) at.push_back(v);
        if (b.dim == 3 && !T() && at.size() > 3) at = {at[0], at[1], at[3]};
        for (double v : at) A[a].push_back(b.lo[a] + v);
    }
    V3 p;
    for (int a = 0; a < 3; a++) p[a] = x.pick(A[a]);
    x.shard();
    Particles ps;
    int id = 0;
    auto add = [&](int t, V3 q) { ps.add(Particle(id++, static_cast<ParticleType>(t), E3(q), Eigen::Vector3d::Zero(), 1000)); };
    add(1, p);
    // around the place itself, and at the places a wrapped cell index would confuse it with
    static const double off[] = {-1.3, -0.99, -0.35, 0.6, 0.97, 1.2};
    for (int a = 0; a < 3; a++)
        if (b.hi[a] > b.lo[a]) for (double o : off) { V3 q = p; q[a] += o; add(1 + id % 3, q); }
    add(2, b.lo); add(1, b.hi);
    for (int a = 0; a < 3; a++) { V3 q = p; q[a] = b.lo[a] + (b.hi[a] - b.lo[a]) * 0.5; add(1, q); }
    NeighborSearcher s(b.re, makeDomain(b.lo, b.hi), ps.size());
    for (int r = 0; r < 2; r++) {
        string when = "search " + std::to_string(r + 1) + " over many cells";
        if (r == 0) show(x, b, ps, when);
        search(x, s, ps, b, when);
        if (lists(x, ps, b.re, when)) x.nontrivial();
        x.state(hashPs(ps, bi));
        for (int i = 0; i < ps.size(); i++) ps[i].position[0] += i % 2 ? 0.45 : -0.3;
    }
    x.outcome(hashNb(ps));
}

void c01(Ctx& x) {
    int fam = x.choose(5, "family");
    if (fam == 4) { manyCells(x); return; }
    int bi = x.choose((int) boxes().size(), "box");
    const Box& b = boxes()[bi];
    Domain dom = makeDomain(b.lo, b.hi);
    auto add = [](Particles& ps, int t, V3 p) { ps.add(Particle(ps.size(), static_cast<ParticleType>(t), E3(p), Eigen::Vector3d::Zero(), 1000)); };
    if (fam == 0) { // two particles, full product of critical coordinates
        int w = b.dim == 3 ? (T() ? 6 : 4) : (T() ? 10 : 8);
        vector<double> A[3];
        for (int a = 0; a < 3; a++) A[a] = axis(b.lo[a], b.hi[a], b.re, w);
        V3 p, q;
        for (int a = 0; a < 3; a++) p[a] = x.pick(A[a]);
        x.shard();
        for (int a = 0; a < 3; a++) q[a] = x.pick(A[a]);
        int t = x.choose(T() ? 6 : 3);
        static const int ta[] = {1, 2, 2, 3, 1, 3}, tb[] = {1, 0, 2, 2, 3, 3};
        Particles ps;
        add(ps, ta[t], p);
        add(ps, tb[t], q);
        show(x, b, ps, "placement");
        NeighborSearcher s(b.re, dom, ps.size());
        search(x, s, ps, b, "search");
        if (lists(x, ps, b.re, "search")) x.nontrivial();
        x.state(hashPs(ps, bi));
        x.outcome(hashNb(ps));
        return;
    }
    if (fam == 1) { // several particles sharing cells, then the same searcher again after moves
        vector<V3> S;
        vector<double> A[3];
        int want[3] = {3, 3, 2};
        for (int a = 0; a < 3; a++) A[a] = axis(b.lo[a], b.hi[a], b.re, want[a]);
        for (double u : A[0]) for (double v : A[1]) for (double z : A[2]) S.push_back({u, v, z});
        if (!T() && S.size() > 9) S.resize(9);
        if (S.size() > 12) S.resize(12);
        int n = T() ? 4 : 3;
        Particles ps;
        vector<int> site(n);
        for (int i = 0; i < n; i++) site[i] = x.choose((int) S.size());
        x.shard();
        for (int i = 0; i < n; i++) add(ps, i == 0 ? 1 : 1 + x.choose(2), S[site[i]]);
        NeighborSearcher s(b.re, dom, ps.size());
        show(x, b, ps, "first");
        search(x, s, ps, b, "first search");
        if (lists(x, ps, b.re, "first search")) x.nontrivial();
        int who = x.choose(n + 1), to = x.choose((int) S.size() + 1);
        if (who == n) { if (to) x.prune(); } // nobody moves
        else if (to == (int) S.size()) ps[who].position = E3(V3{b.hi[0] + 1, b.hi[1], b.hi[2]}); // leaves
        else ps[who].position = E3(S[to]);
        show(x, b, ps, "second");
        search(x, s, ps, b, "second search");
        lists(x, ps, b.re, "second search");
        x.state(hashPs(ps, bi));
        x.outcome(hashNb(ps));
        return;
    }
    if (fam == 3) { // populations: every cell occupied, many particles per cell, particles moving together between searches
        double sp = x.pick(vector<double>{0.31, 0.5, 0.77, 1.0, 1.13, b.dim == 3 ? 0.21 : b.dim == 2 ? 0.11 : 0.006}) * b.re; // the last gives hundreds of neighbours
        int off = x.choose(3), order = x.choose(3), kind = x.choose(T() ? 4 : 2);
        x.shard();
        vector<V3> S;
        int n[3];
        for (int a = 0; a < 3; a++) n[a] = std::min((int) ((b.hi[a] - b.lo[a]) / sp) + 1, b.dim == 3 ? 8 : b.dim == 2 ? 20 : 400);
        double sh = off == 0 ? 0 : off == 1 ? 0.3 * sp : 0.999 * sp;
        for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) {
            V3 q = b.lo + V3{i * sp, j * sp, k * sp};
            for (int a = 0; a < 3; a++) if (b.hi[a] > b.lo[a]) q[a] += sh; // some end up outside
            S.push_back(q);
        }
        size_t m = S.size();
        Particles ps;
        for (size_t i = 0; i < m; i++) {
            size_t k = order == 0 ? i : order == 1 ? m - 1 - i : (i * 7) % m;
            if (order == 2 && m % 7 == 0) k = i;
            add(ps, kind == 0 ? 1 : kind == 1 ? (int) (i % 4) : kind == 2 ? 1 + (int) (i % 3) : (int) ((i / 3) % 4), S[k]);
        }
        if (kind == 1) add(ps, 1, S[m / 2]); // two on one place
        NeighborSearcher s(b.re, dom, ps.size());
        for (int r = 0; r < (T() ? 4 : 3); r++) {
            string when = "population search " + std::to_string(r + 1);
            if (r == 0) show(x, b, ps, when);
            search(x, s, ps, b, when);
            if (lists(x, ps, b.re, when)) x.nontrivial();
            x.state(hashPs(ps, bi));
            for (int i = 0; i < ps.size(); i++) { // next search: drift, different for odd and even
                double d = (i % 2 ? 0.45 : -0.2) * sp;
                for (int a = 0; a < 3; a++) if (b.hi[a] > b.lo[a]) ps[i].position[a] += a == r % 3 || a == 0 ? d : 0;
            }
        }
        x.outcome(hashNb(ps));
        return;
    }
    // longer histories of one searcher: every sequence of single moves / removals
    vector<V3> S;
    auto X = axis(b.lo[0], b.hi[0], b.re, 4), Y = axis(b.lo[1], b.hi[1], b.re, 2);
    for (double u : X) for (double v : Y) S.push_back({u, v, b.hi[2]});
    x.shard();
    Particles ps;
    for (int i = 0; i < 4; i++) add(ps, 1 + i % 3, S[i % S.size()]);
    NeighborSearcher s(b.re, dom, ps.size());
    int depth = T() ? 5 : 4;
    for (int r = 0; r < depth; r++) {
        if (r) {
            int m = x.choose(8);
            int who = m % 4;
            if (m < 4) ps[who].position = E3(S[(r * 3 + who * 5 + 1) % S.size()]);
            else if (m == 4) { // everybody swaps
                auto t = ps[0].position; for (int i = 0; i < 3; i++) ps[i].position = ps[i + 1].position; ps[3].position = t;
            } else if (m == 5) ps[r % 4].position = E3(V3{b.lo[0] - 0.5, b.lo[1], b.lo[2]});
            else if (m == 6) ps[(r + 1) % 4].type = ParticleType::Ghost;
            else for (int i = 0; i < 4; i++) ps[i].position = E3(S[0]); // all on one place
        }
        string when = "search " + std::to_string(r + 1);
        show(x, b, ps, when);
        search(x, s, ps, b, when);
        if (lists(x, ps, b.re, when)) x.nontrivial();
        x.state(hashPs(ps, bi));
    }
    x.outcome(hashNb(ps));
}

// ---------------------------------------------------------------- C02 (search level)
void c02(Ctx& x) {
    int bi = x.choose((int) boxes().size(), "box");
    const Box& b = boxes()[bi];
    const double inf = INFINITY, nan = NAN;
    auto coords = [&](int a) {
        double lo = b.lo[a], hi = b.hi[a];
        vector<double> r = {(lo + hi) / 2, lo, hi, std::nextafter(lo, -inf), std::nextafter(hi, inf), nan, inf, -inf, hi + b.re, lo - 3 * b.re, 1e300, -1e300, 5e9, -5e9, 1e5};
        if (b.dim == 3 && !T()) r.resize(8);
        if (lo == hi) r.erase(r.begin() + 1, r.begin() + 3);
        return r;
    };
    vector<double> A[3] = {coords(0), coords(1), coords(2)};
    V3 p;
    p[0] = x.pick(A[0]); p[1] = x.pick(A[1]);
    x.shard();
    p[2] = x.pick(A[2]);
    int type = x.choose(4);
    int order = x.choose(2);
    Particles ps;
    // what else the particles carry must not matter: fresh, slow with a past, at rest with a fluid type of its own
    int past = x.choose(3);
    V3 vel = past == 0 ? V3{1, 2, 3} : past == 1 ? V3{1e-9, -2e-9, 0} : V3{0, 0, 0};
    auto add = [&](int t, V3 q) {
        ps.add(Particle(ps.size(), static_cast<ParticleType>(t), E3(q), E3(vel), past == 2 ? 1 : 1000, past == 2 ? 3 : 0));
        if (past == 0) return;
        auto& n = ps[ps.size() - 1];
        n.numberDensity = past == 1 ? 6.5 : 1e-3; n.pressure = past == 1 ? 1234.5 : -7; n.minimumPressure = -3;
        n.boundaryCondition = past == 1 ? FluidState::Inner : FluidState::FreeSurface;
        n.acceleration = Eigen::Vector3d(0, -9.8, 0);
    };
    V3 mid = (b.lo + b.hi) * 0.5;
    if (order) { add(type, p); add(1, mid); add(2, b.lo); }
    else { add(1, b.hi); add(2, mid); add(type, p); }
    int me = order ? 0 : 2;
    show(x, b, ps, "placement");
    NeighborSearcher s(b.re, makeDomain(b.lo, b.hi), ps.size());
    for (int r = 0; r < 2; r++) {
        search(x, s, ps, b, "search " + std::to_string(r + 1));
        lists(x, ps, b.re, "search " + std::to_string(r + 1));
        for (int a = 0; a < 3; a++) {
            double got = ps[me].position[a];
            if (!(got == p[a] || (std::isnan(got) && std::isnan(p[a])))) x.fail("the search changed a position");
            if (ps[me].velocity[a] != vel[a]) x.fail("the search changed a velocity");
        }
    }
    // once removed it stays removed, even if its position is inside again
    if (type != 0 && !insideOf(b, p)) {
        ps[me].position = E3(mid);
        auto o = mc::guarded([&] { s.setNeighbors(ps); });
        x.transition();
        if (!o.ok()) x.fail("the search ended the program: " + o.str());
        if (ps[me].type != ParticleType::Ghost) x.fail("a removed particle came back");
        lists(x, ps, b.re, "after return");
        x.tag("removed");
    } else x.tag("kept");
    x.nontrivial();
    x.state(hashPs(ps, bi));
    x.outcome(hashNb(ps));
}

// ---------------------------------------------------------------- C05
void c05(Ctx& x) {
    int fam = x.choose(3, "family");
    if (fam == 0) { // the kernel
        double re = x.pick(vector<double>{1, 0.05, 2.1, 3.1, 0.0775, 400, 1e-6});
        x.shard();
        static const double f[] = {1e-9, 1e-3, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 0.999999, 1, 1.000001, 1.01, 1.5, 2, 10, 1e9};
        int k = x.choose((int) (sizeof f / sizeof *f) * 2);
        double r = f[k / 2] * re;
        if (k % 2) r = std::nextafter(r, 0);
        double got = weight(r, re), want = r < re ? (double) ((long double) re / r - 1) : 0;
        x.transition();
        if (x.describing) x.out << "weight(" << mc::num(r) << ", " << mc::num(re) << ")\n";
        double tol = r < re ? 1e-12 * (1 + want) : 0;
        if (!(std::fabs(got - want) <= tol)) x.fail("weight(" + mc::num(r) + ", " + mc::num(re) + ") = " + mc::num(got) + ", expected " + mc::num(want));
        x.state(mc::mix(mc::hashDouble(r), mc::hashDouble(re)));
        x.outcome(mc::hashDouble(got));
        x.nontrivial();
        return;
    }
    int dim = 2 + x.choose(2);
    static const double L[] = {1, 0.025, 0.5, 0.012, 7, 0.1};
    double l0 = L[x.choose(fam == 1 ? 6 : 2)];
    vector<double> R = {1.05, 1.25, std::sqrt(2.0), 1.5, std::sqrt(3.0), 1.9, 2, 2.1, std::sqrt(5.0), 2.4, std::sqrt(6.0), 2.6, std::sqrt(8.0), 2.9, 3, 3.1, 3.4, 3.5, 4, 4.01, 4.2, 4.5, 4.9, 5, 5.01, 5.5, 6, 6.5};
    if (T() || dim == 2) for (double r : {7.0, 7.9, 8.1, 9.99, 10.5, 13.0}) R.push_back(r);
    if (fam == 1) for (double r = 1.013; r < (dim == 2 ? 12 : 7); r += 0.0371) R.push_back(r);
    if (fam == 1) { // reference values
        int k = x.choose((int) R.size());
        x.shard();
        double re = R[k] * l0 * x.pick(vector<double>{1, 1 + 1e-9, 1 + 1e-4, 1 - 1e-6});
        double n0, lam;
        ref::lattice(dim, l0, re, n0, lam);
        RefValues v(dim, l0, re);
        x.transition();
        if (x.describing) x.out << "RefValues(" << dim << ", " << l0 << ", " << mc::num(re) << ")\n";
        if (!(std::fabs(v.n0 - n0) <= 1e-10 * n0)) x.fail("n0 is " + mc::num(v.n0) + ", the lattice sum is " + mc::num(n0) + " for re/l0=" + mc::num(R[k]));
        if (!(std::fabs(v.lambda - lam) <= 1e-10 * lam)) x.fail("lambda is " + mc::num(v.lambda) + ", the lattice average is " + mc::num(lam) + " for re/l0=" + mc::num(R[k]));
        x.state(mc::mix(mc::hashDouble(re), dim * 100 + (int) (l0 * 10)));
        x.outcome(mc::mix(mc::hashDouble(v.n0), mc::hashDouble(v.lambda)));
        x.nontrivial();
        return;
    }
    // the simulation uses each operator's own values: whole steps against the reference model
    Params p;
    p.dim = dim; p.l0 = l0; p.dt = 0.02; p.nu = 0.05 * l0; p.c = 1.3; p.comp = 2e-3; p.thrN = 0.2; p.colDist = 0;
    static const double Q[] = {1.3, 2.1, 3.1, 4.6, 5.7};
    int nq = dim == 3 && !T() ? 4 : 5;
    int method = x.choose(2);
    p.implicit = method == 0;
    p.reN = Q[x.choose(nq)] * l0; p.reG = Q[x.choose(nq)] * l0; p.reL = Q[x.choose(nq)] * l0;
    x.shard();
    p.lo = {-3 * l0, -3 * l0, dim == 3 ? -3 * l0 : 0}; p.hi = {8 * l0, 8 * l0, dim == 3 ? 8 * l0 : 0};
    vector<RP> ps;
    int tight = x.choose(2);
    const vector<V3> S = {{0, 0, 0}, {0.93, 0.07, 0}, {0.1, 1.83, 0}, {2.71, 0.35, 0}, {-0.4, 0.37, 0}, {3.9, 2.03, 0}, {0.6, 0.51, 0}};
    for (size_t i = 0; i < S.size(); i++) {
        V3 q = S[i] * (l0 * (tight ? 0.3 : 1));
        if (dim == 3) q[2] = 0.35 * l0 * ((int) (i * 2) % 5);
        ps.push_back({i == 4 ? ref::Wall : i == 5 ? ref::Dummy : ref::Fluid, q, {0.1 * l0 * i, -0.07 * l0 * i, 0}, 1000});
    }
    describe(x, p, ps);
    ref::Model r(p);
    r.ps = ps;
    MPS m = makeMPS(p, ps);
    r.step();
    auto o = mc::guarded([&] { m.stepForward(); });
    x.transition();
    if (r.ambiguous) { x.inconclusive(); return; }
    if (!o.ok()) x.fail("a time step did not finish: " + o.str());
    string d = differ(visible(m.particles), r.ps, {1e-8, 1e-6, true, true});
    if (!d.empty()) x.fail("with radii " + mc::num(p.reN / l0) + "/" + mc::num(p.reG / l0) + "/" + mc::num(p.reL / l0) + " (number density/gradient/Laplacian): " + d);
    x.state(mc::mix(stateHash(ps), mc::hashDouble(p.reN + 7 * p.reG + 49 * p.reL)));
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}
} // namespace

int main(int argc, char** argv) { return mc::mainWith(argc, argv, {{"C01", c01}, {"C02", c02}, {"C05", c05}}); }
