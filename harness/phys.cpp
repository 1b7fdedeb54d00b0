// Properties of the time step, decided by exhaustive enumeration of small configurations and step
// histories on the real MPS class, against the reference model in lib/ref.hpp or a metamorphic oracle.
#include "coupled.hpp"

#include <malloc.h>

#include <set>
using std::string;
using std::vector;
namespace {

bool T() { return mc::opt.thorough(); }

// One real step. The program ending inside a step on these well-posed configurations is a violation.
void realStep(Ctx& x, MPS& m, const char* what = "") {
    auto o = mc::guarded([&] { m.stepForward(); });
    x.transition();
    if (!o.ok()) x.fail(string("a time step did not finish: ") + o.str() + " " + what);
}
void compare(Ctx& x, const MPS& m, const ref::Model& r, int step, Cmp c = {}) {
    auto got = visible(m.particles);
    string d = differ(got, r.ps, c);
    if (!d.empty()) x.fail("after step " + std::to_string(step) + ": " + d);
}

// One real step against the model from the same state. Where particles have several contacts the order in which
// they are resolved is open: one of the orders must explain the result. Returns whether it was decided.
bool stepAgainst(Ctx& x, MPS& m, const Params& p, int step, Cmp c = {}, bool* contact = nullptr) {
    ref::Model r(p);
    auto start = visible(m.particles);
    r.ps = start;
    r.step();
    realStep(x, m);
    if (contact) *contact = r.contact;
    if (r.ambiguous) return false;
    auto got = visible(m.particles);
    string d = differ(got, r.ps, c);
    double courant = r.courant;
    if (!d.empty() && r.multi && !p.implicit && p.c == 0) { // no pressure: groups of contacts do not meet, each is explained by itself
        vector<int> full;
        bool allSmall = true;
        for (auto g : r.groups()) {
            if (g.size() > (T() ? 7u : 6u)) { allSmall = false; full.insert(full.end(), g.begin(), g.end()); continue; }
            auto others = r.groups();
            bool explained = false, rounding = false;
            std::set<int> members;
            for (int k : g) { members.insert(r.contacts[k].i); members.insert(r.contacts[k].j); }
            do {
                std::map<int, RP> local; // groups share no fluid particle, so each can be followed by itself
                for (int i : members) local[i] = r.atContact[i];
                for (int k : g) rounding |= r.resolve(local[r.contacts[k].i], local[r.contacts[k].j], r.contacts[k].d);
                explained = true;
                for (int i : members) for (int k = 0; k < 3; k++) if (!close(got[i].x[k], local[i].x[k], 1e-11) || !close(got[i].v[k], local[i].v[k], 1e-11)) explained = false;
            } while (!explained && std::next_permutation(g.begin(), g.end()));
            if (!explained && rounding) return false;
            if (!explained) {
                string who;
                for (int i : members) who += " " + std::to_string(i);
                x.fail("after step " + std::to_string(step) + ": no order of the " + std::to_string(g.size()) + " contacts of particles" + who + " explains the result; by index " + d);
            }
            full.insert(full.end(), g.begin(), g.end());
            x.tag("groups of contacts, all orders tried");
        }
        if (!allSmall) { x.tag("steps with a large group of contacts, only the others decided"); return false; }
        ref::Model q(p);
        q.ps = start;
        q.order = full;
        q.step();
        if (q.ambiguous) return false;
        string e = differ(got, q.ps, c);
        if (!e.empty()) x.fail("after step " + std::to_string(step) + ": " + e);
        courant = q.courant;
    } else if (!d.empty() && r.multi) {
        auto all = r.orders(T() ? 720 : 120);
        if (all.empty()) { x.tag("steps with too many contacts"); return false; }
        bool explained = false;
        for (auto& o : all) {
            ref::Model q(p);
            q.ps = start;
            q.order = o;
            q.step();
            if (q.ambiguous) return false;
            if (differ(got, q.ps, c).empty()) { explained = true; courant = q.courant; break; }
        }
        x.tag("steps with several contacts, all orders tried");
        if (!explained) x.fail("after step " + std::to_string(step) + ": no order of the " + std::to_string(r.contacts.size()) + " contacts explains the result; by index " + d);
    } else if (!d.empty()) x.fail("after step " + std::to_string(step) + ": " + d);
    if (!close(m.courant, courant, 1e-7)) x.fail("after step " + std::to_string(step) + ": Courant number is " + mc::num(m.courant) + ", expected " + mc::num(courant));
    return true;
}

// Larger systems, step by step against the reference model.
const vector<BlockShape>& shapes() {
    static const vector<BlockShape> q = {{2, 7, 6, 1}, {2, 13, 9, 1}, {3, 4, 4, 4}, {2, 1, 24, 1}},
                                    t = {{2, 7, 6, 1}, {2, 13, 9, 1}, {3, 4, 4, 4}, {2, 1, 24, 1}, {2, 30, 4, 1}, {2, 22, 20, 1}, {3, 6, 6, 6}, {3, 2, 2, 12}};
    return T() ? t : q;
}
void runAgainstModel(Ctx& x, const Coupled& c, int steps, Cmp cmp) {
    describe(x, c.p, c.ps);
    MPS m = makeMPS(c.p, c.ps);
    for (int s = 1; s <= steps; s++) {
        if (!stepAgainst(x, m, c.p, s, cmp)) { x.inconclusive(); return; }
        x.state(stateHash(visible(m.particles)));
        x.nontrivial();
    }
    x.outcome(outcomeHash(visible(m.particles)));
}
// kind: which stage carries the case
enum Stage { Viscosity, Collision, Density, Implicit, Explicit, Gradient, All };
void isolate(Params& p, Stage k) {
    if (k == Viscosity) { p.implicit = false; p.c = 0; p.nu = 0.4; p.colDist = 0; }
    if (k == Collision) { p.implicit = false; p.c = 0; p.nu = 0; }
    if (k == Explicit) p.implicit = false;
    if (k == Density || k == Implicit) p.implicit = true;
    if (k == Gradient) { p.nu = 0; p.reG = 1.9 * p.l0; }
}
int methodsOf(Stage k) { return k == Density ? 2 : k == Implicit || k == Explicit || k == Viscosity || k == Collision ? 1 : 3; }
void blocks(Ctx& x, Stage k) {
    static const vector<BlockShape> deep = [] { auto s = shapes(); s.push_back({2, 5, 70, 1}); s.push_back({2, 60, 5, 1}); return s; }(); // pressure equations that take many iterations
    auto c = block(x, k == Implicit ? deep : shapes(), methodsOf(k), 3, k == Viscosity ? 3 : k == All ? 3 : 2);
    isolate(c.p, k);
    if (k == Implicit && x.flag("nearly incompressible")) c.p.comp = 1e-9;
    if (k == Collision) c.p.colDist = 0.95 * c.p.l0;
    runAgainstModel(x, c, 2, {1e-7, 1e-5, true, true});
}
// The size of real simulations: one or two thousand particles.
void bigBlocks(Ctx& x, Stage k) {
    static const vector<BlockShape> q = {{2, 44, 36, 1}, {3, 11, 10, 10}}, t = {{2, 44, 36, 1}, {3, 11, 10, 10}, {2, 300, 8, 1}, {2, 70, 60, 1}, {3, 16, 14, 15}};
    auto c = block(x, T() ? t : q, methodsOf(k), k == Collision ? 3 : 2, k == Viscosity ? 3 : 2, 2, 2);
    isolate(c.p, k);
    if (k == Implicit && x.flag("nearly incompressible")) c.p.comp = 1e-9;
    if (k == Collision) c.p.colDist = 0.83 * c.p.l0;
    runAgainstModel(x, c, 2, {1e-7, 1e-5, true, true});
    x.tag("particles in large systems", c.ps.size());
}
// Long histories: every step of a collapsing column against the model started from the same state.
void history(Ctx& x, Stage k) {
    auto c = collapse(x, {{2, 6, 7, 1}}, k == All ? 3 : 2, 2, methodsOf(k));
    isolate(c.p, k);
    if (k == Collision) c.p.colDist = x.pick(vector<double>{0.7, 0.45, 0.25}) * c.p.l0;
    describe(x, c.p, c.ps);
    MPS m = makeMPS(c.p, c.ps);
    int decided = 0, contacts = 0, gone = 0;
    const int steps = (T() ? 400 : 100) / (k == All ? 1 : 2);
    for (int s = 1; s <= steps; s++) {
        bool hit = false;
        bool ok = stepAgainst(x, m, c.p, s, {1e-7, 1e-5, true, true}, &hit);
        auto v = visible(m.particles);
        x.state(stateHash(v));
        if (!ok) { x.tag("history steps undecided"); continue; }
        decided++;
        contacts += hit;
        gone = 0;
        for (auto& q : v) gone += q.type == ref::Ghost;
    }
    x.tag("history steps decided", decided);
    x.tag("history steps with a collision decided", contacts);
    x.tag("histories in which particles leave", gone > 0);
    if (decided > steps / 4) x.nontrivial();
    x.outcome(outcomeHash(visible(m.particles)));
}

// ---------------------------------------------------------------- C02 (stepping part)
void watchRemoval(Ctx& x, const Params& p, const vector<RP>& ps, int steps) {
    vector<bool> gone(ps.size(), false);
    MPS m = makeMPS(p, ps);
    vector<RP> frozen = visible(m.particles);
    auto in = [&](const V3& y) { for (int a = 0; a < 3; a++) if (!(y[a] >= p.lo[a] && y[a] <= p.hi[a])) return false; return true; };
    for (int s = 1; s <= steps; s++) {
        vector<RP> prev = visible(m.particles);
        auto o = mc::guarded([&] { m.stepForward(); });
        x.transition();
        if (!o.ok()) x.fail("a time step did not finish: " + o.str());
        auto now = visible(m.particles);
        if (now.size() != prev.size()) x.fail("particle count changed");
        for (size_t i = 0; i < now.size(); i++) {
            string who = "step " + std::to_string(s) + " particle " + std::to_string(i) + " ";
            if (!gone[i] && !in(prev[i].x)) { // outside when the step began: retired, as it was
                gone[i] = true;
                frozen[i] = prev[i];
                x.tag("left-domain");
            }
            if (gone[i]) {
                if (now[i].type != ref::Ghost) x.fail(who + "was outside the domain at " + str(frozen[i].x) + " but is " + ref::typeName(now[i].type));
                for (int a = 0; a < 3; a++)
                    if (!close(now[i].x[a], frozen[i].x[a], 0) || !close(now[i].v[a], frozen[i].v[a], 0))
                        x.fail(who + "was removed but still changes: x=" + str(now[i].x) + " v=" + str(now[i].v) + ", was x=" + str(frozen[i].x) + " v=" + str(frozen[i].v));
            } else if (now[i].type == ref::Ghost) {
                if (in(now[i].x)) x.fail(who + "was removed although it is inside at " + str(now[i].x));
                gone[i] = true; // left during this step
                frozen[i] = now[i];
                x.tag("left-domain");
            }
        }
        x.state(stateHash(now));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}
void c02(Ctx& x) {
    if (x.choose(2, "family") == 1) {
        auto c = collapse(x, {{2, 5, 6, 1}});
        describe(x, c.p, c.ps);
        watchRemoval(x, c.p, c.ps, T() ? 300 : 60);
        return;
    }
    Params p = methodParams(x.choose(3));
    bool d3 = x.flag();
    p.nu = 0; p.g = {0, 0, 0};
    p.lo = {0, 0, 0}; p.hi = {2, 2, 0};
    if (d3) { p.dim = 3; p.hi[2] = 2; }
    const double inf = INFINITY, nan = NAN;
    const vector<double> A = {1.0, 0.0, 2.0, std::nextafter(0.0, -1), std::nextafter(2.0, 3), -0.25, 2.25, -1e300, 1e300, -inf, inf, nan};
    vector<RP> ps;
    int nd = d3 ? 3 : 2;
    V3 q{0, 0, 0};
    for (int a = 0; a < nd; a++) q[a] = A[x.choose((int) A.size())];
    x.shard();
    int t = 1 + x.choose(3);
    double back = x.flag() ? 6.0 : 0.0; // velocity that would bring it back inside if it still moved
    V3 v{0, 0, 0};
    for (int a = 0; a < nd; a++) if (q[a] < 0) v[a] = back; else if (q[a] > 2) v[a] = -back;
    ps.push_back({t, q, v});
    // companions
    ps.push_back({ref::Fluid, {1.0, 1.5, 0}, {0, 0, 0}});
    ps.push_back({ref::Wall, {0.5, 0.25, 0}, {0, 0, 0}});
    ps.push_back({ref::Fluid, {1.5, 0.5, d3 ? 0.5 : 0}, {9, 0, 0}}); // leaves to the right while running
    describe(x, p, ps);
    watchRemoval(x, p, ps, T() ? 8 : 5);
}

// ---------------------------------------------------------------- C03
// A fluid particle in the middle of the others leaves after some steps; from then on it must not count.
void c03leaving(Ctx& x) {
    int when = x.choose(T() ? 3 : 2, "steps before it leaves"), how = x.choose(4, "way out");
    auto c = coupled(x, 4, T() ? 5 : 4, {0, 1, 2, 3, 4}, T() ? 3 : 2, 2);
    int at = x.choose(2) ? 0 : (int) c.ps.size();
    const double l0 = c.p.l0;
    RP f{ref::Fluid, V3{0.45, 0.4, c.p.dim == 3 ? 0.3 : 0} * l0, {0.1, 0.2, 0}, 900};
    c.ps.insert(c.ps.begin() + at, f);
    describe(x, c.p, c.ps);
    MPS m = makeMPS(c.p, c.ps);
    for (int s = 0; s < when; s++) realStep(x, m);
    const double far = 20 / c.p.dt;
    const vector<Eigen::Vector3d> out = {{far, 0, 0}, {0, -far, 0}, {-far, far, 0}, {0, 0, far}};
    m.particles[at].velocity = out[how];
    realStep(x, m);
    auto v = visible(m.particles);
    if (v[at].type != ref::Ghost) x.fail("a particle launched out of the domain is " + string(ref::typeName(v[at].type)) + " at " + str(v[at].x));
    auto quiet = [&](const RP& q, int s) { if (q.p != 0 || q.n != 0) x.fail("step " + std::to_string(s) + ": the removed particle reports p=" + mc::num(q.p) + " n=" + mc::num(q.n)); };
    quiet(v[at], 0);
    RP frozen = v[at];
    vector<RP> rest = v;
    rest.erase(rest.begin() + at);
    for (auto& q : rest) { q.p = q.n = 0; q.bc = 0; }
    MPS without = makeMPS(c.p, rest);
    for (int s = 1; s <= 2; s++) {
        realStep(x, m, "(after a particle left)");
        realStep(x, without, "(without it)");
        v = visible(m.particles);
        quiet(v[at], s);
        if (v[at].type != ref::Ghost || v[at].x != frozen.x || v[at].v != frozen.v) x.fail("the removed particle changed: " + str(v[at]));
        v.erase(v.begin() + at);
        string d = differ(v, visible(without.particles), twoRuns(c.p, c.ps));
        if (!d.empty()) x.fail(std::to_string(s) + " steps after a particle left, " + d + " (expected = run without it)");
        if (!close(m.courant, without.courant, 1e-7)) x.fail("Courant number depends on the removed particle");
        x.state(stateHash(v));
    }
    x.outcome(outcomeHash(v));
    if (!rest.empty()) x.nontrivial();
}
void c03(Ctx& x) {
    if (x.choose(2, "family") == 1) { c03leaving(x); return; }
    int ghosts = x.choose(T() ? 7 : 6, "ghost set");
    int place = x.choose(3, "ghost index"); // front, middle, end
    auto c = coupled(x, 4, T() ? 5 : 4, {0, 1, 2, 3, 4}, 2, 1);
    if (!c.any) x.prune();
    double l0 = c.p.l0;
    vector<RP> g;
    const double nan = NAN;
    auto G = [&](V3 pos, V3 v, double rho) { RP q{ref::Ghost, pos, v, rho}; g.push_back(q); };
    V3 first = c.ps[0].x;
    switch (ghosts) {
    case 0: G(first, {0, 0, 0}, 1000); break;                                            // on top of a particle
    case 1: G({0.4 * l0, 0.4 * l0, 0}, {50, -50, 0}, 1000); break;                       // in the middle of the cluster
    case 2: G({100, 100, 0}, {1, 1, 1}, 1000); break;                                    // far outside
    case 3: G({nan, nan, nan}, {nan, nan, nan}, nan); break;                             // not a number
    case 4: G({0.1 * l0, 0, 0}, {0, 0, 0}, 0); G({0.1 * l0, 0, 0}, {9, 9, 9}, -5); break; // two on one place, silly densities
    case 5: G({0.2 * l0, 0.1 * l0, 0}, {300, 0, 0}, 1); G({-3, 3, 0}, {0, 0, 0}, 1e9); break;
    case 6: G({0.25 * l0, 0.2 * l0, 0}, {-30, 0, 0}, 1); G({0.9 * l0, 0.9 * l0, 0}, {0, 30, 0}, 1); G({0, 0.1, 0}, {0, 0, 0}, 1); break;
    }
    vector<RP> with;
    vector<int> map; // original index -> index in `with`
    size_t at = place == 0 ? 0 : place == 1 ? c.ps.size() / 2 : c.ps.size();
    for (size_t i = 0; i <= c.ps.size(); i++) {
        if (i == at) with.insert(with.end(), g.begin(), g.end());
        if (i < c.ps.size()) { map.push_back((int) with.size()); with.push_back(c.ps[i]); }
    }
    describe(x, c.p, with);
    MPS a = makeMPS(c.p, c.ps), b = makeMPS(c.p, with);
    vector<RP> g0;
    for (auto& q : visible(b.particles)) if (q.type == ref::Ghost) g0.push_back(q);
    for (int s = 1; s <= 2; s++) {
        realStep(x, a, "(without ghosts)");
        realStep(x, b, "(with ghosts)");
        auto va = visible(a.particles), vb = visible(b.particles);
        vector<RP> sel;
        for (int i : map) sel.push_back(vb[i]);
        string d = differ(sel, va, twoRuns(c.p, c.ps));
        if (!d.empty()) x.fail("step " + std::to_string(s) + ": with ghosts present, " + d + " (expected = run without ghosts)");
        if (!close(a.courant, b.courant, 1e-7)) x.fail("Courant number depends on ghosts");
        size_t k = 0;
        for (size_t i = 0; i < vb.size(); i++) {
            if (std::find(map.begin(), map.end(), (int) i) != map.end()) {
                if (vb[i].type == ref::Ghost && (vb[i].p != 0 || vb[i].n != 0)) x.fail("a removed particle reports pressure or number density");
                continue;
            }
            if (vb[i].type != ref::Ghost) x.fail("a ghost came back");
            if (vb[i].p != 0) x.fail("ghost reports pressure " + mc::num(vb[i].p));
            if (vb[i].n != 0) x.fail("ghost reports number density " + mc::num(vb[i].n));
            for (int q = 0; q < 3; q++)
                if (!close(vb[i].x[q], g0[k].x[q], 0) || !close(vb[i].v[q], g0[k].v[q], 0)) x.fail("a ghost moves or changes velocity");
            k++;
        }
        x.state(stateHash(vb));
    }
    x.outcome(outcomeHash(visible(b.particles)));
    x.nontrivial();
}

// ---------------------------------------------------------------- C04
// A fluid particle right next to a wall that carries a velocity.
void c04close(Ctx& x) {
    Params p = methodParams(x.choose(3, "method"));
    bool d3 = x.flag("3D");
    if (d3) make3D(p);
    double d = x.pick(vector<double>{0.001, 0.05, 0.2, 0.49, 0.51, 0.9}, "distance") * p.l0;
    const vector<V3> E = {{1, 0, 0}, {0, -1, 0}, {-0.6, 0.8, 0}};
    V3 e = x.pick(E, "direction");
    if (d3) e = {e[1] * 0.6, e[0], e[1] * 0.8};
    x.shard();
    p.dt = 1e-3; p.c = x.flag("stiff") ? 12 : 0;
    const vector<V3> V = {{0, 0, 0}, {3, -2, 0}, {-40, 35, 0}};
    V3 vf = x.pick(V), vw = x.pick(vector<V3>{{0, 0, 0}, {0.5, 0, 0}, {-7, 9, 1}});
    int tw = x.choose(2) ? ref::Dummy : ref::Wall, first = x.choose(2), third = x.choose(4);
    double rw = x.pick(vector<double>{1000, 250, 20000});
    vector<RP> ps = {{ref::Fluid, {0.1, 0.1, 0}, vf, 1000}, {tw, V3{0.1, 0.1, 0} + e * d, vw, rw}};
    if (first) std::swap(ps[0], ps[1]);
    if (third) ps.push_back({third, {0.1, 0.1 + 0.3 * p.l0, 0}, vw * 0.5, 700}); // fluid, wall, dummy
    for (size_t i = 0; i < ps.size(); i++) ps[i].fluid = 3 + (int) i;
    describe(x, p, ps);
    MPS m = makeMPS(p, ps);
    for (int s = 1; s <= 2; s++) {
        realStep(x, m);
        auto v = visible(m.particles);
        for (size_t i = 0; i < v.size(); i++) {
            string who = "after step " + std::to_string(s) + " particle " + std::to_string(i) + " (" + ref::typeName(ps[i].type) + ") ";
            if (m.particles[i].id != (int) i || v[i].rho != ps[i].rho || v[i].fluid != ps[i].fluid) x.fail(who + "changed index, density or fluid type");
            if (v[i].type != ps[i].type && v[i].type != ref::Ghost) x.fail(who + "became " + ref::typeName(v[i].type));
            if (ps[i].type == ref::Fluid) continue;
            if (v[i].type != ps[i].type) x.fail(who + "was removed");
            for (int a = 0; a < 3; a++)
                if (v[i].x[a] != ps[i].x[a] || v[i].v[a] != ps[i].v[a]) x.fail(who + "moved or changed velocity: " + str(v[i]) + ", was " + str(ps[i]));
        }
        x.state(stateHash(v));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}
void c04history(Ctx& x) {
    auto c = collapse(x, {{2, 5, 6, 1}});
    for (auto& q : c.ps) if (q.type != ref::Fluid) q.v = {0.3, -0.2, 0};
    describe(x, c.p, c.ps);
    MPS m = makeMPS(c.p, c.ps);
    auto prev = visible(m.particles);
    for (int s = 1; s <= (T() ? 200 : 60); s++) {
        realStep(x, m);
        auto v = visible(m.particles);
        for (size_t i = 0; i < v.size(); i++) {
            string who = "after step " + std::to_string(s) + " particle " + std::to_string(i) + " (" + ref::typeName(prev[i].type) + ") ";
            if (m.particles[i].id != (int) i || v[i].rho != prev[i].rho || v[i].fluid != prev[i].fluid) x.fail(who + "changed index, density or fluid type");
            if (v[i].type != prev[i].type && v[i].type != ref::Ghost) x.fail(who + "became " + ref::typeName(v[i].type));
            if (prev[i].type != ref::Fluid && (v[i].x != prev[i].x || v[i].v != prev[i].v)) x.fail(who + "moved or changed velocity: " + str(v[i]) + ", was " + str(prev[i]));
        }
        prev = v;
        x.state(stateHash(v));
    }
    x.outcome(outcomeHash(prev));
    x.nontrivial();
}
void c04(Ctx& x) {
    int fam = x.choose(3, "family");
    if (fam == 1) { c04close(x); return; }
    if (fam == 2) { c04history(x); return; }
    int speed = x.choose(T() ? 4 : 3, "speed");
    auto c = coupled(x, 5, T() ? 6 : 5, {0, 1, 2, 3, 4, 5}, 3, 2);
    if (!c.any) x.prune();
    const double f[] = {1, 25, 400, 0};
    for (auto& q : c.ps) if (q.type == ref::Fluid) q.v = q.v * f[speed];
    describe(x, c.p, c.ps);
    MPS m = makeMPS(c.p, c.ps);
    auto v0 = visible(m.particles);
    for (int s = 1; s <= 3; s++) {
        realStep(x, m);
        auto v = visible(m.particles);
        if (v.size() != v0.size()) x.fail("particle count changed");
        for (size_t i = 0; i < v.size(); i++) {
            string who = "after step " + std::to_string(s) + " particle " + std::to_string(i) + " (" + ref::typeName(v0[i].type) + ") ";
            if (m.particles[i].id != (int) i) x.fail(who + "changed index");
            if (v[i].rho != v0[i].rho) x.fail(who + "changed density");
            if (v[i].fluid != v0[i].fluid) x.fail(who + "changed fluid type");
            bool in = true;
            for (int a = 0; a < 3; a++) if (!(v[i].x[a] >= c.p.lo[a] && v[i].x[a] <= c.p.hi[a])) in = false;
            if (v[i].type != v0[i].type && !(v[i].type == ref::Ghost && !in)) x.fail(who + "became " + ref::typeName(v[i].type) + " at " + str(v[i].x));
            if (v0[i].type == ref::Wall || v0[i].type == ref::Dummy)
                for (int a = 0; a < 3; a++) {
                    if (std::memcmp(&v[i].x[a], &v0[i].x[a], 8)) x.fail(who + "moved from " + str(v0[i].x) + " to " + str(v[i].x));
                    if (v[i].v[a] != v0[i].v[a]) x.fail(who + "changed velocity from " + str(v0[i].v) + " to " + str(v[i].v));
                }
        }
        x.state(stateHash(v));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}

// ---------------------------------------------------------------- C06
void c06(Ctx& x) {
    Params p = methodParams(x.choose(3));
    bool d3 = x.flag("3D");
    if (d3) { make3D(p); }
    p.lo = {-12, -12, d3 ? -12.0 : 0.0}; p.hi = {12, 12, d3 ? 12.0 : 0.0};
    p.reN = p.reG = p.reL = 1.5 * p.l0;
    p.nu = 0.5; p.dt = x.flag() ? 0.0625 : 0.01;
    p.xyz = x.flag("form");
    if (p.xyz) {
        const vector<double> A = {0, -9.8, 3.5};
        p.g = {x.pick(A), x.pick(A), d3 || p.dt == 0.01 ? x.pick(A) : 0.0};
        if (!d3 && p.g[2] != 0) { p.lo[2] = -12; p.hi[2] = 12; } // a two-dimensional kernel in a thick box
        p.gNorm = 7; p.gAngle = 33; // must be ignored
    } else {
        p.gNorm = x.pick(vector<double>{0, 9.81, 2});
        p.gAngle = x.pick(vector<double>{0, 15, 22.5, 30, 45, 60, 89.9, 90, 120, 135, 180, 225, 270, 300, 360, 0.5, -7.25, -30, -90, 400, 1e-3});
        p.g = {5, 5, 5}; // must be ignored
    }
    x.shard();
    const vector<V3> V = {{0, 0, 0}, {1, 0, 0}, {0, -2, 0}, {-1.5, 0.5, 0}};
    V3 v = x.pick(V);
    if (d3) v[2] = v[0] * 0.5 + 0.25;
    double rho = x.flag() ? 1000.0 : 250.0;
    vector<RP> ps = {{ref::Fluid, {0.25, 0.5, 0}, v, rho}};
    int other = x.choose(4); // alone; second fluid far away; wall far away; ghost on the same place
    if (other == 1) ps.push_back({ref::Fluid, {8, -8, 0}, {0.5, 0.5, 0}, 500});
    if (other == 2) ps.push_back({ref::Wall, {8, -8, 0}, {0.5, 0.5, 0}, 500});
    if (other == 3) ps.push_back({ref::Ghost, {0.25, 0.5, 0}, {3, 3, 0}, 500});
    for (size_t i = 0; i < ps.size(); i++) ps[i].fluid = (rho == 250.0 ? 2 : 0) - 3 * (int) i;
    describe(x, p, ps);
    ref::Model r(p);
    r.ps = ps;
    MPS m = makeMPS(p, ps);
    V3 g = r.gravity();
    for (int a = 0; a < 3; a++)
        if (!close(m.gravity[a], g[a], 1e-12)) x.fail("gravity is " + str(R3(m.gravity)) + ", expected " + str(g));
    // closed form of the update, written out here
    vector<RP> want = ps;
    for (int s = 1; s <= 4; s++) {
        realStep(x, m);
        for (auto& q : want)
            if (q.type == ref::Fluid) { q.v = q.v + g * p.dt; q.x = q.x + q.v * p.dt; }
        auto got = visible(m.particles);
        Cmp c{1e-11, 1e-9, false, true};
        string d = differ(got, want, c);
        if (!d.empty()) x.fail("after step " + std::to_string(s) + ": " + d);
        x.state(stateHash(got));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}

// ---------------------------------------------------------------- C07
void c07(Ctx& x) {
    Params p;
    bool d3 = x.flag("3D");
    if (d3) { p.dim = 3; p.lo = {-4, -4, -4}; p.hi = {4, 4, 4}; }
    p.l0 = 0.5; p.dt = 0.0625; p.nu = 0.3; p.c = 0; p.colDist = 0;
    const double R[3][3] = {{0.75, 1.0, 1.25}, {1.25, 0.75, 1.0}, {1.0, 1.25, 0.75}};
    int rr = x.choose(3, "radii");
    p.reN = R[rr][0]; p.reG = R[rr][1]; p.reL = R[rr][2];
    int thick = x.choose(3, "viscosity");
    if (thick == 1) p.nu = 0.01;
    if (thick == 2) { p.nu = 0.3 * 1048576; p.dt = 0.0625 / 1048576; } // great accelerations over a short time
    // distances from the first site below, at and above each radius (3-4-5 and axis directions are exact)
    const vector<V3> S2 = {{0.5, 0, 0}, {0, 0.75, 0}, {-1.0, 0, 0}, {0.75, 1.0, 0}, {0.45, -0.6, 0}, {-0.6, -0.8, 0}, {0, -1.25, 0}, {0.375, 0.5, 0}, {1.5, 0, 0}};
    const vector<V3> S3 = {{0, 0, 0.5}, {0, 0.75, 0}, {0, 0, -1.0}, {0.25, 0.5, 0.5}, {0.5, -0.25, -0.5}, {0, 0.75, 1.0}, {-0.6, 0, 0.8}};
    auto& S = d3 ? S3 : S2;
    int a = x.choose((int) S.size()), b = x.choose((int) S.size());
    if (b == a) x.prune();
    int perm = x.choose(2, "index order");
    if (!d3 && perm) { p.lo[2] = -1.3; p.hi[2] = 2.1; } // thick box
    x.shard();
    vector<V3> V = {{0, 0, 0}, {1, 0, 0}, {-0.5, 2, 0}, {0, -1, 0}};
    if (d3) V = {{0, 0, 0}, {0, -1, 0.5}, {-0.5, 2, -1}, {0, 0, 1}};
    if (!T()) V.pop_back();
    vector<V3> pos = {{0, 0, 0}, S[a], S[b]};
    vector<RP> ps;
    int anyFluid = 0, allFluid = 1;
    double rhoMode = x.choose(2);
    for (int i = 0; i < 3; i++) {
        int t = x.choose(4); // fluid wall dummy ghost
        int type = t == 0 ? 1 : t == 1 ? 2 : t == 2 ? 3 : 0;
        if (type == 1) anyFluid = 1; else allFluid = 0;
        ps.push_back({type, pos[i], x.pick(V), rhoMode ? 400.0 + 300 * i : 1000.0});
        ps.back().fluid = rhoMode ? i : 0;
    }
    if (!anyFluid) x.prune();
    if (perm) std::swap(ps[0], ps[2]);
    describe(x, p, ps);
    ref::Model r(p);
    r.ps = ps;
    MPS m = makeMPS(p, ps);
    bool uniform = true;
    for (auto& q : ps) if (q.type != 0 && q.v != ps[0].v) uniform = false;
    if (ps[0].type == 0) uniform = false;
    for (int s = 1; s <= 2; s++) {
        V3 mom0{0, 0, 0}, mom1{0, 0, 0};
        for (auto& q : m.particles) if (q.type == ParticleType::Fluid) mom0 = mom0 + R3(q.velocity);
        r.step();
        realStep(x, m);
        auto got = visible(m.particles);
        if (r.ambiguous) { x.inconclusive(); break; }
        Cmp c{1e-10, 1e-9, false, true};
        string d = differ(got, r.ps, c);
        if (!d.empty()) x.fail("after step " + std::to_string(s) + ": " + d);
        for (auto& q : got) if (q.type == 1) mom1 = mom1 + q.v;
        if (allFluid && ref::len(mom1 - mom0) > 1e-10) x.fail("a closed fluid set changed its total velocity from " + str(mom0) + " to " + str(mom1));
        if (uniform)
            for (size_t i = 0; i < got.size(); i++)
                if (got[i].type == 1 && ref::len(got[i].v - ps[i].v) > 1e-12) x.fail("uniform velocity was changed by viscosity");
        x.state(stateHash(got));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}

// ---------------------------------------------------------------- C08
void c08pair(Ctx& x) {
    Params p;
    p.l0 = 0.5; p.dt = 1.0 / 64; p.colDist = 0.25; p.c = 0;
    p.lo = {-4, -4, -4}; p.hi = {4, 4, 4};
    p.rest = x.pick(vector<double>{0, 0.25, 1});
    p.implicit = false;
    int geo = x.choose(3, "2D, 3D, 2D in a thick box");
    bool d3 = geo > 0;
    if (geo == 1) p.dim = 3;
    const vector<V3> D2 = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0.6, 0.8, 0}, {-0.8, 0.6, 0}};
    const vector<V3> D3 = {{0, 0, 1}, {0, 0, -1}, {1 / 3.0, 2 / 3.0, 2 / 3.0}, {-2 / 7.0, 3 / 7.0, -6 / 7.0}};
    V3 e = x.pick(d3 ? D3 : D2);
    double frac = x.pick(vector<double>{0.25, 0.5, 0.96875, 1.0, 1.25});
    x.shard();
    int swap = x.choose(2);
    int ti = 1 + x.choose(3), tj = x.choose(4);
    double ri = x.pick(vector<double>{1000, 500}), rj = x.pick(vector<double>{1000, 250, 1.25});
    const vector<double> A = {0, 1, -2};
    const vector<double> An = frac == 0.5 ? vector<double>{0, 1, -2, 1e-7} : A;
    V3 f = d3 ? V3{e[1], -e[0], 0.0} : V3{-e[1], e[0], 0.0}; // a direction orthogonal to e
    if (ref::len(f) < 0.1) f = {1, 0, 0};
    f = f * (1 / ref::len(f));
    double ni = x.pick(An), nj = x.pick(An), si = x.pick(A), sj = x.pick(A);
    V3 o{0.125, -0.25, d3 ? 0.5 : 0.0};
    RP a{ti, o, e * ni + f * si, ri}, b{tj, o + e * (frac * p.colDist), e * nj + f * sj, rj};
    vector<RP> ps = swap ? vector<RP>{b, a} : vector<RP>{a, b};
    describe(x, p, ps);
    // predicted pair
    auto pred = ps;
    for (auto& q : pred) if (q.type == ref::Fluid) q.x = q.x + q.v * p.dt;
    V3 rel = pred[1].x - pred[0].x;
    double d = ref::len(rel);
    bool axis = std::fabs(e[0]) == 1 || std::fabs(e[1]) == 1 || std::fabs(e[2]) == 1;
    if (std::fabs(d - p.colDist) < 1e-9 && !(axis && si == 0 && sj == 0)) { x.inconclusive(); return; } // only exact placements sit on the threshold
    MPS m = makeMPS(p, ps);
    realStep(x, m);
    auto got = visible(m.particles);
    bool fl[2] = {ps[0].type == 1, ps[1].type == 1};
    bool live = ps[0].type != 0 && ps[1].type != 0 && (fl[0] || fl[1]);
    auto want = pred;
    bool hit = live && d < p.colDist;
    if (hit) {
        V3 n = rel * (1 / d);
        double m0 = fl[0] ? ps[0].rho : INFINITY, m1 = fl[1] ? ps[1].rho : INFINITY;
        double f0 = fl[0] && fl[1] ? m1 / (m0 + m1) : fl[0] ? 1 : 0, f1 = 1 - f0; // share of each
        double vn = ref::dot(ps[1].v - ps[0].v, n);
        double dv = vn < 0 ? -(1 + p.rest) * vn : 0; // change of the relative normal speed
        want[0].v = want[0].v - n * (dv * f0); want[1].v = want[1].v + n * (dv * f1);
        double push = p.colDist - d;
        want[0].x = want[0].x - n * (push * f0); want[1].x = want[1].x + n * (push * f1);
        // the statement's own words, on the observed result
        double vn2 = ref::dot(got[1].v - got[0].v, n);
        if (vn < -1e-12 && !close(vn2, -p.rest * vn, 1e-9)) x.fail("relative normal speed " + mc::num(vn) + " became " + mc::num(vn2) + " with restitution " + mc::num(p.rest));
        double d2 = ref::len(got[1].x - got[0].x);
        if (!close(d2, p.colDist, 1e-9)) x.fail("the pair ends " + mc::num(d2) + " apart instead of the collision distance " + mc::num(p.colDist));
        if (fl[0] && fl[1]) {
            V3 q0 = ps[0].v * m0 + ps[1].v * m1, q1 = got[0].v * m0 + got[1].v * m1;
            if (ref::len(q1 - q0) > 1e-8 * (1 + ref::len(q0))) x.fail("momentum changed from " + str(q0) + " to " + str(q1));
        }
        x.tag(vn < 0 ? "approaching-contact" : "separating-contact");
        x.nontrivial();
    } else x.tag("no-contact");
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 3; k++) {
            if (!close(got[i].v[k], want[i].v[k], 1e-9)) x.fail("velocity of particle " + std::to_string(i) + " is " + str(got[i].v) + ", expected " + str(want[i].v));
            if (!close(got[i].x[k], want[i].x[k], 1e-9)) x.fail("position of particle " + std::to_string(i) + " is " + str(got[i].x) + ", expected " + str(want[i].x));
        }
    x.state(stateHash(ps));
    x.outcome(outcomeHash(got));
}
void c08many(Ctx& x) {
    Params p;
    p.l0 = 0.5; p.dt = 1.0 / 64; p.colDist = 0.25; p.c = 0; p.rest = x.pick(vector<double>{0, 0.25, 1});
    p.lo = {-4, -4, -4}; p.hi = {4, 4, 4};
    const vector<V3> S = {{0, 0, 0}, {0.17, 0.03, 0}, {0.05, 0.19, 0}, {-0.12, 0.11, 0.04}, {0.21, 0.22, 0}, {-0.2, -0.07, 0.05}};
    const int n = 3 + x.choose(2);
    const bool few = n == 4 && !T();
    if (few && p.rest == 1) x.prune();
    vector<int> site;
    for (int i = 0; i < n; i++) site.push_back(x.choose(few ? 5 : (int) S.size()));
    if (few && (site[1] < site[0] || site[2] < site[1])) x.prune();
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (site[i] == site[j]) x.prune();
    x.shard();
    vector<RP> ps;
    const vector<V3> V = {{0, 0, 0}, {3, 0, 0}, {-2, -2, 0}, {0, 2, 1}};
    int rhoMode = x.choose(2), wall = x.choose(4); // 0: all fluid; the last (or first) is 1: wall, 2: dummy, 3: ghost
    const int odd = wall && x.flag("the first is the odd one") ? 0 : n - 1;
    for (int i = 0; i < n; i++) {
        int type = 1;
        if (i == odd && wall) type = wall == 1 ? 2 : wall == 2 ? 3 : 0;
        ps.push_back({type, S[site[i]], few && i > 1 ? V[x.choose(2) * 2] : x.pick(V), rhoMode ? 300.0 + 500 * i : 1000.0});
    }
    describe(x, p, ps);
    MPS m = makeMPS(p, ps);
    V3 P0{0, 0, 0}, C0{0, 0, 0};
    int contacts = 0;
    for (int s = 1; s <= 2; s++) {
        auto before = visible(m.particles);
        P0 = C0 = {0, 0, 0};
        for (auto& q : before) if (q.type == 1) { P0 = P0 + q.v * q.rho; C0 = C0 + (q.x + q.v * p.dt) * q.rho; }
        stepAgainst(x, m, p, s, {1e-8, 1e-6, false, true});
        auto got = visible(m.particles);
        V3 P1{0, 0, 0}, C1{0, 0, 0};
        for (size_t i = 0; i < got.size(); i++) {
            auto& q = got[i];
            if (q.type == 1) { P1 = P1 + q.v * q.rho; C1 = C1 + q.x * q.rho; }
            if (before[i].type != 1 && (q.x != before[i].x || q.v != before[i].v)) x.fail("a non-fluid particle was moved by a collision");
            if (before[i].type == 1 && ref::len(q.v - before[i].v) > 1e-12) contacts++;
        }
        if (wall == 0 || wall == 3) {
            if (ref::len(P1 - P0) > 1e-8 * (1 + ref::len(P0))) x.fail("step " + std::to_string(s) + ": momentum of the fluid set changed from " + str(P0) + " to " + str(P1));
            if (ref::len(C1 - C0) > 1e-8 * (1 + ref::len(C0))) x.fail("step " + std::to_string(s) + ": density-weighted centre moved from " + str(C0) + " to " + str(C1));
        }
        // energy never grows (restitution <= 1)
        double e0 = 0, e1 = 0;
        for (size_t i = 0; i < got.size(); i++) if (got[i].type == 1) { e0 += before[i].rho * ref::dot(before[i].v, before[i].v); e1 += got[i].rho * ref::dot(got[i].v, got[i].v); }
        bool still = true; // nothing that cannot move carries a velocity
        for (auto& q : before) if (q.type != 1 && ref::len(q.v) > 0) still = false;
        if (still && e1 > e0 * (1 + 1e-9) + 1e-9) x.fail("step " + std::to_string(s) + ": the kinetic energy of the set grew from " + mc::num(e0) + " to " + mc::num(e1));
        x.state(stateHash(got));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    if (contacts) x.nontrivial();
}
// Clouds of fluid particles with many collisions at once: what holds in any order.
void c08cloud(Ctx& x) {
    auto c = block(x, {{2, 7, 6, 1}, {3, 4, 4, 4}, {2, 13, 9, 1}, {2, 1, 24, 1}}, 1, 3, 3, 2, 1);
    isolate(c.p, Collision);
    c.p.g = {0, 0, 0};
    c.p.colDist = x.pick(vector<double>{0.9, 0.97, 1.05}) * c.p.l0;
    c.p.rest = x.pick(vector<double>{0, 0.3, 1});
    if (c.vel == 0) x.prune();
    const double f = x.pick(vector<double>{1, 8});
    for (auto& q : c.ps) q.v = q.v * f;
    describe(x, c.p, c.ps);
    MPS m = makeMPS(c.p, c.ps);
    for (int s = 1; s <= (T() ? 8 : 4); s++) {
        auto before = visible(m.particles);
        realStep(x, m);
        auto got = visible(m.particles);
        V3 P0{0, 0, 0}, P1 = P0, C0 = P0, C1 = P0;
        double e0 = 0, e1 = 0, scale = 0;
        bool left = false;
        int hit = 0;
        for (size_t i = 0; i < got.size(); i++) {
            auto &a = before[i], &b = got[i];
            if (b.type != ref::Fluid) left = true;
            P0 = P0 + a.v * a.rho; P1 = P1 + b.v * b.rho;
            C0 = C0 + (a.x + a.v * c.p.dt) * a.rho; C1 = C1 + b.x * b.rho;
            e0 += a.rho * ref::dot(a.v, a.v); e1 += b.rho * ref::dot(b.v, b.v);
            scale += a.rho * (ref::len(a.v) + ref::len(a.x));
            hit += ref::len(a.v - b.v) > 1e-9;
        }
        if (left) { x.tag("a particle left"); break; }
        string when = "step " + std::to_string(s) + ": ";
        if (ref::len(P1 - P0) > 1e-10 * scale) x.fail(when + "momentum of the cloud changed from " + str(P0) + " to " + str(P1));
        if (ref::len(C1 - C0) > 1e-10 * scale) x.fail(when + "density-weighted centre moved from " + str(C0) + " to " + str(C1));
        if (e1 > e0 * (1 + 1e-9)) x.fail(when + "the kinetic energy grew from " + mc::num(e0) + " to " + mc::num(e1));
        if (hit > 2) x.nontrivial();
        x.state(stateHash(got));
    }
    x.outcome(outcomeHash(visible(m.particles)));
}
void c08(Ctx& x) {
    switch (x.choose(6, "family")) {
    case 0: c08pair(x); break;
    case 1: c08many(x); break;
    case 2: c08cloud(x); break;
    case 3: blocks(x, Collision); break;
    case 4: history(x, Collision); break;
    case 5: bigBlocks(x, Collision); break;
    }
}

// ---------------------------------------------------------------- C09
// After collisions, after a particle has left, with particles nearly on one place, and exactly at the thresholds.
void c09more(Ctx& x) {
    int kind = x.choose(4, "kind");
    Params p;
    vector<RP> ps;
    int leaves = -1;
    if (kind == 0) { // states and densities at the places after collisions
        auto c = coupled(x, 4, 5, {1, 5}, 3, 2);
        if (!c.p.implicit) x.prune();
        p = c.p; ps = c.ps;
        p.gamma = 0; // no pressure, no correction: the places at the end are those of the density
    } else if (kind == 1) { // one of several leaves during the step
        auto c = coupled(x, 3, 5, {0, 2, 3, 4}, 2, 1);
        if (!c.p.implicit) x.prune();
        p = c.p; ps = c.ps;
        p.gamma = 0;
        leaves = x.choose(2) ? 0 : (int) ps.size();
        ps.insert(ps.begin() + leaves, {ref::Fluid, V3{0.45, 0.4, 0} * p.l0, {0, 0, 0}});
    } else if (kind == 2) { // nearly coincident
        p.implicit = true; p.l0 = 0.5; p.dt = 0.01; p.gamma = 0; p.comp = 1e-3; p.colDist = 0;
        p.reN = 1.5 * p.l0; p.reG = 1.4 * p.l0; p.reL = 1.7 * p.l0; p.thrN = x.pick(vector<double>{0.3, 0.97, 30, 900});
        p.dist = x.flag();
        if (x.flag("3D")) { p.dim = 3; p.lo = {-4, -4, -4}; p.hi = {4, 4, 4}; }
        x.shard();
        const vector<double> D = {1e-4, 1e-3, 0.01, 0.04, 0.1};
        ps.push_back({ref::Fluid, {0, 0, 0}, {0, 0, 0}});
        ps.push_back({1 + x.choose(3), {x.pick(D) * p.l0, 0, 0}, {0, 0, 0}});
        ps.push_back({1 + x.choose(3), {0.03 * p.l0, x.pick(D) * p.l0, 0}, {0, 0, 0}});
        ps.push_back({x.choose(4), {0.9 * p.l0, 0.1 * p.l0, 0}, {0, 0, 0}});
    } else { // exactly at the thresholds: n0 = 1, a neighbour at the spacing contributes 0.25, one at 3/4 of it 0.6667
        p.implicit = true; p.l0 = 0.5; p.dt = 0.125; p.gamma = 0; p.comp = 1; p.colDist = 0; p.exact = true;
        p.reN = p.reG = p.reL = 0.625;
        p.thrN = x.pick(vector<double>{0.25, 0.5, 0.75, 1.0});
        p.dist = x.flag(); p.thrD = x.pick(vector<double>{1.0, 0.5, 2.0});
        x.shard();
        const vector<V3> S = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {1, 1, 0}, {2, 0, 0}};
        for (size_t i = 0; i < S.size(); i++) {
            int k = x.choose(i == 0 ? 2 : T() ? 4 : 3);
            if (i == 0) k++;
            if (k) ps.push_back({k, S[i] * p.l0, {0, 0, 0}});
        }
    }
    describe(x, p, ps);
    MPS m = makeMPS(p, ps);
    for (int s = 1; s <= 2; s++) {
        if (s == 1 && leaves >= 0) { // first an ordinary step, then it is launched
            realStep(x, m);
            m.particles[leaves].velocity = {40 / p.dt, 0, 0};
        }
        realStep(x, m);
        auto got = visible(m.particles);
        ref::Model r(p);
        r.ps = got;
        r.neighbours(); r.density(); r.classify();
        if (r.ambiguous) { x.inconclusive(); return; }
        for (size_t i = 0; i < got.size(); i++) {
            string who = "step " + std::to_string(s) + " particle " + std::to_string(i) + " (" + ref::typeName(got[i].type) + ") ";
            if (got[i].p != 0) x.fail(who + "has pressure " + mc::num(got[i].p) + " without a relaxation term");
            if (!close(got[i].n, r.ps[i].n, 1e-8)) x.fail(who + "number density is " + mc::num(got[i].n) + ", its place asks for " + mc::num(r.ps[i].n));
            if (got[i].bc != r.ps[i].bc) x.fail(who + "is classified " + std::to_string(got[i].bc) + ", expected " + std::to_string(r.ps[i].bc) + " (n/n0=" + mc::num(r.ps[i].n / r.n0N) + ")");
        }
        if (leaves >= 0 && got[leaves].type != ref::Ghost) x.fail("the launched particle is still there");
        x.state(stateHash(got));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}
void c09(Ctx& x) {
    Params p;
    p.implicit = true; p.l0 = 0.5; p.dt = 0.05; p.comp = 2e-3; p.colDist = 0;
    int fam = x.choose(3, "family");
    p.dist = x.flag("distribution");
    p.thrN = x.pick(vector<double>{0.30, 0.62, 0.97}, "threshold");
    p.thrD = x.pick(vector<double>{1.0, 0.5, 0.05}, "distribution threshold");
    if (!p.dist && p.thrD != 1.0) x.prune();
    vector<V3> S;
    const double R[3][3] = {{1.55, 1.35, 1.75}, {2.1, 1.25, 1.6}, {1.3, 1.7, 1.45}};
    int rr = x.choose(T() ? 3 : 2, "radii");
    p.reN = R[rr][0] * p.l0; p.reG = R[rr][1] * p.l0; p.reL = R[rr][2] * p.l0;
    if (fam == 0) { // 3x3 patch, centre first
        S = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {-1, -1, 0}, {1, -1, 0}};
    } else if (fam == 1) { // jittered / denser patch
        S = {{0, 0, 0}, {0.71, 0.13, 0}, {-0.11, 0.64, 0}, {-0.83, 0.07, 0}, {0.23, -0.77, 0}, {0.81, 0.93, 0}, {-1.22, -0.81, 0}};
    } else { // 3D
        p.dim = 3; p.lo = {-4, -4, -4}; p.hi = {4, 4, 4};
        S = {{0, 0, 0}, {0.9, 0, 0}, {0, 0.9, 0}, {0, 0, 0.9}, {-0.9, 0, 0}, {0, -0.9, 0}, {0, 0, -0.9}, {0.7, 0.7, 0.7}};
    }
    int nT = T() ? 5 : (fam == 0 ? 3 : 4); // none fluid wall | dummy | ghost
    vector<RP> ps;
    for (size_t i = 0; i < S.size(); i++) {
        if (i == 3) x.shard();
        int k = i == 0 ? 1 + x.choose(2) : x.choose(T() && fam == 0 ? 3 : nT);
        if (k == 0) continue;
        // for the 3x3 patch the third kind alternates wall/dummy by site so both occur
        int type = k == 1 ? 1 : k == 2 ? (fam == 0 && i > 0 && i % 2 == 0 ? 3 : 2) : k == 3 ? 3 : 0;
        ps.push_back({type, S[i] * p.l0, {0, 0, 0}, 1000});
    }
    describe(x, p, ps);
    ref::Model r(p);
    r.ps = ps;
    MPS m = makeMPS(p, ps);
    realStep(x, m);
    r.neighbours(); r.density(); r.classify();
    if (r.ambiguous) { x.inconclusive(); return; }
    auto got = visible(m.particles);
    for (size_t i = 0; i < got.size(); i++) {
        string who = "particle " + std::to_string(i) + " (" + ref::typeName(ps[i].type) + ") ";
        if (!close(got[i].n, r.ps[i].n, 1e-10)) x.fail(who + "number density is " + mc::num(got[i].n) + ", expected " + mc::num(r.ps[i].n));
        if (got[i].bc != r.ps[i].bc) x.fail(who + "is classified " + std::to_string(got[i].bc) + ", expected " + std::to_string(r.ps[i].bc) + " (n/n0=" + mc::num(r.ps[i].n / r.n0N) + ")");
        x.tag("class-" + std::to_string(got[i].bc));
    }
    x.state(stateHash(ps));
    uint64_t h = 1;
    for (auto& q : got) h = mc::mix(h, q.bc * 7 + q.type);
    x.outcome(h);
    x.nontrivial();
}

// ---------------------------------------------------------------- C10
vector<RP> pressureSet(Ctx& x, const Params& p, const ref::Model& r, int n, int geo, bool small) {
    static const vector<vector<V3>> G = {
        {{0, 0, 0}, {0.9, 0.1, 0}, {0.3, 0.8, 0}, {1.2, 0.9, 0}},
        {{0, 0, 0}, {0.4, 0, 0}, {0.9, 0.3, 0}, {1.6, 0, 0}},      // chain, ends not coupled
        {{0, 0, 0}, {3, 3, 0}, {0.7, 0.7, 0}, {3.5, 3.1, 0}},      // two components
        {{0, 0, 0}, {1.75, 0, 0}, {0, 1.75, 0}, {0.6, 0.9, 0}},    // exactly at the Laplacian radius
    };
    (void) p;
    vector<RP> ps;
    for (int i = 0; i < n; i++) {
        int type, nn; double rho;
        if (small) {
            int k = x.choose(5);
            type = k < 3 ? 1 : k == 3 ? 2 : 3;
            nn = k < 3 ? k : 2;
            rho = i % 2 ? 600 : 1000;
        } else {
            type = x.choose(4); nn = x.choose(4); rho = x.flag() ? 1000.0 : 400.0;
        }
        const double f[] = {1.0, 0.45, 1.4, 0.98};
        RP q{type, G[geo][i] * p.l0, {0, 0, 0}, rho};
        q.n = f[nn] * r.n0N;
        ps.push_back(q);
    }
    return ps;
}
Particles withNeighbours(const ref::Model& r, const vector<RP>& ps) {
    Particles out = makeParticles(ps);
    for (size_t i = 0; i < ps.size(); i++) {
        out[i].numberDensity = ps[i].type == 0 ? 0.0 : ps[i].n;
        for (auto& [j, d] : r.nb[i]) out[i].neighbors.emplace_back(j, d);
    }
    return out;
}
void c10(Ctx& x) {
    Params p;
    p.implicit = true; p.l0 = 0.5; p.thrN = 0.97;
    int fam = x.choose(3, "family"), rr = x.choose(3, "radii");
    const double R[3][3] = {{1.75, 1.55, 1.35}, {1.75, 2.4, 2.1}, {1.75, 1.1, 1.05}}; // the Laplacian radius is between, below and above the others
    p.reL = R[rr][0] * p.l0; p.reN = R[rr][1] * p.l0; p.reG = R[rr][2] * p.l0;
    p.comp = x.pick(vector<double>{2e-3, 1e-5}); p.dt = x.flag() ? 0.01 : 0.05; p.gamma = x.flag() ? 0.2 : 1.0;
    if (x.flag("3D")) { p.dim = 3; p.lo = {-4, -4, -4}; p.hi = {4, 4, 4}; }
    if (x.flag("distribution")) { p.dist = true; p.thrD = 0.6; }
    if (fam == 1 && x.flag("low threshold")) p.thrN = 0.3; // particles of low number density are unknowns too
    int geo = x.choose(4), geo2 = fam == 2 ? x.choose(2) : 0;
    ref::Model r(p);
    if ((fam == 0 || rr) && (p.dt == 0.05 || p.gamma == 1.0 || (p.dist && !rr)) && !T()) x.prune();
    x.shard();
    vector<vector<RP>> sets;
    if (fam == 0) sets.push_back(pressureSet(x, p, r, 3, geo, false));                                                          // full alphabet
    else if (fam == 1) sets.push_back(pressureSet(x, p, r, 4, geo, true));                                                      // four particles
    else { sets.push_back(pressureSet(x, p, r, 2, geo, true)); sets.push_back(pressureSet(x, p, r, x.flag() ? 3 : 2, geo2, true)); if (T()) sets.push_back(pressureSet(x, p, r, 2, geo, true)); } // sequences of calls
    MPS m = makeMPS(p, {});
    int call = 0;
    for (auto& ps : sets) {
        call++;
        ref::Model q(p);
        q.ps = ps;
        q.neighbours();
        for (size_t i = 0; i < ps.size(); i++) if (ps[i].type == 0) q.ps[i].n = 0;
        if (x.describing) { x.out << "call " << call << ":\n"; describe(x, p, q.ps); }
        q.ambiguous = false; // exact radii are intended here (weights vanish there)
        q.pressureImplicit();
        Particles live = withNeighbours(q, ps);
        vector<double> got;
        auto o = mc::guarded([&] { got = m.pressureCalculator->calc(live); });
        x.transition();
        if (q.ambiguous) { x.inconclusive(); return; }
        if (!o.ok()) x.fail("pressure calculation ended the program: " + o.str());
        if (got.size() != ps.size()) x.fail("pressure vector has " + std::to_string(got.size()) + " entries for " + std::to_string(ps.size()) + " particles");
        double pmax = 1e-5 * p.gamma / p.comp; // rounding of a source that vanishes
        for (auto& s : q.ps) pmax = std::max(pmax, std::fabs(s.p));
        int inner = 0;
        for (size_t i = 0; i < ps.size(); i++) {
            string who = "call " + std::to_string(call) + " particle " + std::to_string(i) + " (" + ref::typeName(ps[i].type) + ", state " + std::to_string(q.ps[i].bc) + ") ";
            if (!(std::fabs(got[i] - q.ps[i].p) <= 2e-8 * pmax)) x.fail(who + "pressure is " + mc::num(got[i]) + ", expected " + mc::num(q.ps[i].p));
            if (got[i] < 0) x.fail(who + "has negative pressure " + mc::num(got[i]));
            if (q.ps[i].bc != ref::Inner && got[i] != 0 && std::fabs(got[i]) > 1e-12 * pmax) x.fail(who + "must have zero pressure, has " + mc::num(got[i]));
            if ((int) live[i].boundaryCondition != q.ps[i].bc) x.fail(who + "is classified " + std::to_string((int) live[i].boundaryCondition));
            inner += q.ps[i].bc == ref::Inner;
        }
        if (inner >= 2) x.nontrivial();
        uint64_t h = 5;
        for (double v : got) h = mc::mix(h, mc::hashDouble(v));
        x.outcome(h);
        x.state(mc::mix(outcomeHash(q.ps), call));
    }
}

// ---------------------------------------------------------------- C11
void c11(Ctx& x) {
    Params p;
    p.implicit = false; p.l0 = 0.5; p.reN = 1.55 * p.l0; p.reG = 1.3 * p.l0; p.reL = 1.7 * p.l0;
    p.c = x.pick(vector<double>{17.1, 1, 0, 1500});
    bool whole = x.flag("whole step");
    if (x.flag("3D")) { p.dim = 3; p.lo = {-4, -4, -4}; p.hi = {4, 4, 4}; }
    int rr = x.choose(2);
    if (rr) { p.reN = 2.1 * p.l0; p.reG = 1.55 * p.l0; p.reL = 1.8 * p.l0; }
    ref::Model r(p);
    if (!whole) {
        x.shard();
        const double f[] = {1.0, 0.0, 0.6, 1.0000001, 1.25, 3.0, 20, 1000};
        vector<RP> ps;
        for (int i = 0; i < 3; i++) {
            RP q{x.choose(4), {i * 3.0, 0, 0}, {0, 0, 0}, x.flag() ? 1000.0 : 640.0};
            q.n = f[x.choose(i == 1 || T() ? 8 : 6)] * r.n0N;
            ps.push_back(q);
        }
        describe(x, p, ps);
        MPS m = makeMPS(p, ps);
        r.ps = ps;
        Particles live = makeParticles(ps);
        for (size_t i = 0; i < ps.size(); i++) live[i].numberDensity = ps[i].n;
        vector<double> got;
        auto o = mc::guarded([&] { got = m.pressureCalculator->calc(live); });
        x.transition();
        if (!o.ok()) x.fail("pressure calculation ended the program: " + o.str());
        r.pressureExplicit();
        if (got.size() != ps.size()) x.fail("wrong number of pressures");
        for (size_t i = 0; i < ps.size(); i++) {
            double tol = 1e-9 * std::max(1.0, p.c * p.c * ps[i].rho);
            if (!(std::fabs(got[i] - r.ps[i].p) <= tol)) x.fail("particle " + std::to_string(i) + " pressure is " + mc::num(got[i]) + ", expected " + mc::num(r.ps[i].p));
            if (got[i] < 0) x.fail("negative pressure");
            if (ps[i].type == 0 && got[i] != 0) x.fail("ghost has pressure");
        }
        uint64_t h = 5;
        for (double v : got) h = mc::mix(h, mc::hashDouble(v));
        x.outcome(h);
        x.state(outcomeHash(ps));
        x.nontrivial();
        return;
    }
    // compressed clusters through whole steps
    p.dt = 1e-4;
    if (p.c == 1500) p.dt = 1e-6;
    const vector<V3> S = {{0, 0, 0}, {0.21, 0.04, 0}, {0.05, 0.27, 0.02}, {-0.31, 0.12, 0}, {0.33, 0.41, -0.05}};
    x.shard();
    vector<RP> ps;
    int rho = x.choose(2);
    for (size_t i = 0; i < S.size(); i++) {
        int k = x.choose(5);
        if (k == 1) continue;
        ps.push_back({k == 0 ? 1 : k == 2 ? 2 : k == 3 ? 3 : 0, S[i] * p.l0, {0, 0, 0}, rho ? 500.0 + 250 * i : 1000.0});
    }
    if (ps.empty()) x.prune();
    describe(x, p, ps);
    ref::Model q(p);
    q.ps = ps;
    MPS m = makeMPS(p, ps);
    for (int s = 1; s <= 2; s++) {
        q.step();
        realStep(x, m);
        if (q.ambiguous) { x.inconclusive(); return; }
        auto got = visible(m.particles);
        for (size_t i = 0; i < ps.size(); i++) {
            string who = "step " + std::to_string(s) + " particle " + std::to_string(i) + " ";
            // the law in terms of what the step itself reports
            double want = (got[i].type != 0 && got[i].n > r.n0N) ? p.c * p.c * got[i].rho * (got[i].n - r.n0N) / r.n0N : 0.0;
            if (!close(got[i].p, want, 1e-8)) x.fail(who + "pressure is " + mc::num(got[i].p) + ", its number density asks for " + mc::num(want));
            if (!close(got[i].p, q.ps[i].p, 1e-6)) x.fail(who + "pressure is " + mc::num(got[i].p) + ", expected " + mc::num(q.ps[i].p));
        }
        x.state(stateHash(got));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}

// ---------------------------------------------------------------- C12
void c12(Ctx& x) {
    Params p;
    p.l0 = 0.5; p.dt = 1.0 / 64; p.c = 3; p.colDist = 0;
    bool d3 = x.flag("3D");
    if (d3) { p.dim = 3; p.lo = {-4, -4, -4}; p.hi = {4, 4, 4}; p.c = 6; }
    int rr = x.choose(3, "radii");
    const double R[3][3] = {{0.75, 0.625, 0.8}, {0.75, 1.0, 0.6}, {1.0, 0.75, 0.7}};
    p.reN = R[rr][0]; p.reG = R[rr][1]; p.reL = R[rr][2];
    int rho = x.choose(3, "densities"), order = x.choose(2, "order");
    if (rho == 2) p.c *= 60; // stiff: corrections of many particle distances
    // two tight groups with inter-group distances below, at and above the gradient radius
    vector<V3> S = {{0, 0, 0}, {0.125, 0, 0}, {0, 0.125, 0}, {p.reG, 0, 0}, {p.reG + 0.125, 0, 0}, {p.reG, -0.0625, 0}};
    if (d3) S = {{0, 0, 0}, {0, 0, 0.0625}, {0, 0.0625, 0}, {0, 0, p.reG}, {0.0625, 0, p.reG}, {0, 0.0625, p.reG + 0.125}};
    if (order) std::reverse(S.begin(), S.end());
    x.shard();
    vector<RP> ps;
    int nf = 0;
    for (size_t i = 0; i < S.size(); i++) {
        int k = x.choose(5);
        if (k == 1) continue;
        int type = k == 0 ? 1 : k == 2 ? 2 : k == 3 ? 3 : 0;
        nf += type == 1;
        ps.push_back({type, S[i], {0, 0, 0}, rho == 0 ? 1000.0 : rho == 1 ? 400.0 + 200 * i : 1500.0 - 150 * i});
    }
    if (!nf) x.prune();
    describe(x, p, ps);
    ref::Model r(p);
    r.ps = ps;
    MPS m = makeMPS(p, ps);
    r.step();
    realStep(x, m);
    auto got = visible(m.particles);
    if (r.ambiguous) { x.inconclusive(); return; }
    Cmp c{1e-9, 1e-8, false, true};
    string d = differ(got, r.ps, c);
    if (!d.empty()) x.fail(d);
    bool moved = false;
    for (size_t i = 0; i < ps.size(); i++) {
        V3 dx = got[i].x - ps[i].x;
        for (int a = 0; a < 3; a++) if (std::fabs(dx[a] - got[i].v[a] * p.dt) > 1e-10) x.fail("position correction is not velocity correction times dt");
        if (ref::len(got[i].v) > 1e-12) moved = true;
        if (ps[i].type != 1) continue;
        // a lone neighbour can only push away
        vector<int> nbs;
        for (size_t j = 0; j < ps.size(); j++)
            if (j != i && (ps[j].type == 1 || ps[j].type == 2) && ref::len(ps[j].x - ps[i].x) < p.reG) nbs.push_back((int) j);
        if (nbs.size() == 1 && ref::dot(got[i].v, ps[nbs[0]].x - ps[i].x) > 1e-12) x.fail("particle " + std::to_string(i) + " is attracted by its only neighbour");
    }
    x.state(stateHash(ps));
    x.outcome(outcomeHash(got));
    if (moved) x.nontrivial();
}

// ---------------------------------------------------------------- C13
// One step; the Courant number must be that of the speeds it ends with, and an error must appear exactly when it exceeds the limit.
bool courantStep(Ctx& x, MPS& m, const Params& p, int s) {
    static int memfd = memfd_create("err", 0);
    auto ghosts = [&] { int n = 0; for (auto& q : m.particles) n += q.type == ParticleType::Ghost; return n; };
    int before = ghosts();
    if (ftruncate(memfd, 0)) {}
    lseek(memfd, 0, SEEK_SET);
    std::cerr.flush(); fflush(stderr);
    int keep = dup(2);
    dup2(memfd, 2);
    auto o = mc::guarded([&] { m.stepForward(); });
    std::cerr.flush(); std::clog.flush(); fflush(stderr);
    dup2(keep, 2);
    close(keep);
    x.transition();
    if (!o.ok()) x.fail("a time step did not finish: " + o.str());
    off_t len = lseek(memfd, 0, SEEK_END);
    double want = 0; // from the final speeds of the fluid particles
    for (auto& q : visible(m.particles)) if (q.type == 1) want = std::max(want, ref::len(q.v) * p.dt / p.l0);
    if (!close(m.courant, want, 1e-12)) x.fail("step " + std::to_string(s) + ": Courant number is " + mc::num(m.courant) + ", expected " + mc::num(want));
    bool exceed = want > p.cfl;
    if (std::fabs(want - p.cfl) < 1e-12 && want != p.cfl) return false;
    if (exceed && len == 0) x.fail("Courant number " + mc::num(want) + " exceeds the limit " + mc::num(p.cfl) + " but nothing was written to standard error");
    if (!exceed && len > 0 && ghosts() == before) x.fail( // (removals may be reported too)
        "an error was written although Courant number " + mc::num(want) + " does not exceed " + mc::num(p.cfl));
    x.tag(exceed ? "exceeds" : "within");
    return true;
}
void c13(Ctx& x) {
    Params p;
    p.l0 = 0.5; p.dt = 0.125; p.c = 0; p.colDist = 0; p.lo = {-100, -100, -100}; p.hi = {100, 100, 100};
    p.implicit = x.flag();
    bool d3 = x.flag();
    if (d3) { p.dim = 3; }
    p.reN = p.reG = p.reL = 0.75;
    p.lo = {-10, -10, d3 ? -10.0 : 0.0}; p.hi = {10, 10, d3 ? 10.0 : 0.0};
    p.cfl = x.pick(vector<double>{0.5, 0.3, 1.25});
    // speeds 0, 2 (Courant 0.5, exactly at one limit), 5 (1.25), 1, 13 (3-4-12 in 3D)
    vector<V3> V = {{0, 0, 0}, {2, 0, 0}, {0, -5, 0}, {0.6, 0.8, 0}, {-3, 4, 0}};
    if (d3) V = {{0, 0, 0}, {0, 0, 2}, {3, 4, 12}, {0, -5, 0}, {0.6, 0, -0.8}};
    int n = x.choose(3) + (T() ? 2 : 1);
    x.shard();
    vector<RP> ps;
    for (int i = 0; i < n; i++) ps.push_back({x.choose(4), {1.5 * i, -1.5 * i, 0}, x.pick(V)});
    describe(x, p, ps);
    MPS m = makeMPS(p, ps);
    for (int s = 1; s <= 2; s++) {
        if (s == 2) { // new speeds: the previous maximum must not linger
            int shape = x.choose(3);
            for (auto& q : m.particles) q.velocity = shape == 0 ? Eigen::Vector3d(0, 0, 0) : shape == 1 ? Eigen::Vector3d(0, 1, 0) : Eigen::Vector3d(q.velocity * 1.5);
        }
        if (!courantStep(x, m, p, s)) { x.inconclusive(); return; }
        x.state(stateHash(visible(m.particles)));
    }
    x.outcome(mc::hashDouble(m.courant));
    x.nontrivial();
}
// The same over histories in which every stage changes speeds: collisions, pressure, particles leaving, depth in 2D.
void c13more(Ctx& x) {
    int kind = x.choose(4, "kind");
    auto c = kind == 3 ? block(x, {{2, 44, 36, 1}, {3, 11, 10, 10}}, 3, 2, 2, 1, 2) : kind == 0 ? collapse(x, {{2, 5, 6, 1}}) : kind == 1 ? block(x, shapes()) : coupled(x, 4, 5, {0, 1, 2, 3, 4, 5}, 3, 2);
    bool thick = x.flag("depth");
    if (thick && (c.p.dim == 3 || kind == 3)) x.prune();
    if (kind == 3) { // the fastest particle first, last or in the middle
        int where = x.choose(3, "fastest");
        vector<int> f;
        for (size_t i = 0; i < c.ps.size(); i++) if (c.ps[i].type == ref::Fluid) f.push_back((int) i);
        c.ps[where == 0 ? f.front() : where == 1 ? f[f.size() / 2] : f.back()].v[1] += 37;
    }
    if (thick) {
        c.p.lo[2] = -3 * c.p.l0; c.p.hi[2] = 3 * c.p.l0; c.p.g[2] = 1.5;
        for (size_t i = 0; i < c.ps.size(); i++) if (c.ps[i].type == ref::Fluid) c.ps[i].v[2] = i % 3 ? 0.1 : -4;
    }
    c.p.cfl = x.pick(vector<double>{0.02, 0.2, 0.05});
    c.p.c *= x.pick(vector<double>{0.1, 5, 1e5});
    describe(x, c.p, c.ps);
    MPS m = makeMPS(c.p, c.ps);
    const int steps = (kind == 0 ? 40 : 3) * (T() ? 4 : 1);
    for (int s = 1; s <= steps; s++) {
        if (!courantStep(x, m, c.p, s)) { x.inconclusive(); return; }
        x.state(stateHash(visible(m.particles)));
    }
    x.outcome(mc::hashDouble(m.courant));
    x.nontrivial();
}

// ---------------------------------------------------------------- C14
void c14(Ctx& x) {
    int dom = x.choose(5, "domain"); // 4: a run of many steps
    auto c = dom == 4 ? patient(x) : dom == 3 ? collapse(x, {{2, 5, 6, 1}}) : dom == 2 ? block(x, shapes(), 3, 3, 3, 2, 3) : coupled(x, T() ? 5 : 4, 5, {0, 1, 2, 3, 4, 5}, 3, 2);
    if (!c.any) x.prune();
    if (dom >= 3) {} else if (dom == 2) { c.p.hi[0] -= 6.2 * c.p.l0; for (auto& q : c.ps) if (q.type == ref::Fluid && q.v[0] > 0.9) q.v[0] = 500; } // some leave at once
    else if (dom < 2 && c.rho) c.p.thrN = 0.05; // everybody inner
    if (dom == 1) { // tight box: particles leave during the history
        c.p.lo[0] = -0.02; c.p.lo[1] = -0.1; c.p.hi[0] = 0.9; c.p.hi[1] = 0.95;
    }
    c.p.cfl = c.rho ? 1e-3 : 0.2; // exceeding it is reported and changes nothing
    describe(x, c.p, c.ps);
    // nothing may depend on what memory happened to hold: new memory is filled with different rubbish for the two
    struct Rubbish { ~Rubbish() { mallopt(M_PERTURB, 0); } } rubbish;
    mallopt(M_PERTURB, 0xff ^ 0x7f);
    MPS live = makeMPS(c.p, c.ps);
    int depth = (T() ? 6 : 3) * (dom == 4 ? 700 : dom == 3 ? 25 : 1);
    for (int s = 1; s <= depth; s++) {
        auto v = visible(live.particles);
        vector<RP> fresh = v;
        for (auto& q : fresh) { q.p = q.n = 0; q.bc = 0; }
        mallopt(M_PERTURB, 0xff ^ 0xc1);
        MPS again = makeMPS(c.p, fresh);
        mallopt(M_PERTURB, 0xff ^ 0x7f);
        auto oa = mc::guarded([&] { live.stepForward(); });
        mallopt(M_PERTURB, s % 2 ? 0xff : 0xff ^ 0xc1);
        auto ob = mc::guarded([&] { again.stepForward(); });
        x.transition(2);
        if (oa.str() != ob.str()) x.fail("step " + std::to_string(s) + ": running simulation " + oa.str() + ", fresh simulation from the same state " + ob.str());
        if (!oa.ok()) x.fail("a time step did not finish: " + oa.str());
        string d = differ(visible(live.particles), visible(again.particles), twoRuns(c.p, c.ps));
        if (!d.empty()) x.fail("step " + std::to_string(s) + ": running simulation differs from a fresh one started from its state: " + d + " (expected = fresh)");
        if (!close(live.courant, again.courant, 1e-7)) x.fail("Courant number of the running simulation depends on its past");
        x.state(stateHash(v));
        if (s > 1) x.nontrivial();
    }
    x.outcome(outcomeHash(visible(live.particles)));
}

// ---------------------------------------------------------------- C16
void c16(Ctx& x) {
    int kind = x.choose(3, "kind"); // translation, axis map, renumbering
    int sel;
    if (kind == 0) sel = x.choose(4);
    else if (kind == 1) sel = x.choose(T() ? 47 : 11) + 1;
    else sel = x.choose(T() ? 23 : 5) + 1;
    bool big = x.flag("large");
    auto c = big ? block(x, {{2, 7, 6, 1}, {3, 4, 4, 4}}, 3, 2, 2, 1, 2) : coupled(x, T() ? 4 : 3, T() ? 6 : 5, {0, 1, 2, 3, 4}, 2, 1);
    if (!c.any) x.prune();
    int n = (int) c.ps.size();
    // axis maps: permutation * signs
    static const int perms[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}};
    int pm[3] = {0, 1, 2};
    double sg[3] = {1, 1, 1};
    V3 shift{0, 0, 0};
    vector<int> ren(n);
    for (int i = 0; i < n; i++) ren[i] = i;
    if (kind == 0) shift = vector<V3>{{8, 0, 0}, {0, -16, 0}, {-32, 64, 4}, {0.5, 0.25, -8}}[sel];
    if (kind == 1) {
        int m = T() ? sel : vector<int>{0, 8, 16, 24, 32, 40, 1, 2, 4, 7, 11, 21}[sel]; // perm*8+signs
        for (int a = 0; a < 3; a++) { pm[a] = perms[m / 8][a]; sg[a] = (m >> a) & 1 ? -1 : 1; }
    }
    if (kind == 2) {
        // all permutations of the first k particles (k=3 quick, 4 thorough)
        int k = std::min(n, T() ? 4 : 3);
        int s = sel;
        for (int i = k; i > 1; i--) { std::swap(ren[i - 1], ren[s % i]); s /= i; }
        if (big) for (int i = 0; i < n; i++) ren[i] = sel == 1 ? n - 1 - i : (int) ((i * (long) (sel == 2 ? 2 : sel == 3 ? 5 : 7) + sel) % n); // reversed, dealt out
        if (big) { vector<char> used(n, 0); for (int i : ren) { if (used[i]) x.prune(); used[i] = 1; } }
        bool id = true;
        for (int i = 0; i < n; i++) if (ren[i] != i) id = false;
        if (id) x.prune();
    }
    auto mapV = [&](const V3& a) { V3 r; for (int k = 0; k < 3; k++) r[k] = sg[k] * a[pm[k]]; return r; };
    Params q = c.p;
    q.g = mapV(c.p.g);
    V3 lo = mapV(c.p.lo) + shift, hi = mapV(c.p.hi) + shift;
    for (int k = 0; k < 3; k++) { q.lo[k] = std::min(lo[k], hi[k]); q.hi[k] = std::max(lo[k], hi[k]); }
    vector<RP> qs(n);
    for (int i = 0; i < n; i++) { qs[ren[i]] = c.ps[i]; qs[ren[i]].x = mapV(c.ps[i].x) + shift; qs[ren[i]].v = mapV(c.ps[i].v); }
    if (x.describing) { describe(x, c.p, c.ps); x.out << "image:\n"; describe(x, q, qs); }
    ref::Model r(c.p);
    r.ps = c.ps;
    MPS a = makeMPS(c.p, c.ps), b = makeMPS(q, qs);
    for (int s = 1; s <= 2; s++) {
        r.step();
        realStep(x, a, "(original)");
        realStep(x, b, "(image)");
        if (r.ambiguous || r.multi) { x.inconclusive(); return; }
        auto va = visible(a.particles), vb = visible(b.particles);
        vector<RP> want(n);
        for (int i = 0; i < n; i++) { want[ren[i]] = va[i]; want[ren[i]].x = mapV(va[i].x) + shift; want[ren[i]].v = mapV(va[i].v); }
        string d = differ(vb, want, {1e-7, 1e-5, true, true});
        if (!d.empty()) x.fail("step " + std::to_string(s) + " of the " + (kind == 0 ? "shifted" : kind == 1 ? "mirrored/rotated" : "renumbered") + " simulation: " + d + " (expected = image of the original run)");
        if (!close(a.courant, b.courant, 1e-7)) x.fail("Courant number differs between the run and its image");
        x.state(stateHash(va));
    }
    x.outcome(outcomeHash(visible(b.particles)));
    x.nontrivial();
}

// ---------------------------------------------------------------- C30
// The same flow in other units of length, time and density (powers of two: the conversion is exact).
void c30(Ctx& x) {
    struct U { int l, t, r; };
    static const vector<U> q = {{10, 0, 0}, {-17, 0, 0}, {0, 9, 0}, {0, -21, 0}, {0, 0, 13}, {0, 0, -11}, {20, -20, 3}, {-13, 25, -7}, {-34, -34, 0}},
                           t = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}, {30, 30, 30}, {-30, -30, -30}, {30, -30, 0}, {-30, 30, 0}, {5, 5, 0}, {-5, -5, 0}, {40, 0, 0}, {-40, 0, 0}, {0, 40, 0}, {0, -40, 0}};
    vector<U> all = q;
    if (T()) all.insert(all.end(), t.begin(), t.end());
    U u = x.pick(all, "units");
    int kind = x.choose(4, "kind");
    auto c = kind == 0 ? coupled(x, T() ? 5 : 4, T() ? 5 : 4, {0, 1, 2, 3, 4, 5}, 3, 2) : kind == 1 ? block(x, shapes(), 3, 3, 3, 2, 2) : kind == 2 ? collapse(x, {{2, 5, 6, 1}}) : patient(x);
    if (!c.any) x.prune();
    if (kind == 1) c.p.colDist = 0.8 * c.p.l0;
    c.p.cfl = 0.05; // a report only
    const double L = std::ldexp(1, u.l), TT = std::ldexp(1, u.t), R = std::ldexp(1, u.r), V = L / TT, P = R * V * V;
    Params p = c.p;
    p.l0 *= L; p.dt *= TT; p.nu *= L * V; p.c *= V; p.comp /= P; p.colDist *= L; p.reN *= L; p.reG *= L; p.reL *= L; p.gNorm *= V / TT;
    for (int a = 0; a < 3; a++) { p.g[a] *= V / TT; p.lo[a] *= L; p.hi[a] *= L; }
    auto convert = [&](vector<RP> ps, double l, double v, double rho, double pr) { for (auto& o : ps) { o.x = o.x * l; o.v = o.v * v; o.rho *= rho; o.p *= pr; } return ps; };
    auto qs = convert(c.ps, L, V, R, P);
    if (x.describing) { describe(x, c.p, c.ps); x.out << "in other units:\n"; describe(x, p, qs); }
    MPS a = makeMPS(c.p, c.ps), b = makeMPS(p, qs);
    const int steps = kind == 2 ? 30 : kind == 3 ? 20 : 3;
    for (int s = 1; s <= steps; s++) {
        realStep(x, a, "(original)");
        realStep(x, b, "(in other units)");
        auto va = visible(a.particles), back = convert(visible(b.particles), 1 / L, 1 / V, 1 / R, 1 / P);
        string d = differ(back, va, twoRuns(c.p, c.ps));
        if (!d.empty()) x.fail("step " + std::to_string(s) + ": the run in other units (length 2^" + std::to_string(u.l) + ", time 2^" + std::to_string(u.t) + ", density 2^" + std::to_string(u.r) + ") differs, converted back: " + d);
        if (!close(a.courant, b.courant, 1e-7)) x.fail("Courant number differs between units: " + mc::num(a.courant) + " and " + mc::num(b.courant));
        x.state(stateHash(va));
    }
    x.outcome(outcomeHash(visible(b.particles)));
    x.nontrivial();
}

// ---------------------------------------------------------------- C36
// Bodies of particles farther apart than all radii: each evolves as in a run without the other.
vector<RP> companion(int kind, const Params& p) {
    const double l0 = p.l0;
    const int geo = p.dim == 3 ? 4 : 3; // compressed, without contact
    auto at = [&](int type, V3 pos, V3 v, double rho) { RP q{type, pos * l0, v, rho}; q.fluid = 3; return q; };
    vector<RP> b;
    if (kind == 0 || kind == 6) b = {at(ref::Fluid, {0, 0, 0}, {3.5, -2.25, 0}, 1000)}; // 6: away, three spacings per step
    if (kind == 1) b = {at(ref::Fluid, {0, 0, 0}, {2.5, 0.5, 0}, 500), at(ref::Fluid, {0.34, 0.06, 0}, {-2.0, 0, 0}, 1500)};
    if (kind == 2) for (int i = 0; i < 6; i++) b.push_back(at(ref::Fluid, clusters()[geo][i], velPatterns()[1][i], i % 2 ? 2000 : 400));
    if (kind == 3) for (int i = 0; i < 6; i++) b.push_back(at(i < 2 ? ref::Wall : i < 3 ? ref::Dummy : ref::Fluid, clusters()[geo][i], {0, 0, 0}, 1000));
    if (kind == 4) b = {at(ref::Ghost, {0, 0, 0}, {9, 9, 0}, 1000), at(ref::Ghost, {0.01, 0, 0}, {0, 0, 0}, 0)};
    if (kind == 5 || kind == 7) // many bodies around the middle; 7: with many contacts
        for (int g = 0; g < 9; g++)
            if (g != 4)
                for (int i = 0; i < 6; i++)
                    b.push_back(at(i == 5 ? ref::Wall : ref::Fluid, clusters()[kind == 7 ? 5 : geo][i] + V3{5.0 * (g % 3 - 1), 5.0 * (g / 3 - 1), 0}, velPatterns()[g % 3][i], 800 + 100 * (g % 3)));
    if (p.dim == 2) for (auto& q : b) q.x[2] = q.v[2] = 0;
    return b;
}
// particles that come into contact and reach in one of the steps
Coupled meeting(Ctx& x) {
    Coupled c;
    c.p = methodParams(x.choose(3, "method"));
    double from = x.pick(vector<double>{0.53, 0.61, 0.73, 1.49, 1.87}, "distance"), closing = x.pick(vector<double>{0.07, 0.16}, "closing");
    int with = x.choose(4, "third"), lie = x.choose(2, "direction");
    x.shard();
    c.any = true;
    const double l0 = c.p.l0, v = closing * l0 / c.p.dt / 2;
    auto at = [&](ref::Type t, double a, double b, double va, double vb, double rho) { RP q{t, lie ? V3{b * l0, a * l0, 0} : V3{a * l0, b * l0, 0}, lie ? V3{vb, va, 0} : V3{va, vb, 0}, rho}; c.ps.push_back(q); };
    at(ref::Fluid, 0, 0, v, 0, 1000);
    at(ref::Fluid, from, 0.05, -v, 0.1 * v, 700);
    if (with) at(with == 1 ? ref::Fluid : with == 2 ? ref::Wall : ref::Dummy, 0.3 * from, 0.9, 0, with == 1 ? -0.4 * v : 0, 1000);
    return c;
}
void c36(Ctx& x) {
    int kind = x.choose(3, "kind");
    int with = x.choose(8, "companion"), place = with == 5 || with == 7 ? 0 : x.choose(4, "place"), order = x.choose(3, "order");
    auto c = kind == 2 ? meeting(x) : kind == 0 ? coupled(x, T() ? 5 : 4, T() ? 5 : 4, {0, 1, 2, 3, 4}, T() ? 3 : 2, 2) : block(x, {{2, 5, 4, 1}, {2, 9, 8, 1}, {3, 4, 4, 3}}, 3, 2, T() ? 3 : 2, 2, 3);
    if (!c.any) x.prune();
    if (kind != 0 && (with == 5 || with == 7)) x.prune(); // these companions stand around the middle
    Params& p = c.p;
    if (kind == 0 && with < 3 && x.flag("calm")) { // much slower than the others
        for (auto& q : c.ps) q.v = q.v * 1e-5;
        p.g = p.g * 1e-5;
    }
    const double l0 = p.l0, re = p.reMax();
    V3 lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300}, blo = lo, bhi = hi;
    auto box = [](const vector<RP>& ps, V3& a, V3& b) { for (auto& q : ps) for (int k = 0; k < 3; k++) { a[k] = std::min(a[k], q.x[k]); b[k] = std::max(b[k], q.x[k]); } };
    box(c.ps, lo, hi);
    auto bs = companion(with, p);
    box(bs, blo, bhi);
    V3 by{0, 0, 0};
    const double gap = 1.15 * re;
    if (with != 5 && with != 7) {
        if (place == 0) by[0] = hi[0] - blo[0] + gap;
        if (place == 1) by[p.dim == 3 ? 2 : 0] = lo[p.dim == 3 ? 2 : 0] - bhi[p.dim == 3 ? 2 : 0] - gap;
        if (place == 2) by[1] = hi[1] - blo[1] + gap;
        if (place == 3) by = {lo[0] - bhi[0] - 5 * l0, lo[1] - bhi[1] - 6 * l0, p.dim == 3 ? 3 * l0 : 0};
    }
    for (auto& q : bs) q.x = q.x + by;
    if (with == 6) bs[0].v = by * (3 * l0 / p.dt / std::sqrt(by[0] * by[0] + by[1] * by[1] + by[2] * by[2]));
    for (int k = 0; k < p.dim; k++) { p.lo[k] = -18 * l0; p.hi[k] = 18 * l0; }
    // before, after or between the others; the order within a body stays
    vector<RP> all;
    vector<int> ia, ib;
    for (size_t i = 0, j = 0; i < c.ps.size() || j < bs.size();) {
        bool takeB = order == 0 ? i >= c.ps.size() : order == 1 ? j < bs.size() : j < bs.size() && (j <= i || i >= c.ps.size());
        (takeB ? ib : ia).push_back(all.size());
        all.push_back(takeB ? bs[j++] : c.ps[i++]);
    }
    describe(x, p, all);
    if (x.describing) { x.out << "of which others:"; for (int i : ib) x.out << " " << i; x.out << "\n"; }
    MPS m = makeMPS(p, all), a = makeMPS(p, c.ps), b = makeMPS(p, bs);
    auto apart = [&](const vector<RP>& s) {
        for (int i : ia) for (int j : ib) {
            if (s[i].type == ref::Ghost || s[j].type == ref::Ghost) continue;
            V3 d = s[i].x - s[j].x;
            if (!(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] > 1.02 * 1.02 * re * re)) return false;
        }
        return true;
    };
    const int steps = kind == 2 ? 6 : T() ? 6 : 3;
    for (int s = 1; s <= steps; s++) {
        if (!apart(visible(m.particles))) { x.tag("no longer apart"); x.inconclusive(); return; }
        realStep(x, m, "(together)");
        realStep(x, a, "(one body alone)");
        realStep(x, b, "(the other body alone)");
        auto vm = visible(m.particles);
        if (!apart(vm)) { x.tag("no longer apart"); x.inconclusive(); return; }
        vector<RP> va, vb;
        for (int i : ia) va.push_back(vm[i]);
        for (int i : ib) vb.push_back(vm[i]);
        auto tol = twoRuns(p, all);
        if (!p.implicit) tol.kin = 1e-12;
        string d = differ(va, visible(a.particles), tol);
        if (!d.empty()) x.fail("step " + std::to_string(s) + ": beside others out of reach, body one differs from when it is alone: " + d);
        d = differ(vb, visible(b.particles), tol);
        if (!d.empty()) x.fail("step " + std::to_string(s) + ": beside others out of reach, body two differs from when it is alone: " + d);
        if (!close(m.courant, std::max(a.courant, b.courant), 1e-7)) x.fail("the Courant number " + mc::num(m.courant) + " is not the greater of " + mc::num(a.courant) + " and " + mc::num(b.courant));
        x.state(stateHash(vm));
    }
    x.outcome(outcomeHash(visible(m.particles)));
    x.nontrivial();
}

// ---------------------------------------------------------------- C28
void c28(Ctx& x) {
    int fam = x.choose(5, "family");
    if (fam == 1) { blocks(x, All); return; }
    if (fam == 4) { bigBlocks(x, All); return; }
    if (fam == 2) { history(x, All); return; }
    if (fam == 3) { // a step does not count the steps before it
        auto c = patient(x);
        describe(x, c.p, c.ps);
        MPS m = makeMPS(c.p, c.ps);
        const int steps = T() ? 12000 : 2100;
        int decided = 0;
        for (int s = 1; s <= steps; s++) decided += stepAgainst(x, m, c.p, s, {1e-7, 1e-5, true, true});
        x.state(stateHash(visible(m.particles)));
        x.tag("steps of long runs", steps);
        x.tag("steps of long runs decided", decided);
        if (decided > steps / 2) x.nontrivial();
        x.outcome(outcomeHash(visible(m.particles)));
        return;
    }
    auto c = coupled(x, T() ? 5 : 4, T() ? 6 : 6, {0, 1, 2, 3, 4}, 3, 2);
    if (!c.any) x.prune();
    runAgainstModel(x, c, T() ? 5 : 2, {1e-7, 1e-5, true, true});
}
} // namespace

int main(int argc, char** argv) {
    auto with = [](void (*own)(Ctx&), Stage k) {
        return [own, k](Ctx& x) {
            int fam = x.choose(4, "size");
            if (fam == 0) own(x);
            else if (fam == 1) blocks(x, k);
            else if (fam == 3) bigBlocks(x, k);
            else history(x, k);
        };
    };
    auto density = [](Ctx& x) { if (x.choose(2, "family") == 1) c09more(x); else c09(x); };
    return mc::mainWith(argc, argv, {{"C02", c02}, {"C03", c03}, {"C04", c04}, {"C06", c06}, {"C07", with(c07, Viscosity)}, {"C08", c08}, {"C09", with(density, Density)}, {"C10", with(c10, Implicit)},
                                     {"C11", with(c11, Explicit)}, {"C12", with(c12, Gradient)}, {"C13", [](Ctx& x) { if (x.choose(2, "family") == 1) c13more(x); else c13(x); }}, {"C14", c14}, {"C16", c16}, {"C28", c28}, {"C30", c30}, {"C36", c36}});
}
