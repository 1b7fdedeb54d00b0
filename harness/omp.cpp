// C15: whole steps of the OpenMP build under a controlled runtime. Team threads are fibers; every access
// to shared memory in a parallel region is checked for an unordered conflicting access, so one schedule
// covers every interleaving of regions without synchronisation; where there is some (locks, atomics,
// dynamic schedules) the order of the threads at these points is enumerated.
#include "coupled.hpp"
#include "ompmc.h"

#include <new>

void* operator new(size_t n) { void* p = ompmc_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return ompmc_malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return ompmc_malloc(n); }
void operator delete(void* p) noexcept { ompmc_free(p); }
void operator delete[](void* p) noexcept { ompmc_free(p); }
void operator delete(void* p, size_t) noexcept { ompmc_free(p); }
void operator delete[](void* p, size_t) noexcept { ompmc_free(p); }

namespace {
Ctx* cx;
int chooser(int n) { return cx->choose(n, "schedule"); }

void step(Ctx& x, MPS& m, int team) {
    ompmc_team = team;
    ompmc_choose = team > 1 ? chooser : nullptr;
    auto o = mc::guarded([&] { m.stepForward(); });
    ompmc_team = 1;
    x.transition();
    if (const char* r = ompmc_race()) x.fail(r);
    if (const char* r = ompmc_trouble()) x.fail(r);
    if (!o.ok()) x.fail("a time step with " + std::to_string(team) + " threads did not finish: " + o.str());
}

void c15(Ctx& x) {
    cx = &x;
    const bool T = mc::opt.thorough();
    ompmc_reset();
    const std::vector<int> teams = T ? std::vector<int>{2, 3, 4, 5, 6, 7, 8} : std::vector<int>{2, 3, 8};
    int team = x.pick(teams, "threads");
    const int kind = x.choose(T ? 5 : 4, "kind"); // few particles, one outside at the second step, many, so many that the linear solver works in parallel, one outside at once
    const bool huge = kind == 3, large = kind == 2 || huge;
    const int leaving = large ? 1 : kind;
    auto c = huge ? block(x, {{2, 40, 40, 1}}, 1, 1, 1, 1, 1) : large ? block(x, T ? std::vector<BlockShape>{{2, 9, 8, 1}, {3, 4, 4, 4}, {2, 16, 12, 1}, {2, 30, 30, 1}} : std::vector<BlockShape>{{2, 9, 8, 1}, {3, 4, 4, 4}, {2, 12, 14, 1}}, 3, T ? 3 : 1, T ? 3 : 1, T ? 2 : 1, T ? 3 : 2) : coupled(x, T ? 5 : 4, T ? 5 : 4, T ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 1, 2, 3, 5}, T ? 3 : 2, 2);
    // schedules are enumerated where every site is taken and everything moves; elsewhere one schedule, which decides races for all
    bool enumerate = !large && leaving == 1 && c.vel == 1 && c.rho == 1 && (int) c.ps.size() == (T ? 5 : 4);
    ompmc_cells = huge ? 1u << 22 : large ? 1u << 21 : 1u << 17;
    ompmc_bound = !enumerate ? 0 : (team == 2 ? 2 : 1) + T;
    if (large) {
        c.p.colDist = 0.95 * c.p.l0; // many in contact
        // one in the middle of the order that is outside at the second step
        RP q{ref::Fluid, {c.p.hi[0] - 0.5 * c.p.l0, c.p.hi[1] - 0.5 * c.p.l0, 0}, {2 * c.p.l0 / c.p.dt, 0, 0}, 1000};
        c.ps.insert(c.ps.begin() + (long) c.ps.size() / 2, q);
        x.tag("systems of 60 to 1600 particles");
    } else if (leaving) c.ps.push_back({ref::Fluid, {leaving == 4 ? 4.5 : 3.9, 1.1, 0}, {40, 0, 0}, 1000});
    if (c.ps.size() < 2) x.prune();
    if (enumerate) x.tag("configurations with every schedule enumerated");
    if (x.describing) x.out << "threads=" << team << "\n";
    describe(x, c.p, c.ps);
    auto make = [&](int cores) {
        Input in = makeInput(c.p, c.ps);
        in.settings.numPhysicalCores = cores;
        return MPSFactory::create(in);
    };
    MPS serial = make(1), par = make(team);
    for (int s = 1; s <= 2; s++) {
        step(x, serial, 1);
        step(x, par, team);
        auto a = visible(serial.particles), b = visible(par.particles);
        std::string d = differ(b, a, {large ? 1e-8 : 1e-10, large ? 1e-6 : 1e-8, true, true});
        if (!d.empty()) x.fail("after step " + std::to_string(s) + " with " + std::to_string(team) + " threads " + d + " (expected = one thread)");
        if (!close(serial.courant, par.courant, 1e-10)) x.fail("the Courant number depends on the number of threads");
        for (size_t i = 0; i < b.size(); i++)
            if (par.particles[i].neighbors.size() != serial.particles[i].neighbors.size()) x.fail("particle " + std::to_string(i) + " has other neighbours with " + std::to_string(team) + " threads");
        x.state(stateHash(b));
        if (s == 1) x.tag("parallel regions in first steps", ompmc_parallel);
    }
    x.tag("memory accesses checked for races", ompmc_accesses);
    x.tag("synchronisation points", ompmc_syncs);
    x.outcome(outcomeHash(visible(par.particles)));
    if (ompmc_parallel > 0) x.nontrivial();
}
} // namespace

int main(int argc, char** argv) { return mc::mainWith(argc, argv, {{"C15", c15}}); }
