// Small configurations in which every stage of a step is active.
#pragma once
#include "common.hpp"

// Cluster geometries (units of l0), irregular so that nothing coincides with a threshold.
inline const std::vector<std::vector<V3>>& clusters() {
    static const std::vector<std::vector<V3>> c = {
        // 2D, moderately dense: neighbours inside all radii, no contact
        {{0, 0, 0}, {0.93, 0.07, 0}, {-0.04, 0.88, 0}, {0.97, 0.91, 0}, {1.71, 0.35, 0}, {0.41, 1.67, 0}},
        // 2D with two pairs in contact (collision distance 0.5)
        {{0, 0, 0}, {0.31, 0.12, 0}, {1.02, 0.95, 0}, {1.17, 1.29, 0}, {0.05, 1.13, 0}, {1.21, 0.11, 0}},
        // 3D
        {{0, 0, 0}, {0.87, 0.11, 0.13}, {0.07, 0.91, -0.09}, {0.12, -0.08, 0.93}, {0.83, 0.77, 0.71}, {0.39, 0.21, -0.22}},
        // 2D, compressed without contact: pressures are positive
        {{0, 0, 0}, {0.63, 0.05, 0}, {-0.07, 0.66, 0}, {0.58, 0.71, 0}, {-0.61, -0.04, 0}, {1.24, 0.41, 0}},
        // 3D, compressed without contact
        {{0, 0, 0}, {0.62, 0.04, 0.1}, {0.03, 0.64, -0.08}, {-0.05, 0.09, 0.63}, {-0.59, 0.12, -0.17}, {0.61, 0.65, 0.07}},
        // 2D, every particle in contact with several others
        {{0, 0, 0}, {0.31, 0.12, 0}, {0.11, 0.35, 0}, {-0.24, 0.19, 0}, {0.37, 0.44, 0}, {-0.1, -0.33, 0}},
    };
    return c;
}
inline const std::vector<std::vector<V3>>& velPatterns() {
    static const std::vector<std::vector<V3>> v = {
        {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}},
        {{0.7, 0, 0}, {-0.9, 0.2, 0}, {0.1, -1.1, 0}, {0.3, -0.6, 0}, {-0.5, 0.4, 0}, {0.8, -0.7, 0}},
        {{-0.6, -0.3, 0}, {1.3, 0.5, 0}, {0.2, 0.9, 0}, {0.4, 1.2, 0}, {0.6, -0.1, 0}, {-1.4, 0.3, 0}},
    };
    return v;
}
inline Params methodParams(int k) {
    Params p;
    p.reN = 1.55 * p.l0; p.reG = 1.35 * p.l0; p.reL = 1.75 * p.l0;
    p.nu = 0.05; p.g = {0.4, -2.3, 0}; p.colDist = 0.5 * p.l0; p.rest = 0.2;
    p.c = 1.7; p.comp = 2e-3; p.gamma = 0.2; p.dt = 0.02;
    p.thrN = 0.35;
    if (k == 0) { p.implicit = true; }
    if (k == 1) { p.implicit = true; p.dist = true; p.thrD = 0.9; p.thrN = 0.75; }
    if (k == 2) { p.implicit = false; }
    return p;
}
inline void make3D(Params& p) { p.dim = 3; p.lo = {-4, -4, -4}; p.hi = {4, 4, 4}; p.g[2] = 0.9; p.thrN *= 0.4; }

struct Coupled { Params p; std::vector<RP> ps; bool any = false; int vel = 0, rho = 0; };
// all stages active; every site none/Fluid/Wall/Dummy(/Ghost)
inline Coupled coupled(Ctx& x, int nTypes, int sites, const std::vector<int>& geos = {0, 1, 2, 3, 4}, int nVel = 3, int nRho = 2) {
    Coupled c;
    int geo = x.pick(geos, "geometry"), method = x.choose(3, "method"), vel = x.choose(nVel, "velocities"), rho = x.choose(nRho, "density");
    c.vel = vel;
    c.rho = rho;
    c.p = methodParams(method);
    if (geo == 2 || geo == 4) make3D(c.p);
    x.shard();
    for (int i = 0; i < sites; i++) {
        int t = x.choose(nTypes, "type"); // 0 fluid 1 none 2 wall 3 dummy 4 ghost
        if (t == 1) continue;
        RP q{t == 0 ? ref::Fluid : t == 2 ? ref::Wall : t == 3 ? ref::Dummy : ref::Ghost, clusters()[geo][i] * c.p.l0, velPatterns()[vel][i], 1000};
        if (geo == 2 || geo == 4) q.v[2] = q.v[0] * 0.5 - q.v[1] * 0.25;
        if (q.type == ref::Wall || q.type == ref::Dummy) q.v = q.v * 0.25; // moving-lid velocity: must not move the wall
        if (rho == 1) q.rho = i % 2 ? 700 : 1300;
        q.fluid = std::vector<int>{0, 1, -2, 7, 40, 1000000}[i % 6];
        if (q.type == ref::Fluid) c.any = true;
        c.ps.push_back(q);
    }
    return c;
}


// Larger systems, where what small ones cannot show appears: many cells, solver iterations, inner
// particles with full neighbourhoods, several layers of wall.
struct BlockShape { int dim, nx, ny, nz; };
inline Coupled block(Ctx& x, const std::vector<BlockShape>& shapes, int nMethod = 3, int nJit = 3, int nVel = 3, int nRho = 2, int nWall = 3) {
    Coupled c;
    const BlockShape& b = x.pick(shapes, "shape");
    int method = x.choose(nMethod, "method"), jit = x.choose(nJit, "jitter"), vel = x.choose(nVel, "velocities"), rho = x.choose(nRho, "density"), wall = x.choose(nWall, "wall");
    double squeeze = x.pick(std::vector<double>{0.92, 1.0}, "spacing");
    c.p = methodParams(method);
    c.p.thrN = 0.97;
    c.p.reN = 2.1 * c.p.l0; c.p.reG = 2.1 * c.p.l0; c.p.reL = (jit == 1 ? 2.9 : 2.3) * c.p.l0;
    c.p.dt = 0.004; c.p.c = 12; c.p.comp = 1e-4;
    c.p.dist = method == 1; c.p.thrD = 0.85;
    if (method == 1) c.p.thrN = 0.9;
    c.vel = vel; c.rho = rho;
    double l0 = c.p.l0;
    bool d3 = b.dim == 3;
    c.p.dim = b.dim;
    c.p.lo = {-6 * l0, -6 * l0, d3 ? -6 * l0 : 0.0};
    c.p.hi = {(b.nx + 9) * l0, (b.ny + 9) * l0, d3 ? (b.nz + 9) * l0 : 0.0};
    if (d3) c.p.g[2] = 0.9;
    x.shard();
    const int layers = wall == 0 ? 0 : d3 ? 1 : 4;
    for (int i = -layers; i < b.nx + layers; i++)
        for (int j = -layers; j < b.ny; j++)
            for (int k = 0; k < (d3 ? b.nz : 1); k++) {
                bool fluid = i >= 0 && i < b.nx && j >= 0;
                int depth = std::max(std::max(-i, i - b.nx + 1), -j); // layer of a wall site, from 1
                if (!fluid && wall == 2 && j > b.ny / 2) continue;   // low sides
                double h = std::sin(12.9898 * i + 78.233 * j + 37.719 * k + 1.3) * 43758.5453;
                h -= std::floor(h);
                double h2 = h * 977.13 - std::floor(h * 977.13), h3 = h2 * 977.13 - std::floor(h2 * 977.13);
                double a = !fluid ? 0 : jit == 0 ? 0.001 : jit == 1 ? 0.05 : 0.12;
                V3 pos{(i * squeeze + a * (2 * h - 1)) * l0, (j * squeeze + a * (2 * h2 - 1)) * l0, d3 ? (k * squeeze + a * (2 * h3 - 1)) * l0 : 0.0};
                RP q{fluid ? ref::Fluid : depth <= (d3 ? 1 : 2) ? ref::Wall : ref::Dummy, pos, {0, 0, 0}, 1000};
                if (fluid) {
                    if (vel == 1) q.v = {0.4 * (j + 1), -0.1 * i, d3 ? 0.2 * k : 0.0};
                    if (vel == 2) q.v = {2 * h2 - 1, 2 * h - 1, d3 ? 2 * h3 - 1 : 0.0};
                    if (rho == 1) q.rho = (i + j) % 3 == 0 ? 700 : 1000;
                    q.fluid = (7 * i + 3 * j + k) % 9 - 2;
                    c.any = true;
                }
                c.ps.push_back(q);
            }
    return c;
}

// A column without its right wall: over many steps it collapses, collides, spills over the edge and leaves.
inline Coupled collapse(Ctx& x, const std::vector<BlockShape>& shapes, int nJit = 3, int nRho = 2, int nMethod = 3) {
    Coupled c = block(x, shapes, nMethod, nJit, 1, nRho, 2);
    const double right = shapes[0].nx * c.p.l0;
    std::vector<RP> keep;
    for (auto& q : c.ps) if (q.type == ref::Fluid || q.x[0] < right) keep.push_back(q);
    c.ps = keep;
    c.p.dt = 0.02; c.p.nu = 0.01; c.p.rest = 0.2; c.p.c = 12; c.p.g = {2.5, -9.8, 0};
    c.p.hi[0] = right + 5 * c.p.l0;
    if (x.flag("narrow")) c.p.lo[1] = -2.5 * c.p.l0; // cuts off the lowest wall layers at once
    return c;
}

// A few particles that hardly move, for runs of thousands of steps.
inline Coupled patient(Ctx& x) {
    Coupled c;
    int geo = x.pick(std::vector<int>{0, 2, 3}, "geometry"), method = x.choose(3, "method"), vel = x.choose(2, "velocities");
    c.p = methodParams(method);
    if (geo == 2) make3D(c.p);
    x.shard();
    c.p.dt = 2e-4; c.p.g = c.p.g * 0.1; c.p.colDist = x.pick(std::vector<double>{0.3, 0.75}, "collision distance") * c.p.l0;
    static const ref::Type types[6] = {ref::Fluid, ref::Fluid, ref::Wall, ref::Fluid, ref::Dummy, ref::Fluid};
    for (int i = 0; i < 6; i++) {
        RP q{types[i], clusters()[geo][i] * c.p.l0, {0, 0, 0}, i % 3 ? 1000.0 : 800.0};
        if (q.type == ref::Fluid) q.v = velPatterns()[vel][i] * 0.1;
        q.fluid = i;
        c.ps.push_back(q);
    }
    c.any = true;
    return c;
}
