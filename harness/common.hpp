// Glue between the reference model's types and the real classes (public interface only).
#pragma once
#include "mc.hpp"
#include "ref.hpp"

#include "mps.hpp"
#include "mps_factory.hpp"
#include "pressure_calculator/interface.hpp"
#include "refvalues.hpp"
#include "weight.hpp"

using ref::Params;
using ref::RP;
using ref::V3;
using ref::operator+;
using ref::operator-;
using ref::operator*;
using mc::Ctx;

inline Eigen::Vector3d E3(const V3& a) { return Eigen::Vector3d(a[0], a[1], a[2]); }
inline V3 R3(const Eigen::Vector3d& a) { return {a.x(), a.y(), a.z()}; }

inline Domain makeDomain(const V3& lo, const V3& hi) {
    Domain d{};
    d.xMin = lo[0]; d.xMax = hi[0]; d.yMin = lo[1]; d.yMax = hi[1]; d.zMin = lo[2]; d.zMax = hi[2];
    d.xLength = hi[0] - lo[0]; d.yLength = hi[1] - lo[1]; d.zLength = hi[2] - lo[2];
    return d;
}
inline Settings makeSettings(const Params& p) {
    Settings s;
    s.dim = p.dim; s.particleDistance = p.l0; s.dt = p.dt; s.endTime = 1; s.outputPeriod = 1; s.cflCondition = p.cfl;
    s.numPhysicalCores = 1;
    s.domain = makeDomain(p.lo, p.hi);
    s.kinematicViscosity = p.nu; s.defaultDensity = 1000;
    s.xyzInput = p.xyz; s.gravity = E3(p.g); s.gNorm = p.gNorm; s.gAngle = p.gAngle;
    s.surfaceDetection_numberDensity_threshold = p.thrN;
    s.surfaceDetection_particleDistribution = p.dist;
    s.surfaceDetection_particleDistribution_threshold = p.thrD;
    s.pressureCalculationMethod = p.implicit ? "Implicit" : "Explicit";
    s.compressibility = p.comp; s.relaxationCoefficientForPressure = p.gamma; s.soundSpeed = p.c;
    s.collisionDistance = p.colDist; s.coefficientOfRestitution = p.rest;
    s.re_forNumberDensity = p.reN; s.re_forGradient = p.reG; s.re_forLaplacian = p.reL; s.reMax = p.reMax();
    return s;
}
inline Particles makeParticles(const std::vector<RP>& ps) {
    Particles r;
    for (auto& q : ps) r.add(Particle(r.size(), static_cast<ParticleType>(q.type), E3(q.x), E3(q.v), q.rho, q.fluid));
    return r;
}
inline Input makeInput(const Params& p, const std::vector<RP>& ps) {
    Input in;
    in.settings = makeSettings(p);
    in.particles = makeParticles(ps);
    in.startTime = 0;
    return in;
}
inline MPS makeMPS(const Params& p, const std::vector<RP>& ps) {
    Input in = makeInput(p, ps);
    return MPSFactory::create(in);
}
inline RP visible(const Particle& q) {
    RP r{(int) q.type, R3(q.position), R3(q.velocity), q.density, q.fluidType};
    r.p = q.pressure; r.n = q.numberDensity; r.bc = (int) q.boundaryCondition;
    return r;
}
inline std::vector<RP> visible(const Particles& ps) {
    std::vector<RP> r;
    for (auto& q : ps) r.push_back(visible(q));
    return r;
}
inline uint64_t stateHash(const std::vector<RP>& ps) {
    uint64_t h = ps.size();
    for (auto& q : ps) {
        h = mc::mix(h, (uint64_t) q.type);
        for (int a = 0; a < 3; a++) { h = mc::mix(h, mc::hashDouble(q.x[a])); h = mc::mix(h, mc::hashDouble(q.v[a])); }
        h = mc::mix(h, mc::hashDouble(q.rho));
    }
    return h;
}
inline uint64_t outcomeHash(const std::vector<RP>& ps) {
    uint64_t h = stateHash(ps);
    for (auto& q : ps) { h = mc::mix(h, mc::hashDouble(q.p)); h = mc::mix(h, mc::hashDouble(q.n)); h = mc::mix(h, (uint64_t) q.bc); }
    return h;
}
inline std::string str(const V3& a) { return "(" + mc::num(a[0]) + ", " + mc::num(a[1]) + ", " + mc::num(a[2]) + ")"; }
inline std::string str(const RP& q) {
    return std::string(ref::typeName(q.type)) + " x=" + str(q.x) + " v=" + str(q.v) + " rho=" + mc::num(q.rho) + " p=" + mc::num(q.p) +
           " n=" + mc::num(q.n) + " bc=" + std::to_string(q.bc);
}
inline void describe(Ctx& x, const Params& p, const std::vector<RP>& ps) {
    if (!x.describing) return;
    x.out << "dim=" << p.dim << " l0=" << p.l0 << " dt=" << p.dt << " nu=" << p.nu << " g=" << str(p.g) << (p.xyz ? "" : " norm/angle ")
          << p.gNorm << "/" << p.gAngle << " re N/G/L=" << p.reN << "/" << p.reG << "/" << p.reL << " thrN=" << p.thrN << " dist=" << p.dist
          << " thrD=" << p.thrD << (p.implicit ? " Implicit" : " Explicit") << " comp=" << p.comp << " gamma=" << p.gamma << " c=" << p.c
          << " colDist=" << p.colDist << " rest=" << p.rest << " cfl=" << p.cfl << " domain " << str(p.lo) << ".." << str(p.hi) << "\n";
    for (size_t i = 0; i < ps.size(); i++) x.out << "  [" << i << "] " << str(ps[i]) << "\n";
}
inline bool close(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
struct Cmp { double kin = 1e-8, pres = 1e-6; bool bc = true, types = true; double pscale = 1; };
// two runs of the real code: a solver may leave rounding errors relative to the pressures the sources of the system suggest
inline Cmp twoRuns(const Params& p, const std::vector<RP>& ps) {
    double rho = 0;
    for (auto& q : ps) if (std::isfinite(q.rho)) rho = std::max(rho, q.rho);
    return {p.implicit ? 1e-7 : 1e-9, 1e-7, true, true, std::max(1.0, p.implicit ? 1e-3 * rho * p.l0 * p.l0 / (p.dt * p.dt) : 0.0)};
}
// empty string when equal
inline std::string differ(const std::vector<RP>& got, const std::vector<RP>& want, const Cmp& c = {}) {
    if (got.size() != want.size()) return "particle count " + std::to_string(got.size()) + " != " + std::to_string(want.size());
    double pmax = c.pscale;
    for (auto& q : want) if (std::isfinite(q.p)) pmax = std::max(pmax, std::fabs(q.p));
    for (size_t i = 0; i < got.size(); i++) {
        auto &a = got[i], &b = want[i];
        std::string who = "particle " + std::to_string(i) + " ";
        if (c.types && a.type != b.type) return who + "type is " + ref::typeName(a.type) + ", expected " + ref::typeName(b.type);
        for (int k = 0; k < 3; k++) {
            if (!close(a.x[k], b.x[k], c.kin)) return who + "position is " + str(a.x) + ", expected " + str(b.x);
            if (!close(a.v[k], b.v[k], c.kin)) return who + "velocity is " + str(a.v) + ", expected " + str(b.v);
        }
        if (!(a.p == b.p || std::fabs(a.p - b.p) <= c.pres * pmax)) return who + "pressure is " + mc::num(a.p) + ", expected " + mc::num(b.p);
        if (!close(a.n, b.n, c.kin)) return who + "number density is " + mc::num(a.n) + ", expected " + mc::num(b.n);
        if (c.bc && a.bc != b.bc) return who + "surface state is " + std::to_string(a.bc) + ", expected " + std::to_string(b.bc);
    }
    return "";
}
