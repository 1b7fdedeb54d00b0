// Follows the outputs of a run with the reference model. Reads from standard input the parameters ("name value ..." lines, closed
// by "end"), then states ("state <particles>", one line per particle: type x y z vx vy vz pressure number-density surface density)
// and for each state after the first prints whether the steps between explain it:
//   ok <courant of each step> | open <why> | bad <difference>
#include "../lib/ref.hpp"
#include <cstdio>
#include <iostream>
#include <map>
using namespace ref;
static bool close(double a, double b, double rel) { return a == b || std::fabs(a - b) <= rel * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
static std::string num(double v) { char b[64]; std::snprintf(b, sizeof b, "%.12g", v); return b; }
static std::string differ(const std::vector<RP>& got, const std::vector<RP>& want, double kin, double pres, double pscale) {
    if (got.size() != want.size()) return "number of particles is " + std::to_string(got.size()) + ", expected " + std::to_string(want.size());
    double pmax = pscale;
    for (auto& q : want) pmax = std::max(pmax, std::fabs(q.p));
    for (size_t i = 0; i < got.size(); i++) {
        auto &a = got[i], &b = want[i];
        std::string who = "particle " + std::to_string(i) + " ";
        if (a.type != b.type) return who + "type is " + typeName(a.type) + ", expected " + typeName(b.type);
        for (int k = 0; k < 3; k++) {
            if (!close(a.x[k], b.x[k], kin)) return who + "coordinate " + std::to_string(k) + " is " + num(a.x[k]) + ", expected " + num(b.x[k]);
            if (!close(a.v[k], b.v[k], kin)) return who + "velocity component " + std::to_string(k) + " is " + num(a.v[k]) + ", expected " + num(b.v[k]);
        }
        if (!(a.p == b.p || std::fabs(a.p - b.p) <= pres * pmax)) return who + "pressure is " + num(a.p) + ", expected " + num(b.p);
        if (!close(a.n, b.n, kin)) return who + "number density is " + num(a.n) + ", expected " + num(b.n);
        if (a.bc != b.bc) return who + "surface state is " + std::to_string(a.bc) + ", expected " + std::to_string(b.bc);
    }
    return "";
}
int main() {
    Params p;
    double rho = 1000;
    int steps = 1;
    std::string k;
    auto v3 = [](V3& v) { std::cin >> v[0] >> v[1] >> v[2]; };
    while (std::cin >> k && k != "end") {
        if (k == "dim") std::cin >> p.dim;
        else if (k == "l0") std::cin >> p.l0;
        else if (k == "dt") std::cin >> p.dt;
        else if (k == "nu") std::cin >> p.nu;
        else if (k == "g") v3(p.g);
        else if (k == "xyz") std::cin >> p.xyz;
        else if (k == "gNorm") std::cin >> p.gNorm;
        else if (k == "gAngle") std::cin >> p.gAngle;
        else if (k == "reN") std::cin >> p.reN;
        else if (k == "reG") std::cin >> p.reG;
        else if (k == "reL") std::cin >> p.reL;
        else if (k == "thrN") std::cin >> p.thrN;
        else if (k == "dist") std::cin >> p.dist;
        else if (k == "thrD") std::cin >> p.thrD;
        else if (k == "implicit") std::cin >> p.implicit;
        else if (k == "comp") std::cin >> p.comp;
        else if (k == "gamma") std::cin >> p.gamma;
        else if (k == "c") std::cin >> p.c;
        else if (k == "colDist") std::cin >> p.colDist;
        else if (k == "rest") std::cin >> p.rest;
        else if (k == "lo") v3(p.lo);
        else if (k == "hi") v3(p.hi);
        else if (k == "rho") std::cin >> rho;
        else if (k == "steps") std::cin >> steps;
        else { std::printf("bad input %s\n", k.c_str()); return 2; }
    }
    const double pscale = std::max(1.0, p.implicit ? 1e-3 * rho * p.l0 * p.l0 / (p.dt * p.dt) : 0.0);
    std::vector<RP> before;
    size_t n;
    bool first = true;
    while (std::cin >> k >> n) {
        std::vector<RP> got(n);
        for (auto& q : got) {
            std::cin >> q.type >> q.x[0] >> q.x[1] >> q.x[2] >> q.v[0] >> q.v[1] >> q.v[2] >> q.p >> q.n >> q.bc >> q.rho;
        }
        if (first) { before = got; first = false; continue; }
        double kin = steps > 1 ? 1e-5 : 1e-7, pres = steps > 1 ? 1e-3 : 1e-5;
        std::string verdict, courant;
        auto follow = [&](const std::vector<int>& order) -> Model {
            Model r(p);
            r.ps = before;
            r.order = order;
            courant.clear();
            for (int s = 0; s < steps && !r.ambiguous; s++) { r.step(); courant += " " + num(r.courant); }
            return r;
        };
        Model r = follow({});
        bool ambiguous = r.ambiguous;
        std::string d = ambiguous ? "" : differ(got, r.ps, kin, pres, pscale);
        if (ambiguous) verdict = "open within rounding of a threshold";
        else if (d.empty()) verdict = "ok" + courant;
        else if (r.multi && steps > 1) verdict = "open several contacts in several steps";
        else if (r.multi) {
            auto all = r.orders(120);
            verdict = all.empty() ? "open too many contacts" : "bad no order of the contacts explains it; by index: " + d;
            for (auto& o : all) {
                Model q = follow(o);
                if (q.ambiguous) { verdict = "open within rounding of a threshold"; break; }
                if (differ(got, q.ps, kin, pres, pscale).empty()) { verdict = "ok" + courant; break; }
            }
        } else verdict = "bad " + d;
        std::printf("%s\n", verdict.c_str());
        before = got;
    }
}
