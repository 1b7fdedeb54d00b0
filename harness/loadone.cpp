// Loads one particle file with the loader for its extension and prints what it holds.
#include "particles_loader/csv.hpp"
#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"

#include <cstdio>
int main(int, char** argv) {
    std::filesystem::path p(argv[1]);
    std::pair<double, Particles> r;
    if (p.extension() == ".csv") r = ParticlesLoader::Csv().load(p, 1000);
    else if (p.extension() == ".prof") r = ParticlesLoader::Prof().load(p, 1000);
    else r = ParticlesLoader::Vtu().load(p, 1000);
    std::printf("%.17g %zu\n", r.first, (size_t) r.second.size());
    for (auto& q : r.second)
        std::printf("%d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", (int) q.type, q.fluidType, q.position.x(), q.position.y(), q.position.z(), q.velocity.x(), q.velocity.y(), q.velocity.z(), q.density);
}
