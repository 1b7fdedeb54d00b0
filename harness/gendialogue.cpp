// Runs the generators' dialogue on two particles with the formats given on the command line: gendialogue DIR [EXT...]
#include "particle.hpp"
#include "particles.hpp"
#include "particles_exporter.hpp"

#include "generator_src/generator_dialogue.hpp"
int main(int argc, char** argv) {
    Particles ps;
    for (int i = 0; i < 2; i++) ps.add(Particle(i, ParticleType::Fluid, Eigen::Vector3d(i, 0.5, 0), Eigen::Vector3d::Zero(), 1000));
    std::vector<std::string> ext(argv + 2, argv + argc);
    GeneratorDialogue g;
    g.generatorDialogue(std::filesystem::path(argv[1]), ps, ext);
}
