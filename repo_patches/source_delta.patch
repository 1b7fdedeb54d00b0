From 275afc03d6d760d00f6edd48066c5a413d3fea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 01/17] fix: VTU loader took the number density arrays for the
 density array

"Number Density" and "Number Density Ratio", which every exported VTU file has,
contain the word "Density", so restarting from an exported file gave the particles
their number density as density.
---
 src/particles_loader/vtu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d66ab11..3de6c76 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -100,7 +100,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
 
         // Extract densities
-        if (line.find("Density") != std::string::npos) {
+        if (line.find("Name=\"Density\"") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0


From 8e6d2340a8a6d0cef9a4ea4d35e506c2151a23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 02/17] fix: a particle whose position is not a number passed
 the domain test

Its cell index was then outside the bucket arrays (undefined behaviour, usually a crash).
---
 src/bucket.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d616aa3..10324e6 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -38,11 +38,11 @@ void Bucket::storeParticles(Particles& particles) {
             continue;
 
         bool isInDomain = true;
-        if (p.position.x() < domain.xMin || domain.xMax < p.position.x())
+        if (!(domain.xMin <= p.position.x() && p.position.x() <= domain.xMax))
             isInDomain = false;
-        if (p.position.y() < domain.yMin || domain.yMax < p.position.y())
+        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))
             isInDomain = false;
-        if (p.position.z() < domain.zMin || domain.zMax < p.position.z())
+        if (!(domain.zMin <= p.position.z() && p.position.z() <= domain.zMax))
             isInDomain = false;
         if (!isInDomain) {
             cerr << "WARNING: particle " << p.id << " is out of domain." << endl;
-- 
2.43.0


From b7c229078660281fe2f468a530c87e7e1d003495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 03/17] fix: generator dialogue looped forever at the end of
 its input

---
 generator/generator_src/generator_dialogue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/generator_src/generator_dialogue.cpp b/generator/generator_src/generator_dialogue.cpp
index 9752dbe..03e6bc8 100644
--- a/generator/generator_src/generator_dialogue.cpp
+++ b/generator/generator_src/generator_dialogue.cpp
@@ -37,7 +37,10 @@ void GeneratorDialogue::generatorDialogue(
             std::string response;
             while (true) {
                 std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
-                std::cin >> response;
+                if (!(std::cin >> response)) {
+                    std::cout << std::endl << "The request has been cancelled." << std::endl;
+                    std::exit(0);
+                }
                 if (response == "n" || response == "N") {
                     std::cout << "The request has been cancelled." << std::endl;
                     std::exit(0);
-- 
2.43.0


From ce4f73a8ce371e088a907bdcb7b06a6e10764267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 04/17] fix: prof loader invented particles for a file that
 ends early

The stream was never checked, so missing values were read as zero or left uninitialised.
---
 src/particles_loader/prof.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index 74cfc74..e41a180 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -23,6 +23,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     int particleSize = 0;
     ifs >> startTime;
     ifs >> particleSize;
+    if (ifs.fail() || particleSize < 0) {
+        cerr << "invalid header in prof file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (int i = 0; i < particleSize; i++) {
         int type_int = 0;
         ParticleType type;
@@ -31,6 +35,11 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
         ifs >> type_int;
         ifs >> pos.x() >> pos.y() >> pos.z();
         ifs >> vel.x() >> vel.y() >> vel.z();
+        if (ifs.fail()) {
+            cerr << "prof file ends early or is invalid at particle " << i << " of " << particleSize << ": "
+                 << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
 
         type = static_cast<ParticleType>(type_int);
         particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));
-- 
2.43.0


From 206e7dd7154033a50f255f0d4222489177dff5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 05/17] fix: csv loader accepted files with missing columns or
 missing particles

The values of a missing required column were uninitialised variables, and the
declared number of particles was never compared with the rows.
---
 src/particles_loader/csv.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index d0bcb40..e40898d 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -21,6 +21,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
     double numParticles = std::stod(in.next_line());
 
     in.read_header(io::ignore_missing_column, "type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density");
+    for (const auto& column : {"type", "x", "y", "z", "vx", "vy", "vz"}) {
+        if (!in.has_column(column)) {
+            cerr << "csv file has no column " << column << ": " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
+    }
     int type;
     int fluidType = 0;
     double x, y, z, vx, vy, vz;
@@ -35,6 +41,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
         particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));
     }
 
+    if (particles.size() != numParticles) {
+        cerr << "csv file declares " << numParticles << " particles but has " << particles.size() << ": "
+             << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
     return std::make_pair(startTime, particles);
 }
 
-- 
2.43.0


From b4406511f9d9963c95d2235d755c4160ce32efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 06/17] fix: VTU loader accepted files that end early

Particles beyond the end of an array silently got default values, and positions
beyond the end of the file silently vanished.
---
 src/particles_loader/vtu.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index 3de6c76..d3e935f 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -42,9 +42,21 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
     std::vector<int> types;
     std::vector<int> fluidTypes;
     std::vector<double> densities;
+    size_t declaredSize = 0;
+    bool isComplete     = false;
 
     // Parse VTU file
     while (std::getline(ifs, line)) {
+        // Extract the declared number of particles
+        const std::string numberOfPoints = "NumberOfPoints=\"";
+        if (auto found = line.find(numberOfPoints); found != std::string::npos) {
+            declaredSize = std::stoul(line.substr(found + numberOfPoints.size()));
+        }
+
+        if (line.find("</VTKFile>") != std::string::npos) {
+            isComplete = true;
+        }
+
         // Extract start time
         if (line.find("Time") != std::string::npos) {
             std::getline(ifs, line);
@@ -113,7 +125,14 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
     }
 
     // Construct particles
-    size_t numParticles = positions.size();
+    size_t numParticles    = positions.size();
+    auto isConsistentArray = [&](size_t size) { return size == 0 || size == numParticles; };
+    if (!isComplete || numParticles != declaredSize || !isConsistentArray(velocities.size()) ||
+        !isConsistentArray(types.size()) || !isConsistentArray(fluidTypes.size()) ||
+        !isConsistentArray(densities.size())) {
+        cerr << "vtu file ends early or is inconsistent: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (size_t i = 0; i < numParticles; ++i) {
         Eigen::Vector3d pos = positions[i];
         Eigen::Vector3d vel = (i < velocities.size()) ? velocities[i] : Eigen::Vector3d(0, 0, 0);
-- 
2.43.0


From 4d198de1ded5a7b7b30f178a1ad6b3966b237bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 07/17] fix: exporter ignored failed writes

On a full disk, for example, output files were cut off and the run still reported success.
---
 src/particles_exporter.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/particles_exporter.cpp b/src/particles_exporter.cpp
index fb0e6c9..2ce65bf 100644
--- a/src/particles_exporter.cpp
+++ b/src/particles_exporter.cpp
@@ -10,6 +10,16 @@ using std::cerr;
 using std::endl;
 namespace fs = std::filesystem;
 
+namespace {
+void closeOrExit(std::ofstream& ofs, const fs::path& path) {
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
+}
+} // namespace
+
 bool ParticlesExporter::isBigEndian() const {
     uint32_t i         = 1; // 0x00000001
     uint8_t first_byte = *reinterpret_cast<uint8_t*>(&i);
@@ -64,6 +74,7 @@ void ParticlesExporter::toProf(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << " " << p.velocity.y() << " " << p.velocity.z();
         ofs << endl;
     }
+    closeOrExit(ofs, path);
 }
 void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
     std::ofstream ofs(path);
@@ -177,6 +188,7 @@ void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, con
     ofs << "</FieldData>" << endl;
     ofs << "</UnstructuredGrid>" << endl;
     ofs << "</VTKFile>" << endl;
+    closeOrExit(ofs, path);
 }
 
 void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
@@ -341,6 +353,7 @@ void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, co
     ofs << "_" << binaryData.str() << endl;
     ofs << "</AppendedData>" << endl;
     ofs << "</VTKFile>" << endl;
+    closeOrExit(ofs, path);
 }
 
 void ParticlesExporter::toVtu(
@@ -370,4 +383,5 @@ void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
         ofs << endl;
     }
+    closeOrExit(ofs, path);
 }
-- 
2.43.0


From 153930c01ac3e7f5c107a86c03adc496f0a8b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 08/17] fix: prof_to_csv.sh dropped the last particle of a file
 without a final newline

---
 scripts/prof_to_csv.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/prof_to_csv.sh b/scripts/prof_to_csv.sh
index 173919e..857e20a 100755
--- a/scripts/prof_to_csv.sh
+++ b/scripts/prof_to_csv.sh
@@ -16,7 +16,7 @@ head -n2 "$input_file" > "$output_file"
 echo "type,x,y,z,vx,vy,vz" >> "$output_file"
 
 # Convert the rest of the input file to csv format (start from the third line)
-tail -n +3 "$input_file" | while IFS=" " read -r type x y z vx vy vz; do
+tail -n +3 "$input_file" | while IFS=" " read -r type x y z vx vy vz || [ -n "$type" ]; do
     # Skip the line if the type is empty or not a number
     if [[ -z "$type" || ! "$type" =~ ^[0-9]+$ ]]; then
         continue
-- 
2.43.0


From 67f22ce3816bead46b13d52bd5f371d4a1868947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 09/17] fix: reference values ignored lattice sites beyond the
 fourth

n0 and lambda were too small for effective radii of more than five particle distances.
---
 src/refvalues.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/refvalues.cpp b/src/refvalues.cpp
index 281bb71..2a3e370 100644
--- a/src/refvalues.cpp
+++ b/src/refvalues.cpp
@@ -9,8 +9,9 @@
 RefValues::RefValues(int dim, double particleDistance, double re) {
     assert(dim == 2 || dim == 3);
     assert(particleDistance < re);
-    int iZ_start = -4;
-    int iZ_end   = 5;
+    int range    = (int) std::ceil(re / particleDistance);
+    int iZ_start = -range;
+    int iZ_end   = range + 1;
     if (dim == 2) {
         iZ_start = 0;
         iZ_end   = 1;
@@ -18,8 +19,8 @@ RefValues::RefValues(int dim, double particleDistance, double re) {
 
     this->n0     = 0.0;
     this->lambda = 0.0;
-    for (int iX = -4; iX < 5; iX++) {
-        for (int iY = -4; iY < 5; iY++) {
+    for (int iX = -range; iX <= range; iX++) {
+        for (int iY = -range; iY <= range; iY++) {
             for (int iZ = iZ_start; iZ < iZ_end; iZ++) {
                 if (((iX == 0) && (iY == 0)) && (iZ == 0))
                     continue;
-- 
2.43.0


From fb6f118313e20a84ef4736c7c489b52b211927d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 10/17] fix: runner scripts went on in the wrong directory

With a blank in the project path, or when called through a symbolic link, the cd
failed or led elsewhere, and runner.sh then removed result/dambreak/* there.
---
 scripts/runner.sh      | 3 ++-
 scripts/safe_runner.sh | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/runner.sh b/scripts/runner.sh
index f96bc4f..0c2633f 100755
--- a/scripts/runner.sh
+++ b/scripts/runner.sh
@@ -10,7 +10,8 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+scriptPath=$(readlink -f "$0") || exit 1
+cd "$(dirname "$scriptPath")/.." || exit 1
 
 # create output directory if not exist
 mkdir -p ${outputDir}
diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index a69a5f3..dc6b816 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -22,7 +22,8 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+scriptPath=$(readlink -f "$0") || exit 1
+cd "$(dirname "$scriptPath")/.." || exit 1
 
 # create output directory if not exist
 mkdir -p ${outputDir}
-- 
2.43.0


From 62c6121b342d6f76fe4a2ca671de48ec08b94b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 11/17] fix: csv loader read an empty field as zero

---
 src/particles_loader/csv.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index e40898d..430356b 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -6,12 +6,26 @@
 #include <csv.h>
 #include <fstream>
 #include <iostream>
+#include <sstream>
 #include <string>
 
 using ParticlesLoader::Csv;
 using std::cerr;
 using std::endl;
 
+namespace {
+// The csv library would take an empty field for zero.
+template <class T> T parseField(const std::string& field) {
+    std::istringstream stream(field);
+    T value;
+    if (!(stream >> value) || !(stream >> std::ws).eof()) {
+        cerr << "csv file has an invalid field: \"" << field << "\"" << endl;
+        std::exit(-1);
+    }
+    return value;
+}
+} // namespace
+
 Csv::Csv() {
 }
 
@@ -27,14 +41,16 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
             std::exit(-1);
         }
     }
-    int type;
-    int fluidType = 0;
-    double x, y, z, vx, vy, vz;
-    double density = -1.0;
+    std::string typeField, x, y, z, vx, vy, vz;
+    std::string fluidTypeField = "0";
+    std::string densityField   = "-1.0";
     Particles particles;
-    while (in.read_row(type, fluidType, x, y, z, vx, vy, vz, density)) {
-        Eigen::Vector3d pos(x, y, z);
-        Eigen::Vector3d vel(vx, vy, vz);
+    while (in.read_row(typeField, fluidTypeField, x, y, z, vx, vy, vz, densityField)) {
+        int type       = parseField<int>(typeField);
+        int fluidType  = parseField<int>(fluidTypeField);
+        double density = parseField<double>(densityField);
+        Eigen::Vector3d pos(parseField<double>(x), parseField<double>(y), parseField<double>(z));
+        Eigen::Vector3d vel(parseField<double>(vx), parseField<double>(vy), parseField<double>(vz));
         if (density < 0) {
             density = defaultDensity;
         }
-- 
2.43.0


From 8401f908452d18003782cf08d3930693ccb0f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 12/17] fix: safe runner handles project names and notes with
 blanks

---
 scripts/safe_runner.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index dc6b816..a55aeaf 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -26,7 +26,7 @@ scriptPath=$(readlink -f "$0") || exit 1
 cd "$(dirname "$scriptPath")/.." || exit 1
 
 # create output directory if not exist
-mkdir -p ${outputDir}
+mkdir -p "${outputDir}"
 
 # run simulation
-./build/mps --setting ${settingFile} --output ${outputDir} 2> ${errorLogFile} | tee ${consoleLogFile}
+./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From 020a13428068012ae61aa0e0f899d3fecaa6ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 13/17] fix: safe runner never shares a result directory with
 another run

---
 scripts/safe_runner.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index a55aeaf..e3325ea 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -25,8 +25,9 @@ consoleLogFile="${outputDir}/console.log"
 scriptPath=$(readlink -f "$0") || exit 1
 cd "$(dirname "$scriptPath")/.." || exit 1
 
-# create output directory if not exist
-mkdir -p "${outputDir}"
+# create output directory, which must be new: another run may have started within the same second
+mkdir -p "$(dirname "${outputDir}")"
+mkdir "${outputDir}" || exit 1
 
 # run simulation
 ./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From ccd7dfd46cb734f435f2f45793d1d1c68404d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:01 +0000
Subject: [PATCH 14/17] fix: end the run when the pressure system was not
 actually solved

BiCGSTAB's recursively updated residual can report success for a singular
system without solution; check the actual residual too.
---
 src/pressure_calculator/pressure_poisson_equation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pressure_calculator/pressure_poisson_equation.cpp b/src/pressure_calculator/pressure_poisson_equation.cpp
index 191cab3..6927c67 100644
--- a/src/pressure_calculator/pressure_poisson_equation.cpp
+++ b/src/pressure_calculator/pressure_poisson_equation.cpp
@@ -46,7 +46,11 @@ std::vector<double> PressurePoissonEquation::solve() {
     Eigen::BiCGSTAB<Eigen::SparseMatrix<double, Eigen::RowMajor>> solver;
     solver.compute(coefficientMatrix);
     Eigen::VectorXd pressure = solver.solve(sourceTerm);
-    if (solver.info() != Eigen::Success) {
+    // The solver judges its success by a residual that it updates step by step and that can lose touch with the actual
+    // one when the matrix is singular. Hence the actual residual is also checked.
+    Eigen::VectorXd residual = sourceTerm - coefficientMatrix * pressure;
+    bool isSolved            = residual.norm() <= 1e-3 * sourceTerm.norm();
+    if (solver.info() != Eigen::Success || !isSolved) {
         cerr << "Pressure calculation failed." << endl;
         std::exit(-1);
     }
-- 
2.43.0


From 492974e419a4e824a674025943e07f559dc6f623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 15/17] fix: work with the number of threads given by
 numPhysicalCores

The setting was read and never used; a build with OpenMP took all cores.
---
 src/simulation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simulation.cpp b/src/simulation.cpp
index 587e2fa..750d497 100644
--- a/src/simulation.cpp
+++ b/src/simulation.cpp
@@ -7,6 +7,9 @@
 #include <cstdio>
 #include <iostream>
 #include <memory>
+#ifdef _OPENMP
+#include <omp.h>
+#endif
 
 using std::cerr;
 using std::cout;
@@ -24,6 +27,10 @@ Simulation::Simulation(fs::path& settingPath, fs::path& outputDirectory) {
     endTime      = input.settings.endTime;
     dt           = input.settings.dt;
     outputPeriod = input.settings.outputPeriod;
+
+#ifdef _OPENMP
+    omp_set_num_threads(input.settings.numPhysicalCores);
+#endif
 }
 
 void Simulation::run() {
-- 
2.43.0


From e1f464acf49c2a817ce37bfa95a270fc435feb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:53 +0000
Subject: [PATCH 16/17] fix: read VTK particle files whose attributes are in
 single quotes

---
 src/particles_loader/vtu.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d3e935f..2b0e703 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -48,9 +48,10 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
     // Parse VTU file
     while (std::getline(ifs, line)) {
         // Extract the declared number of particles
-        const std::string numberOfPoints = "NumberOfPoints=\"";
-        if (auto found = line.find(numberOfPoints); found != std::string::npos) {
-            declaredSize = std::stoul(line.substr(found + numberOfPoints.size()));
+        if (auto found = line.find("NumberOfPoints"); found != std::string::npos) {
+            if (auto quote = line.find_first_of("\"'", found); quote != std::string::npos) {
+                declaredSize = std::stoul(line.substr(quote + 1));
+            }
         }
 
         if (line.find("</VTKFile>") != std::string::npos) {
@@ -112,7 +113,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
 
         // Extract densities
-        if (line.find("Name=\"Density\"") != std::string::npos) {
+        if (line.find("\"Density\"") != std::string::npos || line.find("'Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0


From ff001c58840d21106221eb6281fe5c5da1a90bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 17/17] fix: refuse a domain with more cells than can be
 numbered

The number of cells of the neighbor search is an int. For a domain of many
radii (e.g. 1000 m with a radius of 3 cm) it overflowed, and the run crashed
or accessed memory outside the grid. It now ends with a message.
---
 src/bucket.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index 10324e6..468aef8 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -1,5 +1,9 @@
 #include "bucket.hpp"
 
+#include <cmath>
+#include <cstdlib>
+#include <limits>
+
 using std::cerr;
 using std::endl;
 
@@ -11,6 +15,17 @@ Bucket::Bucket(const double& reMax, const Domain& domain, const size_t& particle
     this->length = reMax;
     this->domain = domain;
 
+    // The cells are numbered with int.
+    const double cellsX = domain.xLength / length + 3;
+    const double cellsY = domain.yLength / length + 3;
+    const double cellsZ = domain.zLength / length + 3;
+    for (const double cells : {cellsX, cellsY, cellsZ, cellsX * cellsY, cellsX * cellsY * cellsZ}) {
+        if (!(std::abs(cells) < std::numeric_limits<int>::max())) {
+            cerr << "The domain is too large for the effective radius " << length << endl;
+            std::exit(-1);
+        }
+    }
+
     this->numX = (int) (domain.xLength / length) + 3;
     this->numY = (int) (domain.yLength / length) + 3;
     this->numZ = (int) (domain.zLength / length) + 3;
-- 
2.43.0

