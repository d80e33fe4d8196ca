W = "src/Simu/physics/World.cpp"
I = "include/Simu/physics/Island.hpp"
BO = "include/Simu/physics/Bodies.hpp"
CI = "include/Simu/physics/ConstraintInterfaces.hpp"
PR = "include/Simu/physics/Profiler.hpp"
M = "include/Simu/math/Matrix.inl.hpp"
CO = "include/Simu/physics/Collider.hpp"
G = "include/Simu/math/Geometry.hpp"
CASES = [
 ("C24", "bug", "c24-effect-in-assert", [(BO, 'SIMU_ASSERT(hasProxies(), "has no proxies");', 'SIMU_ASSERT((invMasses_.m0 = invMasses_.m0 + 0.f, hasProxies()), "has no proxies");')]),
 ("C24", "bug", "c24-cleanup-while-profiling", [(W, "    cleanup();\n\n", "#ifdef SIMU_PROFILE\n    cleanup();\n#endif\n\n")]),
 ("C24", "bug", "c24-reads-measure", [(W, "    if (dt > 0.f)\n", "    if (dt > 0.f && profiler_.treeHeight < 1000)\n")]),
 ("C24", "bug", "c24-macro-swallows", [(PR, "#    define SIMU_PROFILE_TREE_HEIGHT(profiler, tree)                           \\\n        profiler.treeHeight = tree.height()", "#    define SIMU_PROFILE_TREE_HEIGHT(profiler, tree)                           \\\n        tree.clear(); profiler.treeHeight = tree.height()")]),
 ("C24", "bug", "c24-work-only-without-asserts", [(I, "    SIMU_PROFILE_COMMIT_PARTIAL_ENTRY(profiler.islandConstruction);", "#if defined(NDEBUG)\n    alloc = Alloc{};\n#endif\n    SIMU_PROFILE_COMMIT_PARTIAL_ENTRY(profiler.islandConstruction);".replace("alloc = Alloc{};", "dt = 0.f;"))]),
 ("C24", "bug", "c24-mutating-member-in-assert", [(CO, 'SIMU_ASSERT(density > 0.f, "Must have a positive density");', 'SIMU_ASSERT((density = density * 1.f) > 0.f, "Must have a positive density");')]),
 ("C24", "ok", "c24-ok-more-asserts", [(CO, 'SIMU_ASSERT(density > 0.f, "Must have a positive density");', 'SIMU_ASSERT(density > 0.f && !(density <= 0.f), "Must have a positive density");\n        SIMU_ASSERT(geometry.begin() != geometry.end(), "not empty");')]),
 ("C24", "ok", "c24-ok-new-entry", [(PR, "    TimeEntry solvePositions{};", "    TimeEntry solvePositions{};\n    TimeEntry cleaning{};"), (W, "    cleanup();\n\n", "    {\n        SIMU_PROFILE_ENTRY(profiler_.cleaning);\n        cleanup();\n    }\n\n")]),
 ("C24", "ok", "c24-ok-local-in-assert", [(CI, "        SIMU_ASSERT(\n            !tooManyStructural,", "        const bool solvable = !tooManyStructural;\n        SIMU_ASSERT(\n            solvable,")]),
 ("C24", "ok", "c24-ok-average", [(PR, "        double total = average_.count() * nMeasures_;\n        average_     = Seconds{(total + seconds.count()) / ++nMeasures_};", "        nMeasures_ += 1;\n        average_ += (seconds - average_) / static_cast<double>(nMeasures_);")]),
]
