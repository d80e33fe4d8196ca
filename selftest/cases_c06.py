I = "include/Simu/physics/Island.hpp"
B = "include/Simu/physics/Bodies.hpp"
WS = "                constraint->warmstart(constraint->bodies().getProxies(), dt);\n            for (ContactConstraint* constraint : contacts_)\n                constraint->warmstart(constraint->bodies().getProxies(), dt);\n"
CASES = [
 ("C06", "bug", "c06-warm-interleaved", [(I, "            constraint->initSolve(constraint->bodies().getProxies());\n        for (ContactConstraint* constraint : contacts_)\n            constraint->initSolve(constraint->bodies().getProxies());\n", "            constraint->initSolve(constraint->bodies().getProxies());\n        for (ContactConstraint* constraint : contacts_)\n        {\n            constraint->initSolve(constraint->bodies().getProxies());\n            if (warmstartEnabled)\n                constraint->warmstart(constraint->bodies().getProxies(), dt);\n        }\n"),
     (I, "            for (ContactConstraint* constraint : contacts_)\n                constraint->warmstart(constraint->bodies().getProxies(), dt);\n", "")]),
 ("C06", "bug", "c06-warm-always", [(I, "        if (warmstartEnabled)\n", "        if (warmstartEnabled || nIter > 1)\n")]),
 ("C06", "bug", "c06-contacts-no-warm", [(I, "            for (ContactConstraint* constraint : contacts_)\n                constraint->warmstart(constraint->bodies().getProxies(), dt);\n", "")]),
 ("C06", "bug", "c06-vel-iter-minus-one", [(I, "for (Uint32 iter = 0; iter < nIter; ++iter)\n        {\n            for (Constraint* constraint : constraints_)\n                constraint->solveVelocities", "for (Uint32 iter = 1; iter < nIter; ++iter)\n        {\n            for (Constraint* constraint : constraints_)\n                constraint->solveVelocities")]),
 ("C06", "bug", "c06-pos-uses-vel-count", [(I, "island.applyPositionConstraints(s.nPositionIterations)", "island.applyPositionConstraints(s.nVelocityIterations)")]),
 ("C06", "bug", "c06-no-constraints-no-integrate", [(I, "        else\n        {\n            island.integrateBodies(dt);\n        }\n", "")]),
 ("C06", "bug", "c06-pos-before-integrate", [(I, "            island.integrateBodies(dt);\n\n            {\n                SIMU_PROFILE_PARTIAL_ENTRY(profiler.solvePositions);\n                island.applyPositionConstraints(s.nPositionIterations);\n            }\n", "            {\n                SIMU_PROFILE_PARTIAL_ENTRY(profiler.solvePositions);\n                island.applyPositionConstraints(s.nPositionIterations);\n            }\n            island.integrateBodies(dt);\n")]),
 ("C06", "bug", "c06-integrate-from-one", [(I, "for (std::size_t i = 0; i < positions_.size(); ++i)", "for (std::size_t i = 1; i < positions_.size(); ++i)")]),
 ("C06", "bug", "c06-refresh-no-contacts", [(I, "        for (ContactConstraint* c : contacts_)\n            c->bodies().startSolve(\n                positions_.data(),\n                velocities_.data()\n            ); // refresh proxy pointers\n", "")]),
 ("C06", "bug", "c06-endsolve-only-constraints", [(I, "        for (ContactConstraint* c : contacts_)\n            c->bodies().endSolve();\n    }\n\nprivate", "    }\n\nprivate")]),
 ("C06", "bug", "c06-clear-keeps-contacts", [(I, "        contacts_.clear();\n", "")]),
 ("C06", "bug", "c06-writeback-asleep-skipped", [(I, "            b->velocity_ = velocities_[b->proxyIndex];\n", "            if (!b->isAsleep())\n                b->velocity_ = velocities_[b->proxyIndex];\n")]),
 ("C06", "bug", "c06-index-reset-first", [(I, "            b->velocity_ = velocities_[b->proxyIndex];\n            b->position_ = positions_[b->proxyIndex];\n            b->update();\n            b->proxyIndex = Body::NO_INDEX;\n", "            const auto i = b->proxyIndex;\n            b->velocity_ = velocities_[i];\n            b->proxyIndex = Body::NO_INDEX;\n            b->position_ = positions_[static_cast<std::size_t>(b->proxyIndex + 1)];\n            b->update();\n")]),
 ("C06", "bug", "c06-second-velocity", [(B, "SolverProxy{ps + index1, vs + index1}", "SolverProxy{ps + index1, vs + index0}")]),
 ("C06", "bug", "c06-swapped-proxies", [(B, "            SolverProxy{ps + index0, vs + index0},\n            SolverProxy{ps + index1, vs + index1},", "            SolverProxy{ps + index1, vs + index1},\n            SolverProxy{ps + index0, vs + index0},")]),
 ("C06", "bug", "c06-early-stop", [(I, "        for (Uint32 iter = 0; iter < nIter; ++iter)\n        {\n            for (Constraint* constraint : constraints_)\n                constraint->solvePositions", "        for (Uint32 iter = 0; iter < nIter; ++iter)\n        {\n            if (iter > 3 && contacts_.empty())\n                break;\n            for (Constraint* constraint : constraints_)\n                constraint->solvePositions")]),
 ("C06", "bug", "c06-contacts-first-iteration-only", [(I, "            for (ContactConstraint* constraint : contacts_)\n                constraint->solveVelocities(constraint->bodies().getProxies(), dt);", "            if (iter == 0)\n            for (ContactConstraint* constraint : contacts_)\n                constraint->solveVelocities(constraint->bodies().getProxies(), dt);")]),
 ("C06", "bug", "c06-angular-no-dt", [(I, "velocities_[i].angular() * dt", "velocities_[i].angular()")]),
 ("C06", "ok", "c06-ok-integrate-bodies", [(I, "        for (std::size_t i = 0; i < positions_.size(); ++i)\n            positions_[i].advance(\n                velocities_[i].linear() * dt, velocities_[i].angular() * dt\n            );", "        for (Body* b : bodies_)\n        {\n            const Velocity& v = velocities_[b->proxyIndex];\n            positions_[b->proxyIndex].advance(dt * v.linear(), dt * v.angular());\n        }")]),
 ("C06", "ok", "c06-ok-countdown", [(I, "        for (Uint32 iter = 0; iter < nIter; ++iter)\n        {\n            for (Constraint* constraint : constraints_)\n                constraint->solvePositions", "        while (nIter-- > 0)\n        {\n            for (Constraint* constraint : constraints_)\n                constraint->solvePositions")]),
 ("C06", "ok", "c06-ok-helper", [(I, "        for (Constraint* constraint : constraints_)\n            constraint->initSolve(constraint->bodies().getProxies());\n        for (ContactConstraint* constraint : contacts_)\n            constraint->initSolve(constraint->bodies().getProxies());\n", "        forEachConstraint([](auto& c) { c.initSolve(c.bodies().getProxies()); });\n"),
     (I, "private:\n\n    bool addBody", "private:\n\n    template <class F>\n    void forEachConstraint(F f)\n    {\n        for (Constraint* constraint : constraints_)\n            f(*constraint);\n        for (ContactConstraint* constraint : contacts_)\n            f(*constraint);\n    }\n\n    bool addBody")]),
 ("C06", "ok", "c06-ok-always-phases", [(I, "        if (island.hasConstraints())\n        {\n            {\n                SIMU_PROFILE_PARTIAL_ENTRY(profiler.solveVelocities);", "        {\n            {\n                SIMU_PROFILE_PARTIAL_ENTRY(profiler.solveVelocities);"), (I, "        else\n        {\n            island.integrateBodies(dt);\n        }\n", "")]),
 ("C06", "ok", "c06-ok-integrate-hoisted", [(I, "            island.integrateBodies(dt);\n\n            {\n                SIMU_PROFILE_PARTIAL_ENTRY(profiler.solvePositions);\n                island.applyPositionConstraints(s.nPositionIterations);\n            }\n        }\n        else\n        {\n            island.integrateBodies(dt);\n        }\n", "        }\n        island.integrateBodies(dt);\n        if (island.hasConstraints())\n        {\n            SIMU_PROFILE_PARTIAL_ENTRY(profiler.solvePositions);\n            island.applyPositionConstraints(s.nPositionIterations);\n        }\n")]),
 ("C06", "ok", "c06-ok-swap-warm-order", [(I, WS, "                constraint->warmstart(constraint->bodies().getProxies(), dt);\n            for (auto it = contacts_.begin(); it != contacts_.end(); ++it)\n            {\n                ContactConstraint& c = **it;\n                c.warmstart(c.bodies().getProxies(), dt);\n            }\n")]),
 ("C06", "ok", "c06-ok-local-island", [(I, "    Island island{alloc};\n    while (!bodiesToProcess.empty())\n    {\n", "    while (!bodiesToProcess.empty())\n    {\n        Island island{alloc};\n"), (I, "        island.clear();\n    }\n", "    }\n")]),
 ("C06", "ok", "c06-ok-index-local", [(I, "            b->velocity_ = velocities_[b->proxyIndex];\n            b->position_ = positions_[b->proxyIndex];\n", "            const Int32 i = b->proxyIndex;\n            b->position_ = positions_[i];\n            b->velocity_ = velocities_[i];\n")]),
 ("C06", "ok", "c06-ok-index-loop", [(I, "        for (Constraint* c : constraints_)\n            c->bodies().endSolve();\n", "        for (std::size_t i = 0; i < constraints_.size(); ++i)\n            constraints_[i]->bodies().endSolve();\n")]),
]
