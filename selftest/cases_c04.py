W = "src/Simu/physics/World.cpp"
H = "include/Simu/physics/World.hpp"
I = "include/Simu/physics/Island.hpp"
CASES = [
 ("C04", "bug", "c04-asleep-no-prestep", [(W, "    for (Body& b : bodies())\n        b.preStep();", "    for (Body& b : bodies())\n        if (!b.isAsleep())\n            b.preStep();")]),
 ("C04", "bug", "c04-poststep-hit-only", [(W, "            c.second.existingContact->postStep();", "            if (c.second.hit)\n                c.second.existingContact->postStep();")]),
 ("C04", "bug", "c04-dt-nonzero", [(W, "    if (dt > 0.f)\n", "    if (dt != 0.f)\n")]),
 ("C04", "bug", "c04-collide-always", [(W, "        updateBodies(dt);\n    }", "    }\n    updateBodies(dt);")]),
 ("C04", "bug", "c04-poststep-early", [(W, "        updateBodies(dt);\n    }\n\n    for (Body& b : bodies())\n        b.postStep();", "        for (Body& b : bodies())\n            b.postStep();\n        updateBodies(dt);\n    }\n    else\n        for (Body& b : bodies())\n            b.postStep();")]),
 ("C04", "bug", "c04-half-dt", [(W, "        applyForces(dt);\n", "        applyForces(settings().enableWarmstarting ? dt : dt * 0.5f);\n")]),
 ("C04", "bug", "c04-prestep-late", [(W, "    for (ForceField& f : forceFields())\n        f.preStep();\n\n\n", ""), (W, "        solveIslands(", "        for (ForceField& f : forceFields())\n            f.preStep();\n        solveIslands("), (W, "    for (Body& b : bodies())\n        b.postStep();", "    if (!(dt > 0.f))\n        for (ForceField& f : forceFields())\n            f.preStep();\n    for (Body& b : bodies())\n        b.postStep();")]),
 ("C04", "bug", "c04-no-post-paused", [(W, "    for (ForceField& f : forceFields())\n        f.postStep();", "    if (dt > 0.f)\n        for (ForceField& f : forceFields())\n            f.postStep();")]),
 ("C04", "bug", "c04-double-poststep", [(W, "    for (Body& b : bodies())\n        b.postStep();", "    for (Body& b : bodies())\n    {\n        b.postStep();\n        for (Constraint* c : b.constraints())\n            if (c->isDead())\n                b.postStep();\n    }")]),
 ("*", "ok", "c04-refactor-helper", [(W, "    for (Body& b : bodies())\n        b.postStep();\n    for (Constraint& c : constraints())\n        c.postStep();", "    auto finish = [](auto&& objects) {\n        for (auto& o : objects)\n            o.postStep();\n    };\n    finish(bodies());\n    finish(constraints());")]),
 ("*", "ok", "c04-refactor-notpos", [(W, "    if (dt > 0.f)\n    {", "    const bool running = 0.f < dt;\n    if (running)\n    {")]),
 ("*", "ok", "c04-refactor-extract", [(W, "    if (dt > 0.f)\n    {", "    auto simulate = [&]() {"), (W, "        updateBodies(dt);\n    }", "        updateBodies(dt);\n    };\n    if (!(dt <= 0.f))\n        simulate();")]),
 ("*", "ok", "c04-refactor-contacts", [(W, "        for (auto& c : contacts_)\n            if (c.second.existingContact != nullptr)\n                c.second.existingContact.get()->preStep();", "        for (auto& [key, status] : contacts_)\n        {\n            ContactConstraint* contact = status.existingContact.get();\n            if (!contact)\n                continue;\n            contact->preStep();\n        }")]),
 ("*", "ok", "c04-refactor-view", [(W, "    for (Constraint& c : constraints())\n        c.preStep();", "    for (auto& c : constraints_)\n        c->preStep();")]),
]
