W = "src/Simu/physics/World.cpp"
F = "include/Simu/physics/ForceField.hpp"
B = "include/Simu/physics/Body.hpp"
I = "include/Simu/physics/Island.hpp"
CASES = [
 ("C09", "bug", "c09-asleep-or", [(W, "if (!body.isAsleep() && !body.isStructural())", "if (!body.isAsleep() || !body.isStructural())")]),
 ("C09", "bug", "c09-structural-forces", [(W, "if (!body.isAsleep() && !body.isStructural())", "if (!body.isAsleep())")]),
 ("C09", "bug", "c09-region-as-global", [(W, "force.domain().type == ForceField::DomainType::global", "force.domain().type != ForceField::DomainType::global || !force.domain().region.isValid()")]),
 ("C09", "bug", "c09-half-dt", [(W, "ApplyForce applyForce{force, dt};", "ApplyForce applyForce{force, dt * 0.5f};")]),
 ("C09", "bug", "c09-first-field-only", [(W, "            colliderTree_.forEachIn(force.domain().region, applyForce);\n        }\n", "            colliderTree_.forEachIn(force.domain().region, applyForce);\n            break;\n        }\n")]),
 ("C09", "bug", "c09-region-from-first", [(W, "            colliderTree_.forEachIn(force.domain().region, applyForce);", "            colliderTree_.forEachIn(colliderTree_.bounds(), applyForce);")]),
 ("C09", "bug", "c09-skip-slow-bodies", [(W, "                force.apply(collider, dt);", "                if (body.velocity()[0] != 0.f || body.contacts().begin() == body.contacts().end())\n                    force.apply(collider, dt);")]),
 ("C09", "bug", "c09-global-and-region", [(W, "        else\n        {\n            colliderTree_.forEachIn(force.domain().region", "        if (force.domain().region.isValid())\n        {\n            colliderTree_.forEachIn(force.domain().region")]),
 ("C09", "bug", "c09-gravity-moves", [(F, "        b->applyForce(acceleration_ * p.m, dt, whereFromCentroid);", "        b->applyForce(acceleration_ * p.m, dt, whereFromCentroid);\n        if (dt > 1.f)\n            b->removeCollider(&collider);")]),
 ("C09", "ok", "c09-ok-lambda", [(W, "            for (Collider* collider : colliderTree_)\n                applyForce(*collider);", "            for (auto it = colliderTree_.begin(); it != colliderTree_.end(); ++it)\n                applyForce(it);")]),
 ("C09", "ok", "c09-ok-switch", [(W, "        if (force.domain().type == ForceField::DomainType::global)\n        {\n            for (Collider* collider : colliderTree_)\n                applyForce(*collider);\n        }\n        else\n        {\n            colliderTree_.forEachIn(force.domain().region, applyForce);\n        }", "        switch (force.domain().type)\n        {\n            case ForceField::DomainType::global:\n                for (Collider* collider : colliderTree_)\n                    applyForce(*collider);\n                break;\n            case ForceField::DomainType::region:\n                colliderTree_.forEachIn(force.domain().region, applyForce);\n                break;\n        }")]),
 ("C09", "ok", "c09-ok-early-return", [(W, "            if (!body.isAsleep() && !body.isStructural())\n                force.apply(collider, dt);", "            if (body.isStructural() || body.isAsleep())\n                return;\n\n            force.apply(collider, dt);")]),
 ("C09", "ok", "c09-ok-plain-lambda", [(W, "        ApplyForce applyForce{force, dt};\n", "        auto applyForce = [&](Collider& collider) { ApplyForce{force, dt}(collider); };\n"), (W, "colliderTree_.forEachIn(force.domain().region, applyForce);", "const auto domain = force.domain();\n            colliderTree_.forEachIn(domain.region, [&](ColliderTree::iterator it) { applyForce(**it); });")]),
]
