I = "include/Simu/physics/Island.hpp"
CASES = [
 ("C07", "bug", "c07-no-contacts", [(I, "                for (ContactConstraint* contact : root->contacts())\n                {\n                    addConstraint(contact, contacts_);\n                }\n", "")]),
 ("C07", "bug", "c07-asleep-skipped", [(I, "if (!root->interactsAsStructural())", "if (!root->interactsAsStructural() && !root->isAsleep())")]),
 ("C07", "bug", "c07-only-root", [(I, "        while (current != bodies_.size())", "        if (current != bodies_.size())")]),
 ("C07", "bug", "c07-inactive-keeps-velocity", [(I, "                b[1]->proxyIndex = index2;\n                bodies_.pop_back();\n                positions_.pop_back();\n                velocities_.pop_back();", "                b[1]->proxyIndex = index2;\n                bodies_.pop_back();\n                positions_.pop_back();")]),
 ("C07", "bug", "c07-inactive-keeps-index", [(I, "                b[0]->proxyIndex = index1;\n", "")]),
 ("C07", "bug", "c07-inactive-keeps-proxies", [(I, "            constraint->bodies().endSolve();\n            container.pop_back();", "            container.pop_back();")]),
 ("C07", "bug", "c07-inactive-stays", [(I, "            constraint->bodies().endSolve();\n            container.pop_back();", "            constraint->bodies().endSolve();")]),
 ("C07", "bug", "c07-pop-guarded-wrong", [(I, "            if (added1)\n            {\n                b[0]", "            if (added1 && !added2)\n            {\n                b[0]")]),
 ("C07", "bug", "c07-join-twice", [(I, "        if (constraint->bodies().hasProxies())\n            return false;\n", "")]),
 ("C07", "bug", "c07-index-off", [(I, "static_cast<Int32>(positions_.size());\n            positions_.emplace_back(body->position_);", "static_cast<Int32>(bodies_.size());\n            positions_.emplace_back(body->position_);")]),
 ("C07", "bug", "c07-no-dequeue", [(I, "            for (Body* body : island.bodies())\n                removeBody(body);\n", "            bodiesToProcess.pop_back();\n")]),
 ("C07", "bug", "c07-queue-awake-only", [(I, "    for (Body& body : bodies)\n        bodiesToProcess.emplace_back(&body);", "    for (Body& body : bodies)\n        if (!body.isStructural())\n            bodiesToProcess.emplace_back(&body);")]),
 ("C07", "bug", "c07-add-always", [(I, "        if (isNew)\n        {\n            bodies_.emplace_back(body);", "        if (isNew || body->isStructural())\n        {\n            bodies_.emplace_back(body);")]),
 ("C07", "bug", "c07-stop-early", [(I, "    while (!bodiesToProcess.empty())", "    while (bodiesToProcess.size() > 1)")]),
 ("C07", "bug", "c07-second-not-added", [(I, "        bool  added2 = addBody(b[1]);", "        bool  added2 = !b[1]->isStructural() && addBody(b[1]);")]),
 ("C07", "ok", "c07-ok-active-first", [(I, "        container.emplace_back(constraint);\n\n        auto& b      =", "        auto& b      ="), (I, "            constraint->bodies().endSolve();\n            container.pop_back();\n            return false;\n        }\n\n        return true;", "            constraint->bodies().endSolve();\n            return false;\n        }\n\n        container.emplace_back(constraint);\n        return true;")]),
 ("C07", "ok", "c07-ok-pop-helper", [(I, "                bodies_.pop_back();\n                positions_.pop_back();\n                velocities_.pop_back();", "                popBody();"), (I, "                bodies_.pop_back();\n                positions_.pop_back();\n                velocities_.pop_back();", "                popBody();"), (I, "private:\n\n    bool addBody", "private:\n\n    void popBody()\n    {\n        velocities_.pop_back();\n        positions_.pop_back();\n        bodies_.pop_back();\n    }\n\n    bool addBody")]),
 ("C07", "ok", "c07-ok-restore-noindex", [(I, "b[1]->proxyIndex = index2;", "b[1]->proxyIndex = Body::NO_INDEX;"), (I, "b[0]->proxyIndex = index1;", "b[0]->proxyIndex = Body::NO_INDEX;")]),
 ("C07", "ok", "c07-ok-for-loop", [(I, "        std::size_t current = 0;\n        while (current != bodies_.size())\n        {\n            root = bodies_[current++];\n", "        for (std::size_t current = 0; current < bodies_.size(); ++current)\n        {\n            Body* member = bodies_[current];\n            root = member;\n")]),
 ("C07", "ok", "c07-ok-early-continue", [(I, "            if (!root->interactsAsStructural())\n            {", "            if (root->interactsAsStructural())\n                continue;\n            {")]),
 ("C07", "ok", "c07-ok-push-before-index", [(I, "            body->proxyIndex = static_cast<Int32>(positions_.size());\n            positions_.emplace_back(body->position_);", "            positions_.emplace_back(body->position_);\n            body->proxyIndex = static_cast<Int32>(positions_.size() - 1);")]),
 ("C07", "ok", "c07-ok-invert", [(I, "        if (!constraint->isActive(constraint->bodies().getProxies()))\n        {", "        const bool active = constraint->isActive(constraint->bodies().getProxies());\n        if (active)\n            return true;\n        {"), (I, "            return false;\n        }\n\n        return true;\n    }\n\n    std::vector<Body*", "            return false;\n        }\n    }\n\n    std::vector<Body*")]),
]
