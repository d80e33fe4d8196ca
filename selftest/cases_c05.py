W = "src/Simu/physics/World.cpp"
H = "include/Simu/physics/World.hpp"
LOOP = "        for (Constraint* c : b0->constraints())\n        {\n            if (c->disablesContacts())\n            {\n                const Bodies& bodies = c->bodies();\n                if (bodies[0] == b1 || bodies[1] == b1)\n                    return;\n            }\n        }\n"
CASES = [
 ("C05", "bug", "c05-one-order", [(H, "        if (asIs != contacts_.end())\n            return asIs;\n        else\n            return contacts_.find(std::array<simu::Collider*, 2>{\n                colliders[1], colliders[0]});", "        return asIs;")]),
 ("C05", "bug", "c05-same-order-twice", [(H, "                colliders[1], colliders[0]});", "                colliders[0], colliders[1]});")]),
 ("C05", "bug", "c05-disable-any", [(W, "                if (bodies[0] == b1 || bodies[1] == b1)\n                    return;", "                (void)bodies;\n                return;")]),
 ("C05", "bug", "c05-disable-second-only", [(W, "if (bodies[0] == b1 || bodies[1] == b1)", "if (bodies[1] == b1)")]),
 ("C05", "bug", "c05-first-constraint-only", [(W, "                if (bodies[0] == b1 || bodies[1] == b1)\n                    return;\n            }", "                if (bodies[0] == b1 || bodies[1] == b1)\n                    return;\n                break;\n            }")]),
 ("C05", "bug", "c05-same-body-contacts", [(W, "        if (b0 == b1)\n            return;\n", "")]),
 ("C05", "bug", "c05-skip-both-asleep", [(W, "        auto contact = inContacts(colliders);\n", "        if (b0->isAsleep() && b1->isAsleep())\n            return;\n        auto contact = inContacts(colliders);\n")]),
 ("C05", "bug", "c05-new-not-hit", [(W, "makeContactConstraint(**first, **second), true}", "makeContactConstraint(**first, **second), false}")]),
 ("C05", "bug", "c05-no-reset", [(W, "        cs.hit = false;\n", "        if (!cs.hit)\n            cs.hit = false;\n")]),
 ("C05", "bug", "c05-reset-first", [(W, "        if (!cs.hit && cs.existingContact != nullptr)\n        {\n            cs.existingContact->kill();\n        }\n\n        cs.hit = false;", "        const bool wasHit = cs.hit;\n        cs.hit = false;\n        if (!cs.hit && !wasHit && cs.existingContact != nullptr && !cs.existingContact->isDead())\n        {\n            if (cs.existingContact->bodies()[0]->isAsleep())\n                continue;\n            cs.existingContact->kill();\n        }\n")]),
 ("C05", "bug", "c05-sweep-break", [(W, "            cs.existingContact->kill();\n        }\n\n        cs.hit", "            cs.existingContact->kill();\n            break;\n        }\n\n        cs.hit")]),
 ("C05", "bug", "c05-key-order", [(W, "contacts_[colliders] = ContactStatus{", "contacts_[{colliders[0], colliders[0]}] = ContactStatus{")]),
 ("*", "ok", "c05-refactor-any_of", [(W, LOOP, "        const bool disabled = [&]() {\n            for (Constraint* c : b0->constraints())\n                if (c->disablesContacts() && (c->bodies()[0] == b1 || c->bodies()[1] == b1))\n                    return true;\n            return false;\n        }();\n        if (disabled)\n            return;\n")]),
 ("*", "ok", "c05-refactor-stdany", [(W, LOOP, "        const auto& cs = b0->constraints();\n        if (std::any_of(cs.begin(), cs.end(), [&](Constraint* c) {\n                return c->disablesContacts() && (c->bodies()[0] == b1 || c->bodies()[1] == b1);\n            }))\n            return;\n")]),
 ("*", "ok", "c05-refactor-emplace", [(W, "            contacts_[colliders] = ContactStatus{\n                makeContactConstraint(**first, **second), true};", "            contacts_.emplace(colliders, ContactStatus{\n                makeContactConstraint(*colliders[0], *colliders[1]), true});")]),
 ("*", "ok", "c05-refactor-sweep", [(W, "        if (!cs.hit && cs.existingContact != nullptr)\n        {\n            cs.existingContact->kill();\n        }\n\n        cs.hit = false;", "        if (cs.hit)\n        {\n            cs.hit = false;\n            continue;\n        }\n        if (ContactConstraint* c = cs.existingContact.get())\n            c->kill();\n        cs.hit = false;")]),
 ("*", "ok", "c05-refactor-lookup", [(H, "        if (asIs != contacts_.end())\n            return asIs;\n        else\n            return contacts_.find(std::array<simu::Collider*, 2>{\n                colliders[1], colliders[0]});", "        if (asIs == contacts_.end())\n        {\n            const std::array<simu::Collider*, 2> swapped{colliders[1], colliders[0]};\n            asIs = contacts_.find(swapped);\n        }\n        return asIs;")]),
 ("*", "ok", "c05-refactor-b1side", [(W, LOOP, "        for (const Constraint* c : b1->constraints())\n        {\n            if (!c->disablesContacts())\n                continue;\n            if (c->bodies()[0] != b0 && c->bodies()[1] != b0)\n                continue;\n            return;\n        }\n")]),
]
