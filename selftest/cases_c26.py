W = "src/Simu/physics/World.cpp"
H = "include/Simu/physics/World.hpp"
I = "include/Simu/physics/Island.hpp"
C = "include/Simu/physics/ContactConstraint.hpp"
LOOP = "    for (auto& contact : contacts_)\n    {\n        ContactStatus& cs = contact.second;\n"
KILL = "            cs.existingContact->kill();\n        }\n"
MK = "    auto c = makeContactConstraint_(first, second, cAlloc_);\n"
REF = "        for (Body* b : bodies_)\n        {\n            velocities_[b->proxyIndex] = b->velocity_;\n"
CASES = [
 ("C26", "bug", "c26-pair-by-address", [(W, MK, "    const bool inOrder = &first < &second;\n    auto c = makeContactConstraint_(inOrder ? first : second, inOrder ? second : first, cAlloc_);\n")]),
 ("C26", "bug", "c26-pair-minmax", [(W, "    auto registerContact", "    auto lower = [](Collider* a, Collider* b) { return std::min(a, b); };\n    (void)lower;\n    auto registerContact")]),
 ("C26", "bug", "c26-budget", [(I, "    Island island{alloc};\n", "    const auto start = std::chrono::steady_clock::now();\n    Island island{alloc};\n"),
                               (I, "            if (island.isAwake())\n", "            if (std::chrono::steady_clock::now() - start > std::chrono::milliseconds{8})\n                s.nVelocityIterations = 1;\n            if (island.isAwake())\n"),
                               (I, "#include \"Simu/physics/Constraint.hpp\"\n", "#include \"Simu/physics/Constraint.hpp\"\n#include <chrono>\n")]),
 ("C26", "bug", "c26-sorted-constraints", [(I, REF, "        std::sort(constraints_.begin(), constraints_.end());\n" + REF), (I, "#include \"Simu/physics/Constraint.hpp\"\n", "#include \"Simu/physics/Constraint.hpp\"\n#include <algorithm>\n")]),
 ("C26", "bug", "c26-static-flip", [(I, REF, "        static bool flip = false;\n        flip             = !flip;\n        if (flip)\n            std::reverse(constraints_.begin(), constraints_.end());\n" + REF), (I, "#include \"Simu/physics/Constraint.hpp\"\n", "#include \"Simu/physics/Constraint.hpp\"\n#include <algorithm>\n")]),
 ("C26", "bug", "c26-set-of-bodies", [(I, REF, "        std::size_t next = 0;\n        for (Body* b : std::set<Body*>(bodies_.begin(), bodies_.end()))\n            bodies_[next++] = b;\n" + REF), (I, "#include \"Simu/physics/Constraint.hpp\"\n", "#include \"Simu/physics/Constraint.hpp\"\n#include <set>\n")]),
 ("C26", "bug", "c26-damp-per-contact", [(W, LOOP, LOOP + "        if (cs.existingContact != nullptr)\n            for (Body* b : cs.existingContact->bodies())\n                b->setVelocity(b->velocity() * 0.99f);\n")]),
 ("C26", "bug", "c26-collect", [(W, LOOP, "    std::vector<ContactConstraint*> all;\n    for (auto& c : contacts_)\n        all.push_back(c.second.existingContact.get());\n    for (ContactConstraint* c : all)\n        (void)c;\n" + LOOP)]),
 ("C26", "bug", "c26-budget-of-kills", [(W, KILL, "            cs.existingContact->kill();\n            if (dt > 1.f)\n                break;\n        }\n")]),
 ("C26", "bug", "c26-reattach", [(W, LOOP, "    for (Body& b : bodies())\n        b.contacts_.clear();\n    for (auto& c : contacts_)\n        if (c.second.existingContact != nullptr)\n            for (Body* b : c.second.existingContact->bodies())\n                b->contacts_.emplace_back(c.second.existingContact.get());\n" + LOOP)]),
 ("C26", "bug", "c26-sum", [(W, LOOP, "    Vec2 total{};\n    for (auto& c : contacts_)\n        for (Body* b : c.second.existingContact->bodies())\n            total += b->velocity();\n" + LOOP)]),
 ("C26", "bug", "c26-last", [(W, LOOP, "    Body* last = nullptr;\n    for (auto& c : contacts_)\n        last = c.second.existingContact->bodies()[0];\n    if (last != nullptr)\n        last->wake();\n" + LOOP)]),
 ("C26", "bug", "c26-low-bits", [(I, "        addBody(root);\n\n        std::size_t current", "        if (reinterpret_cast<std::size_t>(root) & 64)\n            bodies_.reserve(8);\n        addBody(root);\n\n        std::size_t current")]),
 ("*", "ok", "c26-iterators", [(W, LOOP + "        if (!cs.hit && cs.existingContact != nullptr)\n        {\n            cs.existingContact->kill();\n        }\n\n        cs.hit = false;\n    }\n", "    for (auto it = contacts_.begin(); it != contacts_.end(); ++it)\n    {\n        ContactStatus& cs = it->second;\n        if (!cs.hit && cs.existingContact != nullptr)\n            cs.existingContact->kill();\n        cs.hit = false;\n    }\n")]),
 ("*", "ok", "c26-structured", [(W, LOOP, "    for (auto& [colliders, cs] : contacts_)\n    {\n"), ]),
 ("*", "ok", "c26-count", [(W, LOOP, "    std::size_t nHit = 0;\n" + LOOP + "        if (cs.hit)\n            ++nHit;\n"), (W, "        cs.hit = false;\n    }\n", "        cs.hit = false;\n    }\n    (void)nHit;\n")]),
 ("*", "ok", "c26-prestep-helper", [(W, "        for (auto& c : contacts_)\n            if (c.second.existingContact != nullptr)\n                c.second.existingContact.get()->preStep();\n", "        auto refresh = [](ContactStatus& status) {\n            ContactConstraint* contact = status.existingContact.get();\n            if (contact == nullptr)\n                return;\n            contact->preStep();\n        };\n        for (auto& c : contacts_)\n            refresh(c.second);\n")]),
]
