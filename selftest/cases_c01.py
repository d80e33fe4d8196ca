W = "src/Simu/physics/World.cpp"
CL_H = "include/Simu/physics/PhysicsObject.hpp"
CASES = [
 ("C01", "bug", "c01-erase-bodies-early", [(W, "    cleaner.onDestruction(*this, deadContacts);\n    cleaner.onDestruction(*this, deadConstraints);", "    cleaner.erase(bodies_, deadBodies);\n    deadBodies.clear();\n    cleaner.onDestruction(*this, deadContacts);\n    cleaner.onDestruction(*this, deadConstraints);")]),
 ("C01", "bug", "c01-no-notify-forces", [(W, "    cleaner.onDestruction(*this, deadForces);\n", "")]),
 ("C01", "bug", "c01-early-return", [(W, "    for (auto c : deadContacts)\n", "    if (deadBodies.empty() && deadConstraints.empty())\n        return;\n    for (auto c : deadContacts)\n")]),
 ("C01", "bug", "c01-first-body-only", [(W, "            std::erase(body->constraints_, c->get());\n            body->wake();\n", "            std::erase(body->constraints_, c->get());\n            body->wake();\n            break;\n")]),
 ("C01", "bug", "c01-skip-structural", [(W, "            std::erase(b->contacts_, contact);\n            b->wake();", "            if (b->isStructural())\n                continue;\n            std::erase(b->contacts_, contact);\n            b->wake();")]),
 ("C01", "bug", "c01-deadobjects-first", [(W, "            if (isDead(it))\n                dead.emplace_back(it);", "            if (isDead(it))\n            {\n                dead.emplace_back(it);\n                break;\n            }")]),
 ("C01", "bug", "c01-cleanup-late", [(W, "    cleanup();\n\n    for (Body& b : bodies())\n        b.preStep();", "    for (Body& b : bodies())\n        b.preStep();\n    cleanup();\n")]),
 ("C01", "bug", "c01-kill-unhit-destroys", [(W, "            cs.existingContact->kill();", "            for (Body* b : cs.existingContact->bodies())\n                std::erase(b->contacts_, cs.existingContact.get());\n            cs.existingContact.reset();")]),
 ("C01", "bug", "c01-constraint-and", [("src/Simu/physics/Constraint.cpp", "", "")] if False else [(CL_H, "killed_ || shouldDie()", "killed_ && shouldDie()")]),
 ("C01", "bug", "c01-isdead-killed-only", [(CL_H, "return killed_ || shouldDie();", "return killed_;")]),
 ("*", "ok", "c01-refactor-erase_if", [(W, """            std::erase(b->contacts_, contact);
            b->wake();""", """            auto& l = b->contacts_;
            l.erase(std::remove(l.begin(), l.end(), contact), l.end());
            b->wake();""")]),
 ("*", "ok", "c01-refactor-rangeless", [(W, """        for (auto it : deadObjects)
            container.erase(it);""", """        for (std::size_t i = 0; i < deadObjects.size(); ++i)
            container.erase(deadObjects[i]);""")]),
 ("*", "ok", "c01-refactor-helper", [(W, """        for (Body* body : (*c)->bodies())
        {
            std::erase(body->constraints_, c->get());
            body->wake();
        }""", """        Constraint* constraint = c->get();
        auto forget = [&](Body& body) {
            std::erase(body.constraints_, constraint);
            body.wake();
        };
        for (Body* body : constraint->bodies())
            forget(*body);""")]),
 ("*", "ok", "c01-refactor-while", [(W, """        for (auto it = container.begin(); it != container.end(); ++it)
            if (isDead(it))
                dead.emplace_back(it);""", """        auto it = container.begin();
        while (it != container.end())
        {
            if (!isDead(it))
            {
                ++it;
                continue;
            }
            dead.push_back(it);
            ++it;
        }""")]),
 ("*", "ok", "c01-refactor-reorder", [(W, """    cleaner.erase(contacts_, deadContacts);
    cleaner.erase(constraints_, deadConstraints);
    cleaner.erase(forces_, deadForces);
    cleaner.erase(bodies_, deadBodies);""", """    cleaner.erase(forces_, deadForces);
    cleaner.erase(constraints_, deadConstraints);
    cleaner.erase(contacts_, deadContacts);
    cleaner.erase(bodies_, deadBodies);""")]),
 ("*", "ok", "c01-refactor-merge-loops", [(W, """    for (auto c : deadContacts)
    {
        ContactConstraint* contact = c->second.existingContact.get();
        for (Body* b : contact->bodies())
        {
            std::erase(b->contacts_, contact);
            b->wake();
        }
    }
""", """    auto unlink = [](auto& list, auto* c, Body* b) {
        auto found = std::find(list.begin(), list.end(), c);
        if (found != list.end())
            list.erase(found);
        b->wake();
    };
    for (auto c : deadContacts)
    {
        ContactConstraint* contact = c->second.existingContact.get();
        for (int i = 0; i < 2; ++i)
            unlink(contact->bodies()[i]->contacts_, contact, contact->bodies()[i]);
    }
""")]),
]
