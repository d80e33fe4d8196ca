W = "src/Simu/physics/World.cpp"
H = "include/Simu/physics/World.hpp"
CASES = [
 ("C02", "bug", "c02-link-first-only", [(H, "            body->constraints_.emplace_back(c);\n            body->wake();\n", "            body->constraints_.emplace_back(c);\n            body->wake();\n            if (body->isStructural())\n                break;\n")]),
 ("C02", "bug", "c02-skip-structural-contact", [(W, "        body->contacts_.emplace_back(c.get());\n        body->wake();", "        if (body->isStructural())\n            continue;\n        body->contacts_.emplace_back(c.get());\n        body->wake();")]),
 ("C02", "bug", "c02-onconstruction-before-world", [(H, "        b->world_ = this;\n        b->setAllocator(bAlloc_);\n        b->onConstruction(*this);\n", "        b->setAllocator(bAlloc_);\n        b->onConstruction(*this);\n        b->world_ = this;\n")]),
 ("C02", "bug", "c02-double-onconstruction", [(H, "        for (Body* body : c->bodies())\n        {\n            body->constraints_.emplace_back(c);", "        c->onConstruction(*this);\n        for (Body* body : c->bodies())\n        {\n            body->constraints_.emplace_back(c);")]),
 ("C02", "bug", "c02-contact-no-onconstruction", [(W, "    c->onConstruction(*this);\n\n", "")]),
 ("C02", "bug", "c02-clear-order", [(H, "        bodies_.clear();\n        forces_.clear();\n        contacts_.clear();", "        forces_.clear();\n        contacts_.clear();\n        bodies_.clear();")]),
 ("C02", "bug", "c02-member-order", [(H, "    typedef std::list<UniquePtr<Body>, BodyAlloc> BodyList;\n    BodyList                                      bodies_{bAlloc_};\n", ""), (H, "    ContactList contacts_{miscAlloc_};\n", "    typedef std::list<UniquePtr<Body>, BodyAlloc> BodyList;\n    BodyList                                      bodies_{bAlloc_};\n    ContactList contacts_{miscAlloc_};\n")]),
 ("C02", "bug", "c02-factory-unlisted", [(H, "            body->contacts_.clear();\n            body->wake();\n", "            body->wake();\n")]),
 ("C02", "bug", "c02-wake-only-one", [(H, "        for (Body* body : c->bodies())\n        {\n            body->constraints_.emplace_back(c);\n            body->wake();\n        }", "        for (Body* body : c->bodies())\n            body->constraints_.emplace_back(c);\n        c->bodies()[0]->wake();")]),
 ("*", "ok", "c02-refactor-index", [(H, "        for (Body* body : c->bodies())\n        {\n            body->constraints_.emplace_back(c);\n            body->wake();\n        }", "        auto link = [c](Body& body) {\n            body.wake();\n            body.constraints_.push_back(c);\n        };\n        for (auto it = c->bodies().begin(); it != c->bodies().end(); ++it)\n            link(**it);")]),
 ("*", "ok", "c02-refactor-makebody", [(H, "        auto body = makeUnique<T>(bAlloc_, std::forward<Args>(args)...);\n        T*   b = static_cast<T*>(bodies_.emplace_back(std::move(body)).get());\n        b->world_ = this;", "        UniquePtr<Body> owned = makeUnique<T>(bAlloc_, std::forward<Args>(args)...);\n        T* b = static_cast<T*>(owned.get());\n        bodies_.push_back(std::move(owned));\n        Body& base = *b;\n        base.world_ = this;")]),
]
