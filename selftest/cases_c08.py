BC = "src/Simu/physics/Body.cpp"
W = "include/Simu/physics/World.hpp"
WC = "src/Simu/physics/World.cpp"
B = "include/Simu/physics/Body.hpp"
CO = "include/Simu/physics/Collider.hpp"
I = "include/Simu/physics/Island.hpp"
RT = "include/Simu/physics/RTree.hpp"
GI = "include/Simu/math/Gjk.inl.hpp"
CASES = [
 ("C08", "bug", "c08-range-remove", [(CO, """            if (&(*it) == collider)
            {
                colliders_.erase(it);
                break;
            }""", """            if (&(*it) == collider)
                colliders_.erase(it);""")]),
 ("C08", "bug", "c08-dtor-range", [(B, """        auto& colliders = colliders_.colliders_;
        for (auto it = colliders.begin(); it != colliders.end();)
            removeCollider(&*it++);""", """        auto& colliders = colliders_.colliders_;
        for (auto it = colliders.begin(); it != colliders.end(); ++it)
            removeCollider(&*it);""")]),
 ("C08", "ok", "c08-ok-dtor-front", [(B, """        for (auto it = colliders.begin(); it != colliders.end();)
            removeCollider(&*it++);""", """        while (!colliders.empty())
            removeCollider(&colliders.front());""")]),
 ("C08", "ok", "c08-ok-dtor-next", [(B, """        for (auto it = colliders.begin(); it != colliders.end();)
            removeCollider(&*it++);""", """        for (auto it = colliders.begin(); it != colliders.end();)
        {
            auto next = std::next(it);
            removeCollider(&*it);
            it = next;
        }""")]),
 ("C08", "bug", "c08-contact-order", [(WC, """            std::erase(b->contacts_, contact);
            b->wake();""", """            for (ContactConstraint* other : b->contacts_)
                if (other == contact)
                    std::erase(b->contacts_, contact);
            b->wake();""")]),
 ("C08", "bug", "c08-cleanup-early", [(WC, """    auto deadContacts    = cleaner.deadObjects(contacts_);
""", """    for (auto it = contacts_.begin(); it != contacts_.end(); ++it)
        if (it->second.existingContact == nullptr)
            contacts_.erase(it);

    auto deadContacts    = cleaner.deadObjects(contacts_);
""")]),
 ("C08", "ok", "c08-ok-cleanup-early", [(WC, """    auto deadContacts    = cleaner.deadObjects(contacts_);
""", """    for (auto it = contacts_.begin(); it != contacts_.end();)
    {
        if (it->second.existingContact == nullptr)
            it = contacts_.erase(it);
        else
            ++it;
    }

    auto deadContacts    = cleaner.deadObjects(contacts_);
""")]),
 ("C08", "bug", "c08-island-loop", [(I, """    for (Body& body : bodies)
        bodiesToProcess.emplace_back(&body);

    auto removeBody = [&](Body* body) { std::erase(bodiesToProcess, body); };
""", """    for (Body& body : bodies)
        bodiesToProcess.emplace_back(&body);

    auto removeBody = [&](Body* body) { std::erase(bodiesToProcess, body); };
    for (Body* body : bodiesToProcess)
        if (body->isStructural())
            removeBody(body);
""")]),
 ("C08", "ok", "c08-ok-island-loop", [(I, """            for (Body* body : island.bodies())
                removeBody(body);
""", """            for (auto it = island.bodies().begin(); it != island.bodies().end(); ++it)
                removeBody(*it);
""")]),
 ("C08", "bug", "c08-ref-grow", [(GI, """    vertices.emplace_back(first);
    vertices.emplace_back(second);
""", """    const Vertex& f = vertices.emplace_back(first);
    vertices.emplace_back(second);
    if (all(f == second))
        vertices.pop_back();
""")]),
 ("C08", "bug", "c08-tree-iter", [(W, """        collider->treeLocation_ = colliderTree_.emplace(
            collider->boundingBox(), collider
        );""", """        collider->treeLocation_ = colliderTree_.emplace(
            collider->boundingBox(), collider
        );
        for (Collider* c : colliderTree_)
            if (c == collider && c->body() == nullptr)
                colliderTree_.erase(c->treeLocation_);""")]),
 ("C08", "bug", "c08-callback", [(W, """            colliderTree_.forEachIn(
                f->domain().region,
                [](ColliderTree::iterator it) { (*it)->body()->wake(); }
            );""", """            colliderTree_.forEachIn(
                f->domain().region,
                [&](ColliderTree::iterator it) { (*it)->body()->wake(); if ((*it)->body()->isStructural()) colliderTree_.update(it, (*it)->boundingBox()), colliderTree_.erase(it); }
            );""")]),
 ("C08", "bug", "c08-erase-use", [(CO, """                colliders_.erase(it);
                break;""", """                colliders_.erase(it);
                if (it->body() == nullptr)
                    return;
                break;""")]),
 ("C08", "bug", "c08-contact-ref", [(WC, """            contacts_[colliders] = ContactStatus{
                makeContactConstraint(**first, **second), true};
        else""", """        {
            contacts_[colliders] = ContactStatus{
                makeContactConstraint(**first, **second), true};
            contact->second.hit = true;
        }
        else""")]),
 ("C08", "bug", "c08-return-local", [(RT, """    iterator update(iterator it, BoundingBox newBounds)
    {""", """    const BoundingBox& boundsOf(iterator it)
    {
        BoundingBox b = it.bounds();
        return b;
    }

    iterator update(iterator it, BoundingBox newBounds)
    {
        newBounds = boundsOf(it).combined(newBounds);""")]),
 ("C08", "bug", "c08-remove-first", [(BC, """    world_->removeCollider(collider);
    colliders_.remove(collider);
""", """    colliders_.remove(collider);
    world_->removeCollider(collider);
""")]),
 ("C08", "bug", "c08-remove-read", [(BC, """    if (colliders_.isEmpty())
        return;

    // Assume""", """    if (colliders_.isEmpty() || collider->properties().m == 0.f)
        return;

    // Assume""")]),
 ("C08", "ok", "c08-ok-remove-read", [(BC, """    world_->removeCollider(collider);
    colliders_.remove(collider);
    if (colliders_.isEmpty())""", """    const float removed = collider->properties().m;
    world_->removeCollider(collider);
    colliders_.remove(collider);
    if (colliders_.isEmpty() || removed < 0.f)""")]),
]
