B = "src/Simu/physics/Body.cpp"
W = "src/Simu/physics/World.cpp"
BH = "include/Simu/physics/Body.hpp"
H = "include/Simu/physics/World.hpp"
C = "include/Simu/physics/Collider.hpp"
I = "include/Simu/physics/Island.hpp"
CASES = [
 ("C03", "bug", "c03-update-after-index", [(B, "    update();\n    world_->addCollider(c);\n", "    world_->addCollider(c);\n    update();\n")]),
 ("C03", "bug", "c03-no-update-on-remove", [(B, "    setVelocity(velocity() + dvAtCentroid);\n\n    update();\n}\n\n} //", "    setVelocity(velocity() + dvAtCentroid);\n}\n\n} //")]),
 ("C03", "bug", "c03-erase-unless-asleep", [(W, "    colliderTree_.erase(collider->treeLocation_);\n\n    Body* b = collider->body();", "    Body* b = collider->body();\n    if (b->isAsleep())\n        return;\n    colliderTree_.erase(collider->treeLocation_);\n")]),
 ("C03", "bug", "c03-dtor-nonstructural", [(BH, "            removeCollider(&*it++);", "        {\n            Collider* c = &*it++;\n            if (!isStructural())\n                removeCollider(c);\n        }")]),
 ("C03", "bug", "c03-kill-first-only", [(W, "c->colliders()[0] == collider || c->colliders()[1] == collider", "c->colliders()[0] == collider")]),
 ("C03", "bug", "c03-kill-break", [(W, "            c->kill();\n    }\n}\n\nvoid World::cleanup", "        {\n            c->kill();\n            break;\n        }\n    }\n}\n\nvoid World::cleanup")]),
 ("C03", "bug", "c03-box-local", [(C, "boundingBox_ = BoundingBox{transformed_};", "boundingBox_ = BoundingBox{local_};")]),
 ("C03", "bug", "c03-update-first-collider", [(C, "        for (Collider& c : colliders_)\n            c.update(transform);", "        for (Collider& c : colliders_)\n        {\n            c.update(transform);\n            if (properties_.m == 0.f)\n                break;\n        }")]),
 ("C03", "bug", "c03-update-centroid-old", [(BH, "colliders_.update(toWorldSpace())", "colliders_.update(toLocalSpace())")]),
 ("*", "ok", "c03-refactor-update", [(C, "        auto it = transformed_.begin();\n        for (const Vertex& v : local_)\n            *it++ = transform * v;\n\n        boundingBox_ = BoundingBox{transformed_};", "        for (std::size_t i = 0; i < local_.size(); ++i)\n            transformed_[i] = transform * local_[i];\n\n        BoundingBox fresh{transformed_.begin(), transformed_.end()};\n        boundingBox_ = fresh;")]),
 ("*", "ok", "c03-refactor-remove", [(B, "    Vec2 oldCentroid = centroid();\n\n    world_->removeCollider(collider);\n    colliders_.remove(collider);\n    if (colliders_.isEmpty())\n        return;\n", "    const Vec2 oldCentroid = centroid();\n    World& w = *world_;\n\n    w.removeCollider(collider);\n    colliders_.remove(collider);\n    const bool nothingLeft = colliders_.isEmpty();\n    if (nothingLeft)\n        return;\n")]),
 ("*", "ok", "c03-refactor-dtor", [(BH, "        auto& colliders = colliders_.colliders_;\n        for (auto it = colliders.begin(); it != colliders.end();)\n            removeCollider(&*it++);", "        auto it = colliders_.colliders_.begin();\n        while (it != colliders_.colliders_.end())\n        {\n            Collider* c = &*it;\n            ++it;\n            removeCollider(c);\n        }")]),
 ("*", "ok", "c03-refactor-dtor2", [(BH, "        auto& colliders = colliders_.colliders_;\n        for (auto it = colliders.begin(); it != colliders.end();)\n            removeCollider(&*it++);", "        while (!colliders_.isEmpty())\n            removeCollider(&colliders_.colliders_.front());")]),
 ("*", "ok", "c03-refactor-kill", [(W, "        if (c->colliders()[0] == collider || c->colliders()[1] == collider)\n            c->kill();", "        const auto pair = c->colliders();\n        const bool involved = pair[0] == collider || pair[1] == collider;\n        if (!involved)\n            continue;\n        c->kill();")]),
]
