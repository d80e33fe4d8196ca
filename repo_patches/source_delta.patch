From d62ace04c5f1a18d6bb34f37af362b847085cdea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 01/14] fix: ~Body read the list node of the collider it just
 erased

---
 include/Simu/physics/Body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index e8fd43c..56ab266 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -216,8 +216,10 @@ public:
 
     ~Body() override
     {
-        for (Collider& c : colliders_.colliders_)
-            removeCollider(&c);
+        // removing a collider erases its list node, advance before removing.
+        auto& colliders = colliders_.colliders_;
+        for (auto it = colliders.begin(); it != colliders.end();)
+            removeCollider(&*it++);
     }
 
     Collider* addCollider(const ColliderDescriptor& descriptor);
-- 
2.43.0


From e36e7eddc429fadf82c91dca85e8d3dc5d166a39 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 02/14] fix: BoundingBox of an empty vertex range was left
 uninitialised

---
 include/Simu/physics/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/BoundingBox.hpp b/include/Simu/physics/BoundingBox.hpp
index 391be1a..4ceb808 100644
--- a/include/Simu/physics/BoundingBox.hpp
+++ b/include/Simu/physics/BoundingBox.hpp
@@ -128,7 +128,7 @@ private:
 
 
 template <VertexIterator2D It>
-BoundingBox::BoundingBox(It begin, It end)
+BoundingBox::BoundingBox(It begin, It end) : BoundingBox{}
 {
     if (begin == end)
         return;
-- 
2.43.0


From c06bed9ffd02a6491849bafcb38297e0edd1e627 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 03/14] fix: RTree move constructor swapped an uninitialised
 root into the source

---
 include/Simu/physics/RTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 5f70f3a..bc36723 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -266,7 +266,7 @@ private:
     Allocator     alloc_;
     NodeAllocator nodeAlloc_{alloc_};
 
-    Node* root_;
+    Node* root_ = nullptr;
 
     Node* makeNode(const BoundingBox& bounds = BoundingBox{})
     {
-- 
2.43.0


From 8e4cb9df3ba5d6f2bfc0dad4aa17353b939208cd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 04/14] fix: DistanceConstraint rejected a minimal distance
 without a maximal one

---
 include/Simu/physics/DistanceConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/DistanceConstraint.hpp b/include/Simu/physics/DistanceConstraint.hpp
index 024aec0..d4b9f50 100644
--- a/include/Simu/physics/DistanceConstraint.hpp
+++ b/include/Simu/physics/DistanceConstraint.hpp
@@ -152,7 +152,7 @@ public:
         );
 
         SIMU_ASSERT(
-            maxDistance > 0.f,
+            !maxDistance.has_value() || maxDistance.value() > 0.f,
             "Cannot enforce a maximal distance <= 0. Use an Hinge constraint "
             "for a distance of 0."
         );
-- 
2.43.0


From a97a087821dc7221a243d14583257f37645e5ded Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 05/14] fix: setContactFactory left bodies pointing at
 destroyed contacts

---
 include/Simu/physics/World.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 4cddc10..5a78670 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -138,6 +138,12 @@ public:
 
     void setContactFactory(ContactFactory makeContact)
     {
+        for (auto& body : bodies_)
+        {
+            body->contacts_.clear();
+            body->wake();
+        }
+
         contacts_.clear();
         makeContactConstraint_ = makeContact;
     }
-- 
2.43.0


From 38bc7cf2c351fce97bd08bf0c873b8aa11d92c5e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 06/14] fix: a body spinning clockwise was considered immobile

---
 include/Simu/physics/Body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index 56ab266..cce8023 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -394,7 +394,7 @@ private:
     bool isImmobile(float velocityTreshold, float angularVelocityTreshold) const
     {
         return normSquared(velocity()) < velocityTreshold * velocityTreshold
-               && angularVelocity() < angularVelocityTreshold;
+               && std::abs(angularVelocity()) < angularVelocityTreshold;
     }
 
     void
-- 
2.43.0


From 6850d9e75d743ab15baeccd13923f0b4e141ab53 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 07/14] fix: a moved ScopedTimer lost its measure

---
 include/Simu/physics/Profiler.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/Simu/physics/Profiler.hpp b/include/Simu/physics/Profiler.hpp
index b11ab3e..e20ccbd 100644
--- a/include/Simu/physics/Profiler.hpp
+++ b/include/Simu/physics/Profiler.hpp
@@ -88,10 +88,9 @@ public:
 
     ScopedTimer(const ScopedTimer&) = delete;
     ScopedTimer(ScopedTimer&& other)
+        : start_{other.start_}, partial_{other.partial_}
     {
         std::swap(entry_, other.entry_);
-        entry_   = other.entry_;
-        partial_ = other.partial_;
     }
 
     ~ScopedTimer()
-- 
2.43.0


From 2768bb5f51477660b3b0dbd0573f21f9a2e91a40 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 08/14] fix: a null body was dereferenced before Constraint
 rejected it

---
 include/Simu/physics/Bodies.inl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index f564d19..2dc7e9d 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -81,6 +81,7 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
     Uint32 i = 0;
     for (auto body : bodies)
     {
+        SIMU_ASSERT(body != nullptr, "Invalid body");
         bodies_[i++] = body;
     }
 
-- 
2.43.0


From 5fee6f9d501474fcb09d4a69d3b60ba02350a3fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 09/14] fix: LimitsSolver without limits dereferenced an empty
 limit when solving positions

---
 include/Simu/physics/ConstraintSolver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index aee48c0..9e1320e 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -424,7 +424,10 @@ public:
         {
             case Func::equality:
             {
-                posLambda = f.clampPositionLambda(solve(effMass, -(C - L_.value())));
+                if (L_.has_value())
+                    C -= L_.value();
+
+                posLambda = f.clampPositionLambda(solve(effMass, -C));
                 break;
             }
             case Func::lower:
-- 
2.43.0


From 741d6f179c3103c876f05848f2608704c8e10dc0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 10/14] fix: contacts were destroyed without onDestruction,
 before other objects were queried

---
 src/Simu/physics/World.cpp | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index f7c66cb..4185cc0 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -206,6 +206,11 @@ private:
     {
         return it->get();
     }
+
+    PhysicsObject* access(ContactList::iterator it)
+    {
+        return it->second.existingContact.get();
+    }
 };
 
 
@@ -223,32 +228,23 @@ void World::removeCollider(Collider* collider)
 
 void World::cleanup()
 {
-    for (auto it = contacts_.begin(); it != contacts_.end();)
-    {
-        ContactConstraint* contact = it->second.existingContact.get();
-        if (contact != nullptr && contact->isDead())
-        {
-            for (Body* b : contact->bodies())
-            {
-                std::erase(b->contacts_, contact);
-                b->wake();
-            }
-
-            it = contacts_.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-
     Cleaner cleaner{};
 
+    auto deadContacts    = cleaner.deadObjects(contacts_);
     auto deadConstraints = cleaner.deadObjects(constraints_);
     auto deadForces      = cleaner.deadObjects(forces_);
     auto deadBodies      = cleaner.deadObjects(bodies_);
 
+    for (auto c : deadContacts)
+    {
+        ContactConstraint* contact = c->second.existingContact.get();
+        for (Body* b : contact->bodies())
+        {
+            std::erase(b->contacts_, contact);
+            b->wake();
+        }
+    }
+
     for (auto c : deadConstraints)
     {
         for (Body* body : (*c)->bodies())
@@ -258,10 +254,12 @@ void World::cleanup()
         }
     }
 
+    cleaner.onDestruction(*this, deadContacts);
     cleaner.onDestruction(*this, deadConstraints);
     cleaner.onDestruction(*this, deadForces);
     cleaner.onDestruction(*this, deadBodies);
 
+    cleaner.erase(contacts_, deadContacts);
     cleaner.erase(constraints_, deadConstraints);
     cleaner.erase(forces_, deadForces);
     cleaner.erase(bodies_, deadBodies);
-- 
2.43.0


From 76631c8e21b9d2653fb1a29e2833f5e4a4c5a9e8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 11/14] fix: the library did not compile with SIMU_NO_PROFILER

---
 include/Simu/physics/Profiler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Simu/physics/Profiler.hpp b/include/Simu/physics/Profiler.hpp
index e20ccbd..338393e 100644
--- a/include/Simu/physics/Profiler.hpp
+++ b/include/Simu/physics/Profiler.hpp
@@ -111,6 +111,12 @@ private:
     TimePoint  start_;
     bool       partial_;
 
+#else
+
+public:
+
+    ScopedTimer(TimeEntry& /* entry */, bool /* partial */) {}
+
 #endif
 };
 
-- 
2.43.0


From 8b7f61f75b2fa18b56a475deea663619494a9e39 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 12/14] fix: adding or removing a collider ignored the motion
 of the centroid

---
 src/Simu/physics/Body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 8760ceb..4d3ada5 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -52,9 +52,9 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
     // see removeCollider.
     // Here we assume the new collider has the Body's velocity, ignoring
     //  conservation of momentums.
+    position_.setLocalCentroid(colliders_.properties().centroid);
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
     world_->addCollider(c);
@@ -75,9 +75,9 @@ void Body::removeCollider(Collider* collider)
     //  of the Body's momentum.
     //  => velocities don't change for the Body, except at the center of mass
 
+    position_.setLocalCentroid(colliders_.properties().centroid);
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
 }
-- 
2.43.0


From c08aa4f032f001b42b95d289dec5f126111be4a0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:16:57 +0000
Subject: [PATCH 13/14] fix: ignore overlaps between two structural bodies

No constraint can be solved between them, so creating their contact threw
out of World::step.
---
 src/Simu/physics/World.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 4185cc0..b259c78 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -291,6 +291,10 @@ void World::updateBodies(float dt)
         if (b0 == b1)
             return;
 
+        // No constraint can be solved between two structural bodies.
+        if (b0->isStructural() && b1->isStructural())
+            return;
+
         for (Constraint* c : b0->constraints())
         {
             if (c->disablesContacts())
-- 
2.43.0


From c7c8fe8becb15ec34ac256e9e397a31dc8ca9c20 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 08:08:34 +0000
Subject: [PATCH 14/14] fix: a refused collider description left the collider
 in the body, unindexed

---
 include/Simu/physics/Collider.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Collider.hpp b/include/Simu/physics/Collider.hpp
index eddb1b8..b77d49e 100644
--- a/include/Simu/physics/Collider.hpp
+++ b/include/Simu/physics/Collider.hpp
@@ -216,10 +216,11 @@ public:
 
     Collider* add(const ColliderDescriptor& descr, Body* owner)
     {
-        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        // throws if the descriptor is invalid, before the collider is added.
+        MassProperties p{descr.polygon, descr.material.density};
 
-        MassProperties p = colliders_.back().properties();
-        properties_      = properties_ + p;
+        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        properties_ = properties_ + p;
 
         return &colliders_.back();
     }
-- 
2.43.0

