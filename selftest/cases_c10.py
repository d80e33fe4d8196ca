W = "src/Simu/physics/World.cpp"
F = "include/Simu/physics/ForceField.hpp"
B = "include/Simu/physics/Body.hpp"
I = "include/Simu/physics/Island.hpp"
CASES = [
 ("C10", "bug", "c10-or-slow", [(B, "               && std::abs(angularVelocity())", "               || std::abs(angularVelocity())")]),
 ("C10", "bug", "c10-no-abs", [(B, "std::abs(angularVelocity()) < angular", "angularVelocity() < angular")]),
 ("C10", "bug", "c10-threshold-unsquared", [(B, "velocityTreshold * velocityTreshold\n", "velocityTreshold\n")]),
 ("C10", "bug", "c10-swapped-thresholds", [(W, "                dt, settings_.velocitySleepThreshold, settings_.angularVelocitySleepThreshold", "                dt, settings_.angularVelocitySleepThreshold, settings_.velocitySleepThreshold")]),
 ("C10", "bug", "c10-clock-keeps", [(B, "        else\n            timeImmobile_ = 0.f;\n", "        else if (!isStructural())\n            timeImmobile_ = 0.f;\n")]),
 ("C10", "bug", "c10-sleep-early", [(B, "return timeImmobile_ >= minTimeImmobile;", "return timeImmobile_ + dominance_ >= minTimeImmobile;")]),
 ("C10", "bug", "c10-sleep-inverted", [(B, "return timeImmobile_ >= minTimeImmobile;", "return timeImmobile_ <= minTimeImmobile;")]),
 ("C10", "bug", "c10-set-angular-no-wake", [(B, "        velocity_.setAngular(angularVelocity);\n        wake();", "        velocity_.setAngular(angularVelocity);")]),
 ("C10", "bug", "c10-root-not-counted", [(I, "            isAwake_ = isAwake_ || !body->isAsleep();\n", "            if (bodies_.size() > 1)\n                isAwake_ = isAwake_ || !body->isAsleep();\n")]),
 ("C10", "bug", "c10-last-decides", [(I, "            isAwake_ = isAwake_ || !body->isAsleep();\n", "            isAwake_ = !body->isAsleep();\n")]),
 ("C10", "bug", "c10-and", [(I, "            isAwake_ = isAwake_ || !body->isAsleep();\n", "            isAwake_ = isAwake_ && !body->isAsleep();\n")]),
 ("C10", "bug", "c10-wake-one", [(I, "                for (Body* body : island.bodies())\n                    body->wake();", "                for (Body* body : island.bodies())\n                {\n                    if (!body->isStructural())\n                        body->wake();\n                }")]),
 ("C10", "bug", "c10-unlink-no-wake", [(W, "            std::erase(body->constraints_, c->get());\n            body->wake();", "            std::erase(body->constraints_, c->get());")]),
 ("C10", "bug", "c10-sleeping-disabled-ignored", [(W, "            if (body.canSleep(settings_.inactivitySleepDelay))\n                body.sleep();\n        }\n    }\n", "        }\n    }\n\n    for (Body& body : bodies())\n        if (body.canSleep(settings_.inactivitySleepDelay))\n            body.sleep();\n")]),
 ("C10", "bug", "c10-fixed-dt", [(B, "            timeImmobile_ += dt;", "            timeImmobile_ += 1.f / 60.f;")]),
 ("C10", "ok", "c10-ok-ternary", [(B, "        if (isImmobile(velocityTreshold, angularVelocityTreshold))\n            timeImmobile_ += dt;\n        else\n            timeImmobile_ = 0.f;", "        if (!isImmobile(velocityTreshold, angularVelocityTreshold))\n        {\n            timeImmobile_ = 0.f;\n            return;\n        }\n        timeImmobile_ = timeImmobile_ + dt;")]),
 ("C10", "ok", "c10-ok-norm", [(B, "normSquared(velocity()) < velocityTreshold * velocityTreshold", "norm(velocity()) < velocityTreshold")]),
 ("C10", "ok", "c10-ok-nested", [(B, "        return normSquared(velocity()) < velocityTreshold * velocityTreshold\n               && std::abs(angularVelocity()) < angularVelocityTreshold;", "        if (angularVelocityTreshold <= std::abs(angularVelocity()))\n            return false;\n        const bool slow = normSquared(velocity()) < velocityTreshold * velocityTreshold;\n        return slow;")]),
 ("C10", "ok", "c10-ok-flag-if", [(I, "            isAwake_ = isAwake_ || !body->isAsleep();\n", "            if (!body->isAsleep())\n                isAwake_ = true;\n")]),
 ("C10", "ok", "c10-ok-reset-flag", [(I, "        velocities_.clear();\n    }", "        velocities_.clear();\n        isAwake_ = false;\n    }")]),
 ("C10", "ok", "c10-ok-wake-method", [(I, "            if (island.isAwake())\n            {\n                for (Body* body : island.bodies())\n                    body->wake();\n            }\n            else\n            {\n                // reset forces and velocities on all bodies\n            }\n", "            island.wakeAll();\n"), (I, "    bool isAwake() const", "    void wakeAll()\n    {\n        if (!isAwake_)\n            return;\n        for (Body* b : bodies_)\n            b->wake();\n    }\n\n    bool isAwake() const")]),
 ("C10", "ok", "c10-ok-settings-local", [(W, "        for (Body& body : bodies())\n        {\n            body.updateTimeImmobile(\n                dt, settings_.velocitySleepThreshold, settings_.angularVelocitySleepThreshold\n            );\n", "        const Settings& s = settings_;\n        for (Body& body : bodies())\n        {\n            const float vmax = s.velocitySleepThreshold;\n            body.updateTimeImmobile(dt, vmax, s.angularVelocitySleepThreshold);\n")]),
 ("C10", "ok", "c10-ok-unlink-separate", [(W, "            std::erase(body->constraints_, c->get());\n            body->wake();", "            body->wake();\n            std::erase(body->constraints_, c->get());")]),
]
