B = "include/Simu/physics/Body.hpp"
T = "include/Simu/physics/Transform.hpp"
PO = "include/Simu/physics/PhysicsObject.hpp"
RT = "include/Simu/physics/RTree.hpp"
RI = "include/Simu/physics/RTree.inl.hpp"
BB = "include/Simu/physics/BoundingBox.hpp"
MO = "include/Simu/physics/Motors.hpp"
G = "include/Simu/math/Geometry.hpp"
M = "include/Simu/math/Matrix.inl.hpp"
I = "include/Simu/physics/Island.hpp"
CS = "include/Simu/physics/ConstraintSolver.hpp"
GJ = "include/Simu/math/Gjk.hpp"
BS = "include/Simu/physics/Bodies.hpp"
CASES = [
 ("C17", "bug", "c17-clock", [(B, "float timeImmobile_ = 0.f;", "float timeImmobile_;")]),
 ("C17", "bug", "c17-killed", [(PO, "bool killed_ = false;", "bool killed_;")]),
 ("C17", "bug", "c17-throttle", [(MO, "float throttle_ = 1.f;", "float throttle_;")]),
 ("C17", "bug", "c17-node", [(RI, "    Node* right  = nullptr;", "    Node* right;")]),
 ("C17", "bug", "c17-root", [(RT, "Node* root_ = nullptr;", "Node* root_;")]),
 ("C17", "bug", "c17-box", [(BB, "BoundingBox::BoundingBox(It begin, It end) : BoundingBox{}", "BoundingBox::BoundingBox(It begin, It end)")]),
 ("C17", "ok", "c17-ok-velocity", [(B, "float invMass_{};", "float invMass_;")]),
 ("C17", "ok", "c17-ok-warm", [(CS, "bool canWarmstart_ = false;", "bool canWarmstart_;")]),
 ("C17", "bug", "c17-awake", [(I, "bool isAwake_ = false;", "bool isAwake_;")]),
 ("C17", "bug", "c17-gjk", [(GJ, "bool areColliding_ = false;", "bool areColliding_;")]),
 ("C17", "ok", "c17-ok-proxies", [(BS, "    Velocity* velocity_ = nullptr;", "    Velocity* velocity_;")]),
 ("C17", "bug", "c17-local", [(G, "    Vec2  furthest = *geometry.begin();\n    float maxDist  = dot(furthest, direction);", "    Vec2  furthest;\n    float maxDist  = dot(*geometry.begin(), direction);")]),
 ("C17", "bug", "c17-rotation", [(T, "explicit Rotation(float theta) { set(theta); }", "explicit Rotation(float theta) { if (theta != 0.f) set(theta); else theta_ = 0.f; }")]),
 ("C17", "ok", "c17-ok-body", [(T, "Rotation(float theta, float c, float s) : theta_{theta}, cosine{c}, sine{s}\n    {\n    }", "Rotation(float theta, float c, float s) : theta_{theta}\n    {\n        cosine = c;\n        sine = s;\n    }")]),
 ("C17", "ok", "c17-ok-local", [(G, "    float maxDist  = dot(furthest, direction);", "    float maxDist;\n    maxDist = dot(furthest, direction);")]),
 ("C17", "ok", "c17-ok-ctor", [(MO, "float throttle_ = 1.f;", "float throttle_{1.f};"), (BB, "    min_ = max_ = *begin;\n", "    Vec2 first;\n    if (begin != end)\n        first = *begin;\n    else\n        return;\n    min_ = first;\n    max_ = first;\n")]),
]
