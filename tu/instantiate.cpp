// Instantiates the repository's templates so that the front end type-checks
// every member function the checks analyse.  Never compiled to code or run.
#include "Simu/math.hpp"
#include "Simu/physics.hpp"
#include "Simu/app/MouseConstraint.hpp"

namespace simu_verif
{
struct WitnessBody : simu::Body
{
    using simu::Body::Body;
};
struct WitnessForce : simu::ForceField
{
    using simu::ForceField::ForceField;
    void apply(simu::Collider&, float) const override {}
};

// a user-written inequality constraint function
class WitnessInequality : public simu::InequalityConstraintFunctionBase<2, 1>
{
public:

    Value    eval(const simu::Proxies&) const { return Value{}; }
    Value    bias(const simu::Proxies&) const { return Value{}; }
    Jacobian jacobian(const simu::Proxies&) const { return Jacobian{}; }
};
class WitnessInequalityConstraint
    : public simu::ConstraintImplementation<WitnessInequality, simu::InequalitySolver<WitnessInequality>>
{
public:

    typedef simu::ConstraintImplementation<WitnessInequality, simu::InequalitySolver<WitnessInequality>> Base;
    WitnessInequalityConstraint(const simu::Bodies& b) : Base{b, WitnessInequality{}, true} {}
};
class WitnessLimitConstraint
    : public simu::ConstraintImplementation<
          simu::RotationConstraintFunction,
          simu::LimitsSolver<simu::RotationConstraintFunction>>
{
public:

    typedef simu::ConstraintImplementation<
        simu::RotationConstraintFunction,
        simu::LimitsSolver<simu::RotationConstraintFunction>>
        Base;
    WitnessLimitConstraint(const simu::Bodies& b)
        : Base{b, simu::RotationConstraintFunction{b}, true}
    {
        solver.setLowerLimit(Value{0.f});
        solver.setUpperLimit(Value{1.f});
    }
};

void instantiate(simu::World& w, simu::Bodies bodies, simu::Body* b)
{
    using namespace simu;
    w.makeBody<WitnessBody>(BodyDescriptor{});
    w.makeBody(BodyDescriptor{});
    w.makeForceField<Gravity>(Vec2{0, -10});
    w.makeForceField<WitnessForce>(ForceField::Domain{});
    w.makeConstraint<HingeConstraint>(bodies, Vec2{});
    w.makeConstraint<RotationConstraint>(bodies);
    w.makeConstraint<WeldConstraint>(bodies);
    w.makeConstraint<DistanceConstraint>(bodies, std::array<Vec2, 2>{});
    w.makeConstraint<RotationMotor>(bodies, RotationMotor::Specs::fromAccel(1.f, 1.f));
    w.makeConstraint<TranslationMotor>(bodies, TranslationMotor::Specs::fromAccel(1.f, 1.f));
    w.makeConstraint<WitnessInequalityConstraint>(bodies);
    w.makeConstraint<WitnessLimitConstraint>(bodies);
    w.forEachIn(BoundingBox{}, [](Body*) {});
    w.forEachAt(Vec2{}, [](Body*) {});
}

} // namespace simu_verif

template class simu::RTree<int>;
template class simu::Matrix<float, 2, 2>;
template class simu::Matrix<float, 3, 3>;
template class simu::FreeListAllocator<int>;
