#pragma once
// Laws are read by the analyser's front end; they are never compiled or run.
#include "Simu/math.hpp"
#include "Simu/physics.hpp"

namespace laws
{
template <class T>
void equal(const T& a, const T& b);
void holds(bool c);
void atLeastZero(float x);
void given(bool c);
template <class V, class J, class... X>
void gradient(const V& value, const J& jacobian, const X&... x);
// the callable throws when the condition is met, and only then
template <class F>
void rejected(bool invalid, const F& call);
using namespace simu;
} // namespace laws
