#include "laws.hpp"

namespace laws
{
template <Uint32 m, Uint32 n>
using M = Matrix<float, m, n>;
template <Uint32 n>
using V = Vector<float, n>;

// A solution satisfies its equations.
inline void law_solution__one(M<1, 1> A, V<1> b)
{
    given(A(0, 0) != 0.f);
    V<1> x = solve(A, b);
    equal(A(0, 0) * x[0], b[0]);
}
inline void law_solution__two(M<2, 2> A, V<2> b)
{
    given(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) != 0.f);
    V<2> x = solve(A, b);
    equal(A(0, 0) * x[0] + A(0, 1) * x[1], b[0]);
    equal(A(1, 0) * x[0] + A(1, 1) * x[1], b[1]);
}
inline void law_solution__solver_object(M<2, 2> A, V<2> b, V<2> c)
{
    // a solver may be used again
    given(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) != 0.f);
    Solver<float, 2> s{A};
    V<2> x = s.solve(b);
    V<2> y = s.solve(c);
    equal(A(0, 0) * x[0] + A(0, 1) * x[1], b[0]);
    equal(A(1, 0) * y[0] + A(1, 1) * y[1], c[1]);
    equal(A(0, 0) * y[0] + A(0, 1) * y[1], c[0]);
}
// back substitution, for whatever factors
template <Uint32 n>
void law_solution__triangular(Solver<float, n> s, V<n> b)
{
    given(s.isValid_);
    for (Uint32 i = 0; i < n; ++i)
        given(s.R_(i, i) != 0.f);
    V<n> x = s.solve(b);
    for (Uint32 r = 0; r < n; ++r)
    {
        float lhs = 0.f, rhs = 0.f;
        for (Uint32 c = r; c < n; ++c)
            lhs += s.R_(r, c) * x[c];
        for (Uint32 c = 0; c < n; ++c)
            rhs += s.QT_(r, c) * b[c];
        equal(lhs, rhs);
    }
}
// the factors multiply back to the matrix
template <Uint32 n>
void law_original__reconstructs(M<n, n> A)
{
    Solver<float, n> s{A};
    if (s.isValid())
        equal(s.original(), A);
}
inline void law_factors__triangular(M<3, 3> A)
{
    Solver<float, 3> s{A};
    equal(s.R_(1, 0), 0.f);
    equal(s.R_(2, 0), 0.f);
    equal(s.R_(2, 1), 0.f);
}
template <Uint32 rows>
void law_factors__orthogonal(Matrix<float, 3, 3> A)
{
    Solver<float, 3> s{A};
    given(s.isValid());
    for (Uint32 i = rows - 1; i < rows; ++i)
        for (Uint32 j = 0; j <= i; ++j)
        {
            float d = 0.f;
            for (Uint32 k = 0; k < 3; ++k)
                d += s.QT_(i, k) * s.QT_(j, k);
            equal(d, i == j ? 1.f : 0.f);
        }
}
// a singular matrix is recognised
inline void law_singular__one(M<1, 1> A)
{
    holds(Solver<float, 1>{A}.isValid() == (A(0, 0) != 0.f));
}
inline void law_singular__two(M<2, 2> A)
{
    holds(Solver<float, 2>{A}.isValid() == (A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) != 0.f));
}
inline void law_singular__null_column(V<3> a, V<3> b)
{
    V<3> z = V<3>::filled(0.f);
    holds(!Solver<float, 3>{M<3, 3>::fromCols({z, a, b})}.isValid());
}
// inverses
inline void law_inverse__one(M<1, 1> A)
{
    given(A(0, 0) != 0.f);
    equal(invert(A)[0] * A[0], 1.f);
}
inline void law_inverse__two(M<2, 2> A)
{
    given(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) != 0.f);
    M<2, 2> B = invert(A);
    for (Uint32 r = 0; r < 2; ++r)
        for (Uint32 c = 0; c < 2; ++c)
            equal(A(r, 0) * B(0, c) + A(r, 1) * B(1, c), r == c ? 1.f : 0.f);
}
// linear complementarity: x >= 0, A x >= b, and x (A x - b) = 0
inline void law_complementarity__nonnegative(M<2, 2> A, V<2> b)
{
    V<2> x = solveLcp(A, b);
    atLeastZero(x[0]);
    atLeastZero(x[1]);
}
inline void law_complementarity__orthogonal(M<2, 2> A, V<2> b)
{
    given(A(0, 0) != 0.f);
    given(A(1, 1) != 0.f);
    given(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) != 0.f);
    V<2> x = solveLcp(A, b);
    equal(x[0] * (A(0, 0) * x[0] + A(0, 1) * x[1] - b[0]), 0.f);
    equal(x[1] * (A(1, 0) * x[0] + A(1, 1) * x[1] - b[1]), 0.f);
}
inline void law_complementarity__feasible(M<2, 2> A, V<2> b)
{
    given(A(0, 0) != 0.f);
    given(A(1, 1) != 0.f);
    given(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) != 0.f);
    V<2> x = solveLcp(A, b);
    // a nonzero answer satisfies both inequalities
    if (x[0] != 0.f || x[1] != 0.f)
    {
        atLeastZero(A(0, 0) * x[0] + A(0, 1) * x[1] - b[0]);
        atLeastZero(A(1, 0) * x[0] + A(1, 1) * x[1] - b[1]);
    }
}
// a symmetric positive definite problem has a solution, and it is found
inline void law_complementarity__found(float a, float c, float d, V<2> b)
{
    given(a > 0.f);
    given(d > 0.f);
    given(a * d - c * c > 0.f);
    V<2> x = solveLcp(M<2, 2>{a, c, c, d}, b);
    atLeastZero(a * x[0] + c * x[1] - b[0]);
    atLeastZero(c * x[0] + d * x[1] - b[1]);
}
// ---- projected Gauss-Seidel: a solution is a fixed point, and a sweep solves a diagonal system
template <Uint32 n>
void law_sweep__fixed_point(M<n, n> A, V<n> x, float e)
{
    given(e > 0.f);
    V<n> b;
    for (Uint32 i = 0; i < n; ++i)
    {
        given(A(i, i) != 0.f);
        b[i] = 0.f;
        for (Uint32 k = 0; k < n; ++k)
            b[i] += A(i, k) * x[k];
    }
    V<n> y = solveInequalities(A, b, [](const V<n>& z, Uint32 i) { return z[i]; }, x, e);
    for (Uint32 i = 0; i < n; ++i)
        equal(y[i], x[i]);
}
template <Uint32 n>
void law_sweep__projected(M<n, n> A, V<n> b, V<n> x0, float e)
{
    given(e > 0.f);
    for (Uint32 i = 0; i < n; ++i)
    {
        given(A(i, i) != 0.f);
        for (Uint32 k = 0; k < n; ++k)
            if (i != k)
                A(i, k) = 0.f;
    }
    V<n> y = solveInequalities(A, b, [](const V<n>& z, Uint32 i) { return std::max(0.f, z[i]); }, x0, e);
    for (Uint32 i = 0; i < n; ++i)
    {
        // to the tolerance
        float s = b[i] / A(i, i);
        equal(y[i], s < 0.f ? 0.f : s);
    }
}
// one sweep uses the values already updated, and stops within the tolerance
inline void law_sweep__order(V<3> b, float e)
{
    given(e > 1000.f);
    for (Uint32 i = 0; i < 3; ++i)
    {
        given(b[i] > -1.f);
        given(b[i] < 1.f);
    }
    M<3, 3> A;
    float   a[9] = {4.f, 1.f, 2.f, 3.f, 8.f, -1.f, 5.f, 7.f, 16.f};
    for (Uint32 r = 0; r < 3; ++r)
        for (Uint32 c = 0; c < 3; ++c)
            A(r, c) = a[3 * r + c];
    V<3>  x0{-10.f, -40.f, -200.f};
    float y0 = (b[0] - (1.f * x0[1] + 2.f * x0[2])) / 4.f;
    float y1 = (b[1] - (3.f * y0 + -1.f * x0[2])) / 8.f;
    float y2 = (b[2] - (5.f * y0 + 7.f * y1)) / 16.f;
    V<3>  y  = solveInequalities(A, b, [](const V<3>& z, Uint32 i) { return z[i]; }, x0, e);
    equal(y[0], y0);
    equal(y[1], y1);
    equal(y[2], y2);
}
// sweeps go on while the change exceeds the tolerance
inline void law_sweep__goes_on(V<2> b, float e)
{
    given(e > 0.f);
    given(e < 0.125f);
    for (Uint32 i = 0; i < 2; ++i)
    {
        given(b[i] > -1.f);
        given(b[i] < 1.f);
    }
    M<2, 2> A;
    A(0, 0) = 2.f;
    A(0, 1) = 1.f;
    A(1, 0) = 0.f;
    A(1, 1) = 4.f;
    V<2> y  = solveInequalities(A, b, [](const V<2>& z, Uint32 i) { return z[i]; }, V<2>{-10.f, -60.f}, e);
    equal(y[1], b[1] / 4.f);
    equal(y[0], (b[0] - b[1] / 4.f) / 2.f);
}
inline void law_complementarity__valid(M<2, 2> A)
{
    holds(LcpSolver<float>{A}.isValid() == (A(0, 0) != 0.f && A(1, 1) != 0.f && A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0) != 0.f));
}

inline void instances()
{
    law_sweep__fixed_point<1>(M<1, 1>{}, V<1>{}, 0.f);
    law_sweep__fixed_point<2>(M<2, 2>{}, V<2>{}, 0.f);
    law_sweep__projected<1>(M<1, 1>{}, V<1>{}, V<1>{}, 0.f);
    law_factors__orthogonal<1>(M<3, 3>{});
    law_factors__orthogonal<2>(M<3, 3>{});
    law_solution__triangular<1>(Solver<float, 1>{M<1, 1>{}}, V<1>{});
    law_solution__triangular<3>(Solver<float, 3>{M<3, 3>{}}, V<3>{});
    law_solution__triangular<4>(Solver<float, 4>{M<4, 4>{}}, V<4>{});
    law_original__reconstructs<1>(M<1, 1>{});
    law_original__reconstructs<2>(M<2, 2>{});
    law_original__reconstructs<3>(M<3, 3>{});
}
} // namespace laws
