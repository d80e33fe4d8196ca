#include "laws.hpp"

namespace laws
{
template <Uint32 m, Uint32 n>
using M = Matrix<float, m, n>;
template <Uint32 n>
using V = Vector<float, n>;

// ---------------------------------------------------------------- layout
template <Uint32 m, Uint32 n>
void law_layout__index(M<m, n> a)
{
    for (Uint32 r = 0; r < m; ++r)
        for (Uint32 c = 0; c < n; ++c)
        {
            equal(a(r, c), a[r * n + c]);
            equal(a(r, c), a.data[r * n + c]);
            equal(a(r, c), *(a.begin() + r * n + c));
        }
    const M<m, n>& k = a;
    for (Uint32 r = 0; r < m; ++r)
        for (Uint32 c = 0; c < n; ++c)
        {
            equal(k(r, c), a.data[r * n + c]);
            equal(k[r * n + c], a.data[r * n + c]);
        }
    Uint32 count = 0;
    for (float x : a)
    {
        equal(x, a.data[count]);
        ++count;
    }
    holds(count == m * n);
}
inline void law_layout__initialiser(float a, float b, float c, float d, float e, float f)
{
    M<2, 3> x{a, b, c, d, e, f};
    equal(x(0, 0), a);
    equal(x(0, 1), b);
    equal(x(0, 2), c);
    equal(x(1, 0), d);
    equal(x(1, 1), e);
    equal(x(1, 2), f);
    M<3, 2> y{a, b, c, d, e, f};
    equal(y(0, 0), a);
    equal(y(0, 1), b);
    equal(y(1, 0), c);
    equal(y(1, 1), d);
    equal(y(2, 0), e);
    equal(y(2, 1), f);
}
template <Uint32 m, Uint32 n>
void law_rows_columns__round_trip(M<m, n> a)
{
    auto rows = a.asRows();
    auto cols = a.asCols();
    for (Uint32 r = 0; r < m; ++r)
        for (Uint32 c = 0; c < n; ++c)
        {
            equal(rows[r][c], a(r, c));
            equal(cols[c][r], a(r, c));
        }
    equal(M<m, n>::fromRows(rows), a);
    equal(M<m, n>::fromCols(cols), a);
}
inline void law_rows_columns__lists(V<3> a, V<3> b)
{
    M<2, 3> r = M<2, 3>::fromRows({a, b});
    M<3, 2> c = M<3, 2>::fromCols({a, b});
    for (Uint32 i = 0; i < 3; ++i)
    {
        equal(r(0, i), a[i]);
        equal(r(1, i), b[i]);
        equal(c(i, 0), a[i]);
        equal(c(i, 1), b[i]);
    }
}
template <Uint32 m, Uint32 n>
void law_transpose__swaps(M<m, n> a)
{
    M<n, m> t = transpose(a);
    for (Uint32 r = 0; r < m; ++r)
        for (Uint32 c = 0; c < n; ++c)
            equal(t(c, r), a(r, c));
}
template <Uint32 m, Uint32 n>
void law_filled__everywhere(float s)
{
    M<m, n> a = M<m, n>::filled(s);
    for (Uint32 i = 0; i < m * n; ++i)
        equal(a[i], s);
}
template <Uint32 n>
void law_identity_diagonal__square(V<n> v)
{
    M<n, n> I = M<n, n>::identity();
    M<n, n> D = M<n, n>::diagonal(v);
    for (Uint32 r = 0; r < n; ++r)
        for (Uint32 c = 0; c < n; ++c)
        {
            equal(I(r, c), r == c ? 1.f : 0.f);
            equal(D(r, c), r == c ? v[r] : 0.f);
        }
}
inline void law_unit_vectors__all()
{
    equal(Vec2::i(), Vec2{1.f, 0.f});
    equal(Vec2::j(), Vec2{0.f, 1.f});
    equal(Vec3::i(), Vec3{1.f, 0.f, 0.f});
    equal(Vec3::j(), Vec3{0.f, 1.f, 0.f});
    equal(Vec3::k(), Vec3{0.f, 0.f, 1.f});
    equal(Vec4::i(), Vec4{1.f, 0.f, 0.f, 0.f});
    equal(Vec4::j(), Vec4{0.f, 1.f, 0.f, 0.f});
    equal(Vec4::k(), Vec4{0.f, 0.f, 1.f, 0.f});
    equal(Vec4::w(), Vec4{0.f, 0.f, 0.f, 1.f});
}

// ----------------------------------------------------------- elementwise
template <Uint32 m, Uint32 n>
void law_add_subtract__elementwise(M<m, n> a, M<m, n> b)
{
    M<m, n> s = a + b, d = a - b, ng = -a, ps = +a;
    M<m, n> x = a, y = a;
    equal(x += b, s);
    equal(y -= b, d);
    for (Uint32 i = 0; i < m * n; ++i)
    {
        equal(s[i], a[i] + b[i]);
        equal(d[i], a[i] - b[i]);
        equal(ng[i], -a[i]);
        equal(ps[i], a[i]);
        equal(x[i], a[i] + b[i]);
        equal(y[i], a[i] - b[i]);
    }
}
template <Uint32 m, Uint32 n>
void law_scale__elementwise(M<m, n> a, float s)
{
    M<m, n> l = s * a, r = a * s;
    M<m, n> x = a;
    x *= s;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        equal(l[i], s * a[i]);
        equal(r[i], s * a[i]);
        equal(x[i], s * a[i]);
    }
}
template <Uint32 m, Uint32 n>
void law_divide__elementwise(M<m, n> a, float s)
{
    given(s != 0.f);
    M<m, n> q = a / s;
    M<m, n> y = a;
    y /= s;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        equal(q[i] * s, a[i]);
        equal(y[i] * s, a[i]);
    }
}
// an operand may be the object itself
template <Uint32 m, Uint32 n>
void law_aliasing__self(M<m, n> a)
{
    M<m, n> x = a, y = a;
    x += x;
    y -= y;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        equal(x[i], 2.f * a[i]);
        equal(y[i], 0.f);
    }
}
// an operand may be an element of the object itself
template <Uint32 m, Uint32 n>
void law_aliasing__element(M<m, n> a)
{
    M<m, n> x = a;
    x *= x[0];
    for (Uint32 i = 0; i < m * n; ++i)
        equal(x[i], a[0] * a[i]);
}
template <Uint32 m, Uint32 n>
void law_aliasing__divided_by_element(M<m, n> a)
{
    given(a[0] != 0.f);
    M<m, n> x = a;
    x /= x[0];
    for (Uint32 i = 0; i < m * n; ++i)
        equal(x[i] * a[0], a[i]);
}
// whole numbers: the quotient of each element is rounded towards zero on its own
template <Uint32 m, Uint32 n>
void law_integers__elementwise(Matrix<int, m, n> a, Matrix<int, m, n> b, int s)
{
    Matrix<int, m, n> sum = a + b, difference = a - b, x = a, y = a;
    Matrix<int, m, n> product = a * s, same = s * a;
    x *= s;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        equal(sum[i], a[i] + b[i]);
        equal(difference[i], a[i] - b[i]);
        equal(product[i], a[i] * s);
        equal(same[i], a[i] * s);
        equal(x[i], a[i] * s);
    }
    given(s != 0);
    Matrix<int, m, n> quotient = a / s;
    y /= s;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        equal(quotient[i], a[i] / s);
        equal(y[i], a[i] / s);
    }
}

// --------------------------------------------------------------- product
template <Uint32 m, Uint32 k, Uint32 n>
void law_product__rows_times_columns(M<m, k> a, M<k, n> b)
{
    M<m, n> p = a * b;
    for (Uint32 r = 0; r < m; ++r)
        for (Uint32 c = 0; c < n; ++c)
        {
            float sum = 0.f;
            for (Uint32 i = 0; i < k; ++i)
                sum += a(r, i) * b(i, c);
            equal(p(r, c), sum);
        }
}

// --------------------------------------------------------------- vectors
template <Uint32 n>
void law_dot_norm__sum(V<n> a, V<n> b)
{
    float d = 0.f, s = 0.f;
    for (Uint32 i = 0; i < n; ++i)
    {
        d += a[i] * b[i];
        s += a[i] * a[i];
    }
    equal(dot(a, b), d);
    equal(normSquared(a), s);
    equal(norm(a) * norm(a), s);
    atLeastZero(norm(a));
    V<n> e = elementWiseMul(a, b);
    for (Uint32 i = 0; i < n; ++i)
        equal(e[i], a[i] * b[i]);
}
template <Uint32 n>
void law_normalized__unit(V<n> a)
{
    given(norm(a) != 0.f);
    V<n> u = normalized(a);
    equal(normSquared(u), 1.f);
    for (Uint32 i = 0; i < n; ++i)
        equal(u[i] * norm(a), a[i]);
}
template <Uint32 n>
void law_projection__along(V<n> a, V<n> b)
{
    given(normSquared(b) != 0.f);
    V<n> p = projection(a, b);
    float d = 0.f, s = 0.f;
    for (Uint32 i = 0; i < n; ++i)
    {
        d += a[i] * b[i];
        s += b[i] * b[i];
    }
    for (Uint32 i = 0; i < n; ++i)
        equal(p[i] * s, d * b[i]);
}
inline void law_cross__two(Vec2 a, Vec2 b) { equal(cross(a, b), a[0] * b[1] - a[1] * b[0]); }
inline void law_cross__three(Vec3 a, Vec3 b)
{
    Vec3 c = cross(a, b);
    equal(c[0], a[1] * b[2] - a[2] * b[1]);
    equal(c[1], a[2] * b[0] - a[0] * b[2]);
    equal(c[2], a[0] * b[1] - a[1] * b[0]);
}
inline void law_perp__quarter_turn(Vec2 v)
{
    equal(perp(v), Vec2{-v[1], v[0]});
    equal(perp(v, false), Vec2{-v[1], v[0]});
    equal(perp(v, true), Vec2{v[1], -v[0]});
}

// ------------------------------------------------------------ comparisons
template <Uint32 m, Uint32 n>
void law_compare__elementwise(M<m, n> a, M<m, n> b)
{
    auto eq = a == b;
    auto ne = a != b;
    auto lt = a < b;
    auto le = a <= b;
    auto gt = a > b;
    auto ge = a >= b;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        holds(eq[i] == (a[i] == b[i]));
        holds(ne[i] == (a[i] != b[i]));
        holds(lt[i] == (a[i] < b[i]));
        holds(le[i] == (a[i] <= b[i]));
        holds(gt[i] == (a[i] > b[i]));
        holds(ge[i] == (a[i] >= b[i]));
    }
}
template <Uint32 m, Uint32 n>
void law_all_any__elementwise(ComparisonMatrix<m, n> a, ComparisonMatrix<m, n> b)
{
    bool all_ = true, any_ = false;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        all_ = all_ && a[i];
        any_ = any_ || a[i];
    }
    holds(all(a) == all_);
    holds(any(a) == any_);
    auto x = a && b;
    auto y = a || b;
    auto z = !a;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        holds(x[i] == (a[i] && b[i]));
        holds(y[i] == (a[i] || b[i]));
        holds(z[i] == !a[i]);
    }
}
template <Uint32 m, Uint32 n>
void law_all_any__one(ComparisonMatrix<m, n> a)
{
    bool all_ = true, any_ = false;
    for (Uint32 i = 0; i < m * n; ++i)
    {
        all_ = all_ && a[i];
        any_ = any_ || a[i];
    }
    holds(all(a) == all_);
    holds(any(a) == any_);
}
template <Uint32 m, Uint32 n>
void law_min_max_abs__elementwise(M<m, n> a, M<m, n> b)
{
    auto lo = std::min(a, b);
    auto hi = std::max(a, b);
    auto mag = std::abs(a);
    for (Uint32 i = 0; i < m * n; ++i)
    {
        equal(lo[i], a[i] < b[i] ? a[i] : b[i]);
        equal(hi[i], a[i] < b[i] ? b[i] : a[i]);
        equal(mag[i], a[i] < 0.f ? -a[i] : a[i]);
    }
}
template <Uint32 m, Uint32 n>
void law_round__elementwise(M<m, n> a)
{
    auto r = std::round(a);
    for (Uint32 i = 0; i < m * n; ++i)
        equal(r[i], std::round(a[i]));
}

template <Uint32 m, Uint32 n>
void all_sizes()
{
    M<m, n> a{};
    law_layout__index<m, n>(a);
    law_rows_columns__round_trip<m, n>(a);
    law_transpose__swaps<m, n>(a);
    law_filled__everywhere<m, n>(0.f);
    law_add_subtract__elementwise<m, n>(a, a);
    law_scale__elementwise<m, n>(a, 0.f);
    law_divide__elementwise<m, n>(a, 0.f);
    law_aliasing__self<m, n>(a);
    law_compare__elementwise<m, n>(a, a);
    ComparisonMatrix<m, n> c;
    if constexpr (m * n <= 4)
        law_all_any__elementwise<m, n>(c, c);
    else if constexpr (m * n <= 6)
        law_all_any__one<m, n>(c);
    law_min_max_abs__elementwise<m, n>(a, a);
    law_round__elementwise<m, n>(a);
}
inline void instances()
{
    all_sizes<2, 1>();
    all_sizes<3, 1>();
    all_sizes<1, 3>();
    all_sizes<2, 2>();
    all_sizes<2, 3>();
    all_sizes<3, 2>();
    all_sizes<3, 3>();
    law_aliasing__element<2, 1>(M<2, 1>{});
    law_aliasing__element<2, 2>(M<2, 2>{});
    law_aliasing__divided_by_element<2, 1>(M<2, 1>{});
    law_aliasing__divided_by_element<2, 2>(M<2, 2>{});
    law_integers__elementwise<2, 1>(Matrix<int, 2, 1>{}, Matrix<int, 2, 1>{}, 0);
    law_integers__elementwise<2, 2>(Matrix<int, 2, 2>{}, Matrix<int, 2, 2>{}, 0);
    law_identity_diagonal__square<1>(V<1>{});
    law_identity_diagonal__square<2>(V<2>{});
    law_identity_diagonal__square<3>(V<3>{});
    law_identity_diagonal__square<4>(V<4>{});
    law_product__rows_times_columns<1, 1, 1>(M<1, 1>{}, M<1, 1>{});
    law_product__rows_times_columns<2, 2, 1>(M<2, 2>{}, M<2, 1>{});
    law_product__rows_times_columns<3, 3, 1>(M<3, 3>{}, M<3, 1>{});
    law_product__rows_times_columns<2, 2, 2>(M<2, 2>{}, M<2, 2>{});
    law_product__rows_times_columns<3, 3, 3>(M<3, 3>{}, M<3, 3>{});
    law_product__rows_times_columns<2, 3, 4>(M<2, 3>{}, M<3, 4>{});
    law_product__rows_times_columns<4, 2, 3>(M<4, 2>{}, M<2, 3>{});
    law_product__rows_times_columns<1, 3, 2>(M<1, 3>{}, M<3, 2>{});
    law_product__rows_times_columns<3, 1, 3>(M<3, 1>{}, M<1, 3>{});
    law_dot_norm__sum<2>(V<2>{}, V<2>{});
    law_dot_norm__sum<3>(V<3>{}, V<3>{});
    law_dot_norm__sum<4>(V<4>{}, V<4>{});
    law_normalized__unit<2>(V<2>{});
    law_normalized__unit<3>(V<3>{});
    law_projection__along<2>(V<2>{}, V<2>{});
    law_projection__along<3>(V<3>{}, V<3>{});
}
} // namespace laws
