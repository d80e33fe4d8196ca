"""bugs written from the statements, whatever check is meant to find them"""
I = "include/Simu/physics/Island.hpp"
M = "include/Simu/math/Matrix.inl.hpp"
BI = "include/Simu/physics/Bodies.inl.hpp"
BS = "include/Simu/physics/Bodies.hpp"
T = "include/Simu/physics/Transform.hpp"
CASES = [
 ("C06", "bug", "mix-refresh-contacts", [(I, """        for (ContactConstraint* c : contacts_)
            c->bodies().startSolve(
                positions_.data(),
                velocities_.data()
            ); // refresh proxy pointers
""", "")]),
 ("C06", "bug", "mix-refresh-if", [(I, """    void refreshProxies()
    {""", """    void refreshProxies()
    {
        if (bodies_.size() <= 2)
            return;
""")]),
 ("C07", "bug", "mix-pop-order", [(I, """            if (added2)
            {
                b[1]->proxyIndex = index2;
                bodies_.pop_back();
                positions_.pop_back();
                velocities_.pop_back();
            }
""", """            if (added2)
            {
                b[1]->proxyIndex = index2;
                bodies_.pop_back();
                positions_.pop_back();
            }
""")]),
 ("C07", "bug", "mix-index-kept", [(I, """            if (added1)
            {
                b[0]->proxyIndex = index1;""", """            if (added1)
            {
                b[0]->proxyIndex = added2 ? index1 : b[0]->proxyIndex;""")]),
 ("C11", "bug", "mix-scalar-ref", [("include/Simu/math/Matrix.hpp", "inline Matrix& operator/=(U scalar);", "inline Matrix& operator/=(const U& scalar);"), (M, """Matrix<T, m, n>& Matrix<T, m, n>::operator/=(U scalar)""", """Matrix<T, m, n>& Matrix<T, m, n>::operator/=(const U& scalar)""")]),
 ("C11", "bug", "mix-int-div", [(M, """    for (Uint32 i = 0; i < this->size(); ++i)
        this->data[i] /= scalar;
""", """    const T inverse = static_cast<T>(1 / scalar);
    for (Uint32 i = 0; i < this->size(); ++i)
        this->data[i] *= inverse;
""")]),
 ("C12", "bug", "mix-lcp-last", [(M, """        if ((x[1] >= 0.f) && (x[1] * solver.A_(0, 1) - b[0] >= 0))""", """        if ((x[1] >= 0.f) && (x[1] * solver.A_(0, 1) - b[1] >= 0))""")]),
 ("C12", "bug", "mix-ineq-stale", [(M, "for (Uint32 col = row + 1; col < n; ++col)\n                delX += A(row, col) * x[col];", "for (Uint32 col = row + 1; col < n; ++col)\n                delX += A(row, col) * initialGuess[col];")]),
 ("C12", "bug", "mix-lcp-valid", [(M, "solver.isValid_ = solver.isValid() && A(0, 0) != 0.f && A(1, 1) != 0.f;", "solver.isValid_ = solver.isValid() && (A(0, 0) != 0.f || A(1, 1) != 0.f);")]),
 ("C12", "bug", "mix-backsub", [(M, "for (Uint32 col = row; col < n; ++col)\n        {\n            c[row - 1]", "for (Uint32 col = row; col + 1 < n; ++col)\n        {\n            c[row - 1]")]),
 ("C13", "ok", "mix-rot-set", [(T, "        theta_ = theta;\n        cosine = std::cos(theta);", "        if (theta_ == theta)\n            return;\n        theta_ = theta;\n        cosine = std::cos(theta);"), (T, "explicit Rotation(float theta) { set(theta); }", "explicit Rotation(float theta) : theta_{0.f}, cosine{1.f}, sine{0.f} { set(theta); }")]),
]
