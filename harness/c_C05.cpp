// C05: vector and matrix algebra, rotations.
// LIBS: Tools
#include "gens.hh"
#include "ThreeMatrix.hh"
using namespace pbt;

typedef std::array<std::array<long double, 3>, 3> M3;
static M3 read(const ThreeMatrix& m) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = m[i][j]; return r; }
static ThreeMatrix make(const M3& m) { ThreeMatrix r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = (double)m[i][j]; return r; }
static M3 mul(const M3& a, const M3& b) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[i][j] = 0; for (int k = 0; k < 3; k++) r[i][j] += a[i][k] * b[k][j]; } return r; }
static V3 mul(const M3& a, V3 v) { long double o[3]; for (int i = 0; i < 3; i++) { o[i] = 0; for (int k = 0; k < 3; k++) o[i] += a[i][k] * v[k]; } return {o[0], o[1], o[2]}; }
// Leibniz formula over all permutations
static long double det(const M3& a)
{
    static const int p[6][4] = {{0,1,2,1},{1,2,0,1},{2,0,1,1},{0,2,1,-1},{1,0,2,-1},{2,1,0,-1}};
    long double s = 0;
    for (auto& q : p) s += q[3] * a[0][q[0]] * a[1][q[1]] * a[2][q[2]];
    return s;
}
static long double big(const M3& a) { long double m = 0; for (auto& r : a) for (auto v : r) m = std::max(m, std::fabs(v)); return m; }

PROPERTY(vector_operators, 100000, 5000000, "two vectors that differ and have more than one non-zero component")
{
    V3 a = gen::vec(g), b = gen::vec(g);
    double s = gen::wide(g);
    ThreeVector A = a.tv(), B = b.tv();
    a = V3(A); b = V3(B);
    g.note("a", str(a)); g.note("b", str(b)); g.note("s", s);
    if (dot(a - b, a - b) > 0 && mag(cross(a, V3(1, 0, 0))) > 0 && mag(b) > 0) g.nontrivial();
    auto each = [&](const ThreeVector& got, std::function<long double(int)> want, const char* what) {
        for (int i = 0; i < 3; i++)
        {
            long double w = want(i);
            if (std::isnan((double)w)) { require(std::isnan(got[i]), what, " component ", i, " should be NaN"); continue; }
            require(near(got[i], (double)w, 1e-14), what, ": component ", i, " is ", got[i], ", expected ", (double)w);
        }
    };
    each(A + B, [&](int i) { return (long double)((double)a[i] + (double)b[i]); }, "a+b");
    each(A - B, [&](int i) { return (long double)((double)a[i] - (double)b[i]); }, "a-b");
    each(A * B, [&](int i) { return a[i] * b[i]; }, "a*b");
    each(A + s, [&](int i) { return (long double)((double)a[i] + s); }, "a+s");
    each(s + A, [&](int i) { return (long double)((double)a[i] + s); }, "s+a");
    each(A - s, [&](int i) { return (long double)((double)a[i] - s); }, "a-s");
    each(s - A, [&](int i) { return (long double)(s - (double)a[i]); }, "s-a");
    each(A * s, [&](int i) { return a[i] * s; }, "a*s");
    each(s * A, [&](int i) { return a[i] * s; }, "s*a");
    if (s != 0) each(A / s, [&](int i) { return a[i] / s; }, "a/s");
    if (b.x != 0 && b.y != 0 && b.z != 0)
    {
        each(A / B, [&](int i) { return a[i] / b[i]; }, "a/b");
        each(s / B, [&](int i) { return s / b[i]; }, "s/b");
    }
    require(near(A.Dot(B), (double)dot(a, b), 1e-14, 1e-14 * (double)(mag(a) * mag(b))), "dot product ", A.Dot(B), " expected ", (double)dot(a, b));
    requireV(A.Cross(B), cross(a, b), 1e-14, 4e-15L * mag(a) * mag(b), "cross product");
    requireV(B.Cross(A), -1.0L * cross(a, b), 1e-14, 4e-15L * mag(a) * mag(b), "reversed cross product");
    require(near(A.Mag2(), (double)dot(a, a), 1e-14), "Mag2 ", A.Mag2());
    require(near(A.Mag(), (double)mag(a), 1e-14), "Mag ", A.Mag());
    if (mag(a) > 0) requireV(A.Norm(), unit(a), 1e-14, 0, "Norm");
    if (mag(a - b) > 1e-3L * mag(a))
        requireV(A.Direction(B), unit(b - a), 1e-11, 0, "direction from a to b");
    ThreeVector C; C = A; C = C;
    ThreeVector D(C);
    requireV(D, a, 0, 0, "copy");
    D[0] = s; D[1] = 2; D[2] = 3;
    requireV(C, a, 0, 0, "copy after its source changed");
    requireV(ThreeVector(), V3(), 0, 0, "default vector");
}

// length and direction are defined for every finite vector, however small or large its square
PROPERTY(length_of_any_vector, 100000, 5000000, "a vector whose square underflows or overflows")
{
    int e = (int)g.integer(-300, 300);
    long double scale = std::pow(10.0L, (long double)e);
    V3 a((gen::direction(g) * (scale * g.real(1, 9))).tv());
    if (g.chance(20)) a.x = 0;
    if (g.chance(20)) a.y = 0;
    g.note("a", str(a));
    if (mag(a) == 0) return;
    if (std::abs(e) > 160) g.nontrivial();
    ThreeVector A = a.tv();
    require(near(A.Mag(), (double)mag(a), 1e-14), "length ", A.Mag(), " expected ", (double)mag(a));
    requireV(A.Norm(), unit(a), 1e-14, 0, "unit vector");
    V3 b((gen::direction(g) * scale).tv());
    if (mag(a - b) > 1e-3L * mag(a)) requireV(A.Direction(b.tv()), unit(b - a), 1e-11, 0, "direction from a to b");
    if (mag(unit(a) + unit(b)) > 1e-2L) requireV(A.RotateToAxis(b.tv()) * unit(a).tv(), unit(b), 1e-9, 0, "rotation of a onto b");
}

PROPERTY(matrix_algebra, 100000, 5000000, "a matrix that is neither zero nor diagonal")
{
    M3 a, b;
    double scale = g.logu(1e-6, 1e6);
    for (auto& r : a) for (auto& v : r) v = (double)(g.chance(15) ? 0 : g.sreal(1) * scale);
    for (auto& r : b) for (auto& v : r) v = (double)(g.chance(15) ? 0 : g.sreal(1));
    if (g.chance(30)) for (int i = 0; i < 3; i++) a[i][i] += (double)(2 * scale);
    double s = gen::wide(g);
    a = read(make(a)); b = read(make(b));
    for (int i = 0; i < 3; i++) g.note(cat("row", i), str(V3(a[i][0], a[i][1], a[i][2])));
    if (std::fabs(a[0][1]) + std::fabs(a[0][2]) + std::fabs(a[1][0]) + std::fabs(a[1][2]) + std::fabs(a[2][0]) + std::fabs(a[2][1]) > 0) g.nontrivial();
    ThreeMatrix A = make(a), B = make(b);
    long double mA = big(a), mB = big(b);
    M3 sum = read(A + B), prod = read(A * B), sc = read(A * s), p = mul(a, b);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
    {
        require(near((double)sum[i][j], (double)((double)a[i][j] + (double)b[i][j]), 1e-14), "sum at ", i, j);
        require(near((double)prod[i][j], (double)p[i][j], 1e-14, 1e-14 * (double)(mA * mB)), "product at ", i, ",", j, " is ", (double)prod[i][j], " expected ", (double)p[i][j]);
        require(near((double)sc[i][j], (double)(a[i][j] * s), 1e-14), "scaled at ", i, j);
    }
    V3 v(g.sreal(2), g.sreal(2), g.sreal(2));
    requireV(A * v.tv(), mul(a, V3(v.tv())), 1e-14, 1e-13L * mA, "matrix times vector");
    long double d = det(a);
    require(near(A.Determinant(), (double)d, 1e-13, 1e-13 * (double)(mA * mA * mA)), "determinant ", A.Determinant(), " expected ", (double)d);
    if (mA > 0 && std::fabs(d) > 1e-3L * mA * mA * mA)
    {
        g.label("invertible");
        M3 inv = read(A.Inverse());
        M3 one = mul(a, inv), one2 = mul(inv, a);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
        {
            require(std::fabs(one[i][j] - (i == j)) < 1e-9, "A*inverse at ", i, ",", j, " is ", (double)one[i][j]);
            require(std::fabs(one2[i][j] - (i == j)) < 1e-9, "inverse*A at ", i, ",", j, " is ", (double)one2[i][j]);
        }
    }
    ThreeMatrix C(A);
    C[1][2] = 5;
    require(read(A)[1][2] == a[1][2], "copy shares data with its source");
    C.Zeros();
    require(big(read(C)) == 0, "Zeros leaves something");
    C.Ideneity();
    M3 id = read(C);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) require(id[i][j] == (i == j), "identity at ", i, j);
}

PROPERTY(rotation_between_directions, 100000, 5000000, "directions that are not the same axis")
{
    V3 a = gen::direction(g), b;
    switch (g.draw(5))
    {
        case 0: b = gen::direction(g); break;
        case 1: b = gen::direction(g); break;
        case 2: b = a; g.label("parallel"); break;
        case 3: b = -1.0L * a; g.label("anti-parallel"); break;
        case 4: case 5:
        {
            // nearly anti-parallel or nearly parallel
            long double t = g.logu(1e-9, 1e-2), p = g.real(0, 6.283185307179586);
            V3 u = perp(a), w = cross(a, u), s = std::cos(p) * u + std::sin(p) * w;
            b = g.coin() ? std::cos(t) * a + std::sin(t) * s : std::sin(t) * s - std::cos(t) * a;
            g.label("nearly (anti-)parallel");
        }
    }
    double la = g.chance(50) ? 1.0 : g.logu(1e-6, 1e6), lb = g.chance(50) ? 1.0 : g.logu(1e-6, 1e6);
    ThreeVector A = (a * la).tv(), B = (b * lb).tv();
    V3 ua = unit(V3(A)), ub = unit(V3(B));
    g.note("from", str(V3(A))); g.note("to", str(V3(B)));
    if (mag(ua - ub) > 1e-12L) g.nontrivial();
    M3 r = read(A.RotateToAxis(B));
    // close to anti-parallel the rotation is ill-conditioned in its arguments
    long double delta = mag(ua + ub);
    long double tol = std::min(std::max(1e-12L, 1e-14L / (delta * delta)), 4e-5L);
    if (delta < 1e-14L) tol = 1e-12L;      // exactly anti-parallel
    V3 m = mul(r, ua);
    require(mag(m - ub) <= tol, "rotated direction is ", str(m), ", expected ", str(ub), " (off by ", (double)mag(m - ub), ")");
    M3 rt;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) rt[i][j] = r[j][i];
    M3 one = mul(r, rt);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
        require(std::fabs(one[i][j] - (i == j)) <= 3 * tol, "not orthogonal: R*R^T at ", i, ",", j, " is ", (double)one[i][j]);
    require(std::fabs(det(r) - 1) <= 6 * tol, "determinant is ", (double)det(r));
    V3 n = cross(ua, ub);
    if (mag(n) > 1e-3L)
    {
        n = unit(n);
        require(mag(mul(r, n) - n) <= 3 * tol + 1e-11L, "the common normal ", str(n), " moves to ", str(mul(r, n)));
    }
    if (mag(ua - ub) < 1e-14L)
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
            require(std::fabs(r[i][j] - (i == j)) <= 1e-12L, "rotation onto itself is not the identity");
}

PBT_MAIN
