// link: base
#include <math_physics/math/constants.hpp>
#include <math_physics/math/matrix_vector.hpp>
#include <math_physics/math/s2e_math.hpp>
#include "s2e_ref.hpp"
using namespace s2e_ref;
using pbt::Case;
namespace sm = s2e::math;
using namespace ref;

static V3 AnyVec(Case& c, double lo = 1e-6, double hi = 1e8) { return c.LogReal(lo, hi) * c.Dir(); }

static void Vectors(Case& c) {
  const bool extreme = c.Chance(0.25);
  const double lo = extreme ? 1e-60 : 1e-6, hi = extreme ? 1e60 : 1e8;
  const V3 a = AnyVec(c, lo, hi);
  V3 b;
  const int kind = (int)c.Int(0, 5);
  const double mag = Norm(a);
  if (kind == 0) b = c.LogReal(1e-3, 1e3) * a, c.Label("parallel");
  else if (kind == 1) b = -c.LogReal(1e-3, 1e3) * a, c.Label("antiparallel");
  else if (kind == 2) b = a + (mag * c.LogReal(1e-12, 1e-2)) * c.Dir(), c.Label("nearly parallel");
  else b = AnyVec(c, lo, hi);
  const double s = c.Signed(1e-3, 1e3);
  c.Note("a=", Str(a), " b=", Str(b), " s=", s);
  c.NonTrivial();
  const auto A = S(a), B = S(b);
  const double na = Norm(a), nb = Norm(b);
  Near3(c, R(A + B), a + b, 0, 1e-14, "sum");
  Near3(c, R(A - B), a - b, 0, 1e-14, "difference");
  Near3(c, R(s * A), s * a, 0, 1e-14, "scale");
  Near3(c, R(-A), -a, 0, 0, "negate");
  auto t = A;
  t += B;
  Near3(c, R(t), a + b, 0, 1e-14, "plus-assign");
  t = A;
  t -= B;
  Near3(c, R(t), a - b, 0, 1e-14, "minus-assign");
  t = A;
  t *= s;
  Near3(c, R(t), s * a, 0, 1e-14, "times-assign");
  t = A;
  t /= s;
  Near3(c, R(t), a / s, 0, 1e-13, "divide-assign");
  c.Near(sm::InnerProduct(A, B), Dot(a, b), 1e-13 * na * nb, 0, "inner");
  Near3(c, R(sm::OuterProduct(A, B)), Cross(a, b), 1e-13 * na * nb, 0, "outer");
  c.Near(A.CalcNorm(), na, 0, 1e-13, "norm");
  Near3(c, R(A.CalcNormalizedVector()), a / na, 1e-13, 0, "normalize");
  sm::Vector<3> zero(0.0);
  Near3(c, R(zero.CalcNormalizedVector()), V3{0, 0, 0}, 0, 0, "normalize-zero");
  c.Check(A.GetLength() == 3, "length");
  // angle: finite for all directions, correct
  const double ang = sm::CalcAngleTwoVectors_rad(A, B);
  c.Check(std::isfinite(ang), "angle-finite", "angle between ", Str(a), " and ", Str(b), " is ", ang);
  c.Near(ang, Angle(a, b), 5e-8, 1e-9, "angle");
  // polar coordinates
  const V3 p = R(sm::ConvertFrameOrthogonal2Polar(A));
  c.Check(p[1] >= 0 && p[1] <= M_PI + 1e-12 && p[2] >= 0 && p[2] <= 2 * M_PI + 1e-12, "polar-range", Str(p));
  Near3(c, {p[0] * sin(p[1]) * cos(p[2]), p[0] * sin(p[1]) * sin(p[2]), p[0] * cos(p[1])}, a, 3e-8 * na, 0, "polar");
  const V3 o = R(sm::GenerateOrthogonalUnitVector(A));
  c.Near(Norm(o), 1, 1e-12, 0, "orthogonal-unit");
  c.Near(Dot(o, a) / na, 0, 1e-12, 0, "orthogonal");
  // bounds-checked access
  c.Near(A((size_t)1), a[1], 0, 0, "access");
  bool thrown = false;
  try {
    sm::Vector<3> cp = A;
    cp((size_t)c.Int(3, 9)) = 1.0;
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  c.Check(thrown, "access-range");
  sm::Vector<3, int> whole;
  double whole2 = 0;
  for (int i = 0; i < 3; i++) whole[i] = (int)c.Int(-9, 9), whole2 += whole[i] * whole[i];
  const auto wn = whole.CalcNormalizedVector();
  for (int i = 0; i < 3; i++) c.Near(wn[i], whole2 == 0 ? 0.0 : whole[i] / std::sqrt(whole2), 1e-14, 0, "normalize-integers");
  c.Near(whole.CalcNorm(), std::sqrt(whole2), 1e-13, 0, "norm-integers");
  sm::Vector<7> w;
  double sum2 = 0, in = 0;
  sm::Vector<7> u;
  for (int i = 0; i < 7; i++) {
    w[i] = c.Real(-5, 5);
    u[i] = c.Real(-5, 5);
    sum2 += w[i] * w[i];
    in += w[i] * u[i];
  }
  c.Near(w.CalcNorm(), std::sqrt(sum2), 1e-12, 1e-12, "norm7");
  c.Near(sm::InnerProduct(w, u), in, 1e-11, 1e-12, "inner7");
  w.FillUp(s);
  for (int i = 0; i < 7; i++) c.Near(w[i], s, 0, 0, "fill");
}

template <size_t N>
static void MatN(Case& c) {
  sm::Matrix<N, N> a, b;
  double A[N][N], B[N][N];
  const int kind = (int)c.Int(0, 4);
  const double unit = kind == 4 ? std::pow(10.0, (double)c.Int(-40, 40)) : 1;
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < N; j++) {
      double v = unit * c.Real(-1, 1);
      if (kind == 1 && c.Chance(0.6)) v = 0;
      if (kind == 2) v *= std::pow(10.0, (double)c.Int(-4, 4));
      a[i][j] = A[i][j] = v;
      b[i][j] = B[i][j] = c.Real(-1, 1);
    }
  if (kind == 1) {  // permuted dominant entries keep it invertible and force pivoting
    size_t perm[N];
    for (size_t i = 0; i < N; i++) perm[i] = i;
    for (size_t i = N; i-- > 1;) std::swap(perm[i], perm[(size_t)c.Int(0, (int64_t)i)]);
    for (size_t i = 0; i < N; i++) a[i][perm[i]] = A[i][perm[i]] = (c.Bool() ? 1 : -1) * c.Real(2.0 * N, 4.0 * N);
    c.Label("pivoting");
  }
  const auto prod = a * b;
  const auto at = a.Transpose();
  double tr = 0;
  for (size_t i = 0; i < N; i++) {
    tr += A[i][i];
    for (size_t j = 0; j < N; j++) {
      double s = 0, m = 0;
      for (size_t k = 0; k < N; k++) s += A[i][k] * B[k][j], m += std::fabs(A[i][k] * B[k][j]);
      c.Near(prod[i][j], s, 1e-14 * unit + 1e-13 * m, 0, "product");
      c.Near(at[i][j], A[j][i], 0, 0, "transpose");
      c.Near((a + b)[i][j], A[i][j] + B[i][j], 0, 1e-14, "sum");
      c.Near((a - b)[i][j], A[i][j] - B[i][j], 0, 1e-14, "difference");
      c.Near((2.5 * a)[i][j], 2.5 * A[i][j], 0, 1e-14, "scale");
      auto t = a;
      t += b;
      c.Near(t[i][j], A[i][j] + B[i][j], 0, 1e-14, "plus-assign");
      t = a;
      t -= b;
      c.Near(t[i][j], A[i][j] - B[i][j], 0, 1e-14, "minus-assign");
      t = a;
      t *= 3.0;
      c.Near(t[i][j], 3 * A[i][j], 0, 1e-14, "times-assign");
      t = a;
      t /= 3.0;
      c.Near(t[i][j], A[i][j] / 3, 0, 1e-13, "divide-assign");
    }
  }
  c.Near(a.CalcTrace(), tr, 1e-12 * unit, 1e-12, "trace");
  const auto eye = sm::MakeIdentityMatrix<N>();
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < N; j++) c.Near(eye[i][j], i == j, 0, 0, "identity");
  // matrix times vector
  sm::Vector<N> v;
  for (size_t i = 0; i < N; i++) v[i] = c.Real(-1, 1);
  const auto mv = a * v;
  for (size_t i = 0; i < N; i++) {
    double s = 0, m = 0;
    for (size_t k = 0; k < N; k++) s += A[i][k] * v[k], m += std::fabs(A[i][k] * v[k]);
    c.Near(mv[i], s, 1e-14 * unit + 1e-13 * m, 0, "matrix-vector");
  }
  // condition number (1-norm) from an independent Gauss-Jordan inverse
  double W[N][2 * N];
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < 2 * N; j++) W[i][j] = j < N ? A[i][j] : (j - N == i);
  for (size_t k = 0; k < N; k++) {
    size_t p = k;
    for (size_t i = k; i < N; i++)
      if (std::fabs(W[i][k]) > std::fabs(W[p][k])) p = i;
    if (W[p][k] == 0) return;
    for (size_t j = 0; j < 2 * N; j++) std::swap(W[k][j], W[p][j]);
    const double d = W[k][k];
    for (size_t j = 0; j < 2 * N; j++) W[k][j] /= d;
    for (size_t i = 0; i < N; i++)
      if (i != k) {
        const double f = W[i][k];
        for (size_t j = 0; j < 2 * N; j++) W[i][j] -= f * W[k][j];
      }
  }
  double n1 = 0, n2 = 0, imax = 0;
  for (size_t j = 0; j < N; j++) {
    double s = 0, q = 0;
    for (size_t i = 0; i < N; i++) s += std::fabs(A[i][j]), q += std::fabs(W[i][N + j]), imax = std::max(imax, std::fabs(W[i][N + j]));
    n1 = std::max(n1, s);
    n2 = std::max(n2, q);
  }
  const double cond = n1 * n2;
  if (!(cond < 1e9)) {
    c.Label("ill-conditioned");
    return;
  }
  c.NonTrivial(N > 1);
  c.Note("N=", N, " kind=", kind, " cond=", cond, " a00=", A[0][0]);
  const auto inv = sm::CalcInverseMatrix(a);
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < N; j++) c.Near(inv[i][j], W[i][N + j], 1e-13 * cond * imax, 0, "inverse");
  auto lu = a;
  size_t index[N];
  sm::LuDecomposition(lu, index);
  auto x = v;
  sm::SolveLinearSystemWithLu(lu, index, x);
  for (size_t i = 0; i < N; i++) {
    double s = 0;
    for (size_t k = 0; k < N; k++) s += W[i][N + k] * v[k];
    c.Near(x[i], s, 1e-13 * cond * imax * N, 0, "solve");
  }
}
static void Matrices(Case& c) {
  switch (c.Int(1, 6)) {
    case 1: return MatN<1>(c);
    case 2: return MatN<2>(c);
    case 3: return MatN<3>(c);
    case 4: return MatN<4>(c);
    case 5: return MatN<5>(c);
    default: return MatN<6>(c);
  }
}
template <size_t P, size_t Q, size_t S>
static void Rectangles(Case& c) {
  sm::Matrix<P, Q> a;
  sm::Matrix<Q, S> b;
  sm::Vector<Q> v;
  for (size_t i = 0; i < P; i++)
    for (size_t j = 0; j < Q; j++) a[i][j] = c.Real(-9, 9);
  for (size_t i = 0; i < Q; i++) v[i] = c.Real(-9, 9);
  for (size_t i = 0; i < Q; i++)
    for (size_t j = 0; j < S; j++) b[i][j] = c.Real(-9, 9);
  const auto p = a * b;
  const auto at = a.Transpose();
  const auto av = a * v;
  for (size_t i = 0; i < P; i++) {
    double sv = 0;
    for (size_t k = 0; k < Q; k++) sv += a[i][k] * v[k];
    c.Near(av[i], sv, 1e-11, 0, "matrix-vector-rect");
    for (size_t j = 0; j < S; j++) {
      double s = 0;
      for (size_t k = 0; k < Q; k++) s += a[i][k] * b[k][j];
      c.Near(p[i][j], s, 1e-11, 0, "product-rect");
    }
    for (size_t j = 0; j < Q; j++) c.Near(at[j][i], a[i][j], 0, 0, "transpose-rect");
  }
}
static void Singular(Case& c) {
  sm::Matrix<3, 3> m(0.0);
  const int dead = (int)c.Int(0, 2);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) m[i][j] = i == dead ? 0.0 : (double)c.Int(-3, 3);
  c.NonTrivial();
  c.Note("row ", dead, " zero");
  bool t = false;
  try {
    sm::CalcInverseMatrix(m);
  } catch (const std::invalid_argument&) {
    t = true;
  }
  c.Check(t, "singular-rejected", "a singular matrix was inverted without complaint");
  // non-square shapes
  Rectangles<2, 4, 3>(c);
  Rectangles<1, 5, 1>(c);
  Rectangles<5, 1, 4>(c);
  Rectangles<3, 4, 2>(c);
  Rectangles<4, 6, 2>(c);
  Rectangles<6, 2, 3>(c);
  sm::Matrix<2, 4> a(0.0);
  c.Check(a.GetRowLength() == 2 && a.GetColumnLength() == 4, "shape");
  t = false;
  try {
    a((size_t)c.Int(2, 5), 0) = 0;
  } catch (const std::invalid_argument&) {
    t = true;
  }
  c.Check(t, "matrix-range");
}

static double AnyAngle(Case& c) {
  if (c.Chance(0.25)) return c.Of<double>({0.0, M_PI / 2, -M_PI / 2, M_PI, -M_PI, 3 * M_PI / 2, M_PI / 4, 1e-9, -1e-9, 2 * M_PI, M_PI - 1e-9, M_PI / 2 - 1e-9});
  return c.Real(-2 * M_PI, 2 * M_PI);
}
static void Quaternions(Case& c) {
  Q4 q = c.Quat();
  const Q4 p = c.Quat();
  if (c.Chance(0.1)) {  // pitch of a quarter turn, up to rounding
    q = Mul(Mul(AxisAngle({0, 0, 1}, c.Real(-3, 3)), AxisAngle({0, 1, 0}, c.Of<double>({M_PI / 2, -M_PI / 2}))), AxisAngle({1, 0, 0}, c.Real(-3, 3)));
    c.Label("pitch of 90 deg");
  }
  const V3 v = c.LogReal(1e-3, 1e8) * c.Dir();
  const double n = Norm(v);
  c.Note("q=", Str(q), " p=", Str(p), " v=", Str(v));
  c.NonTrivial(q[3] < 1);
  const auto SQ = S(q), SP = S(p);
  const auto sv = S(v);
  const V3 f = R(SQ.FrameConversion(sv));
  Near3(c, f, ToFrame(q, v), 1e-13 * n, 0, "frame-conversion");
  Near3(c, R(SQ.InverseFrameConversion(sv)), Rotate(q, v), 1e-13 * n, 0, "inverse-frame-conversion");
  Near3(c, R(SQ.InverseFrameConversion(S(f))), v, 1e-12 * n, 0, "conversion-round-trip");
  Near3(c, R(SQ.ConvertToDcm() * sv), f, 1e-12 * n, 0, "dcm");
  ProperRotation(c, R(SQ.ConvertToDcm()), 1e-12, "dcm-proper");
  const auto back = R(sm::Quaternion::ConvertFromDcm(SQ.ConvertToDcm()));
  NearAttitude(c, back, q, 1e-7, "dcm-round-trip", "from DCM");
  Near3(c, ToFrame(back, v), f, 1e-7 * n, 0, "dcm-round-trip-vector");
  const auto qp = SQ * SP;
  NearAttitude(c, R(qp), Mul(q, p), 1e-7, "product");
  c.NearVec(R(qp), Mul(q, p), 4, 1e-14, "product-elements");
  Near3(c, R(qp.FrameConversion(sv)), R(SP.FrameConversion(SQ.FrameConversion(sv))), 1e-12 * n, 0, "product-composes");
  c.NearVec(R(SQ.Conjugate()), Conj(q), 4, 0, "conjugate");
  const auto one = R(SQ * SQ.Conjugate());
  c.NearVec(one, Q4{0, 0, 0, 1}, 4, 1e-14, "inverse");
  c.NearVec(R(SQ * sv), Mul(q, Q4{v[0], v[1], v[2], 0}), 4, 1e-13 * n, "quaternion-vector");
  for (int i = 0; i < 4; i++) {
    c.Near((SQ + SP)[i], q[i] + p[i], 1e-15, 0, "add");
    c.Near((SQ - SP)[i], q[i] - p[i], 1e-15, 0, "subtract");
    c.Near((2.5 * SQ)[i], 2.5 * q[i], 1e-15, 0, "scale");
  }
  // normalisation
  const double k = c.Signed(1e-20, 1e20);
  auto sc = k * SQ;
  const auto nn = R(sc.Normalize());
  const double sg = k < 0 ? -1 : 1;
  c.NearVec(nn, Q4{sg * q[0], sg * q[1], sg * q[2], sg * q[3]}, 4, 1e-13, "normalize");
  c.NearVec(R(sc), nn, 4, 0, "normalize-in-place");
  // Euler angles (3-2-1)
  const V3 e = R(SQ.ConvertToEuler());
  c.Check(std::fabs(e[0]) <= M_PI + 1e-12 && std::fabs(e[1]) <= M_PI / 2 + 1e-12 && std::fabs(e[2]) <= M_PI + 1e-12, "euler-range", Str(e));
  const M3 D = Dcm(q);
  const double gimbal = std::sqrt(D[1][2] * D[1][2] + D[2][2] * D[2][2]);
  if (gimbal < 1e-6) c.Label("gimbal lock");
  // near a pitch of 90 degrees the roll and yaw angles lose accuracy, or only one of them is significant
  const M3 E = Rx(e[0]) * Ry(e[1]) * Rz(e[2]);
  Near3(c, E * v, f, (1e-12 + (gimbal > 1e-6 ? 1e-14 / gimbal : 3e-8)) * n * 10, 0, gimbal > 1e-6 ? "euler" : "gimbal-lock", "3-2-1 Euler angles");
  const auto eq = R(sm::Quaternion::ConvertFromEuler(S(e)));
  NearAttitude(c, eq, q, gimbal > 1e-6 ? 1e-7 : 1e-6, "euler-round-trip");
  const V3 ea{AnyAngle(c), AnyAngle(c), AnyAngle(c)};
  const auto fe = sm::Quaternion::ConvertFromEuler(S(ea));
  Near3(c, R(fe.FrameConversion(sv)), Rx(ea[0]) * (Ry(ea[1]) * (Rz(ea[2]) * v)), 1e-7 * n, 0, "from-euler", Str(ea));
}
static void AxisAngleFacet(Case& c) {
  const V3 ax = c.Dir(), v = c.LogReal(1e-3, 1e3) * c.Dir();
  const double t = AnyAngle(c), n = Norm(v);
  c.Note("axis=", Str(ax), " angle=", t);
  c.NonTrivial(t != 0);
  const sm::Quaternion q(S(ax), t);
  c.NearVec(R(q), AxisAngle(ax, t), 4, 1e-15, "axis-angle");
  // rotates actively by t about ax (Rodrigues)
  Near3(c, R(q.InverseFrameConversion(S(v))), cos(t) * v + sin(t) * Cross(ax, v) + (Dot(ax, v) * (1 - cos(t))) * ax, 1e-12 * n, 0, "rodrigues");
  const auto rx = R(sm::MakeRotationMatrixX(t)), ry = R(sm::MakeRotationMatrixY(t)), rz = R(sm::MakeRotationMatrixZ(t));
  Near3(c, rx * v, Rx(t) * v, 1e-13 * n, 0, "rot-x");
  Near3(c, ry * v, Ry(t) * v, 1e-13 * n, 0, "rot-y");
  Near3(c, rz * v, Rz(t) * v, 1e-13 * n, 0, "rot-z");
}
static void TwoVectors(Case& c) {
  const V3 a = c.LogReal(1e-6, 1e6) * c.Dir();
  V3 b;
  switch (c.Int(0, 4)) {
    case 0: b = c.LogReal(1e-3, 1e3) * a; c.Label("parallel"); break;
    case 1: b = -c.LogReal(1e-3, 1e3) * a; c.Label("antiparallel"); break;
    case 2: b = (c.Bool() ? -1.0 : 1.0) * a + (Norm(a) * c.LogReal(1e-17, 1e-3)) * c.Dir(); c.Label("almost (anti)parallel"); break;
    default: b = c.LogReal(1e-6, 1e6) * c.Dir();
  }
  c.Note("before=", Str(a), " after=", Str(b));
  c.NonTrivial();
  const sm::Quaternion q(S(a), S(b));
  const V3 r = R(q.InverseFrameConversion(S(Unit(a))));
  Near3(c, r, Unit(b), 1e-7, 0, "two-vector", "rotation taking one vector onto the other");
  NearAttitude(c, R(q), R(q), 1, "two-vector-unit");
  c.Near(2 * acos(std::min(1.0, std::fabs(q[3]))), Angle(a, b), 1e-6, 0, "two-vector-angle", "shortest rotation");
}
static void Wrap(Case& c) {
  double x;
  switch (c.Int(0, 4)) {
    case 0: x = (double)c.Int(-20, 20) * M_PI / 2 + c.Of<double>({0, 1e-12, -1e-12, 1e-16}); break;
    case 1: x = c.Real(-100, 100); break;
    case 2: x = c.Signed(1e-18, 1e6); break;
    case 3: x = c.Signed(1e6, 1e18); c.Label("huge"); break;
    default: x = c.Of<double>({0.0, 2 * M_PI, -2 * M_PI, 4 * M_PI, -1e-17, 1e-17, -M_PI});
  }
  c.Note("x=", x);
  c.NonTrivial(x < 0 || x > 2 * M_PI);
  const double w = sm::WrapTo2Pi(x);
  c.Check(w >= 0 && w <= sm::tau, "wrap-range", "wrap(", x, ") = ", w);
  if (std::fabs(x) < 1e6) {
    // the same direction; repeated subtraction may accumulate one rounding per turn
    const double tol = 1e-14 + 2e-15 * std::fabs(x) * (1 + std::fabs(x) / 6);
    c.Near(cos(w), cos(x), std::min(tol, 1e-3), 0, "wrap-value");
    c.Near(sin(w), sin(x), std::min(tol, 1e-3), 0, "wrap-value");
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U04",
                   "Random vectors over fourteen decades (with parallel, antiparallel and nearly parallel pairs), matrices of size 1-6 (sparse, badly "
                   "scaled, pivot-forcing), unit quaternions uniform on the sphere plus axis-aligned and half-turn ones, angles over many turns. "
                   "Non-trivial: an operation whose result differs from its input was compared with the reference.",
                   {{"vectors", Vectors, 6000, 200000, 200},
                    {"matrices", Matrices, 4000, 150000, 200},
                    {"singular", Singular, 1000, 20000, 200},
                    {"quaternions", Quaternions, 8000, 300000, 200},
                    {"axis_angle", AxisAngleFacet, 4000, 100000, 200},
                    {"two_vectors", TwoVectors, 4000, 100000, 50},
                    {"wrap", Wrap, 4000, 100000, 100, 3}},
                   {"IEEE double arithmetic; tolerances scale with magnitude and conditioning"});
}
