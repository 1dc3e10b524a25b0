// SRC: @core
// BOUND: components in [-10,10]; norms and distances in [1,2] times 1, 2^-8 or 2^8 (2^-4 or 2^4 for distances) with every direction; tolerances in [1e-4,0.5]
#include "types.h"
#include <almath/tools/altransformhelpers.h>
// every vector of norm s in [0.25,4] * scale
struct S { float s; };
template <int n> static float scaled(float *v, bool wide = true) {
  float u[n];
  vf_unitn("u", n, u);
  const float k[] = {wide ? 0.00390625f : 0.0625f, 1, wide ? 256 : 16.f};
  const float s = vf_real("s", 1, 2) * k[vf_choice("scale", 3)];
  for (int i = 0; i < n; ++i) v[i] = u[i] * s;
  return s;
}
template <class T> static float scaledv(T &v) {
  float a[N<T>::n];
  const float s = scaled<N<T>::n>(a);
  for (int i = 0; i < N<T>::n; ++i) at(v, i) = a[i];
  return s;
}
template <class T> static void normMember(const T &v, float s) { vf_close(v.norm() / s, 1, 1e-4, "norm"); }
template <class T> static void normFree(const T &v, float s) { vf_close(norm(v) / s, 1, 1e-4, "norm (free function)"); }
template <class T> static void unitOf(const T &v, const T &u, float s, const char *w) {
  for (int i = 0; i < N<T>::n; ++i) vf_close(get(u, i), get(v, i) / (double)s, 1e-3, w);
}
#define VEC(T) { T v; const float s = scaledv(v); normMember(v, s); normFree(v, s); unitOf(v, v.normalize(), s, "normalised vector"); unitOf(v, normalize(v), s, "normalised vector (free function)"); }
VF_R(normPosition2D) VEC(Position2D)
VF_R(normPosition3D) VEC(Position3D)
VF_R(normVelocity3D) VEC(Velocity3D)
VF_R(normVelocity6D) VEC(Velocity6D)
VF_R(normQuaternion) VEC(Quaternion)
VF_R(normPosition6D) { Position6D v; const float s = scaledv(v); normMember(v, s); normFree(v, s); unitOf(v, normalize(v), s, "normalised vector"); }
VF_R(normRotation3D) { Rotation3D v; const float s = scaledv(v); normMember(v, s); normFree(v, s); }
VF_R(normPose2D) {
  float a[2];
  const float s = scaled<2>(a);
  Pose2D v;
  v.x = a[0]; v.y = a[1]; v.theta = vf_real("theta", -7, 7);
  normMember(v, s);
  const Pose2D n = v.normalize();
  vf_close(n.x, v.x / (double)s, 1e-3, "normalised pose"); vf_close(n.y, v.y / (double)s, 1e-3, "normalised pose"); vf_close(n.theta, v.theta, 0, "normalising keeps the orientation");
}
VF_R(normTransform) {
  float a[3];
  const float s = scaled<3>(a);
  Transform t = anyv<Transform>("t", 10);
  t.r1_c4 = a[0]; t.r2_c4 = a[1]; t.r3_c4 = a[2];
  normMember(t, s);
  normFree(t, s);
}
VF_R(angles) {
  const float t = vf_angle("t", -3.1, 3.1, 1), r = vf_real("r", 0.5, 10);
  Position2D p;
  p.x = r * std::cos((double)t); p.y = r * std::sin((double)t);
  vf_close(p.getAngle(), t, 1e-4, "polar angle of a position");
  Pose2D q;
  q.x = p.x; q.y = p.y; q.theta = vf_real("theta", -7, 7);
  vf_close(q.getAngle(), t, 1e-4, "polar angle of a pose");
}
// distance between a and a displaced by s*u; only the position part counts
template <class T, int n> static void dist() {
  float a[n];
  T p = anyv<T>("p", 10), q = anyv<T>("q", 10);
  const float s = scaled<n>(a, false);
  for (int i = 0; i < n; ++i) at(q, i) = get(p, i) + a[i];
  vf_close(p.distance(q) / s, 1, 6e-3, "distance");
  vf_close(distance(q, p) / s, 1, 6e-3, "distance is symmetric");
  vf_close(p.distanceSquared(q) / (s * s), 1, 1.2e-2, "squared distance");
  vf_close(distanceSquared(q, p) / (s * s), 1, 1.2e-2, "squared distance is symmetric");
}
VF_R(distPosition2D) { dist<Position2D, 2>(); }
VF_R(distPose2D) { dist<Pose2D, 2>(); }
VF_R(distPosition3D) { dist<Position3D, 3>(); }
VF_R(distPosition6D) { dist<Position6D, 3>(); }
VF_R(distTransform) {
  float a[3];
  Transform p = anyv<Transform>("p", 10), q = anyv<Transform>("q", 10);
  const float s = scaled<3>(a, false);
  q.r1_c4 = p.r1_c4 + a[0]; q.r2_c4 = p.r2_c4 + a[1]; q.r3_c4 = p.r3_c4 + a[2];
  vf_close(p.distance(q) / s, 1, 6e-3, "distance");
  vf_close(transformDistance(q, p) / s, 1, 6e-3, "distance is symmetric");
  vf_close(p.distanceSquared(q) / (s * s), 1, 1.2e-2, "squared distance");
  vf_close(transformDistanceSquared(q, p) / (s * s), 1, 1.2e-2, "squared distance is symmetric");
}
template <class T> static void self() {
  const T a = anyv<T>("a", 10);
  vf_close(a.distance(a), 0, 1e-9, "a value is at distance zero from itself");
  vf_close(a.distanceSquared(a), 0, 1e-9, "a value is at distance zero from itself");
}
VF_R(self) { self<Position2D>(); self<Pose2D>(); self<Position3D>(); self<Position6D>(); self<Transform>(); }
VF_R(dotcross) {
  const Position2D a = anyv<Position2D>("a", 10), b = anyv<Position2D>("b", 10);
  vf_close(a.dotProduct(b), (double)a.x * b.x + (double)a.y * b.y, 5e-5, "2D dot product");
  vf_close(dotProduct(a, b), (double)a.x * b.x + (double)a.y * b.y, 5e-5, "2D dot product");
  vf_close(a.crossProduct(b), (double)a.x * b.y - (double)a.y * b.x, 5e-5, "2D cross product");
  vf_close(crossProduct(a, b), (double)a.x * b.y - (double)a.y * b.x, 5e-5, "2D cross product");
  const Position3D p = anyv<Position3D>("p", 10), q = anyv<Position3D>("q", 10);
  vf_close(p.dotProduct(q), (double)p.x * q.x + (double)p.y * q.y + (double)p.z * q.z, 8e-5, "3D dot product");
  vf_close(dotProduct(p, q), (double)p.x * q.x + (double)p.y * q.y + (double)p.z * q.z, 8e-5, "3D dot product");
  Position3D r[3] = {p.crossProduct(q), crossProduct(p, q), Position3D()};
  crossProduct(p, q, r[2]);
  for (int i = 0; i < 3; ++i) {
    vf_close(r[i].x, (double)p.y * q.z - (double)p.z * q.y, 5e-5, "3D cross product");
    vf_close(r[i].y, (double)p.z * q.x - (double)p.x * q.z, 5e-5, "3D cross product");
    vf_close(r[i].z, (double)p.x * q.y - (double)p.y * q.x, 5e-5, "3D cross product");
  }
}
static double det(const Transform &t) {
  return (double)t.r1_c1 * ((double)t.r2_c2 * t.r3_c3 - (double)t.r2_c3 * t.r3_c2) - (double)t.r1_c2 * ((double)t.r2_c1 * t.r3_c3 - (double)t.r2_c3 * t.r3_c1) +
         (double)t.r1_c3 * ((double)t.r2_c1 * t.r3_c2 - (double)t.r2_c2 * t.r3_c1);
}
VF_R(determinant) {
  const Transform t = anyv<Transform>("t", 2);
  vf_close(t.determinant(), det(t), 3e-5, "determinant of a transform");
  vf_close(determinant(t), det(t), 3e-5, "determinant of a transform");
  const Rotation r = rotationFromTransform(t);
  vf_close(r.determinant(), det(t), 3e-5, "determinant of a rotation");
  vf_close(determinant(r), det(t), 3e-5, "determinant of a rotation");
  std::vector<float> f;
  for (int i = 0; i < 12; ++i) f.push_back(get(t, i));
  if (vf_choice("length", 2)) for (int i = 0; i < 4; ++i) f.push_back(i == 3);
  vf_close(determinant(f), det(t), 3e-5, "determinant of a transform given as a list of floats");
}
VF_R(unitVector) {
  const float e = vf_real("eps", 1e-4, 0.4);
  float u[3];
  vf_unitn("u", 3, u);
  const float s = vf_real("s", 0.25, 2);
  const Position3D v(u[0] * s, u[1] * s, u[2] * s);
  const double d = (double)s - 1;
  const int c = vf_choice("case", 3);
  if (c == 0) vf_assume(d <= e - 4e-5 && d >= 4e-5 - e);
  else if (c == 1) vf_assume(d >= e + 4e-5);
  else vf_assume(d <= -4e-5 - e);
  vf_assert(v.isUnitVector(e) == (c == 0) && isUnitVector(v, e) == (c == 0), "a vector is unit exactly when its norm is one within the tolerance");
}
VF_R(orthogonal) {
  const float e = vf_real("eps", 1e-4, 0.5);
  const Position3D a = anyv<Position3D>("a", 2), b = anyv<Position3D>("b", 2);
  const double d = (double)a.x * b.x + (double)a.y * b.y + (double)a.z * b.z;
  const int c = vf_choice("case", 3);
  if (c == 0) vf_assume(d <= e - 4e-5 && d >= 4e-5 - e);
  else if (c == 1) vf_assume(d >= e + 4e-5);
  else vf_assume(d <= -4e-5 - e);
  vf_assert(a.isOrthogonal(b, e) == (c == 0) && isOrthogonal(b, a, e) == (c == 0), "vectors are orthogonal exactly when their dot product is null within the tolerance");
}
VF_R(defaults) {
  const Position3D x(1, 0, 0), a(1 + 9e-5f, 0, 0), b(1 + 1.2e-4f, 0, 0), c(9e-5f, 3, 0), d(1.2e-4f, 3, 0);
  vf_assert(a.isUnitVector() && !b.isUnitVector(), "the default tolerance of the unit test is 1e-4");
  vf_assert(x.isOrthogonal(c) && !x.isOrthogonal(d), "the default tolerance of the orthogonality test is 1e-4");
}
