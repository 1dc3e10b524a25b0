// BOUND: masses 0.1 to 10, centres of mass within 2 m, inertia terms up to 5 in size; rotations of every roll, pitch, yaw within +-pi (conversion), or of every angle about each coordinate axis followed by every angle about each other one (accumulation)
// ASSUME: urdf::Inertial is replaced by a stand-in which gives the symbolic numbers without the text of the XML attributes
#include "vf.h"
#include <almath/scenegraph/urdf.h>
#include <almath/scenegraph/urdfeigen.h>
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
// stand-in for the XML element
static double gm, gi[6], gx[3], gr[3];
namespace AL { namespace urdf {
Inertial::Inertial(const ptree &p) : pt(p) {}
Pose Inertial::origin() const { return Pose(Array3d{{gx[0], gx[1], gx[2]}}, Array3d{{gr[0], gr[1], gr[2]}}); }
double Inertial::mass() const { return gm; }
double Inertial::ixx() const { return gi[0]; }
double Inertial::ixy() const { return gi[1]; }
double Inertial::ixz() const { return gi[2]; }
double Inertial::iyy() const { return gi[3]; }
double Inertial::iyz() const { return gi[4]; }
double Inertial::izz() const { return gi[5]; }
} }
static char store[sizeof(AL::urdf::ptree)];
static const AL::urdf::ptree &none() { return *reinterpret_cast<AL::urdf::ptree *>(store); }
static void inertia(const char *n, double *i) { for (int k = 0; k < 6; ++k) i[k] = vf_dreal(n, -5, 5); }
static M3 sym(const double *i) { M3 m; m << i[0], i[1], i[2], i[1], i[3], i[4], i[2], i[4], i[5]; return m; }
static double angle(const char *n, int k) { return vf_angle(n, -3.14159, 3.14159, k); }
static void rot(int axis, double t, double (*r)[3]) {
  const double c = std::cos(t), s = std::sin(t);
  const int i = (axis + 1) % 3, j = (axis + 2) % 3;
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) r[a][b] = a == b ? 1 : 0;
  r[i][i] = c; r[j][j] = c; r[i][j] = -s; r[j][i] = s;
}
static void mul(const double (*a)[3], const double (*b)[3], double (*r)[3]) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double v = 0; for (int k = 0; k < 3; ++k) v += a[i][k] * b[k][j]; r[i][j] = v; }
}
static void tr(const double (*a)[3], double (*r)[3]) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a[j][i]; }
VF_R(convert) {
  gm = vf_dreal("mass", 0.1, 10);
  inertia("i", gi);
  for (int k = 0; k < 3; ++k) gx[k] = vf_dreal("x", -2, 2);
  const int used = vf_choice("angles", 4);       // one angle, or all three with a single inertia term
  for (int k = 0; k < 3; ++k) gr[k] = used == 3 || used == k ? angle("rpy", 2) : 0;
  if (used == 3) { const int t = vf_choice("term", 6); for (int k = 0; k < 6; ++k) if (k != t) gi[k] = 0; }
  const AL::urdf::Inertial in(none());
  double mass = 7;
  V3 com; M3 m;
  AL::Math::urdfInertialToEigen(in, mass, com, m);
  vf_close(mass, gm, 0, "mass");
  for (int k = 0; k < 3; ++k) vf_close(com[k], gx[k], 0, "centre of mass");
  double x[3][3], y[3][3], z[3][3], zy[3][3], r[3][3], rt[3][3], i[3][3], ri[3][3], e[3][3];
  rot(0, gr[0], x); rot(1, gr[1], y); rot(2, gr[2], z);
  mul(z, y, zy); mul(zy, x, r); tr(r, rt);
  const M3 s = sym(gi);
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) i[a][b] = s(a, b);
  mul(r, i, ri); mul(ri, rt, e);
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) vf_close(m(a, b), e[a][b], 1e-9, "inertia rotated into the body frame");
}
VF_R(pointMass) {
  const double m = vf_dreal("m", 0, 10);
  V3 p;
  for (int k = 0; k < 3; ++k) p[k] = vf_dreal("p", -2, 2);
  double i[6];
  inertia("i", i);
  M3 o = sym(i);
  AL::Math::addPointMassInertia(m, p, o);
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b)
    vf_close(o(a, b), sym(i)(a, b) + m * ((a == b ? p[0] * p[0] + p[1] * p[1] + p[2] * p[2] : 0) - p[a] * p[b]), 1e-9, "inertia of a point mass");
}
typedef Eigen::Transform<double, 3, Eigen::AffineCompact, Eigen::DontAlign> T;
static void squash(bool rotated) {
  const double ma = vf_dreal("ma", 0.1, 10), mb = vf_dreal("mb", 0.1, 10);
  vf_bound(ma + mb, 0.2, 20);
  double ia[6], ib[6], pa[3], pb[3], ra[3][3], rr[3][3], rb[3][3];
  for (int k = 0; k < 3; ++k) { pa[k] = vf_dreal("pa", -2, 2); pb[k] = vf_dreal("pb", -2, 2); }
  inertia("ia", ia); inertia("ib", ib);
  const int u = vf_choice("axis of a", 3), v = rotated ? vf_choice("axis of b", 3) : 0;
  rot(u, angle("ta", 1), ra);
  rot(v, rotated ? angle("tb", 1) : 0, rr);
  mul(ra, rr, rb);
  T A, B, C;
  M3 ic;
  for (int i = 0; i < 3; ++i) { A.translation()[i] = pa[i]; B.translation()[i] = pb[i]; for (int j = 0; j < 3; ++j) { A.linear()(i, j) = ra[i][j]; B.linear()(i, j) = rb[i][j]; } }
  double mc = 7;
  AL::Math::squashInertial(ma, A, sym(ia), mb, B, sym(ib), mc, C, ic);
  vf_close(mc, ma + mb, 1e-9, "total mass");
  for (int i = 0; i < 3; ++i) vf_close(C.translation()[i], (ma * pa[i] + mb * pb[i]) / (ma + mb), 1e-9, "barycentre");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf_close(C.linear()(i, j), ra[i][j], 1e-9, "frame of the first body");
  double s[3][3], rt[3][3], e[3][3], d[3], n = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s[i][j] = sym(ib)(i, j);
  tr(rr, rt); mul(rr, s, e); mul(e, rt, s);
  for (int i = 0; i < 3; ++i) { d[i] = 0; for (int j = 0; j < 3; ++j) d[i] += ra[j][i] * (pb[j] - pa[j]); n += d[i] * d[i]; }
  const double red = ma * mb / (ma + mb);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    vf_close(ic(i, j), sym(ia)(i, j) + s[i][j] + red * ((i == j ? n : 0) - d[i] * d[j]), 1e-6, "sum of the inertias at the barycentre");
}
VF_R(squashAligned) { squash(false); }
VF_R(squashRotated) { squash(true); }
// roll, pitch, yaw of a pose and the matrix they stand for
VF_R(pose) {
  AL::urdf::Array3d x, a;
  for (int k = 0; k < 3; ++k) { x[k] = vf_dreal("x", -2, 2); a[k] = angle("rpy", 2); }
  const Eigen::Isometry3d t = AL::Math::toEigenTransform(AL::urdf::Pose(x, a));
  double rx[3][3], ry[3][3], rz[3][3], zy[3][3], r[3][3];
  rot(0, a[0], rx); rot(1, a[1], ry); rot(2, a[2], rz);
  mul(rz, ry, zy); mul(zy, rx, r);
  for (int i = 0; i < 3; ++i) {
    vf_close(t.translation()[i], x[i], 1e-9, "translation");
    for (int j = 0; j < 3; ++j) vf_close(t.linear()(i, j), r[i][j], 1e-9, "roll, pitch, yaw");
  }
}
VF_R(rpy) {
  double rx[3][3], ry[3][3], rz[3][3], zy[3][3], r[3][3];
  rot(0, vf_angle("roll", -3.1, 3.1, 1), rx); rot(1, vf_angle("pitch", -1.5, 1.5, 1), ry); rot(2, vf_angle("yaw", -3.1, 3.1, 1), rz);
  mul(rz, ry, zy); mul(zy, rx, r);
  M3 m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = r[i][j];
  const AL::urdf::Array3d a = AL::Math::urdfRpyFromEigenMatrix3(m);
  rot(0, a[0], rx); rot(1, a[1], ry); rot(2, a[2], rz);
  mul(rz, ry, zy); mul(zy, rx, r);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf_close(m(i, j), r[i][j], 1e-9, "the angles stand for the matrix");
}
