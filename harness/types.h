// every AL::Math value type as an array of its float components, in declaration order
#pragma once
#include "vf.h"
#include <almath/types/alpose2d.h>
#include <almath/types/alposition2d.h>
#include <almath/types/alposition3d.h>
#include <almath/types/alposition6d.h>
#include <almath/types/alrotation3d.h>
#include <almath/types/alvelocity3d.h>
#include <almath/types/alvelocity6d.h>
#include <almath/types/alquaternion.h>
#include <almath/types/alrotation.h>
#include <almath/types/altransform.h>
#include <stdexcept>
#include <vector>
using namespace AL::Math;
template <class T> struct N;
template <> struct N<Position2D> { enum { n = 2 }; };
template <> struct N<Pose2D> { enum { n = 3 }; };
template <> struct N<Position3D> { enum { n = 3 }; };
template <> struct N<Velocity3D> { enum { n = 3 }; };
template <> struct N<Rotation3D> { enum { n = 3 }; };
template <> struct N<Position6D> { enum { n = 6 }; };
template <> struct N<Velocity6D> { enum { n = 6 }; };
template <> struct N<Quaternion> { enum { n = 4 }; };
template <> struct N<Rotation> { enum { n = 9 }; };
template <> struct N<Transform> { enum { n = 12 }; };
inline float &at(Position2D &v, int i) { return i == 0 ? v.x : v.y; }
inline float &at(Pose2D &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.theta; }
inline float &at(Position3D &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
inline float &at(Velocity3D &v, int i) { return i == 0 ? v.xd : i == 1 ? v.yd : v.zd; }
inline float &at(Rotation3D &v, int i) { return i == 0 ? v.wx : i == 1 ? v.wy : v.wz; }
inline float &at(Position6D &v, int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : i == 3 ? v.wx : i == 4 ? v.wy : v.wz; }
inline float &at(Velocity6D &v, int i) { return i == 0 ? v.xd : i == 1 ? v.yd : i == 2 ? v.zd : i == 3 ? v.wxd : i == 4 ? v.wyd : v.wzd; }
inline float &at(Quaternion &v, int i) { return i == 0 ? v.w : i == 1 ? v.x : i == 2 ? v.y : v.z; }
inline float &at(Rotation &v, int i) {
  float *p[] = {&v.r1_c1, &v.r1_c2, &v.r1_c3, &v.r2_c1, &v.r2_c2, &v.r2_c3, &v.r3_c1, &v.r3_c2, &v.r3_c3};
  return *p[i];
}
inline float &at(Transform &v, int i) {
  float *p[] = {&v.r1_c1, &v.r1_c2, &v.r1_c3, &v.r1_c4, &v.r2_c1, &v.r2_c2, &v.r2_c3, &v.r2_c4, &v.r3_c1, &v.r3_c2, &v.r3_c3, &v.r3_c4};
  return *p[i];
}
template <class T> float get(const T &v, int i) { return at(const_cast<T &>(v), i); }
template <class T> T anyv(const char *n, double b = 100) { T v; for (int i = 0; i < N<T>::n; ++i) at(v, i) = vf_real(n, -b, b); return v; }
template <class T> T rawv(const char *n) { T v; for (int i = 0; i < N<T>::n; ++i) at(v, i) = vf_float(n); return v; }
