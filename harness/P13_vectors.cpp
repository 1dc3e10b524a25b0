// SRC: @core
// BOUND: every float bit pattern; vectors of 0 to 17 floats; transforms read back: rotation block from any unit quaternion, translation in [-10,10]
#include "gen.h"
#include "types.h"
template <class T> static void reads(const T &v, const std::vector<float> &f, const char *w) { for (int i = 0; i < N<T>::n; ++i) vf_same(get(v, i), f[i], w); }
// toVector, both forms, whatever the previous content of the output
template <class T> static void writes(const T &v, int n) {
  std::vector<float> f;
  switch (vf_choice("form", 4)) {
    case 0: f = v.toVector(); break;
    case 1: v.toVector(f); break;
    case 2: f.assign(20, 7.f); v.toVector(f); break;
    default: f.assign(1, 7.f); v.toVector(f);
  }
  vf_assert((int)f.size() == n, "toVector gives a vector of the documented length");
  for (int i = 0; i < N<T>::n; ++i) vf_same(f[i], get(v, i), "toVector writes the components in order");
  for (int i = N<T>::n; i < n; ++i) vf_same(f[i], i == n - 1, "the last row of a transform is 0 0 0 1");
}
// in place at an iterator, which is advanced; the neighbours are untouched
template <class T> static void writesAt(const T &v, int n) {
  std::vector<float> f(n + 2, 7.f);
  std::vector<float>::iterator it = f.begin() + 1;
  v.writeToVector(it);
  vf_assert(it == f.begin() + 1 + n, "writeToVector advances the iterator past what it wrote");
  vf_same(f[0], 7, "writeToVector touches nothing else");
  vf_same(f[n + 1], 7, "writeToVector touches nothing else");
  for (int i = 0; i < N<T>::n; ++i) vf_same(f[i + 1], get(v, i), "writeToVector writes the components in order");
  for (int i = N<T>::n; i < n; ++i) vf_same(f[i + 1], i == n - 1, "the last row of a transform is 0 0 0 1");
}
template <class T> static void roundtrip() {
  const T v = rawv<T>("v");
  const std::vector<float> f = v.toVector();
  reads(T(f), f, "building from a vector reads the components in order");
  writes(v, N<T>::n);
}
template <class T> static void wrong() {
  const int n = vf_choice("length", 18);
  if (n == N<T>::n) return;
  std::vector<float> f(n);
  for (int i = 0; i < n; ++i) f[i] = vf_float("f");
  const T v(f);
  for (int i = 0; i < N<T>::n; ++i) vf_same(get(v, i), 0, "a vector of the wrong length gives the default value");
}
VF_B(roundPosition2D) { vf_lazy(1); roundtrip<Position2D>(); }
VF_B(wrongPosition2D) { vf_lazy(1); wrong<Position2D>(); }
VF_B(roundPose2D) { vf_lazy(1); roundtrip<Pose2D>(); }
VF_B(wrongPose2D) { vf_lazy(1); wrong<Pose2D>(); }
VF_B(roundPosition3D) { vf_lazy(1); roundtrip<Position3D>(); }
VF_B(wrongPosition3D) { vf_lazy(1); wrong<Position3D>(); }
VF_B(roundPosition6D) { vf_lazy(1); roundtrip<Position6D>(); }
VF_B(wrongPosition6D) { vf_lazy(1); wrong<Position6D>(); }
VF_B(roundRotation3D) { vf_lazy(1); roundtrip<Rotation3D>(); }
VF_B(wrongRotation3D) { vf_lazy(1); wrong<Rotation3D>(); }
VF_B(roundVelocity3D) { vf_lazy(1); roundtrip<Velocity3D>(); }
VF_B(wrongVelocity3D) { vf_lazy(1); wrong<Velocity3D>(); }
VF_B(roundVelocity6D) { vf_lazy(1); roundtrip<Velocity6D>(); }
VF_B(wrongVelocity6D) { vf_lazy(1); wrong<Velocity6D>(); }
VF_B(roundQuaternion) { vf_lazy(1); roundtrip<Quaternion>(); }
VF_B(wrongQuaternion) { vf_lazy(1); wrong<Quaternion>(); }
VF_B(atPosition2D) { writesAt(rawv<Position2D>("v"), 2); }
VF_B(atPose2D) { writesAt(rawv<Pose2D>("v"), 3); }
VF_B(atPosition3D) { writesAt(rawv<Position3D>("v"), 3); }
VF_B(atPosition6D) { writesAt(rawv<Position6D>("v"), 6); }
VF_B(atVelocity3D) { writesAt(rawv<Velocity3D>("v"), 3); }
VF_B(atVelocity6D) { writesAt(rawv<Velocity6D>("v"), 6); }
VF_B(atTransform) { writesAt(rawv<Transform>("v"), 16); }
VF_B(writesTransform) { writes(rawv<Transform>("v"), 16); }
VF_B(rotation) {
  vf_lazy(1);
  std::vector<float> f;
  const int how = vf_choice("length", 3), n = how == 0 ? 9 : how == 1 ? 12 : 16, w = how ? 4 : 3;
  for (int i = 0; i < n; ++i) f.push_back(vf_float("f"));
  const Rotation r(f);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf_same(get(r, 3 * i + j), f[w * i + j], "a rotation is read from 9 floats or from the rotation block of a transform");
  writes(r, 9);
}
VF_B(wrongRotation) {
  vf_lazy(1);
  const int n = vf_choice("length", 18);
  if (n == 9 || n == 12 || n == 16) return;
  std::vector<float> f(n);
  for (int i = 0; i < n; ++i) f[i] = vf_float("f");
  const Rotation v(f);
  for (int i = 0; i < 9; ++i) vf_same(get(v, i), i % 4 == 0, "a vector of the wrong length gives the identity");
}
VF_B(wrongTransform) {
  vf_lazy(1);
  const int n = vf_choice("length", 18);
  if (n == 12 || n == 16) return;
  std::vector<float> f(n);
  for (int i = 0; i < n; ++i) f[i] = vf_float("f");
  const Transform v(f);
  for (int i = 0; i < 12; ++i) vf_same(get(v, i), i % 5 == 0, "a vector of the wrong length gives the identity");
}
// a rigid transform is read back as it was written, from 12 or 16 floats
VF_R(transform) {
  const Transform t = vfg::rigidT("q", "p");
  std::vector<float> f = t.toVector();
  if (vf_choice("length", 2)) f.resize(12);
  const Transform u(f);
  for (int i = 0; i < 12; ++i) vf_same(get(u, i), get(t, i), "a rigid transform is read back unchanged");
}
// a matrix that is not rigid keeps its translation and gets a rotation: here scaled axes
VF_R(transformScaled) {
  const vfg::M3 m = vfg::qmat(vfg::unitQ("q"));
  const int how = vf_choice("scale", 2);
  const double s = how ? 2 : 0.5;
  std::vector<float> f;
  for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) f.push_back(m.m[i][j] * s); f.push_back(vf_real("p", -10, 10)); }
  const Transform u(f);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) vf_close(get(u, 4 * i + j), m.m[i][j], 1e-3, "scaled axes are normalised when read");
    vf_close(get(u, 4 * i + 3), f[4 * i + 3], 0, "the translation is read as it is");
  }
}
VF_B(floatVector) {
  const Transform t = rawv<Transform>("t");
  std::vector<float> f;
  if (vf_choice("form", 2)) f = transformToFloatVector(t); else { f.assign(20, 7.f); transformToFloatVector(t, f); }
  vf_assert(f.size() == 12, "transformToFloatVector gives 12 floats");
  for (int i = 0; i < 12; ++i) vf_same(f[i], get(t, i), "transformToFloatVector writes the components in order");
}
