// Independent description of the cubed sphere: panel frames and tangent vectors.
#ifndef VERIF_SPHERE_H
#define VERIF_SPHERE_H
#include <cmath>
struct V3 { double x, y, z; };
static inline V3 operator+(V3 a, V3 b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
static inline V3 operator-(V3 a, V3 b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
static inline V3 operator*(double s, V3 a) { return { s * a.x, s * a.y, s * a.z }; }
static inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline double len(V3 a) { return sqrt(dot(a, a)); }
static inline V3 cross(V3 a, V3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
// Panel n: centre direction, direction of increasing X, direction of increasing Y
static const V3 PC[6] = { { 1, 0, 0 }, { 0, 1, 0 }, { -1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 0, 0, -1 } };
static const V3 PX[6] = { { 0, 1, 0 }, { -1, 0, 0 }, { 0, -1, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 1, 0 } };
static const V3 PY[6] = { { 0, 0, 1 }, { 0, 0, 1 }, { 0, 0, 1 }, { 0, 0, 1 }, { -1, 0, 0 }, { 1, 0, 0 } };
static inline V3 ptXYP(double X, double Y, int p) { double d = 1.0 / sqrt(1 + X * X + Y * Y); return d * (PC[p] + X * PX[p] + Y * PY[p]); }
// derivatives of the unit-sphere point with respect to the equiangular coordinates
static inline V3 tanA(double X, double Y, int p) { double d2 = 1 + X * X + Y * Y, d = sqrt(d2); return (1 + X * X) * ((1 / d) * PX[p] - (X / (d2 * d)) * (PC[p] + X * PX[p] + Y * PY[p])); }
static inline V3 tanB(double X, double Y, int p) { double d2 = 1 + X * X + Y * Y, d = sqrt(d2); return (1 + Y * Y) * ((1 / d) * PY[p] - (Y / (d2 * d)) * (PC[p] + X * PX[p] + Y * PY[p])); }
static inline V3 ptRLL(double lon, double lat) { return { cos(lon) * cos(lat), sin(lon) * cos(lat), sin(lat) }; }
static inline V3 east(double lon, double) { return { -sin(lon), cos(lon), 0 }; }
static inline V3 north(double lon, double lat) { return { -cos(lon) * sin(lat), -sin(lon) * sin(lat), cos(lat) }; }
// contravariant components of the tangent vector v
static inline void contra(V3 v, V3 ea, V3 eb, double & ua, double & ub) {
	double aa = dot(ea, ea), ab = dot(ea, eb), bb = dot(eb, eb), det = aa * bb - ab * ab, va = dot(v, ea), vb = dot(v, eb);
	ua = (bb * va - ab * vb) / det; ub = (aa * vb - ab * va) / det;
}
#endif
