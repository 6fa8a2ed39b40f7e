// C11: 4x4 transforms.  Real arithmetic; row-vector convention, v' = v*M.
#include "near.h"
#include <aqsis/math/matrix.h>
#include <aqsis/math/vector3d.h>
#include <aqsis/math/vector4d.h>
#include <aqsis/math/matrix2d.h>
using namespace Aqsis;
static float R(const char* n) { return rin(-4, 4, n); }
static CqMatrix any(bool affine) { float e[16]; for(int i = 0; i < 16; ++i) e[i] = affine && i % 4 == 3 ? (i == 15 ? 1.0f : 0.0f) : R("m"); return CqMatrix(e); }
static CqMatrix pick(bool affine) { return vs_choose(0, 3, "identity") == 0 ? CqMatrix() : any(affine); }
static double el(const CqMatrix& m, int i, int j) { return m.Element(i, j); }
static void same(const CqMatrix& m, const double w[4][4], const char* what) { bool ok = true; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) ok &= nearTo(el(m, i, j), w[i][j]); vs_assert(ok, what); }
static void mul(const CqMatrix& a, const CqMatrix& b, double w[4][4]) { for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { w[i][j] = 0; for(int k = 0; k < 4; ++k) w[i][j] += el(a, i, k) * el(b, k, j); } }
static CqVector3D vec() { float x = R("x"), y = R("y"), z = R("z"); return CqVector3D(x, y, z); }
static void pt(const double m[4][4], const CqVector3D& v, double o[4]) { for(int j = 0; j < 4; ++j) o[j] = v.x() * m[0][j] + v.y() * m[1][j] + v.z() * m[2][j] + m[3][j]; }
static void get(const CqMatrix& m, double w[4][4]) { for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) w[i][j] = el(m, i, j); }
static void products() {
    CqMatrix a = pick(false), b = pick(false); double w[4][4];
    mul(b, a, w); same(a * b, w, "a*b applies b first"); CqMatrix c = a; c *= b; same(c, w, "a *= b");
    mul(a, b, w); CqMatrix d = a; d.PreMultiply(b); same(d, w, "PreMultiply"); vs_reach("end");
}
static void points() {
    CqMatrix a = pick(vs_bool("affine")); CqVector3D v = vec(); double w[4][4], o[4]; get(a, w); pt(w, v, o);
    CqVector4D h(v.x(), v.y(), v.z(), 1); CqVector4D q = a * h; bool ok = nearTo(q.x(), o[0]) & nearTo(q.y(), o[1]) & nearTo(q.z(), o[2]) & nearTo(q.h(), o[3]); vs_assert(ok, "homogeneous point times matrix");
    vs_assume(o[3] > 0.25 && o[3] < 8); CqVector3D p = a * v; double H = o[3]; ok = nearTo(p.x() * H, o[0], 0.05) & nearTo(p.y() * H, o[1], 0.05) & nearTo(p.z() * H, o[2], 0.05); vs_assert(ok, "point times matrix, divided by the homogeneous coordinate"); vs_reach("end");
}
static void builders() {
    CqMatrix m = pick(true); double w[4][4], o[4], o2[4]; CqVector3D v = vec(); CqMatrix before = m; double ob[4]; get(before, w); pt(w, v, ob);
    int k = vs_choose(0, 6, "op"); float a = R("a"), b = R("b"), c = R("c"); double e[3] = {ob[0], ob[1], ob[2]};
    switch(k) {
        case 0: m.Translate(CqVector3D(a, b, c)); e[0] += a; e[1] += b; e[2] += c; break;
        case 1: m.Translate(a, b, c); e[0] += a; e[1] += b; e[2] += c; break;
        case 2: m.Scale(a, b, c); e[0] *= a; e[1] *= b; e[2] *= c; break;
        case 3: m.Scale(a); e[0] *= a; e[1] *= a; e[2] *= a; break;
        case 4: m.ShearX(a, b); e[1] += a * ob[0]; e[2] += b * ob[0]; break;
        case 5: m.ShearY(a, b); e[0] += a * ob[1]; e[2] += b * ob[1]; break;
        case 6: m.ShearZ(a, b); e[0] += a * ob[2]; e[1] += b * ob[2]; break;
    }
    get(m, w); pt(w, v, o); CqVector3D p = m * v; bool ok = true; for(int i = 0; i < 3; ++i) ok &= nearTo(o[i], e[i]); ok &= nearTo(o[3], 1); ok &= nearTo(p.x(), e[0]) & nearTo(p.y(), e[1]) & nearTo(p.z(), e[2]);
    vs_assert(ok, "a transform appended to a matrix applies after it, to the elements and to points alike");
    (void)o2; vs_reach("end");
}
static void ctors() {
    float a = R("a"), b = R("b"), c = R("c"); CqVector3D v = vec(); CqVector3D p = CqMatrix(a, b, c) * v; vs_assert(nearTo(p.x(), a * v.x()) & nearTo(p.y(), b * v.y()) & nearTo(p.z(), c * v.z()), "scale matrix");
    p = CqMatrix(CqVector3D(a, b, c)) * v; vs_assert(nearTo(p.x(), a + v.x()) & nearTo(p.y(), b + v.y()) & nearTo(p.z(), c + v.z()), "translation matrix");
    CqMatrix m = any(false), t = m.Transpose(); bool ok = true; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) ok &= el(t, i, j) == el(m, j, i); vs_assert(ok, "transpose");
    CqMatrix m2 = any(false); CqMatrix s = m + m2, d = m - m2; ok = true; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) ok &= nearTo(el(s, i, j), el(m, i, j) + el(m2, i, j)) & nearTo(el(d, i, j), el(m, i, j) - el(m2, i, j)); vs_assert(ok, "sum and difference");
    CqMatrix x = m * a; ok = true; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) ok &= nearTo(el(a * m, i, j), a * el(m, i, j)); vs_assert(ok, "scaling elements");
    CqMatrix vt = vectorTransform(m); ok = true; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) ok &= el(vt, i, j) == (i < 3 && j < 3 ? el(m, i, j) : i == j ? 1 : 0); vs_assert(ok, "vector transform keeps the linear part only"); vs_reach("end");
}
static double det3(const double m[4][4], int a, int b, int c, int p, int q, int r) { return m[a][p] * (m[b][q] * m[c][r] - m[b][r] * m[c][q]) - m[a][q] * (m[b][p] * m[c][r] - m[b][r] * m[c][p]) + m[a][r] * (m[b][p] * m[c][q] - m[b][q] * m[c][p]); }
static void det() {
    CqMatrix m = any(false); double w[4][4]; get(m, w); double e = w[0][0] * det3(w, 1, 2, 3, 1, 2, 3) - w[0][1] * det3(w, 1, 2, 3, 0, 2, 3) + w[0][2] * det3(w, 1, 2, 3, 0, 1, 3) - w[0][3] * det3(w, 1, 2, 3, 0, 1, 2);
    vs_assert(nearTo(m.Determinant(), e, 0.05), "determinant"); vs_assert(CqMatrix().Determinant() == 1, "determinant of identity"); vs_reach("end");
}
static void isInverse(const CqMatrix& m, const CqMatrix& i) { double w[4][4]; mul(m, i, w); bool ok = true; for(int r = 0; r < 4; ++r) for(int c = 0; c < 4; ++c) ok &= nearTo(w[r][c], r == c); vs_assert(ok, "a matrix times its inverse is the identity"); }
static void inverse() {
    // a row permutation of a triangular matrix with diagonal away from zero
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int p = vs_choose(0, 5, "perm"); int shape = vs_choose(0, 2, "shape"); CqMatrix m; m.SetfIdentity(false);
    int which = vs_choose(0, 2, "which"); float d[3] = {2, -0.5f, 1.5f}; d[which] = rin(-4, 4, "d"); vs_assume(d[which] > 0.5 || d[which] < -0.5);
    float a = rin(-1, 1, "a"), b = vs_choose(0, 1, "b") ? 0.75f : -3.0f;
    for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m.SetElement(perm[p][i], j, i == j ? d[i] : shape == 0 ? (i == 0 && j == 1 ? a : i == 1 && j == 2 ? b : 0.0f) : shape == 1 ? (i == 1 && j == 0 ? a : i == 2 && j == 0 ? b : 0.0f) : 0.0f);
    if(shape == 2) { m.SetElement(3, 0, a); m.SetElement(3, 1, b); m.SetElement(3, 2, 1.5f); if(vs_bool("projective")) m.SetElement(2, 3, a), m.SetElement(3, 0, 0.0f), m.SetElement(3, 1, 0.0f), m.SetElement(3, 2, 0.0f); }
    isInverse(m, m.Inverse()); vs_reach("end");
}
static void inverse2() { // every matrix [[a,b],[c,d]] in any two of the coordinates
    int fx = vs_choose(0, 3, "fixed"); float a = R("a"), b = R("b"), c = R("c"), d = R("d"); if(fx == 0) a = 0.5f, d = -2; if(fx == 1) b = 3, c = 1; if(fx == 2) a = 0, d = 1.5f; if(fx == 3) c = -1, d = 2; double dt = (double)a * d - (double)b * c; vs_assume(dt > 0.5 || dt < -0.5); static const int pr[3][2] = {{0, 1}, {1, 2}, {0, 2}}; int k = vs_choose(0, 2, "axes"); CqMatrix m; m.SetfIdentity(false);
    int i = pr[k][0], j = pr[k][1]; m.SetElement(i, i, a); m.SetElement(i, j, b); m.SetElement(j, i, c); m.SetElement(j, j, d); isInverse(m, m.Inverse());
    SqMatrix2D s(a, b, c, d), si = s.inv(); bool ok = nearTo(a * si.a + b * si.c, 1) & nearTo(a * si.b + b * si.d, 0) & nearTo(c * si.a + d * si.c, 0) & nearTo(c * si.b + d * si.d, 1); vs_assert(ok, "2x2 inverse"); vs_assert(nearTo(s.det(), dt), "2x2 determinant"); vs_reach("end");
}
static void normals() { // a normal stays perpendicular to the surface under scales, shears and translations
    float a = rin(0.5, 4, "a"), b = -2, c = 0.5f, sh = rin(-2, 2, "shear"); CqMatrix m; m.Scale(a, b, c); if(vs_bool("sheared")) m.ShearX(sh, 0); m.Translate(1, 2, 3);
    CqVector3D t = vec(), n = vec(); vs_assume(t * n == 0); CqVector3D t2 = vectorTransform(m) * t, n2 = normalTransform(m) * n; vs_assert(nearTo(t2 * n2, 0, 0.05), "transformed normals stay perpendicular"); vs_reach("end");
}
static void rotation() {
    int ax = vs_choose(0, 2, "axis"); float ang = R("angle"); double s = sin((double)ang), c = cos((double)ang); vs_assume(s * s + c * c == 1 && s >= -1 && s <= 1 && c >= -1 && c <= 1); vs_assume(ang != 0 || (s == 0 && c == 1)); CqVector3D A(ax == 0 ? 2.0f : 0, ax == 1 ? 2.0f : 0, ax == 2 ? 2.0f : 0); CqMatrix m; m.Rotate(ang, A); CqVector3D v = vec(), p = m * v;
    int i = (ax + 1) % 3, j = (ax + 2) % 3; bool ok = nearTo(p[ax], v[ax]) & nearTo(p[i], c * v[i] - s * v[j]) & nearTo(p[j], s * v[i] + c * v[j]); vs_assert(ok, "rotation about an axis"); vs_reach("end");
}
static void vectors() {
    CqVector3D a = vec(), b = vec(); vs_assert(nearTo(a * b, (double)a.x() * b.x() + (double)a.y() * b.y() + (double)a.z() * b.z()), "dot product"); CqVector3D c = a % b;
    vs_assert(nearTo(c.x(), (double)a.y() * b.z() - (double)a.z() * b.y()) & nearTo(c.y(), (double)a.z() * b.x() - (double)a.x() * b.z()) & nearTo(c.z(), (double)a.x() * b.y() - (double)a.y() * b.x()), "cross product"); vs_assert(nearTo(a.Magnitude2(), a * a), "squared length");
    float h = rin(0.5, 4, "h"); CqVector4D q(a.x(), a.y(), a.z(), h); q.Homogenize(); vs_assert(nearTo(q.x() * h, a.x()) & nearTo(q.y() * h, a.y()) & nearTo(q.z() * h, a.z()) & nearTo(q.h(), 1), "homogenize"); 
    CqVector3D l = lerp(h - 0.5f, a, b); vs_assert(nearTo(l.y(), a.y() + (h - 0.5) * ((double)b.y() - a.y())), "vector interpolation"); vs_reach("end");
}
void harness() { switch(vs_case()) { case 0: products(); break; case 1: points(); break; case 2: builders(); break; case 3: ctors(); break; case 4: det(); break; case 5: inverse(); break; case 6: inverse2(); break; case 7: normals(); break; case 8: rotation(); break; case 9: vectors(); break; } }
