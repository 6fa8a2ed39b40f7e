// C12: bounding boxes.
#include "near.h"
#include "bound.h"
using namespace Aqsis;
static CqBound box(bool maybeEmpty) { float a[6]; for(int i = 0; i < 6; ++i) a[i] = rin(-8, 8, "b"); if(maybeEmpty && vs_choose(0, 1, "empty")) return CqBound(); for(int i = 0; i < 3; ++i) vs_assume(a[2 * i] <= a[2 * i + 1]); return CqBound(a); }
static CqVector3D vec() { float x = rin(-9, 9, "x"), y = rin(-9, 9, "y"), z = rin(-9, 9, "z"); return CqVector3D(x, y, z); }
static bool in(const CqBound& b, const CqVector3D& p) { return (p.x() >= b.vecMin().x()) & (p.x() <= b.vecMax().x()) & (p.y() >= b.vecMin().y()) & (p.y() <= b.vecMax().y()) & (p.z() >= b.vecMin().z()) & (p.z() <= b.vecMax().z()); }
static void encapsulate() {
    CqBound a = box(true), b = box(true), c = a; c.Encapsulate(&b); CqVector3D p = vec();
    vs_assert(!(in(a, p) | in(b, p)) | in(c, p), "the union of two bounds contains both");
    bool tight = true; for(int i = 0; i < 3; ++i) tight &= ((c.vecMin()[i] == a.vecMin()[i]) | (c.vecMin()[i] == b.vecMin()[i])) & ((c.vecMax()[i] == a.vecMax()[i]) | (c.vecMax()[i] == b.vecMax()[i])); vs_assert(tight, "the union is no larger than needed");
    CqBound d = a; d.Encapsulate(p); CqVector3D q = vec(); vs_assert(in(d, p) & (!in(a, q) | in(d, q)), "a bound grown by a point contains the point and the old bound"); vs_assert(!in(a, p) | ((d.vecMin() == a.vecMin()) & (d.vecMax() == a.vecMax())), "growing by an inner point changes nothing");
    CqBound e = a; CqVector2D v2(p.x(), p.y()); e.Encapsulate(v2); bool ok = (e.vecMin().z() == a.vecMin().z()) & (e.vecMax().z() == a.vecMax().z()) & (e.vecMin().x() <= p.x()) & (e.vecMax().x() >= p.x()) & (e.vecMin().y() <= p.y()) & (e.vecMax().y() >= p.y()); vs_assert(ok, "growing by a 2D point leaves the depth alone"); vs_reach("end");
}
static void queries() {
    CqBound a = box(false), b = box(false); CqVector3D p = vec(); vs_assert(a.Contains3D(p) == in(a, p), "point containment");
    CqVector2D v(p.x(), p.y()); bool in2 = (p.x() >= a.vecMin().x()) & (p.x() <= a.vecMax().x()) & (p.y() >= a.vecMin().y()) & (p.y() <= a.vecMax().y()); vs_assert(a.Contains2D(v) == in2, "2D point containment");
    CqVector2D mn(b.vecMin().x(), b.vecMin().y()), mx(b.vecMax().x(), b.vecMax().y()); bool x = a.Intersects(mn, mx); bool inb = (p.x() >= mn.x()) & (p.x() <= mx.x()) & (p.y() >= mn.y()) & (p.y() <= mx.y()); vs_assert(x | !(in2 & inb), "rectangles sharing a point intersect");
    bool apart = (mn.x() > a.vecMax().x()) | (mx.x() < a.vecMin().x()) | (mn.y() > a.vecMax().y()) | (mx.y() < a.vecMin().y()); vs_assert(x == !apart, "rectangles apart do not intersect");
    bool c2 = a.Contains2D(&b); bool e = (mn.x() >= a.vecMin().x()) & (mx.x() <= a.vecMax().x()) & (mn.y() >= a.vecMin().y()) & (mx.y() <= a.vecMax().y()); vs_assert(c2 == e, "2D containment of a bound"); vs_reach("end");
}
static void transform(int shape) {
    CqBound a = box(false); float e[16]; for(int i = 0; i < 16; ++i) e[i] = i % 4 == 3 ? (i == 15) : (shape == 0 && i / 4 < 3 && i / 4 != i % 4) || (shape == 1 && i >= 12) ? 0.0f : rin(-4, 4, "m"); CqMatrix m(e); m.SetfIdentity(false); CqBound b = a; b.Transform(m);
    CqVector3D c[8]; a.getBoundCuboid(c); bool touch[6] = {false, false, false, false, false, false}; bool all = true;
    for(int k = 0; k < 8; ++k) { // the eight corners, whatever their order
        CqVector3D p(k & 1 ? a.vecMax().x() : a.vecMin().x(), k & 2 ? a.vecMax().y() : a.vecMin().y(), k & 4 ? a.vecMax().z() : a.vecMin().z()); double o[3]; for(int j = 0; j < 3; ++j) o[j] = (double)p.x() * e[j] + (double)p.y() * e[4 + j] + (double)p.z() * e[8 + j] + e[12 + j];
        for(int j = 0; j < 3; ++j) { all &= notAbove(b.vecMin()[j], o[j]) & notAbove(o[j], b.vecMax()[j]); touch[j] |= nearTo(b.vecMin()[j], o[j]); touch[3 + j] |= nearTo(b.vecMax()[j], o[j]); }
        bool f = false; for(int q = 0; q < 8; ++q) f |= (c[q].x() == p.x()) & (c[q].y() == p.y()) & (c[q].z() == p.z()); vs_assert(f, "the cuboid lists every corner");
    }
    vs_assert(all, "a transformed bound contains the transforms of all corners"); for(int j = 0; j < 6; ++j) vs_assert(touch[j], "a transformed bound is no larger than needed"); vs_reach("end");
}
void harness() { switch(vs_case()) { case 0: encapsulate(); break; case 1: queries(); break; default: transform(vs_case() - 2); } }
