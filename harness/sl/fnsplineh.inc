if(t > 0 && t < 1) { o0 = spline("hermite", t, u, 1, v, 2, s, 3); o1 = spline("bspline", t, u, 1, v, 2, s); o2 = spline("power", t, u, 3, v, 2, 1, s, 2, v); o3 = spline("catmull-rom", t, u, 1, v, 2); o4 = spline("bezier", t, u, 1, v, 2, s, 3, u); c0 = spline("bspline", t, Cs, color(0, 1, u), Cs * 2, color(v, 0, 1)); v0 = spline("linear", t, P, P * 2, P - vector(1, u, 0), P); v1 = spline(t, P, P * 2, P - vector(1, u, 0), P, P + vector(0, 0, 1)); }
