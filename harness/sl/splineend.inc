o0 = spline("bezier", t, u, 1, v, 2);
