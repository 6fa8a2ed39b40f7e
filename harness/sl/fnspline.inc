o1 = spline(v, s, t, 1, s, 3, t);
