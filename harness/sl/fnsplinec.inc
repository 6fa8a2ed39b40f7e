c0 = spline(u, Cs, Os, color(1, 0, 2), Cs * 2, Os);
