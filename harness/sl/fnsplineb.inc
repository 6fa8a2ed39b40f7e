o2 = spline("linear", s, 0, 1, u, v, 3);
if(t > 0 && t < 1) o3 = spline("bezier", t, u, 1, v, 2);
