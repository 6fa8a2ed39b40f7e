float a[5]; a[0] = u; a[1] = v; a[2] = 1; a[3] = u - v; a[4] = 3;
color b[4]; b[0] = Cs; b[1] = color(0, u, 1); b[2] = Cs * 2; b[3] = color(1, 1, v);
o0 = splinea(s, a); o1 = splinea("linear", t, a);
c0 = splinea(s, b);
