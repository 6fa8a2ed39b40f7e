matrix m = matrix(u, v, 0, 0, 0, 1, s, 0, 0, 0, 2, 0, t, 1, 0, 1);
o0 = determinant(m);
v0 = transform(m, P);
v1 = vtransform(m, vector(N));
matrix e = 1;
matrix k = translate(e, vector(1, u, 2));
o1 = comp(k, 3, 0) + 2 * comp(k, 3, 1) + 8 * comp(k, 0, 1); 
k = scale(e, point(2, v, 3));
setcomp(m, 1, 2, u);
o2 = comp(k, 1, 1) + 2 * comp(m, 1, 2) + 3 * comp(m, 0, 1);
if(u > v) m = k; else k = m;
o3 = comp(m, 0, 0) + 2 * comp(m, 3, 0) + 4 * comp(m, 3, 3);
o4 = comp(k, 0, 0) + 2 * comp(k, 3, 0) + 4 * comp(k, 3, 3);
normal q = ntransform(matrix(2, 0, 0, 0, 0, 1, s, 0, 0, 0, 4, 0, t, 1, u, 1), N);
o5 = xcomp(q) + 16 * ycomp(q) + 256 * zcomp(q);
