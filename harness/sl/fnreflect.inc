vector n = vector(0, 0.6, 0.8);
v0 = reflect(P, n);
v1 = faceforward(N, P, vector(u - 0.5, v - 0.5, 1));
o0 = DOT(v0, n);
o1 = ptlined(vector(0, 0, 0), vector(2, 0, 0), vector(u * 6 - 2, v * 3, 0));
