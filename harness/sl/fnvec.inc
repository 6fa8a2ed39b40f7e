o0 = xcomp(P) + 2 * ycomp(P) + 4 * zcomp(N);
o1 = DOT(P, N);
v0 = CROSS(P, N);
o2 = comp(Cs, 0) + 2 * comp(Cs, 1) + 4 * comp(Os, 2);
v1 = P; setxcomp(v1, u); if(v > 0.5) setycomp(v1, s); setzcomp(v1, t + 1);
c0 = Cs; setcomp(c0, 1, u); if(v <= 0.5) setcomp(c0, 2, 3);
c1 = min(Cs, Os) - max(Cs, Os);
vector w = vector(1, u, 2);
o3 = DOT(w, P) * 2;
o4 = -DOT(-P, N);
