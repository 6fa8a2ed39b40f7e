c0 = u;
c1 = color(P * 2);
v0 = vector(v);
v1 = N; 
point q = P + v0;
normal m = normal(q);
o0 = zcomp(m);
o1 = comp(color(s), 2);
if(u > v) { c0 = s; v0 = 0; } else { v1 = q; }
vector w = vector(Cs);
o2 = xcomp(w) - ycomp(w);
