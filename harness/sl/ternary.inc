o0 = u > v ? s : t;
o1 = (u > 0.5 && v > 0.5) || s < t ? u - v : (v <= s ? 1 : 2);
c0 = u < 0.5 ? color(u, 1, 2) : Cs;
v0 = s >= t ? P : vector(1, u, v);
if(u != v) o2 = !(s > t) ? 3 : -u; else o3 = 4;
o4 = 1 + (u >= v ? 2 : 3) * s;
