o0 = length(P);
o1 = distance(P, N);
v0 = normalize(P + vector(3, 0, 0));
o2 = sqrt(u + 1);
o3 = inversesqrt(v + 1);
o4 = radians(180 * s);
o5 = degrees(t);
