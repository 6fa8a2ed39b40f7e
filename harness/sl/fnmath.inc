o0 = abs(u - v);
o1 = min(u, v, s);
o2 = max(u, v, s, t);
o3 = clamp(u * 2, 0.25, 1.5);
o4 = mix(u, v, s);
o5 = sign(u - 0.5);
c0 = mix(Cs, Os, t);
c1 = clamp(Cs, color(0.25, 0.25, 0.5), color(0.5, 0.75, 0.75));
