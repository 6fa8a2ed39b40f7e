o0 = step(0.5, u);
o1 = smoothstep(0.25, 0.75, v);
o2 = floor(u * 3 - 1);
