float i;
float j;
for(i = 0; i < 3; i += 1) { if(i + u > 2.5) break; o0 += 1; if(v > 0.75) { o1 += 1; if(i >= 1) { o2 = i; break; } } }
o3 = i;
for(i = 0; i < 3; i += 1) { if(u < 0.25 * i) continue; o4 += 1 + i; }
i = 0;
while(i < 3) { i += 1; if(s > 0.5) { if(t * 3 < i) continue; o5 += 1; } else break; }
