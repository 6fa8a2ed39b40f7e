float i;
float j;
for(i = 0; i < 2; i += 1) { for(j = 0; j < 2; j += 1) { if(u + i > 1.5) break; if(v > j + 0.5) continue; o0 += 1; } o1 += j; if(s > 0.5) { if(t > 0.5) continue; o2 += 1; } o3 += 1; }
o4 = i;
if(u > 0.5) { for(i = 0; i < 2; i += 1) { o5 += 1; if(v > 0.5) break; o5 += s; } o5 += 10; }
