float i = 0;
float y = u;
while(y < 2.5) { y += 1; if(v > 0.5) { i += 1; y += s; } }
o0 = y; o1 = i;
float m = 3;
while(m > t * 4) { m -= 1; o2 += m; while(o3 < m * 0.5) o3 += 1; }
o4 = m;
