float i;
float j;
for(i = 0; i < 3; i += 1) { if(u > 0.5) { o0 += i; if(i == v) { o0 += 10; } } else o0 += 1; }
for(i = 0; i < 4 * s; i += 2) { o1 += 1; for(j = i; j < 2; j += 1) o2 += u; }
o3 = i;
uniform float k;
uniform float sum = 0;
for(k = 0; k < 3; k += 1) { sum += k; if(t > 0.5) o4 += k; }
o5 = sum;
