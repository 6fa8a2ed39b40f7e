float a[4];
color cc[2];
uniform float k;
for(k = 0; k < 4; k += 1) a[k] = u * k + v;
o0 = a[3] - a[1]; o1 = a[0];
if(s > 0.5) a[2] = 7;
o2 = a[2];
float i = 1; if(t > 0.5) i = 3;
o3 = a[i];
a[i] = 9;
o4 = a[1]; o5 = a[3];
cc[0] = Cs; cc[1] = color(u, 0, 1); if(u > v) cc[0] = cc[1] * 2;
c0 = cc[0]; c1 = cc[1];
