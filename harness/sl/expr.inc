float a[3]; a[0] = u; a[1] = v; a[2] = s;
a[1] += a[0]; a[2] *= a[1] - 2; a[0] -= 1;
o0 = a[0] - a[1] - a[2]; o1 = u - (v - (s - t)); o2 = u / 2 / 4 * 8; o3 = u - v * s / 2 - -t * -2;
o4 = (u < v) ? 1 : 2;
float x = (o5 = u + 1); x = x + o5;
o4 += x;
c0 = color(u, v, s) * color(2, t, 1) / 2; c1 = -Cs + 1 - Os * Os;
v0 = -(P - N) * 2; v1 = P / 2 - N / (u + 1);
