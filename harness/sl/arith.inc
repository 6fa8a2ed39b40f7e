o0 = u + v * s - t / 2;
o1 = (u - v) * (s - t) - -u;
o2 = 8 / (u + 9) / 2 - v - s - t;
o3 = -u * 2 + 3 * -(v - 1);
o4 = u; o4 += v; o4 *= 2; o4 -= s; o4 /= 4;
o5 = 1 - 2 - 3 + u * (v - s) * 2;
c0 = Cs * 2 + color(u, v, s) * Cs - Os / 2;
c1 = Cs; c1 *= Os; c1 += u; c1 -= color(1, 0, 0.5);
v0 = P * u - v * N + vector(1, 2, 3) / 2;
v1 = -P; v1 += N; v1 *= 3; v1 -= P * 0.5;
