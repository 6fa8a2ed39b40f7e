uniform float k = 3;
uniform color kc = color(1, 2, 0.5);
uniform vector kv = vector(0.25, 1, 2);
uniform float m = k * 2 - 1;
o0 = k + u; o0 -= k * v; o1 = u - k; o2 = k / (u + 1) - (v + 1) / k; o3 = -k + m;
c0 = kc * u + k * Cs - kc; c1 = Cs - kc * k; c1 += kc; c1 /= kc;
v0 = kv * u - P * k + kv * k; v1 = kv; if(u > v) v1 = kv + P;
o4 = DOT(kv, P) - DOT(P, kv) * 2 + DOT(kv, kv);
v1 += CROSS(kv, P);
uniform color kk = kc; kk *= 2; kk += k;
c1 = c1 + kk - k;
o5 = m; if(s > 0.5) o5 = k; else if(k > 2) o5 += k;
