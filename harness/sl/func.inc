float half(float a) { return a * 0.5; }
float twice(float a; output float b) { b = b + a; return a * 2; }
void swap(output float a; output float b) { float c = a; a = b; b = c; }
color tint(color c; float k) { color r = c * k; return r + half(k); }
float pick(float a) { float r = 1; if(a > 0.5) { r = half(a); float i; for(i = 0; i < 2; i += 1) r += a; } return r; }
%%
float x = u; float y = v;
o0 = half(u) + half(half(v));
o1 = twice(s, o2);
if(t > 0.5) { swap(x, y); o3 = twice(x, y); }
o4 = x - 2 * y;
c0 = tint(Cs, u) - tint(Os, half(1));
o5 = pick(s); o3 += pick(u);
