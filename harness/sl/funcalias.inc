float pick(float a) { float r = 1; if(a > 0.5) r = a * 3; return r; }
%%
o0 = pick(s) + pick(u);
