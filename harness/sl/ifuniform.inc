uniform float k = 2;
uniform float n = 0;
if(k > 1) { o0 = u; n = 3; } else { o0 = v; n = 4; }
if(k < 1) { o1 = u; } else { if(u > 0.5) { o1 = v; if(k == 2) o2 = n + s; } }
if(u > v) { if(k > 5) o3 = 1; else o3 = 2; o4 = k; } else { o4 = n; if(n > 3) o5 = 1; }
if(k > 1 && u > 0.5 || n == 0) o5 += 2;
