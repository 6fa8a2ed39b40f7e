float x = u * 2;
if(x > 0.5) { o0 = x * v; if(v < 0.25) o0 += 3; else o0 -= u; } else o0 = 2 - v;
if(u > v) { o1 = 1; if(s >= 0.5) { o1 = 2; o2 = 5; } else if(t <= 0.5) { o1 = 3; o3 = v; } else { o1 = 4; } o4 = o1 + u; }
if(s < 0.25 && t > 0.75) c0 = color(u, v, 1); else if(s == t || !(u != 0.5)) c0 = 0.25;
