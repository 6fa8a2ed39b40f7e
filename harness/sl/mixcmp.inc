uniform float k = 0.5;
uniform color kc = color(0.5, 0.25, 1);
uniform vector kv = vector(0.5, 0, 1);
if(k < u) o0 += 1; if(u < k) o0 += 2; if(k <= u) o0 += 4; if(u <= k) o0 += 8; 
if(k > u) o1 += 1; if(u > k) o1 += 2; if(k >= u) o1 += 4; if(u >= k) o1 += 8;
if(k == u) o2 += 1; if(u != k) o2 += 2; if(k == 0.5) o2 += 4; if(k != 0.5) o2 += 8;
if(kc == Cs) o3 += 1; if(Cs != kc) o3 += 2; if(kc == kc) o3 += 4;
if(kv == P) o4 += 1; if(P != kv) o4 += 2;
if((k > 0.25 && u > v) || k > 1) o5 += 1; if(u > v || k < 1) o5 += 2; if(k > 1 && u > v) o5 += 4; if(!(k > 1) && !(u > v)) o5 += 8;
