o3 = ceil(s * 2 - 1);
o4 = round(t * 2);
o5 = mod(v * 5 - 2, 2);
