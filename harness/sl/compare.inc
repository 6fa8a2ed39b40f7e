if(Cs == Os) o0 = 1; else o0 = 2;
if(P == N) o1 = 1;
if(P != N) o2 = 1;
if(Cs != Os && u >= v) o3 = 1;
o4 = (u < v) ? 1 : 0;
if(!(s > t) || u == 0.5) o5 = 1;
