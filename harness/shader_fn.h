// the built-in functions of the shading language, by their definition
static inline double abs(double a) { return a < 0 ? -a : a; }
static inline double sign(double a) { return a < 0 ? -1 : 1; }
template<class... A> static double min(double a, A... r); template<class... A> static double max(double a, A... r);
static inline double min(double a) { return a; } static inline double max(double a) { return a; }
template<class... A> static double min(double a, A... r) { double b = min(r...); return a < b ? a : b; } template<class... A> static double max(double a, A... r) { double b = max(r...); return a > b ? a : b; }
static inline color min(const color& a, const color& b) { return color(min(a.x, b.x), min(a.y, b.y), min(a.z, b.z)); } static inline color max(const color& a, const color& b) { return color(max(a.x, b.x), max(a.y, b.y), max(a.z, b.z)); }
static inline double clamp(double a, double lo, double hi) { return a < lo ? lo : a > hi ? hi : a; } static inline color clamp(const color& a, const color& l, const color& h) { return color(clamp(a.x, l.x, h.x), clamp(a.y, l.y, h.y), clamp(a.z, l.z, h.z)); }
template<class T> static T mix(const T& a, const T& b, double k) { return a * (1 - k) + b * k; }
static inline double step(double m, double v) { return v < m ? 0 : 1; } static inline double smoothstep(double a, double b, double v) { double x = (v - a) / (b - a); return v < a ? 0 : v >= b ? 1 : x * x * (3 - 2 * x); }
static inline double floor(double a) { double n = -8; while(n + 1 <= a) n += 1; return n; } static inline double ceil(double a) { return -floor(-a); } static inline double round(double a) { return floor(a + 0.5); } static inline double mod(double a, double b) { return a - b * floor(a / b); }
static inline double xcomp(const color& c) { return c.x; } static inline double ycomp(const color& c) { return c.y; } static inline double zcomp(const color& c) { return c.z; } static inline double comp(const color& c, int i) { return i == 0 ? c.x : i == 1 ? c.y : c.z; }
static inline void setxcomp(color& c, double v) { c.x = v; } static inline void setycomp(color& c, double v) { c.y = v; } static inline void setzcomp(color& c, double v) { c.z = v; } static inline void setcomp(color& c, int i, double v) { (i == 0 ? c.x : i == 1 ? c.y : c.z) = v; }
static inline double DOT(const color& a, const color& b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static inline color CROSS(const color& a, const color& b) { return color(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static inline double length(const color& a) { return ::sqrt(DOT(a, a)); } static inline double distance(const color& a, const color& b) { return length(a - b); } static inline color normalize(const color& a) { return a / color(length(a)); } static inline double inversesqrt(double a) { return 1 / ::sqrt(a); } static inline double sqrt(double a) { return ::sqrt(a); }
static inline double radians(double a) { return a * 3.14159265358979 / 180; } static inline double degrees(double a) { return a * 180 / 3.14159265358979; }
static inline color reflect(const color& I, const color& N) { return I - N * (2 * DOT(I, N)); } static inline color faceforward(const color& N, const color& I, const color& ref) { return DOT(I, ref) <= 0 ? N : -N; }
static inline double ptlined(const color& a, const color& b, const color& q) { double t = clamp(DOT(q - a, b - a) / DOT(b - a, b - a), 0, 1); return distance(q, a + (b - a) * t); }
// splines: n points, x in [0,1] over the spans
template<class T> static T splineOf(const double B[4][4], int st, double x, const T* y, int n) { int spans = (n - 4) / st + 1; double p = x * spans; int k = 0; while(k + 1 < spans && p >= k + 1) ++k; double t = p - k, w[4] = {t * t * t, t * t, t, 1}; T r = T(0); for(int j = 0; j < 4; ++j) { double c = 0; for(int i = 0; i < 4; ++i) c += w[i] * B[i][j]; r = r + y[k * st + j] * T(c); } return r; }
static const double CATMULL[4][4] = {{-0.5, 1.5, -1.5, 0.5}, {1, -2.5, 2, -0.5}, {-0.5, 0, 0.5, 0}, {0, 1, 0, 0}}, BEZIER[4][4] = {{-1, 3, -3, 1}, {3, -6, 3, 0}, {-3, 3, 0, 0}, {1, 0, 0, 0}}, LINEAR[4][4] = {{0, 0, 0, 0}, {0, 0, 0, 0}, {0, -1, 1, 0}, {0, 1, 0, 0}};
template<class... A> static double spl(double x, const double (*B)[4], int st, A... a) { double y[] = {(double)a...}; return splineOf(B, st, x, y, sizeof...(A)); }
template<class... A> static double spline(double x, double a, double b, double c, double d, A... r) { return spl(x, CATMULL, 1, a, b, c, d, r...); }
template<class... A> static color spline(double x, const color& a, const color& b, const color& c, const color& d, A... r) { color y[] = {a, b, c, d, r...}; return splineOf(CATMULL, 1, x, y, 4 + sizeof...(A)); }
static const double BSPLINE[4][4] = {{-1 / 6., 3 / 6., -3 / 6., 1 / 6.}, {3 / 6., -6 / 6., 3 / 6., 0}, {-3 / 6., 0, 3 / 6., 0}, {1 / 6., 4 / 6., 1 / 6., 0}}, HERMITE[4][4] = {{2, 1, -2, 1}, {-3, -2, 3, -1}, {0, 1, 0, 0}, {1, 0, 0, 0}}, POWER[4][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
template<class T> static T splineNamed(const char* n, double x, const T* y, int k) { return *n == 'l' ? splineOf(LINEAR, 1, x, y, k) : *n == 'h' ? splineOf(HERMITE, 2, x, y, k) : *n == 'p' ? splineOf(POWER, 4, x, y, k) : *n == 'c' ? splineOf(CATMULL, 1, x, y, k) : n[1] == 's' ? splineOf(BSPLINE, 1, x, y, k) : splineOf(BEZIER, 3, x, y, k); }
template<class... A> static double spline(const char* n, double x, double a, A... r) { double y[] = {a, (double)r...}; return splineNamed(n, x, y, 1 + sizeof...(A)); }
template<class... A> static color spline(const char* n, double x, const color& a, A... r) { color y[] = {a, r...}; return splineNamed(n, x, y, 1 + sizeof...(A)); }
template<class T> static T splinea(double x, Arr<T>& a) { return splineOf(CATMULL, 1, x, a.v, a.n); } template<class T> static T splinea(const char* n, double x, Arr<T>& a) { return splineNamed(n, x, a.v, a.n); }
// matrices act on row vectors
struct matrix { double a[4][4]; matrix() { for(int i = 0; i < 16; ++i) a[i / 4][i % 4] = 0; } matrix(double d) { for(int i = 0; i < 16; ++i) a[i / 4][i % 4] = i % 5 ? 0 : d; }
    template<class... A> matrix(double x, double y, A... r) { double v[] = {x, y, (double)r...}; for(int i = 0; i < 16; ++i) a[i / 4][i % 4] = v[i]; } };
static matrix operator*(const matrix& p, const matrix& q) { matrix r; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { double s = 0; for(int k = 0; k < 4; ++k) s += p.a[i][k] * q.a[k][j]; r.a[i][j] = s; } return r; }
static matrix operator+(matrix p, const matrix& q) { for(int i = 0; i < 16; ++i) p.a[i / 4][i % 4] += q.a[i / 4][i % 4]; return p; } static matrix operator-(matrix p, const matrix& q) { for(int i = 0; i < 16; ++i) p.a[i / 4][i % 4] -= q.a[i / 4][i % 4]; return p; }
static double comp(const matrix& m, int i, int j) { return m.a[i][j]; } static void setcomp(matrix& m, int i, int j, double v) { m.a[i][j] = v; }
static double det3(double a, double b, double c, double d, double e, double f, double g, double h, double i) { return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g); }
static double determinant(const matrix& m) { double r = 0; for(int j = 0; j < 4; ++j) { double s[9]; int n = 0; for(int i = 1; i < 4; ++i) for(int k = 0; k < 4; ++k) if(k != j) s[n++] = m.a[i][k]; r += (j & 1 ? -1 : 1) * m.a[0][j] * det3(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]); } return r; }
static color row(const matrix& m, int i) { return color(m.a[i][0], m.a[i][1], m.a[i][2]); }
static color vtransform(const matrix& m, const color& v) { return row(m, 0) * color(v.x) + row(m, 1) * color(v.y) + row(m, 2) * color(v.z); } static color transform(const matrix& m, const color& p) { return (vtransform(m, p) + row(m, 3)) / color(p.x * m.a[0][3] + p.y * m.a[1][3] + p.z * m.a[2][3] + m.a[3][3]); }
static matrix translate(const matrix& m, const color& t) { return m * matrix(1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, t.x, t.y, t.z, 1); } static matrix scale(const matrix& m, const color& t) { return m * matrix(t.x, 0, 0, 0, 0, t.y, 0, 0, 0, 0, t.z, 0, 0, 0, 0, 1); }
// normals go by the inverse transpose, to the length the transformation gives
static color ntransform(const matrix& m, const color& n) { color a = row(m, 0), b = row(m, 1), c = row(m, 2); color x = CROSS(b, c), y = CROSS(c, a), z = CROSS(a, b); return (x * color(n.x) + y * color(n.y) + z * color(n.z)) / color(DOT(a, x)); }
