// C16: triangle geometry and normals
#include "../linalg.h"
#include "Simplex.h"
#include "Normal.h"
using namespace h;

namespace {
struct P2 { ld x, y; };
P2 operator-(P2 a, P2 b) { return P2{a.x - b.x, a.y - b.y}; }
P2 operator+(P2 a, P2 b) { return P2{a.x + b.x, a.y + b.y}; }
P2 operator*(ld f, P2 a) { return P2{f * a.x, f * a.y}; }
ld dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
ld cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
ld len(P2 a) { return std::sqrt(dot(a, a)); }
std::ostream& operator<<(std::ostream& o, P2 p) { return o << "(" << (double)p.x << ", " << (double)p.y << ")"; }

template<class V> P2 p2(const V& v) { return P2{(ld)v[0], (ld)v[1]}; }
template<class T> NS::FixedVector<T, 2> fv(T x, T y) { NS::FixedVector<T, 2> v; v[0] = x; v[1] = y; return v; }

template<class T> void triangle(Ctx& c)
{
	Src& s = c.s;
	typedef NS::FixedVector<T, 2> V;
	const bool flt = eps<T>() > 1e-10;
	V v[3];
	P2 p[3];
	ld det = 0, d = 0;
	for(int tries = 0; ; ++tries) {
		if(tries == 4) throw pbt::Discard();
		ld x[3], y[3];
		for(int i = 0; i < 3; ++i) { x[i] = (ld)s.num(16) / 4; y[i] = (ld)s.num(16) / 4; }
		if(tries == 3) { x[0] = y[0] = y[1] = x[2] = 0; x[1] = 1; y[2] = 1; }
		if(tries == 0 && s.coin()) { // Turn by any angle
			const ld t = (ld)s.range(0, 359) * 3.14159265358979323846L / 180;
			for(int i = 0; i < 3; ++i) { const ld a = x[i] * std::cos(t) - y[i] * std::sin(t); y[i] = x[i] * std::sin(t) + y[i] * std::cos(t); x[i] = a; }
			c.label("turned");
		}
		bool far = false;
		if(tries == 0 && s.raw(3) == 2) { // Scale. The edges have to be longer than the epsilon of the determinant
			int e = (int)s.num(flt ? 8 : 18);
			if((far = s.chance(1, 4))) e = (int)s.range(flt ? -13 : -40, flt ? 28 : 200);
			const ld f = std::ldexp(1.0L, e);
			for(int i = 0; i < 3; ++i) { x[i] *= f; y[i] *= f; }
			c.label("scaled");
		}
		if(tries == 0 && !far && s.raw(3) == 2) { // Move
			const ld a = (ld)s.num(1000), b = (ld)s.num(1000);
			for(int i = 0; i < 3; ++i) { x[i] += a; y[i] += b; }
			c.label("moved");
		}
		for(int i = 0; i < 3; ++i) { v[i] = fv<T>((T)x[i], (T)y[i]); p[i] = p2(v[i]); }
		det = cross(p[1] - p[0], p[2] - p[0]);
		d = std::max(len(p[1] - p[0]), std::max(len(p[2] - p[1]), len(p[0] - p[2])));
		if(d > 0 && std::abs(det) * 50 >= d * d) break;// Reasonable shape
	}
	const ld kappa = d * d / std::abs(det);
	const ld C = std::max(std::max(len(p[0]), len(p[1])), len(p[2]));
	const ld e = 16 * (ld)eps<T>();
	NOTE("triangle " << p[0] << " " << p[1] << " " << p[2]);
	NS::Triangle<T> t;
	if(s.coin()) t = NS::Triangle<T>({{v[0][0], v[0][1]}, {v[1][0], v[1][1]}, {v[2][0], v[2][1]}});
	else for(int i = 0; i < 3; ++i) t[i] = v[i];
	if(s.coin()) { // Prepared with other vertices before
		unsigned which = 1 + (unsigned)s.raw(63);// Coordinates that differ
		for(int i = 0; i < 3; ++i) for(int k = 0; k < 2; ++k) if(which >> (2 * i + k) & 1) t[i][k] = (T)(p[i].*(k ? &P2::y : &P2::x) + d * (k ? -0.5L : 0.25L) * (i + 1));
		t.prepare();
		NOTE("prepared before with " << p2(t[0]) << " " << p2(t[1]) << " " << p2(t[2]));
		if(s.chance(1, 4)) { NS::Triangle<T> u(t), w; w = u; t = w; }
		for(int i = 0; i < 3; ++i) t[i] = v[i];
	}
	t.prepare();
	const NS::Triangle<T>& q = t;
	for(int i = 0; i < 3; ++i) REQ(q[i] == v[i], "vertex " << i << " is " << p2(q[i]));

	// Area and orientation
	REQ(std::abs((ld)t.determinant() - det) <= e * d * d, "determinant " << t.determinant() << " instead of " << (double)det);
	REQ(std::abs((ld)t.volume() - std::abs(det) / 2) <= e * d * d, "volume " << t.volume() << " instead of " << (double)std::abs(det) / 2);
	REQ(std::abs((ld)NS::Triangle<T>::unitVolume() - 0.5L) <= e, "unit volume " << NS::Triangle<T>::unitVolume());
	REQ(std::abs((ld)t.diameter() - d) <= e * d, "diameter " << t.diameter() << " instead of " << (double)d);

	// Circumscribed circle: same distance to all vertices
	const P2 a = p[1] - p[0], b = p[2] - p[0];
	const P2 rel = P2{(b.y * dot(a, a) - a.y * dot(b, b)) / (2 * det), (a.x * dot(b, b) - b.x * dot(a, a)) / (2 * det)};
	const P2 center = rel + p[0];
	const P2 gc = p2(t.center());
	const ld ctol = e * (4 * kappa * kappa * d + C);
	REQ(len(gc - center) <= ctol, "center " << gc << " instead of " << center);
	for(int i = 0; i < 3; ++i) REQ(std::abs(len(gc - p[i]) - len(rel)) <= 2 * ctol, "center " << gc << " has not the same distance to all vertices");
	REQ(std::abs((ld)t.outerRadius() - len(rel)) <= 2 * ctol, "outer radius " << t.outerRadius() << " instead of " << (double)len(rel));

	// Jacobian and its inverse
	const NS::FixedMatrix<T, 2, 2> m = t.matrix(), mi = t.inverseMatrix();
	const ld M[2][2] = {{a.x, b.x}, {a.y, b.y}};
	const ld MI[2][2] = {{b.y / det, -b.x / det}, {-a.y / det, a.x / det}};
	for(size_t i = 0; i < 2; ++i) for(size_t j = 0; j < 2; ++j) {
		REQ(std::abs((ld)m.at(i, j) - M[i][j]) <= e * d, "matrix() is " << grid(m));
		REQ(std::abs((ld)mi.at(i, j) - MI[i][j]) <= e * kappa * d / std::abs(det), "inverseMatrix() is " << grid(mi) << " for matrix() " << grid(m));
	}

	// Local coordinates
	const V unit[3] = {fv<T>(0, 0), fv<T>(1, 0), fv<T>(0, 1)};
	for(int i = 0; i < 3; ++i) {
		REQ(len(p2(t.toGlobal(unit[i])) - p[i]) <= e * (d + C), "local vertex " << i << " maps to " << p2(t.toGlobal(unit[i])));
		REQ(len(p2(t.toLocal(v[i])) - p2(unit[i])) <= 4 * e * kappa * kappa, "vertex " << i << " has local coordinates " << p2(t.toLocal(v[i])));
	}
	const V loc = fv<T>((T)((double)s.num(24) / 8), (T)((double)s.num(24) / 8));
	const P2 l = p2(loc), want = p[0] + l.x * a + l.y * b;
	NOTE("local point " << l);
	const V glob = t.toGlobal(loc);
	REQ(len(p2(glob) - want) <= e * (4 * d + C), "local point " << l << " maps to " << p2(glob) << " instead of " << want);
	const P2 r = p2(glob) - p[0];
	const P2 exact = P2{MI[0][0] * r.x + MI[0][1] * r.y, MI[1][0] * r.x + MI[1][1] * r.y};
	REQ(len(p2(t.toLocal(glob)) - exact) <= 8 * e * kappa * kappa * (1 + len(r) / d), "point " << p2(glob) << " has local coordinates " << p2(t.toLocal(glob)) << " instead of " << exact);

	// Gradients of the barycentric coordinates
	const P2 g[3] = {(1 / det) * P2{p[1].y - p[2].y, p[2].x - p[1].x}, (1 / det) * P2{p[2].y - p[0].y, p[0].x - p[2].x}, (1 / det) * P2{p[0].y - p[1].y, p[1].x - p[0].x}};
	for(int i = 0; i < 3; ++i) {
		const P2 o = p2(t.gradient(i));
		REQ(len(o - g[i]) <= e * kappa * d / std::abs(det), "gradient of component " << i << " is " << o << " instead of " << g[i]);
		for(int j = 0; j < 3; ++j) for(int k = 0; k < 3; ++k)
			REQ(std::abs(dot(o, p[j] - p[k]) - (ld)((i == j) - (i == k))) <= 4 * e * kappa * kappa, "gradient of component " << i << " does not change by the right amount from vertex " << k << " to " << j);
	}

	// Faces
	for(int i = 0; i < 3; ++i) {
		const P2 f = p[(i + 1) % 3], h = p[(i + 2) % 3];
		const P2 mid = P2{(f.x + h.x) / 2, (f.y + h.y) / 2};
		const P2 o = p2(t.faceCenter(i));
		REQ(len(o - mid) <= e * C, "center of face " << i << " is " << o << " instead of " << mid);
		const P2 n = p2(t.faceNormal(i));
		REQ(std::abs(len(n) - 1) <= e, "normal of face " << i << " is " << n);
		REQ(std::abs(dot(n, f - h)) <= e * d, "normal " << n << " of face " << i << " is not orthogonal to it");
		REQ(dot(n, mid - p[i]) > 0, "normal " << n << " of face " << i << " points inwards");
	}
	c.label(det < 0, "clockwise");
	c.nontrivial(std::abs(dot(a, b)) > 0.01L * d * d || !(a.y == 0));
}
// Relabelling and reflecting
template<class T> void relabel(Ctx& c)
{
	Src& s = c.s;
	NS::Triangle<T> t, u;
	ld x[3], y[3];
	for(int i = 0; i < 3; ++i) { x[i] = (ld)s.num(16) / 4; y[i] = (ld)s.num(16) / 4; }
	const ld det = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]);
	if(std::abs(det) < 2) { x[0] = y[0] = y[1] = x[2] = 0; x[1] = 2; y[2] = 3; }
	const std::vector<size_t> p = s.perm(3);
	for(int i = 0; i < 3; ++i) { t[i] = fv<T>((T)x[i], (T)y[i]); u[i] = fv<T>((T)x[p[i]], (T)y[p[i]]); }
	t.prepare(); u.prepare();
	NOTE("vertices " << p2(t[0]) << " " << p2(t[1]) << " " << p2(t[2]) << " in the order " << vs(p));
	const double e = 4096 * eps<T>();
	const size_t inv = (p[0] > p[1]) + (p[0] > p[2]) + (p[1] > p[2]);
	const double D = re(t.determinant()) * (inv % 2 ? -1 : 1), k = 400 / std::abs(re(t.determinant()));
	REQ(std::abs(re(u.determinant()) - D) <= e * (1 + std::abs(D)), "determinant is " << u.determinant() << " after relabelling instead of " << D);
	REQ(std::abs(re(u.volume()) - re(t.volume())) <= e * re(t.volume()) , "volume changes by relabelling");
	REQ((double)len(p2(u.center()) - p2(t.center())) <= e * k * k, "center changes by relabelling");
	REQ(std::abs(re(u.outerRadius()) - re(t.outerRadius())) <= e * k * k, "outer radius changes by relabelling");
	REQ(std::abs(re(u.diameter()) - re(t.diameter())) <= e * 20, "diameter changes by relabelling");
	for(int i = 0; i < 3; ++i) {
		REQ((double)len(p2(u.gradient(i)) - p2(t.gradient(p[i]))) <= e * k, "gradient changes by relabelling");
		REQ((double)len(p2(u.faceCenter(i)) - p2(t.faceCenter(p[i]))) <= e * 10, "face center changes by relabelling");
		REQ((double)len(p2(u.faceNormal(i)) - p2(t.faceNormal(p[i]))) <= e, "face normal changes by relabelling");
	}
	c.nontrivial(inv > 0);
}
template<class T, NS::Dimension K> void normals(Ctx& c)
{
	Src& s = c.s;
	std::array<NS::FixedVector<T, K>, K - 1> v;
	Grid<cl> g(K - 1, K);
	const unsigned z = (unsigned)s.raw(7);
	for(size_t i = 0; i + 1 < K; ++i) for(size_t j = 0; j < K; ++j) {
		const T t = s.chance(10 - z, 10) ? mk<T>((double)s.num(8) / 2) : mk<T>(0);
		v[i][j] = t;
		g(i, j) = wide(t);
	}
	// Exact generalised cross product by cofactors
	std::vector<ld> n(K, 0);
	ld L = 0, prod = 1, mx = 1;
	for(size_t i = 0; i < K; ++i) {
		std::vector<size_t> cols;
		for(size_t j = 0; j < K; ++j) if(j != i) cols.push_back(j);
		std::vector<size_t> q(K - 1);
		for(size_t j = 0; j + 1 < K; ++j) q[j] = j;
		ld sum = 0;
		do { // Leibniz
			size_t inv = 0;
			ld t = 1;
			for(size_t a = 0; a + 1 < K; ++a) { for(size_t b = a + 1; b + 1 < K; ++b) inv += q[a] > q[b]; t *= g(a, cols[q[a]]).real(); }
			sum += inv % 2 ? -t : t;
		} while(std::next_permutation(q.begin(), q.end()));
		n[i] = i % 2 ? -sum : sum;
		L += n[i] * n[i];
	}
	L = std::sqrt(L);
	for(size_t i = 0; i + 1 < K; ++i) {
		ld t = 0;
		for(size_t j = 0; j < K; ++j) { t += std::norm(g(i, j)); mx = std::max(mx, std::abs(g(i, j))); }
		prod *= std::max(1.0L, std::sqrt(t));
	}
	NOTE("vectors " << g);
	if(L < 1e-3L * prod) throw pbt::Discard();// (Nearly) dependent
	if(s.chance(1, 3)) { // Same normal at any length; determinants of several vectors need to be larger than epsilon
		const int top = eps<T>() > 1e-10 ? 10 : 100, e = (int)s.range(K == 2 ? -top : 0, top);
		for(size_t i = 0; i + 1 < K; ++i) for(size_t j = 0; j < K; ++j) v[i][j] = sh(v[i][j], e);
		NOTE("times 2^" << e);
	}
	const NS::FixedVector<T, K> r = NS::Math::normal<T, K>(v);
	const ld tol = 64.0L * K * K * (ld)eps<T>() * prod * mx / L;
	std::ostringstream o; o << vs(vec(r));
	ld l = 0;
	for(size_t i = 0; i < K; ++i) {
		REQ(std::abs((ld)r[i] - n[i] / L) <= tol, "normal " << o.str() << " of " << g << ": component " << i << " should be " << (double)(n[i] / L));
		l += (ld)r[i] * (ld)r[i];
	}
	REQ(std::abs(std::sqrt(l) - 1) <= 16 * (ld)eps<T>(), "normal " << o.str() << " is not of length one");
	for(size_t i = 0; i + 1 < K; ++i) {
		ld t = 0, u = 0;
		for(size_t j = 0; j < K; ++j) { t += (ld)r[j] * g(i, j).real(); u += std::abs(g(i, j)); }
		REQ(std::abs(t) <= tol * u, "normal " << o.str() << " is not orthogonal to vector " << i << " of " << g);
	}
	c.nontrivial(K > 2 || z < 6);
}
}
