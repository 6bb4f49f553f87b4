// C26: whole pipelines (mesh, elements, quadrature, assembly, solver) against problems with known solution
#include "../meshgen.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "quadrature/Quadrature.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "Iterative.h"
#include "CG.h"
#include "LU.h"
using namespace h;

namespace {
// Polynomial of two variables up to degree 2
struct Poly {
	double k[6];// 1 x y xx xy yy
	double operator()(double x, double y) const { return k[0] + k[1] * x + k[2] * y + k[3] * x * x + k[4] * x * y + k[5] * y * y; }
	double dx(double x, double y) const { return k[1] + 2 * k[3] * x + k[4] * y; }
	double dy(double x, double y) const { return k[2] + k[4] * x + 2 * k[5] * y; }
	double laplace() const { return 2 * k[3] + 2 * k[5]; }
};
Poly genPoly(Src& s, int degree)
{
	Poly p;
	for(int i = 0; i < 6; ++i) p.k[i] = i < (degree == 1 ? 3 : 6) ? (double)s.num(8) / 2 : 0;
	return p;
}
template<class M, class T> void add(M& a, size_t i, size_t j, T v) { if(v != (T)0) a.set(i, j, a.at(i, j) + v); }

// Stiffness matrix and load vector as the FEM example assembles them
template<class T, NS::Dimension Order, class M, class F> void assemble(const NS::Mesh<T, 2>& mesh, const F& source, M& A, NS::DynamicVector<T>& B)
{
	typedef NS::PolyShapeFunction<T, 2, Order> SF;
	SF sf;
	NS::GaussLegendreQuadrature<T, 2, Order + 1> q;
	for(auto el : mesh.elements()) {
		const T det = std::abs(el->Element.determinant());
		const auto inv = el->Element.inverseMatrix();
		for(size_t i = 0; i < SF::DOF; ++i) {
			const size_t gi = el->DOFVertices[i]->GlobalIndex;
			for(size_t j = 0; j < SF::DOF; ++j)
				add(A, gi, el->DOFVertices[j]->GlobalIndex, det * q.eval([&](const NS::FixedVector<T, 2>& l) -> T { return inv.mul_left(sf.gradient(i, l)).dot(inv.mul_left(sf.gradient(j, l))); }));
			B.set(gi, B.at(gi) + det * q.eval([&](const NS::FixedVector<T, 2>& l) -> T { return sf.value(i, l) * source(el->Element.toGlobal(l)); }));
		}
	}
}
template<class M, class T, class G> void dirichlet(const NS::Mesh<T, 2>& mesh, const G& g, M& A, NS::DynamicVector<T>& B)
{
	T mid = 0;
	const size_t n = mesh.vertices().size();
	for(size_t i = 0; i < n; ++i) mid += std::abs(A.at(i, i));
	mid /= (T)n;
	for(auto v : mesh.vertices()) if(v->Flags & NS::MVF_StrongBoundary) {
		const size_t k = v->GlobalIndex;
		const T u = g(v->Vertex);
		for(size_t i = 0; i < n; ++i) {
			const T a = A.at(i, k);
			if(a != (T)0) { B.set(i, B.at(i) - a * u); A.set(i, k, 0); }
			if(A.at(k, i) != (T)0) A.set(k, i, 0);
		}
		A.set(k, k, mid);
		B.set(k, mid * u);
	}
}
// Reordered to a small band
template<class T> NS::DynamicVector<T> reordered(Ctx& c, const NS::SparseMatrix<T>& A, const NS::DynamicVector<T>& B, double tol)
{
	const auto P = c.s.coin() ? NS::cuthill_mckee(A) : NS::r_cuthill_mckee(A);
	const NS::SparseMatrix<T> A2 = NS::permutate(A, P);
	const NS::DynamicVector<T> B2 = NS::permutate(B, P), x0(A.rows());
	c.label("reordered");
	return NS::permutate(NS::CG::serial::cg(A2, B2, x0, 20000, tol), NS::inverse_permutation(P));
}
template<class T> NS::DynamicVector<T> reordered(Ctx&, const NS::DenseMatrix<T>& A, const NS::DynamicVector<T>& B, double tol) { return NS::CG::serial::cg(A, B, NS::DynamicVector<T>(A.rows()), 20000, tol); }
// Solves with one of the ways the library offers. 'spd' says whether the matrix is symmetric positive definite
template<class M, class T> NS::DynamicVector<T> solve(Ctx& c, const M& A, const NS::DynamicVector<T>& B, double tol, bool spd, bool consistent)
{
	Src& s = c.s;
	const size_t n = A.rows();
	const NS::DynamicVector<T> x0(n);
	const size_t maxIter = 20000;
	switch(s.raw(spd ? 7 : 4)) {
	case 0: {
		M L(n, n), U(n, n), P(n, n);
		NS::LU::serial::doolittle(A, L, U, P);
		c.label("lu");
		return NS::LU::serial::solve_lu(L, U, P.mul(B)); }
	case 1:
		if(n <= 40) {
			c.label("inverse");
			return NS::Operations::inverse(A).mul(B);
		} // fall through
	case 2: {
		size_t it = 0;
		c.label("sor");
		return NS::Iterative::serial::sor(A, B, x0, s.coin() || !(spd || consistent) ? 1.0 : 0.6 + 0.1 * (double)s.raw(11), maxIter, tol, &it); }
	case 3: {
		if(!spd) { c.label("jacobi"); return NS::Iterative::serial::jacobi(A, B, x0, maxIter, tol); }
		c.label("cg");
		return NS::CG::serial::cg(A, B, x0, maxIter, tol); }
	case 4: {
		M C(n, n);
		NS::CG::serial::jacobi(A, C);
		c.label("pcg");
		return NS::CG::serial::pcg(A, B, C, x0, maxIter, tol); }
	case 5: {
		M L(n, n);
		NS::LU::serial::cholesky(A, L);
		c.label("cholesky");
		return NS::LU::serial::solve_lu(L, L.transpose(), B); }
	default: return reordered(c, A, B, tol);
	}
}

// Patch test: polynomials of the order of the element are reproduced exactly on every mesh
template<class T, NS::Dimension Order, class M> void patchOf(Ctx& c)
{
	Src& s = c.s;
	NS::Mesh<T, 2> m;
	if(s.chance(1, 3)) {
		NS::FixedVector<NS::Dimension, 2> n; n[0] = s.size(2, 6); n[1] = s.size(2, 6);
		NS::FixedVector<T, 2> size; size[0] = (T)s.size(1, 4); size[1] = (T)s.size(1, 4);
		NS::FixedVector<T, 2> off; off[0] = (T)s.num(2); off[1] = (T)s.num(2);
		m = NS::HyperCube<T, 2>::generate(n, size, off);
		NOTE("grid " << n[0] << "x" << n[1] << " size " << size[0] << "x" << size[1] << " at " << off[0] << ", " << off[1]);
		c.label("generated grid");
	} else {
		Cx cx = genComplex(s, 5, CxPlanar, 0.2);
		// Any affine image of the complex
		const double sc = std::ldexp(1.0, (int)s.num(2)), shear = (double)s.num(3) / 4;
		for(auto& v : cx.v) { const double x = v[0], y = v[1]; v[0] = sc * (x + shear * y); v[1] = sc * y; }
		NOTE(cx.str());
		build(m, cx);
		m.setupNeighbors();
		m.setupBoundaries();
	}
	m.prepare();
	m.validate();
	NS::PolyShapeFunction<T, 2, Order>::prepareMesh(m);
	const size_t n = m.vertices().size();
	const Poly u = genPoly(s, (int)Order);
	NOTE("u = " << u.k[0] << " + " << u.k[1] << "x + " << u.k[2] << "y + " << u.k[3] << "xx + " << u.k[4] << "xy + " << u.k[5] << "yy");
	const auto at = [&](const NS::FixedVector<T, 2>& v) { return (T)u((double)v[0], (double)v[1]); };
	M A(n, n);
	NS::DynamicVector<T> B(n);
	assemble<T, Order>(m, [&](const NS::FixedVector<T, 2>&) { return (T)-u.laplace(); }, A, B);

	std::vector<double> x(n);
	double scale = 0, amax = 0, bsum = 0, area = 0, energy = 0, quad = 0, esum = 0;
	for(size_t i = 0; i < n; ++i) { x[i] = u((double)m.vertex(i)->Vertex[0], (double)m.vertex(i)->Vertex[1]); scale = std::max(scale, std::abs(x[i])); }
	for(auto el : m.elements()) {
		const auto& p = el->Vertices;
		double px[3], py[3];
		for(int i = 0; i < 3; ++i) { px[i] = (double)p[i]->Vertex[0]; py[i] = (double)p[i]->Vertex[1]; }
		const double a = std::abs((px[1] - px[0]) * (py[2] - py[0]) - (py[1] - py[0]) * (px[2] - px[0])) / 2;
		area += a;
		// The middles of the edges integrate degree two exactly
		for(int i = 0; i < 3; ++i) { const double mx = (px[i] + px[(i + 1) % 3]) / 2, my = (py[i] + py[(i + 1) % 3]) / 2; energy += a / 3 * (std::pow(u.dx(mx, my), 2) + std::pow(u.dy(mx, my), 2)); }
	}
	const double e = (double)eps<T>();
	// Load sums to the integral of the source, stiffness is symmetric, knows constants and the energy
	for(size_t i = 0; i < n; ++i) {
		bsum += (double)B.at(i);
		double row = 0, rowx = 0;
		for(size_t j = 0; j < n; ++j) {
			const double a = (double)A.at(i, j);
			amax = std::max(amax, std::abs(a));
			row += a; rowx += a * x[j];
			REQ(std::abs(a - (double)A.at(j, i)) <= 200 * e * (1 + amax), "stiffness is not symmetric: " << i << ", " << j << " is " << a << " and " << A.at(j, i));
		}
		REQ(std::abs(row) <= 2000 * e * (1 + amax), "row " << i << " of the stiffness matrix sums to " << row);
		quad += rowx * x[i]; esum += std::abs(rowx * x[i]);
	}
	REQ(std::abs(bsum + u.laplace() * area) <= 2000 * e * (1 + std::abs(u.laplace() * area)), "load sums to " << bsum << " instead of " << -u.laplace() * area);
	REQ(std::abs(quad - energy) <= 4000 * e * (1 + esum + amax * scale * scale * (double)n), "energy of the interpolated solution is " << quad << " instead of " << energy);

	dirichlet(m, at, A, B);
	size_t inner = 0;
	for(auto v : m.vertices()) inner += !(v->Flags & NS::MVF_StrongBoundary);
	const NS::DynamicVector<T> X = solve(c, A, B, (e < 1e-10 ? 1e-11 : 1e-5) * std::max(1.0, scale), true, false);
	REQ(X.size() == n, "solution has " << X.size() << " entries");
	const double tol = (e < 1e-10 ? 1e-7 : 1e-2) * std::max(1.0, scale);
	for(size_t i = 0; i < n; ++i)
		REQ(std::abs((double)X.at(i) - x[i]) <= tol, "solution at degree of freedom " << i << " (" << m.vertex(i)->Vertex[0] << ", " << m.vertex(i)->Vertex[1] << ") is " << X.at(i) << " instead of " << x[i]);
	c.label(inner > 0, "inner unknowns");
	c.nontrivial(inner > 0);
}
template<class T, NS::Dimension Order> void patch(Ctx& c) { if(c.s.chance(1, 4)) patchOf<T, Order, NS::DenseMatrix<T> >(c); else patchOf<T, Order, NS::SparseMatrix<T> >(c); }

// Smooth solution on generated grids: the error is bounded by the order of the element
template<class T, NS::Dimension Order> void smooth(Ctx& c)
{
	Src& s = c.s;
	const double w = 1 + (double)s.raw(3), ht = 1 + (double)s.raw(3);
	const size_t per = Order == 1 ? s.size(2, 8) : s.size(1, 4);// Cells per unit
	NS::FixedVector<NS::Dimension, 2> n; n[0] = (size_t)w * per; n[1] = (size_t)ht * per;
	NS::FixedVector<T, 2> size; size[0] = (T)w; size[1] = (T)ht;
	NS::FixedVector<T, 2> off; off[0] = (T)s.num(2); off[1] = (T)s.num(2);
	const double a = (double)s.size(1, 6) / 3, b = (double)s.size(0, 6) / 3, pa = (double)s.num(6) / 2, pb = (double)s.num(6) / 2;
	NOTE(n[0] << "x" << n[1] << " cells on " << w << "x" << ht << " at " << off[0] << ", " << off[1] << ", u = sin(" << a << "x + " << pa << ") cos(" << b << "y + " << pb << ")");
	NS::Mesh<T, 2> m = NS::HyperCube<T, 2>::generate(n, size, off);
	m.prepare();
	m.validate();
	NS::PolyShapeFunction<T, 2, Order>::prepareMesh(m);
	const auto u = [&](const NS::FixedVector<T, 2>& v) { return (T)(std::sin(a * (double)v[0] + pa) * std::cos(b * (double)v[1] + pb)); };
	const size_t N = m.vertices().size();
	NS::SparseMatrix<T> A(N, N);
	NS::DynamicVector<T> B(N);
	assemble<T, Order>(m, [&](const NS::FixedVector<T, 2>& v) { return (T)(a * a + b * b) * u(v); }, A, B);
	dirichlet(m, u, A, B);
	const NS::DynamicVector<T> X = NS::CG::serial::cg(A, B, NS::DynamicVector<T>(N), 5000, 1e-10);
	double err = 0;
	for(auto v : m.vertices()) err = std::max(err, std::abs((double)X.at(v->GlobalIndex) - (double)u(v->Vertex)));
	const double hh = 1.0 / (double)per, k = std::max(a, b), bound = (Order == 1 ? 0.4 : 0.1) * std::pow(hh * k, (double)Order + 1) + 1e-8;
	REQ(err <= bound, "error " << err << " exceeds " << bound << " at width " << hh);
	c.nontrivial(n[0] > 1 && n[1] > 1);
}

// Intervals with any nodes: the one dimensional elements solve -u'' = f
template<class T, NS::Dimension Order> void line(Ctx& c)
{
	Src& s = c.s;
	typedef NS::PolyShapeFunction<T, 1, Order> SF;
	SF sf;
	NS::GaussLegendreQuadrature<T, 1, Order + 1 <= 3 ? Order + 1 : 3> q;
	const size_t cells = s.size(1, 12), n = cells * Order + 1;
	std::vector<double> node(cells + 1);
	node[0] = (double)s.num(8);
	for(size_t i = 0; i < cells; ++i) node[i + 1] = node[i] + (double)s.size(1, 8) / 4;
	double k[4];
	for(int i = 0; i < 4; ++i) k[i] = i <= (int)Order && i <= 2 ? (double)s.num(8) / 2 : 0;
	const auto u = [&](double x) { const double y = x - node[0]; return k[0] + k[1] * y + k[2] * y * y; };
	NOTE("nodes " << vs(node) << " u = " << k[0] << " + " << k[1] << "y + " << k[2] << "yy");
	NS::SparseMatrix<T> A(n, n);
	NS::DynamicVector<T> B(n);
	// Local order: both ends, then the middle
	std::vector<double> x(n);
	for(size_t e = 0; e < cells; ++e) {
		const double len = node[e + 1] - node[e];
		size_t g[3] = {e * Order, (e + 1) * Order, e * Order + 1};
		for(size_t i = 0; i < SF::DOF; ++i) {
			// Position of the node from the function itself
			x[g[i]] = node[e] + len * (i == 0 ? 0 : i == 1 ? 1 : 0.5);
			for(size_t j = 0; j < SF::DOF; ++j)
				add(A, g[i], g[j], q.eval([&](const NS::FixedVector<T, 1>& l) -> T { return sf.gradient(i, l)[0] * sf.gradient(j, l)[0] / (T)len; }));
			B.set(g[i], B.at(g[i]) + q.eval([&](const NS::FixedVector<T, 1>& l) -> T { return sf.value(i, l) * (T)(-2 * k[2]) * (T)len; }));
		}
	}
	double scale = 1;
	for(double y : x) scale = std::max(scale, std::abs(u(y)));
	for(size_t b : {(size_t)0, n - 1}) {
		for(size_t i = 0; i < n; ++i) { const T a = A.at(i, b); B.set(i, B.at(i) - a * (T)u(x[b])); A.set(i, b, 0); A.set(b, i, 0); }
		A.set(b, b, 1);
		B.set(b, (T)u(x[b]));
	}
	const double e = (double)eps<T>();
	const NS::DynamicVector<T> X = solve(c, A, B, (e < 1e-10 ? 1e-11 : 1e-5) * scale, true, false);
	for(size_t i = 0; i < n; ++i)
		REQ(std::abs((double)X.at(i) - u(x[i])) <= (e < 1e-10 ? 1e-7 : 1e-2) * scale, "solution at " << x[i] << " is " << X.at(i) << " instead of " << u(x[i]));
	c.nontrivial(n > 2);
}

// Five point stencil as in the FDM example: exact for cubic polynomials
template<class T> void fdm(Ctx& c)
{
	Src& s = c.s;
	const size_t xc = s.size(3, 9), yc = s.size(3, 9), d = xc * yc;
	const double hx = std::ldexp(1.0, -(int)s.raw(3)), hy = std::ldexp(1.0, -(int)s.raw(3));
	double k[10];
	for(int i = 0; i < 10; ++i) k[i] = (double)s.num(4) / 4;
	const auto u = [&](double x, double y) { return k[0] + k[1] * x + k[2] * y + k[3] * x * x + k[4] * x * y + k[5] * y * y + (k[6] * x * x * x + k[7] * x * x * y + k[8] * x * y * y + k[9] * y * y * y) / 4; };
	const auto lap = [&](double x, double y) { return 2 * k[3] + 2 * k[5] + (6 * k[6] * x + 2 * k[7] * y + 2 * k[8] * x + 6 * k[9] * y) / 4; };
	NOTE(xc << "x" << yc << " points, widths " << hx << ", " << hy << " coefficients " << vs(std::vector<double>(k, k + 10)));
	const auto lin = [&](size_t x, size_t y) { return y * xc + x; };
	const double r2 = hy * hy / (hx * hx), C = -2 * (1 + r2);
	NS::SparseMatrix<T> A(d, d);
	NS::DynamicVector<T> B;
	B.resize(d);
	double scale = 1;
	for(size_t x = 0; x < xc; ++x) for(size_t y = 0; y < yc; ++y) {
		const double px = (double)x * hx, py = (double)y * hy;
		scale = std::max(scale, std::abs(u(px, py)));
		if(x == 0 || y == 0 || x == xc - 1 || y == yc - 1) { A.set(lin(x, y), lin(x, y), 1); B.set(lin(x, y), (T)u(px, py)); continue; }
		A.set(lin(x, y), lin(x - 1, y), (T)r2);
		A.set(lin(x, y), lin(x, y), (T)C);
		A.set(lin(x, y), lin(x + 1, y), (T)r2);
		A.set(lin(x, y), lin(x, y - 1), 1);
		A.set(lin(x, y), lin(x, y + 1), 1);
		B.set(lin(x, y), (T)(hy * hy * lap(px, py)));
	}
	REQ(A.filled_count() == d + 4 * (xc - 2) * (yc - 2), "matrix has " << A.filled_count() << " entries");
	const double e = (double)eps<T>();
	const NS::DynamicVector<T> X = solve(c, A, B, (e < 1e-10 ? 1e-11 : 3e-6) * scale, false, true);
	for(size_t x = 0; x < xc; ++x) for(size_t y = 0; y < yc; ++y)
		REQ(std::abs((double)X.at(lin(x, y)) - u((double)x * hx, (double)y * hy)) <= (e < 1e-10 ? 1e-7 : 1e-2) * scale, "solution at " << x << ", " << y << " is " << X.at(lin(x, y)) << " instead of " << u((double)x * hx, (double)y * hy));
	c.nontrivial();
}

// Space-time system as in the heat example against implicit Euler steps solved one after another
template<class T> void heat(Ctx& c)
{
	Src& s = c.s;
	const size_t xc = s.size(3, 6), yc = s.size(3, 6), tc = s.size(2, 5), d = tc * xc * yc;
	const double hx = 1.0 / (double)(xc - 1), hy = 1.0 / (double)(yc - 1), ht = 1.0 / (double)(1u << s.raw(8)), kf = (double)s.size(1, 8) / 4, src = (double)s.num(4);
	const auto lin = [&](size_t t, size_t x, size_t y) { return t * yc * xc + y * xc + x; };
	const auto border = [&](size_t x, size_t y) { return x == 0 || y == 0 || x == xc - 1 || y == yc - 1; };
	const double ix = kf / (hx * hx), iy = kf / (hy * hy), it = 1 / ht;
	NOTE(tc << " times, " << xc << "x" << yc << " points, ht " << ht << " k " << kf << " f " << src);
	NS::SparseMatrix<T> A(d, d, s.coin() ? d * 7 : 0);
	NS::DynamicVector<T> B(d);
	std::vector<double> ref(d);
	for(size_t t = 0; t < tc; ++t) for(size_t y = 0; y < yc; ++y) for(size_t x = 0; x < xc; ++x) {
		const size_t m = lin(t, x, y);
		if(t == 0 || border(x, y)) {
			ref[m] = t == 0 ? (double)s.num(16) / 4 : (double)(x + 2 * y) / 4;
			A.set(m, m, 1); B.set(m, (T)ref[m]);
			continue;
		}
		A.set(m, lin(t - 1, x, y), (T)-it);
		A.set(m, lin(t, x, y - 1), (T)-iy);
		A.set(m, lin(t, x - 1, y), (T)-ix);
		A.set(m, m, (T)(2 * (ix + iy) + it));
		A.set(m, lin(t, x + 1, y), (T)-ix);
		A.set(m, lin(t, x, y + 1), (T)-iy);
		B.set(m, (T)src);
	}
	// Reference: Gauss-Seidel on each time step until nothing changes
	double scale = 1;
	for(size_t t = 1; t < tc; ++t) for(int k = 0; k < 100000; ++k) {
		double mv = 0;
		for(size_t y = 1; y + 1 < yc; ++y) for(size_t x = 1; x + 1 < xc; ++x) {
			const double v = (src + it * ref[lin(t - 1, x, y)] + ix * (ref[lin(t, x - 1, y)] + ref[lin(t, x + 1, y)]) + iy * (ref[lin(t, x, y - 1)] + ref[lin(t, x, y + 1)])) / (2 * (ix + iy) + it);
			mv = std::max(mv, std::abs(v - ref[lin(t, x, y)]));
			ref[lin(t, x, y)] = v;
		}
		if(mv < 1e-14) break;
	}
	for(double v : ref) scale = std::max(scale, std::abs(v));
	const double e = (double)eps<T>();
	const NS::DynamicVector<T> X = solve(c, A, B, (e < 1e-10 ? 1e-11 : 3e-6) * scale, false, false);
	for(size_t i = 0; i < d; ++i) REQ(std::abs((double)X.at(i) - ref[i]) <= (e < 1e-10 ? 1e-8 : 1e-2) * scale, "unknown " << i << " is " << X.at(i) << " instead of " << ref[i]);
	c.nontrivial();
}
}
