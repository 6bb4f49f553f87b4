// The program poisson_fem (examples/poisson/fem.cpp): the files it writes are a solution of the discretised problem
#include "c26.inl"
#include "loader/MeshObjLoader.h"
#include "loader/MeshTriangleLoader.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

namespace {
typedef NS::Mesh<double, 2> Me;
const double PI = 3.14159265358979323846;

struct Dir {
	std::string p;
	Dir() : p(pbt::scratch() + "/fem-" + std::to_string(getpid())) { mkdir(p.c_str(), 0700); }
	~Dir()
	{
		static const char* const f[] = {"in.obj", "in.node", "in.ele", "out.txt", "poisson_fem_data.dat", "poisson_fem_mesh.dat", "poisson_fem_A.dat", "poisson_fem_B.dat", "poisson_fem_ExactError.dat", "poisson_fem_PostError.dat", "poisson_fem.vtu"};
		for(const char* x : f) unlink((p + "/" + x).c_str());
		rmdir(p.c_str());
	}
};
std::string slurp(const std::string& f)
{
	std::ifstream i(f.c_str());
	REQ(bool(i), "file " << f.substr(f.rfind('/') + 1) << " was not written");
	std::ostringstream o;
	o << i.rdbuf();
	return o.str();
}
// Lines of 'n' numbers
std::vector<std::vector<double> > table(const std::string& f, size_t n)
{
	std::istringstream i(slurp(f));
	std::vector<std::vector<double> > r;
	std::string l;
	while(std::getline(i, l)) {
		std::istringstream w(l);
		std::vector<double> row;
		double d;
		while(w >> d) row.push_back(d);
		REQ(row.size() == n && w.eof(), "line " << r.size() + 1 << " of " << f.substr(f.rfind('/') + 1) << " is malformed: " << l);
		r.push_back(row);
	}
	return r;
}
// What the program is to compute; 'left' is the correct transformation of gradients
template<NS::Dimension Order> void system(const Me& m, bool left, NS::SparseMatrix<double>& A, NS::DynamicVector<double>& B)
{
	typedef NS::PolyShapeFunction<double, 2, Order> SF;
	SF sf;
	NS::GaussLegendreQuadrature<double, 2, Order + 1> q;
	for(auto el : m.elements()) {
		const double det = std::abs(el->Element.determinant());
		const auto inv = el->Element.inverseMatrix();
		const auto grad = [&](size_t i, const NS::FixedVector<double, 2>& l) { NS::FixedVector<double, 2> r = left ? inv.mul_left(sf.gradient(i, l)) : inv.mul(sf.gradient(i, l)); return r; };
		for(size_t i = 0; i < SF::DOF; ++i) {
			const size_t gi = el->DOFVertices[i]->GlobalIndex;
			for(size_t j = 0; j < SF::DOF; ++j) add(A, gi, el->DOFVertices[j]->GlobalIndex, det * q.eval([&](const NS::FixedVector<double, 2>& l) -> double { return grad(i, l).dot(grad(j, l)); }));
			B.set(gi, B.at(gi) + det * q.eval([&](const NS::FixedVector<double, 2>& l) -> double { const auto g = el->Element.toGlobal(l); return sf.value(i, l) * std::sin(PI * g[0]) * std::sin(PI * g[1]); }));
		}
	}
	dirichlet(m, [](const NS::FixedVector<double, 2>&) { return 0.0; }, A, B);
}
bool same(const NS::SparseMatrix<double>& A, const std::vector<std::vector<double> >& got)
{
	NS::SparseMatrix<double> D(A.rows(), A.columns());
	for(const auto& e : got) {
		if(e[0] < 1 || e[1] < 1 || e[0] > (double)A.rows() || e[1] > (double)A.rows()) return false;
		D.set((size_t)e[0] - 1, (size_t)e[1] - 1, e[2]);
	}
	for(size_t i = 0; i < A.rows(); ++i) for(size_t j = 0; j < A.rows(); ++j) if(std::abs(A.at(i, j) - D.at(i, j)) > 1e-5 * std::abs(A.at(i, j)) + 1e-6) return false;
	return true;
}
template<NS::Dimension Order> void check(Ctx& c, Me& m, const std::string& d, int kind, size_t N)
{
	NS::PolyShapeFunction<double, 2, Order>::prepareMesh(m);
	const size_t n = m.vertices().size();
	const auto data = table(d + "/poisson_fem_data.dat", 3), mesh = table(d + "/poisson_fem_mesh.dat", 3), mat = table(d + "/poisson_fem_A.dat", 3),
		rhs = table(d + "/poisson_fem_B.dat", 1), ex = table(d + "/poisson_fem_ExactError.dat", 1), post = table(d + "/poisson_fem_PostError.dat", 1);
	REQ(data.size() == n && rhs.size() == n && ex.size() == n, "wrote " << data.size() << " values, " << rhs.size() << " right hand sides, " << ex.size() << " errors for " << n << " degrees of freedom");
	REQ(mesh.size() == m.elements().size() && post.size() == mesh.size(), "wrote " << mesh.size() << " elements and " << post.size() << " estimates for " << m.elements().size() << " elements");
	double xm = 0;
	for(size_t i = 0; i < n; ++i) {
		for(int k = 0; k < 2; ++k) REQ(std::abs(data[i][k] - m.vertex(i)->Vertex[k]) <= 1e-5 * (1 + std::abs(m.vertex(i)->Vertex[k])), "vertex " << i << " was written at " << data[i][0] << ", " << data[i][1]);
		xm = std::max(xm, std::abs(data[i][2]));
	}
	for(size_t e = 0; e < mesh.size(); ++e) for(int k = 0; k < 3; ++k) REQ(mesh[e][k] == (double)m.element(e)->Vertices[k]->GlobalIndex + 1, "element " << e << " was written with vertex " << mesh[e][k]);
	NS::SparseMatrix<double> A(n, n);
	NS::DynamicVector<double> B(n);
	system<Order>(m, true, A, B);
	if(same(A, mat)) c.label("correct system");
	else {
		// Known finding: gradients are transformed with the wrong side of the inverse
		NS::SparseMatrix<double> A2(n, n);
		NS::DynamicVector<double> B2(n);
		system<Order>(m, false, A2, B2);
		REQ(kind != 0, "matrix differs from the one of the generated grid");
		REQ(same(A2, mat), "matrix is neither the one of the problem nor the one of the known finding");
		A = A2; B = B2;
		c.label("known finding");
	}
	double amax = 0;
	for(size_t i = 0; i < n; ++i) {
		REQ(std::abs(rhs[i][0] - B.at(i)) <= 1e-5 * std::abs(B.at(i)) + 1e-6, "right hand side " << i << " is " << rhs[i][0] << " instead of " << B.at(i));
		amax = std::max(amax, std::abs(A.at(i, i)));
	}
	for(size_t i = 0; i < n; ++i) {
		double r = -B.at(i);
		for(auto it = A.row_begin(i); it != A.row_end(i); ++it) r += *it * data[it.column()][2];
		REQ(std::abs(r) <= 5e-4 * std::max(1.0, amax) + 1e-5 * amax * xm * 10, "row " << i << " of the system has the residual " << r);
		if(m.vertex(i)->Flags & NS::MVF_StrongBoundary) REQ(std::abs(data[i][2]) <= 2e-4, "boundary value " << i << " is " << data[i][2]);
	}
	if(kind == 0) for(size_t i = 0; i < n; ++i) {
		const double u = std::sin(PI * m.vertex(i)->Vertex[0]) * std::sin(PI * m.vertex(i)->Vertex[1]) / (2 * PI * PI);
		REQ(std::abs(std::abs(data[i][2] - u) - ex[i][0]) <= 1e-6, "error " << i << " was written as " << ex[i][0] << " instead of " << std::abs(data[i][2] - u));
		REQ(ex[i][0] <= 0.1 / (double)(N * N) + 5e-6 * (double)(N * N), "value at " << i << " is " << data[i][2] << " instead of " << u);
	}
	const std::string vtu = slurp(d + "/poisson_fem.vtu");
	REQ(vtu.find("</VTKFile>") != std::string::npos, "poisson_fem.vtu is not complete");
	c.nontrivial(m.elements().size() > 2);
}
LAW(program_poisson_fem, 60)
{
	Src& s = c.s;
	const char* bin = getenv("VERIF_BIN");
	if(!bin) throw pbt::Discard();
	Dir d;
	const int solver = (int)s.raw(3), order = 1 + (int)s.raw(2), kind = (int)s.raw(3);
	std::ostringstream cmd;
	cmd << "cd '" << d.p << "' && '" << bin << "/fem' " << solver << " " << order << " " << kind;
	size_t N = 0;
	Me m;
	if(kind == 0) {
		N = s.size(2, 8);
		cmd << " " << N;
		NS::FixedVector<NS::Dimension, 2> n; n[0] = n[1] = N;
		NS::FixedVector<double, 2> size, off; size[0] = size[1] = 1; off[0] = off[1] = 0;
		m = NS::HyperCube<double, 2>::generate(n, size, off);
	} else {
		const Cx cx = genComplex(s, 4, CxPlanar, 0.2);
		NOTE(cx.str());
		if(kind == 1) {
			std::ofstream o((d.p + "/in.obj").c_str());
			o.precision(17);
			for(const auto& v : cx.v) o << "v " << v[0] << " 0 " << v[1] << "\n";
			for(const auto& e : cx.t) o << "f " << e[0] + 1 << " " << e[1] + 1 << " " << e[2] + 1 << "\n";
			o.close();
			cmd << " in.obj";
			m = NS::MeshObjLoader<double, 2>::loadFile(d.p + "/in.obj");
		} else {
			std::ofstream o((d.p + "/in.node").c_str()), e((d.p + "/in.ele").c_str());
			o.precision(17);
			o << cx.v.size() << " 2 0 0\n";
			for(size_t i = 0; i < cx.v.size(); ++i) o << i + 1 << " " << cx.v[i][0] << " " << cx.v[i][1] << "\n";
			e << cx.t.size() << " 3 0\n";
			for(size_t i = 0; i < cx.t.size(); ++i) e << i + 1 << " " << cx.t[i][0] + 1 << " " << cx.t[i][1] + 1 << " " << cx.t[i][2] + 1 << "\n";
			o.close(); e.close();
			cmd << " in.node in.ele";
			m = NS::MeshTriangleLoader<double>::loadFile(d.p + "/in.node", d.p + "/in.ele");
		}
		m.setupBoundaries();
	}
	m.prepare();
	NOTE("example_poisson_fem " << cmd.str().substr(cmd.str().find("/fem'") + 5));
	cmd << " > out.txt 2>&1";
	const int rc = std::system(cmd.str().c_str());
	REQ(rc == 0, "the program returned " << rc << ": " << slurp(d.p + "/out.txt").substr(0, 500));
	REQ(slurp(d.p + "/out.txt").find("Finished!") != std::string::npos, "the program did not finish");
	if(order == 1) check<1>(c, m, d.p, kind, N); else check<2>(c, m, d.p, kind, N);
}
}
