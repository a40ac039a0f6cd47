// VF: exclude=sai.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,solverops_jacobi.cpp,solverops_sgs.cpp,solverops_ilu0.cpp,solverops_levels_sgs.cpp,solverops_levels_ilu0.cpp,relaxation_chaotic.cpp,solverfactory.cpp,solverops_base.cpp,solverops_sai.cpp,ilu_pattern.cpp,levelschedule.cpp,matrix_properties.cpp,coomatrix.cpp
// VF: scale_asan=0.4
// C03: construction paths, copies and ownership of matrix objects
#include "gen.hpp"
#include <blockmatrices.hpp>
#include <boost/align/aligned_alloc.hpp>
#include <malloc.h>
#ifdef VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using vf::Case;
static size_t heldBytes() { return __sanitizer_get_current_allocated_bytes(); }
/// Makes the balance of allocations exact: no growth of the choice record, no thread pool changes
static void warm(Case& c) { c.s.reserve(1<<16); static bool done = false; if(!done) { done = true; static char buf[4096]; setvbuf(stdout, buf, _IOFBF, sizeof buf); volatile int x = 0;
#pragma omp parallel for num_threads(1)
	for(int i = 0; i < 4; i++) x += i; std::cout << ""; } }
#else
using vf::Case;
static size_t heldBytes() { return 0; }
static void warm(Case&) { }
#endif
using namespace vf;
using namespace blasted;

static int* dupi(const Arr<int>& a) { int* p = (int*)boost::alignment::aligned_alloc(64, a.size()*sizeof(int)); std::copy(a.begin(), a.end(), p); return p; }
static double* dupd(const Arr<double>& a) { double* p = (double*)boost::alignment::aligned_alloc(64, a.size()*sizeof(double)); std::copy(a.begin(), a.end(), p); return p; }

enum Path { STRUCTURE, SETSTRUCTURE, WRAP, TAKERAW, WRAPSTORAGE, OWNSTORAGE, MOVEDSTORAGE, NPATH };
static const char* pname[] = {"copied structure", "set structure", "wrapped arrays", "taken-over raw arrays", "wrapped storage", "owned storage", "moved storage"};

template <int bs> struct Slot {
	std::unique_ptr<BSRMatrix<double,int,bs>> A;
	std::shared_ptr<Raw> arrays;   // arrays owned by us, if the object wraps
	std::shared_ptr<Mat> model;    // shared by the objects that share storage
	int path = -1;
};

template <int bs> static void build(Slot<bs>& S, const Mat& m, int path) {
	typedef BSRMatrix<double,int,bs> M;
	S.arrays = std::make_shared<Raw>(m, true); S.model = std::make_shared<Mat>(m); S.path = path; Raw& r = *S.arrays;
	const int nz = m.nnz();
	switch(path) {
	case STRUCTURE: case SETSTRUCTURE:
		if(path == STRUCTURE) S.A.reset(new M(m.n, (const int*)r.ci.data(), (const int*)r.rp.data()));
		else { S.A.reset(new M()); S.A->setStructure(m.n, r.ci.data(), r.rp.data()); }
		for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) S.A->submitBlock(i*bs, m.ci[k]*bs, &r.v[(size_t)k*bs*bs], bs, bs);
		// the given arrays must not matter any more
		for(auto& x : r.rp) x = -1;
		for(auto& x : r.ci) x = -1;
		break;
	case WRAP: S.A.reset(new M(m.n, r.rp.data(), r.ci.data(), r.v.data(), r.di.data())); break;
	case TAKERAW: {
		RawBSRMatrix<double,int> q; q.browptr = dupi(r.rp); q.bcolind = dupi(r.ci); q.diagind = dupi(r.di); q.vals = dupd(r.v); q.browendptr = q.browptr+1; q.nbrows = m.n; q.nnzb = q.nbstored = nz;
		S.A.reset(new M(q));
		VF_CHECK(!q.browptr && !q.bcolind && !q.diagind && !q.vals && q.nbrows == 0 && q.nnzb == 0 && q.nbstored == 0, "the raw matrix still refers to the arrays that were taken over");
	} break;
	case WRAPSTORAGE: S.A.reset(new M(SRMatrixStorage<double,int>(r.rp.data(), r.ci.data(), r.v.data(), r.di.data(), r.rp.data()+1, m.n, nz, nz, bs))); break;
	default: {
		ArrayView<int> rp(m.n+1), ci(nz), di(m.n); ArrayView<double> v(nz*bs*bs);
		for(int i = 0; i <= m.n; i++) rp[i] = m.rp[i];
		for(int i = 0; i < nz; i++) ci[i] = m.ci[i];
		for(int i = 0; i < m.n; i++) di[i] = m.di[i];
		for(int i = 0; i < nz*bs*bs; i++) v[i] = r.v[i];
		ArrayView<int> re(&rp[1], m.n);
		SRMatrixStorage<double,int> st(std::move(rp), std::move(ci), std::move(v), std::move(di), std::move(re), m.n, nz, nz);
		VF_CHECK(rp.size() == 0 && ci.size() == 0 && v.size() == 0 && di.size() == 0 && re.size() == 0, "arrays moved into a storage object are not emptied");
		if(path == MOVEDSTORAGE) {
			SRMatrixStorage<double,int> s2(std::move(st)), s3(std::move(s2));
			VF_CHECK(st.vals.size() == 0 && s2.browptr.size() == 0 && s3.nbrows == m.n && s3.nnzb == nz && s3.nbstored == nz && s3.vals.size() == nz*bs*bs, "moving a storage object loses or keeps data wrongly");
			S.A.reset(new M(std::move(s3)));
		} else S.A.reset(new M(std::move(st)));
	}
	}
}
/// Whether the object works on our own arrays
static bool sharesOurs(int path) { return path == WRAP || path == WRAPSTORAGE; }

template <int bs> static void verify(const Slot<bs>& S, const char* when) {
	const Mat& m = *S.model; const int N = m.N();
	VF_CHECK(S.A->dim() == N, "%s: dim() of a matrix from %s is %d, expected %d", when, pname[S.path], S.A->dim(), N);
	Raw ref(m, true);
	BSRMatrix<double,int,bs> R(SRMatrixStorage<double,int>(ref.rp.data(), ref.ci.data(), ref.v.data(), ref.di.data(), ref.rp.data()+1, m.n, m.nnz(), m.nnz(), bs));
	auto e = S.A->isEqual(R, 1e-12);
	VF_CHECK(e[0] && e[1] && e[2] && e[3] && e[4], "%s: matrix from %s differs from what it was built from (dimension %d, row pointers %d, columns %d, values %d, diagonal %d equal)", when, pname[S.path], e[0], e[1], e[2], e[3], e[4]);
	Arr<double> x((size_t)N), y((size_t)N, -3.0); for(int i = 0; i < N; i++) x[i] = 1.0/(i+1) - 0.3;
	S.A->apply(x.data(), y.data());
	LV r = mulMat(m, toLV(x.vec())); ld mg = 0; for(double v : m.v) mg += fabsl((ld)v);
	cmpVec(y.data(), r, 1e-13L, when, mg + 1e-200L);
	if(sharesOurs(S.path)) { VF_CHECK(S.arrays->v.same(ref.v) && S.arrays->ci.same(ref.ci) && S.arrays->rp.same(ref.rp) && S.arrays->di.same(ref.di), "%s: wrapped arrays are not what the matrix object holds", when); S.arrays->intact(); }
}

template <int bs> static void history(Case& c) {
	Src& s = c.s;
	warm(c); size_t before = heldBytes() - c.s.held();
	{
		std::vector<Slot<bs>> slots(4); int made = 0;
		const int ops = 1 + (int)s.draw(8);
		for(int o = 0; o < ops; o++) {
			rt::Policy p = rt::gen(s, 4); if(!rt::deterministic()) p.nthreads = 1; rt::set(p);
			int a = (int)s.draw(4), b = (int)s.draw(4);
			switch(s.draw(5)) {
			case 0: case 1: { MatOpt mo; mo.huge = 6000; mo.vals = ARBITRARY; mo.nmax = bs == 1 ? 9 : 4; Mat m = genMat(s, bs, mo); int path = (int)s.draw(NPATH);
				slots[a] = Slot<bs>(); c.note("[%d] from %s: %s", a, pname[path], m.str(150).c_str()); build(slots[a], m, path); made++; } break;
			case 2: if(slots[a].A && a != b) { c.note("[%d] copy of [%d]", b, a);
				Slot<bs> n; n.A.reset(new BSRMatrix<double,int,bs>(*slots[a].A)); n.model = std::make_shared<Mat>(*slots[a].model); n.arrays = std::make_shared<Raw>(*n.model, true); n.path = OWNSTORAGE;
				slots[b] = std::move(n); made++; } break;
			case 3: if(slots[a].A) { Mat& m = *slots[a].model; int i = (int)s.draw(m.n), k = m.rp[i] + (int)s.draw(m.rp[i+1]-m.rp[i]); Arr<double> buf((size_t)bs*bs); for(auto& x : buf) x = s.range(-8,8);
				c.note("[%d] set block (%d,%d)", a, i, m.ci[k]);
				if(s.flip()) { slots[a].A->submitBlock(i*bs, m.ci[k]*bs, buf.data(), bs, bs); for(int q = 0; q < bs*bs; q++) m.v[(size_t)k*bs*bs+q] = buf[q]; }
				else { slots[a].A->scaleAll(-0.5); for(auto& x : m.v) x *= -0.5; } } break;
			default: if(slots[a].A) { c.note("destroy [%d]", a); Slot<bs>& S = slots[a]; S.A.reset();
				if(sharesOurs(S.path)) { Raw ref(*S.model, true); VF_CHECK(S.arrays->same(ref), "arrays wrapped by a destroyed matrix object were changed"); }
				S = Slot<bs>(); }
			}
			for(auto& S : slots) if(S.A) verify(S, "after an operation of the history");
		}
		c.nontrivial(made >= 2);
		rt::reset();
	}
	c.note("end");
#ifdef VF_ASAN
	if(!c.verbose) { size_t after = heldBytes() - c.s.held(); VF_CHECK(after <= before, "%zu bytes are still allocated after all objects are gone", after-before); }
#else
	(void)before;
#endif
}
VF_PROP(histories, 200000, 6000000, "at least two matrix objects made")
{
	switch(c.s.draw(4)) { case 0: case 1: history<1>(c); break; case 2: history<3>(c); break; default: history<7>(c); }
}

template <int bs> static void rawcopies(Case& c) {
	Src& s = c.s; MatOpt mo; mo.vals = ARBITRARY; mo.nmax = 8; Mat m = genMat(s, bs, mo); Raw r(m, true), r0(r); rt::Policy p = rt::gen(s, 5); if(!rt::deterministic()) p.nthreads = 1; rt::set(p);
	c.note("%s %s", m.str(200).c_str(), rt::describe(p).c_str()); c.nontrivial(m.n > 1);
	const int nz = m.nnz(); warm(c); size_t before = heldBytes() - c.s.held();
	{
		RawBSRMatrix<double,int> q = copyRawBSRMatrix<double,int,bs>(r.craw());
		VF_CHECK(q.nbrows == m.n && q.nnzb == nz && q.nbstored == nz, "a raw copy has wrong sizes");
		VF_CHECK(q.vals != r.v.data() && q.browptr != r.rp.data() && q.bcolind != r.ci.data() && q.diagind != r.di.data(), "a raw copy shares arrays with its source");
		for(int i = 0; i <= m.n; i++) VF_CHECK(q.browptr[i] == m.rp[i], "a raw copy has a wrong row pointer %d", i);
		for(int i = 0; i < m.n; i++) VF_CHECK(q.browendptr[i] == m.rp[i+1] && q.diagind[i] == m.di[i], "a raw copy has a wrong row end or diagonal position in row %d", i);
		for(int k = 0; k < nz; k++) { VF_CHECK(q.bcolind[k] == m.ci[k], "a raw copy has a wrong column index"); }
		for(size_t k = 0; k < r.v.size(); k++) VF_CHECK(q.vals[k] == r.v[k], "a raw copy has a wrong value");
		for(int k = 0; k < nz*bs*bs; k++) q.vals[k] = -99;
		VF_CHECK(r.same(r0), "changing a raw copy changes its source");
		alignedDestroyRawBSRMatrix(q);
	}
	{
		SRMatrixStorage<double,int> st(r.rp.data(), r.ci.data(), r.v.data(), r.di.data(), r.rp.data()+1, m.n, nz, nz, bs);
		{
			SRMatrixStorage<const double,const int> sh = share_with_const(st, bs);
			VF_CHECK(sh.nbrows == m.n && sh.nnzb == nz && sh.nbstored == nz && &sh.vals[0] == r.v.data() && &sh.browptr[0] == r.rp.data() && &sh.bcolind[0] == r.ci.data() && &sh.diagind[0] == r.di.data() && &sh.browendptr[0] == r.rp.data()+1
				&& sh.vals.size() == nz*bs*bs && sh.bcolind.size() == nz && sh.browptr.size() == m.n+1 && sh.diagind.size() == m.n && sh.browendptr.size() == m.n, "a shared immutable storage does not describe the same arrays");
		}
		VF_CHECK(st.nbrows == m.n && st.vals.size() == nz*bs*bs, "sharing changes the source");
		CRawBSRMatrix<double,int> v = createRawView(share_with_const(st, bs));
		VF_CHECK(v.vals == r.v.data() && v.browptr == r.rp.data() && v.bcolind == r.ci.data() && v.diagind == r.di.data() && v.browendptr == r.rp.data()+1 && v.nbrows == m.n && v.nnzb == nz && v.nbstored == nz, "a raw view does not describe the same arrays");
		SRMatrixStorage<const double,const int> cm = move_to_const(std::move(st));
		VF_CHECK(cm.nbrows == m.n && cm.nnzb == nz && cm.nbstored == nz && &cm.vals[0] == r.v.data() && &cm.browendptr[0] == r.rp.data()+1 && cm.bcolind.size() == nz, "the immutable storage does not describe the moved arrays");
		VF_CHECK(st.nbrows == 0 && st.nnzb == 0 && st.nbstored == 0 && st.vals.size() == 0 && st.browptr.size() == 0 && st.bcolind.size() == 0 && st.diagind.size() == 0 && st.browendptr.size() == 0, "a storage object whose contents were transferred is not emptied");
	}
	VF_CHECK(r.same(r0), "the source arrays were changed"); r.intact();
#ifdef VF_ASAN
	if(!c.verbose) { size_t after = heldBytes() - c.s.held(); VF_CHECK(after <= before, "%zu bytes are still allocated after all objects are gone", after-before); }
#else
	(void)before;
#endif
}
VF_PROP(raw_copies, 40000, 1000000, "at least 2 rows")
{
	switch(c.s.draw(3)) { case 0: rawcopies<1>(c); break; case 1: rawcopies<4>(c); break; default: rawcopies<5>(c); }
}

VF_PROP(arrays, 60000, 1000000, "at least two array operations")
{
	// ArrayView against std::vector: a pool of views, a pool of external blocks
	Src& s = c.s; warm(c); size_t before = heldBytes() - c.s.held();
	{
		struct V { std::unique_ptr<ArrayView<double>> a; std::vector<double> m; Arr<double>* ext = nullptr; };
		std::vector<V> vs(3); for(auto& v : vs) v.a.reset(new ArrayView<double>());
		std::vector<std::unique_ptr<Arr<double>>> ext;
		auto fill = [&](V& v) { for(int i = 0; i < v.a->size(); i++) { double x = s.range(-9,9); (*v.a)[i] = x; v.m[i] = x; } };
		const int ops = 1 + (int)s.draw(10);
		for(int o = 0; o < ops; o++) {
			V& v = vs[s.draw(3)]; int n = 1 + (int)s.draw(20);
			switch(s.draw(7)) {
			case 0: c.note("resize %d", n); v.a->resize(n); v.m.assign(n,0); v.ext = nullptr; fill(v); break;
			case 1: c.note("wrap %d", n); ext.emplace_back(new Arr<double>((size_t)n, 1.5)); v.a->wrap(ext.back()->data(), n); v.m.assign(n,1.5); v.ext = ext.back().get(); break;
			case 2: { c.note("take %d", n); double* p = (double*)boost::alignment::aligned_alloc(64, n*sizeof(double)); for(int i = 0; i < n; i++) p[i] = i; v.a->take_control(p, n); v.m.resize(n); for(int i = 0; i < n; i++) v.m[i] = i; v.ext = nullptr; } break;
			case 3: { c.note("move"); ArrayView<double> t(std::move(*v.a)); VF_CHECK(v.a->size() == 0, "a moved-from array is not empty"); v.a.reset(new ArrayView<double>(std::move(t))); VF_CHECK(t.size() == 0, "a moved-from array is not empty"); } break;
			case 4: { c.note("const move"); ArrayView<const double> t = move_to_const(std::move(*v.a)); VF_CHECK(v.a->size() == 0, "an array moved to an immutable one is not empty");
				VF_CHECK(t.size() == (int)v.m.size(), "an immutable array has the wrong length"); for(int i = 0; i < t.size(); i++) VF_CHECK(t[i] == v.m[i], "an immutable array has a wrong element");
				v.m.clear(); v.ext = nullptr; } break;
			case 5: c.note("new %d", n); v.a.reset(new ArrayView<double>(n)); v.m.assign(n,0); v.ext = nullptr; fill(v); break;
			default: if(v.a->size()) { int i = (int)s.draw(v.a->size()); (*v.a)[i] = 42; v.m[i] = 42; if(v.ext) VF_CHECK((*v.ext)[i] == 42, "writing through a wrapping array does not reach the wrapped block"); }
			}
			for(auto& w : vs) { VF_CHECK(w.a->size() == (int)w.m.size(), "an array reports length %d, expected %zu", w.a->size(), w.m.size()); const ArrayView<double>& cw = *w.a; for(int i = 0; i < cw.size(); i++) VF_CHECK(cw[i] == w.m[i], "element %d of an array is %g, expected %g", i, cw[i], w.m[i]); }
		}
		c.nontrivial(ops >= 2);
		vs.clear();
		for(auto& e : ext) { for(double x : *e) VF_CHECK(x == 1.5 || x == 42, "a wrapped block was overwritten"); e->intact("a wrapped block"); }
	}
#ifdef VF_ASAN
	if(!c.verbose) { size_t after = heldBytes() - c.s.held(); VF_CHECK(after <= before, "%zu bytes are still allocated after all arrays are gone", after-before); }
#else
	(void)before;
#endif
}
