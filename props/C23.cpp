// VF: petsc=1
// VF: variants=asan
// VF: inc=petscmock/include
// VF: extra=blasted_petsc.cpp
// VF: exclude=sai.cpp,coomatrix.cpp,blasted_petsc_io.cpp,cmdoptions.cpp
// C23: the PETSc shell interface
#include "prec.hpp"
#include "petsc_once.hpp"
#include <../src/mat/impls/baij/mpi/mpibaij.h>
#include <petscpc.h>
#include <blasted_petsc_ext.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <omp.h>
#include <set>
#include <map>
using namespace vf;
using namespace blasted;

// ---------- what the interface allocates with new must all be given back
static int g_track = 0; // > 0 while the interface runs
struct Ptrs { void** p = nullptr; size_t n = 0, cap = 0; void add(void* x) { if(n == cap) { cap = cap ? 2*cap : 4096; p = (void**)realloc(p, cap*sizeof(void*)); } p[n++] = x; } bool del(void* x) { for(size_t i = n; i-- > 0; ) if(p[i] == x) { p[i] = p[--n]; return true; } return false; } };
static Ptrs g_ptrs; static pid_t g_owner = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); if(g_track > 0 && !omp_in_parallel()) g_ptrs.add(p); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p) noexcept { if(p && g_ptrs.n && !omp_in_parallel()) g_ptrs.del(p); free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
struct On { On() { g_track++; } ~On() { g_track--; } };
struct Off { int k; Off() : k(g_track) { g_track = 0; } ~Off() { g_track = k; } };

// The processor's time, which the kernel may only count in coarse ticks: here time that passes is time computed
#include <sys/syscall.h>
#include <sys/resource.h>
extern "C" clock_t clock(void) noexcept { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (clock_t)(t.tv_sec*1000000+t.tv_nsec/1000); }
extern "C" int clock_gettime(clockid_t k, timespec* t) noexcept { return (int)syscall(SYS_clock_gettime, k == CLOCK_PROCESS_CPUTIME_ID || k == CLOCK_THREAD_CPUTIME_ID ? CLOCK_MONOTONIC : k, t); }
extern "C" int getrusage(__rusage_who_t who, struct rusage* r) noexcept { const int e = (int)syscall(SYS_getrusage, who, r); if(who == RUSAGE_CHILDREN) return e; timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); r->ru_utime.tv_sec = t.tv_sec; r->ru_utime.tv_usec = t.tv_nsec/1000; r->ru_stime = timeval(); return e; }
void vf_init() { petscOnce(); }

// ---------- options and what they mean
enum { EXTRA_TYPE = BLASTED_EXTERNAL };
static const std::pair<const char*,BlastedSolverType> tn[] = {{"none",BLASTED_NO_PREC},{"jacobi",BLASTED_JACOBI},{"gs",BLASTED_GS},{"sgs",BLASTED_SGS},{"ilu0",BLASTED_ILU0},{"seqilu0",BLASTED_SEQILU0},{"sfilu0",BLASTED_SFILU0},
	{"sapilu0",BLASTED_SAPILU0},{"cscbgs",BLASTED_CSC_BGS},{"level_sgs",BLASTED_LEVEL_SGS},{"async_level_ilu0",BLASTED_ASYNC_LEVEL_ILU0},{"external",BLASTED_EXTERNAL}};
static bool relaxes(int t) { return t == BLASTED_JACOBI || t == BLASTED_GS || t == BLASTED_SGS || t == BLASTED_LEVEL_SGS || t == BLASTED_EXTERNAL; }
struct Opts {
	std::string type; bool hasSweeps = true; IV sweeps; int scale = 0; /* -1: not given */ std::string finit, ainit; int chunk = 1; bool hasFinit = true, hasAinit = true, hasChunk = true; int info = 0;
	void store() const {
		const char* all[] = {"-blasted_pc_type", "-blasted_async_sweeps", "-blasted_use_symmetric_scaling", "-blasted_async_fact_init_type", "-blasted_async_apply_init_type", "-blasted_thread_chunk_size", "-blasted_compute_preconditioner_info"};
		for(auto a : all) PetscOptionsClearValue(nullptr, a);
		if(type.size()) PetscOptionsSetValue(nullptr, all[0], type.c_str());
		if(hasSweeps) { std::string t; for(size_t i = 0; i < sweeps.size(); i++) t += (i ? "," : "") + std::to_string(sweeps[i]); PetscOptionsSetValue(nullptr, all[1], t.c_str()); }
		if(scale >= 0) PetscOptionsSetValue(nullptr, all[2], scale ? "true" : "false");
		if(hasFinit) PetscOptionsSetValue(nullptr, all[3], finit.c_str());
		if(hasAinit) PetscOptionsSetValue(nullptr, all[4], ainit.c_str());
		if(hasChunk) PetscOptionsSetValue(nullptr, all[5], std::to_string(chunk).c_str());
		if(info) PetscOptionsSetValue(nullptr, all[6], info == 1 ? "true" : info == 2 ? nullptr : "false");
	}
	std::string str() const { std::string t = type + " sweeps"; if(!hasSweeps) t += " -"; else for(int x : sweeps) t += " " + std::to_string(x); t += " scale " + std::to_string(scale) + " " + (hasFinit ? finit : "-") + " " + (hasAinit ? ainit : "-") + " chunk " + (hasChunk ? std::to_string(chunk) : "-") + " info " + std::to_string(info); return t; }
};
/// The solver that options ask for, or none if they must be rejected
struct Want { bool ok = false; bool either = false; /* not said by the documentation */ bool async = false, usesF = false, usesA = false; BlastedSolverType type = BLASTED_NO_PREC; int nb = 1, na = 1; bool scale = false; FactInit fi = INIT_F_NONE; ApplyInit ai = INIT_A_ZERO; int chunk = 1; bool info = false; };
static Want meaning(const Opts& o, bool ext) {
	Want w; int t = -1; for(auto& p : tn) if(o.type == p.first && (ext || p.second != BLASTED_EXTERNAL)) t = p.second; if(t < 0) return w;
	w.type = (BlastedSolverType)t; w.info = o.info == 1 || o.info == 2; w.async = t != BLASTED_JACOBI && t != BLASTED_LEVEL_SGS && t != BLASTED_NO_PREC; if(!w.async) { w.ok = true; return w; }
	if(!o.hasSweeps) { w.either = true; return w; } if(o.sweeps.size() < 2) return w;
	const bool readsF = t == BLASTED_ILU0 || t == BLASTED_SAPILU0 || t == BLASTED_ASYNC_LEVEL_ILU0;
	if(readsF) { if(o.scale < 0) return w; w.scale = o.scale == 1; if(!o.hasFinit) return w; }
	if(!o.hasAinit || !o.hasChunk) return w; w.chunk = o.chunk; w.nb = o.sweeps[0]; w.na = o.sweeps[1];
	const bool sb = w.nb == -1, sa = w.na == -1; const bool ilu = t == BLASTED_ILU0 || t == BLASTED_SEQILU0 || t == BLASTED_SFILU0 || t == BLASTED_SAPILU0 || t == BLASTED_ASYNC_LEVEL_ILU0;
	if((sb || sa) && !ilu) return w;
	if(t == BLASTED_SEQILU0) { if(sb) w.nb = 1; if(sa) w.na = 1; }
	else if((sb && sa) || (sa && t == BLASTED_SFILU0) || (sb && t == BLASTED_SAPILU0)) { t = BLASTED_SEQILU0; w.nb = w.na = 1; }
	else if(sa) { if(t != BLASTED_ILU0 && t != BLASTED_SAPILU0) return w; t = BLASTED_SAPILU0; w.na = 1; }
	else if(sb) { if(t != BLASTED_ILU0 && t != BLASTED_SFILU0) return w; t = BLASTED_SFILU0; w.nb = 1; }
	w.type = (BlastedSolverType)t;
	// starting values are read for solvers with iterative factorisation
	if(t == BLASTED_ILU0 || t == BLASTED_SAPILU0 || t == BLASTED_ASYNC_LEVEL_ILU0) { w.usesF = true; if(o.finit == "init_zero") w.fi = INIT_F_ZERO; else if(o.finit == "init_original") w.fi = INIT_F_ORIGINAL; else if(o.finit == "init_sgs") w.fi = INIT_F_SGS; else if(o.finit == "init_none") w.fi = INIT_F_NONE; else return w; }
	w.usesA = true; if(o.ainit == "init_zero") w.ai = INIT_A_ZERO; else if(o.ainit == "init_jacobi") w.ai = INIT_A_JACOBI; else if(o.ainit == "init_none") w.ai = INIT_A_NONE; else return w;
	w.ok = true; return w;
}
static Opts genOpts(Src& s, bool ext, bool numeric) {
	Opts o; o.type = tn[s.draw(ext ? 12 : 11)].first; const bool ilu = o.type.find("ilu0") != std::string::npos;
	o.sweeps = {1+(int)s.draw(4), 1+(int)s.draw(4)}; if(ilu) { if(s.chance(1,4)) o.sweeps[0] = -1; if(s.chance(1,4)) o.sweeps[1] = -1; if(o.type == "async_level_ilu0" && (o.sweeps[0] < 0) != (o.sweeps[1] < 0)) o.sweeps = {-1,-1}; if(o.type == "sfilu0" && !numeric && s.flip()) o.sweeps[0] = 2; }
	o.scale = (int)s.draw(2); o.finit = s.pick<std::string>({"init_zero", "init_original", "init_sgs"}); if(!numeric && s.chance(1,4)) o.finit = "init_none"; o.ainit = s.pick<std::string>({"init_zero", "init_jacobi"}); if(!numeric && s.chance(1,4)) o.ainit = "init_none"; o.chunk = s.pick({1, 2, 7, 128, 384, 1+(int)s.draw(1000)}); o.info = (int)s.draw(4);
	if(o.type == "none" || o.type == "jacobi" || o.type == "level_sgs") { if(s.flip()) o.hasSweeps = false; if(s.flip()) o.scale = -1; if(s.flip()) o.hasFinit = false; if(s.flip()) o.hasAinit = false; if(s.flip()) o.hasChunk = false; }
	else if(!(o.type == "ilu0" || o.type == "sapilu0" || o.type == "async_level_ilu0")) { if(s.flip()) o.scale = -1; if(s.flip()) o.hasFinit = false; }
	return o;
}

// ---------- a factory that records what it is asked for
struct FakePrec; struct Rec { struct { BlastedSolverType prectype; int bs; StorageOptions blockstorage; bool relax; int thread_chunk_size; bool scale; int nbuildsweeps, napplysweeps; unsigned fact_inittype, apply_inittype; bool compute_precinfo; } set = {}; int bs = 0, n = 0; IV rp, ci, di; DV v; int computes = 0, applies = 0, relaxes = 0; bool alive = true; DV seen; SolveParams<double> sp; };
static std::vector<Rec>* g_recs;
static const double SPIN = 3e-6; // what every operation takes at least
static void spin() { double t = omp_get_wtime(); while(omp_get_wtime() < t+SPIN); }
static PrecInfo fakeInfo(int id, int k) { PrecInfo p; for(int i = 0; i < 6; i++) p.f_info[i] = 1000*id+10*k+i+0.5; return p; }
struct FakePrec : public SRPreconditioner<double,int> {
	int id;
	FakePrec(SRMatrixStorage<const double,const int>&& m, int i) : SRPreconditioner<double,int>(std::move(m)), id(i) { }
	~FakePrec() { Off o; Rec& r = (*g_recs)[id]; if(!r.alive) abort(); r.alive = false; }
	StorageType type() const { return SPARSEROW; }
	int dim() const { Off o; Rec& r = (*g_recs)[id]; return r.n*r.bs; }
	PrecInfo compute() { Off o; Rec& r = (*g_recs)[id]; r.seen.assign(mat.vals, mat.vals+(size_t)r.ci.size()*r.bs*r.bs); spin(); return fakeInfo(id, ++r.computes); }
	void apply(const double* const x, double* const __restrict y) const { Off o; Rec& r = (*g_recs)[id]; for(int i = 0; i < r.n*r.bs; i++) y[i] = (id+2)*x[i]; r.applies++; spin(); }
	void apply_relax(const double* const x, double* const __restrict y) const { Off o; Rec& r = (*g_recs)[id]; for(int i = 0; i < r.n*r.bs; i++) y[i] = y[i]*0.5 + (id+2)*x[i]*this->solveparams.maxits; r.relaxes++; r.sp = this->solveparams; spin(); }
	bool relaxationAvailable() const { return ::relaxes((*g_recs)[id].set.prectype); }
};
struct FakeFactory : public FactoryBase<double,int> {
	SRPreconditioner<double,int>* create_preconditioner(SRMatrixStorage<const double,const int>&& m, const SolverSettings& set) const {
		int id; { Off o; Rec r; const AsyncSolverSettings& q = dynamic_cast<const AsyncSolverSettings&>(set); r.set.prectype = q.prectype; r.set.bs = q.bs; r.set.blockstorage = q.blockstorage; r.set.relax = q.relax; r.set.thread_chunk_size = q.thread_chunk_size; r.set.scale = q.scale; r.set.nbuildsweeps = q.nbuildsweeps; r.set.napplysweeps = q.napplysweeps; r.set.compute_precinfo = q.compute_precinfo; memcpy((void*)&r.set.fact_inittype, (const void*)&q.fact_inittype, sizeof q.fact_inittype); memcpy((void*)&r.set.apply_inittype, (const void*)&q.apply_inittype, sizeof q.apply_inittype); r.bs = r.set.bs; r.n = m.nbrows; const int nz = m.browptr[m.nbrows]; if(m.nnzb != nz || m.nbstored != nz) abort();
			r.rp.assign(&m.browptr[0], &m.browptr[0]+r.n+1); for(int i = 0; i < r.n; i++) if(m.browendptr[i] != r.rp[i+1]) abort(); r.ci.assign(&m.bcolind[0], &m.bcolind[0]+nz); r.di.assign(&m.diagind[0], &m.diagind[0]+r.n); r.v.assign(&m.vals[0], &m.vals[0]+(size_t)nz*r.bs*r.bs);
			id = (int)g_recs->size(); g_recs->push_back(r); }
		return new FakePrec(std::move(m), id);
	}
	BlastedSolverType solverTypeFromString(const std::string t) const { for(auto& p : tn) if(t == p.first) return p.second; throw std::invalid_argument("unknown"); }
};

// ---------- PETSc objects
static ::Mat makeMat(Src& s, const vf::Mat& m, bool baij) {
	::Mat A; const int bs = baij ? m.bs : 1; IV nz; for(int i = 0; i < m.n; i++) for(int r = 0; r < m.bs/bs; r++) nz.push_back((m.rp[i+1]-m.rp[i])*m.bs/bs);
	int e = baij ? MatCreateSeqBAIJ(PETSC_COMM_SELF, bs, m.N(), m.N(), 0, nz.data(), &A) : MatCreateSeqAIJ(PETSC_COMM_SELF, m.N(), m.N(), 0, nz.data(), &A); if(e) fail("internal: cannot make a matrix");
	return A;
}
static void putVals(::Mat A, const vf::Mat& m, bool baij) {
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) { int e = 0;
		if(baij) e = MatSetValuesBlocked(A, 1, &i, 1, &m.ci[k], &m.v[(size_t)k*m.bs*m.bs], INSERT_VALUES);
		else for(int r = 0; r < m.bs; r++) for(int q = 0; q < m.bs; q++) e += MatSetValue(A, i*m.bs+r, m.ci[k]*m.bs+q, m.at(k,r,q), INSERT_VALUES);
		if(e) fail("internal: cannot fill a matrix"); }
	MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
}
/// The same matrix as a scalar one
static vf::Mat flat(const vf::Mat& m) {
	vf::Mat f; f.n = m.N(); f.bs = 1; f.rp.push_back(0); for(int i = 0; i < m.n; i++) for(int r = 0; r < m.bs; r++) { for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int q = 0; q < m.bs; q++) { f.ci.push_back(m.ci[k]*m.bs+q); f.v.push_back(m.at(k,r,q)); } f.rp.push_back((int)f.ci.size()); }
	setDiag(f); return f;
}
static void checkLayout(::Mat A, const vf::Mat& m, bool baij) { // the stand-in headers describe the PETSc in use
	PetscInt n; const PetscInt *ia, *ja; PetscBool done; MatGetRowIJ(A, 0, PETSC_FALSE, PETSC_FALSE, &n, &ia, &ja, &done); PetscBool miss; PetscInt d; MatMissingDiagonal(A, &miss, &d); PetscScalar* a; if(baij) MatSeqBAIJGetArray(A, &a); else MatSeqAIJGetArray(A, &a);
	Mat_SeqAIJ* q = (Mat_SeqAIJ*)A->data; if(q->a != a || (!baij && (q->i != ia || q->j != ja)) || q->i[0] != 0 || q->i[m.n] != m.nnz() || q->nz != m.nnz()) fail("internal: unexpected layout of PETSc's matrices"); for(int i = 0; i < m.n; i++) if(q->diag[i] != m.di[i]) fail("internal: unexpected layout of PETSc's matrices (diagonal)");
	if(baij) MatSeqBAIJRestoreArray(A, &a); else MatSeqAIJRestoreArray(A, &a); MatRestoreRowIJ(A, 0, PETSC_FALSE, PETSC_FALSE, &n, &ia, &ja, &done);
}
static Vec makeVec(const DV& v) { Vec x; VecCreateSeq(PETSC_COMM_SELF, (PetscInt)v.size(), &x); PetscScalar* a; VecGetArray(x, &a); std::copy(v.begin(), v.end(), a); VecRestoreArray(x, &a); return x; }
static DV readVec(Vec x) { PetscInt n; VecGetLocalSize(x, &n); const PetscScalar* a; VecGetArrayRead(x, &a); DV v(a, a+n); VecRestoreArrayRead(x, &a); return v; }

enum Shape { DIRECT, BJ, ASM_, KSPS, KSPBJ, BJKSP, PLAIN, NSHAPE };
static const char* shname[] = {"shell", "block Jacobi of shell", "Schwarz of shell", "inner solver with shell", "inner solver with block Jacobi of shell", "block Jacobi of inner solvers with shell", "no shell"};
struct Sys { ::Mat A = nullptr, Am = nullptr; /* the operator, where it is another matrix than the one to precondition with */ vf::Mat m; bool baij = false; int shape = DIRECT; KSP ksp = nullptr; KSP leaf = nullptr; PC pc = nullptr; int list = -1; Blasted_data* node = nullptr; bool set = false; Want w; int rec = -1; int computes = 0; bool dirty = true; };
static void genSystem(Src& s, Sys& y, bool sym) {
	const int bs = s.pick({1,1,4,5}); y.baij = bs > 1 && s.chance(3,4); MatOpt o; o.vals = HMATRIX; o.sym = sym || s.flip(); o.nmax = bs == 1 ? 9 : 4; y.m = genMat(s, bs, o); y.A = makeMat(s, y.m, y.baij); if(!y.baij && bs > 1 && s.flip()) MatSetBlockSize(y.A, bs); putVals(y.A, y.m, y.baij); if(!y.baij) y.m = flat(y.m); checkLayout(y.A, y.m, y.baij);
}
static void setOps(KSP k, const Sys& y) { KSPSetOperators(k, y.Am ? y.Am : y.A, y.A); }
static void otherOperator(Src& s, Sys& y) { // another operator
	if(!s.chance(1,4)) return; const int N = y.m.N(); if(s.flip()) { MatDuplicate(y.A, MAT_COPY_VALUES, &y.Am); MatScale(y.Am, 3.0); return; }
	MatCreateSeqAIJ(PETSC_COMM_SELF, N, N, 2, nullptr, &y.Am); for(int i = 0; i < N; i++) { MatSetValue(y.Am, i, i, 2.0, INSERT_VALUES); if(i) MatSetValue(y.Am, i, 0, -0.5, INSERT_VALUES); } MatAssemblyBegin(y.Am, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(y.Am, MAT_FINAL_ASSEMBLY);
}
static void checkOps(const Sys& y, const char* when) { ::Mat a, b; KSPGetOperators(y.ksp, &a, &b); VF_CHECK(a == (y.Am ? y.Am : y.A) && b == y.A, "%s replaced the solver's matrices", when); }
static void makeKsp(Src& s, Sys& y, int shape, int number) {
	y.shape = shape; std::string p = "s" + std::to_string(number) + "_"; auto opt = [&](const std::string& n, const char* v) { PetscOptionsSetValue(nullptr, ("-" + p + n).c_str(), v); };
	for(auto n : {"ksp_type", "pc_type", "sub_ksp_type", "sub_pc_type", "ksp_ksp_type", "ksp_pc_type", "ksp_sub_ksp_type", "ksp_sub_pc_type", "sub_ksp_ksp_type", "sub_ksp_pc_type"}) PetscOptionsClearValue(nullptr, ("-" + p + n).c_str());
	opt("ksp_type", "preonly");
	switch(shape) {
	case DIRECT: opt("pc_type", "shell"); break;
	case BJ: opt("pc_type", "bjacobi"); opt("sub_ksp_type", "preonly"); opt("sub_pc_type", "shell"); break;
	case ASM_: opt("pc_type", "asm"); opt("sub_ksp_type", "preonly"); opt("sub_pc_type", "shell"); break;
	case KSPS: opt("pc_type", "ksp"); opt("ksp_ksp_type", "preonly"); opt("ksp_pc_type", "shell"); break;
	case KSPBJ: opt("pc_type", "ksp"); opt("ksp_ksp_type", "preonly"); opt("ksp_pc_type", "bjacobi"); opt("ksp_sub_ksp_type", "preonly"); opt("ksp_sub_pc_type", "shell"); break;
	case BJKSP: opt("pc_type", "bjacobi"); opt("sub_ksp_type", "preonly"); opt("sub_pc_type", "ksp"); opt("sub_ksp_ksp_type", "preonly"); opt("sub_ksp_pc_type", "shell"); break;
	default: opt("pc_type", s.pick({"jacobi", "none", "sor"}));
	}
	KSPCreate(PETSC_COMM_SELF, &y.ksp); KSPSetOptionsPrefix(y.ksp, p.c_str()); KSPSetFromOptions(y.ksp); setOps(y.ksp, y);
}
static void findLeaf(Sys& y) {
	PC pc; KSPGetPC(y.ksp, &pc); KSP* sub; PetscInt n, f; y.leaf = y.ksp;
	auto blocks = [&](bool asmp) { if(asmp) PCASMGetSubKSP(pc, &n, &f, &sub); else PCBJacobiGetSubKSP(pc, &n, &f, &sub); y.leaf = sub[0]; KSPGetPC(y.leaf, &pc); };
	auto inner = [&]{ PCKSPGetKSP(pc, &y.leaf); KSPGetPC(y.leaf, &pc); };
	switch(y.shape) { case BJ: blocks(false); break; case ASM_: blocks(true); break; case KSPS: inner(); break; case KSPBJ: inner(); blocks(false); break; case BJKSP: blocks(false); inner(); break; default: ; }
	y.pc = pc;
}
#define PETSC_OK(x, what) do { int e_; { On on_; e_ = (x); } VF_CHECK(e_ == 0, "%s fails with error %d", what, e_); } while(0)
struct Times { double fw, fc, aw, ac; }; static Times times(const Blasted_data* d) { return {d->factorwalltime, d->factorcputime, d->applywalltime, d->applycputime}; }
static bool same(const Times& a, const Times& b, bool f, bool ap) { return (!f || (a.fw == b.fw && a.fc == b.fc)) && (!ap || (a.aw == b.aw && a.ac == b.ac)); }

VF_PROP(histories, 12000, 400000, "at least two solvers, or one set up twice, and an application")
{
	Src& s = c.s; rt::reset(); petscOnce(); g_ptrs.n = 0; std::vector<Rec> recs; g_recs = &recs; c.s.reserve(1<<17);
	FakeFactory ff[2]; Blasted_data_list L[2]; bool open[2] = {false,false}, ext[2]; int fac[2]; std::vector<std::vector<Blasted_data*>> nodes(2); std::vector<Sys> sys; Opts o = genOpts(s, true, false); o.store(); c.note("options %s;", o.str().c_str());
	std::map<Blasted_data*,Times> T; int applications = 0, setups = 0, made = 0; const int nops = 4+(int)s.draw(26);
	auto snapshot = [&]{ T.clear(); for(int l = 0; l < 2; l++) if(open[l]) for(Blasted_data* d = L[l].ctxlist; d; d = d->next) T[d] = times(d); };
	auto unchanged = [&](Blasted_data* except, const char* op) { for(auto& t : T) if(t.first != except) VF_CHECK(same(t.second, times(t.first), true, true), "%s on one solver changed the timers of another", op); };
	auto lists = [&]{ for(int l = 0; l < 2; l++) if(open[l]) { std::vector<Blasted_data*> v; for(Blasted_data* d = L[l].ctxlist; d && v.size() < 1000; d = d->next) v.push_back(d); VF_CHECK(v == nodes[l] && L[l].size == (int)v.size(), "list %d holds %zu solvers (and says %d), expected %zu or in another order", l, v.size(), L[l].size, nodes[l].size()); } };
	auto setup = [&](Sys& y, int i) { // the leaf's first or repeated set-up
		const bool first = !y.set; if(first) { y.w = meaning(o, ext[y.list]); if(!y.w.ok) fail("internal: generated options are not valid"); } const size_t n0 = recs.size(); snapshot();
		PETSC_OK(KSPSetUp(y.ksp), "setting up the solver"); PETSC_OK(KSPSetUpOnBlocks(y.ksp), "setting up the inner solver"); PETSC_OK(KSPSetUp(y.leaf), "setting up the inner solver"); unchanged(y.node, "setting up"); setups++;
		if(first) {
			VF_CHECK(recs.size() == n0+1, "%zu solvers were made on first set-up", recs.size()-n0); y.rec = (int)n0; y.set = true; Rec& r = recs[n0]; const Want& w = y.w;
			VF_CHECK(r.set.prectype == w.type, "options '%s' made a solver of type %s, expected %s", o.str().c_str(), tname(r.set.prectype), tname(w.type));
			VF_CHECK(r.set.bs == y.m.bs, "the block size is %d, expected %d", r.set.bs, y.m.bs); VF_CHECK(r.set.blockstorage == ColMajor, "the blocks are not taken for column-major"); VF_CHECK(r.set.compute_precinfo == w.info, "diagnostics are %srequested", r.set.compute_precinfo ? "" : "not "); VF_CHECK(!r.set.relax, "only a relaxation is requested");
			if(w.async) { VF_CHECK(r.set.nbuildsweeps == w.nb && r.set.napplysweeps == w.na, "options '%s' gave %d build and %d application sweeps, expected %d and %d", o.str().c_str(), r.set.nbuildsweeps, r.set.napplysweeps, w.nb, w.na); VF_CHECK(r.set.thread_chunk_size == w.chunk, "the chunk size is %d, expected %d", r.set.thread_chunk_size, w.chunk); VF_CHECK(r.set.scale == w.scale, "scaling is %d, expected %d", r.set.scale, w.scale); }
			if(w.usesF) VF_CHECK(r.set.fact_inittype == (unsigned)w.fi, "the factorisation starts by %d, expected %d", (int)r.set.fact_inittype, (int)w.fi); if(w.usesA) VF_CHECK(r.set.apply_inittype == (unsigned)w.ai, "the application starts by %d, expected %d", (int)r.set.apply_inittype, (int)w.ai);
			VF_CHECK(r.n == y.m.n && r.rp == y.m.rp && r.ci == y.m.ci && r.di == y.m.di, "the solver was given another sparsity pattern than the matrix's");
			PetscBool ex; PCApplyRichardsonExists(y.pc, &ex); VF_CHECK((ex == PETSC_TRUE) == relaxes(w.type), "relaxation is %soffered to PETSc for type %s", ex ? "" : "not ", tname(w.type));
		} else VF_CHECK(recs.size() == n0, "a solver was made on repeated set-up");
		Rec& r = recs[y.rec]; const bool again = y.dirty; if(again) y.computes++; VF_CHECK(r.computes == y.computes, "solver %d was computed %d times after %d set-ups of changed matrices", i, r.computes, y.computes);
		Raw raw(y.m, false); VF_CHECK(r.seen == raw.v.vec(), "solver %d was computed from other values than the matrix has", i); Times t = times(y.node);
		if(again) { if(!first) VF_CHECK(t.fw >= T[y.node].fw+SPIN/2 && t.fc >= T[y.node].fc+SPIN/2, "computing did not add to the factorisation time"); else VF_CHECK(t.fw >= SPIN/2 && t.fc >= SPIN/2, "no factorisation time"); if(!first) VF_CHECK(same(t, T[y.node], false, true), "computing changed the application time"); }
		if(y.w.info) { PrecInfoList* il = (PrecInfoList*)y.node->infolist; VF_CHECK(il && (int)il->infolist.size() == y.computes, "the list of diagnostics has %zu entries, expected %d", il ? il->infolist.size() : 0, y.computes); for(int k = 0; k < y.computes; k++) VF_CHECK(il->infolist[k].f_info == fakeInfo(y.rec, k+1).f_info, "diagnostics of computation %d are others", k); } else VF_CHECK(!y.node->infolist, "a list of diagnostics although none were requested");
		y.dirty = false;
	};
	auto closeSys = [&](size_t i, const char* op) { Sys& y = sys[i]; snapshot(); { On on; KSPDestroy(&y.ksp); MatDestroy(&y.A); MatDestroy(&y.Am); } if(y.rec >= 0) VF_CHECK(!recs[y.rec].alive, "%s did not destroy the solver of system %zu", op, i); unchanged(nullptr, "destroying"); for(size_t k = 0; k < sys.size(); k++) if(k != i && sys[k].rec >= 0) VF_CHECK(recs[sys[k].rec].alive, "%s destroyed the solver of another system", op); sys.erase(sys.begin()+i); };
	auto closeList = [&](int l) { for(size_t i = sys.size(); i-- > 0; ) if(sys[i].list == l) closeSys(i, "closing a list"); { On on; if(s.flip()) computeTotalTimes(&L[l]); destroyBlastedDataList(&L[l]); } VF_CHECK(L[l].size == 0 && !L[l].ctxlist, "a destroyed list still holds %d solvers", L[l].size); open[l] = false; nodes[l].clear(); };
	for(int op = 0; op < nops; op++) {
		const int what = (int)s.draw(11);
		if(what == 0) { o = genOpts(s, true, false); bool anyplain = false; for(int l = 0; l < 2; l++) if(open[l] && !ext[l]) anyplain = true; if(anyplain && o.type == "external") o.type = "sgs"; o.store(); c.note("options %s;", o.str().c_str()); }
		else if((what <= 2 && sys.size() < 5) || sys.empty()) { // new solver
			const int l = (int)s.draw(2); if(!open[l]) { L[l] = newBlastedDataList(); open[l] = true; ext[l] = true; fac[l] = (int)s.draw(2); nodes[l].clear(); VF_CHECK(L[l].size == 0 && !L[l].ctxlist, "a new list is not empty"); }
			Sys y; const bool shared = sys.size() && s.chance(1,3); // one matrix may serve several solvers
			if(shared) { const Sys& z = sys[s.draw(sys.size())]; y.A = z.A; y.m = z.m; y.baij = z.baij; PetscObjectReference((PetscObject)y.A); } else genSystem(s, y, false);
			otherOperator(s, y); if(y.Am) c.note("(another operator)");
			makeKsp(s, y, (int)s.draw(NSHAPE), made++ % 8); y.list = l; if(shared) c.note("(matrix of another)"); c.note("new %s in list %d n=%d bs=%d;", shname[y.shape], l, y.m.n, y.m.bs); snapshot();
			PETSC_OK(setup_blasted_stack_ext(y.ksp, ff[fac[l]], &L[l]), "setting up the stack"); unchanged(nullptr, "adding a solver");
			if(y.shape == PLAIN) { lists(); KSPDestroy(&y.ksp); MatDestroy(&y.A); MatDestroy(&y.Am); continue; }
			findLeaf(y); checkOps(y, "setting up the stack"); PCType pt; PCGetType(y.pc, &pt); if(std::string(pt) != PCSHELL) fail("internal: no shell"); VF_CHECK(L[l].ctxlist && L[l].size == (int)nodes[l].size()+1, "the list has %d solvers after adding one to %zu", L[l].size, nodes[l].size()); y.node = L[l].ctxlist; nodes[l].insert(nodes[l].begin(), y.node); void* ctx; PCShellGetContext(y.pc, &ctx); VF_CHECK(ctx == (void*)y.node, "the shell's context is not the newest one of the list"); lists(); sys.push_back(y);
		}
		else if(what == 3) { const size_t i = s.draw(sys.size()); Sys& y = sys[i]; c.note("new values %zu;", i); for(auto& x : y.m.v) x *= s.pick({1.0, 2.0, 0.5, -1.0, 1.25}); putVals(y.A, y.m, y.baij); for(auto& z : sys) if(z.A == y.A) { z.m.v = y.m.v; setOps(z.ksp, z); z.dirty = true; } }
		else if(what == 4) { const size_t i = s.draw(sys.size()); c.note("set up %zu;", i); if(!sys[i].set && !meaning(o, ext[sys[i].list]).ok) continue; setup(sys[i], (int)i); }
		else if(what <= 7) { // apply, through the whole stack or the shell alone
			const size_t i = s.draw(sys.size()); Sys& y = sys[i]; if(!y.set || y.dirty) setup(y, (int)i); DV v = genVec(s, y.m.N()); Vec b = makeVec(v), x = makeVec(DV(v.size(), 7.0)); const bool whole = s.flip(); c.note("apply %zu%s;", i, whole ? "" : " alone"); const struct { int applies, computes, relaxes; } r0 = {recs[y.rec].applies, recs[y.rec].computes, recs[y.rec].relaxes}; snapshot();
			if(whole) PETSC_OK(KSPSolve(y.ksp, b, x), "solving"); else PETSC_OK(PCApply(y.pc, b, x), "applying");
			Rec& r = recs[y.rec]; VF_CHECK(r.applies == r0.applies+1 && r.computes == r0.computes && r.relaxes == r0.relaxes, "an application led to %d applications, %d computations, %d relaxations", r.applies-r0.applies, r.computes-r0.computes, r.relaxes-r0.relaxes); DV z = readVec(x), w = readVec(b);
			for(size_t k = 0; k < v.size(); k++) { VF_CHECK(w[k] == v[k], "the right-hand side was changed"); VF_CHECK(z[k] == (y.rec+2)*v[k], "component %zu of the result is %g, expected %g", k, z[k], (y.rec+2)*v[k]); }
			unchanged(y.node, "applying"); Times t = times(y.node); VF_CHECK(t.aw >= T[y.node].aw+SPIN/2 && t.ac >= T[y.node].ac+SPIN/2 && same(t, T[y.node], true, false), "an application did not add to the application time alone"); VecDestroy(&b); VecDestroy(&x); applications++;
		}
		else if(what == 8) { // relax
			const size_t i = s.draw(sys.size()); Sys& y = sys[i]; if(!y.set || y.dirty) setup(y, (int)i); if(!relaxes(recs[y.rec].set.prectype)) continue; DV v = genVec(s, y.m.N()), g = genVec(s, y.m.N()); Vec b = makeVec(v), x = makeVec(g), w; VecDuplicate(b, &w); const bool zero = s.flip(), byksp = s.flip(); const int its = 1+(int)s.draw(5); c.note("relax %zu x%d%s%s;", i, its, zero ? " from zero" : "", byksp ? " by richardson" : ""); const struct { int applies, computes, relaxes; } r0 = {recs[y.rec].applies, recs[y.rec].computes, recs[y.rec].relaxes}; snapshot();
			if(byksp) { KSPSetType(y.leaf, KSPRICHARDSON); KSPSetTolerances(y.leaf, 1e-3, 1e-7, 1e4, its); KSPSetNormType(y.leaf, KSP_NORM_NONE); KSPSetInitialGuessNonzero(y.leaf, zero ? PETSC_FALSE : PETSC_TRUE); PETSC_OK(KSPSolve(y.leaf, b, x), "relaxing"); KSPSetType(y.leaf, KSPPREONLY); KSPSetInitialGuessNonzero(y.leaf, PETSC_FALSE); PetscInt k; KSPGetIterationNumber(y.leaf, &k); }
			else { PetscInt outits = -1; PCRichardsonConvergedReason why = (PCRichardsonConvergedReason)0; PETSC_OK(PCApplyRichardson(y.pc, b, x, w, 1e-3, 1e-7, 1e4, its, zero ? PETSC_TRUE : PETSC_FALSE, &outits, &why), "relaxing"); VF_CHECK(outits == its && why == PCRICHARDSON_CONVERGED_ITS, "%d iterations of relaxation are reported (reason %d), expected %d", outits, (int)why, its); }
			Rec& r = recs[y.rec]; VF_CHECK(r.relaxes == r0.relaxes+1 && r.applies == r0.applies && r.computes == r0.computes, "a relaxation led to %d applications, %d computations, %d relaxations", r.applies-r0.applies, r.computes-r0.computes, r.relaxes-r0.relaxes); VF_CHECK(r.sp.maxits == its, "%d iterations of relaxation were asked for, expected %d", r.sp.maxits, its); DV z = readVec(x);
			for(size_t k = 0; k < v.size(); k++) { double e = (zero ? 0.0 : g[k]*0.5) + (y.rec+2)*v[k]*its; VF_CHECK(z[k] == e, "component %zu of the relaxation is %g, expected %g", k, z[k], e); }
			unchanged(y.node, "relaxing"); Times t = times(y.node); VF_CHECK(t.aw >= T[y.node].aw+SPIN/2 && t.ac >= T[y.node].ac+SPIN/2 && same(t, T[y.node], true, false), "a relaxation did not add to the application time alone"); VecDestroy(&b); VecDestroy(&x); VecDestroy(&w); applications++;
		}
		else if(what == 9) { const int l = (int)s.draw(2); if(!open[l]) continue; c.note("total %d;", l); { On on; computeTotalTimes(&L[l]); if(s.flip()) computeTotalTimes(&L[l]); } double a[4] = {0,0,0,0}; for(auto* d : nodes[l]) { Times t = times(d); a[0] += t.fw; a[1] += t.fc; a[2] += t.aw; a[3] += t.ac; } double b[4] = {L[l].factorwalltime, L[l].factorcputime, L[l].applywalltime, L[l].applycputime}; for(int k = 0; k < 4; k++) VF_CHECK(fabs(a[k]-b[k]) <= 1e-12*fabs(a[k]), "total time %d is %.17g, expected %.17g", k, b[k], a[k]); lists(); }
		else if(s.flip()) { const size_t i = s.draw(sys.size()); c.note("destroy %zu;", i); closeSys(i, "destroying a solver"); lists(); }
		else { const int l = (int)s.draw(2); if(!open[l]) continue; c.note("destroy list %d;", l); closeList(l); lists(); }
	}
	c.note("end"); for(int l = 0; l < 2; l++) if(open[l]) closeList(l); for(size_t i = 0; i < recs.size(); i++) VF_CHECK(!recs[i].alive, "solver %zu is never destroyed", i);
	VF_CHECK(g_ptrs.n == 0, "%zu objects are never given back", g_ptrs.n); c.nontrivial(applications > 0 && (recs.size() >= 2 || setups >= 2));
}

/// With the library's own solvers: the same results, to the last bit, as from a solver made directly
VF_PROP(values, 12000, 400000, "coupled rows")
{
	Src& s = c.s; rt::reset(); petscOnce(); g_ptrs.n = 0; c.s.reserve(1<<17); Opts o = genOpts(s, false, true); Sys y; genSystem(s, y, true); if(y.baij && o.type == "cscbgs") o.type = "gs"; o.store();
	if(y.m.bs != 1 && y.m.bs != 4 && y.m.bs != 5) fail("internal: block size"); const Want w = meaning(o, false); if(!w.ok) fail("internal: invalid options");
	const int shape = (int)s.draw(PLAIN); otherOperator(s, y); makeKsp(s, y, shape, 0); c.note("%s: %s on %s", shname[shape], o.str().c_str(), y.m.str(500).c_str()); c.nontrivial(y.m.n > 1 && y.m.nnz() > y.m.n);
	Opt q; q.type = w.type; q.chunk = w.chunk; q.scale = w.scale; q.nb = w.nb; q.na = w.na; q.fi = w.fi; q.ai = w.ai; q.info = w.info;
	Raw A(y.m, false); const bool fixed = w.type == BLASTED_SEQILU0 || w.type == BLASTED_JACOBI || w.type == BLASTED_NO_PREC || w.type == BLASTED_LEVEL_SGS; if(fixed && s.chance(1,3)) omp_set_num_threads(3);
	Blasted_data_list L = newBlastedDataList(); std::vector<Sys> more(s.chance(1,3) ? 1+s.draw(4) : 0); const size_t before = more.size() ? s.draw(more.size()+1) : 0; Blasted_data* node = nullptr; // solvers made by the same list's own factory
	for(size_t k = 0; k < more.size()+1; k++) {
		if(k == before) { PETSC_OK(setup_blasted_stack(y.ksp, &L), "setting up the stack"); findLeaf(y); node = L.ctxlist; }
		if(k < more.size()) { Sys& q = more[k]; MatOpt mo; mo.vals = HMATRIX; mo.sym = true; mo.nmax = 5; q.m = genMat(s, 1, mo); q.A = makeMat(s, q.m, false); putVals(q.A, q.m, false); makeKsp(s, q, DIRECT, 1+(int)k); PETSC_OK(setup_blasted_stack(q.ksp, &L), "setting up the stack"); findLeaf(q); VF_CHECK(L.size == (int)k+1+(k >= before ? 1 : 0), "the list holds %d solvers", L.size); if(s.flip()) { DV v = genVec(s, q.m.N()); Vec b = makeVec(v), x = makeVec(v); PETSC_OK(KSPSolve(q.ksp, b, x), "solving"); VecDestroy(&b); VecDestroy(&x); } if(s.chance(1,4)) { On on; KSPDestroy(&q.ksp); MatDestroy(&q.A); } }
	}
	VF_CHECK(L.size == (int)more.size()+1, "the list holds %d solvers", L.size); checkOps(y, "setting up the stack"); if(more.size()) c.note("(%zu other solvers)", more.size());
	const int rounds = 1+(int)s.draw(3); PrecP p = makePrec(A, q); std::vector<PrecInfo> infos;
	for(int k = 0; k < rounds; k++) {
		if(k) { if(s.flip()) { for(auto& x : y.m.v) x *= s.pick({2.0, 0.5}); } const vf::Mat& m = y.m; putVals(y.A, m, y.baij); setOps(y.ksp, y); A.setVals(m); }
		PETSC_OK(KSPSetUp(y.ksp), "setting up the solver"); PETSC_OK(KSPSetUpOnBlocks(y.ksp), "setting up the inner solver"); PETSC_OK(KSPSetUp(y.leaf), "setting up the inner solver"); infos.push_back(p->compute());
		const int napp = 1+(int)s.draw(2); for(int a = 0; a < napp; a++) {
			DV v = genVec(s, y.m.N()); Vec b = makeVec(v), x = makeVec(DV(v.size(), 3.0)); Arr<double> rr(v), zz(v.size(), 3.0);
			const bool relax = relaxes(w.type) && s.chance(1,3);
			if(relax) { Vec t; VecDuplicate(b, &t); PetscInt oi; PCRichardsonConvergedReason why; const int its = 1+(int)s.draw(3); c.note("relax x%d;", its); PETSC_OK(PCApplyRichardson(y.pc, b, x, t, 1e-8, 1e-12, 1e5, its, PETSC_FALSE, &oi, &why), "relaxing"); p->setApplyParams({1e-8, 1e-12, 1e5, false, its}); p->apply_relax(rr.data(), zz.data()); VecDestroy(&t); }
			else { c.note("apply;"); PETSC_OK(KSPSolve(y.ksp, b, x), "solving"); if(0) zz = zz; p->apply(rr.data(), zz.data()); }
			DV z = readVec(x); cmpSame(z.data(), zz.data(), z.size(), relax ? "relaxation through PETSc" : "application through PETSc"); VecDestroy(&b); VecDestroy(&x); }
	}
	Blasted_data* d = node; PrecInfoList* il = (PrecInfoList*)d->infolist; VF_CHECK((il != nullptr) == w.info, "diagnostics are %scollected", il ? "" : "not "); if(il) { VF_CHECK(il->infolist.size() == infos.size(), "%zu diagnostics after %zu computations", il->infolist.size(), infos.size()); if(!(omp_get_max_threads() > 1)) for(size_t k = 0; k < infos.size(); k++) cmpSame(il->infolist[k].f_info.data(), infos[k].f_info.data(), 6, "diagnostics through PETSc"); }
	{ On on; for(auto& q : more) { if(q.ksp) KSPDestroy(&q.ksp); if(q.A) MatDestroy(&q.A); } KSPDestroy(&y.ksp); MatDestroy(&y.A); MatDestroy(&y.Am); destroyBlastedDataList(&L); } omp_set_num_threads(1);
	VF_CHECK(g_ptrs.n == 0, "%zu objects are never given back", g_ptrs.n);
}

/// Runs something in a child process: 0 it succeeds, 1 it is refused, 2 it crashes
template <class F> static int refused(F f) {
	fflush(stdout); fflush(stderr); pid_t p = fork(); if(p < 0) fail("internal: cannot fork");
	if(p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); int e; try { e = f(); } catch(const std::exception&) { _exit(11); } _exit(e ? 12 : 10); }
	int st; while(waitpid(p, &st, 0) < 0 && errno == EINTR); if(WIFEXITED(st)) return WEXITSTATUS(st) == 10 ? 0 : WEXITSTATUS(st) == 11 || WEXITSTATUS(st) == 12 ? 1 : 2; return WTERMSIG(st) == SIGABRT ? 1 : 2;
}
VF_PROP(refusals, 4000, 120000, "options that must be refused")
{
	Src& s = c.s; rt::reset(); petscOnce(); Opts o = genOpts(s, false, true); Sys y; const int bad = (int)s.draw(13); int bs = s.pick({1,4,5}); MatOpt mo; mo.sym = true; mo.nmax = 4; y.baij = bs > 1;
	bool wantRefused = false;
	if(bad == 0) { o.type = s.pick<std::string>({"", "ilu", "JACOBI", "jacobi ", "external", "sgs2", "async_level_ilu0_and_more", "bjacobi", "sor"}); }
	if(bad == 1) o.hasSweeps = false; if(bad == 2) o.sweeps.resize(1); if(bad == 3) o.scale = -1; if(bad == 4) o.hasFinit = false; if(bad == 5) o.hasAinit = false; if(bad == 6) o.hasChunk = false;
	if(bad == 7) o.finit = s.pick<std::string>({"init_jacobi", "zero", "", "init", "INIT_ZERO"}); if(bad == 8) o.ainit = s.pick<std::string>({"init_sgs", "zero", "init_original", "jacobi"}); if(bad == 9) o.sweeps[s.draw(2)] = -1; if(bad == 10) { o.sweeps = {-1,-1}; }
	if(bad == 11) { bs = s.pick({2,6,7,8}); y.baij = true; wantRefused = true; }
	if(y.baij && o.type == "cscbgs") wantRefused = true; // only for scalar matrices
	vf::Mat m = genMat(s, bs, mo); bool nodiag = false;
	if(bad == 12) { wantRefused = nodiag = true; const int i = (int)s.draw(m.n); IV rp{0}, ci; DV v; for(int r = 0; r < m.n; r++) { for(int k = m.rp[r]; k < m.rp[r+1]; k++) if(!(r == i && m.ci[k] == i)) { ci.push_back(m.ci[k]); v.insert(v.end(), m.v.begin()+(size_t)k*bs*bs, m.v.begin()+(size_t)(k+1)*bs*bs); } rp.push_back((int)ci.size()); } m.rp = rp; m.ci = ci; m.v = v; setDiag(m); }
	o.store(); const Want w = meaning(o, false); if(!w.ok) wantRefused = true; if(w.either && !wantRefused) return; c.nontrivial(wantRefused); c.note("%s on bs=%d%s n=%d%s", o.str().c_str(), bs, y.baij ? "" : " scalar", m.n, nodiag ? " without a diagonal entry" : "");
	y.m = m; y.A = makeMat(s, m, y.baij); putVals(y.A, m, y.baij); makeKsp(s, y, s.pick({(int)DIRECT, (int)BJ, (int)ASM_, (int)KSPS}), 0); Blasted_data_list L = newBlastedDataList();
	const int r = refused([&]{ int e = setup_blasted_stack(y.ksp, &L); if(e) return e; findLeaf(y); Vec b = makeVec(DV(m.N(), 1.0)), x = makeVec(DV(m.N(), 0.0)); PCSetReusePreconditioner(y.pc, PETSC_FALSE); PC pc = y.pc; ::Mat P; PCGetOperators(pc, nullptr, &P); e = compute_preconditioner_blasted(pc); if(e) return e; e = apply_local_blasted(pc, b, x); return e; });
	VF_CHECK(r != 2, "setting up crashes"); if(wantRefused) VF_CHECK(r == 1, "what cannot be is accepted"); else VF_CHECK(r == 0, "valid options are refused");
	KSPDestroy(&y.ksp); MatDestroy(&y.A);
}

/// Multigrid: a solver of its own for every level, set up before first use
VF_PROP(multigrid, 1500, 50000, "at least two levels with several unknowns")
{
	Src& s = c.s; rt::reset(); petscOnce(); g_ptrs.n = 0; std::vector<Rec> recs; g_recs = &recs; c.s.reserve(1<<17); FakeFactory ff; Opts o = genOpts(s, true, false); o.type = s.pick<std::string>({"sgs", "jacobi", "gs", "level_sgs", "ilu0", "external"}); o.sweeps = {1+(int)s.draw(3), 1+(int)s.draw(3)}; o.hasSweeps = o.hasFinit = o.hasAinit = o.hasChunk = true; o.scale = (int)s.draw(2); o.store(); const Want w = meaning(o, true); if(!w.ok) fail("internal: invalid options");
	MatOpt mo; mo.vals = HMATRIX; mo.sym = true; mo.nmax = 16; mo.nmin = 4; vf::Mat m = genMat(s, 1, mo); Sys y; y.m = m; y.baij = false; y.A = makeMat(s, m, false); putVals(y.A, m, false);
	const int nl = m.n >= 8 && s.flip() ? 3 : 2; const bool coarseShell = s.chance(3,4); const bool damped = s.chance(1,3); c.note("%d levels, %s, coarse %s, %s, %s", nl, damped ? "damped" : "not damped", coarseShell ? "shell" : "lu", o.str().c_str(), m.str(300).c_str()); c.nontrivial(true);
	auto opt = [&](const char* n, const char* v) { PetscOptionsSetValue(nullptr, n, v); };
	opt("-mg_ksp_type", "preonly"); opt("-mg_pc_type", "mg"); opt("-mg_pc_mg_levels", std::to_string(nl).c_str()); opt("-mg_pc_mg_galerkin", "both"); opt("-mg_mg_levels_ksp_type", "richardson"); opt("-mg_mg_levels_ksp_richardson_scale", damped ? "0.75" : "1.0"); opt("-mg_mg_levels_ksp_max_it", "1"); opt("-mg_mg_levels_ksp_norm_type", "none"); opt("-mg_mg_levels_pc_type", "shell"); opt("-mg_mg_coarse_ksp_type", "preonly"); opt("-mg_mg_coarse_pc_type", coarseShell ? "shell" : "lu");
	KSPCreate(PETSC_COMM_SELF, &y.ksp); KSPSetOptionsPrefix(y.ksp, "mg_"); KSPSetFromOptions(y.ksp); KSPSetOperators(y.ksp, y.A, y.A); PC pc; KSPGetPC(y.ksp, &pc); int nf = m.n; std::vector<::Mat> P;
	for(int l = nl-1; l >= 1; l--) { const int nc = std::max(1, nf/2); ::Mat I; IV z(nf, 1); MatCreateSeqAIJ(PETSC_COMM_SELF, nf, nc, 1, nullptr, &I); for(int i = 0; i < nf; i++) MatSetValue(I, i, std::min(i/2, nc-1), 1.0, INSERT_VALUES); MatAssemblyBegin(I, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(I, MAT_FINAL_ASSEMBLY); PCMGSetInterpolation(pc, l, I); P.push_back(I); nf = nc; }
	Blasted_data_list L = newBlastedDataList(); PETSC_OK(setup_blasted_stack_ext(y.ksp, ff, &L), "setting up the stack"); const int nleaf = nl-1+(coarseShell ? 1 : 0); VF_CHECK(L.size == nleaf, "%d solvers for %d shells", L.size, nleaf);
	const int rounds = 1+(int)s.draw(3); DV v = genVec(s, m.n); bool dirty = true; int comp = 0;
	for(int k = 0; k < rounds; k++) {
		if(k && s.flip()) { for(auto& x : m.v) x *= 2; putVals(y.A, m, false); KSPSetOperators(y.ksp, y.A, y.A); dirty = true; } if(dirty) comp++; dirty = false;
		Vec b = makeVec(v), x = makeVec(DV(m.n, 0.0)); PETSC_OK(KSPSolve(y.ksp, b, x), "solving"); for(double q : readVec(x)) VF_CHECK(std::isfinite(q), "the result is not finite"); VecDestroy(&b); VecDestroy(&x);
		VF_CHECK((int)recs.size() == nleaf, "%zu solvers were made for %d shells", recs.size(), nleaf);
		for(int l = 0; l < nl; l++) { if(l == 0 && !coarseShell) continue; KSP k2; PCMGGetSmoother(pc, l, &k2); PC q; KSPGetPC(k2, &q); void* ctx; PCShellGetContext(q, &ctx); Blasted_data* d = (Blasted_data*)ctx; int pos = 0; Blasted_data* e = L.ctxlist; for(; e && e != d; e = e->next) pos++; VF_CHECK(e != nullptr, "level %d has a context that is not in the list", l);
			FakePrec* fp = (FakePrec*)d->bprec; Rec& r = recs[fp->id]; ::Mat B; PCGetOperators(q, nullptr, &B); PetscInt nb; MatGetLocalSize(B, &nb, nullptr); Mat_SeqAIJ* g = (Mat_SeqAIJ*)B->data; VF_CHECK(r.n == nb && r.set.prectype == w.type, "level %d has a solver of %d unknowns, expected %d", l, r.n, nb); VF_CHECK(r.computes == comp, "the solver of level %d was computed %d times, expected %d", l, r.computes, comp); VF_CHECK(r.applies+r.relaxes > 0, "the solver of level %d was not used", l); for(int t = 0; t < g->nz; t++) VF_CHECK(r.seen[t] == g->a[t], "the solver of level %d was computed from other values", l);
			if(l > 0) VF_CHECK(relaxes(w.type) && !damped ? r.relaxes > 0 && r.applies == 0 : r.relaxes == 0, "the smoother of level %d was applied %d times and relaxed %d times", l, r.applies, r.relaxes);
			VF_CHECK(d->factorwalltime > 0 && d->applywalltime > 0, "level %d took no time", l); }
	}
	{ On on; KSPDestroy(&y.ksp); MatDestroy(&y.A); for(auto& I : P) MatDestroy(&I); for(auto& r : recs) VF_CHECK(!r.alive, "a level's solver is not destroyed"); destroyBlastedDataList(&L); } VF_CHECK(g_ptrs.n == 0, "%zu objects are never given back", g_ptrs.n);
}
