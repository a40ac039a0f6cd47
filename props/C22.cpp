// VF: petsc=1
// VF: variants=asan
// VF: exclude=sai.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,solverops_jacobi.cpp,solverops_sgs.cpp,solverops_ilu0.cpp,solverops_levels_sgs.cpp,solverops_levels_ilu0.cpp,relaxation_chaotic.cpp,solverfactory.cpp,solverops_base.cpp,solverops_sai.cpp,ilu_pattern.cpp,levelschedule.cpp,matrix_properties.cpp,reorderingscaling.cpp
// C22: PETSc option readers, and matrices and vectors read from Matrix Market files into PETSc objects
#include "gen.hpp"
#include "petsc_once.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <map>
#include <utils/cmdoptions.hpp>
#include <utils/blasted_petsc_io.h>
#define main write_petsc_binaries
#include "utils/util_petsc_io.c"
#undef main
using namespace vf;
using namespace blasted;

void vf_init() { petscOnce(); }
static std::string genName(Src& s, int i) { // distinct, some are prefixes of others
	static const char* n[] = {"-a", "-ab", "-blasted_pc_type", "-blasted_async_sweeps", "-blasted_async", "-x9", "-x", "-long_option_name_with_many_parts_in_it", "-abc", "-b"}; return n[i%10];
}
enum Kind { INT, REAL, BOOL, STRING, ARRAY, NOVALUE, JUNK, NKIND };
struct Value { int kind; std::string text; int i = 0; double r = 0; bool b = false; std::vector<int> a; };
static Value genValue(Src& s) {
	Value v; v.kind = (int)s.draw(NKIND); char b[64];
	switch(v.kind) {
	case INT: v.i = s.chance(1,6) ? s.pick({2147483647, -2147483647, 1000000, -1}) : s.range(-200,200); v.text = std::to_string(v.i); break;
	case REAL: { double x = s.chance(1,8) ? 0.0 : std::ldexp(1+s.unit(), s.range(-60,60))*(s.flip() ? -1 : 1); snprintf(b, 64, s.pick({"%.17g", "%.6f", "%g", "%.3e"}), x); v.text = b; v.r = strtod(b, nullptr); if(v.text.find_first_of(".e") == std::string::npos) { v.text += ".0"; } } break;
	case BOOL: { static const std::pair<const char*,bool> w[] = {{"true",1},{"false",0},{"yes",1},{"no",0},{"on",1},{"off",0},{"1",1},{"0",0},{"TRUE",1},{"FALSE",0}}; auto& e = w[s.draw(10)]; v.text = e.first; v.b = e.second; } break;
	case STRING: { int n = 1+(int)s.draw(s.chance(1,8) ? 120 : 14); for(int i = 0; i < n; i++) v.text += "abcdefghijklmnopqrstuvwxyz_0123456789/.,"[s.draw(40)]; } break;
	case ARRAY: { int n = 1+(int)s.draw(s.chance(1,6) ? 40 : 8); const bool small = s.flip(); for(int i = 0; i < n; i++) { v.a.push_back(small ? s.range(-1,2) : s.chance(1,30) ? s.pick({2147483647, -2147483647, 65536}) : s.range(-50,300)); v.text += (i ? "," : "") + std::to_string(v.a.back()); } } break;
	case NOVALUE: break;
	default: v.text = s.pick<std::string>({"seven", "1x", "--", "1,,2", "maybe", "1.5.2"});
	}
	return v;
}
template <class F> static int outcome(F f) { try { f(); return 0; } catch(const InputNotGivenError&) { return 1; } catch(const std::exception&) { return 2; } } // fine, missing, other error

VF_PROP(options, 40000, 1500000, "at least two options are stored and one is read")
{
	Src& s = c.s; rt::reset(); petscOnce(); std::map<std::string,Value> db; const int nops = 1+(int)s.draw(24); int reads = 0; size_t most = 0;
	for(int op = 0; op < nops; op++) {
		const std::string name = genName(s, (int)s.draw(10)); const char* nm = name.c_str(); auto it = db.find(name); const Value* v = it == db.end() ? nullptr : &it->second;
		const int what = (int)s.draw(10);
		if(what == 1 && v && s.flip()) { c.note("clear %s;", nm); PetscOptionsClearValue(nullptr, nm); db.erase(name); continue; }
		if(what <= 3) { Value w = genValue(s); c.note("%s=%s;", nm, w.kind == NOVALUE ? "(no value)" : w.text.c_str()); if(PetscOptionsSetValue(nullptr, nm, w.kind == NOVALUE ? nullptr : w.text.c_str())) fail("internal: cannot store an option"); db[name] = w; most = std::max(most, db.size()); continue; }
		reads++;
		switch(what) {
		case 4: { bool d = parsePetscCmd_isDefined(name); c.note("defined %s?;", nm); VF_CHECK(d == (v != nullptr), "%s is said to be %sdefined", nm, d ? "" : "un"); } break;
		case 5: { c.note("int %s;", nm); int r = -999; int o = outcome([&]{ r = parsePetscCmd_int(name); });
			if(!v) VF_CHECK(o == 1, "a missing integer %s %s", nm, o ? "raises another error" : "is returned");
			else if(v->kind == INT) VF_CHECK(o == 0 && r == v->i, "integer %s: %d (outcome %d), expected %d", nm, r, o, v->i);
			else if(v->kind == JUNK && isalpha(v->text[0]) ) VF_CHECK(o != 0, "'%s' is taken for the integer %d", v->text.c_str(), r); } break;
		case 6: { const double def = s.pick({0.0, -1.5, 1e-6, 3.25}); c.note("real %s default %g;", nm, def); double r = -999; int o = outcome([&]{ r = parseOptionalPetscCmd_real(name, def); });
			if(!v) VF_CHECK(o == 0 && r == def, "a missing real %s gives %g (outcome %d) instead of its default %g", nm, r, o, def);
			else if(v->kind == REAL) VF_CHECK(o == 0 && r == v->r, "real %s: %.17g (outcome %d), expected %.17g", nm, r, o, v->r);
			else if(v->kind == INT) VF_CHECK(o == 0 && r == v->i, "real %s: %.17g (outcome %d), expected %d", nm, r, o, v->i);
			else if(v->kind == JUNK && isalpha(v->text[0])) VF_CHECK(o != 0, "'%s' is taken for the real %g", v->text.c_str(), r); } break;
		case 7: { c.note("bool %s;", nm); bool r = false; int o = outcome([&]{ r = parsePetscCmd_bool(name); });
			if(!v) VF_CHECK(o == 1, "a missing boolean %s %s", nm, o ? "raises another error" : "is returned");
			else if(v->kind == BOOL) VF_CHECK(o == 0 && r == v->b, "boolean %s: %d (outcome %d), expected %d", nm, r, o, v->b);
			else if(v->kind == NOVALUE) VF_CHECK(o == 0 && r, "boolean %s given without a value: %d (outcome %d)", nm, r, o);
			else if(v->kind == JUNK && isalpha(v->text[0])) VF_CHECK(o != 0, "'%s' is taken for the boolean %d", v->text.c_str(), r); } break;
		case 8: { const size_t len = v && s.flip() ? std::max<size_t>(1, v->text.size()+(s.flip() ? 0 : s.draw(3))) : 1+s.draw(150); c.note("string %s up to %zu;", nm, len); std::string r; int o = outcome([&]{ r = parsePetscCmd_string(name, len); });
			if(!v) VF_CHECK(o == 1, "a missing string %s %s", nm, o ? "raises another error" : "is returned");
			else if(v->kind != NOVALUE) {
				VF_CHECK(o == 0, "string %s: outcome %d", nm, o);
				if(v->text.size() <= len) VF_CHECK(r == v->text, "string %s of up to %zu characters: '%s', expected '%s'", nm, len, r.c_str(), v->text.c_str());
				else VF_CHECK(r.size() <= len && v->text.compare(0, r.size(), r) == 0, "string %s cut to %zu characters: '%s'", nm, len, r.c_str()); } } break;
		default: { const bool opt = s.flip(); const int maxlen = 1+(int)s.draw(s.chance(1,4) ? 40 : 9); c.note("%sarray %s up to %d;", opt ? "optional " : "", nm, maxlen); std::vector<int> r; int o = outcome([&]{ r = opt ? parseOptionalPetscCmd_intArray(name, maxlen) : parsePetscCmd_intArray(name, maxlen); });
			if(!v) { if(opt) VF_CHECK(o == 0 && r.empty(), "a missing optional array %s gives %zu entries (outcome %d)", nm, r.size(), o); else VF_CHECK(o == 1, "a missing array %s %s", nm, o ? "raises another error" : "is returned"); }
			else if(v->kind == ARRAY || v->kind == INT) { std::vector<int> want = v->kind == INT ? std::vector<int>{v->i} : v->a; if((int)want.size() <= maxlen) VF_CHECK(o == 0 && r == want, "array %s '%s' of up to %d entries: %zu read (outcome %d)", nm, v->text.c_str(), maxlen, r.size(), o);
				else if(o == 0) { want.resize(maxlen); VF_CHECK(r == want, "array %s '%s' cut to %d entries is wrong", nm, v->text.c_str(), maxlen); } } } }
	}
	c.nontrivial(most >= 2 && reads >= 1);
}

/// Every error of PETSc becomes an exception that names it
VF_PROP(errors, 4000, 40000, "a code PETSc knows")
{
	Src& s = c.s; petscOnce(); const int code = s.chance(1,4) ? s.pick<int>({0, -1, 1, PETSC_ERR_MIN_VALUE, PETSC_ERR_MAX_VALUE, 1000}) : s.range(PETSC_ERR_MIN_VALUE-2, PETSC_ERR_MAX_VALUE+3); c.note("error code %d", code);
	const bool known = code > PETSC_ERR_MIN_VALUE && code < PETSC_ERR_MAX_VALUE; c.nontrivial(known);
	bool threw = false; std::string what; try { petsc_throw(code); } catch(const std::runtime_error& e) { threw = true; what = e.what(); }
	VF_CHECK(threw == (code != 0), "code %d %s an exception", code, threw ? "raises" : "does not raise");
	if(known) { const char* text = nullptr; char* spec = nullptr; PetscErrorMessage(code, &text, &spec); if(text) VF_CHECK(what.find(text) != std::string::npos, "the exception for code %d does not carry its text '%s' but '%s'", code, text, what.c_str()); }
}

// ---------- files
struct Dir { std::string p; Dir() { char t[] = "/tmp/vf_c22_XXXXXX"; if(!mkdtemp(t)) abort(); p = t; } std::vector<std::string> made;
	std::string put(const std::string& name, const std::string& text) { std::string f = p+"/"+name; FILE* h = fopen(f.c_str(), "w"); if(!h) abort(); fwrite(text.data(), 1, text.size(), h); fclose(h); made.push_back(f); made.push_back(f+".pmat"); made.push_back(f+".pmat.info"); return f; }
	~Dir() { for(auto& f : made) unlink(f.c_str()); rmdir(p.c_str()); } };
static std::string matText(Src& s, const vf::Mat& m) {
	std::vector<std::string> e; char b[80]; for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int r = 0; r < m.bs; r++) for(int q = 0; q < m.bs; q++) { double v = m.at(k,r,q); if(m.bs > 1 && v == 0) continue; snprintf(b, 80, "%d %d %.17g\n", i*m.bs+r+1, m.ci[k]*m.bs+q+1, v); e.push_back(b); }
	IV p; for(int i = 0; i < (int)e.size(); i++) p.push_back(i); if(s.flip()) p = s.perm((int)e.size());
	std::string t = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(m.N()) + " " + std::to_string(m.N()) + " " + std::to_string(e.size()) + "\n"; for(int i : p) t += e[i]; return t;
}
static std::string vecText(const DV& v) { std::string t = "%%MatrixMarket matrix array real general\n" + std::to_string(v.size()) + " 1\n"; char b[40]; for(double x : v) { snprintf(b, 40, "%.17g\n", x); t += b; } return t; }
static void sameVec(Vec x, const DV& v, const char* what) {
	PetscInt n; if(VecGetLocalSize(x, &n)) fail("internal: no size"); VF_CHECK(n == (int)v.size(), "%s has %d entries, expected %zu", what, n, v.size());
	const PetscScalar* a; VecGetArrayRead(x, &a); for(int i = 0; i < n; i++) VF_CHECK(a[i] == v[i], "%s: entry %d is %.17g, expected %.17g", what, i, a[i], v[i]); VecRestoreArrayRead(x, &a);
}
static void sameMat(::Mat A, const vf::Mat& m, const char* what) {
	PetscInt r, q; MatGetSize(A, &r, &q); VF_CHECK(r == m.N() && q == m.N(), "%s is %d by %d, expected %d", what, r, q, m.N()); const LV d = m.dense();
	for(PetscInt i = 0; i < r; i++) { PetscInt n; const PetscInt* ci; const PetscScalar* v; LV got(r, 0); if(MatGetRow(A, i, &n, &ci, &v)) fail("internal: no row"); for(int k = 0; k < n; k++) { VF_CHECK(ci[k] >= 0 && ci[k] < r, "%s has a column %d", what, ci[k]); got[ci[k]] += v[k]; } MatRestoreRow(A, i, &n, &ci, &v);
		for(int j = 0; j < r; j++) VF_CHECK(got[j] == d[(size_t)i*r+j], "%s: entry (%d,%d) is %.17Lg, expected %.17Lg", what, i, j, got[j], d[(size_t)i*r+j]); }
}
static vf::Mat genSys(Src& s, int& mbs, std::string& type) {
	mbs = s.pick({1,1,3,4,7,2,5}); type = s.pick<std::string>({"aij", "baij", "seqaij", "seqbaij", "mpiaij", "mpibaij"});
	MatOpt o; o.vals = ARBITRARY; o.nmax = mbs == 1 ? 14 : mbs > 4 ? 3 : 5; o.fulldiag = !s.chance(1,3); vf::Mat m = genMat(s, mbs, o);
	if(m.nnz() == 0) { o.fulldiag = true; m = genMat(s, mbs, o); } for(auto& x : m.v) if(x == 0) x = 0.5;
	return m;
}
VF_PROP(files, 12000, 400000, "at least 3 rows and off-diagonal entries")
{
	Src& s = c.s; rt::reset(); petscOnce(); int mbs; std::string type; vf::Mat m = genSys(s, mbs, type); DV v = genVec(s, m.N()); const bool viaSR = s.flip(); Dir d;
	PetscOptionsSetValue(nullptr, "-mat_type", type.c_str()); if(mbs > 1 || s.flip()) PetscOptionsSetValue(nullptr, "-mat_block_size", std::to_string(mbs).c_str());
	c.note("%s of type %s, %s", viaSR ? "sparse-row conversion" : "entry by entry", type.c_str(), m.str(600).c_str()); c.nontrivial(m.N() > 2 && m.nnz() > 1);
	const std::string f = d.put("A.mtx", matText(s, m)); ::Mat A = nullptr;
	int e = viaSR ? readMatFromCOOFile_viaSR(f.c_str(), PETSC_COMM_WORLD, &A) : readMatFromCOOFile(f.c_str(), PETSC_COMM_WORLD, &A);
	VF_CHECK(e == 0, "reading the matrix fails with error %d", e); sameMat(A, m, "the matrix read");
	const std::string g = d.put("b.mtx", vecText(v)); Vec x = nullptr; const bool with = s.flip(); e = readVecFromFile(g.c_str(), PETSC_COMM_WORLD, with ? A : nullptr, &x); VF_CHECK(e == 0, "reading the vector fails with error %d", e); sameVec(x, v, "the vector read");
	if(s.flip()) { Vec y; VecDuplicate(x, &y); if(MatMult(A, x, y)) fail("the matrix read cannot be multiplied"); const PetscScalar* a; VecGetArrayRead(y, &a); LV w = mulMat(m, toLV(v)); ld mag = 1; for(double q : m.v) mag = std::max(mag, fabsl(q)); for(int i = 0; i < m.N(); i++) VF_CHECK(fabsl(a[i]-w[i]) <= 1e-13L*mag*m.N()*(1+maxabs(toLV(v))), "the product with the matrix read is wrong in row %d", i); VecRestoreArrayRead(y, &a); VecDestroy(&y); }
	VecDestroy(&x); MatDestroy(&A);
}
/// The conversion tool: text files in, PETSc binary files out
VF_PROP(conversion_tool, 1500, 60000, "at least 3 rows and off-diagonal entries")
{
	Src& s = c.s; rt::reset(); petscOnce(); int mbs; std::string type; vf::Mat m = genSys(s, mbs, type); DV v = genVec(s, m.N()), u = genVec(s, m.N()); const bool exact = s.flip(); Dir d;
	c.note("type %s %s %s", type.c_str(), exact ? "with an exact solution" : "", m.str(600).c_str()); c.nontrivial(m.N() > 2 && m.nnz() > 1);
	std::string fa = d.put("A.mtx", matText(s, m)), fb = d.put("b.mtx", vecText(v)), fx = d.put("x.mtx", vecText(u));
	if(s.chance(1,4)) for(auto* f : {&fa, &fb, &fx}) { std::string dots; int k = (int)s.draw(s.chance(1,8) ? 1800 : 300); for(int i = 0; i < k; i++) dots += "./"; f->insert(d.p.size()+1, dots); } // long names of the same files
	c.note("names of %zu and %zu characters", fa.size(), fb.size());
	PetscOptionsSetValue(nullptr, "-mat_type", type.c_str()); PetscOptionsSetValue(nullptr, "-mat_block_size", std::to_string(mbs).c_str()); if(exact) { PetscOptionsSetValue(nullptr, "-exact_soln", fx.c_str()); }
	std::vector<char> a0(fa.begin(), fa.end()), a1(fb.begin(), fb.end()); a0.push_back(0); a1.push_back(0); char prog[] = "util"; char* av[] = {prog, a0.data(), a1.data(), nullptr};
	const int r = write_petsc_binaries(3, av); VF_CHECK(r == 0, "the tool returns %d", r);
	petscOnce(); PetscViewer vw; ::Mat A; Vec x;
	auto vec = [&](const std::string& f, const DV& want, const char* what) { VF_CHECK(access(f.c_str(), R_OK) == 0, "no file %s", f.c_str()); if(PetscViewerBinaryOpen(PETSC_COMM_WORLD, f.c_str(), FILE_MODE_READ, &vw)) fail("cannot open %s", f.c_str()); VecCreate(PETSC_COMM_WORLD, &x); if(VecLoad(x, vw)) fail("cannot load %s", what); PetscViewerDestroy(&vw); sameVec(x, want, what); VecDestroy(&x); };
	VF_CHECK(access((fa+".pmat").c_str(), R_OK) == 0, "no file %s.pmat", fa.c_str());
	if(PetscViewerBinaryOpen(PETSC_COMM_WORLD, (fa+".pmat").c_str(), FILE_MODE_READ, &vw)) fail("cannot open the matrix written"); MatCreate(PETSC_COMM_WORLD, &A); if(MatLoad(A, vw)) fail("cannot load the matrix written"); PetscViewerDestroy(&vw); sameMat(A, m, "the matrix written"); MatDestroy(&A);
	vec(fb+".pmat", v, "the right-hand side written"); if(exact) vec(fx+".pmat", u, "the solution written");
}
