// VF: exclude=coomatrix.cpp,sai.cpp
// VF: scale_asan=0.15
// C21: the factory builds what was named, or says no
#include "relax.hpp"
using namespace vf;
using namespace blasted;

static const std::pair<const char*,BlastedSolverType> tnames[] = {{"none",BLASTED_NO_PREC},{"jacobi",BLASTED_JACOBI},{"gs",BLASTED_GS},{"sgs",BLASTED_SGS},{"ilu0",BLASTED_ILU0},{"seqilu0",BLASTED_SEQILU0},{"sfilu0",BLASTED_SFILU0},
	{"sapilu0",BLASTED_SAPILU0},{"cscbgs",BLASTED_CSC_BGS},{"level_sgs",BLASTED_LEVEL_SGS},{"async_level_ilu0",BLASTED_ASYNC_LEVEL_ILU0}};
static const std::pair<const char*,int> fnames[] = {{"init_zero",INIT_F_ZERO},{"init_original",INIT_F_ORIGINAL},{"init_sgs",INIT_F_SGS},{"init_none",INIT_F_NONE}};
static const std::pair<const char*,int> anames[] = {{"init_zero",INIT_A_ZERO},{"init_jacobi",INIT_A_JACOBI},{"init_none",INIT_A_NONE}};

/// A string near one of the names, or far from all
template <size_t N, class T> static std::string genName(Src& s, const std::pair<const char*,T> (&tab)[N])
{
	static const char al[] = "abcdefghijklmnopqrstuvwxyz_0123456789ILU- ";
	std::string t = s.chance(1,12) ? "" : tab[s.draw(N)].first;
	for(int edits = s.chance(1,3) ? 1+(int)s.draw(3) : 1; edits > 0; edits--) switch(s.draw(10)) {
	case 0: case 1: case 2: break;
	case 3: t += al[s.draw(sizeof al-1)]; break;
	case 4: if(t.size()) t.erase(s.draw(t.size()), 1); break;
	case 5: if(t.size()) { char& ch = t[s.draw(t.size())]; ch = al[s.draw(sizeof al-1)]; } break;
	case 6: for(auto& ch : t) ch = (char)toupper(ch); break;
	case 7: t.insert(s.draw(t.size()+1), 1, s.pick({' ', '\0', '_', 'i', '\n'})); break;
	case 8: t += tab[s.draw(N)].first; break;
	default: { t.clear(); int n = (int)s.draw(9); for(int i = 0; i < n; i++) t += al[s.draw(sizeof al-1)]; if(s.chance(1,6)) t = s.pick({std::string("external"), std::string("ilu"), std::string("sai"), std::string("ilu1"), std::string("bsgs"), std::string("init"), std::string("jacobi_level"), std::string("level_ilu0"), std::string("levelsgs"), std::string("sai"), std::string("chaotic"), std::string("identity"), std::string("async_level_ilu"), std::string("csc_bgs"), std::string("ilu(0)"), std::string("zero"), std::string("original")}); }
	}
	return t;
}
static std::string shown(const std::string& s) { std::string o = "'"; char b[8]; for(char ch : s) if(ch >= 32 && ch < 127) o += ch; else { snprintf(b, 8, "\\x%02x", (unsigned char)ch); o += b; } return o+"'"; }
template <size_t N, class T, class F> static void translate(Case& c, const std::pair<const char*,T> (&tab)[N], const char* what, F f)
{
	const std::string t = genName(c.s, tab); c.note("%s %s", what, shown(t).c_str()); const std::pair<const char*,T>* w = nullptr; for(auto& p : tab) if(t == p.first) w = &p;
	c.nontrivial(t.size() > 0);
	int got = -1; bool refused = false; try { got = (int)f(t); } catch(const std::invalid_argument&) { refused = true; }
	if(w) VF_CHECK(!refused && got == (int)w->second, "%s %s: %s %d, expected %d", what, shown(t).c_str(), refused ? "refused" : "translated to", got, (int)w->second);
	else VF_CHECK(refused, "%s %s, which is not a name, was translated to %d", what, shown(t).c_str(), got);
}
VF_PROP(names, 1500000, 4000000, "the name is not empty")
{
	rt::reset();
	switch(c.s.draw(4)) {
	case 0: translate(c, fnames, "factorisation start", [](const std::string& t) { return (int)getFactInitFromString(t); }); break;
	case 1: translate(c, anames, "application start", [](const std::string& t) { return (int)getApplyInitFromString(t); }); break;
	default: translate(c, tnames, "solver", [](const std::string& t) { SRFactory<double,int> f; const FactoryBase<double,int>& b = f; return (int)b.solverTypeFromString(t); });
	}
}

/// Whether a combination is one the factory offers
static bool offered(int type, int bs, int order) {
	if(type < 0 || type > BLASTED_NO_PREC) return false;
	if(bs == 1) return true;
	if(type == BLASTED_CSC_BGS) return false;
	return (order == RowMajor && bs == 4) || (order == ColMajor && (bs == 4 || bs == 5));
}
static bool relaxes(int t) { return t == BLASTED_JACOBI || t == BLASTED_GS || t == BLASTED_SGS || t == BLASTED_LEVEL_SGS; }

VF_PROP(creation, 250000, 5000000, "an offered combination on at least 3 coupled rows, or one that is not offered")
{
	Src& s = c.s; AsyncSolverSettings set; int bs, order;
	if(s.chance(2,3)) { const Cfg g = genCfg(s); bs = g.bs; order = g.row ? RowMajor : ColMajor; if(bs == 1) order = s.pick({(int)ColMajor, (int)RowMajor, 2}); }
	else { bs = s.range(-1, 9); order = s.pick({(int)ColMajor, (int)RowMajor, (int)ColMajor, (int)RowMajor, 2}); }
	const int type = (int)s.draw(s.chance(1,8) ? 14 : BLASTED_NO_PREC+1);
	const int mb = bs < 1 ? 1 : bs; MatOpt o; o.vals = HMATRIX; o.sym = true; o.nmax = mb == 1 ? 9 : 4; Mat m = genMat(s, mb, o); Raw A(m, order == RowMajor), A0(A);
	set.prectype = (BlastedSolverType)type; set.bs = bs; set.blockstorage = (StorageOptions)order; set.relax = s.flip(); set.thread_chunk_size = 1+(int)s.draw(400); set.scale = s.flip();
	set.nbuildsweeps = 1+(int)s.draw(3); set.napplysweeps = 1; set.fact_inittype = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS, INIT_F_NONE}); set.apply_inittype = s.pick({INIT_A_ZERO, INIT_A_JACOBI}); set.compute_precinfo = s.chance(1,3);
	c.note("type %d bs=%d order=%d relax=%d chunk=%d scale=%d build=%d finit=%d ainit=%d info=%d on %s", type, bs, order, set.relax, set.thread_chunk_size, set.scale, set.nbuildsweeps, (int)set.fact_inittype, (int)set.apply_inittype, set.compute_precinfo, m.str(500).c_str());
	rt::reset(); const bool want = offered(type, bs, order); c.nontrivial(!want || (m.n > 2 && m.nnz() > m.n)); SRFactory<double,int> f; const FactoryBase<double,int>& fb = f;
	PrecP p; bool refused = false;
	try { p.reset(fb.create_preconditioner(A.storage(), set)); } catch(const std::invalid_argument&) { refused = true; }
	if(!want) { VF_CHECK(refused, "a solver is made for a combination that does not exist"); VF_CHECK(A.same(A0), "the matrix was changed"); return; }
	VF_CHECK(!refused && p, "an existing combination is refused");
	VF_CHECK(p->dim() == m.N(), "the dimension is %d instead of %d", p->dim(), m.N());
	VF_CHECK(p->type() == SPARSEROW, "the solver says it is not of sparse-row type");
	VF_CHECK(p->relaxationAvailable() == relaxes(type), "relaxation is said to be %savailable", p->relaxationAvailable() ? "" : "un");
	p->compute(); VF_CHECK(p->dim() == m.N(), "the dimension is %d instead of %d after computing", p->dim(), m.N());
	Ref R(m); DV rr = genVec(s, m.N()); VM r(rr); Arr<double> rv(rr), z(m.N(), 1e9);
	p->apply(rv.data(), z.data()); z.intact("the output vector"); rv.intact("the input vector");
	switch(type) {
	case BLASTED_JACOBI: cmpVM(z.data(), R, rJacobi(R, r), "Jacobi"); break;
	case BLASTED_GS: cmpVM(z.data(), R, rForward(R, r), "Gauss-Seidel"); break;
	case BLASTED_CSC_BGS: cmpVM(z.data(), R, rBackward(R, r), "backward Gauss-Seidel"); break;
	case BLASTED_SGS: case BLASTED_LEVEL_SGS: cmpVM(z.data(), R, rSGS(R, r), "symmetric Gauss-Seidel"); break;
	case BLASTED_NO_PREC: for(int i = 0; i < m.N(); i++) VF_CHECK(z[i] == rv[i], "the identity changed component %d", i); break;
	default: cmpVec(z.data(), refILUApply(m, refILU(m, set.scale), set.scale, rr), 1e-9L, "incomplete LU");
	}
	Arr<double> y(m.N(), 2.0), y0(y); bool threw = false;
	SolveParams<double> sp; sp.rtol = 1e-15; sp.atol = 0; sp.dtol = 1e15; sp.ctol = false; sp.maxits = 1; p->setApplyParams(sp);
	try { p->apply_relax(rv.data(), y.data()); } catch(const std::exception&) { threw = true; }
	y.intact("the output vector");
	if(relaxes(type)) {
		VF_CHECK(!threw, "an available relaxation raises an error");
		VM x(y0.vec());
		switch(type) { case BLASTED_JACOBI: rJacobiStep(R, r, x); break; case BLASTED_GS: rGSStep(R, r, x, false); break; default: rGSStep(R, r, x, false); rGSStep(R, r, x, true); }
		cmpVM(y.data(), R, x, "one step of relaxation");
	}
	else { VF_CHECK(type == BLASTED_NO_PREC ? !threw : threw, "a relaxation that is not available %s", threw ? "raises an error although it is documented to do nothing" : "raises no error"); VF_CHECK(y.same(y0), "a relaxation that is not available changed the vector"); }
	VF_CHECK(A.same(A0), "the matrix was changed"); A.intact();
}
/// Settings that are not those of an asynchronous solver are not silently taken for them
VF_PROP(foreign_settings, 3000, 30000, "always")
{
	Src& s = c.s; struct Other : public SolverSettings { char pad[256]; } o; memset(o.pad, s.flip() ? 0 : 1, sizeof o.pad); SolverSettings plain; SolverSettings& set = s.flip() ? (SolverSettings&)o : plain;
	MatOpt mo; mo.nmax = 4; Mat m = genMat(s, 1, mo); Raw A(m, false); set.prectype = (BlastedSolverType)s.draw(BLASTED_NO_PREC+1); set.bs = 1; set.blockstorage = ColMajor; set.relax = false; set.thread_chunk_size = 1;
	rt::reset(); c.note("type %d with basic settings only", (int)set.prectype); c.nontrivial(true); SRFactory<double,int> f; bool threw = false; PrecP p; try { p.reset(f.create_preconditioner(A.storage(), set)); } catch(const std::exception&) { threw = true; }
	VF_CHECK(threw, "a solver was made from settings without the needed fields");
}

/// Variants with a sequential part: that part is exact with any number of threads and a single sweep
VF_PROP(sequential_parts, 60000, 1500000, "several threads ran the part that is to be sequential, on coupled rows")
{
	Src& s = c.s; const Cfg g = genCfg(s); AsyncSolverSettings set; MatOpt o; o.vals = HMATRIX; o.sym = true; o.nmax = g.bs == 1 ? 10 : 4; o.nmin = 2; Mat m = genMat(s, g.bs, o); Raw A(m, g.row), A0(A);
	set.prectype = s.pick({BLASTED_SEQILU0, BLASTED_SFILU0, BLASTED_SAPILU0, BLASTED_ASYNC_LEVEL_ILU0}); const bool seqF = set.prectype == BLASTED_SEQILU0 || set.prectype == BLASTED_SFILU0, seqA = set.prectype != BLASTED_SFILU0;
	set.bs = g.bs; set.blockstorage = g.row ? RowMajor : ColMajor; set.relax = false; set.thread_chunk_size = 1+(int)s.draw(3); set.scale = s.flip(); set.nbuildsweeps = set.napplysweeps = 1; set.fact_inittype = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS}); set.apply_inittype = s.pick({INIT_A_ZERO, INIT_A_JACOBI}); set.compute_precinfo = s.chance(1,4);
	rt::Policy one, team = rt::gen(s, 5); if(team.nthreads == 1) team.nthreads = 2; c.note("%s chunk=%d scale=%d finit=%d ainit=%d; %s; %s", tname(set.prectype), set.thread_chunk_size, set.scale, (int)set.fact_inittype, (int)set.apply_inittype, rt::describe(team).c_str(), m.str(400).c_str());
	SRFactory<double,int> f; const FactoryBase<double,int>& fb = f; PrecP p(fb.create_preconditioner(A.storage(), set)); c.nontrivial(m.nnz() > m.n);
	rt::set(seqF ? team : one); p->compute(); DV rr = genVec(s, m.N()); Arr<double> r(rr), z(m.N(), 5.0); rt::set(seqA ? team : one); p->apply(r.data(), z.data());
	cmpVec(z.data(), refILUApply(m, refILU(m, set.scale), set.scale, rr), 1e-9L, "a variant with a sequential part");
	rt::reset(); z.intact("the output vector"); r.intact("the input vector"); VF_CHECK(A.same(A0), "the matrix was changed");
}
