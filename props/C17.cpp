// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.15
// C17: relations between runs on transformed inputs
#include "prec.hpp"
using namespace vf;
using namespace blasted;

struct Run { Opt op; bool relax = false; int steps = 1; std::string str() const { return ostr(op) + (relax ? " relaxation steps=" + std::to_string(steps) : ""); } };
static bool relaxes(BlastedSolverType t) { return t == BLASTED_JACOBI || t == BLASTED_GS || t == BLASTED_SGS || t == BLASTED_LEVEL_SGS; }
static bool level(BlastedSolverType t) { return t == BLASTED_LEVEL_SGS || t == BLASTED_ASYNC_LEVEL_ILU0; }
static Run genRun(Src& s, int bs) {
	Run r; Opt& op = r.op;
	op.type = s.pick({BLASTED_JACOBI, BLASTED_GS, BLASTED_SGS, BLASTED_ILU0, BLASTED_SEQILU0, BLASTED_SFILU0, BLASTED_SAPILU0, BLASTED_LEVEL_SGS, BLASTED_ASYNC_LEVEL_ILU0, BLASTED_CSC_BGS, BLASTED_NO_PREC});
	if(bs > 1 && op.type == BLASTED_CSC_BGS) op.type = BLASTED_ILU0;
	op.nb = 1+(int)s.draw(2); op.na = 1+(int)s.draw(3); op.chunk = 1+(int)s.draw(4); op.scale = s.flip(); op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS}); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	r.relax = relaxes(op.type) && s.flip(); r.steps = 1+(int)s.draw(3); op.relax = r.relax; return r;
}
static void threads(Src& s, const Run& r) { rt::Policy p = rt::gen(s, 5); const auto t = r.op.type; if(!(t == BLASTED_JACOBI || t == BLASTED_SEQILU0 || t == BLASTED_LEVEL_SGS || t == BLASTED_NO_PREC)) p.nthreads = 1; rt::set(p); }
/// Action of the solver on r (from x0 when relaxing)
static DV act(const Run& run, const Mat& m, bool row, const DV& r, const DV& x0) {
	Raw A(m, row); PrecP p = makePrec(A, run.op); p->compute(); Arr<double> b(r);
	if(run.relax) { Arr<double> x(x0); SolveParams<double> sp; sp.ctol = false; sp.maxits = run.steps; sp.rtol = sp.atol = 1e-12; sp.dtol = 1e12; p->setApplyParams(sp); p->apply_relax(b.data(), x.data()); return x.vec(); }
	Arr<double> z(r.size(), 1e5); p->apply(b.data(), z.data()); return z.vec();
}
static MatOpt opts(Src& s, const Run& r, int bs) { MatOpt o; o.vals = HMATRIX; o.sym = level(r.op.type) || s.flip(); o.nmax = bs == 1 ? 10 : 5; return o; }
static void agree(const DV& x, const DV& y, const char* what, double extra = 0) { LV ref = toLV(y); cmpVec(x.data(), ref, 1e-9L, what, maxabs(ref)+extra); }
static double mx(const DV& v) { double m = 0; for(double x : v) m = std::max(m, std::fabs(x)); return m; }
/// Rounding of a relaxation is relative to the iterate it starts from too
static double x0mag(const Run& r, const DV& x0) { return r.relax ? mx(x0) : 0; }
static bool coupled(const Mat& m) { return m.n > 1 && m.nnz() > m.n; }

VF_PROP(row_and_column_major_blocks, 80000, 2000000, "coupled (block) rows")
{
	Src& s = c.s; Run r = genRun(s, 4); Mat m = genMat(s, 4, opts(s, r, 4)); DV b = genVec(s, m.N()), x0 = genVec(s, m.N()); threads(s, r);
	c.note("%s %s", r.str().c_str(), m.str(600).c_str()); c.nontrivial(coupled(m));
	agree(act(r, m, true, b, x0), act(r, m, false, b, x0), "blocks stored by rows, against by columns", x0mag(r, x0));
}
/// Kronecker product of a point matrix with one block: blocks of the same point method, and with diagonal blocks also its point view
VF_PROP(blocks_against_points, 100000, 2500000, "coupled rows")
{
	Src& s = c.s; const Cfg cfg = s.pick({Cfg{4,true}, Cfg{4,false}, Cfg{5,false}}); const int bs = cfg.bs; Run r = genRun(s, bs);
	MatOpt o = opts(s, r, 1); o.nmax = 6; Mat m = genMat(s, 1, o); Mat blk; blk.n = 1; blk.bs = bs; blk.rp = {0,1}; blk.ci = {0}; blk.di = {0}; genVals(s, blk, DIAGOK);
	const bool diagonal = s.chance(1,3); if(diagonal) for(int a = 0; a < bs; a++) for(int q = 0; q < bs; q++) blk.at(0,a,q) = a == q ? std::fabs(blk.at(0,a,a)) : 0;
	if(!diagonal) { for(int a = 0; a < bs; a++) blk.at(0,a,a) = std::fabs(blk.at(0,a,a)); }
	bool posdiag = true; for(int i = 0; i < m.n; i++) posdiag = posdiag && m.v[m.di[i]] > 0; if(!posdiag) r.op.scale = false;
	Mat k = m; k.bs = bs; k.v.assign((size_t)m.nnz()*bs*bs, 0); for(int e = 0; e < m.nnz(); e++) for(int a = 0; a < bs; a++) for(int q = 0; q < bs; q++) k.at(e,a,q) = m.v[e]*blk.at(0,a,q);
	DV b = genVec(s, k.N()), x0 = genVec(s, k.N()); threads(s, r);
	c.note("%s bs=%d row=%d block %s point matrix %s", r.str().c_str(), bs, cfg.row, blk.str(300).c_str(), m.str(300).c_str()); c.nontrivial(coupled(m));
	DV y = act(r, k, cfg.row, b, x0), ref(k.N());
	std::vector<ld> inv(bs*bs), bl(bs*bs); for(int q = 0; q < bs*bs; q++) bl[q] = blk.v[q]; VF_CHECK(invert(bl.data(), inv.data(), bs), "internal: singular block");
	const bool none = r.op.type == BLASTED_NO_PREC;
	for(int a = 0; a < bs; a++) { // component a of the blocks of (1 x B)^-1 b
		DV pb(m.n), px(m.n); for(int i = 0; i < m.n; i++) { ld v = 0; if(none) v = b[i*bs+a]; else for(int q = 0; q < bs; q++) v += inv[a*bs+q]*b[i*bs+q]; pb[i] = (double)v; px[i] = x0[i*bs+a]; }
		DV pz = act(r, m, false, pb, px); for(int i = 0; i < m.n; i++) ref[i*bs+a] = pz[i];
	}
	agree(y, ref, "block method, against the point method per component", x0mag(r, x0));
	if(diagonal) { Mat e; e.n = k.N(); e.bs = 1; e.rp = {0}; for(int i = 0; i < m.n; i++) for(int a = 0; a < bs; a++) { for(int q = m.rp[i]; q < m.rp[i+1]; q++) { e.ci.push_back(m.ci[q]*bs+a); e.v.push_back(k.at(q,a,a)); } e.rp.push_back((int)e.ci.size()); } setDiag(e);
		agree(y, act(r, e, false, b, x0), "block method with diagonal blocks, against its point view", x0mag(r, x0)); }
}
VF_PROP(linearity, 120000, 3000000, "coupled (block) rows")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Run r = genRun(s, cfg.bs); Mat m = genMat(s, cfg.bs, opts(s, r, cfg.bs)); threads(s, r);
	DV u = genVec(s, m.N()), v = genVec(s, m.N()), xu = genVec(s, m.N()), xv = genVec(s, m.N()); const double a = s.pick({1.0, -1.0, 2.5, 0.0, 1e-3}), b = s.pick({1.0, -1.0, 0.3, 100.0});
	c.note("%s row=%d a=%g b=%g %s", r.str().c_str(), cfg.row, a, b, m.str(500).c_str()); c.nontrivial(coupled(m));
	DV w(m.N()), xw(m.N()); for(int i = 0; i < m.N(); i++) { w[i] = a*u[i]+b*v[i]; xw[i] = a*xu[i]+b*xv[i]; }
	DV pu = act(r, m, cfg.row, u, xu), pv = act(r, m, cfg.row, v, xv), pw = act(r, m, cfg.row, w, xw), ref(m.N()); for(int i = 0; i < m.N(); i++) ref[i] = a*pu[i]+b*pv[i];
	agree(pw, ref, "action on a linear combination", std::fabs(a)*(mx(pu)+x0mag(r, xu))+std::fabs(b)*(mx(pv)+x0mag(r, xv)));
}
/// (S A S), and (R A) as well
VF_PROP(scalings, 120000, 3000000, "coupled (block) rows, scaling not constant")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Run r = genRun(s, cfg.bs); if(r.op.type == BLASTED_NO_PREC) r.op.type = BLASTED_GS;
	Mat m = genMat(s, cfg.bs, opts(s, r, cfg.bs)), t = m; threads(s, r); const int N = m.N(), how = (int)s.draw(3); // symmetric, rows, columns
	DV l(N, 1.0), q(N, 1.0); const bool p2 = s.flip(); for(int i = 0; i < N; i++) l[i] = p2 ? std::ldexp(1.0, s.range(-4,4)) : 0.2+s.unit()*4; if(how == 0) q = l; else if(how == 2) std::swap(l, q);
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int a = 0; a < m.bs; a++) for(int b = 0; b < m.bs; b++) t.at(k,a,b) *= l[i*m.bs+a]*q[m.ci[k]*m.bs+b];
	DV b = genVec(s, N), x0 = genVec(s, N), tb(N), tx(N); for(int i = 0; i < N; i++) { tb[i] = l[i]*b[i]; tx[i] = x0[i]/q[i]; }
	c.note("%s row=%d scaling=%d [%s] %s", r.str().c_str(), cfg.row, how, vstr(how == 2 ? q : l).c_str(), m.str(400).c_str()); c.nontrivial(coupled(m) && mx(how == 2 ? q : l) > 0);
	DV y = act(r, m, cfg.row, b, x0), ty = act(r, t, cfg.row, tb, tx); for(int i = 0; i < N; i++) ty[i] *= q[i];
	agree(ty, y, "action for the scaled matrix, scaled back", x0mag(r, x0));
	if(r.op.type == BLASTED_ILU0 || r.op.type == BLASTED_SEQILU0 || r.op.type == BLASTED_SFILU0 || r.op.type == BLASTED_SAPILU0 || r.op.type == BLASTED_ASYNC_LEVEL_ILU0) {
		Run o = r; o.op.scale = !r.op.scale; agree(act(o, m, cfg.row, b, x0), y, "incomplete LU with and without factoring the scaled matrix"); }
}
/// A symmetric matrix has a symmetric symmetric Gauss-Seidel, Jacobi and incomplete LU operator
VF_PROP(symmetric_operators, 80000, 2000000, "coupled (block) rows")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Run r = genRun(s, cfg.bs); r.relax = r.op.relax = false; if(r.op.type == BLASTED_GS || r.op.type == BLASTED_CSC_BGS) r.op.type = BLASTED_SGS;
	MatOpt o = opts(s, r, cfg.bs); o.sym = true; o.vals = DOMINANT; Mat m = genMat(s, cfg.bs, o); threads(s, r);
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.ci[k] >= i) { const int p = m.find(m.ci[k], i); for(int a = 0; a < m.bs; a++) for(int b = 0; b < m.bs; b++) if(m.ci[k] > i || b > a) m.at(p,b,a) = m.at(k,a,b); }
	for(int i = 0; i < m.n; i++) for(int a = 0; a < m.bs; a++) { double sum = 0; for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int b = 0; b < m.bs; b++) if(!(m.ci[k] == i && a == b)) sum += std::fabs(m.at(k,a,b)); m.at(m.di[i],a,a) = sum > 0 ? 1.25*sum : 0.5; }
	DV u = genVec(s, m.N()), v = genVec(s, m.N()); c.note("%s row=%d %s", r.str().c_str(), cfg.row, m.str(500).c_str()); c.nontrivial(coupled(m));
	DV pu = act(r, m, cfg.row, u, u), pv = act(r, m, cfg.row, v, v); ld a = 0, b = 0, mag = 0; for(int i = 0; i < m.N(); i++) { a += (ld)pu[i]*v[i]; b += (ld)pv[i]*u[i]; mag += std::fabs(pu[i]*v[i])+std::fabs(pv[i]*u[i]); }
	mag += mx(pu)*mx(v)+mx(pv)*mx(u);
	VF_CHECK(fabsl(a-b) <= 1e-9L*mag+1e-290L, "<Pu,v> = %.17Lg, <u,Pv> = %.17Lg", a, b);
}
/// Two uncoupled systems in one matrix, interleaved in any order that keeps each one's own
VF_PROP(uncoupled_systems, 80000, 2000000, "both systems coupled within themselves")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Run r = genRun(s, cfg.bs); MatOpt o = opts(s, r, cfg.bs); Mat a = genMat(s, cfg.bs, o), b = genMat(s, cfg.bs, o); const int bs = cfg.bs; threads(s, r);
	IV pa, pb; for(int i = 0; (int)pa.size() < a.n || (int)pb.size() < b.n; i++) if((int)pb.size() == b.n || ((int)pa.size() < a.n && s.flip())) pa.push_back(i); else pb.push_back(i);
	Mat m; m.n = a.n+b.n; m.bs = bs; m.rp = {0}; size_t ia = 0, ib = 0;
	for(int i = 0; i < m.n; i++) { const bool isa = ia < pa.size() && pa[ia] == i; const Mat& f = isa ? a : b; const IV& pf = isa ? pa : pb; const int l = isa ? (int)ia++ : (int)ib++;
		for(int k = f.rp[l]; k < f.rp[l+1]; k++) { m.ci.push_back(pf[f.ci[k]]); m.v.insert(m.v.end(), f.v.begin()+(size_t)k*bs*bs, f.v.begin()+(size_t)(k+1)*bs*bs); } m.rp.push_back((int)m.ci.size()); }
	setDiag(m); DV ba = genVec(s, a.N()), bb = genVec(s, b.N()), xa = genVec(s, a.N()), xb = genVec(s, b.N()), bm(m.N()), xm(m.N());
	for(int i = 0; i < a.n; i++) for(int q = 0; q < bs; q++) { bm[pa[i]*bs+q] = ba[i*bs+q]; xm[pa[i]*bs+q] = xa[i*bs+q]; } for(int i = 0; i < b.n; i++) for(int q = 0; q < bs; q++) { bm[pb[i]*bs+q] = bb[i*bs+q]; xm[pb[i]*bs+q] = xb[i*bs+q]; }
	c.note("%s row=%d %s", r.str().c_str(), cfg.row, m.str(600).c_str()); c.nontrivial(coupled(a) && coupled(b));
	DV ya = act(r, a, cfg.row, ba, xa), yb = act(r, b, cfg.row, bb, xb), y = act(r, m, cfg.row, bm, xm), za(a.N()), zb(b.N());
	for(int i = 0; i < a.n; i++) for(int q = 0; q < bs; q++) za[i*bs+q] = y[pa[i]*bs+q]; for(int i = 0; i < b.n; i++) for(int q = 0; q < bs; q++) zb[i*bs+q] = y[pb[i]*bs+q];
	agree(za, ya, "first of two uncoupled systems, against it alone", x0mag(r, xa)); agree(zb, yb, "second of two uncoupled systems, against it alone", x0mag(r, xb));
}
