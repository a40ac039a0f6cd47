// Creation of preconditioners for the harnesses
#pragma once
#include "gen.hpp"
#include <solverfactory.hpp>
namespace vf {
// ---------- preconditioners through the factory
typedef blasted::SRPreconditioner<double,int> Prec;
typedef std::unique_ptr<Prec> PrecP;
struct Opt {
	BlastedSolverType type = BLASTED_JACOBI; bool relax = false; int chunk = 1; bool scale = false; int nb = 1, na = 1;
	blasted::FactInit fi = blasted::INIT_F_ORIGINAL; blasted::ApplyInit ai = blasted::INIT_A_ZERO; bool info = false;
};
inline PrecP makePrec(const Raw& a, const Opt& o) {
	blasted::AsyncSolverSettings s; s.prectype = o.type; s.bs = a.bs; s.blockstorage = a.row ? blasted::RowMajor : blasted::ColMajor; s.relax = o.relax;
	s.thread_chunk_size = o.chunk; s.scale = o.scale; s.nbuildsweeps = o.nb; s.napplysweeps = o.na; s.fact_inittype = o.fi; s.apply_inittype = o.ai; s.compute_precinfo = o.info;
	blasted::SRFactory<double,int> f;
	return PrecP(f.create_preconditioner(a.storage(), s));
}
/// Block configurations for which all preconditioners exist
struct Cfg { int bs; bool row; };
inline Cfg genCfg(Src& s) {
	switch(s.draw(6)) { case 0: case 1: case 2: return {1,false}; case 3: return {4,true}; case 4: return {4,false}; default: return {5,false}; }
}
inline const char* tname(BlastedSolverType t) {
	static const char* n[] = {"jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","cscbgs","level_sgs","async_level_ilu0","none","external"}; return n[t];
}
inline std::string ostr(const Opt& o) { char b[200]; snprintf(b,200,"%s chunk=%d scale=%d build=%d apply=%d finit=%d ainit=%d info=%d", tname(o.type), o.chunk, o.scale, o.nb, o.na, (int)o.fi, (int)o.ai, o.info); return b; }

} // namespace vf
