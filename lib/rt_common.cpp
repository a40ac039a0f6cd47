#include "rt.hpp"
namespace rt {
Policy gen(vf::Src& s, int maxthreads, int lag) {
	Policy p; p.lag = lag;
	if(deterministic() && maxthreads >= 5 && s.chance(1,200)) p.nthreads = 17 + (int)s.draw(50); // a big team
	else p.nthreads = maxthreads >= 5 && maxthreads < 16 && s.chance(1,16) ? maxthreads + 1 + (int)s.draw(16-maxthreads) : 1 + (int)s.draw(maxthreads);
	const uint64_t k = s.draw(8);
	static const int gaps[] = {0, 0, 1, 2, 5, 20, 100, 600};
	p.gap = gaps[k]; p.chunks = k == 1 || s.chance(1,2);
	if(p.nthreads > 1 && s.chance(1,4)) p.starve = (int)s.draw(p.nthreads);
	return p;
}
std::string describe(const Policy& p) {
	char b[160]; snprintf(b, sizeof b, "threads=%d gap=%d chunkswitch=%d lag=%d starved=%d", p.nthreads, p.gap, (int)p.chunks, p.lag, p.starve);
	return b;
}
}
