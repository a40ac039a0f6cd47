// Driver: runs registered sub-properties over many generated cases in forked workers, shrinks failures.
#include "vf.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <map>
#include <fstream>
#include <sstream>
#include "rt.hpp"

namespace vf {

static inline uint64_t mix(uint64_t x) {
	x += 0x9e3779b97f4a7c15ull; x = (x ^ (x>>30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x>>27)) * 0x94d049bb133111ebull; return x ^ (x>>31);
}
void Src::seed(uint64_t s) { replaying = false; pos = 0; rec.clear(); h = 0x1234567; st[0] = mix(s); st[1] = mix(st[0]^s) | 1; }
void Src::replay(const std::vector<uint64_t>& v) { replaying = true; in = v; pos = 0; rec.clear(); h = 0x1234567; }
static uint64_t *g_rec = nullptr; static volatile uint64_t *g_nrec = nullptr; // shared copy of the choices
static const size_t MAXREC = 1u<<20;
uint64_t Src::draw(uint64_t n) {
	uint64_t v = 0;
	if(n > 1) {
		if(replaying) { v = pos < in.size() ? in[pos] % n : 0; pos++; }
		else if(rec.size() < MAXREC) {
			uint64_t s1 = st[0]; const uint64_t s0 = st[1]; st[0] = s0; s1 ^= s1 << 23;
			st[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
			v = (uint64_t)(((unsigned __int128)(st[1] + s0) * n) >> 64);
		}
		if(rec.size() < MAXREC) {
			rec.push_back(v);
			if(g_rec) { g_rec[rec.size()-1] = v; *g_nrec = rec.size(); }
		}
		h = mix(h ^ (v + n*0x10001));
	}
	return v;
}

static char* g_dsc = nullptr;
void Case::note(const char* fmt, ...) {
	if(!verbose) return;
	char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	if(desc.size() < 20000) { desc += b; desc += "; "; }
	if(g_dsc) strncpy(g_dsc, desc.c_str(), (1<<16)-1); // survives a crash
}

struct Sub { const char* name; int quick, thorough; const char* rule; PropFn fn; };
static std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
Reg::Reg(const char* name, int q, int t, const char* rule, PropFn fn) { subs().push_back({name,q,t,rule,fn}); }

static const int HIST = 1<<18;
struct Shared { // one per worker
	volatile long long cur; volatile int sub; volatile int done; volatile long long evals[32], nontriv[32]; char msg[4096];
	volatile int badmsg;
	volatile long long hist[HIST], nhist; // the cases run so far, the last ones of them
	volatile double slow; volatile int slowsub; // the longest processor time of a case
};
static Shared* g_sh = nullptr;
static Src* g_src = nullptr;

void fail(const char* fmt, ...) {
	char b[4000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	if(g_sh) { strncpy(g_sh->msg, b, sizeof(g_sh->msg)-1); }
	fprintf(stderr, "FAIL %s\n", b);
	_exit(77);
}
static int g_smode = 0; static std::vector<uint64_t> g_slog; static size_t g_spos = 0;
void schedRecord() { g_smode = 1; g_slog.clear(); g_slog.reserve(1<<16); }
void schedReplay() { g_smode = 2; g_spos = 0; }
void schedPlain() { g_smode = 0; }
uint64_t sched_draw(uint64_t n) {
	if(g_smode == 2) { uint64_t v = g_spos < g_slog.size() ? g_slog[g_spos] : 0; g_spos++; return n > 1 ? v % n : 0; }
	const uint64_t v = g_src ? g_src->draw(n) : 0;
	if(g_smode == 1) g_slog.push_back(v);
	return v;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static int g_cpulimit = 30;
static double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static void arm(int s) { struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, nullptr); }

static void runOne(const Sub& sb, Src& src, Case& c) {
	static const int pat[] = {0, 0xff, 0x80, 0x01, 0xbf, 0x40, 0x81};
	schedPlain();
	const int fill = pat[src.draw(7)]; // contents of fresh heap memory are an input too
#ifndef VF_ASAN
	mallopt(M_PERTURB, fill);
#else
	(void)fill;
#endif
	g_src = &src;
	rt::reset();
	arm(g_cpulimit);
	try { sb.fn(c); }
	catch(const std::exception& e) { fail("unexpected exception: %s", e.what()); }
	catch(...) { fail("unexpected exception of unknown type"); }
	arm(0);
	rt::reset();
}

static std::string jesc(const std::string& s) {
	std::string o; for(char ch : s) { unsigned char u = ch;
		if(u=='"'||u=='\\') { o += '\\'; o += ch; } else if(u < 0x20 || u >= 0x7f) { char b[8]; snprintf(b,8,"\\u%04x",u); o += b; } else o += ch; }
	return o;
}

/// A case run before another in the same process
struct Prior { int sub; uint64_t seed; };
struct Outcome { bool killed = false; bool failed; std::string msg; std::vector<uint64_t> choices; std::string desc; bool nontriv; };

static Outcome runForked(int sub, const std::vector<uint64_t>* choices, uint64_t seed, bool thorough, bool verbose, const std::vector<Prior>& prior = {}) {
	static uint64_t* shrec = (uint64_t*)mmap(0, (MAXREC+1)*8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	static Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	static char* dsc = (char*)mmap(0, 1<<16, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	memset(sh, 0, sizeof *sh); shrec[MAXREC] = 0; memset(dsc, 0, 1<<16);
	fflush(stdout); fflush(stderr);
	int pfd[2]; if(pipe(pfd)) abort();
	pid_t pid = fork();
	if(pid == 0) {
		close(pfd[0]); dup2(pfd[1], 2);
		int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
		struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
		g_sh = sh;
		for(auto& p : prior) { Src ps; ps.seed(p.seed); Case pc(ps); pc.thorough = thorough; runOne(subs()[p.sub], ps, pc); }
		g_rec = shrec; g_nrec = shrec+MAXREC;
		Src s; if(choices) s.replay(*choices); else s.seed(seed);
		Case c(s); c.verbose = verbose; c.thorough = thorough;
		g_dsc = dsc;
		runOne(subs()[sub], s, c);
		sh->badmsg = c.nontriv;
		_exit(0);
	}
	close(pfd[1]);
	std::string err; char buf[4096];
	double t0 = now(); bool killed = false;
	fcntl(pfd[0], F_SETFL, O_NONBLOCK);
	int st = 0;
	while(true) {
		ssize_t r = read(pfd[0], buf, sizeof buf);
		if(r > 0) { if(err.size() < 20000) err.append(buf, r); continue; }
		pid_t w = waitpid(pid, &st, WNOHANG);
		if(w == pid) { while((r = read(pfd[0], buf, sizeof buf)) > 0) if(err.size() < 20000) err.append(buf, r); break; }
		if(now()-t0 > 120 && !killed) { kill(pid, SIGKILL); killed = true; }
		usleep(now()-t0 < 0.05 ? 200 : 2000);
	}
	close(pfd[0]);
	Outcome o; o.killed = killed; o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0); o.nontriv = sh->badmsg;
	if(o.failed) {
		if(sh->msg[0]) o.msg = sh->msg;
		else if(killed || (WIFSIGNALED(st) && WTERMSIG(st)==SIGPROF)) o.msg = "hang: no result within the time limit";
		else {
			char b[64]; if(WIFSIGNALED(st)) snprintf(b,64,"died from signal %d: ",WTERMSIG(st)); else snprintf(b,64,"exited with status %d: ",WEXITSTATUS(st));
			o.msg = b;
			// keep the telling line of a sanitizer report or assertion
			std::istringstream is(err); std::string l; int kept = 0;
			while(std::getline(is, l)) if(l.find("ERROR")!=std::string::npos || l.find("runtime error")!=std::string::npos || l.find("Assertion")!=std::string::npos || l.find("assertion")!=std::string::npos
				|| l.find("what()")!=std::string::npos || (l.find("    #")==0 && kept < 6 && l.find("/repo/")!=std::string::npos)) { if(kept++ < 8) o.msg += l.substr(0,300) + " | "; }
			if(!kept) o.msg += err.substr(0, 400);
		}
	}
	uint64_t n = shrec[MAXREC]; o.choices.assign(shrec, shrec+n); o.desc = dsc;
	return o;
}

static bool fails(int sub, const std::vector<uint64_t>& ch, bool thorough, Outcome& o) { o = runForked(sub, &ch, 0, thorough, false); return o.failed; }

static Outcome shrink(int sub, Outcome best, bool thorough, double limit) {
	double t0 = now(); int tries = 0;
	auto left = [&]{ return now()-t0 < limit && tries < 6000; };
	auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
		tries++; Outcome o;
		if(!fails(sub, cand, thorough, o)) return false;
		// Compare by length, then lexicographically
		std::vector<uint64_t> used = o.choices;
		while(!used.empty() && used.back() == 0) used.pop_back();
		if(used.size() < best.choices.size() || (used.size() == best.choices.size() && used < best.choices)) { o.choices = used; best = o; return true; }
		return false;
	};
	while(!best.choices.empty() && best.choices.back() == 0) best.choices.pop_back();
	bool prog = true;
	while(prog && left()) {
		prog = false;
		for(size_t len = std::max<size_t>(1, best.choices.size()/2); len >= 1 && left(); len /= 2) { // delete blocks
			for(size_t i = 0; i + len <= best.choices.size() && left();) {
				std::vector<uint64_t> c(best.choices); c.erase(c.begin()+i, c.begin()+i+len);
				if(attempt(c)) prog = true; else i += len;
			}
			for(size_t i = 0; i + len <= best.choices.size() && left(); i += len) { // zero blocks
				bool any = false; for(size_t k = i; k < i+len; k++) any = any || best.choices[k];
				if(!any) continue;
				std::vector<uint64_t> c(best.choices); std::fill(c.begin()+i, c.begin()+i+len, 0);
				if(attempt(c)) prog = true;
			}
		}
		for(size_t i = 0; i < best.choices.size() && left(); i++) { // reduce single values
			uint64_t lo = 0;
			while(i < best.choices.size() && best.choices[i] > lo && left()) {
				std::vector<uint64_t> c(best.choices); uint64_t mid = lo + (c[i]-lo)/2; if(mid == c[i]) break;
				c[i] = mid; if(attempt(c)) prog = true; else lo = mid + 1;
			}
		}
	}
	return best;
}

} // namespace vf
using namespace vf;

void vf_init() __attribute__((weak)); ///< Called once before any case is run

int main(int argc, char** argv)
{
	if(vf_init) vf_init();
	std::map<std::string,std::string> opt; for(int i = 1; i+1 < argc; i += 2) opt[argv[i]] = argv[i+1];
	const bool thorough = opt["--tier"] == "thorough";
	const uint64_t seed = opt.count("--seed") ? strtoull(opt["--seed"].c_str(),0,10) : 1;
	const int nw = opt.count("--workers") ? atoi(opt["--workers"].c_str()) : 8;
	const double budget = opt.count("--budget") ? atof(opt["--budget"].c_str()) : 150;
	const double scale = opt.count("--scale") ? atof(opt["--scale"].c_str()) : 1;
	if(opt.count("--cpu")) g_cpulimit = atoi(opt["--cpu"].c_str());
	const std::string id = opt["--id"], variant = opt["--variant"], only = opt["--only"];
	signal(SIGPIPE, SIG_IGN);

	if(opt.count("--replay")) {
		std::ifstream f(opt["--replay"]); std::string l, name; std::vector<uint64_t> ch; bool th = false; std::vector<Prior> prior;
		while(std::getline(f, l)) {
			std::istringstream is(l); std::string k; is >> k;
			if(k == "sub") is >> name; else if(k == "thorough") is >> th;
			else if(k == "prior") { std::string q; uint64_t v; while(is >> q >> v) for(size_t s = 0; s < subs().size(); s++) if(q == subs()[s].name) prior.push_back({(int)s, v}); }
			else if(k == "choices") { uint64_t v; while(is >> v) ch.push_back(v); }
		}
		for(size_t s = 0; s < subs().size(); s++) if(name == subs()[s].name) {
			Outcome o = runForked(s, &ch, 0, th, true, prior);
			printf("replay %s: %s\n%s\n%s\n", name.c_str(), o.failed ? "FAILS" : "passes", o.msg.c_str(), o.desc.c_str());
			return o.failed ? 1 : 0;
		}
		printf("replay: no sub-property %s here\n", name.c_str()); return 2;
	}

	const double t0 = now();
	// Plan: interleave sub-properties
	std::vector<long long> cnt; long long total = 0;
	for(auto& s : subs()) { long long n = (long long)std::ceil((thorough ? s.thorough : s.quick) * scale); if(!only.empty() && only != s.name) n = 0; cnt.push_back(n); total += n; }
	// case index g -> (sub, i): proportional interleaving
	struct Item { float key; int sub; int i; };
	std::vector<Item> plan; plan.reserve(total);
	for(size_t s = 0; s < subs().size(); s++) for(long long i = 0; i < cnt[s]; i++) plan.push_back({ (float)((i+0.5)/cnt[s]), (int)s, (int)i });
	std::stable_sort(plan.begin(), plan.end(), [](const Item&a, const Item&b){ return a.key < b.key; });
	auto cseed = [&](const Item& it) { return mix(mix(seed*1000003ull + it.i) ^ mix(0xabcdefull + std::hash<std::string>()(subs()[it.sub].name))); };

	Shared* sh = (Shared*)mmap(0, sizeof(Shared)*nw, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	memset(sh, 0, sizeof(Shared)*nw);
	// dispenser of batches
	volatile long long* disp = (volatile long long*)mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	const size_t HCAP = 1u<<22; // table of hashes of non-trivial cases, shared
	volatile uint64_t* ht = (volatile uint64_t*)mmap(0, HCAP*8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	int rc = 0; std::string failinfo; int violations = 0; int flaky = 0;
	std::vector<long long> base_e(32,0), base_n(32,0);
	for(int round = 0; round < 6; round++) {
	std::vector<pid_t> pids(nw, 0); std::vector<double> lastT(nw, now()); std::vector<long long> lastC(nw, -1);
	for(int w = 0; w < nw; w++) { sh[w].done = 0; sh[w].msg[0] = 0; sh[w].nhist = 0; }
	for(int w = 0; w < nw; w++) {
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if(pid == 0) {
			struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
			const char* dbg = getenv("VF_DEBUG"); int dn = open(dbg ? dbg : "/dev/null", O_WRONLY|O_CREAT|O_APPEND, 0600); dup2(dn, 1); dup2(dn, 2);
			g_sh = &sh[w];
			while(true) {
				long long b = __sync_fetch_and_add(disp, 4);
				if(b >= total || now()-t0 > budget) break;
				for(long long g = b; g < b+4 && g < total; g++) {
					const Item& it = plan[g]; sh[w].sub = it.sub; sh[w].cur = g; sh[w].hist[sh[w].nhist%HIST] = g; sh[w].nhist++; __sync_synchronize();
					Src s; s.seed(cseed(it)); Case c(s); c.thorough = thorough;
					const double c0 = cpu(); runOne(subs()[it.sub], s, c); const double c1 = cpu()-c0; if(c1 > sh[w].slow) { sh[w].slow = c1; sh[w].slowsub = it.sub; }
					sh[w].evals[it.sub]++;
					if(c.nontriv) {
						sh[w].nontriv[it.sub]++;
						uint64_t h = s.hash() ^ mix(it.sub); if(!h) h = 1;
						for(size_t p = h % HCAP, k = 0; k < 64; k++, p = (p+1)%HCAP) {
							uint64_t o = __sync_val_compare_and_swap(&ht[p], 0, h);
							if(o == 0 || o == h) { if(o == 0) __sync_fetch_and_add(&disp[1], 1); break; }
						}
					}
				}
			}
			sh[w].done = 1; _exit(0);
		}
		pids[w] = pid;
	}
	int failw = -1; long long failcase = -1; int alive = nw; bool infra = false;
	while(alive > 0 && failw < 0) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if(p > 0) {
			for(int w = 0; w < nw; w++) if(pids[w] == p) {
				pids[w] = 0; alive--;
				if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].done)) {
					if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && lastC[w] != -2) infra = true; // memory ran out or so
					failw = w; failcase = sh[w].cur;
				}
			}
			continue;
		}
		for(int w = 0; w < nw; w++) if(pids[w]) {
			if(sh[w].cur != lastC[w]) { lastC[w] = sh[w].cur; lastT[w] = now(); }
			else if(now()-lastT[w] > 120) { lastC[w] = -2; kill(pids[w], SIGKILL); }
		}
		usleep(5000);
	}
	for(int w = 0; w < nw; w++) if(pids[w]) { if(failw >= 0) kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }

	if(failw < 0) break;
	{
		const Item& it = plan[failcase];
		Outcome o, best; int hits = 0; bool have = false;
		for(int k = 0; k < 12 && hits < (have ? 3 : 1); k++) {
			o = runForked(it.sub, nullptr, cseed(it), thorough, false);
			if(o.failed) { if(!have) best = o; have = true; hits++; }
			if(k >= 4 && have) break;
		}
		if(have) {
			std::string first = best.msg;
			best = shrink(it.sub, best, thorough, 45);
			Outcome fin = runForked(it.sub, &best.choices, 0, thorough, true);
			if(!fin.failed) fin.msg = best.msg;
			std::string rp = opt["--replays"] + "/" + id + "-" + variant + "-" + subs()[it.sub].name + ".replay";
			std::ofstream f(rp);
			f << "property " << id << "\nvariant " << variant << "\nsub " << subs()[it.sub].name << "\nthorough " << thorough << "\nchoices";
			for(auto v : best.choices) f << ' ' << v;
			f << "\nmessage " << fin.msg << "\noriginal-message " << first << "\ncase " << fin.desc << "\n"; f.close();
			printf("failing case in %s: %s\n%s\n", subs()[it.sub].name, fin.msg.c_str(), fin.desc.c_str());
			printf("VIOLATION property=%s replay=%s\n", id.c_str(), rp.c_str());
			rc = 1; violations = 1; break;
		} else {
			// Does it depend on what the same process did before? Then the cases before it belong to the failure
			std::vector<Prior> all; { const long long nh = sh[failw].nhist; for(long long k = std::max(0LL, nh-HIST); k+1 < nh; k++) { const Item& q = plan[sh[failw].hist[k%HIST]]; all.push_back({q.sub, cseed(q)}); } }
			auto again = [&](const std::vector<Prior>& p) { Outcome q; for(int k = 0; k < 2; k++) { q = runForked(it.sub, nullptr, cseed(it), thorough, false, p); if(q.killed || !q.failed) { q.failed = false; break; } } return q; };
			std::vector<Prior> cur; bool dep = false; const double h0 = now();
			if(!infra && !all.empty()) for(size_t k = 2; !dep && now()-h0 < 60; k *= 4) { cur.assign(all.end()-(long)std::min(k, all.size()), all.end()); Outcome q = again(cur); if(q.failed) { dep = true; best = q; } if(k >= all.size()) break; }
			if(dep) {
				for(size_t len = std::max<size_t>(1, cur.size()/2); len >= 1 && now()-h0 < 120; len /= 2)
					for(size_t i = 0; i+len <= cur.size() && now()-h0 < 120;) { std::vector<Prior> q(cur); q.erase(q.begin()+(long)i, q.begin()+(long)(i+len)); Outcome r = again(q); if(r.failed) { cur = q; best = r; } else i += len; }
				std::string rp = opt["--replays"] + "/" + id + "-" + variant + "-" + subs()[it.sub].name + ".replay";
				std::ofstream f(rp); f << "property " << id << "\nvariant " << variant << "\nsub " << subs()[it.sub].name << "\nthorough " << thorough << "\nprior";
				for(auto& q : cur) f << ' ' << subs()[q.sub].name << ' ' << q.seed;
				f << "\nchoices"; for(auto v : best.choices) f << ' ' << v;
				f << "\nmessage " << best.msg << "\n"; f.close();
				printf("failing case in %s, after %zu other cases in the same process: %s\n", subs()[it.sub].name, cur.size(), best.msg.c_str());
				printf("VIOLATION property=%s replay=%s\n", id.c_str(), rp.c_str());
				rc = 1; violations = 1; break;
			}
			flaky++; printf("note: case %lld of %s failed once (%s) and passed 12 times when repeated; not reported%s\n", failcase, subs()[it.sub].name, sh[failw].msg, infra ? " (killed)" : ""); }
	}
	}
	// Evidence fragment
	std::string out = opt["--out"];
	if(!out.empty()) {
		std::ofstream f(out); long long ev = 0;
		f << "{\"variant\":\"" << variant << "\",\"violations\":" << violations << ",\"flaky\":" << flaky << ",\"subs\":[";
		bool firstsub = true;
		for(size_t s = 0; s < subs().size(); s++) if(cnt[s]) {
			long long e = 0, n = 0; for(int w = 0; w < nw; w++) { e += sh[w].evals[s]; n += sh[w].nontriv[s]; } ev += e;
			f << (firstsub?"":",") << "{\"name\":\"" << subs()[s].name << "\",\"planned\":" << cnt[s] << ",\"evaluations\":" << e << ",\"nontrivial\":" << n << ",\"rule\":\"" << jesc(subs()[s].rule) << "\",\"samples\":[";
			firstsub = false; int got = 0;
			for(int i = 0; i < std::min<long long>(cnt[s],12) && got < 2 && rc == 0; i++) {
				Outcome o = runForked(s, nullptr, cseed({0.f,(int)s,i}), thorough, true);
				if(!o.failed && o.nontriv) { f << (got?",":"") << "\"" << jesc(std::string(subs()[s].name)+": "+o.desc.substr(0,700)) << "\""; got++; }
			}
			f << "]}";
		}
		f << "],\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << (long long)disp[1] << ",\"wall_s\":" << now()-t0 << "}\n";
		int sl = 0; for(int w = 1; w < nw; w++) if(sh[w].slow > sh[sl].slow) sl = w;
		printf("%s %s: %lld cases, %lld distinct non-trivial, %.1f s (longest case %.2f s in %s)\n", id.c_str(), variant.c_str(), ev, (long long)disp[1], now()-t0, sh[sl].slow, subs()[sh[sl].slowsub].name);
	}
	return rc;
}
