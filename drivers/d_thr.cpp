// libs: carl carl-logging
// flags: -DTHREAD_SAFE -fsanitize=thread
// Concurrent use of the pools under a given schedule (C27).  Only one thread runs at a time; it can be
// preempted at every lock acquisition, allocation and deallocation (coarse), or at every lock acquisition
// and every access to memory that another thread has accessed (fine).  The compiler's instrumentation of
// memory accesses is used for the latter, with the functions below in place of its run-time library.
// Freed memory is overwritten and kept.
#include "polyio.h"
#include <carl/core/MonomialPool.h>
#include <carl/core/VariablePool.h>
#include <carl/numbers/PrimeFactory.h>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <thread>

using namespace pio;
using C = mpq_class;
using P = carl::MultivariatePolynomial<C>;

// ---- scheduler --------------------------------------------------------------
#define RAW __attribute__((no_sanitize("thread")))
static const int MAXT = 4;
static bool fine = false;
static int nthreads = 0, current = 0;
static bool active = false, done[MAXT], blocked[MAXT];
static sem_t baton[MAXT];
static long point = 0;
struct Switch { long at; int to; };
static Switch preempt[1000];
static std::size_t npreempt = 0, nextPreempt = 0;
static std::size_t rate = 0, seed = 0; // or: preemption at one in so many points
static thread_local int self = -1;
static thread_local int quiet = 0;
struct Quiet { RAW Quiet() { ++quiet; } RAW ~Quiet() { --quiet; } };
RAW static void give(int t) {
	current = t;
	int me = self;
	sem_post(&baton[t]);
	while (sem_wait(&baton[me]) != 0) {}
}
RAW static int other(bool evenBlocked) {
	for (int i = 1; i <= nthreads; ++i) {
		int t = (self + i) % nthreads;
		if (t != self && !done[t] && (evenBlocked || !blocked[t])) return t;
	}
	return -1;
}
RAW static void yield() {
	if (!active || self < 0 || quiet > 0) return;
	Quiet q;
	long k = point++;
	if (rate > 0) {
		seed = seed * 6364136223846793005ull + 1442695040888963407ull;
		if ((seed >> 33) % rate == 0) {
			int t = int((seed >> 45) % std::size_t(nthreads));
			if (t != self && !done[t]) give(t);
		}
		return;
	}
	while (nextPreempt < npreempt && preempt[nextPreempt].at < k) ++nextPreempt;
	if (nextPreempt < npreempt && preempt[nextPreempt].at == k) {
		int t = preempt[nextPreempt++].to % nthreads;
		if (t != self && !done[t]) give(t);
	}
}
using LockFn = int (*)(pthread_mutex_t*);
static LockFn realLock() { static LockFn f = (LockFn)dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f; }
extern "C" RAW int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!active || self < 0 || quiet > 0) return realLock()(m);
	yield();
	for (int tries = 0;; ++tries) {
		int r = pthread_mutex_trylock(m);
		if (r == 0) { blocked[self] = false; return 0; }
		blocked[self] = true;
		Quiet q;
		int t = other(false);
		if (t < 0 || tries > 2) t = other(true); // the lock it waited for may be free by now
		if (t < 0 || tries > 10000) { static const char msg[] = "deadlock\n"; (void)!write(2, msg, sizeof(msg)); abort(); }
		give(t);
	}
}
static const unsigned char POISON = 0xDD;
RAW void* operator new(std::size_t n) { if (!fine) yield(); void* p = std::malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
RAW static void release(void* p) {
	if (!p) return;
	if (self < 0 && !active) { std::free(p); return; }
	if (!fine) yield();
	std::size_t n = malloc_usable_size(p);
	bool again = n >= 16;
	for (std::size_t i = 0; again && i < n; ++i) again = ((unsigned char*)p)[i] == POISON;
	if (again) { static const char msg[] = "freed twice\n"; (void)!write(2, msg, sizeof(msg)); abort(); }
	std::memset(p, POISON, n);
}
void operator delete(void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }

// ---- instrumented accesses ----------------------------------------------------
// Which threads have accessed a word (by hash; collisions only add preemption points).
static const std::size_t WORDS = 1 << 20;
static unsigned char touched[WORDS];
RAW static void access(const void* p) {
	if (quiet > 0) return;
	char here;
	std::size_t a = (std::size_t)p, sp = (std::size_t)&here;
	if (a > sp && a - sp < (1u << 20)) return; // own stack
	unsigned char& w = touched[(a >> 3) * 0x9E3779B97F4A7C15ull >> 44];
	w |= (unsigned char)(self < 0 ? 128 : 1 << self);
	if (fine && (w & (w - 1))) yield();
}
extern "C" {
RAW void __tsan_init() {}
RAW void __tsan_func_entry(void*) {}
RAW void __tsan_func_exit() {}
#define ACC(n) RAW void __tsan_##n(void* p) { access(p); }
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16) ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16) ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
ACC(vptr_read)
RAW void __tsan_vptr_update(void** p, void*) { access(p); }
RAW void __tsan_read_range(void* p, unsigned long) { access(p); }
RAW void __tsan_write_range(void* p, unsigned long) { access(p); }
#define ATO(n, T) \
	RAW T __tsan_atomic##n##_load(const volatile T* p, int) { access((void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	RAW void __tsan_atomic##n##_store(volatile T* p, T v, int) { access((void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	RAW T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { access((void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	RAW T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	RAW T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	RAW T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	RAW T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	RAW int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	RAW int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATO(8, unsigned char) ATO(16, unsigned short) ATO(32, unsigned) ATO(64, unsigned long)
RAW void __tsan_atomic_thread_fence(int) {}
RAW void __tsan_atomic_signal_fence(int) {}
}

// ---- programs ---------------------------------------------------------------
// Operations on the slots of a thread: monomials m, polynomials p, variables.
struct Op { std::string o; long a = 0, b = 0, c = 0; std::vector<long> e; P p; std::string name; };
struct Ev { int t; int i; bool call; std::vector<long> e; const void* obj; std::size_t id; long n; std::vector<std::pair<std::vector<long>, std::string>> p; std::string s; };
static std::vector<Ev> hist;
static std::vector<carl::Monomial::Arg> slots[MAXT];
static std::vector<P> polys[MAXT];
static carl::PrimeFactory<mpz_class> primes[MAXT];
static void show(Ev& ev, const carl::Monomial::Arg& m) {
	ev.obj = m.get(); ev.id = m ? m->id() : 0;
	ev.e.assign(vars().size(), 0);
	if (m) for (std::size_t i = 0; i < vars().size(); ++i) ev.e[i] = long(m->exponentOfVariable(vars()[i]));
	if (m && m->tdeg() != std::accumulate(ev.e.begin(), ev.e.end(), 0ul)) ev.e[0] = -1;
}
static void note(int t, int i, bool call) { hist.push_back(Ev{t, i, call, {}, nullptr, 0, 0, {}, {}}); }
static carl::Monomial::Arg build(const std::vector<long>& e) {
	carl::Monomial::Content c; std::size_t d = 0;
	for (std::size_t i = 0; i < e.size(); ++i) if (e[i] > 0) { c.emplace_back(vars()[i], std::size_t(e[i])); d += std::size_t(e[i]); }
	if (c.empty()) return nullptr;
	return carl::createMonomial(std::move(c), d);
}
static void worker(int t, const std::vector<Op>* prog) {
	self = t;
	{ Quiet q; while (sem_wait(&baton[t]) != 0) {} }
	for (std::size_t i = 0; i < prog->size(); ++i) {
		const Op& o = (*prog)[i];
		{ Quiet q; note(t, int(i), true); }
		yield();
		auto& s = slots[t];
		carl::Monomial::Arg m; P r; long n = 0; std::string str;
		if (o.o == "mk") m = build(o.e);
		else if (o.o == "mul") m = s[o.a] * s[o.b];
		else if (o.o == "div") { if (s[o.a]) s[o.a]->divide(s[o.b], m); }
		else if (o.o == "lcm") m = carl::Monomial::lcm(s[o.a], s[o.b]);
		else if (o.o == "drop") s[o.c].reset();
		else if (o.o == "cmp") n = s[o.a] == s[o.b] ? 1 : 0;
		else if (o.o == "padd") r = polys[t][o.a] + polys[t][o.b];
		else if (o.o == "psub") r = polys[t][o.a] - polys[t][o.b];
		else if (o.o == "pmul") r = polys[t][o.a] * polys[t][o.b];
		else if (o.o == "peq") n = polys[t][o.a] == polys[t][o.b] ? 1 : 0;
		else if (o.o == "prime") { const mpz_class& x = primes[t].nextPrime(); yield(); n = x.get_si(); }
		else if (o.o == "fresh") n = long(carl::freshRealVariable().id());
		else if (o.o == "named") { carl::Variable v = carl::freshRealVariable(o.name); n = long(v.id()); str = carl::VariablePool::getInstance().getName(v); }
		else abort();
		if (o.o == "mk" || o.o == "mul" || o.o == "div" || o.o == "lcm") s[o.c] = m;
		if (o.o == "padd" || o.o == "psub" || o.o == "pmul") polys[t][o.c] = r;
		Quiet q;
		note(t, int(i), false);
		Ev& ev = hist.back();
		ev.n = n; ev.s = str;
		if (o.o == "mk" || o.o == "mul" || o.o == "div" || o.o == "lcm") show(ev, m);
		if (o.o == "padd" || o.o == "psub" || o.o == "pmul") {
			r.makeOrdered();
			for (const auto& x : r) { Ev tmp{}; show(tmp, x.monomial()); ev.p.emplace_back(tmp.e, x.coeff().get_str()); }
		}
	}
	Quiet q;
	done[t] = true;
	int nx = other(true);
	// What the exiting thread still does is not scheduled.
	self = -1;
	if (nx >= 0) { current = nx; sem_post(&baton[nx]); } else active = false;
}
static void begin(const J& h) { vars().clear(); make_vars(h); }
static J cmd(const J& c) {
	if (!(c["op"] == "run")) throw std::logic_error("driver: op");
	carl::MonomialPool& pool = carl::MonomialPool::getInstance();
	{ P a(vars()[0]), b(vars()[1]); P x = a * b + a; if (x == a) abort(); x -= x; (void)carl::VariablePool::getInstance().getName(vars()[0]); }
	realLock();
	std::size_t base = pool.size();
	std::vector<std::vector<Op>> progs;
	nthreads = int(c["progs"].size());
	for (int t = 0; t < nthreads; ++t) {
		slots[t].assign(4, nullptr); polys[t].assign(4, P());
		progs.emplace_back();
		for (const auto& j : c["progs"][t]) {
			Op o; o.o = j["o"].s;
			if (j.has("a")) o.a = j["a"].i;
			if (j.has("b")) o.b = j["b"].i;
			if (j.has("c")) o.c = j["c"].i;
			if (j.has("e")) for (const auto& x : j["e"]) o.e.push_back(x.i);
			if (j.has("name")) o.name = j["name"].s;
			progs.back().push_back(o);
		}
		for (int k = 0; k < 24; ++k) primes[t].nextPrime();
		std::size_t i = 0;
		for (const auto& j : c["polys"][t]) polys[t][i++] = poly<P>(j);
	}
	for (const auto& j : c["sched"]) if (npreempt < 1000) preempt[npreempt++] = {j[0].i, int(j[1].i)};
	fine = c["fine"].b;
	if (c.has("rand")) { seed = std::size_t(c["rand"][0].i); rate = std::size_t(c["rand"][1].i); }
	hist.reserve(1000);
	std::vector<std::thread> ts;
	for (int t = 0; t < nthreads; ++t) { sem_init(&baton[t], 0, 0); done[t] = blocked[t] = false; }
	point = 0; nextPreempt = 0;
	for (int t = 0; t < nthreads; ++t) ts.emplace_back(worker, t, &progs[t]);
	active = true;
	sem_post(&baton[0]);
	for (auto& t : ts) t.join();
	active = false;
	// Monomials still in use: those in slots and polynomials.
	std::map<const void*, std::size_t> objs;
	J h = J::arr();
	for (const auto& e : hist) {
		J ex = J::arr(), p = J::arr();
		for (long k : e.e) ex.push(J(k));
		for (const auto& x : e.p) { J y = J::arr(); for (long k : x.first) y.push(J(k)); p.push(J::arr({y, J(x.second)})); }
		if (e.obj) objs.emplace(e.obj, objs.size() + 1);
		h.push(J::obj().set("t", J(long(e.t + 1))).set("i", J(long(e.i + 1))).set("call", J(e.call)).set("e", ex)
			.set("obj", J(e.obj ? long(objs[e.obj]) : 0L)).set("id", J(long(e.id))).set("n", J(e.n)).set("p", p).set("s", J(e.s)));
	}
	for (int t = 0; t < nthreads; ++t) polys[t].clear();
	J live = J(long(pool.size()));
	for (int t = 0; t < nthreads; ++t) slots[t].clear();
	return J::obj().set("h", h).set("base", J(long(base))).set("live", live).set("end", J(long(pool.size()))).set("points", J(point));
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
