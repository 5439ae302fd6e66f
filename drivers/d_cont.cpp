// libs: carl carl-logging
// Utility containers (C25).
#include "vj.h"
#include <iostream>
#include <memory>
#include <sstream>
#include <carl/util/Bitset.h>
#include <carl/util/BitVector.h>
#include <carl/util/IDPool.h>
#include <carl/util/IDGenerator.h>
#include <carl/util/Heap.h>
#include <carl/util/Cache.h>
#include <carl/util/carlTree.h>

static std::string kind;
static constexpr std::size_t LIM = 330;
static std::size_t u(const J& c, const char* k) { return std::size_t(c[k].i); }
static J num(std::size_t n) { return J(long(n)); }
static J pos(std::size_t n) { return n == carl::Bitset::npos ? J(-1L) : J(long(n)); }

// ------------------------------------------------------------------ bit set
static std::vector<carl::Bitset> B;
static J show(const carl::Bitset& b) {
	J l = J::arr(), j = J::obj();
	for (std::size_t n = 0; n <= LIM; ++n) if (b.test(n)) l.push(num(n));
	j.set("l", l); j.set("far", J(b.test(100000))); j.set("sz", num(b.size()));
	return j;
}
static J bits(const J& c) {
	const std::string& op = c["op"].s;
	auto r = [&](const char* k) -> carl::Bitset& { return B.at(u(c, k)); };
	auto put = [&](const carl::Bitset& b) { r("d") = b; return show(r("d")); };
	if (op == "new") return put(carl::Bitset(c["v"].b));
	if (op == "init") {
		std::vector<std::size_t> l; for (const auto& x : c["l"]) l.push_back(std::size_t(x.i));
		if (l.size() == 0) return put(carl::Bitset({}, c["v"].b));
		if (l.size() == 1) return put(carl::Bitset({l[0]}, c["v"].b));
		if (l.size() == 2) return put(carl::Bitset({l[0], l[1]}, c["v"].b));
		return put(carl::Bitset({l[0], l[1], l[2]}, c["v"].b));
	}
	carl::Bitset& a = r("a");
	if (op == "set") { if (c["v"].b) a.set(u(c, "n")); else a.set(u(c, "n"), false); return show(a); }
	if (op == "seti") { a.set_interval(u(c, "n"), u(c, "m"), c["v"].b); return show(a); }
	if (op == "reset") { a.reset(u(c, "n")); return show(a); }
	if (op == "rsz") {
		std::size_t sz = a.size();
		if (c["dv"].b) a.resize(u(c, "n")); else a.resize(u(c, "n"), c["v"].b);
		J j = show(a); j.set("psz", num(sz)); return j;
	}
	if (op == "test") return J(a.test(u(c, "n")));
	if (op == "not") return put(~a);
	if (op == "copy") return put(a);
	if (op == "ord") {
		J m = J::arr();
		for (std::size_t i = 1; i < B.size(); ++i) { J row = J::arr(); for (std::size_t j = 1; j < B.size(); ++j) row.push(J(B[i] < B[j])); m.push(row); }
		return m;
	}
	if (op == "bin" || op == "inp") {
		carl::Bitset& b = r("b"); const std::string& o = c["o"].s;
		if (op == "inp") { if (o == "and") a &= b; else if (o == "or") a |= b; else a -= b; return show(a); }
		if (o == "and") return put(a & b);
		if (o == "or") return put(a | b);
		carl::Bitset x(a); x -= b; return put(x);
	}
	if (op == "cmp") {
		carl::Bitset& b = r("b"); J j = J::obj();
		std::size_t h = std::hash<carl::Bitset>()(a), g = std::hash<carl::Bitset>()(b);
		bool sub = a.is_subset_of(b);
		j.set("eq", J(a == b)); j.set("sub", J(sub)); j.set("hash", J(h == g));
		return j;
	}
	need(!a.test(100000));
	if (op == "count") { J j = J::obj(); j.set("c", num(a.count())); j.set("any", J(a.any())); j.set("none", J(a.none())); return j; }
	if (op == "first") return pos(a.find_first());
	if (op == "next") return pos(a.find_next(u(c, "n")));
	if (op == "list") { J l = J::arr(); for (auto x : a) l.push(num(x)); return l; }
	std::abort();
}

// --------------------------------------------------------------- bit vector
static std::vector<carl::BitVector> W;
static J show(const carl::BitVector& b) {
	J l = J::arr(), it = J::arr(), j = J::obj(); long n = 0;
	for (unsigned k = 0; k <= LIM; ++k) if (b.getBit(k)) l.push(num(k));
	for (auto i = b.begin(); !i.isEnd(); i++) { if (i.get()) it.push(J(n)); ++n; }
	j.set("l", l); j.set("it", it); j.set("sz", num(b.size())); j.set("empty", J(b.empty())); j.set("first", num(b.findFirstSetBit()));
	return j;
}
static J vec(const J& c) {
	const std::string& op = c["op"].s;
	auto r = [&](const char* k) -> carl::BitVector& { return W.at(u(c, k)); };
	auto put = [&](const carl::BitVector& b) { r("d") = b; return show(r("d")); };
	if (op == "new") return put(carl::BitVector(unsigned(u(c, "n"))));
	carl::BitVector& a = r("a");
	if (op == "set") { if (c["v"].b) a.setBit(unsigned(u(c, "n"))); else a.setBit(unsigned(u(c, "n")), false); return show(a); }
	if (op == "clear") { a.clear(); return show(a); }
	if (op == "grow") { a.reserve(u(c, "n")); return show(a); }
	if (op == "copy") return put(a);
	carl::BitVector& b = r("b");
	if (op == "bin") return put(a | b);
	if (op == "inp") { if (c["o"] == "or") a |= b; else a.calculateUnion(b); return show(a); }
	J j = J::obj(); j.set("eq", J(a == b)); j.set("sub", J(a.subsetOf(b))); return j;
}

// ---------------------------------------------------------------------- ids
static std::unique_ptr<carl::IDPool> P;
static std::unique_ptr<carl::IDGenerator> G;
static std::vector<long> hs;
static J ids(const J& c) {
	const std::string& op = c["op"].s;
	J j = J::obj();
	if (op == "get") { hs.push_back(long(P ? P->get() : G->get())); j.set("id", J(hs.back())); }
	else if (op == "free") {
		std::size_t h = u(c, "h"); need(h <= hs.size() && hs[h - 1] != -1);
		if (P) P->free(std::size_t(hs[h - 1])); else G->free(std::size_t(hs[h - 1]));
		hs[h - 1] = -1;
	} else if (op == "clear") { if (P) P->clear(); else G->clear(); for (auto& x : hs) x = -1; }
	// no identifier in use is larger
	j.set("bound", J(P ? long(P->largestID()) : long(G->nextID()) - 1));
	return j;
}

// --------------------------------------------------------------------- heap
struct Ent { int p; int t; };
template<bool FI> struct Conf {
	using Entry = Ent; using CompareResult = int;
	static const bool fastIndex = FI; static const bool supportDeduplicationWhileOrdering = false;
	int compare(const Ent& a, const Ent& b) const { return a.p < b.p ? -1 : a.p > b.p ? 1 : 0; }
	bool cmpLessThan(int r) const { return r < 0; }
	bool cmpEqual(int r) const { return r == 0; }
};
static std::unique_ptr<carl::Heap<Conf<true>>> HF;
static std::unique_ptr<carl::Heap<Conf<false>>> HS;
static int tag;
static J ent(const Ent& e) { J j = J::arr(); j.push(J(long(e.p))); j.push(J(long(e.t))); return j; }
template<typename H> J heap(std::unique_ptr<H>& hp, const J& c) {
	H& h = *hp;
	const std::string& op = c["op"].s;
	J j = J::obj();
	if (op == "push") h.push(Ent{int(c["p"].i), ++tag});
	else if (op == "pushes") { std::vector<Ent> v; for (const auto& x : c["l"]) v.push_back(Ent{int(x.i), ++tag}); h.push(v.data(), v.data() + v.size()); }
	else if (op == "copy") { auto n = std::make_unique<H>(h); while (!h.empty()) h.pop(); hp = std::move(n); }
	else if (op != "look") {
		need(!h.empty());
		if (op == "pop") { Ent x = h.pop(); j.set("x", ent(x)); }
		else if (op == "poppos") {
			std::size_t k = u(c, "i") % h.size(); auto it = h.begin(); for (; k > 0; --k) it.next();
			Ent x = it.get(); h.popPosition(it); j.set("x", ent(x));
		} else if (op == "dectop") { Ent x = h.top(); h.decreaseTop(Ent{int(c["p"].i), ++tag}); j.set("x", ent(x)); }
	}
	H& k = *hp;
	J l = J::arr(), cp = J::arr();
	std::size_t n = 0;
	if (!k.empty()) for (auto it = k.begin(); it != k.end() && n < 1000; it.next(), ++n) l.push(ent(it.get()));
	for (const Ent& e : k.getCopy()) cp.push(ent(e));
	j.set("l", l); j.set("copy", cp); j.set("n", num(k.size())); j.set("empty", J(k.empty()));
	if (!k.empty()) j.set("top", ent(k.top()));
	return j;
}

// -------------------------------------------------------------------- cache
struct Val {
	mutable int v; mutable int aux; mutable std::size_t h;
	Val(int v, int a) : v(v), aux(a), h(std::size_t(v) * 7 + 3) {}
	std::size_t getHash() const { return h; }
	void rehash() const { h = std::size_t(v) * 7 + 3; }
	bool operator==(const Val& o) const { return v == o.v; }
};
static std::ostream& operator<<(std::ostream& o, const Val& v) { return o << v.v; }
using VC = carl::Cache<Val>;
static std::unique_ptr<VC> C;
static std::vector<VC::Ref> refs;
static std::map<VC::Ref, long> cnt;
static VC::Ref last;
static bool yes(const Val&, const Val&) { return true; }
static void take(const Val& a, const Val& b) { a.aux = b.aux; }
static J cache(const J& c) {
	const std::string& op = c["op"].s;
	J j = J::obj();
	if (op == "cache") {
		Val* v = new Val(int(c["v"].i), int(c["aux"].i));
		auto r = c["upd"].b ? C->cache(v, &yes, &take) : C->cache(v);
		if (!r.second) delete v;
		refs.push_back(r.first); last = r.first;
		j.set("ref", num(r.first)); j.set("new", J(r.second));
		return j;
	}
	if (op == "decay") { C->decayActivity(); return j; }
	std::size_t h = u(c, "h"); need(h <= refs.size());
	VC::Ref r = refs[h - 1];
	need(cnt[r] > 0 || (op == "reg" && r == last));
	if (op == "reg") { C->reg(r); ++cnt[r]; }
	else if (op == "dereg") { C->dereg(r); --cnt[r]; last = 0; }
	else if (op == "get") { const Val& v = C->get(r); j.set("v", J(long(v.v))); j.set("aux", J(long(v.aux))); }
	else if (op == "str") C->strengthenActivity(r);
	else if (op == "rehash") { C->get(r).v = int(c["v"].i); C->rehash(r); }
	return j;
}

// --------------------------------------------------------------------- tree
using Tr = carl::tree<int>;
static Tr T;
static std::vector<std::size_t> nodeOf;            // handle -> node
static std::map<std::size_t, long> handleOf;       // node -> latest handle
static J H(std::size_t id) { auto it = handleOf.find(id); return J(it == handleOf.end() ? -7L : it->second); }
static long made(std::size_t id) { nodeOf.push_back(id); handleOf[id] = long(nodeOf.size()); return long(nodeOf.size()); }
static constexpr std::size_t NONE = carl::tree_detail::MAXINT;
template<typename It> J pos(const It& i) { return i.current == NONE ? J(0L) : H(i.current); }
template<typename It> J walk(It b, const It& e) { J l = J::arr(); int n = 0; for (; b != e && n < 400; ++b, ++n) l.push(H(b.current)); return l; }
template<typename It> J back(It e) { J l = J::arr(); int n = 0; for (--e; e.current != NONE && n < 400; --e, ++n) l.push(H(e.current)); return l; }
template<typename It> J from(It e) { J l = J::arr(); int n = 0; for (; e.current != NONE && n < 400; --e, ++n) l.push(H(e.current)); return l; }
static J look(J j) {
	j.set("pre", walk(T.begin(), T.end())); j.set("post", walk(T.begin_postorder(), T.end_postorder()));
	j.set("rpre", walk(T.rbegin(), T.rend())); j.set("rpost", walk(T.rbegin_postorder(), T.rend_postorder()));
	J v = J::arr(); for (auto it = T.begin_preorder(); it != T.end_preorder(); ++it) v.push(J(long(*it))); j.set("vals", v);
	return j;
}
template<typename It> J erased(It it) { J j = J::obj(); auto n = T.erase(it); j.set("next", pos(n)); return look(j); }
static J tree(const J& c) {
	const std::string& op = c["op"].s;
	using It = Tr::iterator;
	J j = J::obj();
	int v = c.has("v") ? int(c["v"].i) : 0;
	auto at = [&](It i) { j.set("at", pos(i)); return look(j); };
	if (op == "root") { bool was = T.begin() != T.end(); auto i = T.setRoot(v); if (!was) made(i.current); return at(i); }
	if (op == "app0") { bool was = T.begin() != T.end(); auto i = T.append(v); if (!was) made(T.get_parent(i).current); made(i.current); return at(i); }
	if (op == "clear") { T.clear(); return look(j); }
	if (op == "copy") { Tr t(T); T.clear(); T = t; if (c["x"].b) { t.clear(); t.setRoot(99); t.append(98); } return look(j); }
	if (op == "walk") {
		std::size_t d = u(c, "d");
		j.set("leaf", walk(T.begin_leaf(), T.end_leaf())); j.set("rleaf", walk(T.rbegin_leaf(), T.rend_leaf())); j.set("height", num(T.max_depth()));
		bool any = T.begin() != T.end();
		j.set("level", any ? walk(T.begin_depth(d), T.end_depth()) : J::arr()); j.set("rlevel", any ? walk(T.rbegin_depth(d), T.rend_depth()) : J::arr());
		j.set("bpre", any ? back(T.end()) : J::arr()); j.set("bpost", any ? back(T.end_postorder()) : J::arr()); j.set("bleaf", any ? back(T.end_leaf()) : J::arr());
		j.set("frpre", any ? back(T.rend_preorder()) : J::arr());
		// the last and the first of a level, by walking; then back from there
		J bl = J::arr(), fl = J::arr();
		if (any) {
			auto i = T.begin_depth(d), k = i; for (; i != T.end_depth(); ++i) k = i;
			if (k != T.end_depth()) bl = from(k);
			auto ri = T.rbegin_depth(d), rk = ri; for (; ri != T.rend_depth(); ++ri) rk = ri;
			if (rk != T.rend_depth()) fl = from(rk);
		}
		j.set("blevel", bl); j.set("frlevel", fl);
		std::stringstream ss; ss << T; J txt = J::arr(); std::string line;
		while (std::getline(ss, line)) { std::size_t k = line.find_first_not_of('\t'); J p = J::arr(); p.push(num(k)); p.push(J(std::atol(line.c_str() + k))); txt.push(p); }
		j.set("txt", txt);
		return j;
	}
	std::size_t h = u(c, "h"); need(h <= nodeOf.size());
	std::size_t id = nodeOf[h - 1]; It it(&T, id);
	need(handleOf[id] == long(h) && T.is_valid(it));
	if (op == "app") { auto i = T.append(it, v); made(i.current); return at(i); }
	if (op == "ins") { need(!it.isRoot()); auto i = T.insert(it, v); made(i.current); return at(i); }
	if (op == "repl") { T.replace(it, v); return look(j); }
	if (op == "erch") { T.eraseChildren(it); return look(j); }
	if (op == "erase") {
		const std::string& w = c["it"].s;
		if (w == "post") return erased(Tr::PostorderIterator<false>(&T, id));
		if (w == "leaf") { need(T.is_leaf(it)); return erased(Tr::LeafIterator<false>(&T, id)); }
		if (w == "kids") return erased(Tr::ChildrenIterator<false>(static_cast<const carl::tree_detail::BaseIterator<int, It, false>&>(it)));
		if (w == "depth") return erased(Tr::DepthIterator<false>(static_cast<const carl::tree_detail::BaseIterator<int, It, false>&>(it)));
		return erased(it);
	}
	if (op == "node") {
		j.set("kids", walk(T.begin_children(it), T.end_children(it))); j.set("rkids", walk(T.rbegin_children(it), T.rend_children(it)));
		j.set("bkids", T.is_leaf(it) ? J::arr() : back(T.end_children(it)));
		j.set("path", walk(T.begin_path(it), T.end_path())); j.set("depth", num(it.depth())); j.set("below", num(T.max_depth(it))); j.set("v", J(long(*it)));
		j.set("isleaf", J(T.is_leaf(it))); j.set("isleft", J(T.is_leftmost(it))); j.set("isright", J(T.is_rightmost(it))); j.set("isroot", J(it.isRoot())); j.set("valid", J(it.isValid()));
		j.set("par", pos(T.get_parent(it))); j.set("left", T.is_leftmost(it) ? J(0L) : pos(T.left_sibling(it)));
		It n(it); auto old = n++; j.set("post", pos(old)); j.set("nxt", pos(n));
		It s(it); s.skipChildren(); j.set("skip", pos(s));
		return j;
	}
	std::abort();
}

static void begin(const J& h) {
	kind = h["kind"].s;
	if (kind == "bits") B.assign(u(h, "k") + 1, carl::Bitset());
	if (kind == "vec") W.assign(u(h, "k") + 1, carl::BitVector());
	if (kind == "pool") { P = std::make_unique<carl::IDPool>(); G.reset(); hs.clear(); }
	if (kind == "gen") { G = std::make_unique<carl::IDGenerator>(); P.reset(); hs.clear(); }
	if (kind == "heap") {
		tag = 0; HF.reset(); HS.reset();
		if (h["fast"].b) HF = std::make_unique<carl::Heap<Conf<true>>>(Conf<true>()); else HS = std::make_unique<carl::Heap<Conf<false>>>(Conf<false>());
	}
	if (kind == "cache") { C = std::make_unique<VC>(u(h, "max"), h["red"] == "half" ? 0.5 : 0.2); refs.clear(); cnt.clear(); last = 0; }
	if (kind == "tree") { T.clear(); nodeOf.clear(); handleOf.clear(); }
}
static J cmd(const J& c) {
	if (kind == "bits") return bits(c);
	if (kind == "vec") return vec(c);
	if (kind == "pool" || kind == "gen") return ids(c);
	if (kind == "heap") return HF ? heap(HF, c) : heap(HS, c);
	if (kind == "cache") return cache(c);
	return tree(c);
}
int main(int argc, char** argv) { return vj::driver_main(argc, argv, begin, cmd); }
