// libs: carl-settings carl-statistics carl carl-logging
// Settings, log filtering and statistics (C32). Files are only written into a scratch directory that the session removes.
#include "vj.h"
#include <boost/any.hpp>
#include <boost/program_options.hpp>
#include <carl-settings/Settings.h>
#include <carl-settings/SettingsParser.h>
#include <carl-settings/settings_utils.h>
#include <carl-logging/logging.h>
#include <carl-logging/Logger.h>
#include <carl-statistics/Statistics.h>
#include <carl-statistics/StatisticsPrinter.h>
#include <algorithm>
#include <filesystem>
#include <set>
#include <unistd.h>

using vj::J;
namespace cs = carl::settings;
namespace po = boost::program_options;
namespace lg = carl::logging;
namespace st = carl::statistics;

struct Scratch {
	std::string base = "/tmp", dir; pid_t owner = 0;
	const std::string& get() {
		if (dir.empty()) { std::string t = base + "/verif_opt_XXXXXX"; if (!mkdtemp(t.data())) throw std::logic_error("driver: mkdtemp"); dir = t; owner = getpid(); }
		return dir;
	}
	~Scratch() { clear(); }
	void clear() {
		if (dir.find("/verif_opt_") != std::string::npos && owner == getpid()) { std::error_code ec; std::filesystem::remove_all(dir, ec); }
		dir.clear();
	}
};
static Scratch scratch;
static std::string text(const J& t) { std::string s; for (const auto& p : t) s += p.s == "mus" ? "µs" : p.s; return s; }
template<typename T> static std::string show(const T& t) { std::stringstream s; s << t; std::string r = s.str(); std::size_t m; while ((m = r.find("µ")) != std::string::npos) r.replace(m, 2, "mu"); return r; }
static std::vector<std::string> words(const std::string& s) { std::stringstream i(s); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
static std::vector<std::string> lines(const std::string& s) { std::stringstream i(s); std::vector<std::string> r; std::string w; while (std::getline(i, w)) r.push_back(w); return r; }
static J jlist(const std::vector<std::string>& l) { J a = J::arr(); for (const auto& s : l) a.push(J(s)); return a; }

// ---- texts with units
template<typename T> static T valid(const std::string& s) { boost::any v; cs::validate(v, std::vector<std::string>{s}, static_cast<T*>(nullptr), 0); return boost::any_cast<T>(v); }
static J quantity(const J& c) {
	std::string t = text(c["t"]);
	J o = J::obj();
	const std::string& ty = c["ty"].s;
	J acc = J::arr();
	auto add = [&](auto x) { acc.push(J(std::to_string(x))); };
	if (ty == "dur") {
		auto d = valid<cs::duration>(t);
		add(d.count());
		add(std::chrono::microseconds(d).count()); add(std::chrono::milliseconds(d).count()); add(std::chrono::seconds(d).count());
		add(std::chrono::minutes(d).count()); add(std::chrono::hours(d).count());
		o.set("str", J(show(d)));
	} else if (ty == "bin") {
		auto q = valid<cs::binary_quantity>(t);
		add(q.n()); add(q.kibi()); add(q.mebi()); add(q.gibi()); add(q.tebi()); add(q.pebi()); add(q.exbi());
		o.set("str", J(show(q)));
		auto p = valid<cs::binary_quantity>(text(c["u"]));
		o.set("eq", J(q == p)); o.set("lt", J(q < p)); o.set("gt", J(p < q));
	} else {
		auto q = valid<cs::metric_quantity>(t);
		add(q.n()); add(q.kilo()); add(q.mega()); add(q.giga()); add(q.tera()); add(q.peta()); add(q.exa());
		o.set("str", J(show(q)));
		auto p = valid<cs::metric_quantity>(text(c["u"]));
		o.set("eq", J(q == p)); o.set("lt", J(q < p)); o.set("gt", J(p < q));
	}
	o.set("acc", acc);
	return o;
}

// ---- parsers
struct Bound { bool flag = false; std::size_t num = 99; std::string str = "none"; cs::duration dur{99}; cs::binary_quantity bin{99}; cs::metric_quantity met{99}; std::string config; };
struct Parser : cs::SettingsParser {
	mutable std::vector<std::string> warned; mutable bool cfgwarned = false;
	void warn_for_unrecognized_option(const std::string& s) const override { warned.push_back(s); }
	void warn_config_file(const std::string&) const override { cfgwarned = true; }
};
static std::size_t number(const std::string& s) { return std::stoull(s); }
template<typename F> static void with_value(const std::string& name, const std::string& t, F&& f) {
	if (name == "flag") f(t == "true"); else if (name == "num") f(number(t)); else if (name == "str") f(t);
	else if (name == "dur") f(valid<cs::duration>(t)); else if (name == "bin") f(valid<cs::binary_quantity>(t)); else f(valid<cs::metric_quantity>(t));
}
template<typename T> static po::typed_value<T>* val(T* t, const J& defs, const char* name) {
	auto* v = po::value<T>(t);
	if (defs.has(name)) with_value(name, text(defs[name]), [&](auto x) { if constexpr (std::is_same_v<decltype(x), T>) v->default_value(x, "default"); });
	return v;
}
static J options(const J& c) {
	Bound b; Parser p; const J& defs = c["defs"];
	p.add("First").add_options()
		("flag", po::bool_switch(&b.flag))
		("num", val(&b.num, defs, "num"))
		("config", po::value<std::string>(&b.config));
	p.add("Second").add_options()
		("str", val(&b.str, defs, "str"))
		("dur", val(&b.dur, defs, "dur"))
		("bin", val(&b.bin, defs, "bin"))
		("met", val(&b.met, defs, "met"));
	std::vector<int> called; int n = 0;
	Bound seen; bool saw = false;
	for (const auto& f : c["fin"]) {
		++n;
		p.add_finalizer([&, n, f](po::variables_map& m) {
			if (!saw) { saw = true; seen = b; }
			called.push_back(n);
			for (const auto& a : f["acts"]) {
				with_value(a[1].s, text(a[2]), [&](auto x) {
					if (a[0] == "default") cs::default_to(m, a[1].s, x); else cs::overwrite_to(m, a[1].s, x);
				});
			}
			return f["ret"].b;
		});
	}
	p.finalize();
	std::vector<std::string> args{"prog"};
	for (const auto& a : c["cli"]) {
		std::string t = text(a[1]);
		if (a[0] == "flag") args.push_back("--flag");
		else if (a[2].b) args.push_back("--" + a[0].s + "=" + t);
		else { args.push_back("--" + a[0].s); args.push_back(t); }
	}
	if (c.has("cfg")) {
		std::string f = scratch.get() + "/opts.cfg";
		std::ofstream o(f);
		for (const auto& a : c["cfg"]) o << a[0].s << " = " << text(a[1]) << "\n";
		args.push_back("--config=" + f);
	} else if (c.has("nocfg")) args.push_back("--config=" + scratch.get() + "/missing.cfg");
	std::vector<char*> av; for (auto& a : args) av.push_back(a.data());
	p.parse_options(int(av.size()), av.data(), c["allow"].b);
	if (!saw) seen = b;
	auto bound = [](const Bound& b) { J o = J::obj(); o.set("flag", J(b.flag ? "true" : "false")); o.set("num", J(std::to_string(b.num))); o.set("str", J(b.str)); o.set("dur", J(show(b.dur))); o.set("bin", J(show(b.bin))); o.set("met", J(show(b.met))); return o; };
	J o = J::obj(), v = J::obj(), cl = J::arr();
	for (const auto& l : lines(show(p.print_options()))) { auto e = l.find(" = "); std::string k = l.substr(0, e); if (k != "config") v.set(k.c_str(), J(l.substr(e + 3))); }
	for (int i : called) cl.push(J(long(i)));
	std::vector<std::string> w;
	for (auto s : p.warned) { if (s.rfind("--", 0) == 0) s = s.substr(2); w.push_back(s.substr(0, s.find('='))); }
	o.set("vals", v); o.set("bound", bound(seen)); o.set("after", bound(b)); o.set("called", cl); o.set("warned", jlist(w)); o.set("cfgwarn", J(p.cfgwarned));
	std::string help = show(p.print_help());
	J hs = J::arr(); for (const char* k : {"flag", "num", "str", "dur", "bin", "met"}) hs.push(J(help.find("--" + std::string(k)) != std::string::npos));
	o.set("help", hs);
	return o;
}

// ---- lazily created settings objects
struct SA { long v = 5; }; struct SB { std::string v = "b"; };
static cs::Settings settings;

// ---- logging
struct SinkInfo { std::shared_ptr<std::ostringstream> os; std::string file; std::size_t read = 0; };
static std::map<std::string, SinkInfo> sinks;
static lg::LogLevel level(long i) { return lg::LogLevel(i); }
static std::string channel(const J& c) { std::string s; bool f = true; for (const auto& p : c) { if (!f) s += "."; f = false; s += p.s; } return s; }
static J news() {
	J a = J::arr();
	for (auto& [id, s] : sinks) {
		std::string all;
		if (s.os) all = s.os->str(); else { std::ifstream i(s.file); std::stringstream b; b << i.rdbuf(); all = b.str(); }
		std::string fresh = all.substr(std::min(all.size(), s.read)); s.read = all.size();
		if (fresh.empty()) continue;
		J e = J::arr(); e.push(J(id)); 
		J l = J::arr(); for (const auto& x : lines(fresh)) l.push(jlist(words(x)));
		e.push(l); a.push(e);
	}
	return a;
}

// ---- statistics
struct Stat : st::Statistics {
	bool on = true; std::vector<std::pair<std::string, std::string>> plan; std::map<std::string, st::timer> timers;
	bool enabled() const override { return on; }
	void collect() override { for (auto& [k, v] : plan) addKeyValuePair(k, v); for (auto& [k, t] : timers) addKeyValuePair(k, t); }
	template<typename T> void rec(const std::string& k, const T& v) { addKeyValuePair(k, v); }
};
static std::vector<Stat*> stats;
static std::map<std::string, std::vector<st::timing::time_point>> starts;

static void begin(const J&) {}
static J cmd(const J& c) {
	const std::string& op = c["op"].s;
	J o = J::obj();
	struct Clean { bool on; ~Clean() { if (on) scratch.clear(); } } clean{op == "opts" || op == "end"};
	if (op == "end") { J r("done"); return r; }
	if (op == "qty") return quantity(c);
	if (op == "opts") return options(c);
	if (op == "get") {
		if (c["ty"] == "a") { auto& s = settings.get<SA>(c["n"].s); o.set("old", J(std::to_string(s.v))); if (c.has("v")) s.v = c["v"].i; }
		else { auto& s = settings.get<SB>(c["n"].s); o.set("old", J(s.v)); if (c.has("v")) s.v = std::to_string(c["v"].i); }
		return o;
	}
	auto& L = lg::logger();
	if (op == "sink") {
		const std::string& id = c["id"].s;
		SinkInfo s;
		if (c["file"].b) { s.file = scratch.get() + "/" + id + ".log"; L.configure(id, s.file); }
		else { s.os = std::make_shared<std::ostringstream>(); L.configure(id, *s.os); }
		static std::vector<SinkInfo> keep; keep.push_back(s);
		sinks[id] = s;
		return news();
	}
	if (op == "filter") { L.filter(c["id"].s)(channel(c["ch"]), level(c["lvl"].i)); return J("done"); }
	if (op == "fmt") { L.formatter(c["id"].s)->printInformation = c["info"].b; return J("done"); }
	if (op == "newfmt") { L.formatter(c["id"].s, std::make_shared<lg::Formatter>()); return J("done"); }
	if (op == "reset") { L.resetFormatter(); return J("done"); }
	if (op == "has") return J(L.has(c["id"].s));
	if (op == "visible") return J(lg::visible(level(c["lvl"].i), channel(c["ch"])));
	if (op == "check") return J(L.filter(c["id"].s).check(channel(c["ch"]), level(c["lvl"].i)));
	if (op == "log") {
		std::stringstream m; m << c["msg"].s;
		lg::RecordInfo info{c["path"].s + c["src"].s, c["func"].s, std::size_t(c["line"].i)};
		lg::log(level(c["lvl"].i), channel(c["ch"]), m, info);
		return news();
	}
	// statistics
	if (op == "snew") { auto& s = st::get<Stat>(text(c["name"])); s.on = c["on"].b; stats.push_back(&s); return J(long(stats.size())); }
	Stat* s = c.has("i") ? stats.at(std::size_t(c["i"].i - 1)) : nullptr;
	if (op == "srec") {
		const std::string& k = c["k"].s;
		if (c["ty"] == "s") s->rec(k, c["v"].s); else if (c["ty"] == "i") s->rec(k, std::stol(c["v"].s)); else if (c["ty"] == "u") s->rec(k, std::size_t(std::stoull(c["v"].s))); else s->rec(k, c["v"].s == "1");
		return J("done");
	}
	if (op == "splan") { s->plan.emplace_back(c["k"].s, c["v"].s); return J("done"); }
	if (op == "stime") { auto t = st::timer::start(); s->timers[c["k"].s].finish(t); o.set("n", J(long(s->timers[c["k"].s].count()))); o.set("ms", J(long(s->timers[c["k"].s].overall_ms()))); return o; }
	if (op == "collect") { st::StatisticsCollector::getInstance().collect(); return J("done"); }
	if (op == "scoll") {
		J kv = J::arr();
		for (const auto& [k, v] : s->collected()) { J e = J::arr(); e.push(J(k)); e.push(J(v)); kv.push(e); }
		o.set("name", J(s->name())); o.set("kv", kv); return o;
	}
	if (op == "smt") { J a = J::arr(); for (const auto& l : lines(show(st::statistics_as_smtlib()))) a.push(jlist(words(l))); return a; }
	if (op == "xml") {
		if (!c["file"].b) return jlist(lines(show(st::statistics_as_xml())));
		std::string f = scratch.get() + "/stat.xml"; st::statistics_to_xml_file(f);
		std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return jlist(lines(b.str()));
	}
	throw std::logic_error("driver: unknown op " + op);
}
int main(int argc, char** argv) {
	if (argc > 2) scratch.base = std::filesystem::absolute(argv[2]).parent_path().string();
	return vj::driver_main(argc, argv, begin, cmd);
}
