// Mini JSON, and the session runner shared by all drivers.
//
// Input: ndjson; a line with "op":"begin" starts a session. Every session runs in a
// forked child, so that pools and other singletons start fresh and a crash of the
// library is confined to (and recorded for) the command that caused it.
// Output: the same lines with the observed result added as field "r"; a command that
// threw an exception has a field "throw" instead, and a command that killed the child has a field "crash" and ends its session.
#pragma once
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <typeinfo>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vj {

struct J {
	enum T { NUL, BOOL, INT, STR, ARR, OBJ } t = NUL;
	bool b = false;
	long i = 0;
	std::string s;
	std::vector<J> a;
	std::vector<std::pair<std::string, J>> o;

	J() {}
	J(bool v) : t(BOOL), b(v) {}
	J(int v) : t(INT), i(v) {}
	J(unsigned v) : t(INT), i(v) {}
	J(long v) : t(INT), i(v) {}
	J(unsigned long v) : t(INT), i(long(v)) {}
	J(const char* v) : t(STR), s(v) {}
	J(const std::string& v) : t(STR), s(v) {}
	static J arr() { J j; j.t = ARR; return j; }
	static J arr(std::vector<J> v) { J j; j.t = ARR; j.a = std::move(v); return j; }
	static J obj() { J j; j.t = OBJ; return j; }

	bool has(const std::string& k) const {
		for (auto& p : o) if (p.first == k) return true;
		return false;
	}
	const J& operator[](const std::string& k) const {
		for (auto& p : o) if (p.first == k) return p.second;
		throw std::logic_error("driver: missing field " + k);
	}
	const J& operator[](const char* k) const { return (*this)[std::string(k)]; }
	const J& operator[](std::size_t n) const { return a.at(n); }
	const J& operator[](int n) const { return a.at(std::size_t(n)); }
	std::size_t size() const { return a.size(); }
	J& set(const std::string& k, J v) { o.emplace_back(k, std::move(v)); return *this; }
	J& push(J v) { t = ARR; a.push_back(std::move(v)); return *this; }
	std::vector<J>::const_iterator begin() const { return a.begin(); }
	std::vector<J>::const_iterator end() const { return a.end(); }
	bool operator==(const char* c) const { return t == STR && s == c; }

	void write(std::string& r) const {
		switch (t) {
		case NUL: r += "\"null\""; break;
		case BOOL: r += b ? "true" : "false"; break;
		case INT: r += std::to_string(i); break;
		case STR:
			r += '"';
			for (char c : s) {
				if (c == '"' || c == '\\') { r += '\\'; r += c; }
				else if (c == '\n') r += "\\n";
				else if (c == '\t') r += "\\t";
				else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) { char u[8]; std::snprintf(u, 8, "\\u%04x", static_cast<unsigned char>(c)); r += u; }
				else r += c;
			}
			r += '"';
			break;
		case ARR: {
			r += '[';
			bool f = true;
			for (auto& x : a) { if (!f) r += ','; f = false; x.write(r); }
			r += ']';
			break;
		}
		case OBJ: {
			r += '{';
			bool f = true;
			for (auto& x : o) { if (!f) r += ','; f = false; r += '"' + x.first + "\":"; x.second.write(r); }
			r += '}';
			break;
		}
		}
	}
	std::string str() const { std::string r; write(r); return r; }
};

struct Parser {
	const char* p;
	explicit Parser(const std::string& s) : p(s.c_str()) {}
	void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
	[[noreturn]] void bad() { throw std::logic_error(std::string("driver: bad json at ") + std::string(p).substr(0, 40)); }
	J val() {
		ws();
		J r;
		if (*p == '{') {
			++p; r.t = J::OBJ; ws();
			if (*p == '}') { ++p; return r; }
			while (true) {
				J k = val(); ws();
				if (*p != ':') bad();
				++p;
				r.o.emplace_back(k.s, val()); ws();
				if (*p == ',') { ++p; ws(); continue; }
				if (*p == '}') { ++p; return r; }
				bad();
			}
		}
		if (*p == '[') {
			++p; r.t = J::ARR; ws();
			if (*p == ']') { ++p; return r; }
			while (true) {
				r.a.push_back(val()); ws();
				if (*p == ',') { ++p; continue; }
				if (*p == ']') { ++p; return r; }
				bad();
			}
		}
		if (*p == '"') {
			++p; r.t = J::STR;
			while (*p && *p != '"') {
				if (*p == '\\') {
					++p;
					if (*p == 'n') r.s += '\n';
					else if (*p == 't') r.s += '\t';
					else if (*p == 'r') r.s += '\r';
					else if (*p == 'u') { r.s += static_cast<char>(std::strtol(std::string(p + 1, 4).c_str(), nullptr, 16)); p += 4; }
					else r.s += *p;
					++p;
				} else r.s += *p++;
			}
			if (*p != '"') bad();
			++p;
			return r;
		}
		if (!std::strncmp(p, "true", 4)) { p += 4; return J(true); }
		if (!std::strncmp(p, "false", 5)) { p += 5; return J(false); }
		if (!std::strncmp(p, "null", 4)) { p += 4; return J(); }
		if (*p == '-' || std::isdigit(static_cast<unsigned char>(*p))) {
			char* e;
			r.t = J::INT; r.i = std::strtol(p, &e, 10); p = e;
			return r;
		}
		bad();
	}
};

inline J parse(const std::string& s) { return Parser(s).val(); }

// Thrown by a driver for a command whose precondition the current objects do not satisfy;
// the specification checks that this is so.
struct Skip {};
inline void need(bool b) { if (!b) throw Skip(); }

using BeginFn = void (*)(const J&);
using CmdFn = J (*)(const J&);

inline void limits(long cpu, long wall) {
	struct itimerval v {};
	v.it_value.tv_sec = cpu;
	setitimer(ITIMER_PROF, &v, nullptr);
	v.it_value.tv_sec = wall;
	setitimer(ITIMER_REAL, &v, nullptr);
}

inline void put(int fd, const std::string& s) {
	std::size_t n = 0;
	while (n < s.size()) {
		ssize_t k = ::write(fd, s.data() + n, s.size() - n);
		if (k <= 0) _exit(97);
		n += std::size_t(k);
	}
}

inline std::string describe(int status) {
	if (WIFSIGNALED(status)) {
		int s = WTERMSIG(status);
		if (s == SIGPROF || s == SIGALRM) return "timeout";
		if (s == SIGABRT) return "abort";
		return "signal " + std::to_string(s);
	}
	return "exit " + std::to_string(WEXITSTATUS(status));
}

inline int driver_main(int argc, char** argv, BeginFn begin, CmdFn cmd, long cpu = 15, long wall = 180) {
	if (argc < 3) { std::fprintf(stderr, "usage: driver IN OUT\n"); return 2; }
	std::ifstream in(argv[1]);
	FILE* out = std::fopen(argv[2], "w");
	if (!in || !out) return 2;
	std::vector<std::vector<std::string>> sessions;
	std::string line;
	while (std::getline(in, line)) {
		if (line.empty()) continue;
		if (line.find("\"op\":\"begin\"") != std::string::npos) sessions.emplace_back();
		if (sessions.empty()) return 2;
		sessions.back().push_back(line);
	}
	int timeouts = 0;
	for (auto& s : sessions) {
		if (timeouts >= 2) {
			// Enough evidence; do not spend the whole time budget on a hanging library.
			std::fprintf(out, "%s,\"abandoned\":true}\n", s[0].substr(0, s[0].rfind('}')).c_str());
			continue;
		}
		int fd[2];
		if (pipe(fd)) return 2;
		std::fflush(out);
		pid_t pid = fork();
		if (pid < 0) return 2;
		if (pid == 0) {
			close(fd[0]);
			// Anything the library prints is not part of the result.
			int nul = ::open("/dev/null", O_WRONLY);
			dup2(nul, 1);
			if (!std::getenv("VERIF_STDERR")) dup2(nul, 2);
			struct rlimit rl { 6UL << 30, 6UL << 30 };
			setrlimit(RLIMIT_AS, &rl);
			struct rlimit rc { 0, 0 };
			setrlimit(RLIMIT_CORE, &rc);
			bool first = true;
			for (auto& l : s) {
				limits(cpu, wall);
				J r;
				std::string thrown;
				bool skipped = false;
				try {
					J c = parse(l);
					if (first) { begin(c); r = J("ok"); }
					else r = cmd(c);
				} catch (const Skip&) {
					skipped = true;
				} catch (const std::logic_error& e) {
					if (!std::strncmp(e.what(), "driver:", 7)) { put(fd[1], std::string("!") + e.what() + "\n"); _exit(98); }
					thrown = e.what();
				} catch (const std::exception& e) {
					thrown = e.what();
				} catch (...) {
					thrown = "unknown";
				}
				first = false;
				if (skipped) put(fd[1], "\"skip\":true\n");
				else if (!thrown.empty()) put(fd[1], "\"throw\":" + J(thrown).str() + "\n");
				else put(fd[1], "\"r\":" + r.str() + "\n");
			}
			_exit(0);
		}
		close(fd[1]);
		std::string buf;
		char tmp[1 << 16];
		ssize_t k;
		while ((k = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, std::size_t(k));
		close(fd[0]);
		int status = 0;
		waitpid(pid, &status, 0);
		std::size_t pos = 0, n = 0;
		for (; n < s.size(); ++n) {
			std::size_t e = buf.find('\n', pos);
			if (e == std::string::npos) break;
			std::string r = buf.substr(pos, e - pos);
			pos = e + 1;
			if (!r.empty() && r[0] == '!') { std::fprintf(stderr, "driver error: %s\n%s\n", r.c_str(), s[n].c_str()); return 3; }
			std::string l = s[n].substr(0, s[n].rfind('}'));
			std::fprintf(out, "%s,%s}\n", l.c_str(), r.c_str());
		}
		if (n < s.size()) {
			if (describe(status) == "timeout") ++timeouts;
			std::string l = s[n].substr(0, s[n].rfind('}'));
			std::fprintf(out, "%s,\"crash\":\"%s\"}\n", l.c_str(), describe(status).c_str());
		}
	}
	std::fclose(out);
	return 0;
}

}
using vj::J;
using vj::need;
