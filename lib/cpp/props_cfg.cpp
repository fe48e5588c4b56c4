/* C29: the same calls in differently compiled copies of the library, and in Java */
#include "opgen.hpp"
#include "remote.hpp"
#include <cstdlib>
#include <dlfcn.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <unistd.h>
using namespace gen;
using namespace ops;
using namespace opgen;

namespace {
struct Build { std::string name; RunFn fn; };

// PBT_BUILDS holds NAME=PATH words; each is the library and ops.cpp as a shared object
const std::vector<Build> &builds() {
	static std::vector<Build> v;
	if (!v.empty()) return v;
	const char *e = getenv("PBT_BUILDS");
	std::string t = e ? e : "";
	for (size_t i = 0; i < t.size(); ) {
		size_t j = t.find(' ', i);
		if (j == std::string::npos) j = t.size();
		std::string w = t.substr(i, j - i);
		i = j + 1;
		size_t q = w.find('=');
		if (q == std::string::npos) continue;
		void *h = dlopen(w.c_str() + q + 1, RTLD_NOW | RTLD_LOCAL);
		void *f = h ? dlsym(h, "ops_run") : nullptr;
		if (!f) { fprintf(stderr, "%s\n", dlerror()); _exit(9); }
		v.push_back({w.substr(0, q), reinterpret_cast<RunFn>(f)});
		if (v.back().fn == ops_run) { fprintf(stderr, "%s is not separate\n", w.c_str()); _exit(9); }
	}
	if (v.size() < 2) { fprintf(stderr, "no builds\n"); _exit(9); }
	return v;
}
}

PROPERTY(cfg_ops) {
	const std::vector<Build> &v = builds();
	int op = anyOp(s, 6);
	Call c = call(s, op);
	s.note("%s", c.text().c_str());
	s.label(def(op).name);
	s.nontrivial();
	bool all = op < FAST_END;
	std::string exp = runPlain(c, ops_run, 0, true);
	size_t first = all ? 0 : s.below(v.size()), n = all ? v.size() : std::min<size_t>(v.size(), op < MID_END ? 6 : 4);
	for (size_t i = 0; i < n; i++) {
		const Build &b = v[(first + i * (all ? 1 : 5)) % v.size()];
		std::string got = runPlain(c, b.fn, static_cast<uint8_t>(i * 91), true);
		REQUIRE(got == exp, "%s, built with %s: %s; but built with g++ -O2: %s", c.text().c_str(), b.name.c_str(), got.c_str(), exp.c_str());
	}
}

/* A server holds the Java library; PBT_JAVA is its socket. */
namespace {
int javaFd = -1;
pid_t javaOwner = 0;
}

const char *javaName(int op) {
	switch (op) {
		#define X(N) case N: return #N;
		X(U_ADD) X(U_SUB) X(U_SHL) X(U_SHR) X(U_REPLACE) X(U_SWAP) X(U_BYTES) X(U_FROMBYTES) X(U_FROMSTR) X(U_EQ) X(U_NE) X(U_LT) X(U_LE) X(U_GT) X(U_GE)
		X(H_FROMBYTES) X(H_FROMSTR) X(H_EQ) X(H_NE)
		X(F_ADD) X(F_SUB) X(F_MUL2) X(F_MUL) X(F_SQR) X(F_MULSELF) X(F_REPLACE) X(F_BYTES) X(F_FROMSTR) X(F_EQ) X(F_NE) X(F_LT) X(F_LE) X(F_GT) X(F_GE)
		X(P_ADD) X(P_TWICE) X(P_REPLACE) X(P_ISZERO) X(P_ONCURVE)
		X(SHA256) X(SHA256D) X(SHA512) X(HMAC256) X(HMAC512) X(RIPEMD) X(KECCAK) X(EXPORT_HASH) X(EXPORT_KEY) X(IMPORT_HASH) X(IMPORT_KEY)
		X(U_RECIP) X(F_RECIP) X(P_NORM) X(P_MUL) X(P_PUB) X(SIGN) X(SIGN_HMAC) X(VERIFY)
		#undef X
		case SHA256_STREAM: return "SHA256";
		case SHA512_STREAM: return "SHA512";
		case U_ADD1: return "U_ADD";
		case U_SUB1: return "U_SUB";
		default: return nullptr;
	}
}

std::string javaRequest(const Call &c) {
	int n = 0;
	while (n < 5 && def(c.op).slot[n].kind != NONE) n++;
	bool stream = c.op == SHA256_STREAM || c.op == SHA512_STREAM;
	std::string m = std::string(javaName(c.op)) + " " + std::to_string(c.op == U_ADD1 || c.op == U_SUB1 ? 1 : c.arg);
	for (int i = 0; i < (stream ? 2 : n); i++) m += " x" + pbt::hex(c.data[i].data(), c.data[i].size());
	return m + "\n";
}

namespace {
std::string askJava(const Call &c) {
	if (javaOwner != getpid()) {
		const char *path = getenv("PBT_JAVA");
		sockaddr_un a;
		memset(&a, 0, sizeof a);
		a.sun_family = AF_UNIX;
		if (!path || strlen(path) >= sizeof a.sun_path) { fprintf(stderr, "no Java server\n"); _exit(9); }
		strcpy(a.sun_path, path);
		javaFd = socket(AF_UNIX, SOCK_STREAM, 0);
		if (connect(javaFd, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0) { perror(path); _exit(9); }
		timeval tv = {60, 0};
		setsockopt(javaFd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
		javaOwner = getpid();
	}
	std::string m = javaRequest(c);
	for (size_t k = 0; k < m.size(); ) { ssize_t w = write(javaFd, m.data() + k, m.size() - k); if (w <= 0) { perror("write"); _exit(9); } k += static_cast<size_t>(w); }
	std::string r;
	for (;;) {
		char buf[4096];
		ssize_t k = read(javaFd, buf, sizeof buf);
		REQUIRE(!(k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)), "no answer from Java within a minute");
		if (k <= 0) { perror("read"); _exit(9); }
		r.append(buf, static_cast<size_t>(k));
		if (r.back() == '\n') { r.pop_back(); return r; }
	}
}

}

// Reads "returns R, operand I is HEX, ..." back into memory, to show it the way C++ outcomes are shown
std::string javaShown(const Call &c, const std::string &t) {
	if (c.op != P_ADD && c.op != P_TWICE && c.op != P_MUL) return t;
	size_t at = t.find("operand 0 is ");
	if (at == std::string::npos) return t;
	Bytes b;
	for (size_t i = at + 13; i + 1 < t.size() && b.size() < 96; i += 2) b.push_back(static_cast<uint8_t>(strtoul(t.substr(i, 2).c_str(), nullptr, 16)));
	if (b.size() != 96) return t;
	const uint8_t *mem[5] = {b.data()};
	return outcome(c, 0, mem, true);
}

PROPERTY(cfg_java) {
	int op = anyOp(s, 12);
	for (int i = 0; !javaName(op); i++) op = i > 40 ? static_cast<int>(U_ADD) : anyOp(s, 12);
	Call c = call(s, op);
	s.note("%s", c.text().c_str());
	s.label(def(op).name);
	s.nontrivial();
	std::string exp = runPlain(c, ops_run, 0, true), got = javaShown(c, askJava(c));
	REQUIRE(got == exp, "%s in Java: %s; but in C++: %s", c.text().c_str(), got.c_str(), exp.c_str());
}
