/* C33: the library is ready when a program starts, whatever order its parts are linked or first used in */
#include "opgen.hpp"
#include "remote.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace gen;
using namespace ops;
using namespace opgen;
using ref::P;
using ref::N;

extern char **environ;

namespace {

struct Parts { std::string name, cc; std::vector<std::string> objs; };

// PBT_START holds lines NAME|LINKER COMMAND|OBJECT OBJECT ...
const std::vector<Parts> &parts() {
	static std::vector<Parts> v;
	if (!v.empty()) return v;
	const char *e = getenv("PBT_START");
	std::istringstream in(e ? e : "");
	std::string line;
	while (std::getline(in, line)) {
		size_t a = line.find('|'), b = line.find('|', a + 1);
		if (b == std::string::npos) continue;
		Parts p{line.substr(0, a), line.substr(a + 1, b - a - 1), {}};
		std::istringstream w(line.substr(b + 1));
		std::string o;
		while (w >> o) p.objs.push_back(o);
		v.push_back(p);
	}
	if (v.empty()) { fprintf(stderr, "PBT_START is not set\n"); _exit(9); }
	return v;
}

// A running program, with pipes to its standard input and output; gone at the end of the scope
struct Child {
	pid_t pid = -1;
	int in = -1, out = -1;
	std::string dir;
	void start(const std::vector<std::string> &cmd) {
		int a[2], b[2];
		if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(9); }
		pid = fork();
		if (pid < 0) { perror("fork"); _exit(9); }
		if (pid == 0) {
			dup2(a[0], 0);
			dup2(b[1], 1);
			signal(SIGPIPE, SIG_DFL);
			std::vector<char *> argv;
			for (const std::string &w : cmd) argv.push_back(const_cast<char *>(w.c_str()));
			argv.push_back(nullptr);
			execvp(argv[0], argv.data());
			_exit(127);
		}
		close(a[0]);
		close(b[1]);
		in = a[1];
		out = b[0];
	}
	std::string finish() {  // How it ended
		if (in >= 0) close(in);
		if (out >= 0) close(out);
		in = out = -1;
		int st = 0;
		for (int i = 0; i < 3000; i++) {
			if (waitpid(pid, &st, WNOHANG) == pid) {
				pid = -1;
				if (WIFSIGNALED(st)) return std::string("died of ") + strsignal(WTERMSIG(st));
				if (WEXITSTATUS(st) != 0) return "ended with status " + std::to_string(WEXITSTATUS(st));
				return "";
			}
			usleep(i < 100 ? 1000 : 10000);
		}
		return "did not end";
	}
	bool writeAll(const std::string &t) {
		for (size_t k = 0; k < t.size(); ) {
			ssize_t w = write(in, t.data() + k, t.size() - k);
			if (w < 0 && errno == EINTR) continue;
			if (w <= 0) return false;
			k += static_cast<size_t>(w);
		}
		return true;
	}
	// 1 if everything was read, 0 at the end of the output, -1 if nothing comes for two minutes
	int readAll(void *p, size_t n) {
		for (size_t k = 0; k < n; ) {
			pollfd f = {out, POLLIN, 0};
			int r = poll(&f, 1, 120000);
			if (r == 0) return -1;
			if (r < 0) { if (errno == EINTR) continue; return 0; }
			ssize_t w = read(out, static_cast<char *>(p) + k, n - k);
			if (w <= 0) return 0;
			k += static_cast<size_t>(w);
		}
		return 1;
	}
	~Child() {
		if (in >= 0) close(in);
		if (out >= 0) close(out);
		if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); }
		if (!dir.empty()) {
			unlink((dir + "/p").c_str());
			unlink((dir + "/libp.a").c_str());
			unlink((dir + "/libp.so").c_str());
			rmdir(dir.c_str());
		}
	}
};

std::string base(const std::string &path) { return path.substr(path.rfind('/') + 1); }

bool runCommand(const std::vector<std::string> &cmd) {
	pid_t pid = fork();
	if (pid == 0) {
		std::vector<char *> argv;
		for (const std::string &w : cmd) argv.push_back(const_cast<char *>(w.c_str()));
		argv.push_back(nullptr);
		execvp(argv[0], argv.data());
		_exit(127);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
	return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

Child *peer;  // Where the calls go
std::string peerEnd;

uint64_t remoteRun(int op, void *const *slot, const size_t *len, uint64_t arg) {
	std::string m;
	auto add = [&m](const void *p, size_t n) { m.append(static_cast<const char *>(p), n); };
	int32_t o = op, n = 0, alias[5];
	while (n < 5 && def(op).slot[n].kind != NONE) n++;
	add(&o, 4);
	add(&arg, 8);
	add(&n, 4);
	for (int i = 0; i < n; i++) {
		alias[i] = -1;
		for (int j = 0; j < i; j++) if (slot[j] == slot[i]) { alias[i] = j; break; }
		uint32_t k = static_cast<uint32_t>(len[i]);
		add(&alias[i], 4);
		add(&k, 4);
		add(slot[i], k);
	}
	uint64_t ret = 0;
	int st = peer->writeAll(m) ? peer->readAll(&ret, 8) : 0;
	for (int i = 0; i < n && st == 1; i++) if (alias[i] < 0) st = peer->readAll(slot[i], len[i]);
	if (st < 0) pbt::fail("%s: no answer for two minutes", def(op).name);
	if (st == 0) { std::string e = peer->finish(); pbt::fail("the program %s in %s", e.empty() ? "ended" : e.c_str(), def(op).name); }
	return ret;
}

void checkConstants(Child &c) {
	static const char *const NAME[] = {"Uint256::ZERO", "Uint256::ONE", "CurvePoint::FI_ZERO", "CurvePoint::FI_ONE", "CurvePoint::A", "CurvePoint::B", "CurvePoint::ORDER",
		"CurvePoint::G.x", "CurvePoint::G.y", "CurvePoint::G.z", "CurvePoint::ZERO.x", "CurvePoint::ZERO.y", "CurvePoint::ZERO.z"};
	const Num exp[] = {0, 1, 0, 1, 0, 7, N(), ref::base().x, ref::base().y, 1, 0, 1, 0};
	for (int i = 0; i < 13; i++) {
		uint32_t v[8];
		int st = c.readAll(v, 32);
		if (st == 0) { std::string e = c.finish(); pbt::fail("the program %s at its start", e.empty() ? "ended" : e.c_str()); }
		REQUIRE(st > 0, "the program does not start within two minutes");
		REQUIRE(get(v) == exp[i], "%s is %s at the start of main, not %s", NAME[i], str(get(v)).c_str(), str(exp[i]).c_str());
	}
	char a[59];
	REQUIRE(c.readAll(a, 59) == 1, "no constants");
	REQUIRE(memcmp(a, "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", 59) == 0, "Base58Check::ALPHABET is wrong at the start of main");
}

}

PROPERTY(start_cpp) {
	signal(SIGPIPE, SIG_IGN);
	const std::vector<Parts> &all = parts();
	const Parts &p = all[s.below(all.size())];
	std::vector<std::string> o = p.objs;
	for (size_t i = 0; i + 1 < o.size(); i++) std::swap(o[i], o[i + s.below(o.size() - i)]);
	size_t how = s.weighted({3, 1, 1});
	std::vector<Call> calls(1 + s.below(4));
	for (Call &c : calls) c = call(s, anyOp(s, 3));
	std::string order;
	for (const std::string &x : o) order += " " + base(x).substr(0, base(x).find('-'));
	s.note("built with %s, %s in the order%s; then", p.name.c_str(), how == 0 ? "linked" : how == 1 ? "linked from an archive" : "linked as a shared library", order.c_str());
	for (const Call &c : calls) s.note(" %s;", c.text().c_str());
	s.label(p.name.c_str());
	if (o != p.objs) s.nontrivial();
	Child c;
	char dir[] = "/tmp/pbtstart.XXXXXX";
	if (!mkdtemp(dir)) { perror("mkdtemp"); _exit(9); }
	c.dir = dir;
	std::vector<std::string> cc, cmd;
	std::istringstream w(p.cc);
	for (std::string t; w >> t; ) cc.push_back(t);
	cmd = cc;
	std::string exe = c.dir + "/p", probe;
	std::vector<std::string> lib;
	for (const std::string &x : o) { if (base(x).compare(0, 10, "startprobe") == 0) probe = x; else lib.push_back(x); }
	if (how == 1) {
		std::vector<std::string> ar = {"ar", "rcs", c.dir + "/libp.a"};
		ar.insert(ar.end(), lib.begin(), lib.end());
		if (!runCommand(ar)) { fprintf(stderr, "cannot make an archive\n"); _exit(9); }
		cmd.insert(cmd.end(), {probe, c.dir + "/libp.a"});
	} else if (how == 2) {
		std::vector<std::string> so = cc;
		so.insert(so.end(), {"-shared", "-o", c.dir + "/libp.so"});
		so.insert(so.end(), lib.begin(), lib.end());
		if (!runCommand(so)) { fprintf(stderr, "cannot link a shared library\n"); _exit(9); }
		cmd.insert(cmd.end(), {probe, c.dir + "/libp.so"});
	} else
		cmd.insert(cmd.end(), o.begin(), o.end());
	cmd.insert(cmd.end(), {"-o", exe});
	if (!runCommand(cmd)) { fprintf(stderr, "cannot link\n"); _exit(9); }
	c.start({exe});
	checkConstants(c);
	peer = &c;
	for (const Call &k : calls) {
		std::string exp = runPlain(k, ops_run, 0, true), got = runPlain(k, remoteRun, 0, true);
		REQUIRE(got == exp, "%s in a new program: %s; but later: %s", k.text().c_str(), got.c_str(), exp.c_str());
	}
	std::string e = c.finish();
	REQUIRE(e.empty(), "the program %s", e.c_str());
}

/* PBT_JVM is the command that answers calls in a new Java process. */
PROPERTY(start_java) {
	signal(SIGPIPE, SIG_IGN);
	static const char *const FLAGS[] = {"-ea", "-da", "-Xint", "-XX:TieredStopAtLevel=1", "-esa"};
	const char *flag = FLAGS[s.below(5)];
	std::vector<Call> calls(1 + s.below(4));
	for (Call &c : calls) {
		int op = anyOp(s, 3);
		for (int i = 0; !javaName(op); i++) op = i > 40 ? static_cast<int>(U_ADD) : anyOp(s, 3);
		c = call(s, op);
	}
	s.note("java %s:", flag);
	for (const Call &c : calls) s.note(" %s;", c.text().c_str());
	s.label(def(calls[0].op).name);
	s.nontrivial();
	const char *e = getenv("PBT_JVM");
	if (!e) { fprintf(stderr, "PBT_JVM is not set\n"); _exit(9); }
	std::vector<std::string> cmd;
	std::istringstream w(e);
	for (std::string t; w >> t; ) { cmd.push_back(t); if (cmd.size() == 1) cmd.push_back(flag); }
	Child c;
	c.start(cmd);
	for (const Call &k : calls) {
		std::string exp = runPlain(k, ops_run, 0, true), line, got;
		int st = c.writeAll(javaRequest(k)) ? 1 : 0;
		for (char ch; st == 1 && (st = c.readAll(&ch, 1)) == 1 && ch != '\n'; ) line += ch;
		REQUIRE(st >= 0, "%s in a new Java process: no answer for two minutes", k.text().c_str());
		REQUIRE(st == 1, "%s: the new Java process ended", k.text().c_str());
		got = javaShown(k, line);
		REQUIRE(got == exp, "%s in a new Java process: %s; but in C++: %s", k.text().c_str(), got.c_str(), exp.c_str());
	}
}
