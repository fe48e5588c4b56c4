#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <csignal>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

std::vector<uint64_t> dict;

static std::vector<Prop> &mutProps() { static std::vector<Prop> v; return v; }
const std::vector<Prop> &props() { return mutProps(); }
Register::Register(const char *name, PropFn fn, unsigned cpu) { mutProps().push_back(Prop{name, fn, cpu}); }

void fail(const char *fmt, ...) {
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	throw Fail{buf};
}

std::string hex(const void *p, size_t n) {
	static const char *D = "0123456789abcdef";
	std::string r;
	for (size_t i = 0; i < n; i++) {
		unsigned char c = static_cast<const unsigned char *>(p)[i];
		r += D[c >> 4];
		r += D[c & 15];
	}
	return r;
}

/*---- PRNG (xoshiro256**, seeded with splitmix64) ----*/
static uint64_t splitmix(uint64_t &x) {
	uint64_t z = (x += UINT64_C(0x9E3779B97F4A7C15));
	z = (z ^ (z >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)) * UINT64_C(0x94D049BB133111EB);
	return z ^ (z >> 31);
}
void Src::seed(uint64_t a, uint64_t b, uint64_t c) {
	uint64_t x = a;
	uint64_t y = splitmix(x) ^ b;
	x = y;
	y = splitmix(x) ^ c;
	x = y;
	for (int i = 0; i < 4; i++)
		s[i] = splitmix(x);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Src::next() {
	uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}

static const uint64_t FULL = 0;  // Stands for a bound of 2^64
static uint64_t bounded(Src &s, uint64_t n) {
	uint64_t v;
	if (s.mode == Src::RANDOM) {
		uint64_t x = s.next();
		v = n == FULL ? x : static_cast<uint64_t>((static_cast<unsigned __int128>(x) * n) >> 64);
	} else if (s.mode == Src::REPLAY) {
		v = s.pos < s.in.size() ? s.in[s.pos] : 0;
		s.pos++;
		if (n != FULL && v >= n)
			v = n - 1;
	} else {
		int k = n == FULL ? 8 : n <= 1 ? 0 : n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= (UINT64_C(1) << 32) ? 4 : 8;
		uint64_t x = 0;
		for (int i = 0; i < k; i++)
			x |= static_cast<uint64_t>(s.bpos < s.nbytes ? s.bytes[s.bpos++] : 0) << (8 * i);
		v = n == FULL ? x : x % n;
	}
	if (s.rec != nullptr && *s.recLen < MAX_CHOICES) {
		s.rec[*s.recLen] = v;
		*s.recLen = *s.recLen + 1;
	}
	s.hash = (s.hash ^ v) * UINT64_C(0x9E3779B97F4A7C15);
	s.hash ^= s.hash >> 29;
	return v;
}
uint64_t Src::below(uint64_t n) {
	if (n == 0) { fprintf(stderr, "below(0)\n"); abort(); }
	return bounded(*this, n);
}
uint64_t Src::u64() { return bounded(*this, FULL); }
size_t Src::weighted(std::initializer_list<unsigned> w) {
	uint64_t sum = 0;
	for (unsigned x : w) sum += x;
	uint64_t r = below(sum);
	size_t i = 0;
	for (unsigned x : w) {
		if (r < x) return i;
		r -= x;
		i++;
	}
	return 0;
}
void Src::note(const char *fmt, ...) {
	if (!verbose || noteText.size() > NOTE_CAP) return;
	char buf[3000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (!noteText.empty()) noteText += "; ";
	noteText += buf;
	if (noteOut != nullptr) snprintf(noteOut, NOTE_CAP, "%s", noteText.c_str());
}

/*---- Shared state between parent and workers ----*/
struct Shared {
	volatile uint64_t evals, nontriv, curCase, distinct;
	volatile uint32_t recLen, state;  // state: 0 running, 1 finished, 2 property failed
	volatile uint32_t nLabels;
	char labelName[MAX_LABELS][48];
	volatile uint64_t labelCount[MAX_LABELS];
	char msg[4096];
	char note[NOTE_CAP + 4000];
	uint64_t rec[MAX_CHOICES];
};
static Shared *cur = nullptr;
static Shared *newShared() {
	void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return static_cast<Shared *>(p);
}
void Src::label(const char *name) {
	if (cur == nullptr) return;
	uint32_t i;
	for (i = 0; i < cur->nLabels; i++) {
		if (strcmp(cur->labelName[i], name) == 0) { cur->labelCount[i] = cur->labelCount[i] + 1; return; }
	}
	if (i < MAX_LABELS) {
		snprintf(cur->labelName[i], sizeof cur->labelName[i], "%s", name);
		cur->labelCount[i] = 1;
		cur->nLabels = i + 1;
	}
}

static std::string jstr(const std::string &s) {
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += static_cast<char>(c);
	}
	return r + "\"";
}

static uint64_t nameHash(const char *s) {
	uint64_t h = UINT64_C(0xcbf29ce484222325);
	for (; *s; s++) h = (h ^ static_cast<unsigned char>(*s)) * UINT64_C(0x100000001b3);
	return h;
}

static void setCpu(unsigned secs) {
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec = secs;
	setitimer(ITIMER_PROF, &it, nullptr);
}
static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

// Runs one case in this process. Returns true if it passed.
static bool oneCase(const Prop &p, Src &src) {
	try {
		if (!p.name[0] || p.name[strlen(p.name) - 1] != '@') {
			p.fn(src);
			return true;
		}
		// A sequence of cases made of related values, so that state left behind by one may mislead the next
		src.seq = true;
		size_t n = src.range(2, 4);
		for (size_t i = 0; i < n; i++) {
			src.note("#%zu:", i + 1);
			p.fn(src);
		}
		return true;
	} catch (const Fail &f) {
		static const bool crashOnly = getenv("PBT_CRASHONLY") != nullptr;  // Wrong results are another property's business
		if (crashOnly) return true;
		snprintf(cur->msg, sizeof cur->msg, "%s", f.msg.c_str());
		return false;
	} catch (const std::exception &e) {
		snprintf(cur->msg, sizeof cur->msg, "C++ exception: %s", e.what());
		return false;
	}
}

enum Kind { PASS, FAILED, CRASH, HANG, LOST };
struct Outcome { Kind kind; int sig; std::string msg, note, err; std::vector<uint64_t> ch; };

static std::string slurp(const std::string &path, size_t cap = 3000) {
	std::string r;
	FILE *f = fopen(path.c_str(), "rb");
	if (!f) return r;
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < cap * 4) r.append(b, n);
	fclose(f);
	if (r.size() > cap) r.resize(cap);
	return r;
}

static std::string tmpDir;

static Outcome classify(int st, Shared *sh, const std::string &errPath) {
	Outcome o;
	o.sig = 0;
	o.ch.assign(sh->rec, sh->rec + sh->recLen);
	o.note = sh->note;
	o.err = slurp(errPath);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state == 1) o.kind = PASS;
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && sh->state == 2) { o.kind = FAILED; o.msg = sh->msg; }
	else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGXCPU)) { o.kind = HANG; o.msg = "used up its CPU time limit (endless loop?)"; }
	else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.kind = LOST; o.msg = "worker was killed from outside"; }
	else if (WIFSIGNALED(st)) { o.kind = CRASH; o.sig = WTERMSIG(st); o.msg = std::string("crashed with signal ") + strsignal(o.sig); }
	else { o.kind = CRASH; o.sig = -(WIFEXITED(st) ? WEXITSTATUS(st) : 99); o.msg = "process exited unexpectedly with status " + std::to_string(-o.sig); }
	if (o.kind == CRASH && !o.err.empty()) o.msg += ": " + o.err.substr(0, 1500);
	return o;
}

static void childSetup(const std::string &errPath) {
	int fd = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
}

static Outcome runReplay(const Prop &p, const std::vector<uint64_t> &ch, unsigned cpu, bool verbose) {
	Shared *sh = newShared();
	std::string err = tmpDir + "/replay.err";
	pid_t pid = fork();
	if (pid == 0) {
		cur = sh;
		childSetup(err);
		setCpu(cpu);
		Src src;
		src.mode = Src::REPLAY;
		src.in = ch;
		src.rec = sh->rec;
		src.recLen = &sh->recLen;
		src.verbose = verbose;
		src.noteOut = sh->note;
		bool ok = oneCase(p, src);
		sh->state = ok ? 1 : 2;
		_exit(ok ? 0 : 3);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	Outcome o = classify(st, sh, err);
	munmap(sh, sizeof(Shared));
	return o;
}

// Runs the random cases first, first+step, ..., last in one child (to reproduce history-dependent failures).
static Outcome runHistory(const Prop &p, uint64_t seed, uint64_t first, uint64_t step, uint64_t last, unsigned cpu) {
	Shared *sh = newShared();
	std::string err = tmpDir + "/replay.err";
	pid_t pid = fork();
	if (pid == 0) {
		cur = sh;
		childSetup(err);
		for (uint64_t i = first; i <= last; i += step) {
			setCpu(cpu);
			Src src;
			src.seed(seed, nameHash(p.name), i);
			src.rec = sh->rec;
			sh->recLen = 0;
			src.recLen = &sh->recLen;
			src.verbose = i == last;
			src.noteOut = sh->note;
			bool ok = oneCase(p, src);
			if (!ok || i == last) {
				sh->state = ok ? 1 : 2;
				_exit(ok ? 0 : 3);
			}
		}
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	Outcome o = classify(st, sh, err);
	munmap(sh, sizeof(Shared));
	return o;
}

static bool bad(const Outcome &o) { return o.kind == FAILED || o.kind == CRASH || o.kind == HANG; }

static Outcome shrink(const Prop &p, Outcome best, unsigned cpu, int &steps, double budget) {
	double end = now() + budget;
	steps = 0;
	auto attempt = [&](const std::vector<uint64_t> &c) -> bool {
		if (now() > end || steps > 4000) return false;
		steps++;
		Outcome o = runReplay(p, c, cpu, false);
		if (o.kind != best.kind) return false;
		// Only accept if what was actually consumed is simpler
		if (o.ch.size() > best.ch.size()) return false;
		if (o.ch.size() == best.ch.size() && !std::lexicographical_compare(o.ch.begin(), o.ch.end(), best.ch.begin(), best.ch.end())) return false;
		best = o;
		return true;
	};
	bool progress = true;
	while (progress && now() < end && steps < 4000) {
		progress = false;
		for (size_t k = 64; k >= 1; k /= 2) {  // Delete chunks
			for (size_t i = 0; i + k <= best.ch.size();) {
				std::vector<uint64_t> c = best.ch;
				c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
				if (attempt(c)) progress = true;
				else i += k;
				if (now() > end || steps > 4000) break;
			}
		}
		for (size_t k = 16; k >= 2; k /= 2) {  // Zero chunks
			for (size_t i = 0; i + k <= best.ch.size(); i += k) {
				std::vector<uint64_t> c = best.ch;
				bool any = false;
				for (size_t j = i; j < i + k; j++) { any |= c[j] != 0; c[j] = 0; }
				if (any && attempt(c)) progress = true;
				if (now() > end || steps > 4000) break;
			}
		}
		for (size_t i = 0; i < best.ch.size(); i++) {  // Lower single choices
			if (best.ch[i] == 0) continue;
			std::vector<uint64_t> c = best.ch;
			c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = best.ch[i];
			while (hi - lo > 1 && i < best.ch.size()) {
				uint64_t mid = lo + (hi - lo) / 2;
				c = best.ch;
				c[i] = mid;
				if (attempt(c)) { progress = true; hi = i < best.ch.size() ? std::min(mid, best.ch[i]) : 0; if (hi <= lo) break; }
				else lo = mid;
				if (now() > end || steps > 4000) break;
			}
			if (now() > end || steps > 4000) break;
		}
	}
	return best;
}

static void writeReplay(const std::string &path, const Prop &p, const Outcome &o, const std::string &variant, uint64_t seed,
		uint64_t caseIdx, int steps, bool history, uint64_t first, uint64_t step) {
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); return; }
	fprintf(f, "{\n \"engine\": \"cpp\",\n \"prop\": %s,\n \"variant\": %s,\n \"seed\": %llu,\n \"case\": %llu,\n \"shrink_steps\": %d,\n",
		jstr(p.name).c_str(), jstr(variant).c_str(), static_cast<unsigned long long>(seed), static_cast<unsigned long long>(caseIdx), steps);
	fprintf(f, " \"failure\": %s,\n \"case_text\": %s,\n", jstr(o.msg).c_str(), jstr(o.note).c_str());
	if (history) fprintf(f, " \"history\": [%llu, %llu, %llu],\n", static_cast<unsigned long long>(first), static_cast<unsigned long long>(step), static_cast<unsigned long long>(caseIdx));
	fprintf(f, " \"dict\": [");
	for (size_t i = 0; i < dict.size(); i++) fprintf(f, "%s%llu", i ? "," : "", static_cast<unsigned long long>(dict[i]));
	fprintf(f, "],\n \"choices\": [");
	for (size_t i = 0; i < o.ch.size(); i++) fprintf(f, "%s%llu", i ? "," : "", static_cast<unsigned long long>(o.ch[i]));
	fprintf(f, "]\n}\n");
	fclose(f);
}

static const char *arg(int argc, char **argv, const char *name, const char *def) {
	for (int i = 1; i + 1 < argc; i++) if (strcmp(argv[i], name) == 0) return argv[i + 1];
	return def;
}
static bool has(int argc, char **argv, const char *name) {
	for (int i = 1; i < argc; i++) if (strcmp(argv[i], name) == 0) return true;
	return false;
}

static void loadDict(const char *path) {
	dict.clear();
	FILE *f = *path ? fopen(path, "r") : nullptr;
	if (!f) return;
	unsigned long long x;
	while (fscanf(f, "%llu", &x) == 1) dict.push_back(x);
	fclose(f);
}

int run(int argc, char **argv) {
	const char *name = arg(argc, argv, "--prop", "");
	const Prop *p = nullptr;
	Prop sequence;
	for (const Prop &q : props()) {
		if (strcmp(q.name, name) == 0) p = &q;
		else if (name[0] && name[strlen(name) - 1] == '@' && strlen(q.name) == strlen(name) - 1 && strncmp(q.name, name, strlen(q.name)) == 0) {
			sequence = q;
			sequence.name = name;
			p = &sequence;
		}
	}
	if (has(argc, argv, "--list")) {
		for (const Prop &q : props()) printf("%s\n", q.name);
		return 0;
	}
	if (!p) { fprintf(stderr, "no such property: %s\n", name); return 2; }
	loadDict(arg(argc, argv, "--dict", ""));
	uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
	uint64_t cases = strtoull(arg(argc, argv, "--cases", "1000"), nullptr, 10);
	uint64_t jobs = strtoull(arg(argc, argv, "--jobs", "1"), nullptr, 10);
	double deadline = atof(arg(argc, argv, "--deadline", "600"));
	std::string variant = arg(argc, argv, "--variant", "?");
	std::string out = arg(argc, argv, "--out", "");
	std::string replay = arg(argc, argv, "--replay-out", "replay.json");
	unsigned cpu = p->cpuLimit;
	char td[] = "/tmp/pbt.XXXXXX";
	if (!mkdtemp(td)) { perror("mkdtemp"); return 2; }
	tmpDir = td;
	struct Cleanup { ~Cleanup() { std::string c = "rm -rf -- '" + tmpDir + "'"; if (tmpDir.compare(0, 9, "/tmp/pbt.") == 0 && system(c.c_str())) {} } } cleanup;

	const char *choicesFile = arg(argc, argv, "--choices", "");
	if (*choicesFile) {  // Replay mode: one integer per token
		std::vector<uint64_t> ch;
		FILE *f = fopen(choicesFile, "r");
		unsigned long long x;
		while (f && fscanf(f, "%llu", &x) == 1) ch.push_back(x);
		if (f) fclose(f);
		Outcome o = runReplay(*p, ch, cpu, true);
		printf("%s\n%s\n%s\n", o.kind == PASS ? "PASS" : "FAIL", o.note.c_str(), o.msg.c_str());
		return o.kind == PASS ? 0 : 1;
	}
	if (has(argc, argv, "--history")) {
		uint64_t a = strtoull(arg(argc, argv, "--first", "0"), nullptr, 10), b = strtoull(arg(argc, argv, "--step", "1"), nullptr, 10), c = strtoull(arg(argc, argv, "--last", "0"), nullptr, 10);
		Outcome o = runHistory(*p, seed, a, b, c, cpu);
		printf("%s\n%s\n%s\n", o.kind == PASS ? "PASS" : "FAIL", o.note.c_str(), o.msg.c_str());
		return o.kind == PASS ? 0 : 1;
	}

	const uint64_t HCAP = 1 << 20;  // Slots of the distinct-case filter per worker
	double end = now() + deadline;
	std::vector<Shared *> sh(jobs);
	std::vector<pid_t> pid(jobs);
	volatile uint32_t *stop = static_cast<volatile uint32_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	uint64_t *hashes = static_cast<uint64_t *>(mmap(nullptr, jobs * HCAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	for (uint64_t w = 0; w < jobs; w++) {
		sh[w] = newShared();
		fflush(nullptr);
		pid[w] = fork();
		if (pid[w] == 0) {
			cur = sh[w];
			childSetup(tmpDir + "/w" + std::to_string(w) + ".err");
			uint64_t nh = 0;
			std::unordered_set<uint64_t> seen;
			for (uint64_t i = w; i < cases; i += jobs) {
				if (*stop || now() > end) break;
				setCpu(cpu);
				cur->curCase = i;
				cur->recLen = 0;
				Src src;
				src.rec = cur->rec;
				src.recLen = &cur->recLen;
				src.seed(seed, nameHash(p->name), i);
				src.verbose = i < 400 && (i / jobs) % 3 == 0;
				bool ok = oneCase(*p, src);
				if (!ok) {
					cur->state = 2;
					*stop = 1;
					_exit(3);
				}
				cur->evals = cur->evals + 1;
				if (src.nontriv) {
					cur->nontriv = cur->nontriv + 1;
					if (seen.size() < HCAP && seen.insert(src.hash).second && nh < HCAP) hashes[w * HCAP + nh++] = src.hash;
					cur->distinct = nh;
					if (src.verbose && w == 0 && strlen(cur->note) < NOTE_CAP / 2) {
						size_t l = strlen(cur->note);
						snprintf(cur->note + l, sizeof cur->note - l, "%.900s\n", src.noteText.c_str());
					}
				}
			}
			cur->state = 1;
			setCpu(0);
			_exit(0);
		}
	}
	bool failed = false, lost = false;
	Outcome firstFail;
	uint64_t failCase = 0, failWorker = 0;
	for (uint64_t n = 0; n < jobs; n++) {
		int st = 0;
		pid_t q = wait(&st);
		for (uint64_t w = 0; w < jobs; w++) {
			if (pid[w] != q) continue;
			Outcome o = classify(st, sh[w], tmpDir + "/w" + std::to_string(w) + ".err");
			if (bad(o)) {
				*stop = 1;
				if (!failed || sh[w]->curCase < failCase) { firstFail = o; failCase = sh[w]->curCase; failWorker = w; }
				failed = true;
			} else if (o.kind == LOST) lost = true;
		}
	}
	uint64_t evals = 0, nontriv = 0;
	std::unordered_set<uint64_t> all;
	for (uint64_t w = 0; w < jobs; w++) {
		evals += sh[w]->evals;
		nontriv += sh[w]->nontriv;
		for (uint64_t k = 0; k < sh[w]->distinct; k++) all.insert(hashes[w * HCAP + k]);
	}
	std::string labels;
	{
		std::vector<std::pair<std::string, uint64_t>> m;
		for (uint64_t w = 0; w < jobs; w++)
			for (uint32_t k = 0; k < sh[w]->nLabels; k++) {
				size_t j = 0;
				while (j < m.size() && m[j].first != sh[w]->labelName[k]) j++;
				if (j == m.size()) m.push_back({sh[w]->labelName[k], 0});
				m[j].second += sh[w]->labelCount[k];
			}
		std::sort(m.begin(), m.end());
		for (auto &x : m) labels += (labels.empty() ? "" : ", ") + jstr(x.first) + ": " + std::to_string(x.second);
	}
	std::string status = failed ? "unreproduced" : lost ? "lost" : "ok";
	if (failed) {
		bool rep = true;
		double t0 = now();
		Outcome r = runReplay(*p, firstFail.ch, cpu, true);
		bool slow = now() - t0 > 4, verySlow = now() - t0 > 20;  // Huge messages; fewer attempts
		rep = bad(r);
		if (rep) {
			int steps = 0;
			Outcome best = verySlow ? r : shrink(*p, r, r.kind == HANG ? std::min(cpu, 10u) : cpu, steps, r.kind == HANG ? 60 : slow ? 30 : 45);
			bool all3 = true;
			Outcome fin;
			fin = r;
			for (int k = 0; k < (verySlow ? 0 : slow ? 1 : best.kind == HANG ? 2 : 3); k++) { fin = runReplay(*p, best.ch, cpu, true); all3 &= bad(fin); }
			if (!all3) {  // Fall back to the unshrunk case
				best = r;
				all3 = true;
				for (int k = 0; k < 3; k++) { fin = runReplay(*p, best.ch, cpu, true); all3 &= bad(fin); }
			}
			if (fin.note.empty()) fin.note = best.note;
			if (all3) {
				writeReplay(replay, *p, fin, variant, seed, failCase, steps, false, 0, 0);
				firstFail = fin;
				status = "violation";
			}
		}
		if (status != "violation") {  // Perhaps it depends on the cases before it
			bool all3 = true;
			Outcome fin;
			for (int k = 0; k < 3 && all3; k++) { fin = runHistory(*p, seed, failWorker, jobs, failCase, cpu); all3 &= bad(fin); }
			if (all3) {
				uint64_t first = failWorker;  // Shorten the history
				for (uint64_t k = 1; k <= 64 && failCase >= failWorker + k * jobs; k *= 2) {
					uint64_t f2 = failCase - k * jobs;
					if (bad(runHistory(*p, seed, f2, jobs, failCase, cpu))) { first = f2; break; }
				}
				writeReplay(replay, *p, fin, variant, seed, failCase, 0, true, first, jobs);
				firstFail = fin;
				status = "violation";
			}
		}
	}
	FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
	if (!f) { perror(out.c_str()); return 2; }
	fprintf(f, "{\"status\": %s, \"prop\": %s, \"variant\": %s, \"requested\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"labels\": {%s}, \"samples\": %s, \"message\": %s, \"case_text\": %s, \"replay\": %s}\n",
		jstr(status).c_str(), jstr(p->name).c_str(), jstr(variant).c_str(), static_cast<unsigned long long>(cases), static_cast<unsigned long long>(evals),
		static_cast<unsigned long long>(nontriv), static_cast<unsigned long long>(all.size()), labels.c_str(),
		jstr(jobs ? sh[0]->note : "").c_str(), jstr(failed ? firstFail.msg : "").c_str(), jstr(failed ? firstFail.note : "").c_str(), jstr(replay).c_str());
	if (f != stdout) fclose(f);
	return status == "ok" ? 0 : status == "violation" ? 1 : 4;
}

}  // namespace pbt
