#include "h.h"
#include <sys/time.h>
#include <mutex>
#include <thread>

std::vector<Family>& families() { static std::vector<Family> f; return f; }
int g_qtWarnings = 0;

// ---------------------------------------------------------------- runner state
static int g_outFd = -1, g_curFd = -1;
static std::map<std::string, qint64> g_counts;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<BA> g_samples;
static int g_cases = 0, g_stalls = 0, g_viol = 0;
static Ctx* g_ctx = 0;
static BA g_scratch;
static bool g_verbose = false;
static std::recursive_mutex g_mx;

static unsigned char *g_covB = 0, *g_covE = 0;
static std::vector<std::pair<unsigned char*, unsigned char*> > g_cov;
extern "C" void __sanitizer_cov_8bit_counters_init(char* b, char* e) { if (b != e) g_cov.push_back(std::make_pair((unsigned char*)b, (unsigned char*)e)); }
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static std::vector<unsigned char> g_seenBuckets;
bool coverageGrew()
{
	static const unsigned char none = 0; (void)none;
	size_t n = 0; for (auto& p : g_cov) n += p.second - p.first;
	if (g_seenBuckets.size() != n) g_seenBuckets.assign(n, 0);
	bool grew = false; size_t k = 0;
	for (auto& p : g_cov) for (unsigned char* q = p.first; q < p.second; ++q, ++k)
	{
		unsigned char v = *q, b = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
		if (b & ~g_seenBuckets[k]) { g_seenBuckets[k] |= b; grew = true; }
	}
	return grew;
}
static std::vector<unsigned char> g_everHit; // edges hit before the counters were last zeroed
void coverageReset()
{
	size_t n = 0, k = 0; for (auto& p : g_cov) n += p.second - p.first; g_everHit.resize(n, 0);
	for (auto& p : g_cov) for (unsigned char* q = p.first; q < p.second; ++q, ++k) { if (*q) g_everHit[k] = 1; *q = 0; }
}

static void emitLine(const BA& l) { BA x = l + "\n"; if (g_outFd >= 0) { ssize_t r = write(g_outFd, x.constData(), x.size()); (void)r; } if (g_verbose) fprintf(stderr, "%s", x.constData()); }

static void flushStats()
{
	BA l = "{\"t\":\"stats\",\"cases\":" + num(g_cases) + ",\"warnings\":" + num(g_qtWarnings) + ",\"counts\":{";
	bool first = true;
	for (auto& kv : g_counts) { if (!first) l += ","; first = false; l += jstr(BA(kv.first.c_str())) + ":" + num(kv.second); }
	l += "},\"distinct\":[";
	first = true; int n = 0;
	for (uint64_t h : g_distinct) { if (n++ > 200000) break; if (!first) l += ","; first = false; l += "\"" + BA::number(quint64(h), 36) + "\""; }
	l += "],\"samples\":["; first = true;
	for (auto& s : g_samples) { if (!first) l += ","; first = false; l += jstr(s); }
	l += "],\"cov\":\"";
	coverageReset(); size_t at = 0;
	for (auto& p : g_cov) { unsigned acc = 0; int k = 0; for (unsigned char* q = p.first; q < p.second; ++q, ++at) { acc = acc * 2 + (g_everHit[at] ? 1 : 0); if (++k == 4) { l += "0123456789abcdef"[acc]; acc = 0; k = 0; } } if (k) l += "0123456789abcdef"[acc << (4 - k)]; }
	qint64 tot = 0; for (auto& p : g_cov) tot += p.second - p.first;
	l += "\",\"edges\":" + num(tot) + "}";
	emitLine(l);
}
static bool g_flushed = false;
static void deathCallback() { if (!g_flushed) { g_flushed = true; flushStats(); } }

static bool g_quiet = false; // a repeated case: only its use of resources is judged
void Ctx::fail(const BA& key, const BA& detail)
{
	std::lock_guard<std::recursive_mutex> lk(g_mx);
	++violations; if (g_quiet) return; ++g_viol;
	if (violations > 3) return;
	emitLine("{\"t\":\"viol\",\"family\":" + jstr(family) + ",\"index\":" + num(index) + ",\"key\":" + jstr(key) + ",\"detail\":" + jstr((note.isEmpty() ? BA() : "[" + note.left(1500) + "] ") + detail) + "}");
}
void Ctx::stall(const BA& key, const BA& detail)
{
	std::lock_guard<std::recursive_mutex> lk(g_mx);
	++violations; if (g_quiet) return; ++g_stalls;
	if (violations > 3) return;
	emitLine("{\"t\":\"stall\",\"family\":" + jstr(family) + ",\"index\":" + num(index) + ",\"key\":" + jstr(key) + ",\"detail\":" + jstr((note.isEmpty() ? BA() : "[" + note.left(1500) + "] ") + detail) + "}");
}
void Ctx::count(const char* name, qint64 n) { std::lock_guard<std::recursive_mutex> lk(g_mx); if (!g_quiet) g_counts[name] += n; }
void Ctx::distinct(uint64_t h) { std::lock_guard<std::recursive_mutex> lk(g_mx); if (!g_quiet && g_distinct.size() < 200000) g_distinct.insert(fnv(family, strlen(family), h)); }
void Ctx::sample(const BA& s) { std::lock_guard<std::recursive_mutex> lk(g_mx); if (!g_quiet && g_samples.size() < 3) g_samples.push_back(BA(family) + "#" + num(index) + ": " + s.left(700)); }

static void onAlarm(int)
{
	static const char m1[] = "{\"t\":\"hang\"}\n";
	ssize_t r = write(g_outFd, m1, sizeof m1 - 1); (void)r;
	_exit(77);
}
static int g_case = 0;
int caseIndex() { return g_case; }
void setCaseAlarm(int s) { alarm(s); }
QString scratchDir() { return QString::fromLocal8Bit(g_scratch); }

bool waitFor(Ctx& c, const std::function<bool()>& cond, const std::function<void()>& poller, int ms)
{
	QElapsedTimer t; t.start(); int idle = 0;
	for (;;)
	{
		spin();
		if (poller) poller();
		if (cond()) return true;
		if (++idle > 20) usleep(idle > 4000 ? 1000 : idle > 200 ? 150 : 50);
		if (t.elapsed() > qint64(ms) * c.slow) return cond();
	}
}

static void msgHandler(QtMsgType type, const QMessageLogContext&, const QString& m)
{
	if (type != QtDebugMsg) __atomic_fetch_add(&g_qtWarnings, 1, __ATOMIC_RELAXED);
	if (g_verbose || type == QtFatalMsg) fprintf(stderr, "QT: %s\n", m.toLocal8Bit().constData());
	if (type == QtFatalMsg) abort();
}

bool sharedNullIntact() { return QArrayData::shared_null[0].size == 0 && QArrayData::shared_null[0].ref.atomic.load() == -1; }

static uint64_t caseSeed(const Family& fam, int i, uint64_t seed) { return fnv(fam.name, strlen(fam.name), fnv(fam.prop, strlen(fam.prop), seed * 1000003ull + 17)) ^ (uint64_t(i) * 0x9E3779B97F4A7C15ull); }

// ---------------------------------------------------------------- C36: every workload again and again, watching what it leaves behind
// What is kept, by the places it was allocated at (for --verbose).
extern "C" { int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak)); size_t __asan_get_alloc_stack(void*, void**, size_t, int*) __attribute__((weak)); void __sanitizer_symbolize_pc(void*, const char*, char*, size_t) __attribute__((weak)); }
static bool g_tracking = false; enum { TRACKED = 1 << 20 }; static const volatile void* g_live[TRACKED];
static void onMalloc(const volatile void* p, size_t) { if (!g_tracking) return; for (size_t i = (size_t(p) >> 4) % TRACKED, k = 0; k < 64; ++k, i = (i + 1) % TRACKED) if (!g_live[i]) { g_live[i] = p; return; } }
static void onFree(const volatile void* p) { if (!g_tracking) return; for (size_t i = (size_t(p) >> 4) % TRACKED, k = 0; k < 64; ++k, i = (i + 1) % TRACKED) if (g_live[i] == p) { g_live[i] = 0; return; } }
static void showKept(const std::function<bool()>& op, int n)
{
	if (!__sanitizer_install_malloc_and_free_hooks || !__asan_get_alloc_stack) return; __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); g_tracking = true; for (int i = 0; i < n; ++i) op(); spinN(3); g_tracking = false;
	std::map<std::string, int> by; for (int i = 0; i < TRACKED; ++i) if (g_live[i]) { void* t[24]; int tid; size_t k = __asan_get_alloc_stack((void*)g_live[i], t, 24, &tid); std::string s; for (size_t j = 1; j < k; ++j) { char b[400]; __sanitizer_symbolize_pc(t[j], "%f %s:%l", b, sizeof b); s += "    "; s += b; s += "\n"; } ++by[s]; }
	for (auto& x : by) fprintf(stderr, "kept %d times in %d repetitions:\n%s", x.second, n, x.first.c_str());
}
// Runs op again and again; what it acquires it has to give back, so that the heap and the open files stop growing. The windows
// double, so that whatever grows with the number of repetitions grows in each of them, even if it does so in leaps.
bool steady(Ctx& c, const BA& key, const std::function<bool()>& op, int warm)
{
	QElapsedTimer t; t.start(); for (int i = 0; i < warm; ++i) if (!op()) { c.count("inconclusive"); return false; } // other checks judge that
	qint64 ms = t.elapsed() / warm; if (ms > 150) { c.count("too_long"); return false; } int n = ms > 60 ? 3 : ms > 15 ? 6 : 12, done = warm; qint64 kept = 0; int heapGrown = 1, fdGrown = 1, windows = 0, measured = 0;
	for (int i = 0; i < n; ++i, ++done) if (!op()) { c.count("inconclusive"); return false; }
	auto heap = []() { qint64 m = heapBytes(); for (int i = 0; i < 6; ++i) { usleep(1500); spin(); m = qMin(m, heapBytes()); } return m; }; // other threads may be about to release something
	for (; windows < 5 && (heapGrown || fdGrown); ++windows, n *= 2)
	{
		qint64 h = heap(); int f = openFds(); for (int i = 0; i < n; ++i, ++done) if (!op()) { c.count("inconclusive"); return false; }
		h = heap() - h; f = openFds() - f; if (h < n * 4) heapGrown = 0; if (f < (n + 1) / 2) fdGrown = 0; kept += h; measured += n;
	}
	if (kept < measured * 8) heapGrown = 0;
	if (heapGrown && g_verbose) showKept(op, 40);
	if (heapGrown) c.stall("memory-kept:" + key, num(kept / measured) + " bytes of heap are kept each time, over " + num(windows) + " rounds of " + num(measured) + " repetitions in all");
	if (fdGrown) c.stall("descriptors-kept:" + key, "file descriptors are kept each time, over " + num(measured) + " repetitions");
	c.count("repetitions", done); c.count("workloads"); return true;
}
static const Family* g_repeated = 0; static std::vector<Family> g_repeatOf;
static void repeatCase(Ctx& c)
{
	const Family fam = *g_repeated; const int index = c.rng.below(qMax(1, fam.quick)); bool failed = false; c.note = BA(fam.prop) + " " + fam.name + ":" + num(index) + " again and again"; c.sample(c.note);
	auto round = [&]() { alarm(90 * c.slow); Ctx x = { fam.prop, fam.name, index, c.seed, false, Rng(caseSeed(fam, index, c.seed)), 0, false, c.slow, BA() }; x.rng.next(); g_case = index; g_quiet = true; fam.fn(x); spin(); g_quiet = false; if (x.violations) failed = true; };
	if (steady(c, BA(fam.prop) + ":" + fam.name, [&]() { round(); return !failed; })) c.distinct(fnv(c.note));
}
static void addRepeats(int quick, int thorough)
{
	std::vector<Family> all = families(); for (size_t i = 0; i < all.size(); ++i) { BA n = all[i].name; if (BA(all[i].prop) == "C36" || n == "deep" || n == "memory" || n == "stress" || n == "every_cut" || n == "idle" || n == "independent" || n == "unread") continue; BA* name = new BA(BA("repeat_") + all[i].prop + "_" + all[i].name); Family f = { "C36", name->constData(), repeatCase, qMin(quick, all[i].quick), qMin(thorough, all[i].quick * 4) }; families().push_back(f); g_repeatOf.push_back(all[i]); }
}

int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN);
	BA prop, tier = "quick", out, only, scratch; uint64_t seed = 1; int shard = 0, shards = 1; int start = -1; int slow = 1; double scale = 1; BA cur; double budget = 1e9;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		BA k = argv[i], v = argv[i + 1];
		if (k == "--prop") prop = v; else if (k == "--tier") tier = v; else if (k == "--seed") seed = v.toULongLong(); else if (k == "--shard") shard = v.toInt(); else if (k == "--shards") shards = v.toInt();
		else if (k == "--start") start = v.toInt(); else if (k == "--only") only = v; else if (k == "--slow") slow = v.toInt(); else if (k == "--out") out = v; else if (k == "--scratch") scratch = v; else if (k == "--cur") cur = v; else if (k == "--verbose") g_verbose = v.toInt(); else if (k == "--scale") scale = v.toDouble(); else if (k == "--budget") budget = v.toDouble();
	}
	if (!out.isEmpty()) g_outFd = open(out.constData(), O_CREAT | O_WRONLY | O_APPEND, 0644);
	if (!cur.isEmpty()) g_curFd = open(cur.constData(), O_CREAT | O_WRONLY, 0644);
	g_scratch = scratch;
	int qargc = 1; char* qargv[] = { argv[0], 0 };
	QCoreApplication app(qargc, qargv);
	qInstallMessageHandler(msgHandler);
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PILLOW_ALARM_KILLS 1 // it delivers signals only where the program calls into it, which a busy loop never does
#endif
#endif
#ifndef PILLOW_ALARM_KILLS
	signal(SIGALRM, onAlarm);
#endif
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(deathCallback);
	const size_t own = families().size(); if (prop == "C36") addRepeats(16, 250);
	QElapsedTimer total; total.start(); bool late = false;
	int g = 0;
	for (size_t f = 0; f < families().size(); ++f)
	{
		const Family& fam = families()[f];
		if (prop != fam.prop) continue;
		int n = int((tier == "thorough" ? fam.thorough : fam.quick) * scale); if (n < 1) n = 1;
		if (!only.isEmpty()) { BA fname = only.left(only.indexOf(':')); if (fname != fam.name) continue; n = qMax(n, only.mid(only.indexOf(':') + 1).toInt() + 1); }
		for (int i = 0; i < n; ++i, ++g)
		{
			if (!only.isEmpty()) { if (i != only.mid(only.indexOf(':') + 1).toInt()) continue; }
			else if (g % shards != shard || g <= start) continue;
			Ctx c = { fam.prop, fam.name, i, seed, tier == "thorough", Rng(caseSeed(fam, i, seed)), 0, g_verbose, slow, BA() };
			c.rng.next();
			if (g_curFd >= 0) { char b[96]; int m = snprintf(b, sizeof b, "%d %s %d\n", g, fam.name, i); memset(b + m, ' ', sizeof b - m); ssize_t r = pwrite(g_curFd, b, sizeof b, 0); (void)r; }
			if (!late && total.elapsed() > budget * 1000) late = true;
			if (late) { g_counts["cases_skipped_out_of_time"] += 1; continue; }
			g_ctx = &c; g_case = i; if (prop == "C36") { g_repeated = &g_repeatOf[f - own]; }
			alarm(90 * slow);
			fam.fn(c);
			spin();
			if (!sharedNullIntact()) { c.fail("shared-null-corrupted", "the global QByteArray null data was modified"); QArrayData* sn = const_cast<QArrayData*>(&QArrayData::shared_null[0]); sn->size = 0; }
			alarm(0);
			++g_cases;
			if (g_viol >= 4 || g_stalls >= 2) goto done;
		}
	}
done:
	g_flushed = true;
	flushStats();
	emitLine("{\"t\":\"end\"}");
	if (g_verbose) fprintf(stderr, "cases=%d violations=%d stalls=%d\n", g_cases, g_viol, g_stalls);
	_exit(0);
}

// ---------------------------------------------------------------- request generation
static const char* TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";
BA genToken(Rng& r, int n) { return r.str(TOKEN, n); }
static const char HEX[] = "0123456789abcdefABCDEF";
BA genPathChars(Rng& r, int n, bool escapes)
{
	static const char* SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789$-_.!*'(),:@&=+\"<>";
	BA p;
	while (p.size() < n)
	{
		int k = r.below(20);
		if (escapes && k == 0) { p += '%'; p += HEX[r.below(22)]; p += HEX[r.below(22)]; }
		else if (k == 1) p += char(r.range(128, 255));
		else if (k == 2) p += BA("~|{}[]^`\\").at(r.below(9));
		else p += SAFE[r.below(int(strlen(SAFE)))];
	}
	return p;
}
Req genRequest(Rng& r, const GenOpts& o)
{
	Req q;
	if (o.simple) { q.method = "GET"; }
	else switch (r.below(8)) { case 0: q.method = "POST"; break; case 1: q.method = "PUT"; break; case 2: q.method = "DELETE"; break; case 3: q.method = "HEAD"; break; case 4: q.method = r.str("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789$-_.", r.range(1, 20)); break; default: q.method = "GET"; }
	// URI
	int kind = o.simple ? 0 : r.below(12);
	int pl = r.chance(6) ? r.size(6000) : r.below(30);
	if (kind == 0) q.uri = q.path = "/";
	else if (kind == 1 && !o.simple) { q.uri = "*"; }
	else if (kind == 2 && !o.simple) { q.uri = "http:" + genPathChars(r, r.below(40)).replace(';', 'x'); q.uri.replace('[', 'x'); }
	else
	{
		q.path = "/"; int segs = r.range(1, 4);
		for (int i = 0; i < segs; ++i) { if (i) q.path += "/"; q.path += genPathChars(r, qMax(1, pl / segs)); }
		if (r.chance(10)) q.path += "/";
		if (r.chance(10)) q.path += ";" + genPathChars(r, r.below(10));
		q.uri = q.path;
		if (r.chance(50)) { q.query = genPathChars(r, r.chance(8) ? r.size(5000) : r.below(40)); if (r.chance(30)) q.query += "/?;"; q.uri = q.path + "?" + q.query; }
	}
	if (!o.simple && r.chance(15)) q.fragment = genPathChars(r, r.range(1, 30));
	switch (r.below(10)) { case 0: q.version = "HTTP/1.0"; break; case 1: if (r.chance(30)) { q.version = "HTTP/" + num(r.below(20)) + "." + num(r.below(200)); break; } default: q.version = "HTTP/1.1"; }
	// Headers
	int nh = o.simple ? r.below(3) : (r.chance(8) ? r.below(60) : r.below(o.maxHeaders + 1));
	int budget = 28000 - q.uri.size() - q.fragment.size();
	for (int i = 0; i < nh && budget > 0; ++i)
	{
		BA n, v;
		if (!q.headers.empty() && r.chance(20)) { n = q.headers[r.below(int(q.headers.size()))].first; if (r.chance(50)) n = n.toUpper(); }
		else switch (r.below(5)) { case 0: n = "Host"; break; case 1: n = "X-" + r.str("abcdefghijklmnopqrstuvwxyz", r.range(1, 10)); break; case 2: n = "Cookie"; break; default: n = genToken(r, r.range(1, 24)); }
		BA ln = lower(n);
		if (ln == "content-length" || ln == "connection" || ln == "expect" || ln == "transfer-encoding" || ln == "upgrade") n = "X" + n;
		int vl = r.chance(5) ? r.size(qMin(9000, budget)) : r.below(40);
		for (int k = 0; k < vl; ++k) { unsigned char ch; switch (r.below(6)) { case 0: ch = r.range(128, 255); break; case 1: ch = "\t :;,=%\"'"[r.below(9)]; break; default: ch = r.range(33, 126); } v += char(ch); }
		while (!v.isEmpty() && v.at(0) == ' ') v.remove(0, 1);
		q.add(n, v); q.spaces.push_back(v.isEmpty() ? (r.chance(50) ? 0 : 1) : (r.chance(80) ? 1 : r.below(4)));
		budget -= n.size() + v.size() + 8;
	}
	// Body
	if (o.maxBody > 0 && r.chance(o.simple ? 20 : 45))
	{
		q.content = r.chance(70) ? r.bytes(r.size(o.maxBody)) : r.str("GET / HTTP/1.1\r\n\r\n: ", r.size(o.maxBody));
		q.hasLength = true;
	}
	else if (r.chance(10)) q.hasLength = true;
	if (q.hasLength) { int at = r.below(int(q.headers.size()) + 1); while (int(q.spaces.size()) < int(q.headers.size())) q.spaces.push_back(1);
		static const char* cl[] = {"Content-Length", "content-length", "CONTENT-LENGTH", "Content-length", "cOnTeNt-LeNgTh"};
		q.headers.insert(q.headers.begin() + at, std::make_pair(BA(cl[r.below(5)]), num(q.content.size()))); q.spaces.insert(q.spaces.begin() + at, 1); }
	return q;
}
std::vector<BA> split(Rng& r, const BA& b, const std::vector<int>& interesting)
{
	std::vector<BA> out; int mode = r.below(7);
	if (b.size() <= 1 || mode == 0) { out.push_back(b); return out; }
	if (mode == 1 && b.size() <= 3000) { for (int i = 0; i < b.size(); ++i) out.push_back(b.mid(i, 1)); return out; }
	std::set<int> cuts;
	if (mode == 2) { cuts.insert(1 + r.below(b.size() - 1)); }
	else if (mode <= 4) { int n = r.range(1, 8); while (n--) cuts.insert(1 + r.below(b.size() - 1)); }
	else if (mode == 5) { int mx = r.range(1, qMax(2, b.size() / 4)); int p = 0; int guard = 0; while (p < b.size() && ++guard < 3000) { p += 1 + r.below(mx); if (p < b.size()) cuts.insert(p); } }
	// near CRLFs and given offsets
	if (mode >= 3) { int n = r.below(4); for (int i = 0; i < n; ++i) { int at = b.indexOf("\r\n", r.below(b.size())); if (at >= 0) { at += r.below(5) - 1; if (at > 0 && at < b.size()) cuts.insert(at); } } }
	if (mode >= 2 && !interesting.empty()) { int n = r.range(1, 3); while (n--) { int at = interesting[r.below(int(interesting.size()))] + r.below(3) - 1; if (at > 0 && at < b.size()) cuts.insert(at); } }
	int p = 0; for (int cpos : cuts) { out.push_back(b.mid(p, cpos - p)); p = cpos; }
	out.push_back(b.mid(p));
	return out;
}
BA describe(const std::vector<BA>& pieces) { BA s = num(pieces.size()) + " pieces:"; for (size_t i = 0; i < pieces.size() && i < 12; ++i) s += " " + num(pieces[i].size()); if (pieces.size() > 12) s += " ..."; return s; }

// ---------------------------------------------------------------- response parser
static int findCrlf(const BA& d, int pos) { return d.indexOf("\r\n", pos); }
BA parseResponse(const BA& d, int pos, bool head, bool closed, Resp& r)
{
	r = Resp();
	int e = findCrlf(d, pos);
	if (e < 0) { if (closed && pos < d.size()) return "stream ends inside a status line: " + show(d.mid(pos, 80)); return BA(); }
	r.statusLine = d.mid(pos, e - pos);
	const BA& s = r.statusLine;
	if (!s.startsWith("HTTP/") || s.indexOf(' ') < 0) return "malformed status line: " + show(s, 120);
	r.version = s.left(s.indexOf(' '));
	BA rest = s.mid(s.indexOf(' ') + 1);
	if (rest.size() < 3 || !isdigit((unsigned char)rest.at(0)) || !isdigit((unsigned char)rest.at(1)) || !isdigit((unsigned char)rest.at(2)) || (rest.size() > 3 && rest.at(3) != ' ')) return "malformed status code: " + show(s, 120);
	r.status = rest.left(3).toInt(); r.reason = rest.mid(4);
	int p = e + 2;
	for (;;)
	{
		int q = findCrlf(d, p);
		if (q < 0) { if (closed) return "stream ends inside a response head"; return BA(); }
		if (q == p) { p += 2; break; }
		BA l = d.mid(p, q - p); int col = l.indexOf(':');
		if (col <= 0) return "malformed header line: " + show(l, 120);
		BA n = l.left(col), v = l.mid(col + 1);
		for (int i = 0; i < n.size(); ++i) { unsigned char ch = n.at(i); if (ch <= 32 || ch == 127) return "malformed header name: " + show(l, 120); }
		if (v.contains('\n') || v.contains('\r')) return "bare line break in header: " + show(l, 160);
		while (!v.isEmpty() && v.at(0) == ' ') v.remove(0, 1);
		r.headers.push_back(std::make_pair(n, v));
		p = q + 2;
	}
	r.headEnd = p;
	if (r.status / 100 == 1) { r.interim = true; r.complete = true; r.end = p; return BA(); }
	int ncl = r.countOf("content-length");
	bool te = lower(r.value("transfer-encoding")) == "chunked";
	if (ncl > 1) return "several Content-Length headers";
	if (te && ncl) return "both Transfer-Encoding and Content-Length";
	if (r.countOf("transfer-encoding") > 1) return "several Transfer-Encoding headers";
	qint64 len = -1;
	if (ncl) { BA v = r.value("content-length"); bool ok; len = v.toLongLong(&ok); if (!ok || len < 0 || v != num(len)) return "bad Content-Length: " + show(v, 60); }
	if (head || r.status == 304 || r.status == 204)
	{
		r.complete = true; r.end = p;
		return BA();
	}
	if (te)
	{
		r.chunked = true;
		for (;;)
		{
			int q = findCrlf(d, p);
			if (q < 0) { if (closed) { r.end = d.size(); } return BA(); }
			BA l = d.mid(p, q - p); int sc = l.indexOf(';'); if (sc >= 0) l = l.left(sc);
			bool ok; qint64 n = l.toLongLong(&ok, 16);
			if (!ok || n < 0 || l.isEmpty()) return "malformed chunk size: " + show(l, 60);
			p = q + 2;
			if (n == 0)
			{
				for (;;) { int t = findCrlf(d, p); if (t < 0) return BA(); if (t == p) { p += 2; break; } r.trailers += d.mid(p, t + 2 - p); p = t + 2; }
				r.complete = true; r.end = p; return BA();
			}
			if (d.size() < p + n) { r.content += d.mid(p); r.end = d.size(); return BA(); }
			r.content += d.mid(p, int(n)); p += int(n);
			if (d.size() < p + 2) { r.end = d.size(); if (p < d.size() && d.at(p) != '\r') return "missing CRLF after chunk"; return BA(); }
			if (d.at(p) != '\r' || d.at(p + 1) != '\n') return "missing CRLF after chunk";
			p += 2;
		}
	}
	if (len >= 0)
	{
		if (d.size() - p >= len) { r.content = d.mid(p, int(len)); r.complete = true; r.end = p + int(len); }
		else { r.content = d.mid(p); r.end = d.size(); }
		return BA();
	}
	r.untilClose = true; r.content = d.mid(p); r.end = d.size(); r.complete = closed;
	return BA();
}
BA parseStream(const BA& data, const std::vector<BA>& methods, bool closed, std::vector<Resp>& out)
{
	int pos = 0; size_t m = 0;
	while (pos < data.size())
	{
		Resp r; BA e = parseResponse(data, pos, m < methods.size() && methods[m] == "HEAD", closed, r);
		if (!e.isEmpty()) return "response " + num(out.size()) + ": " + e;
		if (r.headEnd == 0) { out.push_back(r); return BA(); }
		out.push_back(r);
		if (!r.complete) return BA();
		if (!r.interim) ++m;
		pos = r.end;
	}
	return BA();
}

// ---------------------------------------------------------------- POSIX peers
bool Peer::connectTcp(quint16 port, int rcvbuf)
{
	int f = ::socket(AF_INET, SOCK_STREAM, 0); if (f < 0) return false;
	if (rcvbuf) setsockopt(f, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
	struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (::connect(f, (struct sockaddr*)&a, sizeof a) != 0) { ::close(f); return false; }
	adopt(f); return true;
}
bool Peer::connectLocal(const QString& path, int rcvbuf)
{
	int f = ::socket(AF_UNIX, SOCK_STREAM, 0); if (f < 0) return false;
	if (rcvbuf) setsockopt(f, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
	struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; BA p = path.toLocal8Bit(); if (p.size() >= int(sizeof a.sun_path)) { ::close(f); return false; } memcpy(a.sun_path, p.constData(), p.size());
	if (::connect(f, (struct sockaddr*)&a, sizeof a) != 0) { ::close(f); return false; }
	adopt(f); return true;
}
void Peer::poll()
{
	if (fd < 0) return;
	while (!out.isEmpty()) { ssize_t n = ::send(fd, out.constData(), out.size(), MSG_NOSIGNAL); if (n > 0) out.remove(0, int(n)); else { if (n < 0 && errno != EAGAIN && errno != EINTR) { err = true; if (errno == ECONNRESET || errno == EPIPE) rst = true; } if (err) out.clear(); break; } }
	qint64 room = readLimit >= 0 ? readLimit - in.size() : (qint64)1 << 40; int budget = 64;
	while (reading && !eof && room > 0 && budget-- > 0)
	{
		char buf[65536]; ssize_t n = ::recv(fd, buf, size_t(qMin<qint64>(qMin<qint64>(sizeof buf, chunk), room)), 0);
		if (n > 0) { in.append(buf, int(n)); room -= n; if (chunk < 65536) break; }
		else if (n == 0) { eof = true; break; }
		else { if (errno != EAGAIN && errno != EINTR) { err = true; eof = true; if (errno == ECONNRESET) rst = true; } break; }
	}
}
Listener::Listener(const BA& onHost, quint16 onPort) : fd(::socket(AF_INET, SOCK_STREAM, 0)), port(0)
{
	// Each listener has a loopback address of its own, so that late connections of another case or process cannot reach it.
	static unsigned serial = 0; ++serial; unsigned ip = 0x7f000000u | ((2u + unsigned(getpid()) % 250u) << 16) | ((serial / 250u % 250u + 1u) << 8) | (serial % 250u + 2u);
	struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(ip); if (!onHost.isEmpty()) inet_pton(AF_INET, onHost.constData(), &a.sin_addr); a.sin_port = htons(onPort); host = inet_ntoa(a.sin_addr);
	::bind(fd, (struct sockaddr*)&a, sizeof a); ::listen(fd, 512); socklen_t l = sizeof a; ::getsockname(fd, (struct sockaddr*)&a, &l); port = ntohs(a.sin_port);
	int fl = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, fl | O_NONBLOCK);
}
Listener::~Listener() { if (fd >= 0) ::close(fd); }
int Listener::accept() { return ::accept(fd, 0, 0); }
int openFds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
