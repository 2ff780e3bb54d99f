// Common harness: seeded cases, reporting, scripted devices, reference HTTP models, POSIX peers.
#ifndef H_H
#define H_H
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cctype>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "HttpConnection.h"
#include "HttpServer.h"
#include "HttpHandler.h"
#include "HttpHelpers.h"

typedef QByteArray BA;
typedef Pillow::HttpConnection Conn;
typedef Pillow::HttpHeaderCollection Headers;
typedef Pillow::HttpHeader Header;

// ---------------------------------------------------------------- utility
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
inline uint64_t fnv(const BA& b, uint64_t h = 1469598103934665603ull) { return fnv(b.constData(), b.size(), h); }
inline BA deep(const BA& b) { return BA(b.constData(), b.size()); }
inline BA num(qint64 n) { return BA::number(n); }
inline BA lower(const BA& b) { BA r = deep(b); for (int i = 0; i < r.size(); ++i) if (r.constData()[i] >= 'A' && r.constData()[i] <= 'Z') r.data()[i] = r.constData()[i] + 32; return r; }
// Printable, bounded rendering of arbitrary bytes for reports.
inline BA show(const BA& b, int max = 300)
{
	BA r; int n = qMin(b.size(), max);
	for (int i = 0; i < n; ++i) { unsigned char c = b.constData()[i]; if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\x%02x", c); r += t; } else r += char(c); }
	if (b.size() > max) r += "...(" + num(b.size()) + " bytes)";
	return r;
}
inline BA jstr(const BA& b)
{
	BA r = "\"";
	for (int i = 0; i < b.size(); ++i) { unsigned char c = b.constData()[i]; if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; } else r += char(c); }
	return r + "\"";
}
inline int firstDiff(const BA& a, const BA& b) { int n = qMin(a.size(), b.size()); for (int i = 0; i < n; ++i) if (a.constData()[i] != b.constData()[i]) return i; return a.size() == b.size() ? -1 : n; }
inline BA diffText(const BA& want, const BA& got)
{
	int d = firstDiff(want, got); int s = qMax(0, d - 40);
	return "first difference at byte " + num(d) + " (expected " + num(want.size()) + " bytes, got " + num(got.size()) + "): expected ..." + show(want.mid(s, 120)) + " got ..." + show(got.mid(s, 120));
}

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
	int range(int a, int b) { return a + below(b - a + 1); } // inclusive
	bool chance(int pct) { return below(100) < pct; }
	template <typename T> const T& pick(const std::vector<T>& v) { return v[below(int(v.size()))]; }
	char ch(const char* set) { return set[below(int(strlen(set)))]; }
	BA bytes(int n) { BA r(n, 0); for (int i = 0; i < n; ++i) r.data()[i] = char(next()); return r; }
	BA str(const char* set, int n) { BA r; r.reserve(n); for (int i = 0; i < n; ++i) r.append(ch(set)); return r; }
	// A size with emphasis on boundaries.
	int size(int max) { switch (below(6)) { case 0: return qMin(max, below(3)); case 1: return qMin(max, below(40)); case 2: return qMin(max, below(600)); case 3: { static const int b[] = {511,512,513,1023,1024,1025,4095,4096,4097,8191,8192,8193,16383,16384,16385,32767,32768,32769,65535,65536,65537}; return qMin(max, b[below(21)]); } default: return below(max + 1); } }
};

// ---------------------------------------------------------------- reporting
struct Ctx
{
	const char* prop; const char* family; int index; uint64_t seed; bool thorough; Rng rng;
	int violations; bool verbose; int slow; // slow: multiplier for waits (re-run of a stalled case)
	BA note;   // description of the current case, attached to any report
	void fail(const BA& key, const BA& detail);   // property violated
	void stall(const BA& key, const BA& detail);  // expected progress did not happen in time; confirmed by a re-run
	void count(const char* name, qint64 n = 1);
	void distinct(uint64_t h);                    // signature of a non-trivial case
	void sample(const BA& s);
	bool ok() const { return violations == 0; }
};
#define CHECK(ctx, cond, key, detail) do { if (!(cond)) { (ctx).fail(key, detail); } } while (0)

typedef void (*CaseFn)(Ctx&);
struct Family { const char* prop; const char* name; CaseFn fn; int quick; int thorough; };
std::vector<Family>& families();
struct FamilyReg { FamilyReg(const char* p, const char* n, CaseFn f, int q, int t) { Family x = {p, n, f, q, t}; families().push_back(x); } };
#define FAMILY(prop, name, quick, thorough) \
	static void fam_##prop##_##name(Ctx& c); static FamilyReg reg_##prop##_##name(#prop, #name, fam_##prop##_##name, quick, thorough); \
	static void fam_##prop##_##name(Ctx& c)

extern int g_qtWarnings;
void setCaseAlarm(int seconds);
int caseIndex();        // of the case that is running
QString scratchDir();   // private directory of this process, removed by the driver

// ---------------------------------------------------------------- event pumping
// Inside an event loop run by a slot, what the slot asked to be deleted later stays.
struct NestedLoop { static int& depth() { static int n = 0; return n; } NestedLoop() { ++depth(); } ~NestedLoop() { --depth(); } };
inline void spin() { QCoreApplication::processEvents(); if (!NestedLoop::depth()) QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); }
inline void spinN(int n) { while (n-- > 0) spin(); }
// Pump events (and the given poller) until cond, or until ms of *idle or busy* wall time passed. Returns cond.
bool waitFor(Ctx& c, const std::function<bool()>& cond, const std::function<void()>& poller = std::function<void()>(), int ms = 8000);

// ---------------------------------------------------------------- scripted device
// A sequential in-memory device: the harness feeds input in chosen pieces and observes every output byte, with a controllable output backlog.
class SimDevice : public QIODevice
{
public:
	BA rx;            // bytes available to read
	BA tx;            // every byte ever written, in order
	qint64 backlog;   // written but not "on the wire"
	bool autoDrain;   // whether writes leave immediately
	int closes;
	std::vector<std::pair<int,int> > txMarks;
	SimDevice(bool autoDrain_ = true) : backlog(0), autoDrain(autoDrain_), closes(0) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { return rx.size() + QIODevice::bytesAvailable(); }
	qint64 bytesToWrite() const { return backlog; }
	void feed(const BA& b) { rx.append(b); if (isOpen()) emit readyRead(); }
	void drain(qint64 n) { if (n > backlog) n = backlog; backlog -= n; if (n > 0) emit bytesWritten(n); }
	void close() { ++closes; QIODevice::close(); }
protected:
	qint64 readData(char* d, qint64 n) { if (rx.isEmpty()) return 0; n = qMin<qint64>(n, rx.size()); memcpy(d, rx.constData(), n); rx.remove(0, int(n)); return n; }
	qint64 writeData(const char* d, qint64 n) { tx.append(d, int(n)); if (!autoDrain) backlog += n; return n; }
};

// ---------------------------------------------------------------- request model
struct Req
{
	BA method, uri, path, query, fragment, version, content;
	std::vector<std::pair<BA,BA> > headers;
	std::vector<int> spaces; // spaces after each header colon
	bool hasLength;
	Req() : version("HTTP/1.1"), hasLength(false) {}
	BA head() const
	{
		BA r = method + " " + uri + (fragment.isEmpty() ? BA() : "#" + fragment) + " " + version + "\r\n";
		for (size_t i = 0; i < headers.size(); ++i) { r += headers[i].first + ":" + BA(i < spaces.size() ? spaces[i] : 1, ' ') + headers[i].second + "\r\n"; }
		return r + "\r\n";
	}
	BA wire() const { return head() + content; }
	void add(const BA& n, const BA& v) { headers.push_back(std::make_pair(n, v)); }
	BA value(const BA& n) const { for (size_t i = 0; i < headers.size(); ++i) if (lower(headers[i].first) == lower(n)) return headers[i].second; return BA(); }
	bool has(const BA& n) const { for (size_t i = 0; i < headers.size(); ++i) if (lower(headers[i].first) == lower(n)) return true; return false; }
};
// What an application saw of a request (deep copies).
struct Seen { BA method, uri, path, query, fragment, version, content; std::vector<std::pair<BA,BA> > headers; };
inline Seen seeRequest(Conn* c)
{
	Seen s; s.method = deep(c->requestMethod()); s.uri = deep(c->requestUri()); s.path = deep(c->requestPath()); s.query = deep(c->requestQueryString()); s.fragment = deep(c->requestFragment());
	s.version = deep(c->requestHttpVersion()); s.content = deep(c->requestContent());
	const Headers& h = c->requestHeaders(); for (int i = 0; i < h.size(); ++i) s.headers.push_back(std::make_pair(deep(h.at(i).first), deep(h.at(i).second)));
	return s;
}
// Empty if equal, otherwise the name of the field and the difference.
inline BA diffSeen(const Req& r, const Seen& s)
{
	#define DS(f) if (r.f != s.f) return BA(#f) + ": " + diffText(r.f, s.f);
	DS(method) DS(uri) DS(path) DS(query) DS(fragment) DS(version)
	if (r.headers.size() != s.headers.size()) return "headers: expected " + num(r.headers.size()) + ", got " + num(s.headers.size());
	for (size_t i = 0; i < r.headers.size(); ++i) { if (r.headers[i].first != s.headers[i].first) return "header name " + num(i) + ": " + diffText(r.headers[i].first, s.headers[i].first); if (r.headers[i].second != s.headers[i].second) return "header value " + num(i) + " (" + show(r.headers[i].first, 60) + "): " + diffText(r.headers[i].second, s.headers[i].second); }
	DS(content)
	#undef DS
	return BA();
}
// Random well-formed requests.
struct GenOpts { int maxBody; int maxHeaders; bool simple; bool connectionHeader; GenOpts() : maxBody(3000), maxHeaders(12), simple(false), connectionHeader(false) {} };
Req genRequest(Rng& r, const GenOpts& o = GenOpts());
BA genToken(Rng& r, int n);
BA genPathChars(Rng& r, int n, bool escapes = true);
// Split into pieces; pattern chosen by the rng (single, bytewise, random, around boundaries).
std::vector<BA> split(Rng& r, const BA& b, const std::vector<int>& interesting = std::vector<int>());
BA describe(const std::vector<BA>& pieces);

// ---------------------------------------------------------------- response model (independent strict parser)
struct Resp
{
	BA version, statusLine; int status; BA reason; std::vector<std::pair<BA,BA> > headers; BA content; bool chunked; bool untilClose; bool complete; bool interim; int end; int headEnd;
	BA trailers;
	Resp() : status(0), chunked(false), untilClose(false), complete(false), interim(false), end(0), headEnd(0) {}
	BA value(const BA& n) const { for (size_t i = 0; i < headers.size(); ++i) if (lower(headers[i].first) == lower(n)) return headers[i].second; return BA(); }
	int countOf(const BA& n) const { int k = 0; for (size_t i = 0; i < headers.size(); ++i) if (lower(headers[i].first) == lower(n)) ++k; return k; }
};
// Parse the response starting at pos. `head`: answer to HEAD. `closed`: the stream ended after the data. Returns error text, or empty (then r.complete tells whether all of it is there).
BA parseResponse(const BA& data, int pos, bool head, bool closed, Resp& r);
// Parse a whole stream of responses to the given methods; interim responses are collected in place.
BA parseStream(const BA& data, const std::vector<BA>& methods, bool closed, std::vector<Resp>& out);

// ---------------------------------------------------------------- POSIX peers (non blocking)
struct Peer
{
	int fd; BA in; BA out; bool eof; bool err; bool rst; bool reading; qint64 readLimit; int chunk;
	Peer() : fd(-1), eof(false), err(false), rst(false), reading(true), readLimit(-1), chunk(65536) {}
	~Peer() { shut(); }
	bool connectTcp(quint16 port, int rcvbuf = 0);
	bool connectLocal(const QString& path, int rcvbuf = 0);
	void adopt(int f) { fd = f; int fl = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, fl | O_NONBLOCK); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
	void poll();  // move bytes both ways
	void send(const BA& b) { out += b; poll(); }
	void shut() { if (fd >= 0) { ::close(fd); fd = -1; } }
	void reset() { if (fd >= 0) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); fd = -1; } }
	void halfClose() { if (fd >= 0) ::shutdown(fd, SHUT_WR); }
private: Peer(const Peer&); Peer& operator=(const Peer&);
};
struct Listener
{
	int fd; quint16 port; BA host; explicit Listener(const BA& onHost = BA(), quint16 onPort = 0); ~Listener(); int accept(); // -1 if none
private: Listener(const Listener&);
};
int openFds();
bool steady(Ctx& c, const BA& key, const std::function<bool()>& op, int warm = 2); // false: nothing was learnt

// True if the library's edge counters show something new since the last call (coverage-guided families).
bool coverageGrew(); void coverageReset();
// Monitor: Qt's global shared-null data must never be written by the library.
bool sharedNullIntact();

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
inline qint64 heapBytes() { return __sanitizer_get_current_allocated_bytes ? qint64(__sanitizer_get_current_allocated_bytes()) : 0; }
#endif
