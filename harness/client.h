// Monitor and generators for the HTTP client checks.
#ifndef CLIENT_H
#define CLIENT_H
#include "h.h"
#include "session.h"
#include "upstream.h"
#include "HttpClient.h"
#include <zlib.h>
typedef Pillow::HttpClient Client;
typedef std::vector<std::pair<BA,BA> > Pairs;
inline Pairs pairsOf(const Headers& h) { Pairs p; for (int i = 0; i < h.size(); ++i) p.push_back(std::make_pair(deep(h.at(i).first), deep(h.at(i).second))); return p; }
inline Headers collection(const Pairs& p) { Headers h; for (auto& x : p) h << Header(x.first, x.second); return h; }
inline BA diffPairs(const Pairs& want, const Pairs& got)
{
	for (size_t i = 0; i < want.size() || i < got.size(); ++i) { if (i >= got.size()) return "header " + num(int(i)) + " missing: " + show(want[i].first) + ": " + show(want[i].second, 80); if (i >= want.size()) return "unexpected header " + show(got[i].first, 100) + ": " + show(got[i].second, 80); if (want[i] != got[i]) return "header " + num(int(i)) + ": expected " + show(want[i].first, 60) + ": " + show(want[i].second, 100) + ", got " + show(got[i].first, 60) + ": " + show(got[i].second, 100); }
	return BA();
}
inline BA gzipped(Rng& r, const BA& d)
{
	z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, r.range(0, 9), Z_DEFLATED, 16 + r.range(9, 15), r.range(1, 9), r.chance(60) ? Z_DEFAULT_STRATEGY : r.below(4));
	gz_header h; memset(&h, 0, sizeof h); BA name("file.txt"), comment("c"), extra("extra"); if (r.chance(30)) { h.name = (Bytef*)name.data(); if (r.chance(50)) h.comment = (Bytef*)comment.data(); if (r.chance(50)) { h.extra = (Bytef*)extra.data(); h.extra_len = 5; } h.hcrc = r.chance(50); deflateSetHeader(&z, &h); }
	BA o(int(deflateBound(&z, d.size())) + d.size() / 4 + 2000, 0); z.next_in = (Bytef*)d.constData(); z.avail_in = d.size(); z.next_out = (Bytef*)o.data(); z.avail_out = o.size(); if (r.chance(20) && d.size() > 10) { z.avail_in = d.size() / 2; deflate(&z, r.chance(50) ? Z_SYNC_FLUSH : Z_FULL_FLUSH); z.avail_in = d.size() - int(z.next_in - (Bytef*)d.constData()); } int e = deflate(&z, Z_FINISH); if (e != Z_STREAM_END) { fprintf(stderr, "gzipped: %d\n", e); abort(); } o.resize(int(z.total_out)); deflateEnd(&z); return o;
}
// Other formats of compressed data: zlib (window bits 9 to 15) and raw deflate (negative).
inline BA deflated(const BA& d, int windowBits)
{
	z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, Z_DEFAULT_COMPRESSION, Z_DEFLATED, windowBits, 8, Z_DEFAULT_STRATEGY); BA o(int(deflateBound(&z, d.size())) + d.size() / 4 + 2000, 0); z.next_in = (Bytef*)d.constData(); z.avail_in = d.size(); z.next_out = (Bytef*)o.data(); z.avail_out = o.size(); deflate(&z, Z_FINISH); o.truncate(int(z.total_out)); deflateEnd(&z); return o;
}
inline BA contentOf(Rng& r, int id, int n)
{
	switch (r.below(4)) { case 0: return bodyFor(id, n); case 1: return r.str("ab\r\n", n); case 2: return BA(n, r.chance(50) ? 'x' : '\0'); default: { BA b; while (b.size() < n) b += "line " + num(b.size()) + " of response " + num(id) + "\n"; return b.left(n); } }
}
inline BA fieldValue(Rng& r) { BA v; int k = r.below(10); if (k == 0) return v; if (k < 7) v = r.str("abcXYZ019 ,;=\"/()-_.:", r.range(1, 40)); else if (k == 7) v = r.str("ab\t \xc3\xa9\xff\x80", r.range(1, 20)); else if (k == 8) v = r.str("chunked close keep-alive gzip", r.range(1, 30)); else v = r.str("abcdefgh ", r.size(3000)); while (!v.isEmpty() && (v.endsWith(' ') || v.endsWith('\t'))) v.chop(1); while (!v.isEmpty() && (v.startsWith(' ') || v.startsWith('\t'))) v.remove(0, 1); return v; }
struct RespOpts { int maxBody; bool gzip, trailers, untilClose, interim, extra; RespOpts() : maxBody(4000), gzip(false), trailers(true), untilClose(true), interim(false), extra(true) {} };
// A well-formed response. s.headers holds every header as sent, in order; s.content what is on the wire before framing.
inline Script clientScript(Rng& r, bool head, int id, const RespOpts& o = RespOpts())
{
	Script s; static const int common[] = {200, 200, 200, 200, 201, 204, 206, 301, 302, 304, 400, 403, 404, 500, 503}; s.status = r.chance(80) ? common[r.below(15)] : r.range(200, 599);
	s.reason = r.chance(70) ? BA("OK then") : r.chance(50) ? BA() : r.str("abc XYZ'\xc3\xa9()", r.range(1, 60)); if (s.reason.trimmed().isEmpty()) s.reason.clear(); s.version = r.chance(85) ? "HTTP/1.1" : "HTTP/1.0"; s.head = head;
	s.content = r.chance(12) ? BA() : contentOf(r, id, r.chance(60) ? r.size(qMin(o.maxBody, 2000)) : r.size(o.maxBody));
	s.framing = r.chance(50) ? Script::LENGTH : r.chance(65) && s.version == "HTTP/1.1" ? Script::CHUNKED : o.untilClose ? Script::CLOSE : Script::LENGTH;
	static const char* names[] = {"Server", "X-Thing", "x-thing", "X-THING", "Cache-Control", "Vary", "ETag", "Date", "Content-Type", "Set-Cookie", "Content-Language", "C", "Co", "Connectio", "Connection-X", "Content-Lengt", "Content-Length-X", "Transfer-Encodin", "Transfer-Encoding-X", "Upgrad", "Proxy-Connectio", "Trailer"};
	int n = r.chance(5) ? r.range(30, 120) : r.below(9); Pairs hs; while (n--) { BA nm = r.chance(70) ? BA(names[r.below(22)]) : genToken(r, r.range(1, 30)); BA l = lower(nm); if (l == "connection" || l == "content-length" || l == "transfer-encoding" || l == "upgrade" || l == "proxy-connection" || l == "content-encoding" || l == "location") nm = "X-" + nm; hs.push_back(std::make_pair(nm, fieldValue(r))); }
	if (r.chance(5)) hs.push_back(std::make_pair(BA("Upgrade"), BA("h2,h2c")));
	// Names and values that are one edit away from those with a meaning have none.
	auto edited = [&](const BA& from) { BA b = from; int at = r.below(b.size()); switch (r.below(4)) { case 0: b[at] = r.ch("abcdefghijklmnopqrstuvwxyz-_X"); break; case 1: b.remove(at, 1); break; case 2: b.insert(at, r.ch("abcdefghijklmnopqrstuvwxyz-")); break; default: b = r.chance(50) ? b + b.right(r.range(1, b.size())) : b.left(qMax(1, at)); } return b == from || lower(b) == lower(from) ? from + "d" : b; };
	if (r.chance(30)) { static const char* sn[] = {"Connection", "Content-Length", "Transfer-Encoding", "Proxy-Connection", "Upgrade", "Content-Encoding"}; static const char* sv[] = {"close", "keep-alive", "chunked", "0", "5", "12345", "gzip"}; BA nm = edited(BA(sn[r.below(6)])), l = lower(nm); if (r.chance(30)) nm = l; if (l != "connection" && l != "content-length" && l != "transfer-encoding" && l != "upgrade" && l != "proxy-connection" && l != "content-encoding" && l != "location") hs.insert(hs.begin() + r.below(int(hs.size()) + 1), std::make_pair(nm, BA(sv[r.below(7)]))); }
	if (s.framing != Script::CLOSE && r.chance(8)) hs.insert(hs.begin() + r.below(int(hs.size()) + 1), std::make_pair(BA(r.chance(50) ? "Connection" : "connection"), edited(BA(r.chance(50) ? "close" : "keep-alive"))));
	hs.insert(hs.begin() + r.below(int(hs.size()) + 1), std::make_pair(BA("X-Resp"), num(id)));
	if (o.gzip && !head) { hs.insert(hs.begin() + r.below(int(hs.size()) + 1), std::make_pair(BA(r.chance(50) ? "Content-Encoding" : "content-encoding"), BA(r.chance(70) ? "gzip" : "GZIP"))); }
	if (s.status == 204 || s.status == 304) { s.framing = r.chance(50) || s.status == 204 ? Script::NONE : Script::LENGTH; if (s.framing == Script::NONE) s.content.clear(); }
	if (s.framing == Script::CLOSE && r.chance(50)) hs.push_back(std::make_pair(BA("Connection"), BA("close")));
	s.headers = hs; return s;
}
// Builds the wire text; afterwards s.headers lists all the headers sent.
inline void finishScript(Rng& r, Script& s, const RespOpts& o = RespOpts())
{
	if (s.framing == Script::CHUNKED && o.trailers && !s.noBody() && r.chance(25)) { int k = r.range(1, 3); while (k--) s.trailers += "X-Trailer-" + num(k) + ": " + r.str("abc", r.range(0, 10)) + "\r\n"; }
	s.build(r, true); Pairs all; int p = s.wire.indexOf("\r\n") + 2; while (p < s.headEnd - 2) { int e = s.wire.indexOf("\r\n", p); BA l = s.wire.mid(p, e - p); int c = l.indexOf(':'); all.push_back(std::make_pair(l.left(c), l.mid(c + 2))); p = e + 2; } s.headers = all;
	if (s.reason.isEmpty() && r.chance(50)) { int e = s.wire.indexOf("\r\n"); if (s.wire.at(e - 1) == ' ') { s.wire.remove(e - 1, 1); --s.headEnd; } }
}
inline bool keepsAlive(const Script& s) { BA c; for (auto& h : s.headers) if (lower(h.first) == "connection") c = lower(h.second); if (s.version == "HTTP/1.1") { if (c == "close") return false; } else if (c != "keep-alive") return false; return s.status == 204 || s.status == 304 || s.framing == Script::LENGTH || s.framing == Script::CHUNKED; }

// Online monitor of the client's signals.
struct Mon
{
	Ctx& c; Client* cl; bool open; int nHeaders, nContent, nFinished, started, total; int status, error; Pairs headers; BA content, consumed; bool consume; int sHeaders;
	std::function<void()> onHeaders, onContent, onFinished;
	Mon(Ctx& c_, Client* cl_) : c(c_), cl(cl_), open(false), nHeaders(0), nContent(0), nFinished(0), started(0), total(0), status(0), error(-1), consume(false), sHeaders(0)
	{
		QObject::connect(cl, &Client::headersCompleted, cl, [this]() { c.count("headersCompleted"); if (!open) c.fail("signal-without-request", "headersCompleted emitted without a pending request"); if (nHeaders++) c.fail("headers-twice", "headersCompleted emitted twice for one request"); sHeaders = cl->statusCode(); headers = pairsOf(cl->headers()); if (onHeaders) onHeaders(); });
		QObject::connect(cl, &Client::contentReadyRead, cl, [this]() { c.count("contentReadyRead"); if (!open) c.fail("signal-without-request", "contentReadyRead emitted without a pending request"); if (!nHeaders) c.fail("content-before-headers", "contentReadyRead emitted before headersCompleted"); ++nContent; if (consume) consumed += cl->consumeContent(); if (onContent) onContent(); });
		QObject::connect(cl, &Client::finished, cl, [this]() { c.count("finished"); ++nFinished; ++total; if (!open) c.fail("finished-twice", "finished emitted without a pending request (error " + num(cl->error()) + ")"); open = false; status = cl->statusCode(); error = cl->error(); content = consumed + deep(cl->content()); if (cl->responsePending()) c.fail("pending-when-finished", "responsePending() is true inside finished()"); if (onFinished) onFinished(); });
	}
	// To be called right before making a request on an idle client.
	void begin() { open = true; nHeaders = nContent = nFinished = 0; ++started; status = 0; error = -1; headers.clear(); content.clear(); consumed.clear(); sHeaders = 0; }
};
inline const char* errName(int e) { static const char* n[] = {"NoError", "NetworkError", "ResponseInvalidError", "RemoteHostClosedError", "AbortedError"}; return e < 0 || e > 4 ? "none" : n[e]; }
inline QUrl urlOf(const QString& base, const BA& pathQuery) { return QUrl::fromEncoded(base.toLatin1() + pathQuery, QUrl::TolerantMode); }
inline QTcpSocket* sockOf(Client* c) { return c->findChild<QTcpSocket*>(); }
inline BA cleanPath(Rng& r, int n) { BA p = "/"; while (p.size() < n) { int k = r.below(8); if (k < 6) p += r.ch("abcXYZ019-_~:@!$&'()*+,;="); else if (k == 6) { static const char* e[] = {"%20", "%2F", "%25", "%C3%A9", "%FF", "%00", "%3F", "%23"}; p += e[r.below(8)]; } else if (!p.endsWith('/')) p += '/'; } return p; }
inline BA cleanQuery(Rng& r, int n) { BA p; while (p.size() < n) { int k = r.below(8); if (k < 7) p += r.ch("abcXYZ019-._~:@!$'()*,;=&+/?"); else { static const char* e[] = {"%20", "%26", "%25", "%C3%A9", "%3D", "%2B", "%23"}; p += e[r.below(7)]; } } return p; }
inline void genHeaders(Rng& r, Pairs& hs, int id) { int n = r.chance(3) ? r.range(100, 400) : r.below(8); while (n--) { BA nm = genToken(r, r.range(1, 24)); BA l = lower(nm); if (l == "host" || l == "content-length" || l == "transfer-encoding" || l == "expect" || l == "connection") nm = "X-" + nm; hs.push_back(std::make_pair(nm, fieldValue(r))); } hs.insert(hs.begin() + r.below(int(hs.size()) + 1), std::make_pair(BA("X-Id"), num(id))); }
inline BA genMethod(Rng& r) { static const char* m[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "PROPFIND"}; return r.chance(90) ? BA(m[r.below(8)]) : r.str("ABCXYZ-_.", r.range(1, 12)).replace("HEAD", "X"); }
inline BA dataOf(Rng& r, int id) { return r.chance(45) ? BA() : r.chance(80) ? contentOf(r, id, r.size(9000)) : contentOf(r, id, r.size(400000)); }
struct Net
{
	Ctx& c; std::vector<std::unique_ptr<Upstream> > up; std::function<void()> extra;
	// mixed: servers may differ by their port only, or by their host only.
	explicit Net(Ctx& c_, int n = 1, bool mixed = false) : c(c_) { for (int i = 0; i < n; ++i) { int k = mixed && i ? c.rng.below(3) : 0; up.emplace_back(new Upstream(k == 1 ? up[0]->l.host : BA(), k == 2 ? up[0]->l.port : 0)); } }
	void poll() { for (auto& u : up) u->poll(); if (extra) extra(); }
	bool wait(const std::function<bool()>& f, int ms = 8000) { return waitFor(c, f, [this]() { poll(); }, ms); }
	void settle(int n = 4) { for (int i = 0; i < n; ++i) { spin(); poll(); } }
};
// Reference recogniser of a response, written from the HTTP/1.1 grammar; what servers and parsers may treat either way is left unspecified.
namespace rgram {
enum Verdict { VALID, INVALID, INCOMPLETE, UNSPECIFIED };
struct R { int status, minor, used, headEnd; Pairs hs; BA content; bool eof; R() : status(0), minor(0), used(0), headEnd(0), eof(false) {} };
inline bool dig(int ch) { return ch >= '0' && ch <= '9'; } inline bool tok(int ch) { return ch > 32 && ch < 127 && !strchr("()<>@,;:\\\"/[]?={} \t", ch); } inline bool bad(int ch) { return (ch < 32 && ch != '\t') || ch == 127; }
inline int hex(int ch) { return dig(ch) ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
// Header lines up to the empty one.
inline Verdict fields(const unsigned char* s, int n, int& p, Pairs& hs)
{
	for (;;)
	{
		if (p >= n) return INCOMPLETE; if (s[p] == '\r') { ++p; if (p >= n) return INCOMPLETE; if (s[p] != '\n') return UNSPECIFIED; ++p; return VALID; }
		if (s[p] == ' ' || s[p] == '\t' || s[p] == '\n') return UNSPECIFIED; int at = p; while (p < n && tok(s[p])) ++p; if (p >= n) return INCOMPLETE;
		if (s[p] != ':' || p == at) return s[p] == '\r' || s[p] == '\n' || s[p] == ' ' || s[p] == '\t' ? UNSPECIFIED : INVALID; BA nm((const char*)s + at, p - at); ++p; while (p < n && (s[p] == ' ' || s[p] == '\t')) ++p;
		at = p; bool odd = false; while (p < n && s[p] != '\r') { if (bad(s[p])) odd = true; ++p; } if (odd) return UNSPECIFIED; BA v((const char*)s + at, p - at); bool cl = lower(nm) == "content-length"; if (cl && !v.isEmpty()) { BA t = v; while (t.endsWith(' ')) t.chop(1); for (int i = 0; i < t.size(); ++i) if (!dig((unsigned char)t[i])) { if (t[i] == ' ' || t[i] == '\t') return UNSPECIFIED; return INVALID; } }
		if (p >= n) return INCOMPLETE; ++p; if (p >= n) return INCOMPLETE; if (s[p] != '\n') return UNSPECIFIED; ++p; if (v.endsWith(' ') || v.endsWith('\t')) return UNSPECIFIED; hs.push_back(std::make_pair(nm, v)); if (p < n && (s[p] == ' ' || s[p] == '\t')) return UNSPECIFIED;
	}
}
inline Verdict response(const BA& b, R& r)
{
	const unsigned char* s = (const unsigned char*)b.constData(); int n = b.size(), p = 0; r = R();
	#define NEED() if (p >= n) return INCOMPLETE
	if (n && (s[0] == '\r' || s[0] == '\n')) return UNSPECIFIED; for (const char* x = "HTTP/"; *x; ++x, ++p) { NEED(); if (s[p] != (unsigned char)*x) return INVALID; }
	NEED(); if (!dig(s[p])) return INVALID; int maj = s[p++] - '0'; NEED(); if (s[p] != '.') return dig(s[p]) ? UNSPECIFIED : INVALID; ++p; NEED(); if (!dig(s[p])) return INVALID; r.minor = s[p++] - '0'; NEED(); if (s[p] != ' ') return dig(s[p]) ? UNSPECIFIED : INVALID; ++p; if (maj != 1 || r.minor > 1) return UNSPECIFIED;
	for (int k = 0; k < 3; ++k, ++p) { NEED(); if (!dig(s[p])) return s[p] == ' ' || s[p] == '\r' || s[p] == '\n' ? UNSPECIFIED : INVALID; r.status = r.status * 10 + s[p] - '0'; } NEED(); if (dig(s[p])) return UNSPECIFIED; if (s[p] == '\n') return UNSPECIFIED; if (s[p] != ' ' && s[p] != '\r') return INVALID; if (r.status < 200 || r.status > 599) return UNSPECIFIED;
	while (p < n && s[p] != '\r') { if (bad(s[p])) return UNSPECIFIED; ++p; } NEED(); ++p; NEED(); if (s[p] != '\n') return UNSPECIFIED; ++p; NEED(); if (s[p] == ' ' || s[p] == '\t') return UNSPECIFIED;
	Verdict v = fields(s, n, p, r.hs); if (v != VALID) return v; r.headEnd = p; int ncl = 0, nte = 0; qint64 len = -1; bool chunked = false;
	for (auto& h : r.hs) { BA l = lower(h.first); if (l == "content-length") { ++ncl; if (h.second.isEmpty() || h.second.size() > 9) return UNSPECIFIED; len = h.second.toLongLong(); } else if (l == "transfer-encoding") { ++nte; if (lower(h.second) != "chunked") return UNSPECIFIED; chunked = true; } else if (l == "upgrade" || l == "proxy-connection") return UNSPECIFIED; }
	if (ncl > 1 || nte > 1 || (ncl && nte) || (chunked && r.minor == 0)) return UNSPECIFIED; bool none = r.status == 204 || r.status == 304; if (none) { if (chunked) return UNSPECIFIED; r.used = p; return VALID; }
	if (chunked) for (;;)
	{
		NEED(); int h; qint64 sz = 0; int nd = 0; if (hex(s[p]) < 0) return INVALID; while (p < n && (h = hex(s[p])) >= 0) { sz = sz * 16 + h; ++p; if (++nd > 7) return UNSPECIFIED; } NEED(); if (s[p] == ';' || s[p] == ' ' || s[p] == '\t' || s[p] == '\n') return UNSPECIFIED; if (s[p] != '\r') return INVALID; ++p; NEED(); if (s[p] != '\n') return UNSPECIFIED; ++p;
		if (sz == 0) { Pairs t; v = fields(s, n, p, t); for (auto& x : t) { BA l = lower(x.first); if (l == "content-length" || l == "transfer-encoding" || l == "connection") return UNSPECIFIED; } if (v != VALID) return v; r.used = p; return VALID; }
		if (n - p < sz) return INCOMPLETE; r.content += b.mid(p, int(sz)); p += int(sz); NEED(); if (s[p] != '\r') return INVALID; ++p; NEED(); if (s[p] != '\n') return INVALID; ++p;
	}
	if (len >= 0) { if (n - p < len) return INCOMPLETE; r.content = b.mid(p, int(len)); r.used = p + int(len); return VALID; }
	r.content = b.mid(p); r.used = n; r.eof = true; return VALID;
	#undef NEED
}
}
inline BA genGarbage(Rng& r, const Script& s)
{
	// One edit away from the response that was meant.
	if (r.chance(60)) for (int k = 0; k < 400; ++k) { BA w = s.wire; int lim = r.chance(70) ? qMin(w.size(), s.headEnd) : w.size(); if (lim < 1) break; int p = r.below(lim); switch (r.below(3)) { case 0: w[p] = char(r.next()); break; case 1: w.remove(p, 1); break; default: w.insert(p, char(r.next())); } rgram::R x; if (rgram::response(w, x) == rgram::INVALID) return w; }
	switch (r.below(8)) { case 0: return "FDSPIFUDSAF IUDUSAF\r\n\r\n"; case 1: return "HTTP/1.1 abc OK\r\n\r\n"; case 2: return "HTTP/x.1 200 OK\r\n\r\n"; case 3: return BA("\x16\x03\x01\x02\0\x01", 6) + r.bytes(100); case 4: return "<html></html>\r\n\r\n"; case 5: return "GET / HTTP/1.1\r\n\r\n"; case 6: return "HTTP/1.1 200 OK\r\nBad Header: x\r\n\r\n"; default: { BA w = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nX-Resp: 1\r\n\r\n5\r\nhello\r\nzz\r\n"; (void)s; return w; } }
}
#endif
