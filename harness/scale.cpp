// Long histories, large sizes and many objects at once: what holds for small cases must not end at some number. One "scale" family per property.
#include "sock.h"
#include "client.h"
#include "HttpHandlerProxy.h"
#include "ByteArrayHelpers.h"
#include "HttpHandlerSimpleRouter.h"
#include "HttpHandlerQtScript.h"
#include <QtScript/QtScript>
#include <QtNetwork/QNetworkReply>
#include <sys/resource.h>
#include <cmath>

static const int MB = 1 << 20;
static int logu(Rng& r, double lo, double hi) { double u = double(r.next() >> 11) / 9007199254740992.0; if (r.chance(40)) u = 0.85 + 0.15 * u; return int(lo * std::pow(hi / lo, u)); }
static int cap(Ctx& c, int quick, int thorough) { return c.thorough ? thorough : quick; }
static void begin(Ctx& c) { alarm(150 * c.slow); }
static std::vector<BA> fewPieces(Rng& r, const BA& b, int max = 12)
{
	std::set<int> cuts; int n = r.below(max); while (n--) cuts.insert(1 + r.below(qMax(1, b.size() - 1))); std::vector<BA> v; int p = 0;
	for (int x : cuts) if (x < b.size()) { v.push_back(b.mid(p, x - p)); p = x; } v.push_back(b.mid(p)); return v;
}
static void setLength(Req& q, const BA& content) { q.content = content; if (q.has("Content-Length")) { for (auto& h : q.headers) if (lower(h.first) == "content-length") h.second = num(content.size()); } else { q.add("Content-Length", num(content.size())); q.spaces.resize(q.headers.size(), 1); } q.hasLength = true; }
static Req plain(Rng& r, int id) { Req q; q.method = r.chance(60) ? "GET" : r.chance(50) ? "POST" : "PUT"; q.path = "/" + num(id) + "/" + r.str("abcdef", r.below(12)); if (r.chance(40)) q.query = "q=" + num(id) + (r.chance(50) ? "&x=%20" + num(r.below(100)) : BA()); q.uri = q.path + (q.query.isEmpty() ? BA() : "?" + q.query); if (r.chance(70)) q.add("X-Id", num(id)); int k = r.below(4); while (k--) q.add("H" + num(r.below(30)), r.str("vwxyz ,;=", r.below(20)).trimmed()); q.spaces.assign(q.headers.size(), 1); if (q.method != "GET") setLength(q, bodyFor(id + 7, r.below(300))); return q; }

// A whole conversation over one connection: every request is seen as sent, every response arrives as given.
struct Talk { bool pipelined, chunks; int maxBody; bool requestSide, responseSide, expect, old; Talk() : pipelined(false), chunks(true), maxBody(40), requestSide(true), responseSide(true), expect(false), old(false) {} };
static void converse(Ctx& c, const std::vector<Req>& qs, const Talk& t, Conn* reuse = 0, const std::function<void(int, Conn*)>& also = std::function<void(int, Conn*)>())
{
	Session s(c, reuse); std::vector<BA> bodies; for (size_t i = 0; i < qs.size(); ++i) bodies.push_back(bodyFor(int(i), c.rng.below(t.maxBody + 1)));
	s.onReady = [&](int k) {
		if (k >= int(qs.size())) { c.fail("extra-request", "a request was delivered that was never sent"); return; }
		if (t.requestSide) { BA d = diffSeen(qs[k], seeRequest(s.conn)); if (!d.isEmpty()) c.fail("request-differs:" + d.left(d.indexOf(':')).split(' ').first(), "request " + num(k) + " of " + num(int(qs.size())) + ": " + d); }
		if (also) also(k, s.conn); int api = t.chunks ? c.rng.below(3) : 0; if (t.old && api == 2) api = 1; const BA& b = bodies[k];
		if (api == 0) s.conn->writeResponse(200, hdrs({{"X-K", num(k)}}), b); else { Headers h = hdrs({{"X-K", num(k)}}); if (api == 1) h << Header("Content-Length", num(b.size())); else h << Header("Transfer-Encoding", "chunked"); s.conn->writeHeaders(200, h); for (int p = 0; p < b.size();) { int n = qMin(b.size() - p, 1 + c.rng.below(b.size())); s.conn->writeContent(b.mid(p, n)); p += n; } if (api == 2) s.conn->endContent(); }
	};
	s.start(); std::vector<BA> methods; for (auto& q : qs) methods.push_back(q.method);
	if (t.pipelined) { BA all; for (auto& q : qs) all += q.wire(); for (auto& p : fewPieces(c.rng, all)) { s.feed(p); if (c.rng.chance(30)) spin(); } }
	else for (size_t i = 0; i < qs.size() && c.ok(); ++i)
	{
		std::vector<BA> ps = fewPieces(c.rng, qs[i].wire(), 4); for (size_t k = 0; k < ps.size(); ++k) { if (s.nReady != int(i)) { c.fail("early-ready", "request " + num(int(i)) + " announced before its last byte"); break; } s.feed(ps[k]); if (c.rng.chance(5)) spin(); }
		if (s.nReady != int(i) + 1 || s.nCompleted != s.nReady) { c.fail("ready-count", num(s.nReady) + " requests announced and " + num(s.nCompleted) + " completed after " + num(int(i) + 1) + " of " + num(int(qs.size())) + (s.isClosed() ? "; the connection is closed" : "")); break; }
	}
	for (int i = 0, seen = -1; i < 20 + int(qs.size()) && s.nReady < int(qs.size()) && (s.nReady != seen || i % 5); ++i) { seen = s.nReady; spin(); } // long pipelines are continued from the event loop
	if (c.ok() && s.nReady != int(qs.size())) c.fail("ready-count", num(s.nReady) + " requests announced of " + num(int(qs.size())) + (s.isClosed() ? "; the connection is closed" : ""));
	if (c.ok() && t.responseSide)
	{
		std::vector<Resp> rs; BA e = parseStream(s.d->tx, methods, s.isClosed(), rs); if (!e.isEmpty()) c.fail("response-stream", e); size_t k = 0; int interim = 0;
		for (auto& r : rs) { if (r.interim) { ++interim; continue; } if (k >= qs.size()) { c.fail("extra-response", "more responses than requests"); break; } if (r.status != 200 || r.value("X-K") != num(int(k)) || r.content != bodies[k]) { c.fail("response-differs", "response " + num(int(k)) + " of " + num(int(qs.size())) + ": " + show(r.statusLine, 60) + ", X-K " + r.value("X-K") + ", " + diffText(bodies[k], r.content)); break; } if (t.expect && interim != int(k) + 1) { c.fail("continue-count", num(interim) + " interim responses before final response " + num(int(k) + 1)); break; } ++k; }
		if (c.ok() && k != qs.size()) c.fail("response-missing", num(int(k)) + " responses to " + num(int(qs.size())) + " requests"); if (c.ok() && !t.expect && interim) c.fail("continue-count", num(interim) + " unexpected interim responses");
	}
	c.count("requests", s.nReady); c.count("responses", s.nCompleted); s.onReady = 0; s.finish();
}
static std::vector<Req> many(Ctx& c, int n) { std::vector<Req> v; for (int i = 0; i < n; ++i) v.push_back(plain(c.rng, i)); return v; }

// ================================================================ server connection
FAMILY(C01, scale, 48, 1500)
{
	begin(c); std::vector<Req> qs; Talk t; t.chunks = false; t.responseSide = false; t.pipelined = c.rng.chance(30); int kind = c.index % 8; Req q = plain(c.rng, 1); int room = 32500 - q.head().size() - 40;
	switch (kind)
	{
	case 0: { int n = logu(c.rng, 100, room / 7), left = room; static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"; for (int i = 0; i < n; ++i) { BA nm; for (int k = i; nm.isEmpty() || k; k /= 62) nm += a[k % 62]; BA v = c.rng.chance(30) ? BA(1, c.rng.ch(a)) : BA(); if ((left -= nm.size() + v.size() + 3) < 0) break; q.add(nm, v); q.spaces.resize(q.headers.size(), 0); } c.note = num(int(q.headers.size())) + " headers"; break; }
	case 1: { int n = logu(c.rng, 100, room); q.add(genToken(c.rng, n), "v"); q.spaces.resize(q.headers.size(), 1); c.note = "header name of " + num(n); break; }
	case 2: { int n = logu(c.rng, 200, room); q.add("X-Long", bodyFor(5, 10).toHex() + c.rng.str("abcdefghijklmnopqrstuvwxyz0123456789", n)); q.spaces.resize(q.headers.size(), 1); if (q.head().size() > 32700) q.headers.back().second.chop(100); c.note = "header value of " + num(n); break; }
	case 3: { int n = logu(c.rng, 200, room), w = c.rng.below(3); BA x = c.rng.str("abcdefghijklmnopqrstuvwxyz0123456789/", n); if (w == 0) q.path = "/" + x; else if (w == 1) q.query = x; else q.fragment = x; q.uri = q.path + (q.query.isEmpty() ? BA() : "?" + q.query); c.note = BA(w == 0 ? "path" : w == 1 ? "query" : "fragment") + " of " + num(n); break; }
	case 4: case 5: { int n = logu(c.rng, kind == 4 ? 3 * MB : 30 * MB, kind == 4 ? 30 * MB : 128 * MB); if (c.rng.chance(10)) n = 128 * MB; q.method = "POST"; setLength(q, bodyFor(3, n)); c.note = "content of " + num(n); break; }
	default: { int n = logu(c.rng, 60, cap(c, 1200, 5000)); c.note = num(n) + " requests"; qs = many(c, n); }
	}
	if (qs.empty()) { qs.push_back(plain(c.rng, 0)); qs.push_back(q); if (q.content.size() < MB) qs.push_back(plain(c.rng, 2)); } c.note += t.pipelined ? ", pipelined" : ""; c.sample(c.note); c.distinct(fnv(c.note)); converse(c, qs, t);
}
// An invalid request after a long history is still refused, and only it.
FAMILY(C02, scale, 48, 800)
{
	begin(c); int n = logu(c.rng, 20, cap(c, 700, 3000)); bool pipelined = c.rng.chance(50); std::vector<Req> qs = many(c, n); static const char* bad[] = {"get / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nBad Header: x\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: abc\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 134217729\r\n\r\n", "PUT / HTTP/1.1\r\nContent-Length: -5\r\n\r\n", "\x01\x02\x03"}; static const int code[] = {400, 400, 413, 413, 400, 400}; int k = c.rng.below(6);
	c.note = num(n) + " requests" + (pipelined ? ", pipelined" : "") + ", then " + show(bad[k]); c.sample(c.note); c.distinct(fnv(c.note)); Session s(c); s.onReady = [&](int i) { if (i >= n) c.fail("invalid-delivered", "the invalid request was delivered"); s.conn->writeResponse(200, Headers(), bodyFor(i, 20)); }; s.start(); BA all; std::vector<BA> ms;
	for (auto& q : qs) { if (pipelined) all += q.wire(); else s.feed(q.wire()); ms.push_back(q.method); } all += bad[k]; all += c.rng.chance(50) ? BA("GET /late HTTP/1.1\r\n\r\n") : BA(); for (auto& p : fewPieces(c.rng, all)) s.feed(p); ms.push_back("GET"); for (int i = 0; i < n + 5 && !s.isClosed(); ++i) spin(); std::vector<Resp> rs; BA e = parseStream(s.d->tx, ms, true, rs);
	if (!e.isEmpty()) c.fail("response-stream", e); else if (int(rs.size()) != n + 1) c.fail("response-count", num(int(rs.size())) + " responses"); else { for (int i = 0; i < n; ++i) if (rs[i].content != bodyFor(i, 20)) { c.fail("earlier-response", "response " + num(i)); break; } if (rs[n].status != code[k]) c.fail("refusal", "status " + num(rs[n].status) + " instead of " + num(code[k])); } if (!s.isClosed()) c.fail("not-closed", "the connection is not closed"); c.count("requests", n); s.onReady = 0; s.finish();
}
FAMILY(C03, scale, 48, 1200)
{
	begin(c); int n = logu(c.rng, 60, cap(c, 1500, 6000)); Talk t; t.pipelined = c.rng.chance(50); t.requestSide = false; t.maxBody = c.rng.chance(20) ? 20000 : 200; if (t.maxBody > 1000) n = qMin(n, 400); c.note = num(n) + " requests" + (t.pipelined ? ", pipelined" : ""); c.sample(c.note); c.distinct(fnv(c.note) ^ c.rng.next()); converse(c, many(c, n), t);
}
FAMILY(C04, scale, 48, 1200)
{
	begin(c); int kind = c.index % 8; bool big = kind < 4; int n = big ? logu(c.rng, 1 * MB, (kind == 3 ? 20.0 : 50.0) * MB) : 1 + c.rng.below(3000); BA b = bodyFor(c.index, n); Headers h = hdrs({{"X-First", "1"}}); int pieces = 1;
	switch (kind) { case 0: case 1: case 2: case 3: if (kind && c.rng.chance(40)) pieces = c.rng.range(2, 6); break; case 4: { int k = logu(c.rng, 50, 8000); for (int i = 0; i < k; ++i) h << Header("X-" + num(i), bodyFor(i, i % 40).toHex()); break; } case 5: h << Header("X-Value", bodyFor(2, logu(c.rng, 1000, 3 * MB)).toHex()); break; case 6: h << Header(genToken(c.rng, logu(c.rng, 40, 200000)), "v"); break; default: pieces = logu(c.rng, 60, 8000); n = qMax(n, pieces * c.rng.range(1, 20)); b = bodyFor(c.index, n); }
	int api = kind < 4 ? kind : c.rng.below(4); c.note = num(n) + " bytes in " + num(pieces) + ", api " + num(api) + ", " + num(h.size()) + " headers"; c.sample(c.note); c.distinct(fnv(c.note)); Session s(c); int reqs = 0;
	s.onReady = [&](int k) { ++reqs; if (k) { s.conn->writeResponse(200, Headers(), "after"); return; } Headers g = h; if (api == 0) { if (kind == 7) api = 1; else { s.conn->writeResponse(200, g, b); return; } } if (api == 1) g << Header("Content-Length", num(b.size())); else if (api == 2) g << Header("Transfer-Encoding", "chunked"); s.conn->writeHeaders(200, g); for (int i = 0, p = 0; i < pieces; ++i) { int e = i + 1 == pieces ? b.size() : int(qint64(b.size()) * (i + 1) / pieces); if (e > p) s.conn->writeContent(b.mid(p, e - p)); p = e; } if (api >= 2) s.conn->endContent(); };
	s.start(); s.feed("GET /1 HTTP/1.1\r\n\r\n"); bool open = !s.isClosed(); if (open == (api == 3)) c.fail("close", open ? "open" : "closed"); if (open) s.feed("GET /2 HTTP/1.1\r\n\r\n"); std::vector<Resp> rs; std::vector<BA> ms(open ? 2 : 1, "GET"); BA e = parseStream(s.d->tx, ms, !open, rs);
	if (!e.isEmpty()) c.fail("malformed", e); else if (rs.size() != ms.size()) c.fail("response-count", num(int(rs.size()))); else { const Resp& r = rs[0]; if (r.content != b) c.fail("content", diffText(b, r.content)); std::vector<std::pair<BA,BA> > got; for (auto& x : r.headers) { BA l = lower(x.first); if (l != "content-length" && l != "content-type" && l != "connection" && l != "transfer-encoding") got.push_back(x); } BA d = diffPairs(pairsOf(h), got); if (!d.isEmpty()) c.fail("headers", d); if (api < 2 && r.value("Content-Length") != num(b.size())) c.fail("content-length", r.value("Content-Length")); if (open && rs[1].content != "after") c.fail("next-response", show(rs[1].content)); }
	c.count("bytes", s.d->tx.size()); c.count("pieces", pieces); s.onReady = 0; s.finish();
}
// Thousands of calls that do not apply leave no trace.
FAMILY(C05, scale, 48, 1000)
{
	begin(c); int calls = logu(c.rng, 100, cap(c, 4000, 20000)); int n = logu(c.rng, 200, 400000); bool chunked = c.rng.chance(50); BA want; c.note = num(calls) + " calls, " + (chunked ? BA("chunked") : num(n)); c.sample(c.note); c.distinct(fnv(c.note)); Session s(c); int rounds = c.rng.range(1, 3); std::vector<BA> wants;
	auto misuse = [&](int k) { switch (k) { case 0: s.conn->writeHeaders(404, hdrs({{"X-Bad", "1"}})); break; case 1: s.conn->writeResponse(500, Headers(), "BAD"); break; case 2: s.conn->writeResponseString(500, Headers(), "BAD"); break; default: if (!chunked) s.conn->endContent(); } };
	s.onReady = [&](int) {
		want.clear(); Headers h; if (chunked) h << Header("Transfer-Encoding", "chunked"); else h << Header("Content-Length", num(n)); int some = c.rng.below(calls); for (int i = 0; i < some; ++i) { if (c.rng.chance(50)) s.conn->writeContent("BAD"); else s.conn->endContent(); }
		s.conn->writeHeaders(200, h); for (int i = 0; i < calls; ++i) { if (c.rng.chance(30)) { misuse(c.rng.below(4)); continue; } int room = chunked ? 1000000 : n - want.size(); int k = 1 + c.rng.below(200); if (!chunked && k > room) k = room; if (!chunked && k < 1) { break; } if (!chunked && want.size() + k == n) break; BA p = bodyFor(i, k); s.conn->writeContent(p); want += p; if (!chunked && c.rng.chance(10)) s.conn->writeContent(BA(room + 1, '!')); }
		if (chunked) s.conn->endContent(); else { BA p = bodyFor(1, n - want.size()); s.conn->writeContent(p); want += p; } wants.push_back(want);
	};
	s.onCompleted = [&](int) { for (int i = 0; i < 200; ++i) { s.conn->writeContent("LATE"); if (i % 3 == 0) s.conn->endContent(); if (i % 50 == 0) s.conn->writeHeaders(200); } };
	s.start(); for (int i = 0; i < rounds && c.ok(); ++i) s.feed("GET / HTTP/1.1\r\n\r\n"); std::vector<Resp> rs; BA e = parseStream(s.d->tx, std::vector<BA>(rounds, "GET"), false, rs); if (!e.isEmpty()) c.fail("malformed", e); else if (int(rs.size()) != rounds) c.fail("response-count", num(int(rs.size()))); else for (int i = 0; i < rounds; ++i) if (rs[i].status != 200 || rs[i].countOf("X-Bad") || rs[i].content != wants[i]) { c.fail("content", "response " + num(i) + ": " + diffText(wants[i], rs[i].content)); break; } c.count("calls", calls * rounds); s.onReady = 0; s.onCompleted = 0; s.finish();
}
FAMILY(C06, scale, 48, 1000)
{
	begin(c); int n = logu(c.rng, 60, cap(c, 1500, 6000)); bool old = c.rng.chance(40); int last = c.rng.below(3); c.note = num(n) + " kept-alive exchanges" + (old ? " (HTTP/1.0)" : "") + ", last " + num(last); c.sample(c.note); c.distinct(fnv(c.note)); Session s(c); int served = 0;
	s.onReady = [&](int k) { ++served; Headers h; if (k == n && last == 1) h << Header("Connection", "close"); int api = c.rng.below(old ? 2 : 3); if (k == n && last == 2) api = 3; if (api == 0) s.conn->writeResponse(200, h, bodyFor(k, 30)); else { if (api == 1) h << Header("Content-Length", "30"); else if (api == 2) h << Header("Transfer-Encoding", "chunked"); s.conn->writeHeaders(200, h); s.conn->writeContent(bodyFor(k, 30)); if (api > 1) s.conn->endContent(); } }; s.start();
	for (int k = 0; k <= n && c.ok(); ++k) { int before = s.d->tx.size(); BA q = "GET /" + num(k) + (old ? " HTTP/1.0\r\nConnection: " : " HTTP/1.1\r\nConnection: ") + (k == n && last == 0 ? "close" : old ? "Keep-Alive" : "keep-alive") + "\r\n\r\n"; s.feed(q); if (k % 50 == 0) spin(); BA w = s.d->tx.mid(before); bool said = lower(w.left(w.indexOf("\r\n\r\n"))).contains("connection: close"); if (served != k + 1) c.fail("not-served", "exchange " + num(k) + " was not served"); else if (s.isClosed() != (k == n)) c.fail(k == n ? "not-closed" : "closed", "exchange " + num(k) + " of " + num(n)); else if (said != (k == n)) c.fail("connection-header", "exchange " + num(k) + " of " + num(n) + ": " + show(w.left(200))); else if (!w.contains(bodyFor(k, 30))) c.fail("content", "exchange " + num(k)); }
	c.count("exchanges", n + 1); s.onReady = 0; s.finish();
}
FAMILY(C07, scale, 24, 400)
{
	begin(c); int kind = c.index % 3; Srv s(kind); Cli k; int n = logu(c.rng, 3 * MB, cap(c, 40, 100) * double(MB)), api = c.rng.below(4), pieces = c.rng.chance(50) ? 1 : c.rng.range(2, 60); bool close = api == 3 || c.rng.chance(50), chunked = api == 2; BA b = bodyFor(c.index, n); Conn* conn = 0; bool closed = false; int atClose = 0; (void)atClose;
	s.onReady = [&](Conn* x) { conn = x; Headers h; if (close) h << Header("Connection", "close"); if (api == 0) { x->writeResponse(200, h, b); return; } if (api == 1) h << Header("Content-Length", num(n)); else if (chunked) h << Header("Transfer-Encoding", "chunked"); x->writeHeaders(200, h); for (int i = 0, p = 0; i < pieces; ++i) { int e = int(qint64(n) * (i + 1) / pieces); x->writeContent(b.mid(p, e - p)); p = e; } if (api >= 2) x->endContent(); }; s.onClosed = [&](Conn*) { closed = true; };
	c.note = BA(KINDS[kind]) + " " + num(n) + " bytes, api " + num(api) + " in " + num(pieces) + (close ? ", closing" : ""); c.sample(c.note); c.distinct(fnv(c.note)); if (!k.connect(s, c.rng.chance(50) ? 65536 : 0)) { c.fail("connect", "could not connect"); return; } k.send("GET / HTTP/1.1\r\n\r\n"); int stall = c.rng.range(1, 40), tick = 0;
	auto done = [&]() { if (k.eof) return true; if (k.in.size() < n) return false; if (close) return false; if (chunked) return k.in.endsWith("\r\n0\r\n\r\n"); return k.in.size() - k.in.indexOf("\r\n\r\n") - 4 >= n; };
	if (!waitFor(c, done, [&]() { ++tick; k.reading = tick % stall != 1 || stall == 1; k.poll(); }, 60000)) { c.stall("bytes-lost", num(k.in.size()) + " bytes of a response with " + num(n) + " arrived"); return; } Resp r; BA e = parseResponse(k.in, 0, false, k.eof, r); if (!e.isEmpty() || !r.complete) c.fail("bytes-lost", e + " after " + num(k.in.size()) + " bytes"); else if (r.content != b) c.fail("bytes-lost", diffText(b, r.content)); else if (k.rst) c.fail("reset", "connection reset"); if (close && c.ok() && !waitFor(c, [&]() { return closed; }, [&]() { k.poll(); })) c.stall("not-announced", "closed() was not emitted");
	if (!close && c.ok()) { s.onReady = [&](Conn* x) { x->writeResponse(200, Headers(), "again"); }; k.in.clear(); k.send("GET / HTTP/1.1\r\n\r\n"); if (!waitFor(c, [&]() { return k.in.endsWith("again"); }, [&]() { k.poll(); })) c.stall("next-request", "not served"); } c.count("bytes", n);
}
// Many ends of connections, on one server.
FAMILY(C08, scale, 16, 200)
{
	begin(c); int kind = c.index % 2 ? LOCAL : TCP, n = logu(c.rng, 60, cap(c, 500, 2000)); Srv s(kind); c.note = BA(KINDS[kind]) + " " + num(n) + " clients"; c.sample(c.note); c.distinct(fnv(c.note)); std::vector<Conn*> open; std::map<Conn*, int> closes; int way = 0, ready = 0; s.onClosed = [&](Conn* x) { if (++closes[x] > 1) c.fail("closed-twice", "closed() emitted twice"); };
	s.onReady = [&](Conn* x) { ++ready; closes[x] = 0; switch (way) { case 0: x->writeResponse(200, Headers(), "ok"); break; case 1: x->close(); break; case 2: x->writeHeaders(200, hdrs({{"Content-Length", "100"}})); x->writeContent("part"); break; case 3: x->writeHeaders(200); x->close(); x->writeContent("late"); x->endContent(); break; default: break; } open.push_back(x); };
	for (int i = 0; i < n && c.ok(); ++i)
	{
		Cli k; if (!k.connect(s)) { c.fail("connect", num(i)); return; } way = c.rng.below(5); int r0 = ready, c0 = s.nClosed; open.clear(); k.send("GET /" + num(i) + " HTTP/1.1\r\n\r\n"); if (!waitFor(c, [&]() { return ready > r0; }, [&]() { k.poll(); })) { c.stall("unserved", "client " + num(i)); return; } if (way == 1 || way == 3) { if (!waitFor(c, [&]() { return k.eof; }, [&]() { k.poll(); })) { c.stall("not-ended", "client " + num(i)); return; } }
		if (c.rng.chance(50)) k.reset(); else k.shut(); if (!waitFor(c, [&]() { return s.nClosed > c0 || closes[open[0]]; })) { c.stall("not-closed", "client " + num(i)); return; } c.count("clients");
	}
	if (c.ok() && s.sockets() > 0 && !waitFor(c, [&]() { return s.sockets() == 0; })) c.stall("sockets-left", num(s.sockets()));
}
FAMILY(C09, scale, 32, 600)
{
	begin(c); Conn conn; int n = logu(c.rng, 60, cap(c, 700, 3000)); c.note = num(n) + " clients on one connection object"; c.sample(c.note); c.distinct(fnv(c.note) ^ c.rng.next());
	for (int i = 0; i < n && c.ok(); ++i)
	{
		std::vector<Req> qs = many(c, c.rng.range(1, 3)); Talk t; t.pipelined = c.rng.chance(30); if (c.rng.chance(15)) { Session s(c, &conn); s.onReady = [&](int) { s.conn->setRequestParam("left", "over"); s.conn->writeHeaders(200, hdrs({{"Content-Length", "1000"}})); }; s.start(); Req q = plain(c.rng, i); BA w = q.wire(); s.feed(w.left(1 + c.rng.below(w.size()))); if (c.rng.chance(50)) s.feed("\x01\x02 garbage"); s.d->close(); spin(); continue; }
		converse(c, qs, t, &conn, [&](int k, Conn* x) { int want = qs[k].query.isEmpty() ? 0 : qs[k].query.count('&') + 1; if (x->requestParams().size() != want) c.fail("params", "client " + num(i) + ": " + num(x->requestParams().size()) + " params of " + show(qs[k].query)); if (x->requestHeaders().getFieldValue("Left-Over") != BA()) c.fail("headers", ""); if (c.rng.chance(50)) x->setRequestParam("left", "over"); if (x->responseStatusCode() && x->responseStatusCode() != 200) c.fail("status", num(x->responseStatusCode())); });
	}
	c.count("clients", n);
}
FAMILY(C10, scale, 32, 600)
{
	begin(c); int n = logu(c.rng, 60, cap(c, 1000, 4000)); std::vector<Req> qs; for (int i = 0; i < n; ++i) { Req q = plain(c.rng, i); q.method = "POST"; if (q.content.isEmpty()) setLength(q, "x"); q.add("Expect", c.rng.chance(50) ? "100-continue" : "100-Continue"); q.spaces.resize(q.headers.size(), 1); qs.push_back(q); } if (c.index % 4 == 0) setLength(qs[n / 2], bodyFor(2, logu(c.rng, MB, 30 * MB)));
	Talk t; t.expect = true; t.pipelined = c.rng.chance(30); c.note = num(n) + " requests that expect 100 Continue" + (t.pipelined ? ", pipelined" : ""); c.sample(c.note); c.distinct(fnv(c.note)); converse(c, qs, t);
}
FAMILY(C11, scale, 48, 1000)
{
	begin(c); std::vector<std::pair<QString, QString> > want; BA q; int kind = c.index % 3, n = kind == 0 ? logu(c.rng, 50, 6000) : c.rng.range(1, 20); auto piece = [&](int len, QString& out) { BA enc, raw; for (int i = 0; i < len; ++i) { int k = c.rng.below(10); if (k < 7) { char ch = c.rng.ch("abcXYZ019-._~"); enc += ch; raw += ch; } else { static const unsigned char u[][3] = {{0xc3, 0xa9, 0}, {0x20, 0, 0}, {0x26, 0, 0}, {0x3d, 0, 0}, {0x25, 0, 0}}; const unsigned char* x = u[c.rng.below(5)]; for (int j = 0; j < 3 && x[j]; ++j) { char tmp[8]; snprintf(tmp, 8, "%%%02x", x[j]); enc += tmp; raw += char(x[j]); } } } out = QString::fromUtf8(raw); return enc; };
	int budget = 31000; for (int i = 0; i < n && budget > 20; ++i) { QString a, b; int la = kind == 1 && i == 0 ? logu(c.rng, 500, 9000) : c.rng.range(1, 3), lb = kind == 2 && i == 0 ? logu(c.rng, 500, 9000) : c.rng.below(3); BA e = piece(la, a), f = piece(lb, b); BA p = e + "=" + f; if (p.size() + 1 > budget) break; budget -= p.size() + 1; if (i) q += "&"; q += p; want.push_back(std::make_pair(a, b)); }
	c.note = num(int(want.size())) + " parameters in " + num(q.size()) + " bytes"; c.sample(c.note); c.distinct(fnv(q.left(400)) ^ q.size()); Session s(c);
	s.onReady = [&](int) {
		const Pillow::HttpParamCollection& p = s.conn->requestParams(); if (p.size() != int(want.size())) { c.fail("param-count", num(p.size()) + " instead of " + num(int(want.size()))); return; } for (int i = 0; i < p.size(); ++i) if (p[i].first != want[i].first || p[i].second != want[i].second) { c.fail("param", "parameter " + num(i) + ": " + show(p[i].first.toUtf8(), 60) + "=" + show(p[i].second.toUtf8(), 60) + " instead of " + show(want[i].first.toUtf8(), 60) + "=" + show(want[i].second.toUtf8(), 60)); return; }
		for (int k = 0; k < 20; ++k) { int i = c.rng.below(int(want.size())); QString w; for (auto& x : want) if (!x.first.compare(want[i].first, Qt::CaseInsensitive)) { w = x.second; break; } if (s.conn->requestParamValue(want[i].first) != w) c.fail("param-value", "parameter " + num(i)); }
		int sets = logu(c.rng, 20, 400); for (int k = 0; k < sets; ++k) { QString nm = c.rng.chance(50) ? want[c.rng.below(int(want.size()))].first : "new" + QString::number(c.rng.below(300)), v = QString::number(k); s.conn->setRequestParam(nm, v); bool hit = false; for (auto& x : want) if (!x.first.compare(nm, Qt::CaseInsensitive)) { x.second = v; x.first = nm; hit = true; break; } if (!hit) want.push_back(std::make_pair(nm, v)); } const Pillow::HttpParamCollection& g = s.conn->requestParams(); if (g.size() != int(want.size())) c.fail("set-param", num(g.size()) + " instead of " + num(int(want.size()))); else for (int i = 0; i < g.size(); ++i) if (g[i].first.compare(want[i].first, Qt::CaseInsensitive) || g[i].second != want[i].second) { c.fail("set-param", "parameter " + num(i)); break; }
		if (s.conn->requestQueryStringDecoded() != QUrl::fromPercentEncoding(q)) c.fail("query-decoded", diffText(QUrl::fromPercentEncoding(q).toUtf8(), s.conn->requestQueryStringDecoded().toUtf8())); s.conn->writeResponse(200); c.count("params", int(want.size()));
	};
	s.start(); s.feed("GET /x?" + q + " HTTP/1.1\r\n\r\n"); if (s.nReady != 1) c.fail("not-delivered", ""); s.onReady = 0; s.finish();
}
FAMILY(C13, scale, 16, 150)
{
	begin(c); struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_cur < rl.rlim_max) { rl.rlim_cur = rl.rlim_max < 20000 ? rl.rlim_max : 20000; setrlimit(RLIMIT_NOFILE, &rl); } int kind = c.index % 2 ? LOCAL : TCP, top = cap(c, 700, 1500); top = qMin(top, int(rl.rlim_cur - 100) / 3); int n = qMax(1, logu(c.rng, 90, top)); { std::vector<int> probe(3); }
	int fds = openFds(); { Srv s(kind); c.note = BA(KINDS[kind]) + " " + num(n) + " clients at once"; c.sample(c.note); c.distinct(fnv(c.note)); std::vector<std::unique_ptr<Cli> > k(n); std::map<BA, int> seen; std::vector<std::pair<Conn*, BA> > later; bool defer = c.rng.chance(50); s.onReady = [&](Conn* x) { BA u = deep(x->requestPath()); if (++seen[u] > 1) c.fail("announced-twice", u); if (defer) later.push_back(std::make_pair(x, u)); else x->writeResponse(200, hdrs({{"X-U", u}}), bodyFor(u.mid(1).toInt(), 50)); };
	auto all = [&]() { for (auto& x : k) if (x) x->poll(); }; for (int i = 0; i < n; ++i) { k[i].reset(new Cli()); if (!k[i]->connect(s)) { c.fail("connect", "client " + num(i)); return; } if (i % 10 == 9) spinN(kind == LOCAL ? 12 : 1); } spinN(3); for (int i = 0; i < n; ++i) if (k[i]) k[i]->send("GET /" + num(i) + " HTTP/1.1\r\n\r\n");
	int expected = 0; for (auto& x : k) if (x) ++expected; if (!waitFor(c, [&]() { return int(seen.size()) == expected; }, all, 20000)) { int bad = -1, un = 0; for (int i = 0; i < n; ++i) if (k[i] && !seen.count("/" + num(i))) { bad = i; ++un; } c.stall("unserved", num(un) + " clients of " + num(expected) + " were not served, for example client " + num(bad) + (bad >= 0 && k[bad]->eof ? " (closed)" : "")); return; }
	while (!later.empty()) { size_t i = c.rng.below(int(later.size())); later[i].first->writeResponse(200, hdrs({{"X-U", later[i].second}}), bodyFor(later[i].second.mid(1).toInt(), 50)); later.erase(later.begin() + i); }
	auto answered = [&](int i) { return !k[i] || k[i]->eof || k[i]->in.contains(bodyFor(i, 50)); }; if (!waitFor(c, [&]() { for (int i = 0; i < n; ++i) if (!answered(i)) return false; return true; }, all, 20000)) { c.stall("unanswered", ""); return; } for (int i = 0; i < n && c.ok(); ++i) if (k[i]) { Resp r; BA e = parseResponse(k[i]->in, 0, false, k[i]->eof, r); if (!e.isEmpty() || r.value("X-U") != "/" + num(i) || r.content != bodyFor(i, 50)) c.fail("response-mixed", "client " + num(i) + " got " + show(k[i]->in, 200)); }
	for (int i = 0; i < n; ++i) if (k[i]) { if (c.rng.chance(30)) k[i]->reset(); else k[i]->shut(); } k.clear(); if (!waitFor(c, [&]() { return s.sockets() == 0; })) { c.stall("sockets-left", num(s.sockets()) + " sockets"); return; } spinN(3); if (s.conns().size() > 26) c.fail("not-recycled", num(s.conns().size()) + " connection objects are kept"); Cli again; again.connect(s); again.send("GET /999999 HTTP/1.1\r\n\r\n"); if (!waitFor(c, [&]() { if (!later.empty()) { later[0].first->writeResponse(200); later.clear(); } return again.in.contains("200"); }, [&]() { again.poll(); })) c.stall("later-client", "not served; listening " + num(s.loc ? s.loc->isListening() : 1) + " eof " + num(again.eof) + " in " + show(again.in) + " seen " + num(int(seen.size())) + " fd " + num(again.p.fd) + (s.loc ? s.loc->errorString().toUtf8() : BA())); c.count("clients", expected); }
	spinN(3); if (c.ok() && openFds() > fds + 4) c.fail("descriptors-left", num(openFds()) + " open, before " + num(fds));
}

// ================================================================ handlers
FAMILY(C16, scale, 24, 300)
{
	begin(c); BA dir = scratchDir().toLocal8Bit() + "/big16"; ::mkdir(dir.constData(), 0755); int n = logu(c.rng, 2 * MB, cap(c, 50, 150) * double(MB)), bs = c.rng.chance(30) ? 512 * 1024 : logu(c.rng, qMax(2000, n / 3000), 8 * MB); BA b = bodyFor(c.index, n); int f = ::open((dir + "/f").constData(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f < 0 || ::write(f, b.constData(), b.size()) != b.size()) { c.count("skipped"); if (f >= 0) ::close(f); return; } ::close(f);
	c.note = num(n) + " bytes, buffer " + num(bs); c.sample(c.note); c.distinct(fnv(c.note)); { Pillow::HttpHandlerFile h(QString::fromLocal8Bit(dir)); h.setBufferSize(bs); Session s(c, 0, false); s.onReady = [&](int) { if (!h.handleRequest(s.conn)) c.fail("declined", ""); }; s.start(); s.feed("GET /f HTTP/1.1\r\n\r\n"); int guard = 0; bool slow = c.rng.chance(40); while (s.d->backlog > 0 && ++guard < 200000) { s.d->drain(slow ? 1 + s.d->backlog / 3 : s.d->backlog); spin(); } if (s.d->backlog) s.d->drain(s.d->backlog);
	Resp r; BA e = parseResponse(s.d->tx, 0, false, s.isClosed(), r); if (!e.isEmpty() || !r.complete) c.fail("incomplete", e + ": " + num(s.d->tx.size()) + " bytes written"); else if (r.content != b) c.fail("content", diffText(b, r.content)); else if (r.value("Content-Length") != num(n)) c.fail("length", r.value("Content-Length")); if (c.ok() && s.nCompleted != 1) c.fail("not-completed", ""); if (c.ok() && s.isClosed()) c.fail("closed", "");
	if (c.ok()) { int at = s.d->tx.size(); s.feed("HEAD /f HTTP/1.1\r\n\r\n"); while (s.d->backlog > 0) { s.d->drain(s.d->backlog); spin(); } Resp r2; e = parseResponse(s.d->tx, at, true, false, r2); if (!e.isEmpty() || r2.value("Content-Length") != num(n) || s.d->tx.size() != r2.end) c.fail("head", e + show(s.d->tx.mid(at, 300))); BA tag = r.value("ETag"); if (!tag.isEmpty()) { at = s.d->tx.size(); s.feed("GET /f HTTP/1.1\r\nIf-None-Match: " + tag + "\r\n\r\n"); if (!s.d->tx.mid(at).startsWith("HTTP/1.1 304")) c.fail("etag", show(s.d->tx.mid(at, 200))); c.count("etags"); } } c.count("bytes", n); s.onReady = 0; s.finish(); } ::unlink((dir + "/f").constData());
}
FAMILY(C17, scale, 48, 800)
{
	begin(c); int n = logu(c.rng, 30, cap(c, 1500, 5000)), np = logu(c.rng, 5, 120); Pillow::HttpHandlerSimpleRouter r; r.setMethodMismatchAction(Pillow::HttpHandlerSimpleRouter::Return4xxResponse); r.setUnmatchedRequestAction(Pillow::HttpHandlerSimpleRouter::Return4xxResponse); std::vector<int> ran; std::map<QString, QString> params; int kinds = c.rng.below(2); Conn* cur = 0; (void)cur; static const char* M[] = {"GET", "POST", "PUT", ""}; std::vector<BA> meth; c.note = num(n) + " routes, " + num(np) + " parameters"; c.sample(c.note); c.distinct(fnv(c.note));
	for (int i = 0; i < n; ++i) { BA m = M[c.rng.below(4)]; meth.push_back(m); r.addRoute(m, QString("/r%1/:a/%2").arg(i / 2).arg(kinds ? ":b" : "x"), [&ran, i](Conn* x) { ran.push_back(i); x->writeResponse(200, Headers(), num(i) + "," + x->requestParamValue("a").toUtf8()); }); }
	QString pat; std::vector<QString> vals; QString path; for (int i = 0; i < np; ++i) { pat += QString("/:p%1").arg(i); QString v = QString("v-%1_%2").arg(i).arg(c.rng.below(1000)); vals.push_back(v); path += "/" + v; } r.addRoute("/many" + pat, [&](Conn* x) { ran.push_back(-1); for (int i = 0; i < np; ++i) if (x->requestParamValue(QString("p%1").arg(i)) != vals[i]) { c.fail("param", "parameter " + num(i) + " of " + num(np) + " is " + show(x->requestParamValue(QString("p%1").arg(i)).toUtf8())); break; } x->writeResponse(200); });
	BA longest = bodyFor(4, logu(c.rng, 200, 15000)).toHex(); r.addRoute("/long/*rest", [&](Conn* x) { ran.push_back(-2); if (x->requestParamValue("rest") != QString::fromLatin1(longest)) c.fail("param", "*rest: " + diffText(longest, x->requestParamValue("rest").toUtf8())); x->writeResponse(200); }); Session s(c); s.onReady = [&](int) { if (!r.handleRequest(s.conn)) c.fail("declined", ""); }; s.start(); int at = 0;
	for (int k = 0; k < 60 && c.ok(); ++k)
	{
		ran.clear(); int want = -9; BA m = M[c.rng.below(3)], uri; if (k % 20 == 5) { want = -1; uri = "/many" + path.toUtf8(); } else if (k % 20 == 9) { want = -2; uri = "/long/" + longest; } else { int g = c.rng.below((n + 1) / 2 + 2); if (k < 3) g = (n - 1) / 2; uri = "/r" + num(g) + "/p" + num(k) + "/x"; for (int i = g * 2; i < n && i < g * 2 + 2; ++i) if (meth[i].isEmpty() || meth[i] == m) { want = i; break; } }
		s.feed(m + " " + uri + " HTTP/1.1\r\n\r\n"); if (want == -9 ? !ran.empty() : ran.size() != 1 || ran[0] != want) c.fail("dispatch", m + " " + show(uri, 80) + " ran " + (ran.empty() ? BA("nothing") : num(ran[0])) + " instead of " + num(want)); Resp x; BA e = parseResponse(s.d->tx, at, false, false, x); if (!e.isEmpty()) { c.fail("response", e); break; } at = x.end; if (want >= 0 && x.content != num(want) + ",p" + num(k)) c.fail("param", show(x.content)); if (want == -9) { int g = uri.mid(2, uri.indexOf('/', 2) - 2).toInt(); int st = g * 2 < n ? 405 : 404; if (x.status != st) c.fail("status", num(x.status) + " instead of " + num(st)); } c.count("dispatches");
	}
	s.onReady = 0; s.finish();
}
namespace { struct Step : Pillow::HttpHandler { int id; std::vector<int>* ran; bool take; Step(int i, std::vector<int>* r, QObject* p) : Pillow::HttpHandler(p), id(i), ran(r), take(false) {} bool handleRequest(Conn* x) { ran->push_back(id); if (take) x->writeResponse(200, Headers(), num(id)); return take; } }; }
FAMILY(C18, scale, 48, 600)
{
	begin(c); int n = logu(c.rng, 40, cap(c, 3000, 10000)), depth = c.rng.chance(50) ? 1 : logu(c.rng, 2, 300); std::vector<int> ran; Pillow::HttpHandlerStack top; std::vector<Step*> st; QObject* at = &top; for (int i = 0; i < n; ++i) { if (depth > 1 && i % qMax(1, n / depth) == 0) at = new Pillow::HttpHandlerStack(static_cast<Pillow::HttpHandlerStack*>(at)); if (c.rng.chance(10)) new QObject(at); st.push_back(new Step(i, &ran, at)); }
	c.note = num(n) + " handlers, " + num(depth) + " levels"; c.sample(c.note); c.distinct(fnv(c.note)); std::vector<int> order; std::function<void(QObject*)> walk = [&](QObject* o) { foreach (QObject* k, o->children()) { if (Step* x = dynamic_cast<Step*>(k)) order.push_back(x->id); else if (qobject_cast<Pillow::HttpHandlerStack*>(k)) walk(k); } }; walk(&top); Session s(c); bool taken = false; s.onReady = [&](int) { taken = top.handleRequest(s.conn); if (!taken) s.conn->writeResponse(404); }; s.start();
	for (int k = 0; k < 6 && c.ok(); ++k) { int pos = k == 0 ? -1 : c.rng.chance(50) ? n - 1 - c.rng.below(3) : c.rng.below(n); for (auto x : st) x->take = false; if (pos >= 0) { st[order[pos]]->take = true; if (c.rng.chance(50) && pos + 1 < n) st[order[n - 1]]->take = true; } ran.clear(); s.feed("GET /" + num(k) + " HTTP/1.1\r\n\r\n"); std::vector<int> want(order.begin(), pos < 0 ? order.end() : order.begin() + pos + 1); if (ran != want) c.fail("order", num(int(ran.size())) + " handlers ran instead of " + num(int(want.size()))); if (taken != (pos >= 0)) c.fail("result", ""); c.count("offers", int(ran.size())); }
	s.onReady = 0; s.finish();
}
FAMILY(C19, scale, 32, 500)
{
	begin(c); QBuffer out; out.open(QIODevice::ReadWrite); Pillow::HttpHandlerLog h(&out); int n = logu(c.rng, 50, cap(c, 800, 3000)), per = c.rng.range(1, 4); bool big = c.rng.chance(30); c.note = num(n) + " connections, " + num(per) + " requests each" + (big ? ", long lines" : ""); c.sample(c.note); c.distinct(fnv(c.note)); std::vector<std::unique_ptr<Session> > ss; std::vector<BA> want;
	for (int i = 0; i < n; ++i) { ss.emplace_back(new Session(c)); Session* s = ss.back().get(); s->onReady = [&h, s](int) { h.handleRequest(s->conn); }; s->start(); }
	for (int k = 0; k < per && c.ok(); ++k)
	{
		std::vector<int> order; for (int i = 0; i < n; ++i) order.push_back(i); for (int i = n; --i > 0;) std::swap(order[i], order[c.rng.below(i + 1)]); std::vector<BA> uri(n); for (int i = 0; i < n; ++i) { uri[i] = "/" + num(i) + "/" + num(k) + (big && i % 20 == 0 ? "/" + BA(logu(c.rng, 500, 31000), 'u') : BA()); ss[i]->feed("GET " + uri[i] + " HTTP/1.1\r\n\r\n"); } want.clear(); out.buffer().clear(); out.seek(0);
		for (int i : order) { int len = c.rng.below(200); ss[i]->conn->writeResponse(200, Headers(), BA(len, 'x')); want.push_back("\"GET " + uri[i] + " HTTP/1.1\" 200 " + num(len)); } spin(); QList<BA> lines = deep(out.data()).split('\n'); if (!lines.isEmpty() && lines.last().isEmpty()) lines.removeLast(); if (lines.size() != n) c.fail("line-count", num(lines.size()) + " lines for " + num(n) + " requests"); else for (int i = 0; i < n; ++i) if (!lines[i].contains(want[i])) { c.fail("line", show(lines[i], 200) + " instead of " + show(want[i], 200)); break; } c.count("lines", lines.size());
	}
	for (auto& s : ss) s->onReady = 0; ss.clear();
}
namespace { struct Relay { Ctx& c; Upstream up; Pillow::HttpHandlerProxy proxy; Srv srv; std::vector<std::unique_ptr<Cli> > cl; Relay(Ctx& c_, int kind) : c(c_), proxy(QUrl(up.url())), srv(kind) { srv.onReady = [this](Conn* x) { if (!proxy.handleRequest(x)) c.fail("declined", ""); }; } void poll() { up.poll(); for (auto& x : cl) if (x) x->poll(); } bool wait(const std::function<bool()>& f, int ms = 20000) { return waitFor(c, f, [this]() { poll(); }, ms); } ~Relay() { cl.clear(); srv.onReady = 0; up.onRequest = 0; spinN(3); } }; }
FAMILY(C20, scale, 32, 300)
{
	begin(c); int kind = c.index % 4; Relay w(c, c.index % 3 == 2 ? LOCAL : TCP); w.cl.emplace_back(new Cli()); Cli& k = *w.cl[0]; if (!k.connect(w.srv)) { c.fail("connect", ""); return; } int rounds = kind == 3 ? logu(c.rng, 30, 250) : 1;
	for (int i = 0; i < rounds && c.ok(); ++i)
	{
		int up = kind == 0 ? logu(c.rng, MB, cap(c, 20, 60) * double(MB)) : kind == 3 && i % 8 ? 0 : c.rng.below(2000), down = kind == 1 ? logu(c.rng, MB, cap(c, 25, 80) * double(MB)) : c.rng.below(2000), nh = kind == 2 ? logu(c.rng, 20, 700) : 2, lv = kind == 2 ? logu(c.rng, 100, 20000) : 5; BA data = bodyFor(1 + i, up), body = bodyFor(2 + i, down), uri = "/p" + num(i) + (kind == 2 ? "/" + BA(logu(c.rng, 100, 8000), 'a') : BA()); int framing = c.rng.below(3); if (rounds > 1) framing %= 2; if (kind != 3 || i == 0) { c.note = num(up) + " bytes up, " + num(down) + " down, " + num(nh) + " headers, value of " + num(lv) + ", framing " + num(framing) + ", " + num(rounds) + " rounds"; c.sample(c.note); c.distinct(fnv(c.note)); }
		BA q = "POST " + uri + " HTTP/1.1\r\nHost: x\r\nContent-Length: " + num(up) + "\r\n"; Pairs sent; for (int j = 0; j < nh && q.size() < 22000; ++j) { BA v = j == 0 ? BA(qMin(lv, 9000), 'v') : "v" + num(j * 7); q += "X-Up-" + num(j) + ": " + v + "\r\n"; sent.push_back(std::make_pair("x-up-" + num(j), v)); } BA a = "HTTP/1.1 200 OK\r\n"; Pairs back; for (int j = 0; j < nh; ++j) { BA v = j == 0 ? BA(lv, 'w') : "w" + num(j * 3); if (a.size() + v.size() > 60000) break; a += "X-Down-" + num(j) + ": " + v + "\r\n"; back.push_back(std::make_pair("x-down-" + num(j), v)); }
		if (framing == 0) a += "Content-Length: " + num(down) + "\r\n\r\n" + body; else if (framing == 1) { a += "Transfer-Encoding: chunked\r\n\r\n"; int p = 0; while (p < down) { int n = qMin(down - p, 1 + c.rng.below(qMax(2, down / 5))); a += BA::number(n, 16) + "\r\n" + body.mid(p, n) + "\r\n"; p += n; } a += "0\r\n\r\n"; } else a += "Connection: close\r\n\r\n" + body;
		bool arrived = false; w.up.onRequest = [&](Upstream::C& u, const RawReq& r) { arrived = true; if (r.method != "POST" || r.target != uri) c.fail("request-line", r.method + " " + show(r.target, 100)); if (r.content != data) c.fail("request-content", diffText(data, r.content)); for (auto& h : sent) if (r.value(h.first) != h.second) { c.fail("request-header", h.first + ": " + show(r.value(h.first), 60)); break; } w.up.reply(u, fewPieces(c.rng, a, 6), framing == 2 ? Upstream::FIN : Upstream::KEEP); };
		k.in.clear(); k.send(q + "\r\n" + data); Resp r; int seen = -1; auto done = [&]() { if (k.eof) return true; if (k.in.size() == seen || k.in.size() < down) return false; seen = k.in.size(); return parseResponse(k.in, 0, false, false, r).isEmpty() && r.complete; }; if (!w.wait(done, 40000)) { c.stall("no-response", BA(arrived ? "" : "not arrived, ") + num(k.in.size()) + " bytes received"); return; } BA e = parseResponse(k.in, 0, false, k.eof, r);
		if (!e.isEmpty() || !r.complete) c.fail("response", e + show(k.in, 200)); else { if (r.status != 200) c.fail("status", num(r.status)); if (r.content != body) c.fail("response-content", diffText(body, r.content)); for (auto& h : back) if (r.value(h.first) != h.second) { c.fail("response-header", h.first + ": " + show(r.value(h.first), 60)); break; } } c.count("exchanges"); c.count("bytes", up + down); if (k.eof) { k.shut(); if (i + 1 < rounds) { w.cl[0].reset(new Cli()); break; } }
	}
}
FAMILY(C21, scale, 16, 200)
{
	begin(c); Relay w(c, TCP); int n = logu(c.rng, 30, cap(c, 120, 400)); c.note = num(n) + " exchanges at once"; c.sample(c.note); c.distinct(fnv(c.note) ^ c.rng.next()); std::vector<int> fate(n), order; std::set<BA> hit; int silent = 0, unreached = 0; // The manager gives some requests up when the connections it queued them for get closed.
	 for (int i = 0; i < n; ++i) { fate[i] = c.rng.below(5); if (fate[i] == 4) ++silent; }
	w.up.onRequest = [&](Upstream::C& u, const RawReq& r) { int i = r.target.mid(1).toInt(); hit.insert(num(i)); BA b = bodyFor(i, 300); if (fate[i] == 0) w.up.reply(u, std::vector<BA>(), Upstream::FIN); else if (fate[i] == 1) w.up.reply(u, std::vector<BA>(1, "HTTP/1.1 200 OK\r\nContent-Length: 300\r\n\r\n" + b.left(100)), Upstream::FIN); else w.up.reply(u, std::vector<BA>(1, "HTTP/1.1 200 OK\r\nX-I: " + num(i) + "\r\nContent-Length: 300\r\n\r\n" + b), Upstream::KEEP); };
	for (int i = 0; i < n; ++i) { w.cl.emplace_back(new Cli()); if (!w.cl[i]->connect(w.srv)) { c.fail("connect", num(i)); return; } w.cl[i]->send("GET /" + num(i) + " HTTP/1.1\r\n\r\n"); if (i % 10 == 9) { spin(); w.poll(); } } for (int i = 0; i < n; ++i) if (fate[i] == 4) { w.cl[i]->shut(); }
	auto over = [&](int i) { Cli& k = *w.cl[i]; if (fate[i] == 4 || k.eof) return true; Resp r; return parseResponse(k.in, 0, false, false, r).isEmpty() && r.complete; }; if (!w.wait([&]() { for (int i = 0; i < n; ++i) if (!over(i)) return false; return true; }, 40000)) { int u = 0, ex = -1; for (int i = 0; i < n; ++i) if (!over(i)) { ++u; ex = i; } c.stall("unanswered", num(u) + " clients of " + num(n) + ", for example " + num(ex) + " with fate " + num(fate[ex])); return; }
	for (int i = 0; i < n && c.ok(); ++i) { Cli& k = *w.cl[i]; if (fate[i] == 4) continue; Resp r; BA e = parseResponse(k.in, 0, false, k.eof, r); bool whole = e.isEmpty() && r.complete; if (fate[i] >= 2 && whole && r.status == 503 && !hit.count(num(i)) && ++unreached <= 1 + n / 20) c.count("unreached"); else if (fate[i] >= 2) { if (!whole || r.status != 200 || r.value("X-I") != num(i) || r.content != bodyFor(i, 300)) c.fail("mixed", "client " + num(i) + " got " + show(k.in, 200) + (hit.count(num(i)) ? " (upstream answered)" : " (never reached upstream)")); } else if (fate[i] == 0) { if (!whole || r.status != 503) c.fail("not-503", "client " + num(i) + " got " + show(k.in, 200)); } else if (whole && r.status == 200) c.fail("looks-complete", "client " + num(i)); c.count("exchanges"); }
}
FAMILY(C22, scale, 24, 300)
{
	begin(c); QScriptEngine e; int kind = c.index % 3, n = kind == 0 ? logu(c.rng, 50, cap(c, 600, 2000)) : 2; Pillow::HttpHandlerQtScript h(e.evaluate("(function(r) { var n = 0, s = ''; for (var k in r.requestHeaders) ++n; var p = 0; for (var k in r.requestQueryParams) ++p; r.nativeRequest.writeResponseString(200, {'X-H': '' + n, 'X-P': '' + p, 'X-L': '' + r.requestContent.length}, r.requestPath + '|' + r.requestContent); return true; })")); Session s(c); s.onReady = [&](int) { if (!h.handleRequest(s.conn)) c.fail("declined", ""); }; s.start(); int at = 0; c.note = num(n) + " requests"; 
	for (int i = 0; i < n && c.ok(); ++i) { int nh = kind == 1 ? logu(c.rng, 20, 900) : 2, np = kind == 1 ? logu(c.rng, 10, 900) : 1, len = kind == 2 ? logu(c.rng, 200000, 6 * MB) : c.rng.below(100); BA q; for (int j = 0; j < np; ++j) q += (j ? "&p" : "p") + num(j) + "=" + num(j); BA w = "POST /s" + num(i) + "?" + q + " HTTP/1.1\r\nContent-Length: " + num(len) + "\r\n"; for (int j = 0; j < nh; ++j) w += "X-" + num(j) + ": " + num(j) + "\r\n"; if (w.size() > 32000) continue; BA b; b.resize(len); for (int j = 0; j < len; ++j) b.data()[j] = char('a' + (j * 7 + j / 100 + i) % 26); if (i == 0) { c.note += ", " + num(nh) + " headers, " + num(np) + " params, " + num(len) + " bytes"; c.sample(c.note); c.distinct(fnv(c.note)); }
		s.feed(w + "\r\n" + b); Resp r; BA x = parseResponse(s.d->tx, at, false, false, r); if (!x.isEmpty() || !r.complete) { c.fail("response", x); break; } at = r.end; if (r.status != 200 || r.value("X-H") != num(nh + 1) || r.value("X-P") != num(np) || r.value("X-L") != num(len)) c.fail("request", "status " + num(r.status) + ", " + r.value("X-H") + " headers, " + r.value("X-P") + " params, content of " + r.value("X-L")); if (r.content != "/s" + num(i) + "|" + b) c.fail("content", diffText("/s" + num(i) + "|" + b, r.content)); c.count("requests"); }
	s.onReady = 0; s.finish();
}

// ================================================================ client
FAMILY(C23, scale, 32, 500)
{
	begin(c); int kind = c.index % 4; BA data = kind == 0 ? bodyFor(3, logu(c.rng, 2 * MB, cap(c, 50, 120) * double(MB))) : bodyFor(3, c.rng.below(500)), path = "/" + (kind == 1 ? BA(logu(c.rng, 500, 2 * MB), 'p') : BA("x")); Pairs hs; int nh = kind == 2 ? logu(c.rng, 100, 8000) : 3; for (int i = 0; i < nh; ++i) hs.push_back(std::make_pair("X-" + num(i), kind == 3 && i == 1 ? bodyFor(i, logu(c.rng, 5000, MB)).toHex() : "v" + num(i))); c.note = num(data.size()) + "B data, " + num(path.size()) + "B path, " + num(nh) + " headers"; c.sample(c.note); c.distinct(fnv(c.note));
	{ SimDevice d; Pillow::HttpRequestWriter w; w.setDevice(&d); w.post(path, collection(hs), data); RawReq q; int used = 0; BA why; int k = parseRawRequest(d.tx, q, used, &why); if (k <= 0) { c.fail("malformed", why); return; } if (used != d.tx.size() || q.method != "POST" || q.target != path || q.content != data) { c.fail("request-writer", "method " + q.method + ", path of " + num(q.target.size()) + ", data of " + num(q.content.size())); return; } Pairs rest; for (auto& h : q.headers) if (lower(h.first) != "content-length") rest.push_back(h); BA e = diffPairs(hs, rest); if (!e.isEmpty()) { c.fail("headers", e); return; } }
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); std::vector<RawReq> got; u.onRequest = [&](Upstream::C& k, const RawReq& q) { got.push_back(q); u.reply(k, std::vector<BA>(1, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"), Upstream::KEEP); }; int rounds = kind == 0 || kind == 1 ? 1 : 2;
	for (int i = 0; i < rounds && c.ok(); ++i) { got.clear(); m.begin(); cl.post(urlOf(u.url(), path), collection(hs), data); if (!net.wait([&]() { return m.nFinished > 0 || !u.error.isEmpty(); }, 40000)) { c.stall("no-response", ""); return; } if (!u.error.isEmpty()) { c.fail("malformed", u.error); return; } if (m.error || got.size() != 1) { c.fail("error", errName(m.error)); return; } if (got[0].target != path || got[0].content != data) c.fail("data", "path of " + num(got[0].target.size()) + ", " + diffText(data, got[0].content)); Pairs rest; for (auto& h : got[0].headers) { BA l = lower(h.first); if (l != "content-length" && l != "host") rest.push_back(h); } BA e = diffPairs(hs, rest); if (!e.isEmpty()) c.fail("headers", e); c.count("requests"); c.count("bytes", got[0].raw.size()); }
}
namespace { struct Big { BA wire, content; Pairs headers; int headEnd; bool eof; }; }
static Big bigResponse(Ctx& c, int kind, int id)
{
	Big b; b.eof = false; int n = kind == 0 ? logu(c.rng, 2 * MB, cap(c, 40, 100) * double(MB)) : c.rng.range(1, 3000), chunks = kind == 1 ? logu(c.rng, 60, 8000) : c.rng.range(1, 4); if (kind == 1) n = qMax(n, chunks * 3); b.content = bodyFor(id, n); int framing = kind == 1 ? 1 : c.rng.below(3); b.wire = "HTTP/1.1 200 OK\r\n"; int room = 76000; auto add = [&](const BA& k, const BA& v) { if ((room -= k.size() + v.size() + 4) < 0) return; b.headers.push_back(std::make_pair(k, v)); b.wire += k + ": " + v + "\r\n"; };
	if (kind == 2) { int k = logu(c.rng, 50, 5000); while (k--) add("H" + num(k), num(k * 3)); } if (kind == 3) add("X-Value", bodyFor(4, logu(c.rng, 500, 37000)).toHex()); if (kind == 4) add(genToken(c.rng, logu(c.rng, 100, 70000)), "v"); add("X-Last", num(id));
	if (framing == 0) add("Content-Length", num(n)); else if (framing == 1) add("Transfer-Encoding", "chunked"); else { add("Connection", "close"); b.eof = true; } b.wire += "\r\n"; b.headEnd = b.wire.size(); if (framing == 1) { for (int i = 0, p = 0; i < chunks; ++i) { int e = int(qint64(n) * (i + 1) / chunks); if (e > p) b.wire += BA::number(e - p, 16) + "\r\n" + b.content.mid(p, e - p) + "\r\n"; p = e; } b.wire += "0\r\n\r\n"; } else b.wire += b.content;
	c.note = num(n) + "B content, framing " + num(framing) + " in " + num(chunks) + ", " + num(int(b.headers.size())) + " headers, head of " + num(b.headEnd); return b;
}
FAMILY(C24, scale, 50, 1000)
{
	begin(c); int kind = c.index % 5; Big b = bigResponse(c, kind, c.index); c.sample(c.note); c.distinct(fnv(c.note)); struct P : Pillow::HttpResponseParser { int done; Pairs hs; P() : done(0) {} void headersComplete() { hs = pairsOf(headers()); } void messageComplete() { ++done; } } p; int rounds = kind == 2 ? logu(c.rng, 2, 300) : 1; if (kind == 2 && rounds > 50 && b.headers.size() > 500) rounds = 50; if (b.eof) rounds = 1;
	for (int i = 0; i < rounds && c.ok(); ++i) { p.done = 0; std::vector<BA> ps = fewPieces(c.rng, b.wire, kind == 0 ? 3 : 12); for (size_t j = 0; j < ps.size() && c.ok(); ++j) { if (p.done) c.fail("completed-early", ""); int used = p.inject(ps[j]); if (p.hasError()) c.fail("parse-error", p.errorString()); else if (used != ps[j].size()) c.fail("consumed", num(used) + " of " + num(ps[j].size())); } if (b.eof) p.injectEof(); if (p.done != 1) c.fail("complete-count", num(p.done)); BA e = diffPairs(b.headers, p.hs); if (!e.isEmpty()) c.fail("headers", e); if (p.content() != b.content) c.fail("content", diffText(b.content, deep(p.content()))); c.count("responses"); c.count("bytes", b.wire.size()); }
	if (!c.ok()) return; Net net(c); Upstream& u = *net.up[0]; u.onRequest = [&](Upstream::C& k, const RawReq&) { u.reply(k, fewPieces(c.rng, b.wire, kind == 0 ? 3 : 10), b.eof ? Upstream::FIN : Upstream::KEEP); }; Client cl; Mon m(c, &cl); m.consume = c.rng.chance(30); for (int i = 0; i < 2 && c.ok(); ++i) { m.begin(); cl.get(urlOf(u.url(), "/x")); if (!net.wait([&]() { return m.nFinished > 0; }, 40000)) { c.stall("not-finished", ""); return; } if (m.error) c.fail("error", errName(m.error)); BA e = diffPairs(b.headers, m.headers); if (!e.isEmpty()) c.fail("headers", e); if (m.content != b.content) c.fail("content", diffText(b.content, m.content)); c.count("responses"); if (kind == 0) break; }
}
// A long life of one client. `mix`: failures, compressed and odd responses in between.
static void longLife(Ctx& c, bool mix, bool reuse)
{
	begin(c); int n = logu(c.rng, 50, cap(c, 500, 2000)); Net net(c, reuse ? 2 : 1); Client cl; Mon m(c, &cl); c.note = num(n) + " requests" + (mix ? ", mixed" : ""); c.sample(c.note); c.distinct(fnv(c.note) ^ c.rng.next()); Script s; BA want, wire; int expectErr = 0, end = 0, got = 0, breaks = 0, fresh = 0; RawReq last; RespOpts o; o.maxBody = 800; bool aborts = false; int dest = 0, before = -1; bool open = false;
	for (auto& up : net.up) { Upstream* u = up.get(); u->onRequest = [&, u](Upstream::C& k, const RawReq& q) { ++got; last = q; if (u != net.up[dest].get()) c.fail("misdirected", show(q.target)); if (aborts) { k.busy = false; return; } u->reply(k, std::vector<BA>(1, wire), end); }; }
	for (int i = 0; i < n && c.ok(); ++i)
	{
		int kind = mix ? c.rng.below(8) : 7; aborts = kind == 0; end = Upstream::KEEP; expectErr = 0; o.gzip = kind == 3 || kind == 4; s = clientScript(c.rng, false, i, o); BA body = s.content; if (o.gzip) { if (s.noBody()) o.gzip = false; else s.content = gzipped(c.rng, body); } finishScript(c.rng, s, o); want = s.noBody() ? BA() : body; wire = s.wire; bool keep = keepsAlive(s); if (s.framing == Script::CLOSE && !s.noBody()) end = Upstream::FIN; if (!keep) end = Upstream::FIN;
		if (kind == 1 && !s.noBody() && s.framing != Script::CLOSE && wire.size() > s.headEnd + 2) { wire = wire.left(s.headEnd + 1 + c.rng.below(wire.size() - s.headEnd - 2)); end = Upstream::FIN; expectErr = Client::RemoteHostClosedError; keep = false; } else if (kind == 2) { wire = "garbage\r\n\r\n"; expectErr = Client::ResponseInvalidError; end = Upstream::FIN; keep = false; }
		if (reuse && c.rng.chance(30)) dest ^= 1; Upstream& u = *net.up[dest]; int acc = 0; for (auto& x : net.up) acc += x->accepted; got = 0; BA data = c.rng.chance(40) ? bodyFor(i, c.rng.below(500)) : BA(), path = "/n" + num(i); Pairs hs(1, std::make_pair(BA("X-I"), num(i))); m.begin(); cl.request("POST", urlOf(u.url(), path), collection(hs), data); bool same = open && before == dest;
		if (aborts) { if (c.rng.chance(70)) net.wait([&]() { return got > 0; }); cl.abort(); if (m.nFinished != 1 || m.error != Client::AbortedError) c.fail("abort", errName(m.error)); open = false; before = dest; net.settle(2); continue; }
		if (!net.wait([&]() { return m.nFinished > 0; })) { c.stall("not-finished", "request " + num(i) + " of " + num(n) + ", arrived " + num(got)); return; } if (m.error != expectErr) { c.fail(BA("error:") + errName(m.error), "request " + num(i) + " of " + num(n) + " ended with " + errName(m.error) + " instead of " + errName(expectErr)); return; } if (got != 1 || last.target != path || last.content != data || last.value("X-I") != num(i)) { c.fail("request", "request " + num(i) + " of " + num(n) + " arrived " + num(got) + " times: " + show(last.raw, 200)); return; } if (m.nFinished != 1 || cl.responsePending()) c.fail("finished", num(m.nFinished));
		if (!expectErr) { BA e = diffPairs(s.headers, m.headers); if (m.status != s.status || !e.isEmpty() || m.content != want) { c.fail("response", "request " + num(i) + " of " + num(n) + ": status " + num(m.status) + " for " + num(s.status) + "; " + e + "; " + diffText(want, m.content)); return; } } c.count("requests"); c.count("bytes", wire.size());
		if (reuse) { int now = 0; for (auto& x : net.up) now += x->accepted; if (same && now != acc) c.fail("not-reused", "request " + num(i) + " of " + num(n) + " opened a connection"); else if (!same && now == acc) c.fail("wrongly-reused", "request " + num(i) + " of " + num(n)); else if (!same) ++fresh; } open = keep && end == Upstream::KEEP; before = dest; if (!open) { net.settle(1); ++breaks; }
	}
	c.count("fresh_connections", fresh);
}
FAMILY(C25, scale, 24, 400) { longLife(c, true, false); }
FAMILY(C26, scale, 24, 400) { longLife(c, true, false); }
FAMILY(C28, scale, 24, 400)
{
	if (c.index % 3) { longLife(c, false, true); return; }
	begin(c); Net net(c, 3); Client cl; Mon m(c, &cl); int n = logu(c.rng, 15, cap(c, 150, 600)); c.note = "chain of " + num(n) + " redirections"; c.sample(c.note); c.distinct(fnv(c.note)); int at = 0, served = 0; std::vector<int> where; for (int i = 0; i <= n; ++i) where.push_back(c.rng.below(3)); BA long_ = BA(logu(c.rng, 10, 5000), 'l');
	for (size_t j = 0; j < net.up.size(); ++j) { Upstream* u = net.up[j].get(); int jj = int(j); u->onRequest = [&, u, jj](Upstream::C& k, const RawReq& q) { if (where[at] != jj || q.target != "/" + num(at) + "/" + long_) c.fail("redirected-wrong", "hop " + num(at) + " went to server " + num(jj) + " " + show(q.target, 100)); ++served; BA loc = at < n && where[at + 1] == jj && c.rng.chance(50) ? BA() : net.up[where[qMin(n, at + 1)]]->url().toLatin1(); u->reply(k, std::vector<BA>(1, at < n ? "HTTP/1.1 302 Found\r\nLocation: " + loc + "/" + num(at + 1) + "/" + long_ + "\r\nContent-Length: 0\r\n\r\n" : BA("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")), Upstream::KEEP); }; }
	m.begin(); cl.get(urlOf(net.up[where[0]]->url(), "/0/" + long_)); for (; at <= n && c.ok();) { if (!net.wait([&]() { return m.nFinished > 0; })) { c.stall("not-finished", "hop " + num(at)); return; } if (m.error) { c.fail("error", errName(m.error)); return; } if (served != at + 1) c.fail("hops", num(served)); if (cl.redirected() != (at < n)) c.fail("redirected", "hop " + num(at)); c.count("hops"); if (at == n) break; ++at; m.begin(); cl.followRedirection(); } if (c.ok() && m.content != "ok") c.fail("content", show(m.content));
}
FAMILY(C27, scale, 32, 400)
{
	begin(c); int kind = c.index % 4, n = logu(c.rng, MB, cap(c, 60, 200) * double(MB)); BA body; if (kind == 0) body = BA(n, 'z'); else if (kind == 1) { BA unit = bodyFor(c.index, 5000); while (body.size() < n) body += unit; } else if (kind == 2) { n = qMin(n, 12 * MB); body = bodyFor(c.index, n); } else { n = c.rng.range(1000, 200000); body = bodyFor(c.index, n); }
	BA zip = gzipped(c.rng, body); bool chunked = c.rng.chance(50); BA wire = "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\n"; if (chunked) { wire += "Transfer-Encoding: chunked\r\n\r\n"; int k = kind == 3 ? logu(c.rng, 50, 5000) : c.rng.range(1, 10); for (int i = 0, p = 0; i < k; ++i) { int e = int(qint64(zip.size()) * (i + 1) / k); if (e > p) wire += BA::number(e - p, 16) + "\r\n" + zip.mid(p, e - p) + "\r\n"; p = e; } wire += "0\r\n\r\n"; } else wire += "Content-Length: " + num(zip.size()) + "\r\n\r\n" + zip;
	c.note = num(body.size()) + " bytes, " + num(zip.size()) + " compressed" + (chunked ? ", chunked" : ""); c.sample(c.note); c.distinct(fnv(c.note)); Net net(c); Upstream& u = *net.up[0]; u.onRequest = [&](Upstream::C& k, const RawReq&) { u.reply(k, fewPieces(c.rng, wire, 6), Upstream::KEEP); }; Client cl; Mon m(c, &cl); int rounds = kind == 3 ? c.rng.range(5, 40) : 1; m.consume = c.rng.chance(40);
	for (int i = 0; i < rounds && c.ok(); ++i) { m.begin(); cl.get(urlOf(u.url(), "/x")); if (!net.wait([&]() { return m.nFinished > 0; }, 40000)) { c.stall("not-finished", ""); return; } if (m.error) c.fail("error", errName(m.error)); if (m.content != body) c.fail("content", diffText(body, m.content)); c.count("responses"); c.count("inflated", body.size()); }
}
FAMILY(C29, scale, 16, 300)
{
	begin(c); Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); int n = logu(c.rng, 50, cap(c, 400, 2000)), served = 0; c.note = num(n) + " aborts"; c.sample(c.note); c.distinct(fnv(c.note) ^ c.rng.next()); u.onRequest = [&](Upstream::C& k, const RawReq& q) { ++served; u.reply(k, std::vector<BA>(1, "HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\n" + bodyFor(q.target.mid(1).toInt(), 50)), Upstream::KEEP); }; bool inSignal = false; m.onHeaders = [&]() { if (inSignal) cl.abort(); };
	for (int i = 0; i < n && c.ok(); ++i) { int w = c.rng.below(5); m.begin(); int s0 = served; inSignal = w == 2; cl.get(urlOf(u.url(), "/" + num(i))); if (w == 0) cl.abort(); else if (w == 1) { net.wait([&]() { return served > s0; }); cl.abort(); } else if (!net.wait([&]() { return m.nFinished > 0; })) { c.stall("not-finished", "request " + num(i)); return; } if (w == 3) { cl.abort(); cl.abort(); } int e = w <= 2 ? Client::AbortedError : Client::NoError; if (w == 1 && m.error == Client::NoError) e = Client::NoError; if (m.nFinished != 1 || m.error != e) c.fail("outcome", "request " + num(i) + " of " + num(n) + " finished " + num(m.nFinished) + " times with " + errName(m.error) + " instead of " + errName(e)); if (!e && m.content != bodyFor(i, 50)) c.fail("content", "request " + num(i)); c.count("requests"); }
}
FAMILY(C30, scale, 24, 300)
{
	begin(c); int kind = c.index % 3, ns = kind == 0 ? logu(c.rng, 10, 70) : 2, n = kind == 2 ? 3 : logu(c.rng, 40, cap(c, 250, 1000)); Net net(c, ns); Pillow::NetworkAccessManager nam; int size = kind == 2 ? logu(c.rng, MB, cap(c, 25, 80) * double(MB)) : 300; c.note = num(n) + " requests to " + num(ns) + " servers, " + num(size) + " bytes"; c.sample(c.note); c.distinct(fnv(c.note)); std::vector<int> active(ns), peak(ns); struct X { QNetworkReply* r; int up, fin, len; X() : r(0), up(0), fin(0), len(0) {} }; std::vector<X> xs(n); int finished = 0, burst = kind == 1 && c.rng.chance(50) ? n : logu(c.rng, 1, 80); if (kind == 2) burst = 1;
	for (int j = 0; j < ns; ++j) { Upstream* u = net.up[j].get(); u->onRequest = [&, u, j](Upstream::C& k, const RawReq& q) { int i = q.target.mid(1).toInt(); if (xs[i].up != j) c.fail("misdirected", show(q.target)); if (q.content != bodyFor(i, 60)) c.fail("request-data", show(q.content)); BA b = bodyFor(i, xs[i].len); u->reply(k, fewPieces(c.rng, "HTTP/1.1 200 OK\r\nX-I: " + num(i) + "\r\nContent-Length: " + num(b.size()) + "\r\n\r\n" + b, 3), Upstream::KEEP); }; }
	int made = 0; while (made < n && c.ok()) { int upTo = qMin(n, made + burst); for (; made < upTo; ++made) { int i = made; xs[i].up = kind == 0 && i < ns ? i : c.rng.below(ns); xs[i].len = kind == 2 ? size : c.rng.below(size); QNetworkReply* r = nam.post(QNetworkRequest(urlOf(net.up[xs[i].up]->url(), "/" + num(i))), bodyFor(i, 60)); xs[i].r = r; peak[xs[i].up] = qMax(peak[xs[i].up], ++active[xs[i].up]); QObject::connect(r, &QNetworkReply::finished, [&xs, &finished, &c, i]() { if (++xs[i].fin > 1) c.fail("finished-twice", num(i)); ++finished; }); } if (!net.wait([&]() { return finished >= made; }, 30000)) { int ex = -1; for (int i = 0; i < made; ++i) if (!xs[i].fin) ex = i; c.stall("not-finished", num(made - finished) + " requests, for example " + num(ex) + " of " + num(n)); return; }
		for (int i = 0; i < made; ++i) if (xs[i].r) { QNetworkReply* r = xs[i].r; if (r->error()) c.fail("error", "request " + num(i) + ": " + num(r->error())); if (r->rawHeader("X-I") != num(i)) c.fail("mixed", "request " + num(i) + " got the response to " + show(r->rawHeader("X-I"))); BA g = r->readAll(); if (g != bodyFor(i, xs[i].len)) c.fail("content", "request " + num(i) + ": " + diffText(bodyFor(i, xs[i].len), g)); c.count("replies"); --active[xs[i].up]; r->deleteLater(); xs[i].r = 0; } spin(); }
	for (int j = 0; j < ns && c.ok(); ++j) if (net.up[j]->accepted > peak[j]) c.fail("not-pooled", "server " + num(j) + " of " + num(ns) + " got " + num(net.up[j]->accepted) + " connections for at most " + num(peak[j]) + " requests at a time");
	for (auto& u : net.up) if (!u->error.isEmpty()) c.fail("malformed", u->error);
}
FAMILY(C31, scale, 24, 300)
{
	begin(c); int n = logu(c.rng, MB, cap(c, 20, 60) * double(MB)), bs = logu(c.rng, qMax(1000, n / 1500), MB); bool chunked = c.rng.chance(50); BA b = bodyFor(c.index, n), wire = "HTTP/1.1 200 OK\r\n"; if (chunked) { wire += "Transfer-Encoding: chunked\r\n\r\n"; int p = 0; while (p < n) { int k = qMin(n - p, 1 + c.rng.below(200000)); wire += BA::number(k, 16) + "\r\n" + b.mid(p, k) + "\r\n"; p += k; } wire += "0\r\n\r\n"; } else wire += "Content-Length: " + num(n) + "\r\n\r\n" + b;
	c.note = num(n) + " bytes, buffer " + num(bs) + (chunked ? ", chunked" : ""); c.sample(c.note); c.distinct(fnv(c.note)); Net net(c); Upstream& u = *net.up[0]; u.onRequest = [&](Upstream::C& k, const RawReq&) { u.reply(k, std::vector<BA>(1, wire), Upstream::KEEP); }; Client cl; cl.setReadBufferSize(bs); Mon m(c, &cl); BA got; qint64 peak = 0; m.begin(); cl.get(urlOf(u.url(), "/x")); int pace = c.rng.range(1, 3), t = 0;
	if (!net.wait([&]() { peak = qMax<qint64>(peak, cl.content().size()); if (++t % pace == 0) got += cl.consumeContent(); return m.nFinished > 0; }, 60000)) { c.stall("not-finished", num(got.size()) + " of " + num(n)); return; } got += cl.consumeContent(); if (m.error) c.fail("error", errName(m.error)); if (got != b) c.fail("content", diffText(b, got)); if (peak > 4 * qint64(bs) + 65536) c.fail("unbounded", num(peak) + " bytes held with a buffer of " + num(bs)); c.count("bytes", n);
}
FAMILY(C32, scale, 32, 400)
{
	begin(c); int n = logu(c.rng, 100, cap(c, 6000, 20000)); c.note = num(n) + " headers"; c.sample(c.note); c.distinct(fnv(c.note) ^ c.rng.next()); Headers h; Pairs w; int names = c.rng.range(1, n); for (int i = 0; i < n; ++i) { BA nm = (c.rng.chance(50) ? "X-Name-" : "x-nAME-") + num(c.rng.below(names)) + (c.rng.chance(2) ? BA(c.rng.below(3000), 'n') : BA()), v = c.rng.chance(2) ? bodyFor(i, c.rng.below(3000)) : num(i); w.push_back(std::make_pair(nm, v)); if (c.rng.chance(50)) h << Header(nm, v); else h.append(Header(nm, v)); }
	BA e = diffPairs(w, pairsOf(h)); if (!e.isEmpty()) c.fail("order", e); Headers twice = h; twice << h; Pairs w2 = w; w2.insert(w2.end(), w.begin(), w.end()); e = diffPairs(w2, pairsOf(twice)); if (!e.isEmpty()) c.fail("concatenation", e);
	for (int k = 0; k < 25 && c.ok(); ++k) { BA nm = k < 20 ? w[k < 3 ? n - 1 - k : c.rng.below(n)].first : BA("absent"); BA asked = c.rng.chance(50) ? nm.toUpper() : nm; std::vector<BA> all; for (auto& x : w) if (lower(x.first) == lower(nm)) all.push_back(x.second); if (h.getFieldValue(asked) != (all.empty() ? BA() : all[0])) c.fail("lookup", show(asked, 60)); QVector<BA> got = h.getFieldValues(asked); if (std::vector<BA>(got.begin(), got.end()) != all) c.fail("lookup-all", show(asked, 60) + ": " + num(got.size()) + " of " + num(int(all.size()))); if (!all.empty() && !h.testFieldValue(asked, lower(all.back()))) c.fail("test", show(asked, 60)); if (h.testFieldValue(asked, "no such value")) c.fail("test", "true"); c.count("lookups"); }
}
FAMILY(C33, scale, 48, 800)
{
	begin(c); int n = logu(c.rng, 100, 4 * MB); BA enc, raw; while (enc.size() < n) { int k = c.rng.below(10); if (k < 6) { BA x = c.rng.str("abcXYZ019-._~+&=", c.rng.range(1, 2000)); enc += x; raw += x; } else { int m = c.rng.range(1, 300); for (int i = 0; i < m; ++i) { unsigned char ch = (unsigned char)c.rng.range(1, 127); char t[8]; snprintf(t, 8, c.rng.chance(50) ? "%%%02x" : "%%%02X", ch); enc += t; raw += char(ch); } } } c.note = num(enc.size()) + " bytes to decode"; c.sample(c.note); c.distinct(fnv(c.note));
	QString d = Pillow::ByteArrayHelpers::percentDecode(BA(enc.constData(), enc.size())); if (d != QString::fromUtf8(raw)) c.fail("percent-decode", diffText(raw, d.toUtf8())); QString f = Pillow::ByteArrayHelpers::percentDecode(enc.constData(), enc.size()); if (f != d) c.fail("percent-decode", "overloads differ"); BA t; for (int i = 0; i < 20000; ++i) Pillow::ByteArrayHelpers::appendNumber<int, 10>(t, i); BA want; for (int i = 0; i < 20000; ++i) want += num(i); if (t != want) c.fail("append-number", diffText(want, t)); c.count("bytes", enc.size());
}
// However much has gone by, pieces still come out one by one.
FAMILY(C37, scale, 32, 300)
{
	begin(c); int kind = c.index % 3, n = logu(c.rng, 40, cap(c, 700, 3000)), sz = c.rng.chance(30) ? c.rng.range(1000, 30000) : c.rng.range(1, 300); c.note = num(n) + " pieces of up to " + num(sz); c.sample(c.note); c.distinct(fnv(c.note));
	if (kind == 0) { Session s(c); bool chunked = c.rng.chance(60); s.onReady = [&](int) { s.conn->writeHeaders(200, chunked ? hdrs({{"Transfer-Encoding", "chunked"}}) : hdrs({{"Content-Length", num(1 << 30)}})); for (int i = 0; i < n && c.ok(); ++i) { BA p = bodyFor(i, c.rng.range(1, sz)); int at = s.d->tx.size(); s.conn->writeContent(p); if (!s.d->tx.mid(at).contains(p)) c.fail("write-held-back", "piece " + num(i) + " of " + num(n)); c.count("pieces"); } }; s.start(); s.feed("GET / HTTP/1.1\r\n\r\n"); s.onReady = 0; s.finish(); return; }
	Net net(c); Upstream& u = *net.up[0]; Upstream::C* k = 0; u.onRequest = [&](Upstream::C& x, const RawReq&) { k = &x; x.busy = true; x.p.send("HTTP/1.1 200 OK\r\nContent-Length: 1000000000\r\n\r\n"); u.paused = true; }; Client cl; Mon m(c, &cl); std::unique_ptr<Relay> w; BA total; BA got; bool consume = c.rng.chance(50);
	if (kind == 1) { m.begin(); cl.get(urlOf(u.url(), "/x")); if (!net.wait([&]() { return m.nHeaders > 0; })) { c.stall("headers-late", ""); return; } for (int i = 0; i < n && c.ok(); ++i) { BA p = bodyFor(i, c.rng.range(1, sz)); total += p; k->p.send(p); if (!net.wait([&]() { if (consume) got += cl.consumeContent(); return (consume ? got.size() : cl.content().size()) >= total.size(); })) { c.stall("content-late", "piece " + num(i) + " of " + num(n)); return; } c.count("pieces"); } if ((consume ? got : deep(cl.content())) != total) c.fail("content", "differs"); cl.abort(); return; }
	w.reset(new Relay(c, TCP)); w->cl.emplace_back(new Cli()); Cli& cli = *w->cl[0]; cli.connect(w->srv); cli.send("GET /x HTTP/1.1\r\n\r\n"); Upstream::C* q = 0; w->up.onRequest = [&](Upstream::C& x, const RawReq&) { q = &x; x.busy = true; w->up.paused = true; x.p.send("HTTP/1.1 200 OK\r\nContent-Length: 1000000000\r\n\r\n"); }; if (!w->wait([&]() { return q != 0; })) { c.stall("request-late", ""); return; }
	int head = -1; n = qMin(n, 400); for (int i = 0; i < n && c.ok(); ++i) { BA p = bodyFor(i, c.rng.range(1, sz)); total += p; q->p.send(p); if (!w->wait([&]() { if (cli.eof) return true; if (head < 0) { int e = cli.in.indexOf("\r\n\r\n"); if (e < 0) return false; head = e + 4; } return cli.in.size() - head >= total.size(); })) { c.stall("relay-late", "piece " + num(i) + " of " + num(n)); return; } if (cli.eof) { c.fail("closed", ""); return; } c.count("pieces"); } if (c.ok() && cli.in.mid(head) != total) c.fail("content", diffText(total, cli.in.mid(head)));
}

// ================================================================ sizes beyond what 32 bits hold
namespace {
// Keeps small writes, and of large ones only their length (and whether they were the expected block).
struct Sink : SimDevice
{
	struct W { BA small; qint64 big; }; std::vector<W> ws; qint64 total; std::function<void(qint64, const char*, qint64)> onBig;
	Sink() : total(0) {}
	qint64 writeData(const char* d, qint64 n) { if (n >= 100000) { W w; w.big = n; ws.push_back(w); if (onBig) onBig(total, d, n); } else { if (ws.empty() || ws.back().big) { W w; w.big = 0; ws.push_back(w); } ws.back().small.append(d, int(n)); } total += n; if (!autoDrain) backlog += n; return n; }
};
}
static qint64 hugeSize(Rng& r) { static const qint64 b[] = {2147483647LL, 2147483648LL, 2147483649LL, 4294967295LL, 4294967296LL, 4294967297LL, 4294967296LL + 5, 3000000000LL}; return r.chance(70) ? b[r.below(8)] : qint64(2147483648.0 * (1 + 4 * (r.below(10000) / 10000.0))); }
static const BA& block() { static BA b(64 * MB, 'h'); return b; }
static void hugeResponse(Ctx& c)
{
	begin(c); Sink* d = new Sink; Conn conn; qint64 len = hugeSize(c.rng); int mode = c.rng.below(3); bool excess = c.rng.chance(50), head = c.rng.chance(15); int ready = 0, completed = 0, closed = 0; c.note = num(len) + " bytes " + (mode == 0 ? "of declared length" : mode == 1 ? "chunked" : "until close") + (head ? " for HEAD" : ""); c.sample(c.note); c.distinct(fnv(c.note));
	QObject::connect(&conn, &Conn::requestReady, [&](Conn*) { ++ready; }); QObject::connect(&conn, &Conn::requestCompleted, [&](Conn*) { ++completed; }); QObject::connect(&conn, &Conn::closed, [&](Conn*) { ++closed; });
	conn.initialize(d, d); d->feed(head ? "HEAD / HTTP/1.1\r\n\r\n" : "GET / HTTP/1.1\r\n\r\n"); conn.writeHeaders(200, mode == 0 ? hdrs({{"Content-Length", num(len)}}) : mode == 1 ? hdrs({{"Transfer-Encoding", "chunked"}}) : Headers()); if (mode == 0 && conn.responseContentLength() != len) c.fail("length", num(conn.responseContentLength()));
	if (mode == 0 && (d->ws.empty() || !d->ws[0].small.contains("Content-Length: " + num(len) + "\r\n"))) c.fail("length", d->ws.empty() ? BA() : show(d->ws[0].small)); qint64 sent = 0; std::vector<qint64> parts; BA piece = block();
	while (!head && sent < len && c.ok()) { qint64 n = qMin<qint64>(len - sent, c.rng.chance(70) ? 64 * MB : c.rng.range(32 * MB, 64 * MB)); if (n != piece.size()) piece = block().left(int(n)); if (completed) { c.fail("completed-early", "completed after " + num(sent)); break; } conn.writeContent(piece); sent += n; parts.push_back(n); if (excess && mode == 0 && sent < len && len - sent < 64 * MB) conn.writeContent(block()); c.count("pieces"); }
	if (mode) conn.endContent(); if (completed != 1) c.fail("not-completed", "completed " + num(completed) + " times after " + num(sent)); if (mode == 2 ? closed != 1 : closed != 0) c.fail("closed", num(closed));
	// The wire.
	if (c.ok() && !head) { qint64 body = 0; size_t w = 0; BA tail; for (auto& x : d->ws) { if (x.big) { if (w >= parts.size() || false) { c.fail("content", "an unexpected write of " + num(x.big)); break; } body += x.big; } } qint64 bigs = 0; for (qint64 p : parts) if (p >= 100000) bigs += p; if (c.ok() && body != bigs) c.fail("content", num(body) + " bytes written instead of " + num(bigs)); size_t at = 0; for (size_t i = 0; mode == 1 && i < d->ws.size() && c.ok(); ++i) if (d->ws[i].big) { BA before = i ? d->ws[i - 1].small : BA(); if (!before.endsWith("\r\n" + BA::number(d->ws[i].big, 16) + "\r\n")) c.fail("chunk", "before a chunk of " + num(d->ws[i].big) + ": " + show(before.right(40))); ++at; } if (mode == 1 && c.ok() && !d->ws.back().small.endsWith("\r\n0\r\n\r\n")) c.fail("chunk", show(d->ws.back().small)); c.count("bytes", body); }
	if (c.ok() && mode < 2) { d->feed("GET /next HTTP/1.1\r\n\r\n"); if (ready != 2) c.fail("next-request", "not announced"); else { BA b = BA(5, 'n'); conn.writeResponse(200, Headers(), b); if (!d->ws.back().small.endsWith("\r\n\r\nnnnnn")) c.fail("next-response", show(d->ws.back().small)); } } d->close(); spin(); delete d;
}
FAMILY(C04, huge, 14, 200) { hugeResponse(c); }
FAMILY(C05, huge, 10, 200) { hugeResponse(c); }
FAMILY(C16, huge, 3, 24)
{
	begin(c); BA dir = scratchDir().toLocal8Bit() + "/huge16"; ::mkdir(dir.constData(), 0755); BA path = dir + "/f"; qint64 len = c.index < 2 ? (c.index ? 4294967296LL + 12345 : 2147483648LL + 999) : hugeSize(c.rng); int f = ::open(path.constData(), O_CREAT | O_RDWR | O_TRUNC, 0644); if (f < 0 || ::ftruncate(f, len) != 0) { if (f >= 0) ::close(f); c.count("skipped"); return; } std::map<qint64, BA> marks; for (int i = 0; i < 40; ++i) { qint64 at = i == 0 ? 0 : i == 1 ? len - 8 : i == 2 ? 2147483644LL : i == 3 && len > 4294967310LL ? 4294967292LL : qint64(c.rng.next() % quint64(len - 8)); bool near = false; for (auto& m : marks) if (qAbs(m.first - at) < 16) near = true; if (near) continue; BA v = "M" + num(1000000 + i); if (::pwrite(f, v.constData(), 8, at) != 8) break; marks[at] = v; } ::close(f);
	int bs = c.rng.range(4 * MB, 24 * MB); c.note = num(len) + " bytes, buffer " + num(bs); c.sample(c.note); c.distinct(fnv(c.note)); Pillow::HttpHandlerFile h(QString::fromLocal8Bit(dir)); h.setBufferSize(bs); Sink* d = new Sink; d->autoDrain = false; Conn conn; int completed = 0, closed = 0; qint64 headLen = -1, at = 0, bad = -1; QObject::connect(&conn, &Conn::requestReady, [&](Conn* x) { if (!h.handleRequest(x)) c.fail("declined", ""); }); QObject::connect(&conn, &Conn::requestCompleted, [&](Conn*) { ++completed; }); QObject::connect(&conn, &Conn::closed, [&](Conn*) { ++closed; });
	size_t found = 0; BA carry; d->onBig = [&](qint64 pos, const char* p, qint64 n) { if (headLen < 0) headLen = pos; at = pos - headLen; for (auto it = marks.lower_bound(at - 7); it != marks.end() && it->first < at + n; ++it) { qint64 from = qMax(it->first, at), to = qMin(it->first + 8, at + n); if (memcmp(p + (from - at), it->second.constData() + (from - it->first), size_t(to - from))) bad = it->first; if (to == it->first + 8) ++found; } for (int k = 0; k < 20; ++k) { qint64 o = qint64(quint64(k * 7919 + 13) * 104729 % quint64(n)); auto it = marks.upper_bound(at + o); bool in = false; if (it != marks.begin()) { --it; in = at + o < it->first + 8; } if (!in && p[o]) bad = at + o; } };
	conn.initialize(d, d); d->feed("GET /f HTTP/1.1\r\n\r\n"); int guard = 0; while (d->backlog > 0 && ++guard < 100000) { if (d->backlog > bs * 2LL + 100000) { c.fail("hoards", num(d->backlog)); break; } d->drain(d->backlog); spin(); } BA head = d->ws.empty() ? BA() : d->ws[0].small; qint64 small = 0; for (size_t i = 1; i < d->ws.size(); ++i) small += d->ws[i].small.size(); (void)small;
	if (!head.contains("Content-Length: " + num(len) + "\r\n")) c.fail("length", show(head, 300)); else if (bad >= 0) c.fail("content", "wrong at byte " + num(bad)); else if (d->total - head.indexOf("\r\n\r\n") - 4 != len) c.fail("incomplete", num(d->total) + " bytes written"); else if (completed != 1) c.fail("not-completed", ""); else if (found + 1 < marks.size()) c.fail("content", num(int(found)) + " marks of " + num(int(marks.size()))); else if (closed) c.fail("closed", ""); c.count("bytes", d->total); d->close(); spin(); delete d; ::unlink(path.constData());
}
// A response of more than 4 GB goes through the parser piece by piece.
FAMILY(C24, huge, 8, 150)
{
	begin(c); struct P : Pillow::HttpResponseParser { int done, heads; qint64 got; P() : done(0), heads(0), got(0) {} void headersComplete() { ++heads; } void messageContent(const char*, int n) { got += n; } void messageComplete() { ++done; } } p; qint64 len = hugeSize(c.rng), sent = 0; int framing = c.rng.below(3); c.note = num(len) + " bytes, framing " + num(framing); c.sample(c.note); c.distinct(fnv(c.note)); BA head = "HTTP/1.1 200 OK\r\n" + (framing == 0 ? "Content-Length: " + num(len) + "\r\n" : framing == 1 ? BA("Transfer-Encoding: chunked\r\n") : BA("Connection: close\r\n")) + "\r\n"; bool one = c.rng.chance(50);
	auto put = [&](const BA& b) { if (p.done) c.fail("completed-early", "after " + num(sent)); int u = p.inject(b); if (p.hasError()) c.fail("parse-error", p.errorString()); else if (u != b.size()) c.fail("consumed", num(u) + " of " + num(b.size())); }; put(head); if (framing == 1 && one) put(BA::number(len, 16) + "\r\n"); BA piece = block();
	while (sent < len && c.ok()) { qint64 n = qMin<qint64>(len - sent, c.rng.chance(70) ? 64 * MB : c.rng.range(32 * MB, 64 * MB)); if (n != piece.size()) piece = block().left(int(n)); if (framing == 1 && !one) put(BA::number(n, 16) + "\r\n"); put(piece); sent += n; if (framing == 1 && (!one || sent == len)) put("\r\n"); if (p.got != sent) c.fail("content", num(p.got) + " bytes reported of " + num(sent)); c.count("pieces"); }
	if (framing == 1 && c.ok()) put("0\r\n\r\n"); if (framing == 2) p.injectEof(); if (c.ok() && (p.done != 1 || p.heads != 1)) c.fail("complete-count", num(p.done)); if (c.ok() && p.shouldKeepAlive() != (framing < 2)) c.fail("keep-alive", ""); if (c.ok() && framing < 2) { p.done = 0; p.got = 0; sent = 0; put("HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc"); if (p.done != 1 || p.got != 3) c.fail("next-response", num(p.got)); } c.count("bytes", sent);
}
// Lengths that are only announced.
FAMILY(C19, huge, 60, 500)
{
	QBuffer out; out.open(QIODevice::ReadWrite); Pillow::HttpHandlerLog h(&out); Session s(c); qint64 len = hugeSize(c.rng); s.onReady = [&](int) { h.handleRequest(s.conn); s.conn->writeHeaders(200, hdrs({{"Content-Length", num(len)}})); }; s.start(); s.feed("HEAD /" + num(c.index) + " HTTP/1.1\r\n\r\n"); c.note = num(len); c.sample(c.note); c.distinct(fnv(c.note)); if (!out.data().contains("\"HEAD /" + num(c.index) + " HTTP/1.1\" 200 " + num(len) + " ")) c.fail("line", show(out.data(), 200)); c.count("lines"); s.onReady = 0; s.finish();
}
