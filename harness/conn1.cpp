// Request side of the server connection: fidelity (C01), refusal (C02), ordering (C03). Simulated device: every byte boundary is under control.
#include "session.h"

// ================================================================ C01
static void checkSeen(Ctx& c, const Req& q, Conn* conn, const char* when)
{
	Seen s = seeRequest(conn); BA d = diffSeen(q, s);
	if (!d.isEmpty()) { BA f = d.left(d.indexOf(':')); f = f.split(' ').first(); c.fail("request-differs:" + f, BA(when) + ": " + d + " | request: " + show(q.head(), 500)); }
	for (size_t i = 0; i < q.headers.size(); ++i)
	{
		BA n = q.headers[i].first; if (i % 3 == 1) n = n.toUpper(); else if (i % 3 == 2) n = n.toLower();
		BA got = deep(conn->requestHeaderValue(n));
		if (got != q.value(n)) { c.fail("header-lookup", "requestHeaderValue(" + show(n, 60) + ") = " + show(got, 100) + " expected " + show(q.value(n), 100)); break; }
	}
}
static void runC01(Ctx& c, std::vector<Req>& reqs, Conn* reuse)
{
	Session s(c, reuse, c.rng.chance(70));
	bool pipelined = c.rng.chance(50);
	int deferred = c.rng.chance(40); // answer only after more bytes arrived
	int current = -1; int answered = 0;
	s.onReady = [&](int k) {
		if (k >= int(reqs.size())) { c.fail("extra-request", "a request was delivered that was never sent"); return; }
		current = k; c.count("requests");
		checkSeen(c, reqs[k], s.conn, "when ready");
		if (!deferred) { ++answered; s.conn->writeResponse(200, Headers(), bodyFor(k, 20)); }
	};
	s.start();
	auto answerDue = [&]() { while (deferred && answered < s.nReady && !s.isClosed()) { checkSeen(c, reqs[current], s.conn, "just before the response"); ++answered; s.conn->writeResponse(200, Headers(), bodyFor(current, 20)); if (!pipelined) break; } };
	if (pipelined)
	{
		BA all; std::vector<int> interesting; for (auto& q : reqs) { interesting.push_back(all.size() + q.head().size()); all += q.wire(); interesting.push_back(all.size()); }
		std::vector<BA> pcs = split(c.rng, all, interesting);
		c.note = "pipelined, " + describe(pcs) + ", deferred=" + num(deferred);
		for (auto& p : pcs) { s.feed(p); if (c.rng.chance(30)) spin(); if (c.rng.chance(30)) answerDue(); }
		for (int i = 0; i < int(reqs.size()) + 2; ++i) answerDue();
	}
	else for (size_t i = 0; i < reqs.size(); ++i)
	{
		BA w = reqs[i].wire(); std::vector<BA> pcs = split(c.rng, w, std::vector<int>(1, reqs[i].head().size()));
		c.note = "request " + num(i) + ", " + describe(pcs) + ", deferred=" + num(deferred);
		for (size_t k = 0; k < pcs.size(); ++k) { s.feed(pcs[k]); if (c.rng.chance(20)) spin(); if (k + 1 < pcs.size() && s.nReady > int(i)) { c.fail("early-ready", "request announced before its last byte arrived (" + num(k + 1) + " of " + num(pcs.size()) + " pieces)"); } }
		if (s.nReady != int(i) + 1) { c.fail("ready-count", "after request " + num(i) + " fully arrived, " + num(s.nReady) + " requests were announced, expected " + num(int(i) + 1) + " | " + show(reqs[i].head(), 400)); break; }
		answerDue();
		uint64_t h = fnv(reqs[i].method); h = fnv(BA::number(reqs[i].uri.size() / 8) + BA::number(int(reqs[i].headers.size())) + BA::number(reqs[i].content.size()), h); c.distinct(h ^ pcs.size());
	}
	if (pipelined) { if (s.nReady != int(reqs.size())) c.fail("ready-count", num(s.nReady) + " requests announced, " + num(int(reqs.size())) + " sent"); c.distinct(fnv(reqs.back().uri) ^ reqs.size() * 77 ^ reqs.back().content.size()); }
	s.finish();
}
static std::vector<Req> reqSequence(Ctx& c, int n, const GenOpts& o)
{
	std::vector<Req> v;
	for (int i = 0; i < n; ++i) { Req q = genRequest(c.rng, o); if (i + 1 < n && q.version != "HTTP/1.1") { q.version = "HTTP/1.1"; } v.push_back(q); }
	return v;
}
FAMILY(C01, sequences, 30000, 600000)
{
	GenOpts o; o.maxBody = c.rng.chance(10) ? 70000 : 3000;
	std::vector<Req> reqs = reqSequence(c, c.rng.range(1, 4), o);
	c.sample(show(reqs[0].head(), 500) + " + " + num(reqs[0].content.size()) + " body bytes");
	runC01(c, reqs, 0);
}
FAMILY(C01, reused, 4000, 80000)
{
	Conn conn;
	for (int i = 0; i < 3 && c.ok(); ++i) { GenOpts o; o.maxBody = c.rng.chance(20) ? 50000 : 500; std::vector<Req> reqs = reqSequence(c, c.rng.range(1, 3), o); runC01(c, reqs, &conn); }
}
FAMILY(C01, biglimits, 300, 6000)
{
	// Heads close to (but within) the limit and large bodies.
	std::vector<Req> reqs; int n = c.rng.range(1, 2);
	for (int i = 0; i < n; ++i)
	{
		GenOpts o; o.maxHeaders = 4; o.maxBody = 0; Req q = genRequest(c.rng, o); q.version = "HTTP/1.1";
		int target = c.rng.range(20000, 32600); int room = target - q.head().size();
		while (room > 40) { int vl = qMin(room - 20, c.rng.range(1, 9000)); q.add("X-Fill-" + num(q.headers.size()), c.rng.str("abcdefghijklmnop qrst", vl).replace(' ', 'z')); q.spaces.resize(q.headers.size(), 1); room = target - q.head().size(); }
		if (c.rng.chance(60)) { int bl = c.rng.chance(30) ? c.rng.range(200000, 2500000) : c.rng.range(1, 70000); q.content = c.rng.bytes(bl); if (!q.hasLength) { q.hasLength = true; q.add("Content-Length", num(bl)); q.spaces.push_back(1); } else for (auto& h : q.headers) if (lower(h.first) == "content-length") h.second = num(bl); }
		if (q.head().size() > 32700) { --i; continue; }
		reqs.push_back(q);
	}
	runC01(c, reqs, 0);
}

// Announced lengths up to the limit itself (128 MiB) are accepted.
FAMILY(C01, largest, 12, 40)
{
	Rng& r = c.rng; const int limit = 128 * 1024 * 1024; bool whole = c.index % 6 == 0; int len = limit - (c.index % 3 == 0 ? 0 : c.index % 3 == 1 ? 1 : r.below(1 << r.range(2, 20))), before = r.below(3); Session s(c, 0, true); int wrong = 0; BA body; if (whole) { body = BA(len, 'z'); for (int i = 0; i < len; i += 4093) body[i] = char(i * 7 / 4093); }
	s.onReady = [&](int k) { if (k == before && (BA(s.conn->requestContent().constData(), s.conn->requestContent().size()) != body)) ++wrong; s.conn->writeResponse(200, Headers(), "ok"); };
	s.start(); for (int i = 0; i < before; ++i) s.feed("GET /" + num(i) + " HTTP/1.1\r\nHost: x\r\n\r\n"); int had = s.d->tx.size(); c.note = "Content-Length: " + num(len) + (whole ? ", sent whole" : ", only announced") + " after " + num(before) + " requests"; c.sample(c.note);
	s.feed("POST /big HTTP/1.1\r\nHost: x\r\nContent-Length: " + num(len) + "\r\n\r\n"); spin(); c.count("lengths");
	if (s.d->tx.size() != had || s.isClosed()) { c.fail("largest-refused", c.note + ": answered before its content arrived: " + show(s.d->tx.mid(had), 100)); return; }
	if (whole) { int pos = 0; while (pos < len && c.ok()) { int n = qMin(len - pos, r.range(20000000, 70000000)); s.feed(body.mid(pos, n)); pos += n; if (pos < len && s.nReady > before) c.fail("early-ready", c.note + ": announced after " + num(pos) + " bytes of content"); } if (s.nReady != before + 1) c.fail("ready-count", c.note + ": the request was never announced"); else if (wrong) c.fail("request-differs:content", c.note); }
	else { s.feed(BA(r.range(1, 3000), 'q')); spin(); if (s.nReady != before || s.isClosed()) c.fail("early-ready", c.note); }
	c.distinct(len); s.finish();
}

// ================================================================ C02
static BA invalidRequest(Rng& r, int& status, BA& kind)
{
	status = 400; BA ok = "Host: x\r\n";
	switch (r.below(22))
	{
	case 0: kind = "lower-case method"; return "get / HTTP/1.1\r\n" + ok + "\r\n";
	case 1: kind = "two spaces before uri"; return "GET  / HTTP/1.1\r\n\r\n";
	case 2: kind = "space in uri"; return "GET /a b HTTP/1.1\r\n" + ok + "\r\n";
	case 3: kind = "control character in uri"; return "GET /" + genPathChars(r, r.below(30), false) + BA(1, char(r.range(1, 31))) + " HTTP/1.1\r\n\r\n";
	case 4: kind = "bad protocol"; return "GET / HTTQ/1.1\r\n\r\n";
	case 5: kind = "bad version"; return "GET / HTTP/x.1\r\n\r\n";
	case 6: kind = "header without colon"; return "GET / HTTP/1.1\r\n" + ok + "BadHeader\r\n\r\n";
	case 7: kind = "empty header name"; return "GET / HTTP/1.1\r\n" + ok + ": value\r\n\r\n";
	case 8: kind = "space in header name"; return "GET / HTTP/1.1\r\nBad Name: x\r\n\r\n";
	case 9: kind = "bad escape in uri"; return "GET /%z1 HTTP/1.1\r\n\r\n";
	case 10: kind = "binary garbage"; return BA(1, char(r.range(1, 8))) + r.bytes(r.range(1, 200));
	case 11: { kind = "oversized head, terminated"; int n = r.range(33500, 90000); return "GET / HTTP/1.1\r\nX-Big: " + BA(n, 'b') + "\r\n\r\n"; }
	case 12: { kind = "oversized head, unterminated"; int n = r.range(33500, 70000); return "GET / HTTP/1.1\r\nX-Big: " + BA(n, 'c'); }
	case 13: { kind = "oversized uri"; int n = r.range(33500, 70000); return "GET /" + BA(n, 'u') + " HTTP/1.1\r\n\r\n"; }
	case 14: { kind = "many headers over the limit"; BA q = "POST /x HTTP/1.1\r\n"; while (q.size() < 34000) q += "X-" + num(q.size()) + ": " + BA(r.below(60), 'v') + "\r\n"; return q + "\r\n"; }
	case 15: kind = "missing version"; return "GET /\r\n\r\n";
	case 16: case 17: { kind = "content-length not a number"; status = 413; static const char* v[] = {"abc", "12abc", "1.5", "1,2", "5 5", "0x10", "--1", "99999999999999999999", "4294967297", "1e3", "5;", "five", "0x"}; BA x = v[r.below(13)]; kind += " (" + x + ")"; return "POST / HTTP/1.1\r\n" + ok + (r.chance(50) ? "Content-Length: " : "content-LENGTH: ") + x + "\r\n\r\n"; }
	case 18: case 19: { kind = "negative content-length"; BA x = num(-r.range(1, 1000000000)); if (r.chance(40)) x = "-1"; kind += " (" + x + ")"; return "PUT /n HTTP/1.1\r\nContent-Length: " + x + "\r\n" + ok + "\r\n"; }
	default: { kind = "content-length too large"; status = 413; qint64 v = r.chance(50) ? 128 * 1024 * 1024 + 1 + r.below(10) : qint64(r.range(128 * 1024 * 1024 + 1, 2147483647)); return "POST / HTTP/1.1\r\n" + ok + "Content-Length: " + num(v) + "\r\n\r\n"; }
	}
}
FAMILY(C02, refusal, 50000, 1000000)
{
	int k = c.rng.chance(35) ? 0 : c.rng.range(1, 3);
	GenOpts o; o.simple = c.rng.chance(50); o.maxBody = 300; o.maxHeaders = 5;
	std::vector<Req> reqs; for (int i = 0; i < k; ++i) { Req q = genRequest(c.rng, o); q.version = "HTTP/1.1"; reqs.push_back(q); }
	int status; BA kind; BA bad = invalidRequest(c.rng, status, kind);
	bool autoDrain = c.rng.chance(50); bool pipelined = c.rng.chance(60); bool deferred = pipelined ? false : c.rng.chance(40); bool deferP = pipelined && c.rng.chance(40);
	BA extra = c.rng.chance(60) ? (c.rng.chance(50) ? BA("GET /after HTTP/1.1\r\n\r\n") : c.rng.bytes(c.rng.range(1, 50))) : BA();
	c.note = kind + " after " + num(k) + " requests, pipelined=" + num(pipelined) + " deferred=" + num(deferred || deferP) + " autoDrain=" + num(autoDrain);
	c.sample(c.note);
	bool reuse = c.rng.chance(30); Conn pooled; if (reuse) { Session s0(c, &pooled); s0.onReady = [&](int) { s0.conn->writeResponse(200); }; s0.start(); s0.feed("GET /warm HTTP/1.1\r\nA: b\r\n\r\n"); s0.finish(); }
	Session s(c, reuse ? &pooled : 0, autoDrain);
	int answered = 0; std::vector<BA> methods;
	auto answer = [&](int i) { ++answered; s.conn->writeResponse(200, Headers(), bodyFor(i, 10 + i)); };
	s.onReady = [&](int i) {
		if (i >= k) { c.fail("invalid-delivered", "an invalid request was delivered: method=" + show(s.conn->requestMethod(), 40) + " uri=" + show(s.conn->requestUri(), 80)); s.conn->writeResponse(200); return; }
		if (!deferred && !deferP) answer(i);
	};
	s.start();
	auto due = [&]() { while (answered < s.nReady && answered < k && !s.isClosed()) answer(answered); };
	BA all; for (auto& q : reqs) { methods.push_back(q.method); }
	if (pipelined)
	{
		for (auto& q : reqs) all += q.wire();
		int badAt = all.size(); all += bad;
		if (c.rng.chance(50)) { all += extra; }
		std::vector<BA> pcs = split(c.rng, all, std::vector<int>(1, badAt));
		for (auto& p : pcs) { s.feed(p); if (deferP && c.rng.chance(40)) due(); if (c.rng.chance(20)) spin(); if (!autoDrain && c.rng.chance(20)) s.d->drain(c.rng.below(200)); }
		for (int i = 0; i <= k; ++i) due();
	}
	else
	{
		for (auto& q : reqs) { s.feedAll(split(c.rng, q.wire())); due(); }
		s.feedAll(split(c.rng, bad));
	}
	spin();
	if (!autoDrain)
	{
		if (s.nClosed && s.d->backlog > 0) c.fail("closed-before-flush", "closed with " + num(s.d->backlog) + " bytes not flushed");
		int guard = 0; while (s.d->backlog > 0 && s.d->isOpen() && ++guard < 20000) s.d->drain(c.rng.range(1, 200));
	}
	int len = s.d->tx.size();
	if (!s.nClosed) c.fail("not-closed", "connection not closed after the error response; sent: " + show(s.d->tx.right(200)));
	s.feed(extra + "GET /later HTTP/1.1\r\n\r\n"); spin();
	if (s.d->tx.size() != len) c.fail("output-after-error", "bytes sent after the error response");
	std::vector<Resp> rs; BA e = parseStream(s.d->tx, methods, true, rs);
	if (!e.isEmpty()) c.fail("wire-invalid", e + " in " + show(s.d->tx, 600));
	else if (int(rs.size()) != k + 1) c.fail("response-count", num(rs.size()) + " responses on the wire, expected " + num(k + 1) + ": " + show(s.d->tx, 600));
	else
	{
		for (int i = 0; i < k; ++i) { BA want = methods[i] == "HEAD" ? BA() : bodyFor(i, 10 + i); if (rs[i].status != 200 || rs[i].content != want) c.fail("earlier-response", "response " + num(i) + " damaged: " + show(rs[i].statusLine, 60) + " " + show(rs[i].content, 60)); }
		if (rs[k].status != status) c.fail("error-status", kind + " answered with " + show(rs[k].statusLine, 60) + ", expected " + num(status));
		if (!rs[k].content.isEmpty() && rs[k].countOf("content-length") == 0 && !rs[k].untilClose) c.fail("error-body", "error response is not framed");
		if (lower(rs[k].value("connection")) != "close") c.fail("error-connection-header", "error response does not announce the close: " + show(s.d->tx.right(200)));
	}
	if (s.nReady != k) c.fail("delivered-count", num(s.nReady) + " requests delivered, expected " + num(k));
	c.distinct(fnv(kind) ^ k * 31 ^ pipelined * 1000 ^ deferred * 77777);
	c.count("refusals");
}

// ================================================================ C03
struct Plan { int mode; int status; int size; int pieces; int delay; bool chunked; }; // how the application answers one request
FAMILY(C03, order, 30000, 600000)
{
	int n = c.rng.range(2, 9); GenOpts o; o.maxBody = c.rng.chance(15) ? 20000 : 200; o.simple = c.rng.chance(30); o.maxHeaders = 4;
	std::vector<Req> reqs; std::vector<BA> methods; std::vector<Plan> plans; BA all; std::vector<int> ends;
	for (int i = 0; i < n; ++i)
	{
		Req q = genRequest(c.rng, o); q.version = "HTTP/1.1"; q.add("X-Id", num(i)); q.spaces.resize(q.headers.size(), 1); reqs.push_back(q); methods.push_back(q.method);
		Plan p; p.mode = c.rng.below(4); p.status = c.rng.chance(80) ? 200 : 404; p.size = c.rng.chance(10) ? 0 : c.rng.size(6000); p.pieces = c.rng.range(1, 4); p.delay = c.rng.range(0, 3); p.chunked = c.rng.chance(30); plans.push_back(p);
		all += q.wire(); ends.push_back(all.size());
	}
	bool noPipeline = c.rng.chance(20);
	std::vector<BA> pcs;
	if (noPipeline) for (auto& q : reqs) { auto v = split(c.rng, q.wire()); pcs.insert(pcs.end(), v.begin(), v.end()); }
	else pcs = split(c.rng, all, ends);
	c.note = num(n) + " requests, " + describe(pcs); c.sample(c.note + " plan modes: " + [&]() { BA s; for (auto& p : plans) s += num(p.mode) + (p.chunked ? "c" : "") + " "; return s; }());
	Session s(c, 0, c.rng.chance(60));
	std::vector<std::function<void()> > todo; int wait = 0; int fed = 0;
	// The pieces of the response of request i, executed in order either at once or spread over later steps.
	auto makeSteps = [&](int i) {
		std::vector<std::function<void()> > st; Plan p = plans[i]; BA body = bodyFor(i, p.size);
		if (p.mode == 0 || (p.mode == 1 && !p.chunked)) { st.push_back([&s, p, body]() { s.conn->writeResponse(p.status, Headers(), body); }); return st; }
		Headers h; if (p.chunked) h << Header("Transfer-Encoding", "chunked"); else h << Header("Content-Length", num(body.size()));
		st.push_back([&s, p, h]() { s.conn->writeHeaders(p.status, h); });
		if (methods[i] == "HEAD" || (!p.chunked && body.isEmpty())) return st;
		int pos = 0; for (int k = 0; k < p.pieces; ++k) { int e = k + 1 == p.pieces ? body.size() : c.rng.range(pos, body.size()); BA part = body.mid(pos, e - pos); pos = e; if (!part.isEmpty()) st.push_back([&s, part]() { s.conn->writeContent(part); }); }
		if (p.chunked) st.push_back([&s]() { s.conn->endContent(); });
		return st;
	};
	s.onReady = [&](int i) {
		if (i >= n) { c.fail("extra-request", "more requests announced than sent"); return; }
		Seen v = seeRequest(s.conn); BA id; for (auto& h : v.headers) if (h.first == "X-Id") id = h.second;
		if (id != num(i)) c.fail("order", "request " + num(i) + " announced with id " + show(id, 20));
		BA dd = diffSeen(reqs[i], v); if (!dd.isEmpty()) c.fail("request-differs", dd);
		int arrived = fed; if (arrived < ends[i]) c.fail("early-ready", "request " + num(i) + " announced after " + num(arrived) + " of " + num(ends[i]) + " bytes");
		auto st = makeSteps(i);
		if (plans[i].mode == 0 || plans[i].mode == 2) for (auto& f : st) f();
		else { todo.insert(todo.end(), st.begin(), st.end()); wait = plans[i].delay; }
	};
	s.start();
	auto step = [&]() { if (todo.empty()) return; if (wait-- > 0) return; auto f = todo.front(); todo.erase(todo.begin()); wait = c.rng.below(2); f(); };
	for (auto& p : pcs) { fed += p.size(); s.feed(p); if (c.rng.chance(40)) step(); if (c.rng.chance(15)) spin(); if (c.rng.chance(20)) s.d->drain(c.rng.below(3000)); if (noPipeline) { int g = 0; while (!todo.empty() && ++g < 100) step(); } }
	for (int g = 0; g < 2000 && !todo.empty(); ++g) step();
	spin();
	if (s.nClosed) c.fail("closed", "keep-alive connection was closed");
	if (s.nReady != n) c.fail("ready-count", num(s.nReady) + " of " + num(n) + " requests announced");
	if (s.nCompleted != n) c.fail("completed-count", num(s.nCompleted) + " of " + num(n) + " responses completed");
	std::vector<Resp> rs; BA e = parseStream(s.d->tx, methods, false, rs);
	if (!e.isEmpty()) c.fail("wire-invalid", e);
	else if (int(rs.size()) != n) c.fail("response-count", num(rs.size()) + " responses for " + num(n) + " requests");
	else for (int i = 0; i < n; ++i)
	{
		BA want = methods[i] == "HEAD" ? BA() : bodyFor(i, plans[i].size);
		if (!rs[i].complete) c.fail("response-incomplete", "response " + num(i));
		if (rs[i].status != plans[i].status || rs[i].content != want) { c.fail("response-differs", "response " + num(i) + " status " + num(rs[i].status) + ": " + diffText(want, rs[i].content)); break; }
		if (i < int(s.completedTx.size()) && s.completedTx[i] != rs[i].end) c.fail("completed-at", "response " + num(i) + " announced complete after " + num(s.completedTx[i]) + " output bytes, it ends at " + num(rs[i].end));
		if (i > 0 && s.readyTx[i] < rs[i - 1].end) c.fail("ready-before-response", "request " + num(i) + " announced before response " + num(i - 1) + " was sent");
	}
	uint64_t h = 1; for (auto& p : plans) h = h * 131 + p.mode * 7 + p.chunked; c.distinct(h ^ n);
	s.finish();
}


// Very many small requests in few reads, answered at once: stack depth and cost must not grow with the backlog.
FAMILY(C03, deep, 24, 200)
{
	int n = c.rng.range(3000, c.thorough ? 60000 : 20000); BA all; std::vector<BA> methods(n, "GET");
	for (int i = 0; i < n; ++i) all += "GET /" + num(i) + " HTTP/1.1\r\n\r\n";
	c.note = num(n) + " pipelined requests, " + num(all.size()) + " bytes"; c.sample(c.note);
	Session s(c); bool ok = true; int style = c.rng.below(3);
	s.onReady = [&](int i) { if (s.conn->requestPath() != "/" + num(i)) ok = false; if (style == 0) s.conn->writeResponse(200, Headers(), num(i)); else if (style == 1) s.conn->writeResponse(304); else { s.conn->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); s.conn->writeContent(num(i)); s.conn->endContent(); } };
	s.start(); if (c.rng.chance(50)) s.feed(all); else s.feedAll(split(c.rng, all));
	waitFor(c, [&]() { return s.nCompleted >= n; }, std::function<void()>(), 30000);
	if (s.nReady != n || s.nCompleted != n) c.fail("deep-count", num(s.nReady) + " of " + num(n) + " requests announced, " + num(s.nCompleted) + " completed");
	if (!ok) c.fail("deep-order", "a request was announced out of order");
	std::vector<Resp> rs; BA e = parseStream(s.d->tx, methods, false, rs);
	if (!e.isEmpty()) c.fail("wire-invalid", e); else if (int(rs.size()) != n) c.fail("response-count", num(rs.size()));
	else if (style != 1) for (int i = 0; i < n; ++i) if (rs[i].content != num(i)) { c.fail("response-differs", "response " + num(i) + " holds " + show(rs[i].content, 40)); break; }
	c.distinct(n); s.finish();
}

// ================================================================ C01 / C02: the request grammar, one edit away from valid heads
// Reference recogniser of a request head, written from the grammar (common.rl): which heads are valid, which are not, which are incomplete.
enum Verdict { VALID, INVALID, INCOMPLETE, UNSPECIFIED };
namespace gram {
inline bool upper(int ch) { return ch >= 'A' && ch <= 'Z'; } inline bool digit(int ch) { return ch >= '0' && ch <= '9'; } inline bool alpha(int ch) { return upper(ch) || (ch >= 'a' && ch <= 'z'); } inline bool xdigit(int ch) { return digit(ch) || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); }
inline bool in(const char* s, int ch) { return ch && strchr(s, ch) != 0; }
inline bool ctl(int ch) { return ch < 32 || ch == 127; }
inline bool methodChar(int ch) { return upper(ch) || digit(ch) || in("$-_.", ch); }
inline bool plain(int ch) { return !ctl(ch) && !in(" #%;/?:@&=+", ch); } // allowed anywhere in an URI
inline bool tokenChar(int ch) { return ch < 128 && !ctl(ch) && !in("()<>@,;:\\\"/[]?={} \t", ch); }
// Reads plain characters, escapes and the characters of more from p on.
inline Verdict run(const unsigned char* s, int n, int& p, const char* more)
{
	while (p < n)
	{
		int ch = s[p]; if (ch == '%') { int q = p + 1; if (q < n && s[q] == 'u') ++q; for (int k = 0; k < 2; ++k, ++q) { if (q >= n) return INCOMPLETE; if (!xdigit(s[q])) { p = q; return INVALID; } } p = q; continue; }
		if (!plain(ch) && !in(more, ch)) return VALID; ++p;
	}
	return INCOMPLETE;
}
inline Verdict head(const BA& b, Req& q, int& used)
{
	const unsigned char* s = (const unsigned char*)b.constData(); int n = b.size(), p = 0; q = Req(); q.version.clear();
	#define NEED() if (p >= n) return INCOMPLETE
	while (p < n && methodChar(s[p])) if (++p > 20) return INVALID;
	NEED(); if (p == 0 || s[p] != ' ') return INVALID; q.method = b.left(p); ++p;
	int u = p, pathEnd = -1; NEED(); Verdict v;
	if (s[p] == '*') ++p;
	else if (s[p] == '/')
	{
		bool params = false; if ((v = run(s, n, p, params ? "" : "/:@&=+")) != VALID) return v;
		if (s[p] == ';') { ++p; if ((v = run(s, n, p, "/:@&=+;")) != VALID) return v; }
		pathEnd = p; if (s[p] == '?') { ++p; int qs = p; if ((v = run(s, n, p, ";/?:@&=+")) != VALID) return v; q.query = b.mid(qs, p - qs); }
		q.path = b.mid(u, pathEnd - u);
	}
	else { while (p < n && (alpha(s[p]) || digit(s[p]) || in("+-.", s[p]))) ++p; NEED(); if (s[p] != ':') return INVALID; ++p; if ((v = run(s, n, p, ";/?:@&=+")) != VALID) return v; }
	NEED(); q.uri = b.mid(u, p - u);
	if (s[p] == '#') { ++p; int f = p; if ((v = run(s, n, p, ";/?:@&=+")) != VALID) return v; q.fragment = b.mid(f, p - f); }
	NEED(); if (s[p] != ' ') return INVALID; ++p; int vs = p;
	for (const char* x = "HTTP/"; *x; ++x, ++p) { NEED(); if (s[p] != *x) return INVALID; }
	for (int k = 0; k < 2; ++k) { int at = p; while (p < n && digit(s[p])) ++p; NEED(); if (p == at) return INVALID; if (k == 0) { if (s[p] != '.') return INVALID; ++p; } }
	q.version = b.mid(vs, p - vs);
	bool odd = false;
	for (;;)
	{
		NEED(); if (s[p] != '\r') return INVALID; ++p; NEED(); if (s[p] != '\n') return INVALID; ++p;
		NEED(); if (s[p] == '\r') { ++p; NEED(); if (s[p] != '\n') return INVALID; used = p + 1; return odd ? UNSPECIFIED : VALID; }
		int ns = p; while (p < n && tokenChar(s[p])) ++p; NEED(); if (p == ns || s[p] != ':') return INVALID; BA name = b.mid(ns, p - ns); ++p;
		while (p < n && s[p] == ' ') ++p; int at = p; while (p < n && s[p] != '\r') { if (s[p] == 0 || s[p] == '\n') odd = true; ++p; } NEED();
		q.headers.push_back(std::make_pair(name, b.mid(at, p - at)));
	}
	#undef NEED
}
}
// What became of a head given to a (used) connection.
static Conn* gramConn() { static Conn* conn = new Conn(); return conn; }
static void grammarCase(Ctx& c, bool valid)
{
	GenOpts o; o.maxBody = 0; o.maxHeaders = 3; Req t; do { t = genRequest(c.rng, o); } while (t.head().size() > 160);
	if (c.rng.chance(30)) { BA e = c.rng.chance(50) ? "%u" : "%"; e += "0123456789abcdefABCDEF"[c.rng.below(22)]; e += "0123456789abcdefABCDEF"[c.rng.below(22)]; if (!t.path.isEmpty()) { t.path += e; t.uri = t.path + (t.query.isEmpty() ? BA() : "?" + t.query); } else if (!t.fragment.isEmpty()) t.fragment += e; }
	if (c.rng.chance(30)) t.method = c.rng.str("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789$-_.", c.rng.range(1, 21));
	BA base = t.head(); c.note = "one edit away from " + show(base, 300); c.sample(c.note); int nv = 0, ni = 0, nn = 0;
	static const char EDGES[] = "\0\t\n\r\x1f !\"#$%&'()*+,-./09:;<=>?@AFGZ[\\]^_`afguz{|}~\x7f\x80\xff"; static const BA EDGE(EDGES, int(sizeof EDGES) - 1);
	auto judge = [&](const BA& w) {
		Req q; int used = 0; Verdict v = gram::head(w, q, used); if (v == UNSPECIFIED) return; foreach (const BA& x, QList<BA>() << "content-length" << "expect" << "transfer-encoding" << "upgrade") for (auto& h : q.headers) if (lower(h.first) == x) return;
		Conn* conn = gramConn(); SimDevice d; int ready = 0, closed = 0; BA diff; std::vector<QMetaObject::Connection> cs;
		cs.push_back(QObject::connect(conn, &Conn::requestReady, [&](Conn*) { if (ready++ == 0 && v == VALID) diff = diffSeen(q, seeRequest(conn)); conn->writeResponse(200, Headers(), "ok"); }));
		cs.push_back(QObject::connect(conn, &Conn::closed, [&](Conn*) { ++closed; }));
		conn->initialize(&d, &d); d.feed(v == VALID ? w.left(used) : w); bool incomplete = v == INCOMPLETE && (ready || closed || !d.tx.isEmpty()); if (v == INVALID && !closed && d.isOpen()) d.feed("\r\n\r\n");
		int before = ready, shut = closed; BA tx = d.tx; if (d.isOpen()) d.close(); for (auto& x : cs) QObject::disconnect(x); c.count("heads");
		if (valid)
		{
			if (v == VALID) { ++nv; if (before != 1) c.fail("valid-refused", num(before) + " requests delivered for " + show(w, 300) + "; sent: " + show(tx, 80)); else if (!diff.isEmpty()) c.fail("request-differs:" + diff.left(diff.indexOf(':')).split(' ').first(), diff + " | request: " + show(w, 300)); }
			if (incomplete) c.fail("incomplete-answered", num(before) + " requests delivered, sent " + show(tx, 80) + " before the end of " + show(w, 300));
			if (v == INCOMPLETE) ++nn;
		}
		else if (v == INVALID)
		{
			++ni; if (before) c.fail("invalid-delivered", "a malformed request was delivered: " + show(w, 300)); else if (!shut) c.fail("not-closed", "connection not closed after " + show(w, 300)); else { std::vector<Resp> rs; BA e = parseStream(tx, std::vector<BA>(), true, rs); if (!e.isEmpty()) c.fail("wire-invalid", e + " in " + show(tx, 300)); else if (rs.size() != 1 || rs[0].status != 400) c.fail("error-status", "answered with " + show(tx, 60) + " to " + show(w, 300)); }
		}
	};
	judge(base);
	for (int p = 0; p < base.size() && c.ok(); ++p)
	{
		int budget = c.thorough ? 256 : 10; for (int k = 0; k < budget; ++k) { char x = c.thorough ? char(k) : c.rng.chance(80) ? EDGE.at(c.rng.below(EDGE.size())) : char(c.rng.next()); BA w = base; w[p] = x; judge(w); }
		{ BA w = base; w.remove(p, 1); judge(w); } { BA w = base; w.insert(p, EDGE.at(c.rng.below(EDGE.size()))); judge(w); } if (c.rng.chance(30)) judge(base.left(p)); if (c.rng.chance(10)) { BA w = base; w.insert(p, base.mid(p, c.rng.range(1, 20))); judge(w); }
	}
	c.count("valid_heads", nv); c.count("invalid_heads", ni); c.count("incomplete_heads", nn); c.distinct(fnv(base));
}
FAMILY(C01, grammar, 400, 2500) { grammarCase(c, true); }
FAMILY(C02, grammar, 400, 2500) { grammarCase(c, false); }
