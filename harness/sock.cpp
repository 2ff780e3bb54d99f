// Checks over real sockets: C07 (drain), C08 (disconnects), C12 (hostile bytes), C13 (concurrency, recycling), C14 (transport equality).
#include "sock.h"
#include <openssl/x509.h>

// ================================================================ C07
// The request line tells the server what to answer: /<id>/<api>/<size>/<close>
struct Plan { int id, api, size; bool close; };
static BA planUri(const Plan& p) { return "/" + num(p.id) + "/" + num(p.api) + "/" + num(p.size) + "/" + (p.close ? "1" : "0"); }
static Plan planOf(const BA& uri) { QList<BA> l = uri.split('/'); Plan p = {-1, 0, 0, false}; if (l.size() < 5) return p; p.id = l[1].toInt(); p.api = l[2].toInt(); p.size = l[3].toInt(); p.close = l[4] == "1"; return p; }
static void answer(Conn* k, const Plan& p)
{
	BA body = bodyFor(p.id, p.size); Headers h; if (p.close) h << Header("Connection", "close");
	switch (p.api)
	{
	case 0: k->writeResponse(200, h, body); break;
	case 1: h << Header("Content-Length", num(body.size())); k->writeHeaders(200, h); for (int i = 0; i < body.size(); i += 30000) k->writeContent(body.mid(i, 30000)); break;
	case 2: h << Header("Transfer-Encoding", "chunked"); k->writeHeaders(200, h); for (int i = 0; i < body.size(); i += 50000) k->writeContent(body.mid(i, 50000)); k->endContent(); break;
	default: k->writeHeaders(200, h); for (int i = 0; i < body.size(); i += 70000) k->writeContent(body.mid(i, 70000)); k->endContent(); break;
	}
}
static BA judge(const BA& in, const std::vector<Plan>& plans, bool eof, bool needAll)
{
	int pos = 0;
	for (size_t i = 0; i < plans.size(); ++i)
	{
		if (pos >= in.size()) return needAll ? "response " + num(int(i)) + " is missing" : BA();
		Resp r; BA e = parseResponse(in, pos, false, eof, r); if (!e.isEmpty()) return needAll ? "response " + num(int(i)) + ": " + e : BA();
		BA want = bodyFor(plans[i].id, plans[i].size);
		if (!r.complete && !needAll) return want.startsWith(r.content) ? BA() : "partial response " + num(int(i)) + " differs";
		if (!r.complete) return "response " + num(int(i)) + " is incomplete: " + num(r.content.size()) + " of " + num(want.size()) + " content bytes arrived";
		if (r.content != want) return "response " + num(int(i)) + ": " + diffText(want, r.content);
		pos = r.end;
	}
	if (pos != in.size()) return num(in.size() - pos) + " extra bytes after the last response: " + show(in.mid(pos), 100);
	return BA();
}
FAMILY(C07, drain, 1600, 40000)
{
	int kind = c.rng.below(3); Srv s(kind); Cli k; int n = c.rng.range(1, 4); std::vector<Plan> plans;
	bool lateAnswer = c.rng.chance(25); std::vector<Conn*> todo; std::vector<BA> uris;
	for (int i = 0; i < n; ++i) { Plan p = {i, c.rng.below(4), c.rng.chance(25) ? c.rng.range(300000, 3000000) : c.rng.chance(40) ? c.rng.range(20000, 300000) : c.rng.below(5000), false}; if (i + 1 == n) p.close = c.rng.chance(60); else if (p.api == 3) p.api = c.rng.below(3); if (p.api == 3) p.close = true; plans.push_back(p); }
	bool closes = plans[n - 1].close; bool pipelined = c.rng.chance(50);
	int sndbuf = c.rng.chance(40) ? (c.rng.chance(50) ? c.rng.range(2000, 20000) : c.rng.range(20000, 300000)) : 0; if (sndbuf) { s.sendBuffer(sndbuf); c.count("small_send_buffers"); }
	s.onReady = [&](Conn* x) { if (lateAnswer) { todo.push_back(x); uris.push_back(deep(x->requestPath())); } else answer(x, planOf(x->requestPath())); };
	if (!k.connect(s, c.rng.chance(50) ? 4096 : 0)) { c.fail("connect", "could not connect"); return; }
	int mode = c.rng.below(4); int burst = c.rng.range(2000, 60000); if (mode == 1) { k.chunk = c.rng.range(200, 8000); } qint64 total = 0; for (auto& p : plans) total += p.size; if (total > 60000 && k.chunk < 1500) k.chunk = 1500 + c.rng.below(9000);
	c.note = BA(KINDS[kind]) + " reader mode " + num(mode) + (sndbuf ? " send buffer " + num(sndbuf) : BA()) + (pipelined ? " pipelined" : "") + (lateAnswer ? " late" : ""); for (auto& p : plans) c.note += " " + planUri(p); c.sample(c.note);
	BA reqs; size_t sent = 0; if (pipelined) { for (auto& p : plans) reqs += "GET " + planUri(p) + " HTTP/1.1\r\n\r\n"; k.send(reqs); sent = plans.size(); }
	int tick = 0; if (mode == 2) k.reading = false;
	auto complete = [&](size_t m) { qint64 t = 0; for (size_t i = 0; i < m; ++i) t += plans[i].size; if (k.in.size() < t) return false; return judge(k.in, std::vector<Plan>(plans.begin(), plans.begin() + m), k.eof, true).isEmpty(); };
	bool stallDone = false; int pauses = 0;
	auto poller = [&]() {
		++tick;
		if (lateAnswer && !todo.empty() && tick % 3 == 0) { Conn* x = todo[0]; BA u = uris[0]; todo.erase(todo.begin()); uris.erase(uris.begin()); answer(x, planOf(u)); }
		if (mode == 2 && tick > 12) k.reading = true;
		if (mode == 3) { if (k.readLimit < 0) k.readLimit = burst; else if (k.in.size() >= k.readLimit && tick % 3 == 0) { k.readLimit += burst; ++pauses; } }
		k.poll(); if (k.kind != LOCAL && k.in.size() > 0) { int one = 1; setsockopt(k.p.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); }
	};
	while (sent < plans.size()) { k.send("GET " + planUri(plans[sent]) + " HTTP/1.1\r\n\r\n"); ++sent; if (!waitFor(c, [&]() { return k.eof || complete(sent); }, poller)) { c.stall("response-stalled", num(k.in.size()) + " bytes arrived"); return; } if (k.eof) break; }
	qint64 last = -1; QElapsedTimer quiet; quiet.start();
	bool done = waitFor(c, [&]() { if (k.in.size() != last) { last = k.in.size(); quiet.restart(); } return k.eof || (!closes && last >= total && complete(plans.size())); }, poller, 20000);
	(void)stallDone;
	BA e = judge(k.in, plans, k.eof, true);
	if (!done) { if (closes && e.isEmpty()) c.stall("not-closed", "all responses arrived, but the connection stays open"); else c.stall("response-stalled", e); return; }
	if (!e.isEmpty()) c.fail("bytes-lost", e);
	if (closes) { if (!k.eof) c.fail("not-closed", "still open"); if (!waitFor(c, [&]() { return s.nClosed >= 1; }, poller)) c.stall("closed-not-announced", "closed() was not emitted"); else if (s.nClosed != 1) c.fail("closed-count", num(s.nClosed)); }
	else { if (s.nClosed) c.fail("closed-early", "closed() was emitted on a kept-alive connection"); Plan p = {99, 0, 10, false}; BA had = k.in; k.readLimit = -1; k.send("GET " + planUri(p) + " HTTP/1.1\r\n\r\n"); if (!waitFor(c, [&]() { return k.eof || k.in.size() > had.size() + 50; }, poller)) c.stall("kept-alive-dead", "no answer to a further request"); else { BA e2 = judge(k.in.mid(had.size()), std::vector<Plan>(1, p), false, true); if (!e2.isEmpty()) c.fail("kept-alive-broken", e2); } }
	c.count("bytes_checked", k.in.size()); c.count("responses", n); c.count("reader_pauses", pauses); c.count(BA(BA("conns_") + KINDS[kind]).constData());
	c.distinct(fnv(c.note));
	k.shut(); spin();
}
FAMILY(C07, simulated, 20000, 300000)
{
	// Output device with a controllable backlog: closing must wait until it is empty, however it drains.
	Session s(c, 0, false); int n = c.rng.range(1, 3); std::vector<Plan> plans; for (int i = 0; i < n; ++i) { Plan p = {i, c.rng.below(3), c.rng.size(20000), i + 1 == n}; plans.push_back(p); }
	bool bad = c.rng.chance(25); BA wire; for (auto& p : plans) wire += "GET " + planUri(p) + " HTTP/1.1\r\n\r\n"; if (bad) { plans[n - 1].close = false; wire.clear(); for (auto& p : plans) wire += "GET " + planUri(p) + " HTTP/1.1\r\n\r\n"; wire += "BAD\x01 REQUEST\r\n\r\n"; }
	s.onReady = [&](int i) { if (i < n) answer(s.conn, plans[i]); };
	s.onClosed = [&]() { if (s.d->backlog) c.fail("closed-before-flushed", num(s.d->backlog) + " bytes were not flushed when closed() was emitted"); };
	s.start(); s.feedAll(split(c.rng, wire)); c.note = num(n) + " responses, last closes, bad=" + num(bad) + " backlog " + num(s.d->backlog); c.sample(c.note);
	int g = 0; while (s.d->backlog > 0 && ++g < 200) { if (s.isClosed()) { c.fail("closed-before-flushed", num(s.d->backlog) + " bytes left"); break; } s.d->drain(g > 150 ? 1 << 30 : 1 + c.rng.below(int(qMin<qint64>(s.d->backlog, 1 << 20)) + 200)); c.count("drains"); if (c.rng.chance(20)) s.feed("GET /x HTTP/1.1\r\n\r\n"); spin(); }
	if (!s.isClosed()) c.fail("not-closed-after-flush", "everything was flushed, but closed() was not emitted");
	if (!bad) { BA e = judge(s.d->tx, plans, true, true); if (!e.isEmpty()) c.fail("bytes-lost", e); }
	c.distinct(fnv(wire) ^ g); s.onReady = 0; s.onClosed = 0; s.finish();
}

FAMILY(C07, extra_input, 120, 3000)
{
	// A client that sends more after the request that ends the connection still gets the whole response.
	int kind = c.rng.below(3); Srv s(kind); Cli k; Plan p = {1, 0, c.rng.range(200000, 900000), true}; s.onReady = [&](Conn* x) { answer(x, planOf(x->requestPath())); };
	if (!k.connect(s, 4096)) { c.fail("connect", ""); return; } k.chunk = 3000; std::vector<Plan> plans(1, p); int extra = c.rng.range(1, 20000); bool early = c.rng.chance(50); bool sent = false;
	c.note = BA(KINDS[kind]) + " " + planUri(p) + " extra " + num(extra) + " early " + num(early); c.sample(c.note);
	k.send("GET " + planUri(p) + " HTTP/1.1\r\n\r\n" + (early ? BA(extra, 'x') : BA())); sent = early;
	if (!waitFor(c, [&]() { return k.eof; }, [&]() { k.poll(); if (!sent && k.in.size() > 2000) { sent = true; k.send(BA(extra, 'x')); } }, 20000)) { c.stall("response-stalled", num(k.in.size())); return; }
	BA e = judge(k.in, plans, true, true); Resp r;
	if (!e.isEmpty() && k.rst && judge(k.in, plans, true, false).isEmpty()) c.fail("reset-by-extra-input", e); else if (!e.isEmpty()) c.fail("bytes-lost", e);
	c.count("extra_inputs"); c.distinct(fnv(c.note));
}

// One good exchange with a fresh client.
static bool serveFresh(Ctx& c, Srv& s, const std::function<void()>& also = std::function<void()>())
{
	std::function<void(Conn*)> old = s.onReady; int n0 = s.nReady; s.onReady = [](Conn* x) { x->writeResponse(200, Headers(), "fresh " + x->requestContent()); };
	Cli k; if (!k.connect(s)) { c.fail("fresh-connect", "a new client could not connect"); return false; }
	k.send("POST /fresh HTTP/1.1\r\nContent-Length: 3\r\nConnection: close\r\n\r\nabc");
	bool ok = waitFor(c, [&]() { return k.eof; }, [&]() { k.poll(); if (also) also(); });
	s.onReady = old;
	if (!ok) { c.stall("fresh-client-stalled", "a new client got no complete answer: " + show(k.in, 200)); return false; }
	Resp r; BA e = parseResponse(k.in, 0, false, true, r);
	if (!e.isEmpty() || !r.complete || r.content != "fresh abc" || r.end != k.in.size()) { c.fail("fresh-client-wrong", "a new client got " + show(k.in, 300) + " " + e); return false; }
	if (s.nReady != n0 + 1) c.fail("fresh-client-ready", num(s.nReady - n0) + " requests announced for one");
	c.count("fresh_clients"); return true;
}

// ================================================================ C08
FAMILY(C08, sockets, 2500, 60000)
{
	int kind = c.rng.below(3); Srv* sp = new Srv(kind); Srv& s = *sp; Cli k, other; bool withOther = c.rng.chance(30);
	struct Life { int ready, closed; }; std::map<Conn*, Life> lives; Conn* cur = 0; int mode = c.rng.below(7); int size = c.rng.chance(40) ? c.rng.range(100000, 900000) : c.rng.below(3000); bool appClosed = false; int streamed = 0;
	// 0 immediate, 1 deferred, 2 streaming, 3 close() in requestReady, 4 close() after head, 5 partial then close, 6 immediate + late calls
	BA body = bodyFor(7, size);
	auto late = [&](Conn* x) { for (int i = 0; i < 3; ++i) switch (c.rng.below(5)) { case 0: x->writeResponse(200, Headers(), "LATE"); break; case 1: x->writeHeaders(200, Headers()); break; case 2: x->writeContent("LATE"); break; case 3: x->endContent(); break; default: x->close(); } c.count("late_calls", 3); };
	s.onReady = [&](Conn* x) {
		if (x->requestPath() == "/other") { x->writeResponse(200, Headers(), "other"); return; }
		cur = x; ++lives[x].ready;
		switch (mode) { case 0: case 6: x->writeResponse(200, Headers(), body); break; case 1: break; case 2: x->writeHeaders(200, hdrs({{"Content-Length", num(size)}})); break; case 3: appClosed = true; x->close(); late(x); break; case 4: x->writeHeaders(200, hdrs({{"Content-Length", num(size + 1)}})); appClosed = true; x->close(); late(x); break; case 5: x->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); x->writeContent(body.left(1000)); appClosed = true; x->close(); late(x); break; }
	};
	bool lateInClosed = c.rng.chance(40);
	s.onClosed = [&](Conn* x) { ++lives[x].closed; if (lives[x].closed > 1) c.fail("closed-twice", "closed() emitted " + num(lives[x].closed) + " times for one session"); if (lateInClosed) late(x); };
	if (!k.connect(s)) { c.fail("connect", ""); delete sp; return; }
	if (withOther) { other.connect(s); other.send("GET /other HTTP/1.1\r\n\r\n"); }
	BA content = c.rng.bytes(c.rng.chance(50) ? c.rng.below(300) : c.rng.below(100000)); BA wire = "POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: " + num(content.size()) + "\r\n" + (c.rng.chance(20) ? "Expect: 100-continue\r\n" : "") + "\r\n" + content;
	int cut = c.rng.chance(50) ? wire.size() : c.rng.below(qMin(wire.size(), 400)); int pacing = c.rng.below(4); if (cut == wire.size() && c.rng.chance(20)) wire += "GET /y HTTP/1.1\r\n\r\n", cut = c.rng.range(cut, wire.size());
	int how = c.rng.below(4); // 0 close, 1 reset, 2 half close then close, 3 app closes / server deleted
	int readFirst = c.rng.chance(50) ? 0 : c.rng.below(size + 100); k.readLimit = readFirst; if (readFirst == 0) k.reading = false;
	c.note = BA(KINDS[kind]) + " mode " + num(mode) + " size " + num(size) + " cut " + num(cut) + "/" + num(wire.size()) + " how " + num(how) + " read " + num(readFirst); c.sample(c.note);
	for (int p = 0; p < cut;) { int m = pacing == 0 ? cut : c.rng.range(1, qMax(1, cut / 3 + 1)); k.send(wire.mid(p, qMin(m, cut - p))); p += m; if (pacing) { spinN(1 + c.rng.below(3)); k.poll(); } }
	int ticks = c.rng.below(30); for (int i = 0; i < ticks; ++i) { spin(); k.poll(); if (kind == TLS) usleep(50); other.poll(); if (mode == 2 && cur && streamed < size && lives[cur].closed == 0) { int m = qMin(size - streamed, 1 + c.rng.below(40000)); cur->writeContent(body.mid(streamed, m)); streamed += m; } if (mode == 1 && cur && i == 20 && lives[cur].closed == 0) cur->writeResponse(200, Headers(), body); }
	bool serverGone = false;
	switch (how) { case 0: k.shut(); break; case 1: k.reset(); break; case 2: k.p.halfClose(); spinN(3); k.shut(); break; default: if (cur && c.rng.chance(60) && lives[cur].closed == 0) { cur->close(); late(cur); } else if (c.rng.chance(40)) { s.onClosed = 0; delete sp; serverGone = true; } k.shut(); }
	if (serverGone) { c.count("server_deleted"); c.distinct(fnv(c.note)); return; }
	auto open = [&]() { int o = 0; for (auto& l : lives) if (l.second.ready && !l.second.closed) ++o; return o; };
	if (!waitFor(c, [&]() { return open() == 0 && s.sockets() <= (withOther ? 1 : 0); }, [&]() { other.poll(); if (mode == 2 && cur && lives[cur].closed == 0 && streamed < size) { cur->writeContent(body.mid(streamed, 20000)); streamed += 20000; } })) { c.stall("not-closed", "the client is gone, but " + num(open()) + " connections did not announce closed, " + num(s.sockets()) + " sockets remain"); delete sp; return; }
	if (cur && lives[cur].closed == 1) late(cur);
	spinN(2); int n = s.nReady; (void)n;
	for (auto& l : lives) l.second.closed = 0;
	s.onClosed = 0;
	if (withOther) { if (!waitFor(c, [&]() { return other.in.contains("other"); }, [&]() { other.poll(); })) c.stall("other-client", "another client got no answer"); other.in.clear(); other.send("GET /other HTTP/1.1\r\n\r\n"); if (!waitFor(c, [&]() { return other.in.contains("other"); }, [&]() { other.poll(); })) c.stall("other-client", "another client got no further answer"); else if (other.in.contains("LATE")) c.fail("other-client", "another client received late output"); }
	serveFresh(c, s);
	c.count("disconnects"); c.count(BA(BA("how_") + num(how)).constData()); c.distinct(fnv(num(mode) + "/" + num(how) + "/" + num(kind) + "/" + num(cut) + "/" + num(readFirst / 1000)));
	other.shut(); delete sp;
}

// ================================================================ C12
FAMILY(C12, sockets, 1500, 40000)
{
	static Srv* servers[3]; int kind = c.rng.below(3); if (!servers[kind]) servers[kind] = new Srv(kind); Srv& s = *servers[kind];
	s.onReady = [&](Conn* x) { seeRequest(x); x->requestParams(); x->requestUriDecoded(); switch (c.rng.below(3)) { case 0: x->writeResponse(200, Headers(), x->requestContent()); break; case 1: x->writeHeaders(200); x->writeContent(x->requestUri()); x->endContent(); break; default: x->writeResponse(404); } c.count("delivered"); };
	int nc = c.rng.range(1, 4);
	for (int q = 0; q < nc; ++q)
	{
		Cli k; if (!k.connect(s)) { c.fail("connect", ""); return; } bool raw = kind == TLS && c.rng.chance(40); if (raw) k.dropSsl();
		BA b; int m = c.rng.range(1, 3); while (m--) { if (c.rng.chance(30)) b += c.rng.bytes(c.rng.below(400)); else { GenOpts o; o.maxBody = 300; Req r = genRequest(c.rng, o); BA w = r.wire(); int e = c.rng.below(3); while (e--) if (w.size()) w.data()[c.rng.below(w.size())] = char(c.rng.next()); b += w; } }
		if (raw && c.rng.chance(50)) b = BA("\x16\x03\x01\x02", 4) + b;
		c.note = BA(KINDS[kind]) + (raw ? " raw " : " ") + show(b, 500); for (auto& p : split(c.rng, b)) { k.send(p); if (c.rng.chance(20)) { spin(); k.poll(); } } for (int i = 0; i < 8; ++i) { spin(); k.poll(); }
		if (c.rng.chance(50)) k.reset(); else k.shut(); spin(); c.count("bytes", b.size()); c.distinct(fnv(b)); c.sample(c.note);
	}
	if (!waitFor(c, [&]() { return s.sockets() == 0; })) { c.stall("sockets-left", num(s.sockets()) + " sockets remain after the clients are gone"); return; }
	serveFresh(c, s);
}

// ================================================================ C13
FAMILY(C13, stress, 800, 6000)
{
	int kind = c.rng.chance(55) ? TCP : c.rng.chance(60) ? LOCAL : TLS; int fds0 = openFds(); static bool warmed[3]; bool warm = warmed[kind]; warmed[kind] = true;
	Srv* sp = new Srv(kind); Srv& s = *sp; int N = c.rng.chance(30) ? c.rng.range(30, 90) : c.rng.range(1, 30); if (kind == TLS) N = qMin(N, 25);
	struct C { Cli k; std::vector<int> asked; std::vector<bool> head; BA partial; int got; bool gone, aborted; C() : got(0), gone(false), aborted(false) {} };
	std::vector<std::unique_ptr<C> > cs; std::map<int, int> announced; int nextId = 1; std::vector<std::pair<Conn*, BA> > deferred; std::set<Conn*> dead;
	auto ans = [&](Conn* x, const BA& uri) { Plan p = planOf(uri); BA b = bodyFor(p.id, p.size); switch (p.api) { case 0: x->writeResponse(200, hdrs({{"X-Id", num(p.id)}}), b); break; case 1: x->writeHeaders(200, hdrs({{"X-Id", num(p.id)}, {"Content-Length", num(b.size())}})); x->writeContent(b); break; default: x->writeHeaders(200, hdrs({{"X-Id", num(p.id)}, {"Transfer-Encoding", "chunked"}})); x->writeContent(b); x->endContent(); } };
	int deferPct = c.rng.below(3) * 40; int nestPct = c.rng.chance(20) ? c.rng.range(10, 90) : 0, depth = 0, loops = 0; std::function<void()> nest;
	s.onReady = [&](Conn* x) { BA u = deep(x->requestPath()); Plan p = planOf(u); if (x->requestContent() != bodyFor(p.id + 1000, p.id % 50 * 3)) c.fail("request-mixed", "request " + num(p.id) + " was announced with other content"); if (++announced[p.id] > 1) c.fail("announced-twice", "request " + num(p.id) + " was announced " + num(announced[p.id]) + " times"); if (c.rng.chance(deferPct)) deferred.push_back(std::make_pair(x, u)); else ans(x, u); if (nest && depth < 3 && loops < 300 && c.rng.chance(nestPct)) { NestedLoop inside; ++depth; ++loops; c.count("loops"); for (int k = c.rng.range(1, 12); k-- > 0; ) nest(); --depth; } };
	s.onClosed = [&](Conn* x) { for (size_t i = 0; i < deferred.size();) if (deferred[i].first == x) deferred.erase(deferred.begin() + i); else ++i; };
	auto check = [&](C& k) {
		while (k.got < int(k.asked.size()))
		{
			if (k.k.in.isEmpty()) break; Resp r; BA e = parseResponse(k.k.in, 0, false, k.k.eof, r); if (!e.isEmpty()) { c.fail("response-invalid", e); k.gone = true; return; } if (!r.complete) break;
			int id = k.asked[k.got]; if (r.value("X-Id") != num(id) || !bodyFor(id, r.content.size()).startsWith(r.content) || r.content != bodyFor(id, id * 37 % 5000)) c.fail("response-of-another", "request " + num(id) + " was answered with X-Id " + r.value("X-Id") + " and content " + show(r.content, 80)); if (announced[id] != 1) c.fail("announced-count", num(announced[id])); ++k.got; c.count("responses"); k.k.in.remove(0, r.end);
		}
		if (k.got == int(k.asked.size()) && !k.k.in.isEmpty()) { c.fail("extra-bytes", show(k.k.in, 200)); k.k.in.clear(); }
		if (k.k.eof && !k.gone && !k.aborted) { c.fail("closed-by-server", "a kept-alive connection was closed by the server after " + num(k.got) + " of " + num(int(k.asked.size())) + " responses"); k.gone = true; }
	};
	auto pump = [&]() { spin(); for (auto& k : cs) if (!k->gone) { k->k.poll(); check(*k); } while (!deferred.empty() && c.rng.chance(60)) { int i = c.rng.below(int(deferred.size())); auto d = deferred[i]; deferred.erase(deferred.begin() + i); ans(d.first, d.second); } };
	auto ask = [&](C& k) { int id = nextId++; BA u = planUri(Plan{id, c.rng.below(3), id * 37 % 5000, false}); BA b = bodyFor(id + 1000, id % 50 * 3); BA w = BA(b.isEmpty() ? "GET " : "POST ") + u + " HTTP/1.1\r\n" + (b.isEmpty() && c.rng.chance(50) ? BA() : "Content-Length: " + num(b.size()) + "\r\n") + "\r\n" + b; k.asked.push_back(id); return w; };
	if (nestPct) nest = [&]() { if (c.rng.chance(30) && !cs.empty()) { C* k = cs[c.rng.below(int(cs.size()))].get(); if (!k->gone && k->partial.isEmpty() && c.ok()) k->k.send(ask(*k)); } pump(); }; // the application runs event loops of its own
	int steps = N * c.rng.range(3, 8); int live = 0, maxLive = 0, opened = 0, conPeak = 0; c.note = BA(KINDS[kind]) + " " + num(N) + " clients " + num(steps) + " steps, defer " + num(deferPct) + "%"; c.sample(c.note);
	for (int st = 0; st < steps && c.ok(); ++st)
	{
		int a = c.rng.below(100);
		if (live < N && (a < 30 || live == 0)) { std::unique_ptr<C> k(new C); if (!k->k.connect(s)) { c.fail("connect", "refused"); break; } cs.push_back(std::move(k)); ++live; ++opened; maxLive = qMax(maxLive, live); if (kind == LOCAL || opened % 20 == 0) pump(); }
		else
		{
			C* k = 0; for (int t = 0; t < 10 && !k; ++t) { C* x = cs[c.rng.below(int(cs.size()))].get(); if (!x->gone) k = x; } if (!k) continue;
			if (a < 72) { BA w; int m = c.rng.chance(30) ? c.rng.range(2, 4) : 1; if (!k->partial.isEmpty()) { w = k->partial; k->partial.clear(); } while (m--) w += ask(*k); if (c.rng.chance(20)) { int cut = c.rng.range(1, w.size() - 1); k->partial = w.mid(cut); w = w.left(cut); } k->k.send(w); }
			else if (a < 80) { if (!k->partial.isEmpty()) { k->k.send(k->partial); k->partial.clear(); } }
			else if (a < 86) { k->aborted = k->gone = true; k->k.reset(); --live; c.count("aborts"); }
			else if (a < 90) { k->aborted = k->gone = true; k->k.shut(); --live; c.count("client_closes"); }
		}
		if (c.rng.chance(70)) pump();
		conPeak = qMax(conPeak, s.conns().size());
	}
	for (auto& k : cs) if (!k->gone && !k->partial.isEmpty()) { k->k.send(k->partial); k->partial.clear(); }
	bool done = waitFor(c, [&]() { for (auto& k : cs) if (!k->gone && k->got < int(k->asked.size())) return false; return true; }, pump);
	if (!done) { int miss = 0; for (auto& k : cs) if (!k->gone && k->got < int(k->asked.size())) ++miss; c.stall("unanswered", num(miss) + " clients wait for responses"); }
	// Every connected client gets served, also those that did not ask anything so far.
	if (c.ok()) { for (auto& k : cs) if (!k->gone && c.rng.chance(50)) k->k.send(ask(*k)); if (!waitFor(c, [&]() { for (auto& k : cs) if (!k->gone && k->got < int(k->asked.size())) return false; return true; }, pump)) c.stall("unanswered", "an idle client is not served"); }
	int busy = 0; for (auto& k : cs) if (!k->gone) ++busy; if (c.ok()) { int objs = s.conns().size(); if (objs > qMax(25, maxLive + 25) + 25) c.fail("connections-accumulate", num(objs) + " connection objects for at most " + num(maxLive) + " live clients"); }
	for (auto& k : cs) { k->gone = true; if (c.rng.chance(80)) k->k.shut(); else k->k.reset(); }
	if (c.ok()) { if (!waitFor(c, [&]() { return s.sockets() == 0; })) c.stall("sockets-left", num(s.sockets()) + " sockets remain after all clients are gone"); else { spinN(3); if (s.conns().size() > 25) c.fail("connections-accumulate", num(s.conns().size()) + " idle connection objects are kept"); } if (c.ok()) serveFresh(c, s); }
	c.count("clients", opened); c.count("announced", announced.size()); c.count("conn_objects_peak_sum", conPeak); c.distinct(fnv(c.note) ^ nextId * 7919 ^ opened);
	s.onClosed = 0; cs.clear(); delete sp; spinN(2);
	int fds1 = openFds(); if (c.ok() && warm && fds1 > fds0) c.fail("fds-left", num(fds1 - fds0) + " file descriptors remain after the server is gone");
}

// ================================================================ C14
struct Run14 { std::vector<Seen> seen; BA out; bool eof, err; BA addr; };
FAMILY(C14, transports, 3000, 30000)
{
	GenOpts o; o.maxBody = c.rng.chance(10) ? 60000 : 500; o.maxHeaders = 6; int n = c.rng.range(1, 4); BA wire; std::vector<BA> methods; int expect = 0; bool over = false;
	for (int i = 0; i < n; ++i) { Req q = genRequest(c.rng, o); int t = c.rng.below(100); BA w; if (t < 8) { w = "BROKEN \x01 x\r\n\r\n"; over = true; } else if (t < 11) { w = "POST / HTTP/1.1\r\nContent-Length: abc\r\n\r\n"; over = true; } else { if (t < 22) { q.headers.insert(q.headers.begin(), std::make_pair(BA("Connection"), BA(c.rng.chance(50) ? "close" : "keep-alive"))); q.spaces.insert(q.spaces.begin(), 1); } w = q.wire(); if (!over) ++expect; } methods.push_back(q.method); wire += w; }
	int style = c.rng.below(5); int size = c.rng.chance(20) ? c.rng.range(70000, 400000) : c.rng.below(3000); bool appClose = c.rng.chance(15); std::vector<BA> pcs = split(c.rng, wire); if (pcs.size() > 60) { BA rest; for (size_t i = 59; i < pcs.size(); ++i) rest += pcs[i]; pcs.resize(59); pcs.push_back(rest); } bool paced = c.rng.chance(60);
	c.note = num(n) + " requests style " + num(style) + " size " + num(size) + " " + describe(pcs) + " " + show(wire, 300); c.sample(c.note);
	Run14 runs[3];
	for (int kind = 0; kind < 3; ++kind)
	{
		Srv s(kind); Run14& r = runs[kind]; int k = 0;
		s.onReady = [&](Conn* x) {
			r.seen.push_back(seeRequest(x)); r.addr = x->remoteAddress().toString().toUtf8(); int i = k++; BA body = bodyFor(i, size); Headers h; if (appClose && i == 0) h << Header("Connection", "close");
			switch (style) { case 0: x->writeResponse(200, h, body); break; case 1: h << Header("Transfer-Encoding", "chunked"); x->writeHeaders(200, h); x->writeContent(body); x->endContent(); break; case 2: h << Header("Content-Length", num(body.size())); x->writeHeaders(200, h); for (int a = 0; a < body.size(); a += 9000) x->writeContent(body.mid(a, 9000)); break; case 3: x->writeResponse(404, h); break; default: h << Header("Content-Type", "text/plain"); x->writeResponseString(201, h, QString::fromLatin1(body.left(2000))); }
		};
		Cli cl; if (kind != LOCAL && c.rng.chance(0)) {} if (!cl.connect(s)) { c.fail("connect", KINDS[kind]); return; }
		if (kind == TLS && !waitFor(c, [&]() { return cl.handshaken || cl.eof; }, [&]() { cl.poll(); })) { c.stall("handshake", "no TLS handshake"); return; }
		for (auto& p : pcs) { cl.send(p); if (paced) { spin(); cl.poll(); spin(); } }
		// Quiescence: the expected amount of output of the reference run, or silence for the first.
		if (kind == 0)
		{
			int quiet = 0, last = -1, lastReady = -1; QElapsedTimer t; t.start();
			waitFor(c, [&]() { if (cl.in.size() != last || s.nReady != lastReady) { last = cl.in.size(); lastReady = s.nReady; quiet = 0; t.restart(); } ++quiet; if (cl.eof) return true; if (quiet < 4 || s.nReady == 0) return t.elapsed() > 600; std::vector<Resp> rs; BA e = parseStream(cl.in, methods, false, rs); return e.isEmpty() && !rs.empty() && rs.back().complete && int(rs.size()) >= s.nReady && (int(rs.size()) >= expect || t.elapsed() > 600); }, [&]() { cl.poll(); }, 15000);
			spinN(3); cl.poll();
		}
		else { int want = runs[0].out.size(); bool ok = waitFor(c, [&]() { return cl.eof || (!runs[0].eof && cl.in.size() >= want && r.seen.size() >= runs[0].seen.size()); }, [&]() { cl.poll(); }); if (ok && !cl.eof) { spinN(4); cl.poll(); } }
		r.out = cl.in; r.eof = cl.eof; r.err = cl.rst; c.count(BA(BA("runs_") + KINDS[kind]).constData());
		cl.shut();
	}
	for (int kind = 1; kind < 3; ++kind)
	{
		Run14 &a = runs[0], &b = runs[kind]; BA nm = KINDS[kind];
		if (a.seen.size() != b.seen.size()) { c.stall("requests-differ", "tcp announced " + num(int(a.seen.size())) + " requests, " + nm + " " + num(int(b.seen.size()))); continue; }
		for (size_t i = 0; i < a.seen.size(); ++i) { Seen &x = a.seen[i], &y = b.seen[i]; if (x.method != y.method || x.uri != y.uri || x.path != y.path || x.query != y.query || x.fragment != y.fragment || x.version != y.version || x.content != y.content || x.headers != y.headers) { c.fail("request-differs", nm + " request " + num(int(i)) + " differs from tcp"); break; } }
		// Input beyond the last served request can reset a closing connection: then only the delivered part is comparable.
		if ((a.err || b.err) && a.eof && b.eof) { int m = qMin(a.out.size(), b.out.size()); if (a.out.left(m) != b.out.left(m) || (!a.err && a.out.size() < b.out.size()) || (!b.err && b.out.size() < a.out.size())) c.fail("response-differs", nm + ": " + diffText(a.out, b.out)); c.count("reset_runs"); continue; }
		if (a.out != b.out) { if (a.out.size() > b.out.size()) c.stall("response-differs", nm + ": " + diffText(a.out, b.out)); else c.fail("response-differs", nm + ": " + diffText(a.out, b.out)); }
		else if (a.eof != b.eof) c.stall("close-differs", nm + ": closed=" + num(b.eof) + ", tcp: " + num(a.eof));
	}
	if (!runs[0].seen.empty() && runs[0].addr != "127.0.0.1") c.fail("remote-address", "tcp: " + runs[0].addr);
	if (!runs[2].seen.empty() && runs[2].addr != "127.0.0.1") c.fail("remote-address", "tls: " + runs[2].addr);
	c.count("requests", runs[0].seen.size() * 3); c.distinct(fnv(c.note));
}
FAMILY(C14, address, 200, 3000)
{
	int kind = c.rng.chance(50) ? TCP : TLS; Srv s(kind); Cli k; k.kind = kind; BA src = "127." + num(c.rng.below(250)) + "." + num(c.rng.below(250)) + "." + num(c.rng.range(2, 250));
	int f = ::socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; inet_pton(AF_INET, src.constData(), &a.sin_addr); bool bound = ::bind(f, (struct sockaddr*)&a, sizeof a) == 0; if (!bound) src = "127.0.0.1";
	a.sin_port = htons(s.port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (::connect(f, (struct sockaddr*)&a, sizeof a)) { ::close(f); c.fail("connect", ""); return; } k.p.adopt(f); if (kind == TLS) { k.ssl = SSL_new(Cli::ctx()); SSL_set_fd(k.ssl, f); SSL_set_connect_state(k.ssl); }
	BA got; s.onReady = [&](Conn* x) { got = x->remoteAddress().toString().toUtf8(); x->writeResponse(200); }; int n = c.rng.range(1, 3); c.note = src + " " + KINDS[kind]; c.sample(c.note);
	for (int i = 0; i < n; ++i) { got.clear(); int want = s.nReady + 1; k.send("GET / HTTP/1.1\r\n\r\n"); if (!waitFor(c, [&]() { return s.nReady >= want; }, [&]() { k.poll(); })) { c.stall("unanswered", ""); return; } if (got != src) c.fail("remote-address", "expected " + src + ", got " + got); c.count("addresses"); }
	c.distinct(fnv(c.note)); k.shut();
}

// A TLS server identifies itself with the pair that was set last, whenever it was set.
FAMILY(C14, certificates, 200, 6000)
{
	Rng& r = c.rng; static const QSslCertificate certs[3] = {QSslCertificate(), QSslCertificate(BA(TLS_CERT)), QSslCertificate(BA(TLS_CERT2))}; static const QSslKey keys[3] = {QSslKey(), QSslKey(BA(TLS_KEY), QSsl::Rsa), QSslKey(BA(TLS_KEY2), QSsl::Rsa)}; static const BA subject[3] = {"", "localhost", "other"};
	int cert = 0, key = 0; std::unique_ptr<Pillow::HttpsServer> s; if (r.chance(40)) { cert = key = r.range(1, 2); s.reset(new Pillow::HttpsServer(certs[cert], keys[key], QHostAddress(QHostAddress::LocalHost), 0)); c.note = "constructed with " + num(cert); } else { s.reset(new Pillow::HttpsServer()); if (r.chance(50)) s->listen(QHostAddress(QHostAddress::LocalHost), 0); c.note = "plain"; }
	auto check = [&]() { if (s->certificate() != certs[cert]) c.fail("certificate-accessor", c.note); if (s->privateKey() != keys[key]) c.fail("key-accessor", c.note); }; check(); alarm(200 * c.slow);
	int ready = 0; QObject::connect(s.get(), &Pillow::HttpServer::requestReady, [&](Conn* x) { ++ready; x->writeResponse(200, Headers(), BA("r") + num(ready)); }); std::vector<std::unique_ptr<Cli> > old; int n = r.range(2, 5);
	for (int i = 0; i < n && c.ok(); ++i)
	{
		int a = r.below(10); auto set = [&](int k, int first) { for (int j = 0; j < 2; ++j) { if ((j == 0) == (first == 0)) { s->setCertificate(certs[k]); cert = k; } else { s->setPrivateKey(keys[k]); key = k; } check(); } }; if (a < 6) { int k = r.range(1, 2); c.note += ", set " + num(k); set(k, r.below(2)); } else if (a < 7) { c.note += ", cleared"; set(0, r.below(2)); } if (!s->isListening()) s->listen(QHostAddress(QHostAddress::LocalHost), 0); if (!i) c.sample(c.note);
		// Those connected before go on as they are.
		for (auto& k : old) { k->in.clear(); int want = ready + 1; k->send("GET /o HTTP/1.1\r\n\r\n"); if (!waitFor(c, [&]() { return ready >= want && k->in.contains(BA("\r\n\r\nr") + num(want)); }, [&]() { k->poll(); })) { c.stall("old-connection", c.note); return; } c.count("old_requests"); }
		if (r.chance(15)) { Cli k; k.kind = TCP; if (!k.p.connectTcp(s->serverPort())) { c.fail("connect", c.note); return; } int before = ready; k.send("GET /plain HTTP/1.1\r\nHost: x\r\n\r\n"); if (!waitFor(c, [&]() { return k.eof; }, [&]() { k.poll(); })) c.stall("plain-text", c.note + ": a plain text request is neither answered nor refused"); if (ready != before) c.fail("plain-text", c.note + ": a plain text request was delivered"); c.count("plain_clients"); k.shut(); }
		std::unique_ptr<Cli> k(new Cli); k->kind = TLS; if (!k->p.connectTcp(s->serverPort())) { c.fail("connect", c.note); return; } k->ssl = SSL_new(Cli::ctx()); SSL_set_fd(k->ssl, k->p.fd); SSL_set_connect_state(k->ssl); bool can = cert && cert == key;
		if (!waitFor(c, [&]() { return k->handshaken || k->eof; }, [&]() { k->poll(); })) { c.stall("handshake", c.note); return; } if (k->handshaken != can) { c.fail(can ? "handshake-failed" : "handshake-without-certificate", c.note); return; } if (!can) { c.count("refused"); k->shut(); continue; }
		X509* x = SSL_get_peer_certificate(k->ssl); char name[256] = ""; if (x) { X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, name, sizeof name); X509_free(x); } if (BA(name) != subject[cert]) c.fail("wrong-certificate", c.note + ": presented \"" + BA(name) + "\", should be \"" + subject[cert] + "\"");
		int want = ready + 1; k->send("GET /n HTTP/1.1\r\n\r\n"); if (!waitFor(c, [&]() { return ready >= want && k->in.contains(BA("\r\n\r\nr") + num(want)); }, [&]() { k->poll(); })) { c.stall("unanswered", c.note); return; } c.count("handshakes"); if (r.chance(60)) old.push_back(std::move(k)); else k->shut();
	}
	for (auto& k : old) k->shut(); old.clear(); spinN(2); s.reset(); spin(); if (c.ok()) c.distinct(fnv(c.note));
}

FAMILY(C13, memory, 24, 200)
{
	// Heap held by the library must not grow with the number of clients served or servers created.
	int kind = c.index % 3; bool servers = (c.index / 3) % 2; int half = servers ? 60 : 150; qint64 marks[3]; Srv* keep = servers ? 0 : new Srv(kind); int style = c.rng.below(4); c.note = BA(KINDS[kind]) + (servers ? " servers" : " clients") + " style " + num(style); c.sample(c.note);
	for (int i = 0; i < 3 * half; ++i)
	{
		{
			Srv* s = servers ? new Srv(kind) : keep; if (servers && i % 4) { delete s; if ((i + 1) % half == 0) { spinN(3); marks[i / half] = heapBytes(); } continue; }
			s->onReady = [&](Conn* x) { x->requestParams(); if (style == 0) x->writeResponse(200, Headers(), x->requestContent()); else if (style == 1) { x->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); x->writeContent("abc"); x->endContent(); } else if (style == 2) x->close(); else { x->writeHeaders(200); x->writeContent("partial"); } };
			Cli k; if (!k.connect(*s)) { c.fail("connect", ""); return; } k.send("POST /a?b=c&d=e HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc");
			if (!waitFor(c, [&]() { return k.eof || k.in.contains("abc") || k.in.contains("partial"); }, [&]() { k.poll(); })) { c.stall("unanswered", ""); return; }
			k.shut(); if (!waitFor(c, [&]() { return s->sockets() == 0; })) { c.stall("sockets-left", ""); return; }
			if (servers) delete s;
		}
		if ((i + 1) % half == 0) { spinN(3); marks[i / half] = heapBytes(); }
	}
	qint64 g = qMin(marks[2] - marks[1], marks[1] - marks[0]); if (g > half * 16) c.fail(servers ? "heap-grows-per-server" : "heap-grows-per-client", "the heap grew by " + num(g) + " bytes over " + num(half) + " " + (servers ? "servers" : "clients") + ", twice in a row");
	delete keep; c.count("memory_rounds", 3 * half); c.distinct(fnv(c.note) + c.index);
}
