// Connection life: closes anywhere (C08), isolation (C09), 100-continue (C10), decoding (C11), hostile bytes (C12).
#include "session.h"
#include "ByteArrayHelpers.h"

// Read everything an application can read.
static uint64_t readAll(Conn* k)
{
	uint64_t h = 1; h = fnv(k->requestMethod(), h); h = fnv(k->requestUri(), h); h = fnv(k->requestPath(), h); h = fnv(k->requestQueryString(), h); h = fnv(k->requestFragment(), h); h = fnv(k->requestHttpVersion(), h); h = fnv(k->requestContent(), h);
	h = fnv(k->requestUriDecoded().toUtf8(), h); h = fnv(k->requestPathDecoded().toUtf8(), h); h = fnv(k->requestQueryStringDecoded().toUtf8(), h); h = fnv(k->requestFragmentDecoded().toUtf8(), h);
	for (int i = 0; i < k->requestHeaders().size(); ++i) { h = fnv(k->requestHeaders().at(i).first, h); h = fnv(k->requestHeaders().at(i).second, h); }
	h = fnv(k->requestHeaderValue("host"), h); const Pillow::HttpParamCollection& p = k->requestParams(); for (int i = 0; i < p.size(); ++i) { h = fnv(p.at(i).first.toUtf8(), h); h = fnv(p.at(i).second.toUtf8(), h); }
	return h;
}

// ================================================================ C08
// One exchange with an action (close the connection, close or lose the device) at one chosen point.
static void answerIn(Conn* k, int style, int i, const std::function<void(int)>& point)
{
	BA body = bodyFor(i, style == 5 ? 9000 : 40);
	switch (style)
	{
	case 0: k->writeResponse(200, Headers(), body); break;
	case 1: k->writeHeaders(200, hdrs({{"Content-Length", num(body.size())}})); point(3); k->writeContent(body.left(10)); point(4); k->writeContent(body.mid(10)); break;
	case 2: k->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); point(3); k->writeContent(body.left(10)); point(4); k->writeContent(body.mid(10)); point(5); k->endContent(); break;
	case 3: k->writeHeaders(200); point(3); k->writeContent(body); point(4); k->endContent(); break;
	case 4: k->writeResponse(304); break;
	default: k->writeResponse(200, hdrs({{"Connection", "close"}}), body);
	}
}
static void noops(Ctx& c, Session& s)
{
	// After closing, every response call is a harmless no-op.
	int tx = s.d->tx.size(); int r = s.nReady, k = s.nCompleted, z = s.nClosed;
	for (int i = 0; i < 6; ++i) switch (c.rng.below(6)) { case 0: s.conn->writeResponse(200, Headers(), "late"); break; case 1: s.conn->writeHeaders(200, hdrs({{"Content-Length", "4"}})); break; case 2: s.conn->writeContent("late"); break; case 3: s.conn->endContent(); break; case 4: s.conn->close(); break; case 5: s.conn->writeResponseString(404, Headers(), "late"); s.conn->flush(); break; }
	spin();
	if (s.d->tx.size() != tx) c.fail("output-after-close", "response calls after closed() wrote " + num(s.d->tx.size() - tx) + " bytes");
	if (s.nReady != r || s.nCompleted != k || s.nClosed != z) c.fail("signal-after-close", "response calls after closed() emitted signals");
	if (s.conn->state() != Conn::Closed) c.fail("state-after-close", "state " + num(s.conn->state()) + " after closed()");
	c.count("noop_calls", 6);
}
// point kinds: 0 before byte k; 1 ready (before answering); 2 after answering in ready; 3-5 between pieces; 6 completed; 7 closed; 8 bytes written; 9 nested event loop
static void runC08(Ctx& c, Session& s, const std::vector<Req>& reqs, const std::vector<int>& styles, int kind, int at, int action, bool deferred, bool pipelined, const std::vector<int>& cutAt)
{
	int n = int(reqs.size()); bool fired = false; int seen = 0; bool inClosed = false;
	auto act = [&]() {
		if (fired) return; fired = true; c.count("actions");
		switch (action) { case 0: s.conn->close(); break; case 1: s.d->close(); break; case 2: s.conn->close(); if (s.d->isOpen()) s.d->close(); s.conn->close(); break; default: s.d->close(); s.conn->close(); }
		if (s.nClosed != 1 && !inClosed) c.fail("not-closed", "closed() emitted " + num(s.nClosed) + " times after " + (action % 2 ? "the device closed" : "close()"));
	};
	auto point = [&](int k) { if (k == kind && seen++ == at) act(); };
	auto answer = [&](int i) { answerIn(s.conn, styles[i], i, point); };
	int answered = 0;
	s.onReady = [&](int i) { readAll(s.conn); point(1); if (i < n && !deferred) { ++answered; answer(i); point(2); } };
	s.onCompleted = [&](int) { readAll(s.conn); point(6); };
	s.onClosed = [&]() { inClosed = true; readAll(s.conn); point(7); if (c.rng.chance(20)) { s.conn->writeContent("x"); s.conn->endContent(); s.conn->writeResponse(200); } inClosed = false; };
	QMetaObject::Connection bw = QObject::connect(s.d, &QIODevice::bytesWritten, [&](qint64) { point(8); });
	s.start();
	BA all; for (auto& q : reqs) all += q.wire();
	int fed = 0; size_t ci = 0;
	while (fed < all.size())
	{
		if (kind == 0 && fed >= at) { act(); }
		int e = ci < cutAt.size() ? cutAt[ci++] : all.size(); if (kind == 0 && !fired && at > fed && at < e) { e = at; --ci; }
		if (e <= fed) continue;
		if (s.d->isOpen()) s.feed(all.mid(fed, e - fed)); fed = e;
		if (deferred) while (answered < s.nReady && answered < n && (!pipelined || c.rng.chance(50))) { int i = answered++; if (s.conn->state() == Conn::SendingHeaders || s.isClosed()) { answer(i); point(2); } }
		if (!s.d->autoDrain && s.d->isOpen() && c.rng.chance(50)) s.d->drain(c.rng.range(1, 4000));
		if (c.rng.chance(15)) spin();
	}
	if (deferred) for (int g = 0; g < n + 1; ++g) while (answered < s.nReady && answered < n) { int i = answered++; answer(i); point(2); }
	int g = 0; while (!s.d->autoDrain && s.d->isOpen() && s.d->backlog > 0 && ++g < 10000) s.d->drain(c.rng.range(1, 5000));
	spin();
	if (kind == 0 && !fired) act();
	if (fired) { if (s.nClosed != 1) c.fail("not-closed", "closed() emitted " + num(s.nClosed) + " times after a close at point " + num(kind)); }
	else s.finish();
	if (s.isClosed()) { if (s.d->isOpen()) c.fail("device-open", "closed, but the device is still open"); noops(c, s); }
	QObject::disconnect(bw);
	// What was sent is a prefix of valid responses in any case.
	std::vector<BA> methods; for (auto& q : reqs) methods.push_back(q.method);
	std::vector<Resp> rs; BA e = parseStream(s.d->tx, methods, false, rs); if (!e.isEmpty()) c.fail("wire-invalid", e + " in " + show(s.d->tx, 300));
	s.onReady = 0; s.onCompleted = 0; s.onClosed = 0;
	c.distinct(uint64_t(kind) * 1000003 + at * 1009 + action * 31 + deferred * 7 + pipelined * 3 + styles[0] * 131 + n * 17);
}
static void serveAgain(Ctx& c, Conn* k)
{
	// The same connection object serves the next client normally.
	Session s(c, k); s.onReady = [&](int) { s.conn->writeResponse(200, Headers(), "again:" + s.conn->requestPath()); }; s.start(); s.feed("GET /next HTTP/1.1\r\nHost: h\r\n\r\n"); spin();
	Resp r; BA e = parseResponse(s.d->tx, 0, false, false, r); if (!e.isEmpty() || !r.complete || r.content != "again:/next") c.fail("no-further-service", "the recycled connection answered " + show(s.d->tx, 200));
	s.finish();
}
FAMILY(C08, points, 40000, 800000)
{
	int n = c.rng.range(1, 3); std::vector<Req> reqs; std::vector<int> styles; GenOpts o; o.maxBody = c.rng.chance(10) ? 40000 : 60; o.maxHeaders = 4; o.simple = c.rng.chance(40);
	for (int i = 0; i < n; ++i) { Req q = genRequest(c.rng, o); q.version = "HTTP/1.1"; reqs.push_back(q); styles.push_back(c.rng.below(6)); }
	int kind = c.rng.below(9); int at = kind == 0 ? c.rng.below(400) : c.rng.below(n); int action = c.rng.below(4); bool deferred = c.rng.chance(40), pipelined = c.rng.chance(60);
	BA all; for (auto& q : reqs) all += q.wire(); if (kind == 0) at = c.rng.below(all.size() + 1);
	std::vector<int> cuts; if (!pipelined) { int p = 0; for (auto& q : reqs) { p += q.wire().size(); cuts.push_back(p); } } else { int k = c.rng.below(5); std::set<int> cs; while (k--) cs.insert(c.rng.below(all.size())); cuts.assign(cs.begin(), cs.end()); }
	c.note = "point " + num(kind) + " at " + num(at) + " action " + num(action) + " deferred " + num(deferred) + " pipelined " + num(pipelined) + " requests " + num(n) + " styles " + num(styles[0]); c.sample(c.note);
	Conn k; { Session s(c, &k, c.rng.chance(50)); runC08(c, s, reqs, styles, kind, at, action, deferred, pipelined, cuts); }
	if (c.rng.chance(60)) serveAgain(c, &k);
}
// Every byte offset of a fixed exchange, every action: systematic.
// Input and output can be two devices: everything is as with one that does both.
FAMILY(C08, devices, 6000, 150000)
{
	Rng& r = c.rng; GenOpts o; o.maxBody = r.chance(10) ? 20000 : 300; o.maxHeaders = 5; int n = r.range(1, 5); BA wire; for (int i = 0; i < n; ++i) { Req q = genRequest(r, o); if (r.chance(15)) { q.headers.insert(q.headers.begin(), std::make_pair(BA("Connection"), BA(r.chance(60) ? "close" : "keep-alive"))); q.spaces.insert(q.spaces.begin(), 1); } wire += r.chance(5) ? BA("BROKEN \x01\r\n\r\n") : q.wire(); }
	std::vector<BA> ps = split(r, wire); int style = r.below(4), size = r.below(2000), closer = r.below(3), ender = r.below(3); bool slow = r.chance(40), appClose = r.chance(15); c.note = num(n) + " requests style " + num(style) + " size " + num(size) + (slow ? " slow" : "") + (appClose ? " closing" : "") + " ender " + num(ender) + " " + describe(ps) + " " + show(wire, 200); c.sample(c.note);
	struct Out { BA tx; BA events; bool open; } outs[3];
	for (int mode = 0; mode < 3; ++mode)
	{
		Out& u = outs[mode]; SimDevice in, out(!slow); if (mode == 0 && slow) in.autoDrain = false; QBuffer buf; if (mode == 2) { buf.setData(wire); buf.open(QIODevice::ReadOnly); } SimDevice* w = mode ? &out : &in; QIODevice* rd = mode == 2 ? static_cast<QIODevice*>(&buf) : &in; Conn k; int i = 0, ready = 0, completed = 0, closed = 0; BA ev;
		QObject::connect(&k, &Conn::requestReady, [&](Conn* x) { ++ready; if (x->inputDevice() != rd || x->outputDevice() != w) c.fail("device-accessor", c.note); Seen s = seeRequest(x); ev += "ready " + s.method + " " + s.uri + " " + num(s.content.size()) + "|" + num(w->tx.size()) + "\n"; int id = i++; BA body = bodyFor(id, size); Headers h; if (appClose && id == 1) h << Header("Connection", "close"); switch (style) { case 0: x->writeResponse(200, h, body); break; case 1: h << Header("Transfer-Encoding", "chunked"); x->writeHeaders(200, h); x->writeContent(body); x->endContent(); break; case 2: h << Header("Content-Length", num(body.size())); x->writeHeaders(200, h); for (int a = 0; a < body.size(); a += 700) x->writeContent(body.mid(a, 700)); break; default: x->writeResponse(404, h); } });
		QObject::connect(&k, &Conn::requestCompleted, [&](Conn*) { ++completed; ev += "completed|" + num(w->tx.size()) + "\n"; }); QObject::connect(&k, &Conn::closed, [&](Conn*) { ++closed; ev += "closed|" + num(w->tx.size()) + "\n"; if (w->backlog && !slow) c.fail("closed-before-flushed", c.note); });
		if (mode == 0 && c.rng.chance(0)) {} k.initialize(rd, w); if (mode != 2) for (auto& p : ps) { if (closed) break; in.feed(p); if (slow) w->drain(w->backlog); } for (int t = 0; t < 200; ++t) { spin(); if (slow && w->backlog) w->drain(w->backlog); else if (t > 3) break; }
		u.open = !closed; if (!closed) { if (ender == 0) k.close(); else if (ender == 1) rd->close(); else k.close(); spin(); } if (closed != 1) c.fail("closed-count", c.note + ": mode " + num(mode) + ": closed emitted " + num(closed) + " times"); if (rd->isOpen() || w->isOpen()) c.fail("device-open", c.note + ": mode " + num(mode) + ": " + (rd->isOpen() ? "the input" : "the output") + " device is still open"); if (w->closes > 1 + (mode == 0 && ender == 1)) c.fail("closed-twice", c.note + ": mode " + num(mode)); if (mode == 1 && !in.tx.isEmpty()) c.fail("written-to-input", c.note + ": " + show(in.tx, 100)); if (mode && (!out.rx.isEmpty())) c.fail("output-read", c.note);
		u.tx = w->tx; u.events = ev; if (mode) { int before = closed; out.feed("GET /late HTTP/1.1\r\n\r\n"); spin(); k.close(); if (closed != before || ready != i) c.fail("after-close", c.note); }
		// The next client of the same connection has devices of another kind.
		SimDevice again; i = 0; ready = closed = 0; rd = w = &again; k.initialize(&again, &again); again.feed("GET /again HTTP/1.1\r\n\r\n"); spin(); if (ready != 1) c.fail("not-reusable", c.note + ": mode " + num(mode)); again.close(); spin(); if (closed != 1) c.fail("closed-count", c.note + ": second client, mode " + num(mode) + ": closed emitted " + num(closed) + " times");
	}
	for (int mode = 1; mode < 3; ++mode) { if (outs[mode].tx != outs[0].tx) c.fail("output-differs", c.note + ": mode " + num(mode) + ": " + diffText(outs[0].tx, outs[mode].tx)); if (outs[mode].open != outs[0].open) c.fail("close-differs", c.note + ": mode " + num(mode)); if (mode == 1 && outs[1].events != outs[0].events) c.fail("events-differ", c.note + ": " + diffText(outs[0].events, outs[1].events)); }
	(void)closer; c.count("devices", 3); c.distinct(fnv(c.note));
}
FAMILY(C08, every_byte, 2400, 2400)
{
	std::vector<Req> reqs(2); reqs[0].method = "POST"; reqs[0].uri = reqs[0].path = "/first"; reqs[0].add("Host", "h"); reqs[0].add("Content-Length", "20"); reqs[0].content = "01234567890123456789"; reqs[1].method = "GET"; reqs[1].uri = "/second?x=1"; reqs[1].path = "/second"; reqs[1].query = "x=1"; reqs[1].add("Expect", "none");
	int total = reqs[0].wire().size() + reqs[1].wire().size(); int per = c.index / 8 % (total + 1), action = c.index & 3; bool pip = c.index & 4; std::vector<int> styles; styles.push_back(c.index / 8 / (total + 1) % 6); styles.push_back(c.rng.below(6));
	std::vector<int> cuts; if (!pip) cuts.push_back(reqs[0].wire().size());
	c.note = "close before byte " + num(per) + " of " + num(total) + " action " + num(action);
	Conn k; { Session s(c, &k, c.rng.chance(50)); runC08(c, s, reqs, styles, 0, per, action, c.rng.chance(30), pip, cuts); } serveAgain(c, &k);
}

// ================================================================ C09
struct Snap { std::vector<std::pair<BA,BA> > v; void add(const BA& k, const BA& x) { v.push_back(std::make_pair(k, deep(x))); } };
static BA utf(const QString& s) { return s.isNull() ? BA() : s.toUtf8(); }
static void snap(Snap& o, Conn* k, const BA& tag)
{
	o.add(tag + "method", k->requestMethod()); o.add(tag + "uri", k->requestUri()); o.add(tag + "path", k->requestPath()); o.add(tag + "query", k->requestQueryString()); o.add(tag + "fragment", k->requestFragment()); o.add(tag + "version", k->requestHttpVersion()); o.add(tag + "content", k->requestContent());
	o.add(tag + "uriDecoded", utf(k->requestUriDecoded())); o.add(tag + "pathDecoded", utf(k->requestPathDecoded())); o.add(tag + "queryDecoded", utf(k->requestQueryStringDecoded())); o.add(tag + "fragmentDecoded", utf(k->requestFragmentDecoded()));
	BA h; for (int i = 0; i < k->requestHeaders().size(); ++i) h += k->requestHeaders().at(i).first + ": " + k->requestHeaders().at(i).second + "\n"; o.add(tag + "headers", h);
	const Pillow::HttpParamCollection& p = k->requestParams(); BA ps; for (int i = 0; i < p.size(); ++i) ps += utf(p.at(i).first) + "=" + utf(p.at(i).second) + "&"; o.add(tag + "params", ps);
	o.add(tag + "paramValue", utf(k->requestParamValue("a"))); o.add(tag + "hostHeader", k->requestHeaderValue("Host")); o.add(tag + "missingHeader", k->requestHeaderValue("x-leak"));
	o.add(tag + "status", num(k->responseStatusCode())); o.add(tag + "length", num(k->responseContentLength()));
}
static BA leaky(Rng& r) { switch (r.below(6)) { case 0: return "/?a=LEAK&b=2"; case 1: return "/LEAK%41/x?a=" + BA(r.range(1, 3000), 'L') + "#LEAKFRAG"; case 2: return "/LEAK;p"; case 3: return "/" + BA(r.range(1, 5000), 'k'); case 4: return "/?LEAK"; default: return "/LEAK?a=%4c%45#f"; } }
// One earlier session on the connection: some requests, then an end of some kind. `pollute`: after ready.
static void historySession(Ctx& c, Conn* k, BA& desc)
{
	Session s(c, k, c.rng.chance(60)); int n = c.rng.below(4); int stopAt = c.rng.chance(40) ? c.rng.below(n + 1) : -1; int end = c.rng.below(7); Rng& r = c.rng;
	s.onReady = [&](int i) {
		if (r.chance(60)) readAll(k); if (r.chance(30)) k->setRequestParam("a", "LEAK"); if (r.chance(20)) for (int j = 0; j < 20; ++j) k->setRequestParam("p" + QString::number(j), "LEAK");
		if (i == stopAt) { if (r.chance(50)) { k->writeHeaders(500, r.chance(50) ? hdrs({{"Content-Length", "100"}, {"X-Leak", "1"}}) : hdrs({{"Transfer-Encoding", "chunked"}})); if (r.chance(50)) k->writeContent("partial"); } if (r.chance(50)) { if (r.chance(50)) k->close(); else s.d->close(); } return; }
		switch (r.below(7)) { case 0: k->writeResponse(404, hdrs({{"X-Leak", "1"}, {"Content-Type", "x/leak"}}), "LEAK"); break; case 1: k->writeResponse(200, hdrs({{"Connection", "close"}}), "LEAK"); break; case 2: k->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); k->writeContent("LEAK"); k->endContent(); break; case 3: k->writeHeaders(200); k->writeContent("LEAK"); k->endContent(); break; case 4: k->writeResponse(200, hdrs({{"X-Big", BA(r.range(1, 9000), 'L')}}), BA(r.below(9000), 'L')); break; case 5: k->writeResponse(204); break; default: k->writeHeaders(200, hdrs({{"Content-Length", "2"}})); k->writeContent("ok"); }
	};
	s.start(); desc += "[" + num(n) + " reqs";
	for (int i = 0; i < n && !s.isClosed(); ++i)
	{
		BA w = BA(r.chance(20) ? "HEAD" : r.chance(50) ? "POST" : "GET") + " " + leaky(r) + (r.chance(80) ? " HTTP/1.1\r\n" : " HTTP/1.0\r\nConnection: keep-alive\r\n") + "Host: LEAK\r\nX-Leak: yes\r\n"; int body = r.chance(40) ? (r.chance(20) ? r.range(33000, 60000) : r.range(1, 300)) : 0; int hn = r.chance(15) ? r.range(20, 60) : 0; while (hn--) w += "X-H" + num(hn) + ": LEAK\r\n";
		if (r.chance(15)) w += "Expect: 100-continue\r\n"; if (r.chance(10)) w += "Connection: close\r\n"; if (body) w += "Content-Length: " + num(body) + "\r\n"; w += "\r\n" + BA(body, 'B'); s.feedAll(split(r, w)); if (r.chance(30)) spin();
	}
	if (!s.isClosed()) switch (end) {
		case 0: desc += " partial head"; s.feed("PUT /LEAKPART?a=LEAK HTTP/1.1\r\nX-Leak: pa" + BA(r.chance(20) ? 20000 : 0, 'P')); break;
		case 1: desc += " partial body"; s.feed("POST /LEAKBODY?a=LEAK#z HTTP/1.1\r\nX-Leak: b\r\nConnection: close\r\nContent-Length: " + num(r.chance(30) ? 50000 : 500) + "\r\n\r\npartial" + BA(r.chance(30) ? 400 : 0, 'P')); break;
		case 2: desc += " bad head"; s.feed("bad LEAK\r\n\r\n"); break;
		case 3: desc += " bad length"; s.feed("POST /LEAK?a=LEAK HTTP/1.1\r\nX-Leak: c\r\nContent-Length: x\r\n\r\n"); break;
		case 4: desc += " oversized"; s.feed("GET /LEAK HTTP/1.1\r\nX-Leak: " + BA(40000, 'Z')); break;
		case 5: desc += " pipelined rest"; s.feed("GET /LEAK1?a=1 HTTP/1.1\r\n\r\nGET /LEAK2 HTTP/1.1\r\nX-L"); break;
		default: desc += " clean"; }
	if (s.d->backlog && r.chance(50)) s.d->drain(s.d->backlog); if (r.chance(50)) spin();
	if (!s.isClosed()) { if (r.chance(50)) k->close(); else s.d->close(); }
	desc += "]";
}
static void observe(Ctx& c, Conn* k, const std::vector<BA>& wires, const std::vector<int>& styles, const std::vector<std::vector<BA> >& pieces, Snap& o, BA& tx, bool early)
{
	Session s(c, k);
	if (early) snap(o, k, "idle ");
	s.start();
	if (early) snap(o, k, "started ");
	s.onReady = [&](int i) {
		snap(o, k, "req" + num(i) + " ");
		switch (styles[i % styles.size()]) { case 0: k->writeResponse(200, Headers(), "body" + num(i)); break; case 1: k->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); snap(o, k, "mid" + num(i) + " "); k->writeContent("a"); k->writeContent("bc"); k->endContent(); break; case 2: k->writeHeaders(201, hdrs({{"Content-Length", "6"}})); k->writeContent("ab"); k->writeContent("cdef"); k->writeContent("too much"); break; case 3: k->setRequestParam("n", "v"); snap(o, k, "set" + num(i) + " "); k->writeResponse(304); break; default: k->writeHeaders(200); k->writeContent("until close"); k->endContent(); }
	};
	s.onCompleted = [&](int i) { o.add("done" + num(i), num(k->responseStatusCode()) + "/" + num(k->responseContentLength())); };
	s.onClosed = [&]() { o.add("closed", num(s.nReady)); };
	for (size_t i = 0; i < wires.size(); ++i) { if (s.isClosed()) break; for (auto& p : pieces[i]) { s.feed(p); } spin(); o.add("tx after " + num(i), num(s.d->tx.size())); }
	if (!s.isClosed()) { if (k->state() == Conn::ReceivingHeaders) o.add("state", "waiting"); else o.add("state", num(k->state())); s.d->close(); }
	tx = s.d->tx;
}
FAMILY(C09, differential, 30000, 600000)
{
	// The observed requests.
	int n = c.rng.range(1, 3); std::vector<BA> wires; std::vector<std::vector<BA> > pieces; std::vector<int> styles;
	for (int i = 0; i < n; ++i)
	{
		GenOpts o; o.maxBody = c.rng.chance(10) ? 40000 : 200; o.maxHeaders = 5; Req q = genRequest(c.rng, o); if (c.rng.chance(30)) { q.uri = q.path = "/"; q.query = q.fragment = BA(); }
		wires.push_back(q.wire()); pieces.push_back(split(c.rng, wires.back())); styles.push_back(c.rng.below(i + 1 < n ? 4 : 5));
	}
	if (c.rng.chance(15)) { wires.push_back("bad\r\n\r\n"); pieces.push_back(split(c.rng, wires.back())); styles.push_back(0); }
	bool early = c.rng.chance(60);
	Snap a, b; BA ta, tb, desc;
	{ Conn fresh; observe(c, &fresh, wires, styles, pieces, a, ta, false); }
	Conn used; int m = c.rng.range(1, 3); while (m--) historySession(c, &used, desc);
	if (early) { Snap e; Session s(c, &used); s.start(); snap(e, &used, "new client "); for (auto& p : e.v) if (p.second.contains("LEAK") || p.second.contains("kkk")) c.fail("leak:" + p.first, "before the first request of a new client, " + p.first + " is " + show(p.second, 100)); if (c.rng.chance(50)) { BA part = wires[0].left(c.rng.below(wires[0].size())); s.feed(part); if (s.nReady == 0) { Snap f; snap(f, &used, "partial "); for (auto& p : f.v) if (p.second.contains("LEAK") || p.second.contains("kkk")) c.fail("leak:" + p.first, "while the first request of a new client arrives, " + p.first + " is " + show(p.second, 100)); } else s.conn->writeResponse(200); } s.finish(); }
	observe(c, &used, wires, styles, pieces, b, tb, false);
	c.note = desc; c.sample(desc + " then " + show(wires[0], 200));
	if (a.v.size() != b.v.size()) c.fail("observations", num(a.v.size()) + " observations on a fresh connection, " + num(b.v.size()) + " on a used one");
	else for (size_t i = 0; i < a.v.size(); ++i) if (a.v[i] != b.v[i]) { c.fail("differs:" + a.v[i].first.mid(a.v[i].first.indexOf(' ') + 1), a.v[i].first + ": " + diffText(a.v[i].second, b.v[i].second)); break; }
	if (ta != tb) c.fail("wire-differs", diffText(ta, tb));
	c.count("fields_compared", a.v.size()); c.distinct(fnv(desc, fnv(wires[0])));
}
// The same request at any position of a connection reads the same as on its own.
FAMILY(C09, position, 20000, 400000)
{
	GenOpts o; o.maxBody = c.rng.chance(10) ? 40000 : 200; o.maxHeaders = 5; Req q = genRequest(c.rng, o); q.version = "HTTP/1.1"; bool simple = c.rng.chance(30); if (simple) { q = Req(); q.method = "GET"; q.uri = q.path = "/"; }
	BA w = q.wire(); int style = c.rng.below(4);
	Snap a, b; BA ta, tb; { Conn fresh; Session s(c, &fresh); s.start(); s.onReady = [&](int) { snap(a, &fresh, ""); if (style) fresh.writeResponse(200, Headers(), "X"); else { fresh.writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); fresh.writeContent("X"); fresh.endContent(); } }; s.feed(w); ta = s.d->tx; }
	Conn k; Session s(c, &k); int before = c.rng.range(1, 4); int at = 0; BA pre; BA desc;
	s.onReady = [&](int i) {
		if (i < before) { if (c.rng.chance(60)) readAll(&k); if (c.rng.chance(40)) k.setRequestParam("a", "LEAK"); if (c.rng.chance(30)) k.writeResponse(404, hdrs({{"X-Leak", "1"}, {"Content-Type", "x/leak"}}), BA(c.rng.below(200), 'x')); else if (k.requestHttpVersion() == "HTTP/1.1" && c.rng.chance(50)) { k.writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); k.writeContent("LEAK"); k.endContent(); } else k.writeResponse(200, hdrs({{"X-Big", BA(c.rng.below(6000), 'L')}})); return; }
		at = s.d->tx.size(); snap(b, &k, ""); if (style) k.writeResponse(200, Headers(), "X"); else { k.writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); k.writeContent("X"); k.endContent(); }
	};
	s.start();
	for (int i = 0; i < before; ++i) { BA body(c.rng.chance(40) ? c.rng.size(50000) : 0, 'b'); BA x = BA(c.rng.chance(30) ? "HEAD" : "POST") + " " + leaky(c.rng) + (c.rng.chance(70) ? " HTTP/1.1\r\n" : " HTTP/1.0\r\nConnection: keep-alive\r\n") + "Host: LEAK\r\nX-Leak: 1\r\n" + (c.rng.chance(20) ? "Expect: 100-continue\r\n" : "") + (body.size() ? "Content-Length: " + num(body.size()) + "\r\n" : BA()) + "\r\n" + body; pre += x; }
	if (c.rng.chance(50)) { s.feedAll(split(c.rng, pre)); s.feedAll(split(c.rng, w)); } else s.feedAll(split(c.rng, pre + w));
	spin(); tb = s.d->tx.mid(at); if (lower(q.value("Expect")) == "100-continue") tb = ta;
	c.note = num(before) + " requests before " + show(w, 200); c.sample(c.note);
	if (s.nReady != before + 1) c.fail("ready-count", num(s.nReady));
	else if (a.v.size() == b.v.size()) for (size_t i = 0; i < a.v.size(); ++i) if (a.v[i] != b.v[i]) { c.fail("differs:" + a.v[i].first, a.v[i].first + ": " + diffText(a.v[i].second, b.v[i].second)); break; }
	if (s.nReady == before + 1 && ta != tb) c.fail("wire-differs", diffText(ta, tb));
	c.count("fields_compared", a.v.size()); c.distinct(fnv(w) ^ fnv(pre)); s.onReady = 0; s.finish();
}

// ================================================================ C10
FAMILY(C10, interim, 60000, 1000000)
{
	static const char* exp[] = {"100-continue", "100-Continue", "100-CONTINUE", "100-cOnTiNuE"}; static const char* noexp[] = {"100-continued", "100", "continue", "", "200-ok", "100 continue", "100-continu"};
	int n = c.rng.range(1, 4); std::vector<Req> reqs; std::vector<bool> due; std::vector<BA> methods; bool pipelined = c.rng.chance(50); bool deferred = c.rng.chance(50);
	for (int i = 0; i < n; ++i)
	{
		Req q; q.method = c.rng.chance(50) ? "POST" : c.rng.chance(50) ? "PUT" : "GET"; q.uri = q.path = "/" + num(i); int hk = c.rng.below(4); bool e = false;
		std::vector<std::pair<BA,BA> > hs; int len = c.rng.chance(30) ? 0 : c.rng.chance(10) ? c.rng.range(30000, 70000) : c.rng.range(1, 200); bool cl = len > 0 || c.rng.chance(50);
		if (hk <= 1) { hs.push_back(std::make_pair(BA(c.rng.chance(50) ? "Expect" : c.rng.chance(50) ? "expect" : "EXPECT"), BA(exp[c.rng.below(4)]))); e = true; } else if (hk == 2) hs.push_back(std::make_pair(BA("Expect"), BA(noexp[c.rng.below(7)]))); else if (c.rng.chance(30)) hs.push_back(std::make_pair(BA("X-Expect"), BA("100-continue")));
		if (cl) hs.insert(hs.begin() + c.rng.below(int(hs.size()) + 1), std::make_pair(BA(c.rng.chance(50) ? "Content-Length" : "content-length"), num(len)));
		if (c.rng.chance(40)) hs.insert(hs.begin() + c.rng.below(int(hs.size()) + 1), std::make_pair(BA("Host"), BA("100-continue")));
		q.headers = hs; q.content = c.rng.bytes(len); if (c.rng.chance(20) && i + 1 == n) q.version = "HTTP/1.1"; reqs.push_back(q); due.push_back(e && len > 0); methods.push_back(q.method);
	}
	Session s(c, 0, c.rng.chance(70)); int answered = 0; std::vector<int> interimAtReady; int style = c.rng.below(3);
	auto answer = [&](int i) { ++answered; if (style == 0) s.conn->writeResponse(200, Headers(), "r" + num(i)); else if (style == 1) { s.conn->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); s.conn->writeContent("r" + num(i)); s.conn->endContent(); } else { s.conn->writeHeaders(200, hdrs({{"Content-Length", "2"}})); s.conn->writeContent("r"); s.conn->writeContent(num(i)); } };
	auto interims = [&]() { return s.d->tx.count("HTTP/1.1 100 Continue\r\n\r\n"); };
	s.onReady = [&](int i) { if (i < n && deep(s.conn->requestContent()) != reqs[i].content) c.fail("content", "request " + num(i) + ": " + diffText(reqs[i].content, s.conn->requestContent())); if (!deferred) answer(i); };
	s.start(); c.note = num(n) + " requests pipelined=" + num(pipelined) + " deferred=" + num(deferred) + " due:"; for (bool b : due) c.note += b ? " y" : " n"; c.sample(c.note);
	int expected = 0;
	auto drainDeferred = [&]() { if (deferred) while (answered < s.nReady) answer(answered); };
	if (!pipelined) for (int i = 0; i < n; ++i)
	{
		BA h = reqs[i].head(); int before = s.d->tx.size(); std::vector<BA> pcs = split(c.rng, h); int fed = 0;
		int sent = 0; // content bytes that travelled with the end of the head
		for (auto& p : pcs) { fed += p.size(); if (fed == h.size() && c.rng.chance(30)) sent = c.rng.below(reqs[i].content.size() + 1); s.feed(p + reqs[i].content.left(fed == h.size() ? sent : 0)); if (fed < h.size() && s.d->tx.size() != before) c.fail("interim-early", "output before the head of request " + num(i) + " was complete"); }
		if (due[i]) ++expected;
		if (interims() != expected) { c.fail(interims() > expected ? "interim-undue" : "interim-missing", "request " + num(i) + ": " + num(interims()) + " interim responses after its head, expected " + num(expected) + " | " + show(h, 300)); break; }
		if (due[i] && sent < reqs[i].content.size() && s.d->tx.mid(before) != "HTTP/1.1 100 Continue\r\n\r\n") c.fail("interim-early", "unexpected output while the content of request " + num(i) + " is awaited: " + show(s.d->tx.mid(before), 200));
		if (sent < reqs[i].content.size()) s.feedAll(split(c.rng, reqs[i].content.mid(sent)));
		drainDeferred();
	}
	else { BA all; for (auto& q : reqs) all += q.wire(); for (auto& p : split(c.rng, all)) { s.feed(p); if (c.rng.chance(30)) drainDeferred(); } for (int i = 0; i <= n; ++i) drainDeferred(); for (bool b : due) expected += b; if (interims() != expected) c.fail(interims() > expected ? "interim-undue" : "interim-missing", num(interims()) + " interim responses, expected " + num(expected)); }
	// A request that gets refused, expecting as it may.
	if (!s.nClosed && s.nReady == n && answered == n && c.rng.chance(25))
	{
		static const char* lens[] = {"999999999", "134217729", "abc", "-5", "12x", "99999999999999999999", "1 2", "0x10"}; BA len = lens[c.rng.below(8)]; std::vector<BA> hs; hs.push_back("Expect: 100-continue\r\n"); hs.push_back("Content-Length: " + len + "\r\n"); if (c.rng.chance(50)) hs.push_back("Host: x\r\n"); for (size_t i = hs.size(); i > 1; --i) std::swap(hs[i - 1], hs[c.rng.below(int(i))]);
		BA w = "POST /refused HTTP/1.1\r\n"; for (auto& h : hs) w += h; w += "\r\n"; int before = s.d->tx.size(); s.feedAll(split(c.rng, w)); BA out = s.d->tx.mid(before); c.count("refused");
		if (s.nReady != n) c.fail("refused-delivered", "Content-Length: " + len); if (out.contains("100 Continue")) c.fail("interim-before-refusal", "Content-Length: " + len + ": " + show(out, 200)); if (!out.startsWith("HTTP/1.0 4")) c.fail("refusal", "Content-Length: " + len + ": " + show(out, 200));
		s.d->tx.truncate(before);
	}
	// Position of interim and final responses on the wire.
	std::vector<Resp> rs; int pos = 0; int final = 0, inter = 0; bool bad = false;
	while (pos < s.d->tx.size()) { Resp r; BA e = parseResponse(s.d->tx, pos, false, false, r); if (!e.isEmpty() || !r.complete) { c.fail("wire-invalid", e + show(s.d->tx.mid(pos), 200)); bad = true; break; } if (r.interim) { if (r.status != 100 || !r.headers.empty() || final >= n || !due[final] || inter++) c.fail("interim-position", "interim response " + num(r.status) + " while response " + num(final) + " is next"); } else { if (r.content != "r" + num(final)) c.fail("final-differs", "response " + num(final)); if (final < n && due[final] && !inter) c.fail("interim-missing", "no interim response before response " + num(final)); inter = 0; ++final; } pos = r.end; }
	if (!bad && s.nReady == n && final != n) c.fail("final-count", num(final) + " final responses for " + num(n));
	c.count("interims", interims()); uint64_t hsh = n * 4 + pipelined * 2 + deferred; for (size_t i = 0; i < due.size(); ++i) hsh = hsh * 31 + due[i] * 3 + (reqs[i].content.isEmpty() ? 1 : 0) + reqs[i].headers.size() * 5; c.distinct(hsh);
	s.onReady = 0; s.finish();
}

// ================================================================ C11
static BA refDecode(const BA& s) { BA o; for (int i = 0; i < s.size(); ++i) { if (s.at(i) == '%' && i + 2 < s.size() && isxdigit((unsigned char)s.at(i + 1)) && isxdigit((unsigned char)s.at(i + 2))) { o += char(strtol(s.mid(i + 1, 2).constData(), 0, 16)); i += 2; } else o += s.at(i); } return o; }
static QString refText(const BA& s) { BA d = refDecode(s); return QString::fromUtf8(d.constData(), d.size()); }
static BA encodedText(Rng& r, int n, bool query)
{
	BA o; static const char H[] = "0123456789abcdefABCDEF";
	while (o.size() < n) switch (r.below(12)) { case 0: o += '%'; o += H[r.below(22)]; o += H[r.below(22)]; break; case 1: { static const char* u[] = {"%C3%A9", "%e2%82%ac", "%F0%9F%98%80", "%C3", "%A9%C3", "%00", "%25", "%2541", "%26", "%3D", "%2B", "%2F", "%EF%BB%BF", "%ff%fe", "%23", "%3F", "%20"}; o += u[r.below(17)]; break; } case 2: if (query) o += "&=;/?"[r.below(5)]; else o += "+:@&="[r.below(5)]; break; case 3: if (query) { o += r.chance(50) ? "&a=" : "&A"; break; } case 4: o += char(r.range(128, 255)); break; default: o += "abcdefghijkXYZ0123456789-_.!~*'(),"[r.below(34)]; }
	return o;
}
FAMILY(C11, decoding, 60000, 1200000)
{
	auto len = [&]() { switch (c.rng.below(8)) { case 0: return c.rng.range(1015, 1032); case 1: return c.rng.range(1000, 6000); case 2: return c.rng.range(0, 3); default: return c.rng.below(60); } };
	BA path = "/" + encodedText(c.rng, len(), false), query = c.rng.chance(70) ? encodedText(c.rng, len(), true) : BA(), frag = c.rng.chance(30) ? encodedText(c.rng, len(), false) : BA(); bool hasQ = !query.isEmpty() || c.rng.chance(10);
	if (c.rng.chance(20)) { int cut = 1021 + c.rng.below(6); if (path.size() > cut) { path = path.left(cut - 3); int pc = path.lastIndexOf('%'); if (pc > path.size() - 3) path = path.left(pc) + BA(path.size() - pc, 'z'); path += "%41"; } }
	BA uri = path + (hasQ ? "?" + query : BA());
	c.note = show(uri, 400) + (frag.isEmpty() ? "" : "#" + show(frag, 100)); c.sample(c.note);
	Session s(c); bool got = false;
	s.onReady = [&](int) {
		got = true; Conn* k = s.conn; int order = c.rng.below(2);
		auto chk = [&](const BA& what, const QString& want, const QString& have) { if (want != have) c.fail("decoded-" + what, diffText(want.toUtf8(), have.toUtf8())); c.count("decoded"); };
		auto decoded = [&]() { chk("uri", refText(uri), k->requestUriDecoded()); chk("path", refText(path), k->requestPathDecoded()); chk("query", refText(query), k->requestQueryStringDecoded()); chk("fragment", refText(frag), k->requestFragmentDecoded()); };
		if (order) decoded();
		std::vector<std::pair<QString,QString> > want; int p = 0;
		while (p < query.size()) { int e = query.indexOf('&', p); if (e < 0) e = query.size(); BA kv = query.mid(p, e - p); int q = kv.indexOf('='); if (q < 0) want.push_back(std::make_pair(refText(kv), QString())); else want.push_back(std::make_pair(refText(kv.left(q)), refText(kv.mid(q + 1)))); p = e + 1; }
		auto compare = [&](const char* when) {
			const Pillow::HttpParamCollection& ps = k->requestParams();
			if (ps.size() != int(want.size())) { c.fail("params-count", BA(when) + num(ps.size()) + " params, expected " + num(int(want.size()))); return; }
			for (size_t i = 0; i < want.size(); ++i) if (ps.at(int(i)).first != want[i].first || ps.at(int(i)).second != want[i].second) { c.fail("params-differ", BA(when) + "param " + num(int(i)) + " is " + show((ps.at(int(i)).first + "=" + ps.at(int(i)).second).toUtf8(), 100) + ", expected " + show((want[i].first + "=" + want[i].second).toUtf8(), 100)); return; }
		};
		bool readFirst = c.rng.chance(50); if (readFirst) compare("");
		auto find = [&](const QString& n) { for (size_t i = 0; i < want.size(); ++i) if (want[i].first.compare(n, Qt::CaseInsensitive) == 0) return int(i); return -1; };
		auto someName = [&]() { if (!want.empty() && c.rng.chance(60)) { QString n = want[c.rng.below(int(want.size()))].first; return c.rng.chance(50) ? n.toUpper() : c.rng.chance(50) ? n.toLower() : n; } static const char* nm[] = {"a", "A", "new", "New", ""}; return QString(nm[c.rng.below(5)]); };
		int ops = c.rng.below(9);
		while (ops--)
		{
			QString n = someName();
			// Upper/lower casing may be lossy in Unicode: only use names whose caseless identity is unambiguous.
			if (c.rng.chance(50)) { int i = find(n); QString w = i < 0 ? QString() : want[i].second, h = k->requestParamValue(n); if (w != h) c.fail("param-value", show(n.toUtf8(), 60) + " is " + show(h.toUtf8(), 60) + ", expected " + show(w.toUtf8(), 60)); }
			else { QString v = c.rng.chance(20) ? QString() : QString::fromUtf8("v\xc3\xa9") + QString::number(c.rng.below(100)); int i = find(n); k->setRequestParam(n, v); if (i < 0) want.push_back(std::make_pair(n, v)); else want[i] = std::make_pair(k->requestParams().size() > i ? (k->requestParams().at(i).first.compare(n, Qt::CaseInsensitive) == 0 ? k->requestParams().at(i).first : n) : n, v); c.count("param_writes"); }
			if (c.rng.chance(30)) compare("after changes, ");
		}
		compare("finally, "); decoded();
		k->writeResponse(200);
	};
	s.start(); s.feedAll(split(c.rng, "GET " + uri + (frag.isEmpty() ? BA() : "#" + frag) + " HTTP/1.1\r\n\r\n"));
	if (!got) c.fail("not-delivered", "request not delivered");
	c.distinct(fnv(uri)); s.onReady = 0; s.finish();
}
FAMILY(C11, helper, 60000, 1000000)
{
	// The decoding helper itself, on any bytes, in exactly sized heap buffers.
	int n = c.rng.chance(25) ? c.rng.range(1018, 1030) : c.rng.chance(20) ? c.rng.range(0, 4) : c.rng.below(300); BA raw;
	while (raw.size() < n) switch (c.rng.below(4)) { case 0: raw += '%'; break; case 1: raw += "0123456789abcdefABCDEFgG"[c.rng.below(24)]; break; case 2: raw += encodedText(c.rng, 3, true); break; default: raw += char(c.rng.range(0, 255)); } raw = raw.left(n);
	if (c.rng.chance(30) && n) raw.data()[n - 1] = '%'; if (c.rng.chance(30) && n > 1) raw.data()[n - 2] = '%'; if (c.rng.chance(20) && n > 2) raw.data()[n - 3] = '%';
	QString want = refText(raw); char* heap = new char[n + (n == 0)]; memcpy(heap, raw.constData(), n);
	QString a = Pillow::ByteArrayHelpers::percentDecode(heap, n), b = Pillow::ByteArrayHelpers::percentDecode(BA::fromRawData(heap, n));
	if (memcmp(heap, raw.constData(), n)) c.fail("input-modified", "decoding changed its input");
	int m = Pillow::ByteArrayHelpers::percentDecodeInPlace(heap, n); BA d(heap, qMax(m, 0)); delete[] heap;
	c.note = show(raw, 300); c.sample(c.note);
	if (a != want && !(n == 0)) c.fail("helper-decode", diffText(want.toUtf8(), a.toUtf8()));
	if (b != want && n) c.fail("helper-decode", diffText(want.toUtf8(), b.toUtf8()));
	if (d != refDecode(raw)) c.fail("helper-in-place", diffText(refDecode(raw), d));
	c.count("helper_calls", 3); c.distinct(fnv(raw));
}

// ================================================================ C12
static BA mutate(Rng& r, BA b)
{
	static const char* dict[] = {"\r\n", "\r\n\r\n", "Content-Length: ", "content-length:5\r\n", "Content-Length: -1\r\n", "Content-Length: 134217729\r\n", "Content-Length: 2147483648\r\n", "Expect: 100-continue\r\n", "Connection: keep-alive\r\n", "Connection: close\r\n", "Transfer-Encoding: chunked\r\n", " HTTP/1.1\r\n", " HTTP/1.0\r\n", "GET / HTTP/1.1\r\n\r\n", "POST ", "HEAD ", "#", "?", "%", "%41", "%u41", ";", ":", "http:", "*", "\r", "\n", " ", "HTTP/", "0", "99999999999", "\0"};
	// Numbers around the limits of their types, where a number or a line stood.
	static const char* numbers[] = {"0", "1", "127", "255", "32768", "65536", "134217727", "134217728", "134217729", "2147483600", "2147483615", "2147483640", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "9223372036854775807", "18446744073709551615", "18446744073709551621", "-1", "-2147483648", "+5", "00005", "5 ", "0x5", "1e3"};
	int n = r.range(1, 6);
	while (n--)
	{
		int p = r.below(b.size() + 1);
		switch (r.below(12))
		{
		case 10: { int q = b.indexOf("\r\n", p); if (q >= 0) b.insert(q + 2, BA(r.chance(80) ? "Content-Length: " : "Keep-Alive: ") + numbers[r.below(int(sizeof numbers / sizeof *numbers))] + "\r\n"); break; }
		case 11: { int q = p; while (q < b.size() && !isdigit(uchar(b.at(q)))) ++q; int e = q; while (e < b.size() && isdigit(uchar(b.at(e)))) ++e; if (e > q) b.replace(q, e - q, numbers[r.below(int(sizeof numbers / sizeof *numbers))]); break; }
		case 0: if (p < b.size()) b.data()[p] = char(r.next()); break;
		case 1: if (p < b.size()) b.data()[p] = b.at(p) ^ (1 << r.below(8)); break;
		case 2: b.insert(p, BA(1, char(r.next()))); break;
		case 3: b.remove(p, r.range(1, 8)); break;
		case 4: case 5: { int k = r.below(int(sizeof dict / sizeof *dict)); b.insert(p, k == int(sizeof dict / sizeof *dict) - 1 ? BA(1, 0) : BA(dict[k])); break; }
		case 6: { int q = r.below(b.size() + 1); b.insert(p, b.mid(q, r.range(1, 60))); break; }
		case 7: b.insert(p, BA(r.chance(10) ? r.range(1000, 40000) : r.range(1, 60), r.chance(50) ? 'a' : char(r.next()))); break;
		case 8: b.truncate(p); break;
		default: { const char* bytes = "\0\r\n :%#?\x7f\xff\x80"; b.insert(p, bytes[r.below(11)]); }
		}
	}
	return b;
}
// Independent reading of what was sent, to judge what was delivered.
static BA judgeDelivered(const BA& stream, int& pos, const Seen& s, bool headersToo)
{
	int e = stream.indexOf("\r\n\r\n", pos); if (e < 0) return "a request was delivered although no head was complete";
	BA head = stream.mid(pos, e - pos); QList<BA> lines; int p = 0; for (;;) { int q = head.indexOf("\r\n", p); if (q < 0) { lines << head.mid(p); break; } lines << head.mid(p, q - p); p = q + 2; }
	BA want = s.method + " " + s.uri + (s.fragment.isEmpty() ? BA() : "#" + s.fragment) + " " + s.version;
	if (lines[0] != want && lines[0] != s.method + " " + s.uri + "# " + s.version) return "request line differs: sent " + show(lines[0], 200) + " delivered " + show(want, 200);
	if (!s.uri.startsWith(s.path) && !s.path.isEmpty()) return "path " + show(s.path, 100) + " is not part of the uri " + show(s.uri, 100);
	if (headersToo)
	{
		if (int(s.headers.size()) != lines.size() - 1) return num(s.headers.size()) + " headers delivered, " + num(lines.size() - 1) + " sent";
		for (size_t i = 0; i < s.headers.size(); ++i) { BA l = lines[int(i) + 1]; if (!l.startsWith(s.headers[i].first + ":")) return "header name " + show(s.headers[i].first, 80) + " differs from line " + show(l, 120); BA v = l.mid(s.headers[i].first.size() + 1); int k = 0; while (k < v.size() && v.at(k) == ' ') ++k; if (v.mid(k) != s.headers[i].second && v != s.headers[i].second) return "header value " + show(s.headers[i].second, 80) + " differs from line " + show(l, 120); }
	}
	int b = e + 4; if (stream.mid(b, s.content.size()) != s.content) return "content differs from the bytes sent";
	qint64 cl = 0; for (auto& h : s.headers) if (lower(h.first) == "content-length") cl = h.second.toLongLong();
	if (headersToo && cl != s.content.size()) return "content has " + num(s.content.size()) + " bytes, the last Content-Length says " + num(cl);
	pos = b + s.content.size(); return BA();
}
static void hostileSession(Ctx& c, Conn* k, const BA& stream, const std::vector<BA>& pcs)
{
	Session s(c, k, c.rng.chance(70)); int pos = 0; int style = c.rng.below(6); int pendingReq = 0;
	auto reply = [&](int i) { switch (style) { case 0: k->writeResponse(200, Headers(), deep(k->requestContent())); break; case 1: k->writeResponse(200, hdrs({{"X-Path", k->requestPath()}}), k->requestContent()); break; case 2: k->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); k->writeContent(k->requestContent()); k->endContent(); break; case 3: k->writeResponse(404); break; case 4: k->writeHeaders(200); k->writeContent("x"); k->endContent(); break; default: k->writeResponse(200, Headers(), bodyFor(i, 30)); } };
	s.onReady = [&](int i) { readAll(k); BA e = judgeDelivered(stream, pos, seeRequest(k), true); if (!e.isEmpty()) c.fail("delivered-not-sent", "request " + num(i) + ": " + e); c.count("delivered"); if (style == 5 && i % 2) { ++pendingReq; return; } reply(i); };
	s.onClosed = [&]() { readAll(k); };
	s.start();
	for (auto& p : pcs) { if (s.isClosed()) break; s.feed(p); if (pendingReq) { --pendingReq; reply(0); } if (c.rng.chance(10)) spin(); if (!s.d->autoDrain && c.rng.chance(40)) s.d->drain(c.rng.range(1, 5000)); if (k->state() == Conn::ReceivingContent || k->state() == Conn::ReceivingHeaders) { if (c.rng.chance(20)) readAll(k); } }
	spin(); s.onReady = 0; s.onClosed = 0;
	if (!s.isClosed()) { if (c.rng.chance(50)) s.d->close(); else k->close(); }
	spin();
}
static std::vector<BA>& corpus() { static std::vector<BA> v; return v; }
FAMILY(C12, fuzz, 60000, 2000000)
{
	BA b; int src = c.rng.below(10);
	if (src < 5 && !corpus().empty()) b = mutate(c.rng, corpus()[c.rng.below(int(corpus().size()))]);
	else if (src == 5) b = c.rng.bytes(c.rng.size(3000));
	else { GenOpts o; o.maxBody = c.rng.chance(10) ? 9000 : 100; o.maxHeaders = 5; int n = c.rng.range(1, 3); while (n--) { Req q = genRequest(c.rng, o); if (c.rng.chance(30)) q.headers.insert(q.headers.begin(), std::make_pair(BA("Expect"), BA("100-continue"))), q.spaces.insert(q.spaces.begin(), 1); b += q.wire(); } if (c.rng.chance(80)) b = mutate(c.rng, b); }
	if (b.size() > 150000) b.truncate(150000);
	std::vector<BA> pcs = split(c.rng, b); c.note = show(b, 700) + " " + describe(pcs); c.sample(c.note);
	static Conn* k = 0; static int uses = 0; if (!k || uses++ % 50 == 49) { delete k; k = new Conn; }
	coverageReset();
	hostileSession(c, k, b, pcs);
	if (coverageGrew() && corpus().size() < 3000) { corpus().push_back(b); c.count("corpus"); }
	c.count("bytes", b.size());
	if (c.index % 4 == 0) serveAgain(c, k);
	c.distinct(fnv(b));
}
// A device that fails or lies: read errors, short reads, availability that comes and goes.
class BadDevice : public SimDevice { public: int mode; Rng* r; BadDevice(Rng* r_, int m) : SimDevice(true), mode(m), r(r_) {} qint64 bytesAvailable() const { return SimDevice::bytesAvailable(); } protected: qint64 readData(char* d, qint64 n) { if (mode == 0 && r->chance(30)) return -1; if (mode == 1 && n > 1) n = 1 + r->below(int(qMin<qint64>(n, 1000))); if (mode == 2 && r->chance(30)) return 0; return SimDevice::readData(d, n); } };
FAMILY(C12, bad_device, 6000, 100000)
{
	Conn k; BadDevice d(&c.rng, c.rng.below(3)); GenOpts o; o.maxBody = 3000; BA all; std::vector<Req> reqs; int n = c.rng.range(1, 3); for (int i = 0; i < n; ++i) { Req q = genRequest(c.rng, o); q.version = "HTTP/1.1"; reqs.push_back(q); all += q.wire(); }
	int got = 0; QObject::connect(&k, &Conn::requestReady, [&](Conn*) { if (got < n) { BA e = diffSeen(reqs[got], seeRequest(&k)); if (!e.isEmpty()) c.fail("request-differs", e); } ++got; k.writeResponse(200); });
	k.initialize(&d, &d); for (auto& p : split(c.rng, all)) d.feed(p); int g = 0; while (!d.rx.isEmpty() && ++g < 20000) { emit d.readyRead(); }
	if (d.mode != 0 && got != n) c.fail("ready-count", num(got) + " of " + num(n));
	c.note = "device mode " + num(d.mode); c.count("delivered", got); c.distinct(fnv(all)); d.close();
}
