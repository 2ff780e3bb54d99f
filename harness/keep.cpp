// Long-lived servers, clients, managers and handlers give back what each use took: C36.
#include "sock.h"
#include "client.h"
#include "HttpHandler.h"
#include "HttpHandlerSimpleRouter.h"
#include "HttpHandlerProxy.h"
#include "HttpHandlerQtScript.h"
#include <QtScript/QtScript>

static void put(const BA& path, const BA& content) { int f = ::open(path.constData(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f < 0) return; ssize_t r = ::write(f, content.constData(), content.size()); (void)r; ::close(f); }
enum { DIRECT, CHUNKS, DEFER, FILES, ROUTES, LOGGED, RELAY, SCRIPT, SCRIPTFILE, STACKED, NH };
static const char* const HN[] = {"direct", "chunks", "defer", "files", "routes", "logged", "relay", "script", "scriptfile", "stacked"};

// How a client behaves on one connection.
struct Visit { BA out; std::vector<BA> pieces; int replies; int end; bool raw; qint64 readLimit; };
enum { READ_ALL, SHUT_EARLY, RESET_EARLY, HALF_CLOSE, RESET_WHILE_READING, NEND };

FAMILY(C36, servers, 400, 12000)
{
	Rng& r = c.rng; int kind = r.chance(60) ? TCP : r.chance(60) ? LOCAL : TLS, what =  r.below(NH); std::unique_ptr<Srv> srv(new Srv(kind)); Srv& s = *srv; QObject owner; std::unique_ptr<Upstream> up; QScriptEngine* engine = 0; QFile null("/dev/null"); null.open(QIODevice::WriteOnly); QString dir = scratchDir() + "/keep" + QString::number(c.index); QDir().mkpath(dir);
	Pillow::HttpHandler* h = 0; std::vector<QPointer<Conn> > waiting; BA big = bodyFor(3, 900000), small = bodyFor(4, 700);
	switch (what)
	{
	case FILES: { put(BA(dir.toLatin1() + "/small"), small); put(BA(dir.toLatin1() + "/big"), big); Pillow::HttpHandlerFile* f = new Pillow::HttpHandlerFile(dir, &owner); f->setBufferSize(r.chance(50) ? 512 : 20000); h = f; break; }
	case ROUTES: { Pillow::HttpHandlerSimpleRouter* t = new Pillow::HttpHandlerSimpleRouter(&owner); t->addRoute("/small", new Pillow::HttpHandlerFixed(200, small, t)); t->addRoute("/big", 200, hdrs({{"X-A", "b"}}), big); t->addRoute("POST", "/:a/b/:c", new Pillow::HttpHandlerFixed(201, "made", t)); t->addRoute("/x/*rest", [](Conn* x) { x->writeResponse(200, Headers(), x->requestParamValue("rest").toUtf8()); }); h = t; break; }
	case LOGGED: { Pillow::HttpHandlerStack* t = new Pillow::HttpHandlerStack(&owner); new Pillow::HttpHandlerLog(r.chance(50) ? Pillow::HttpHandlerLog::LogCompletedRequests : Pillow::HttpHandlerLog::TraceRequests, &null, t); new Pillow::HttpHandlerFixed(200, small, t); h = t; break; }
	case RELAY: { up.reset(new Upstream()); h = new Pillow::HttpHandlerProxy(QUrl(up->url()), &owner); BA ok = "HTTP/1.1 200 OK\r\nContent-Length: 700\r\n\r\n" + small, bigr = "HTTP/1.1 200 OK\r\nContent-Length: 900000\r\n\r\n" + big; int mode = r.below(4); Upstream* u = up.get(); up->onRequest = [u, ok, bigr, mode](Upstream::C& k, const RawReq& q) { u->reqs.clear(); if (q.target.startsWith("/big")) u->reply(k, std::vector<BA>(1, bigr), Upstream::KEEP); else u->reply(k, std::vector<BA>(1, mode == 1 ? ok.left(300) : mode == 2 ? BA() : ok), mode == 0 ? Upstream::KEEP : mode == 3 ? Upstream::RST : Upstream::FIN); }; break; }
	case SCRIPT: { engine = new QScriptEngine(&owner); h = new Pillow::HttpHandlerQtScript(engine->evaluate(r.chance(70) ? "(function(r) { r.nativeRequest.writeResponseString(200, {'X-A': r.requestHeaders['Host']}, 'hello ' + r.requestPath); return true; })" : "(function(r) { throw new Error('boom'); })"), &owner); break; }
	case SCRIPTFILE: { engine = new QScriptEngine(&owner); put(BA(dir.toLatin1() + "/a.js"), "function go(r) { r.nativeRequest.writeResponseString(200, {}, 'hello'); return true; }"); h = new Pillow::HttpHandlerQtScriptFile(engine, dir + "/a.js", "go", true, &owner); break; }
	case STACKED: { Pillow::HttpHandlerStack* t = new Pillow::HttpHandlerStack(&owner); new Pillow::HttpHandlerFunction([](Conn* x) { if (x->requestPath() == "/small") x->writeResponse(200, Headers(), x->requestParamValue("a").toUtf8()); }, t); h = t; break; }
	}
	s.onReady = [&](Conn* x) {
		if (what == DEFER) { x->requestParams(); waiting.push_back(x); return; }
		if (h) { if (!h->handleRequest(x) || (what == STACKED && x->state() == Conn::SendingHeaders)) x->writeResponse(404); return; }
		if (what == CHUNKS) { x->writeHeaders(200); x->writeContent(x->requestPath() == "/big" ? big : small); x->endContent(); } else x->writeResponse(200, Headers(), x->requestPath() == "/big" ? big : small);
	};
	// The visits of one round: the same ones each time.
	std::vector<Visit> visits; int nv = r.range(1, 5); bool together = r.chance(50); c.note = BA(KINDS[kind]) + " " + HN[what] + (together ? ", at once:" : ":");
	for (int i = 0; i < nv; ++i)
	{
		Visit v; v.replies = 0; v.end = r.chance(40) ? int(READ_ALL) : r.below(NEND); v.raw = false; v.readLimit = -1; int nr = r.range(1, 3); BA b; int odd = r.chance(35) ? r.below(7) : -1;
		for (int k = 0; k < nr; ++k) { BA path = r.chance(25) ? BA("/big") : r.chance(60) ? BA("/small") : r.chance(50) ? BA("/a/b/c") : BA("/x/y/z"); if (r.chance(30)) path += "?a=b&c=%41&d"; bool post = r.chance(30); BA body = post ? r.bytes(r.size(r.chance(10) ? 200000 : 2000)) : BA(); b += BA(post ? "POST " : r.chance(85) ? "GET " : "HEAD ") + path + " HTTP/1." + (r.chance(85) ? "1" : "0") + "\r\nHost: x\r\n" + (post ? "Content-Length: " + num(body.size()) + "\r\n" : BA()) + (r.chance(20) ? "Connection: close\r\n" : "") + (post && r.chance(20) ? "Expect: 100-continue\r\n" : "") + (r.chance(10) ? "X-Long: " + BA(r.range(100, 20000), 'l') + "\r\n" : BA()) + "\r\n" + body; ++v.replies; }
		if (odd == 0) b.chop(r.range(1, b.size())); else if (odd == 1) b = "GARBAGE\x01\r\n\r\n" + b; else if (odd == 2) b = "GET / HTTP/1.1\r\nX: " + BA(40000, 'h') + "\r\n\r\n"; else if (odd == 3) b += "GET /un"; else if (odd == 4) b = BA(); else if (odd == 5 && kind == TLS) { v.raw = true; b = "\x16\x03\x01 not TLS " + b; } else if (odd == 6) b += "POST /small HTTP/1.1\r\nHost: x\r\nContent-Length: 50000\r\n\r\nfirst part";
		if (v.end == RESET_WHILE_READING) v.readLimit = r.size(30000); v.out = b; v.pieces = r.chance(50) ? std::vector<BA>(1, b) : split(r, b); if (v.pieces.size() > 12) v.pieces = std::vector<BA>(1, b); c.note += " " + show(b, 60) + " end " + num(v.end); visits.push_back(v);
	}
	c.sample(c.note); int turns = r.range(1, 6); bool answer = r.chance(60), touch = what == SCRIPTFILE && r.chance(50);
	auto round = [&]() -> bool {
		alarm(90 * c.slow); std::vector<std::unique_ptr<Cli> > ks; if (touch) { static int w; put(BA(dir.toLatin1() + "/a.js"), "function go(r) { r.nativeRequest.writeResponseString(200, {}, 'hello" + num(++w % 7) + "'); return true; }"); }
		auto poll = [&]() { if (up) up->poll(); for (auto& k : ks) if (k) k->poll(); };
		auto arrive = [&](const Visit& v) { ks.emplace_back(new Cli()); Cli& k = *ks.back(); if (!k.connect(s)) return false; if (v.raw) k.dropSsl(); if (v.readLimit >= 0) k.readLimit = v.readLimit; for (auto& p : v.pieces) { k.send(p); if (v.pieces.size() > 1) { spin(); poll(); } } return true; };
		auto leave = [&](const Visit& v, Cli& k) {
			for (int i = 0; i < turns; ++i) { spin(); poll(); if (what == DEFER && answer) { std::vector<QPointer<Conn> > w; w.swap(waiting); for (auto& x : w) if (x && x->state() == Conn::SendingHeaders) x->writeResponse(200, Headers(), small); } }
			switch (v.end) { case READ_ALL: case RESET_WHILE_READING: { int before = -1; for (int i = 0; i < 40 && !k.eof && (i < 3 || k.in.size() != before); ++i) { before = k.in.size(); spin(); poll(); spin(); poll(); } if (v.end == READ_ALL) k.shut(); else k.reset(); break; } case SHUT_EARLY: k.shut(); break; case RESET_EARLY: k.reset(); break; case HALF_CLOSE: if (k.kind == TLS) k.shut(); else { k.poll(); k.p.halfClose(); for (int i = 0; i < 10 && !k.eof; ++i) { spin(); poll(); } k.shut(); } break; }
		};
		if (together) { for (auto& v : visits) if (!arrive(v)) return false; for (size_t i = 0; i < visits.size(); ++i) leave(visits[i], *ks[i]); } else for (auto& v : visits) { if (!arrive(v)) return false; leave(v, *ks.back()); }
		ks.clear(); if (what == DEFER) { std::vector<QPointer<Conn> > w; w.swap(waiting); for (auto& x : w) if (x && x->state() == Conn::SendingHeaders) x->writeResponse(200, Headers(), small); }
		QElapsedTimer t; t.start(); while ((s.sockets() || (up && h->findChildren<QNetworkReply*>().size())) && t.elapsed() < 3000 * c.slow) { spin(); poll(); if (waiting.size()) { for (auto& x : waiting) if (x && x->state() == Conn::SendingHeaders) x->writeResponse(200); waiting.clear(); } }
		if (s.sockets()) { c.stall(BA("sockets-kept:") + KINDS[kind] + ":" + HN[what], c.note + ": " + num(s.sockets()) + " sockets left after all the clients left"); return false; } if (up && h->findChildren<QNetworkReply*>().size()) { c.stall("replies-kept", c.note + ": " + num(h->findChildren<QNetworkReply*>().size()) + " upstream replies left after all the clients left"); return false; } if (engine) engine->collectGarbage(); spin(); return true;
	};
	if (steady(c, BA(KINDS[kind]) + ":" + HN[what], round, 30 / nv + 3)) c.distinct(fnv(c.note)); s.onReady = 0; if (up) up->onRequest = 0; srv.reset(); spin();
	QDir(dir).removeRecursively();
}

// One client that lives on through all kinds of exchanges.
FAMILY(C36, clients, 400, 12000)
{
	Rng& r = c.rng; Net net(c); Upstream& u = *net.up[0]; QUrl dead; { Listener l; dead = QUrl(QString("http://%1:%2/").arg(QString::fromLatin1(l.host)).arg(l.port)); } Client cl; if (r.chance(20)) cl.setReadBufferSize(r.range(1, 20000)); if (r.chance(20)) cl.setKeepAliveTimeout(r.range(0, 3));
	enum { WHOLE, CUT, RESET, JUNK, DEAD, QUIET, QUIT, ABORTED, TWICE, K }; struct X { int kind; BA sent, body; int end; bool head; Headers hs; std::vector<BA> pieces; bool consume; int pauses; }; std::vector<X> xs; int n = r.range(1, 5); c.note = "";
	for (int i = 0; i < n; ++i)
	{
		X x; x.kind = r.chance(30) ? int(WHOLE) : r.below(K); x.head = r.chance(10) && x.kind == WHOLE; RespOpts o; o.gzip = r.chance(35) && !x.head; o.maxBody = r.chance(15) ? 100000 : 3000; Script s = clientScript(r, x.head, i, o); if (o.gzip && s.framing != Script::NONE) s.content = gzipped(r, s.content); finishScript(r, s, o); bool until = s.framing == Script::CLOSE && !s.noBody(); x.end = until || !keepsAlive(s) ? Upstream::FIN : Upstream::KEEP; x.sent = s.wire; x.consume = r.chance(30); x.pauses = r.range(1, 5);
		if (x.kind == CUT || x.kind == RESET) { x.sent = s.wire.left(r.range(1, qMax(1, s.wire.size() - 1))); x.end = x.kind == CUT ? Upstream::FIN : Upstream::RST; } else if (x.kind == JUNK) { x.sent = genGarbage(r, s); x.end = Upstream::KEEP; } else if (x.kind == QUIT) { x.sent.clear(); x.end = Upstream::FIN; } else if (x.kind == QUIET || x.kind == TWICE) x.sent = s.wire.left(r.below(s.wire.size())), x.end = Upstream::KEEP;
		if (x.kind == QUIET || x.kind == ABORTED) x.kind = x.kind == QUIET ? int(ABORTED) : int(ABORTED); if (r.chance(30)) x.body = contentOf(r, i, r.size(9000)); Pairs ps; genHeaders(r, ps, i); x.hs = collection(ps); x.pieces = x.sent.isEmpty() ? std::vector<BA>() : split(r, x.sent); if (x.pieces.size() > 10) x.pieces = std::vector<BA>(1, x.sent); c.note += " " + num(x.kind) + ":" + num(x.sent.size()) + "/" + num(s.wire.size()); xs.push_back(x);
	}
	c.sample(c.note); X* cur = 0; int finished = 0, arrived = 0; u.onRequest = [&](Upstream::C& k, const RawReq&) { ++arrived; u.reqs.clear(); u.reply(k, cur->pieces, cur->end); };
	QObject::connect(&cl, &Client::finished, &cl, [&]() { ++finished; }); QObject::connect(&cl, &Client::contentReadyRead, &cl, [&]() { if (cur && cur->consume) cl.consumeContent(); });
	auto round = [&]() -> bool {
		alarm(90 * c.slow);
		for (auto& x : xs)
		{
			cur = &x; int f = finished, a = arrived; QUrl url = x.kind == DEAD ? dead : urlOf(u.url(), "/r?x=%41"); if (x.head) cl.head(url, x.hs); else if (x.body.size()) cl.post(url, x.hs, x.body); else cl.get(url, x.hs);
			if (x.kind == ABORTED || x.kind == TWICE) { for (int i = 0; i < x.pauses && finished == f; ++i) { spin(); net.poll(); } if (cl.responsePending()) cl.abort(); (void)a; if (x.kind == TWICE && finished != f) { f = finished; cl.get(url, x.hs); spin(); net.poll(); if (cl.responsePending()) cl.abort(); } }
			QElapsedTimer t; t.start(); while (cl.responsePending() && t.elapsed() < 3000 * c.slow) { spin(); net.poll(); if (cl.readBufferSize() && cl.content().size() > 1000) cl.consumeContent(); } if (cl.responsePending()) return false; if (x.consume) cl.consumeContent();
			if (x.end != Upstream::KEEP || x.kind == JUNK) for (int i = 0; i < 4; ++i) { spin(); net.poll(); }
		}
		cur = &xs[0]; for (int i = 0; i < 5; ++i) { spin(); net.poll(); } return true;
	};
	if (steady(c, "client", round, 4)) c.distinct(fnv(c.note)); cl.disconnect();
}

// One access manager that lives on through replies that end in all ways.
FAMILY(C36, managers, 400, 12000)
{
	Rng& r = c.rng; int hosts = r.range(1, 3); Net net(c, hosts, true); QUrl dead; { Listener l; dead = QUrl(QString("http://%1:%2/").arg(QString::fromLatin1(l.host)).arg(l.port)); } Pillow::NetworkAccessManager nam; 
	struct X { int up; BA sent, body; int end; int op; int action, when; bool refused; std::vector<BA> pieces; }; std::vector<X> xs; int n = r.range(1, 6); c.note = ""; enum { NOTHING, ABORT, DEL, LATER };
	for (int i = 0; i < n; ++i)
	{
		X x; x.up = r.below(hosts); x.op = r.below(3); RespOpts o; o.gzip = r.chance(25) && x.op != 1; o.maxBody = r.chance(15) ? 100000 : 3000; Script s = clientScript(r, x.op == 1, i, o); if (o.gzip && s.framing != Script::NONE) s.content = gzipped(r, s.content); finishScript(r, s, o); x.end = (s.framing == Script::CLOSE && !s.noBody()) || !keepsAlive(s) ? Upstream::FIN : Upstream::KEEP; x.sent = s.wire; x.refused = r.chance(8);
		int k = r.below(10); if (k < 2) { x.sent = s.wire.left(r.range(1, qMax(1, s.wire.size() - 1))); x.end = k ? Upstream::FIN : Upstream::RST; } else if (k == 2) { x.sent = genGarbage(r, s); x.end = Upstream::KEEP; } else if (k == 3) { x.sent.clear(); x.end = Upstream::FIN; } bool open = r.chance(15); if (open) { x.sent = s.wire.left(r.chance(50) ? r.range(qMin(s.wire.size() - 1, s.wire.indexOf("\r\n\r\n") + 4), s.wire.size() - 1) : r.below(s.wire.size())); x.end = Upstream::KEEP; }
		x.action = open || r.chance(40) ? r.range(ABORT, LATER) : int(NOTHING); x.when = r.below(6); x.body = contentOf(r, i, r.size(5000)); x.pieces = x.sent.isEmpty() ? std::vector<BA>() : split(r, x.sent); if (x.pieces.size() > 10) x.pieces = std::vector<BA>(1, x.sent); c.note += " " + num(x.op) + ":" + num(x.sent.size()) + "/" + num(s.wire.size()) + (x.action ? " action " + num(x.action) + " at " + num(x.when) : BA()); xs.push_back(x);
	}
	c.sample(c.note); for (auto& u : net.up) { Upstream* up = u.get(); u->onRequest = [&, up](Upstream::C& k, const RawReq& q) { up->reqs.clear(); const X& x = xs[qBound(0, q.target.mid(2).toInt(), n - 1)]; up->reply(k, x.pieces, x.end); }; } bool together = r.chance(50);
	auto round = [&]() -> bool {
		alarm(90 * c.slow); std::vector<QPointer<QNetworkReply> > ps; std::vector<bool> acted(n, false); int turn = 0;
		auto start = [&](int i) { const X& x = xs[i]; QNetworkRequest q(x.refused ? dead : urlOf(net.up[x.up]->url(), "/r" + num(i))); q.setHeader(QNetworkRequest::ContentTypeHeader, "text/plain"); ps.push_back(x.op == 0 ? nam.get(q) : x.op == 1 ? nam.head(q) : nam.post(q, x.body)); };
		auto settle = [&]() -> bool { QElapsedTimer t; t.start(); for (;;) { bool open = false; for (size_t i = 0; i < ps.size(); ++i) { const X& x = xs[i]; if (x.action != NOTHING && !acted[i] && ps[i] && turn >= x.when) { acted[i] = true; if (x.action == ABORT) ps[i]->abort(); else if (x.action == DEL) delete ps[i].data(); else ps[i]->deleteLater(); } if (ps[i] && !ps[i]->isFinished()) open = true; } if (!open) return true; if (t.elapsed() > 3000 * c.slow) return false; spin(); net.poll(); ++turn; } };
		for (int i = 0; i < n; ++i) { start(i); if (!together && !settle()) { for (auto& p : ps) delete p.data(); return false; } } bool ok = settle(); for (auto& p : ps) if (p) { p->readAll(); delete p.data(); } for (int i = 0; i < 6; ++i) { spin(); net.poll(); } return ok;
	};
	if (steady(c, "manager", round, 6)) c.distinct(fnv(c.note)); for (auto& u : net.up) u->onRequest = 0;
}
