// Independent instances in several threads: C34. Runs on the ThreadSanitizer build and on the AddressSanitizer build.
#include "client.h"
#include "session.h"
#include "HttpHandler.h"
#include "HttpHandlerSimpleRouter.h"
#include "HttpHandlerProxy.h"
#include "HttpHandlerQtScript.h"
#include "HttpsServer.h"
#include "ByteArrayHelpers.h"
#include "tlscert.h"
#include <QtScript/QScriptEngine>
#include <atomic>
typedef std::map<BA, BA> Map;

// One thread with everything of its own. Counts are kept locally: a shared lock would order the threads and hide races.
struct Worker
{
	Ctx c; int id; std::map<const char*, qint64> n; std::vector<uint64_t> seen; int rounds; QString dir; int serial;
	Worker(const Ctx& base, int id_, int rounds_) : c(base), id(id_), rounds(rounds_), serial(0) { c.rng = Rng(fnv(&id_, sizeof id_, base.rng.s)); c.violations = 0; }
	BA mark() { return "w" + num(id) + "." + num(++serial); }
	bool wait(const std::function<bool()>& f, int ms = 20000) { return waitFor(c, f, std::function<void()>(), ms); }

	// ---- server side
	std::unique_ptr<Pillow::HttpServer> server, origin; std::unique_ptr<Pillow::HttpsServer> secure; std::unique_ptr<Pillow::HttpLocalServer> local; std::unique_ptr<Pillow::HttpHandlerStack> stack; std::unique_ptr<Pillow::HttpHandlerProxy> proxy; QBuffer logBuffer; int handled; Map files; BA fixed;
	static BA echo(Conn* q, int id) { BA b = "worker " + num(id) + "\n" + q->requestMethod() + " " + q->requestPath() + " a=" + q->requestParamValue("a").toUtf8() + " b=" + q->requestParamValue("b").toUtf8() + " x=" + q->requestParamValue("x").toUtf8() + " none=" + q->requestParamValue("none").toUtf8() + "\n" + q->requestHeaderValue("X-Mark") + "|" + q->requestHeaderValue("X-Missing") + "\n" + q->requestContent(); return b; }
	void setup()
	{
		QDir().mkpath(dir); for (int i = 0; i < 4; ++i) { static const char* ext[] = {".css", ".html", ".png", ".unknownext"}; BA name = "f" + num(i) + ext[i]; files[name] = bodyFor(id * 100 + i, c.rng.size(40000)); QFile f(dir + "/" + name); f.open(QIODevice::WriteOnly); f.write(files[name]); }
		stack.reset(new Pillow::HttpHandlerStack()); logBuffer.open(QIODevice::ReadWrite); (new Pillow::HttpHandlerLog(c.rng.chance(50) ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests, &logBuffer, stack.get()));
		Pillow::HttpHandlerSimpleRouter* r = new Pillow::HttpHandlerSimpleRouter(stack.get()); r->setUnmatchedRequestAction(Pillow::HttpHandlerSimpleRouter::Passthrough); r->setAcceptsMethodParam(true); fixed = bodyFor(id, c.rng.size(3000)); int me = id;
		r->addRoute("/fixed", 201, hdrs({{"X-Fixed", num(id)}}), fixed);
		r->addRoute("/echo/:a/:b", [me](Conn* q) { q->writeResponse(200, hdrs({{"X-Echo", num(me)}}), echo(q, me)); });
		r->addRoute("PUT", "/put/*a", [me](Conn* q) { q->writeResponseString(200, hdrs({{"Content-Type", "text/x"}}), QString::fromLatin1(echo(q, me))); });
		r->addRoute("/chunk/:a", [me](Conn* q) { int n = q->requestParamValue("a").toInt(); q->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}})); for (int i = 0; i < n; ++i) q->writeContent(bodyFor(me + i, 10 + i * 37)); q->endContent(); });
		r->addRoute("/gz/:a", [me](Conn* q) { Rng g(me); q->writeResponse(200, hdrs({{"Content-Encoding", "gzip"}}), gzipped(g, bodyFor(me, q->requestParamValue("a").toInt()))); });
		r->addRoute("/cookie", [me](Conn* q) { q->writeResponse(200, hdrs({{"Set-Cookie", "worker=" + num(me)}}), "cookie=" + q->requestHeaderValue("Cookie")); });
		r->addRoute("/redirect", [](Conn* q) { q->writeResponse(302, hdrs({{"Location", "/fixed"}})); });
		new Pillow::HttpHandlerFile(dir, stack.get()); new Pillow::HttpHandlerFunction([me](Conn* q) { q->writeResponse(404, Headers(), "nothing in worker " + num(me)); }, stack.get());
		server.reset(new Pillow::HttpServer(QHostAddress("127.0.0.1"), 0)); QObject::connect(server.get(), SIGNAL(requestReady(Pillow::HttpConnection*)), stack.get(), SLOT(handleRequest(Pillow::HttpConnection*)));
		proxy.reset(new Pillow::HttpHandlerProxy(QUrl(QString("http://127.0.0.1:%1").arg(server->serverPort())))); origin.reset(new Pillow::HttpServer(QHostAddress("127.0.0.1"), 0)); QObject::connect(origin.get(), SIGNAL(requestReady(Pillow::HttpConnection*)), proxy.get(), SLOT(handleRequest(Pillow::HttpConnection*)));
		local.reset(new Pillow::HttpLocalServer(dir + "/s")); QObject::connect(local.get(), SIGNAL(requestReady(Pillow::HttpConnection*)), stack.get(), SLOT(handleRequest(Pillow::HttpConnection*)));
	}
	// What the server answers.
	struct Want { BA method, target, body; int status; BA content, header, value; bool skipBody; Want() : status(200), skipBody(false) {} };
	Want pick(bool all = true)
	{
		Want w; Rng& g = c.rng; w.method = "GET";
		switch (g.below(all ? 8 : 6))
		{
		case 0: w.target = "/fixed"; w.status = 201; w.content = fixed; w.header = "X-Fixed"; w.value = num(id); break;
		case 1: { BA m = mark(), a = genTokenish(g), b = genTokenish(g), x = genTokenish(g); w.method = g.chance(50) ? "POST" : "GET"; if (w.method == "POST") w.body = bodyFor(serial, g.size(5000)); w.target = "/echo/" + a + "/" + b + "?x=" + x; w.content = "worker " + num(id) + "\n" + w.method + " /echo/" + a + "/" + b + " a=" + a + " b=" + b + " x=" + x + " none=\n" + m + "|\n" + w.body; w.header = "X-Echo"; w.value = num(id); break; }
		case 2: { int k = g.range(1, 12); w.target = "/chunk/" + num(k); for (int i = 0; i < k; ++i) w.content += bodyFor(id + i, 10 + i * 37); break; }
		case 3: { auto it = files.begin(); std::advance(it, g.below(4)); w.target = "/" + it->first; w.content = it->second; w.header = "Content-Type"; w.value = it->first.endsWith("css") ? "text/css" : it->first.endsWith("html") ? "text/html" : it->first.endsWith("png") ? "image/png" : "application/octet-stream"; break; }
		case 4: w.target = "/missing/" + genTokenish(g); w.status = 404; w.content = "nothing in worker " + num(id); break;
		case 5: { BA m = mark(); w.method = "POST"; w.body = bodyFor(serial, g.size(900)).toHex(); w.target = "/put/some/thing?_method=put"; w.content = "worker " + num(id) + "\nPOST /put/some/thing a=some/thing b= x= none=\n" + m + "|\n" + w.body; w.header = "Content-Type"; w.value = "text/x"; break; }
		case 6: { int k = g.range(300, 20000); w.target = "/gz/" + num(k); w.content = bodyFor(id, k); break; }
		default: w.target = "/redirect"; w.status = 302; break;
		}
		return w;
	}
	BA currentMark() { return "w" + num(id) + "." + num(serial); }
	static BA genTokenish(Rng& g) { return g.str("abcXYZ019-_", g.range(1, 12)); }
	void judge(const char* who, const Want& w, int status, const BA& content, const BA& value)
	{
		n[who]++; seen.push_back(fnv(w.target)); if (status != w.status) c.fail(BA(who) + ":status", w.method + " " + w.target + ": " + num(w.status) + " became " + num(status)); else if (content != w.content) c.fail(BA(who) + ":content", w.method + " " + w.target + ": " + diffText(w.content, content)); else if (!w.header.isEmpty() && value != w.value) c.fail(BA(who) + ":header", w.header + " is " + show(value) + " instead of " + show(w.value));
	}
	// ---- jobs
	void jobSim()
	{
		SimDevice d; Conn q; std::vector<Req> rs; BA in; int k = c.rng.range(1, 4); std::vector<BA> methods; GenOpts o; o.maxBody = 2000; for (int i = 0; i < k; ++i) { rs.push_back(genRequest(c.rng, o)); rs.back().version = "HTTP/1.1"; in += rs.back().wire(); methods.push_back(rs.back().method); } int at = 0; std::vector<Seen> seenReq; BA fails;
		QObject::connect(&q, &Conn::requestReady, [&](Conn* x) { seenReq.push_back(seeRequest(x)); x->requestParams(); x->requestPathDecoded(); x->requestQueryStringDecoded(); int i = at++; if (i % 2) x->writeResponse(200 + i, hdrs({{"X-I", num(i)}}), bodyFor(id * 10 + i, 50)); else { x->writeHeaders(200 + i, hdrs({{"X-I", num(i)}, {"Content-Length", "50"}})); x->writeContent(bodyFor(id * 10 + i, 20)); x->writeContent(bodyFor(id * 10 + i, 50).mid(20)); } });
		q.initialize(&d, &d); std::vector<BA> v = split(c.rng, in); if (v.size() > 60) v = std::vector<BA>(1, in); for (auto& p : v) { if (d.isOpen()) d.feed(p); } spin();
		if (at != k) { c.fail("sim:count", num(at) + " of " + num(k) + " requests seen"); return; } for (int i = 0; i < k; ++i) { BA e = diffSeen(rs[i], seenReq[i]); if (!e.isEmpty()) c.fail("sim:request", e); }
		std::vector<Resp> out; BA e = parseStream(d.tx, methods, false, out); if (!e.isEmpty()) { c.fail("sim:response", e); return; } if (int(out.size()) != k) { c.fail("sim:responses", num(int(out.size()))); return; } for (int i = 0; i < k; ++i) if (methods[i] != "HEAD" && i != 4 && out[i].content != bodyFor(id * 10 + i, 50).left(out[i].content.size())) c.fail("sim:content", diffText(bodyFor(id * 10 + i, 50), out[i].content)); n["sim"] += k; d.close();
	}
	void jobClient(quint16 port, const char* who)
	{
		Client cl; if (c.rng.chance(20)) cl.setKeepAliveTimeout(0); int k = c.rng.range(1, 5); bool viaProxy = BA(who) == "proxy";
		for (int i = 0; i < k && c.ok(); ++i)
		{
			Want w = pick(!viaProxy); bool fin = false; QObject::connect(&cl, &Client::finished, &cl, [&]() { fin = true; }); Headers h = hdrs({{"X-Mark", currentMark()}, {"X-Other", bodyFor(i, 10).toHex()}}); QUrl u = QUrl::fromEncoded("http://127.0.0.1:" + num(port) + w.target); if (w.method == "GET") cl.get(u, h); else cl.post(u, h, w.body);
			if (!wait([&]() { return fin; })) { c.stall(BA(who) + ":not-finished", w.target); return; } QObject::disconnect(&cl, &Client::finished, &cl, 0); if (cl.error() != Client::NoError) { c.fail(BA(who) + ":error", w.target + ": " + errName(cl.error())); return; }
			judge(who, w, cl.statusCode(), cl.content(), w.header.isEmpty() ? BA() : BA(cl.headers().getFieldValue(w.header))); if (!viaProxy && cl.redirected()) { fin = false; QObject::connect(&cl, &Client::finished, &cl, [&]() { fin = true; }); cl.followRedirection(); if (!wait([&]() { return fin; })) { c.stall("redirect:not-finished", ""); return; } QObject::disconnect(&cl, &Client::finished, &cl, 0); if (cl.statusCode() != 201 || cl.content() != fixed) c.fail("redirect", "followed redirection gave " + num(cl.statusCode())); n["redirects"]++; }
		}
	}
	void jobNam()
	{
		Pillow::NetworkAccessManager nam; int k = c.rng.range(1, 5); std::vector<Want> ws; std::vector<QNetworkReply*> ps; for (int i = 0; i < k; ++i) { ws.push_back(pick()); QNetworkRequest q(QUrl::fromEncoded("http://127.0.0.1:" + num(server->serverPort()) + ws[i].target)); q.setRawHeader("X-Mark", currentMark()); ps.push_back(ws[i].method == "GET" ? nam.get(q) : nam.post(q, ws[i].body)); }
		if (!wait([&]() { for (auto p : ps) if (!p->isFinished()) return false; return true; })) { c.stall("nam:not-finished", ""); return; } for (int i = 0; i < k; ++i) { if (ps[i]->error()) c.fail("nam:error", num(ps[i]->error())); judge("nam", ws[i], ps[i]->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt(), ps[i]->readAll(), ps[i]->rawHeader(ws[i].header)); }
		for (int i = 0; i < 2 && c.ok(); ++i) { QNetworkReply* p = nam.get(QNetworkRequest(QUrl(QString("http://127.0.0.1:%1/cookie").arg(server->serverPort())))); if (!wait([&]() { return p->isFinished(); })) { c.stall("nam:not-finished", "cookie"); return; } BA got = p->readAll(), want = i ? "cookie=worker=" + num(id) : BA("cookie="); if (got != want) c.fail("nam:cookie", show(want) + " became " + show(got)); n["cookies"]++; delete p; }
		for (auto p : ps) delete p;
	}
	void jobLocal()
	{
		QLocalSocket s; s.connectToServer(dir + "/s"); if (!wait([&]() { return s.state() == QLocalSocket::ConnectedState; })) { c.stall("local:connect", ""); return; } Want w = pick(false); BA q = w.method + " " + w.target + " HTTP/1.1\r\nX-Mark: " + currentMark() + "\r\n" + (w.body.isEmpty() ? BA() : "Content-Length: " + num(w.body.size()) + "\r\n") + "\r\n" + w.body; s.write(q); BA in; Resp r; BA e;
		if (!wait([&]() { in += s.readAll(); r = Resp(); e = parseResponse(in, 0, false, false, r); return !e.isEmpty() || r.complete; })) { c.stall("local:not-finished", w.target); return; } if (!e.isEmpty()) { c.fail("local:response", e); return; } judge("local", w, r.status, r.content, r.value(w.header)); s.close();
	}
	void jobSecure()
	{
		secure.reset(new Pillow::HttpsServer(QSslCertificate(BA(TLS_CERT)), QSslKey(BA(TLS_KEY), QSsl::Rsa), QHostAddress("127.0.0.1"), 0)); QObject::connect(secure.get(), SIGNAL(requestReady(Pillow::HttpConnection*)), stack.get(), SLOT(handleRequest(Pillow::HttpConnection*)));
		QSslSocket s; s.setPeerVerifyMode(QSslSocket::VerifyNone); s.connectToHostEncrypted("127.0.0.1", secure->serverPort()); if (!wait([&]() { return s.isEncrypted(); })) { c.stall("secure:connect", s.errorString().toLatin1()); return; } Want w = pick(false); s.write(w.method + " " + w.target + " HTTP/1.1\r\nX-Mark: " + currentMark() + "\r\n" + (w.body.isEmpty() ? BA() : "Content-Length: " + num(w.body.size()) + "\r\n") + "\r\n" + w.body); BA in; Resp r; BA e;
		if (!wait([&]() { in += s.readAll(); r = Resp(); e = parseResponse(in, 0, false, false, r); return !e.isEmpty() || r.complete; })) { c.stall("secure:not-finished", w.target); return; } if (!e.isEmpty()) { c.fail("secure:response", e); return; } judge("secure", w, r.status, r.content, r.value(w.header)); s.abort(); spin(); secure.reset();
	}
	void jobHelpers()
	{
		for (int i = 0; i < 40 && c.ok(); ++i)
		{
			Rng& g = c.rng; QDateTime t = QDateTime::fromMSecsSinceEpoch(qint64(g.next() % 4000000000000ull), Qt::UTC); BA want = QLocale::c().toString(t, "ddd, dd MMM yyyy hh:mm:ss").toLatin1() + " GMT", got = Pillow::HttpProtocol::Dates::getHttpDate(t); if (got != want) c.fail("helpers:date", want + " became " + got);
			qint64 v = qint64(g.next() >> g.below(64)); if (g.chance(50)) v = -v; BA b("x"); Pillow::ByteArrayHelpers::appendNumber<qint64, 10>(b, v); if (b != "x" + BA::number(v)) c.fail("helpers:number", num(v) + " became " + b); BA hx; quint64 uv = g.next() >> g.below(64); Pillow::ByteArrayHelpers::appendNumber<quint64, 16>(hx, uv); if (hx != BA::number(uv, 16)) c.fail("helpers:hex", BA::number(uv, 16) + " became " + hx);
			static const char* mt[][2] = {{"a.html", "text/html"}, {"b.CSS", "text/css"}, {"c.png", "image/png"}, {"d.js", "text/javascript"}}; int k = g.below(4); if (BA(Pillow::HttpMimeHelper::getMimeTypeForFilename(mt[k][0])) != mt[k][1]) c.fail("helpers:mime", BA(mt[k][0]) + " is " + Pillow::HttpMimeHelper::getMimeTypeForFilename(mt[k][0]));
			static const int st[] = {100, 200, 201, 304, 404, 500, 503}; int code = st[g.below(7)]; BA m = Pillow::HttpProtocol::StatusCodes::getStatusCodeAndMessage(code); if (m != num(code) + " " + Pillow::HttpProtocol::StatusCodes::getStatusMessage(code)) c.fail("helpers:status", m);
			BA raw = g.str("ab%4120 \xc3\xa9", g.range(0, 30)); QString dec = Pillow::ByteArrayHelpers::percentDecode(raw); if (!raw.contains('%') && dec != QString::fromUtf8(raw)) c.fail("helpers:percent", show(raw)); Headers h = hdrs({{"A", num(i)}, {"b", "x"}, {"a", "second"}}); if (h.getFieldValue("A") != num(i) || h.getFieldValues("a").size() != 2 || !h.getFieldValue("none").isNull() || !h.testFieldValue("B", "X")) c.fail("helpers:headers", "header lookups");
		}
		n["helpers"] += 40; QBuffer buf; buf.open(QIODevice::ReadWrite); Pillow::HttpRequestWriter w; w.setDevice(&buf); BA body = bodyFor(id, 300); w.post("/x" + num(id), hdrs({{"X-W", num(id)}}), body); RawReq q; int used; if (parseRawRequest(buf.data(), q, used) != 1 || q.target != "/x" + num(id) || q.content != body || q.value("X-W") != num(id)) c.fail("helpers:writer", show(buf.data()));
	}
	void jobParser()
	{
		struct P : Pillow::HttpResponseParser { }; P p; Script s = clientScript(c.rng, false, id); finishScript(c.rng, s); if (s.framing == Script::CLOSE && !s.noBody()) { p.inject(s.wire); p.injectEof(); } else { std::vector<BA> v = split(c.rng, s.wire); if (v.size() > 100) v = std::vector<BA>(1, s.wire); for (auto& x : v) p.inject(x); } if (p.hasError()) c.fail("parser:error", p.errorString()); else if (p.statusCode() != s.status || p.content() != (s.noBody() ? BA() : s.content)) c.fail("parser:content", num(p.statusCode()) + " " + num(p.content().size())); Pairs got = pairsOf(p.headers()); if (!s.trailers.isEmpty() && got.size() > s.headers.size()) got.resize(s.headers.size()); BA e = diffPairs(s.headers, got); if (!e.isEmpty()) c.fail("parser:headers", e); n["parser"]++;
	}
	void jobScript()
	{
		QScriptEngine e; Pillow::HttpHandlerQtScript h(e.evaluate("(function(q) { q.nativeRequest.writeResponseString(203, {'X-S': 'w" + QString::number(id) + "'}, 'script ' + q.requestPath + ' w" + QString::number(id) + "'); return true; })")); SimDevice d; Conn q; QObject::connect(&q, &Conn::requestReady, [&](Conn* x) { if (!h.handleRequest(x)) c.fail("script:declined", ""); }); q.initialize(&d, &d); d.feed("GET /p" + num(id) + " HTTP/1.1\r\n\r\n"); Resp r; BA er = parseResponse(d.tx, 0, false, false, r); if (!er.isEmpty() || r.status != 203 || r.content != "script /p" + num(id) + " w" + num(id) || r.value("X-S") != "w" + num(id)) c.fail("script:response", er + show(d.tx)); n["script"]++; d.close();
	}
	// Unchanged files keep their entity tag and their content, however often and by however many threads they are asked for.
	void jobFile()
	{
		Pillow::HttpHandlerFile h(dir); int bs = c.rng.chance(50) ? 40000 : c.rng.range(512, 40000); h.setBufferSize(bs); std::map<BA, BA> tags; std::vector<BA> names; for (auto& f : files) names.push_back(f.first);
		SimDevice d(false); Conn q; bool taken = true; QObject::connect(&q, &Conn::requestReady, [&](Conn* x) { taken = h.handleRequest(x); }); q.initialize(&d, &d); int times = c.rng.range(10, 60);
		for (int i = 0; i < times && c.ok(); ++i)
		{
			BA name = c.rng.pick(names), tag = tags[name], content = files[name]; bool cond = !tag.isEmpty() && c.rng.chance(30); d.tx.clear(); if (d.isOpen()) d.feed("GET /" + name + " HTTP/1.1\r\nHost: x\r\n" + (cond ? "If-None-Match: " + tag + "\r\n" : BA()) + "\r\n"); Resp r; BA e;
			if (!wait([&]() { d.drain(d.backlog); r = Resp(); e = parseResponse(d.tx, 0, false, false, r); return !e.isEmpty() || r.complete; })) { c.stall("file:not-finished", name); return; } if (!taken) { c.fail("file:declined", name); return; } if (!e.isEmpty()) { c.fail("file:response", e); return; }
			BA t = r.value("ETag"); if (cond && r.status != 304) c.fail("file:not-304", num(r.status) + " for " + name + " with the entity tag " + tag); else if (!cond && (r.status != 200 || r.content != content)) c.fail("file:content", num(r.status) + " " + diffText(content, r.content)); if (!cond && content.size() <= bs) { if (t.isEmpty()) c.fail("file:no-tag", name); else if (!tag.isEmpty() && t != tag) c.fail("file:tag-changed", name + ": " + tag + " became " + t); tags[name] = t; } n["file"]++;
		}
		d.close();
	}
	int focus;
	void run(std::atomic<int>& ready, int threads)
	{
		setup(); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < threads) ::sched_yield();
		for (int i = 0; i < rounds && c.ok(); ++i)
			switch (focus >= 0 && c.rng.chance(70) ? focus : c.rng.below(18)) { case 0: case 1: case 2: jobSim(); break; case 3: case 4: case 5: jobClient(server->serverPort(), "client"); break; case 6: case 7: jobNam(); break; case 8: jobClient(origin->serverPort(), "proxy"); break; case 9: jobLocal(); break; case 10: case 11: jobHelpers(); break; case 12: case 13: jobParser(); break; case 14: jobScript(); break; case 15: case 16: jobFile(); break; default: if (c.rng.chance(25)) jobSecure(); else jobSim(); }
		int lines = logBuffer.data().count('\n'); n["log_lines"] += lines; BA other = "/w"; (void)other; proxy.reset(); server.reset(); origin.reset(); local.reset(); secure.reset(); stack.reset(); spinN(3); QDir(dir).removeRecursively();
	}
};
struct Thread : QThread { std::function<void()> f; void run() { f(); } };

FAMILY(C34, independent, 240, 3000)
{
	int k = c.rng.range(2, 6), rounds = c.rng.range(4, 14); c.note = num(k) + " threads, " + num(rounds) + " jobs each"; c.sample(c.note); std::vector<std::unique_ptr<Worker> > ws; std::vector<std::unique_ptr<Thread> > ts; std::atomic<int> ready(0);
	static const int kinds[] = {0, 3, 6, 8, 9, 10, 12, 15}; int focus = c.rng.chance(50) ? kinds[c.rng.below(8)] : -1; // Half of the time most of what all threads do is of one kind.
	for (int i = 0; i < k; ++i) { ws.emplace_back(new Worker(c, i + 1, rounds)); ws.back()->focus = focus; ws.back()->dir = scratchDir() + "/t" + QString::number(c.index) + "." + QString::number(i); }
	for (int i = 0; i < k; ++i) { Worker* w = ws[i].get(); ts.emplace_back(new Thread()); ts.back()->f = [w, &ready, k]() { w->run(ready, k); }; }
	for (auto& t : ts) t->start(); for (auto& t : ts) t->wait();
	for (auto& w : ws) { c.violations += w->c.violations; for (auto& x : w->n) c.count(x.first, x.second); for (uint64_t h : w->seen) c.distinct(h); } c.count("threads", k);
}
