// Request log checks: C19.
#include "sock.h"
#include <QtCore/QBuffer>

// One line the log has to contain, at its place.
struct Want { int kind; BA addr, text; int status; qint64 length; bool known; qint64 minMs, maxMs; }; // kind: 0 completed, 1 begin, 2 end, 3 close
static const char* const PREFIX[] = {"", "[BEGIN] ", "[ END ] ", "[CLOSE] "};

// Empty if the line is the wanted one.
static BA lineDiff(const BA& line, const Want& w)
{
	BA head = BA(PREFIX[w.kind]) + w.addr + " - - [";
	if (!line.startsWith(head)) return "should start with '" + show(head) + "'";
	int e = line.indexOf(']', head.size()); if (e < 0) return "no date";
	QString date = QString::fromLatin1(line.mid(head.size(), e - head.size()));
	if (!QRegExp("\\d\\d/[^/ ]+/\\d{4} \\d\\d:\\d\\d:\\d\\d").exactMatch(date)) return "date '" + date.toLatin1() + "'";
	BA mid = "] \"" + w.text + "\" ";
	if (line.mid(e, mid.size()) != mid) return "request text: " + diffText(mid, line.mid(e, mid.size()));
	QList<BA> rest = line.mid(e + mid.size()).split(' ');
	if (rest.size() != 3) return "expected three fields after the request, got '" + show(line.mid(e + mid.size())) + "'";
	if (w.kind == 1) return rest[0] == "-" && rest[1] == "-" && rest[2] == "-" ? BA() : "begin line with a result: " + show(line.mid(e + mid.size()));
	if (w.kind == 3) return BA(); // the result fields of a close line are not specified
	if (rest[0] != num(w.status)) return "status " + show(rest[0]) + ", expected " + num(w.status);
	if (w.known && rest[1] != num(w.length)) return "content length " + show(rest[1]) + ", expected " + num(w.length);
	bool ok; double t = rest[2].toDouble(&ok); if (!ok || !(t >= 0)) return "time '" + show(rest[2]) + "'";
	if (t * 1000 > w.maxMs + 2 || t * 1000 < w.minMs - 2) return "time " + rest[2] + " s, but the request took " + num(w.minMs) + " to " + num(w.maxMs) + " ms";
	return BA();
}
static void judge(Ctx& c, const BA& log, const std::vector<Want>& want)
{
	QList<BA> lines = log.split('\n'); if (!log.isEmpty() && !log.endsWith('\n')) { c.fail("unterminated-line", show(lines.last())); return; }
	lines.removeLast();
	for (int i = 0; i < lines.size() || i < int(want.size()); ++i)
	{
		if (i >= lines.size()) { c.fail(BA("line-missing:") + (want[i].kind == 3 ? "close" : want[i].kind == 1 ? "begin" : "request"), num(lines.size()) + " lines, expected " + num(int(want.size())) + "; missing: " + PREFIX[want[i].kind] + show(want[i].text, 150)); return; }
		if (i >= int(want.size())) { c.fail("line-extra", "unexpected line: " + show(lines[i])); return; }
		BA d = lineDiff(lines[i], want[i]); if (!d.isEmpty()) { c.fail("line-differs", "line " + num(i) + ": " + d + " in: " + show(lines[i])); return; }
	}
	c.count("lines", lines.size());
}

static BA genUri(Rng& r)
{
	static const char* odd[] = {"%1", "%2", "%3%4", "%11", "%10%20", "%99", "%25s", "%5d", "%6e%2e", "%L1", "%", "%%", "%zz", "%80", "%ff", "%0A", "%22", "\"", "]", "[", "'", "\\", "{0}", "$1", "\xff\xfe", "\xc3\xa9", "\xe2\x82", "-", "|", ";"};
	BA u = "/"; int n = r.below(8); while (n--) { if (r.chance(60)) u += odd[r.below(30)]; else u += genPathChars(r, r.size(60)); }
	if (r.chance(30)) { u += "?"; n = r.below(4); while (n--) u += r.chance(50) ? BA(odd[r.below(19)]) : "a=" + num(r.below(100)) + "&"; }
	return u;
}

// Many simulated connections with a shared log handler; connection objects get recycled and destroyed.
FAMILY(C19, lines, 16000, 120000)
{
	QBuffer dev[2]; dev[0].open(QIODevice::ReadWrite); dev[1].open(QIODevice::ReadWrite); int cur = 0; std::vector<Want> want[2];
	bool trace = c.rng.chance(50); std::unique_ptr<Pillow::HttpHandlerLog> log(c.rng.chance(30) ? new Pillow::HttpHandlerLog(trace ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests, &dev[0]) : new Pillow::HttpHandlerLog(&dev[0]));
	log->setMode(trace ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests);
	struct Slot { std::unique_ptr<Session> s; Conn* conn; BA text, lastText; bool logged, pending, ever; int status; qint64 len; bool known; bool head; QElapsedTimer t0, t1; bool closeInCompleted; bool completedLogged; };
	int n = c.rng.range(1, 5); std::vector<Slot> sl(n); std::vector<Conn*> pool; QElapsedTimer clk; clk.start(); size_t patched[2] = {0, 0}; bool slow = c.rng.chance(4); int nreq = 0, nlog = 0;
	// New connections may live where destroyed ones did.
	bool fixed = c.rng.chance(40); std::vector<void*> places; QObject owner; bool owned = c.rng.chance(50); auto make = [&]() -> Conn* { QObject* parent = owned ? &owner : 0; if (!fixed) return new Conn(parent); void* m = 0; if (!places.empty()) { m = places.back(); places.pop_back(); } else m = malloc(sizeof(Conn)); return new (m) Conn(parent); }; auto destroy = [&](Conn* x) { if (!fixed) delete x; else { x->~Conn(); places.push_back(x); } };
	auto open = [&](Slot& k) {
		k.conn = 0; if (!pool.empty() && c.rng.chance(70)) { k.conn = pool.back(); pool.pop_back(); } else k.conn = make();
		k.s.reset(new Session(c, k.conn)); k.logged = k.pending = k.ever = false; k.head = false; k.closeInCompleted = false; Slot* p = &k;
		k.s->onReady = [&, p](int) {
			++nreq; Conn* x = p->conn; p->pending = true; p->logged = c.rng.chance(80); p->text = deep(x->requestMethod()) + " " + deep(x->requestUri()) + " " + deep(x->requestHttpVersion());
			p->head = x->requestMethod() == "HEAD"; if (!p->logged) return;
			p->t1.start(); bool r = log->handleRequest(x); p->t0.start(); p->ever = true; p->lastText = p->text; ++nlog;
			if (r) c.fail("log-took-the-request", p->text);
			if (trace) { Want w = {1, BA(), p->text, 0, 0, false, 0, 0}; want[cur].push_back(w); }
		};
		k.s->onCompleted = [&, p](int) {
			p->pending = false; if (p->logged) { Want w = {trace ? 2 : 0, BA(), p->text, p->status, p->len, p->known, p->t0.elapsed(), -1 - (clk.elapsed() - p->t1.elapsed())}; bool ci = p->closeInCompleted && trace;
				if (ci) { Want cl = {3, BA(), p->lastText, 0, 0, false, 0, 0}; want[cur].push_back(cl); p->ever = false; } want[cur].push_back(w); }
			p->logged = false; if (p->closeInCompleted) { p->closeInCompleted = false; p->conn->close(); }
		};
		k.s->onClosed = [&, p]() { if (trace && p->ever) { Want w = {3, BA(), p->lastText, 0, 0, false, 0, 0}; want[cur].push_back(w); } p->ever = false; p->pending = p->logged = false; };
		k.s->start();
	};
	auto patch = [&]() { for (int i = 0; i < 2; ++i) for (; patched[i] < want[i].size(); ++patched[i]) { Want& w = want[i][patched[i]]; if (w.maxMs < 0) w.maxMs = clk.elapsed() + w.maxMs + 2; } }; // upper bounds are only known after the line was written
	auto end = [&](Slot& k) { k.s->finish(); k.s->onReady = 0; k.s->onCompleted = 0; k.s->onClosed = 0; k.s.reset(); };
	for (auto& k : sl) open(k);
	int steps = c.rng.range(5, 40); uint64_t sig = trace; static const int codes[] = {200, 200, 200, 201, 204, 301, 304, 400, 403, 404, 418, 500, 503, 999, 0, 1000};
	c.note = BA(trace ? "trace" : "completed") + " mode, " + num(n) + " connections, " + num(steps) + " steps";
	for (int st = 0; st < steps && c.ok(); ++st)
	{
		patch(); int ki = c.rng.below(n); Slot& k = sl[ki]; int a = c.rng.below(100); sig = sig * 131 + (a < 45 ? 0 : a < 70 ? 1 : a < 80 ? 2 : a) * 7 + ki;
		if (k.s->isClosed()) { end(k); if (c.rng.chance(60)) pool.push_back(k.conn); else destroy(k.conn); open(k); continue; }
		if (a < 45)
		{
			if (k.pending) goto respond;
			static const char* ms[] = {"GET", "GET", "POST", "HEAD", "PUT", "$X-_.1", "DELETE"}; static const char* vs[] = {"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}; BA m = ms[c.rng.below(7)], body = c.rng.chance(20) ? c.rng.bytes(c.rng.size(2000)) : BA();
			BA wire = m + " " + (c.rng.chance(30) ? genRequest(c.rng).uri : genUri(c.rng)) + " " + vs[c.rng.below(3)] + "\r\n" + (c.rng.chance(20) ? "Connection: keep-alive\r\n" : "") + (body.isEmpty() ? BA() : "Content-Length: " + num(body.size()) + "\r\n") + "\r\n" + body;
			if (c.rng.chance(10)) wire = wire.left(c.rng.below(wire.size())); if (c.rng.chance(3)) wire = "G(T / HTTP/1.1\r\n\r\n";
			k.s->feedAll(split(c.rng, wire));
		}
		else if (a < 75)
		{
			respond:
			if (!k.pending) continue;
			if (slow) { QThread::msleep(c.rng.below(12)); }
			k.status = codes[c.rng.below(16)]; int sent = k.status; if (QByteArray(Pillow::HttpProtocol::StatusCodes::getStatusMessage(sent)).isEmpty()) k.status = 0; // reported status of unknown codes: see below
			k.closeInCompleted = c.rng.chance(8); if (!k.logged) k.closeInCompleted = false; int len = c.rng.size(5000); k.known = true; k.len = len; BA b = bodyFor(st, len); Headers h; if (c.rng.chance(20)) h << Header("Connection", "close"); k.head = k.head;
			if (k.status == 0) { k.status = 500; }
			switch (c.rng.below(4))
			{
			case 0: case 1: k.conn->writeResponse(sent, h, b); break;
			case 2: h << Header("Content-Length", num(len)); k.conn->writeHeaders(sent, h); if (!k.head && len) { int at = c.rng.below(len); k.conn->writeContent(b.left(at)); k.conn->writeContent(b.mid(at)); } break;
			default: k.known = false; k.conn->writeHeaders(sent, h); if (k.pending) { k.conn->writeContent(b); k.conn->endContent(); } if (k.pending) k.conn->close(); break;
			}
		}
		else if (a < 80) k.conn->close();
		else if (a < 85) { end(k); if (c.rng.chance(50)) pool.push_back(k.conn); else destroy(k.conn); open(k); }
		else if (a < 88) { Session& s = *k.s; for (auto& x : s.conns) QObject::disconnect(x); s.conns.clear(); s.own = false; destroy(k.conn); s.onReady = 0; s.onCompleted = 0; s.onClosed = 0; k.s.reset(); if (trace) {} open(k); c.count("destroyed"); } // destroyed without closing: no line
		else if (a < 92) { cur = !cur; log->setDevice(&dev[cur]); if (log->device() != &dev[cur]) c.fail("device-accessor", ""); }
		else if (a < 94 && slow) { patch(); QThread::msleep(15); };
	}
	for (auto& k : sl) { end(k); destroy(k.conn); } for (auto x : pool) destroy(x); for (void* m : places) free(m);
	patch(); for (int i = 0; i < 2; ++i) judge(c, dev[i].data(), want[i]);
	c.count("requests", nreq); c.count("logged", nlog); c.distinct(sig ^ fnv(dev[0].data().left(200))); c.sample(c.note + ": " + show(dev[0].data(), 160));
}

// The handler outlives its device, or goes away before its connections.
FAMILY(C19, lifetimes, 2000, 20000)
{
	static int messages; messages = 0; QtMessageHandler old = qInstallMessageHandler([](QtMsgType t, const QMessageLogContext&, const QString& m) { if (t == QtDebugMsg && m.contains("\"GET /")) ++messages; });
	{
		std::unique_ptr<Pillow::HttpHandlerLog> log(new Pillow::HttpHandlerLog()); std::unique_ptr<QBuffer> dev(new QBuffer()); dev->open(QIODevice::ReadWrite); int mode = c.rng.below(3); if (mode) log->setDevice(dev.get()); bool trace = c.rng.chance(50); if (trace) log->setMode(Pillow::HttpHandlerLog::TraceRequests);
		Session s(c); s.onReady = [&](int) { if (log) log->handleRequest(s.conn); }; s.start(); int n = c.rng.range(1, 6), lines = 0, gone = c.rng.below(n + 2), point = c.rng.below(3); bool console = !mode; int conLines = 0;
		auto drop = [&](int at) { if (at != point) return; if (mode == 1) { dev.reset(); console = true; } else log.reset(); };
		for (int i = 0; i < n; ++i)
		{
			if (i == gone) drop(0);
			bool before = !!log, con = console; s.feed("GET /" + num(i) + " HTTP/1.1\r\n\r\n"); if (before && trace) ++(con ? conLines : lines);
			if (i == gone) drop(1); bool at = !!log; con = console; s.conn->writeResponse(200, Headers(), "x"); if (before && at) ++(con ? conLines : lines);
			if (i == gone) drop(2);
		}
		bool at = !!log, con = console; s.finish(); if (at && trace) ++(con ? conLines : lines);
		if (dev) { int got = dev->data().count('\n'); if (got != lines) c.fail("lines", num(got) + " lines on the device, expected " + num(lines)); }
		if (messages != conLines) c.fail("console-lines", num(messages) + " lines on the console, expected " + num(conLines));
		c.count("lines", lines); c.count("console_lines", conLines); c.distinct(uint64_t(n) * 1000 + gone * 100 + point * 10 + mode + trace * 5000); s.onReady = 0;
	}
	qInstallMessageHandler(old);
}

// Real servers: the peer address, recycled connections, clients that come and go.
FAMILY(C19, servers, 160, 3000)
{
	int kind = c.rng.chance(75) ? TCP : LOCAL; Srv srv(kind); QBuffer dev; dev.open(QIODevice::ReadWrite); bool trace = c.rng.chance(50);
	Pillow::HttpHandlerLog log(trace ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests, &dev); BA addr = kind == TCP ? "127.0.0.1" : "";
	std::vector<Conn*> waiting; int handled = 0, begun = 0; std::map<BA,int> asked; bool some = c.rng.chance(30); std::set<Conn*> logged; int closes = 0;
	srv.onReady = [&](Conn* x) { ++handled; bool skip = some && deep(x->requestUri()).contains("nolog"); if (!skip) { log.handleRequest(x); ++begun; ++asked[deep(x->requestUri())]; logged.insert(x); } if (c.rng.chance(70)) { static const int st[] = {200, 404, 500}; x->writeResponse(st[x->requestUri().size() % 3], Headers(), BA(x->requestUri().size() * 3, 'x')); } else waiting.push_back(x); };
	srv.onClosed = [&](Conn* x) { waiting.erase(std::remove(waiting.begin(), waiting.end(), x), waiting.end()); if (logged.erase(x)) ++closes; };
	std::vector<std::unique_ptr<Cli> > cl; int steps = c.rng.range(10, 50), sent = 0; std::vector<int> out; std::vector<BA> data;
	for (int st = 0; st < steps; ++st)
	{
		int a = c.rng.below(100);
		if (cl.empty() || (a < 25 && cl.size() < 6)) { cl.emplace_back(new Cli()); if (!cl.back()->connect(srv)) { c.stall("connect", "cannot connect"); return; } }
		else if (a < 65) { Cli& x = *cl[c.rng.below(int(cl.size()))]; x.send("GET /" + num(sent++) + (some && c.rng.chance(40) ? "nolog" : "") + genPathChars(c.rng, c.rng.below(20)) + " HTTP/1.1\r\n\r\n"); }
		else if (a < 75) { int i = c.rng.below(int(cl.size())); if (c.rng.chance(50)) cl[i]->reset(); cl.erase(cl.begin() + i); }
		else if (!waiting.empty()) { Conn* x = waiting[c.rng.below(int(waiting.size()))]; waiting.erase(std::find(waiting.begin(), waiting.end(), x)); x->writeResponse(200, Headers(), BA(x->requestUri().size() * 3, 'y')); }
		for (int i = 0; i < 3; ++i) { spin(); for (auto& x : cl) x->poll(); }
	}
	while (!waiting.empty()) { Conn* x = waiting.back(); waiting.pop_back(); x->writeResponse(200, Headers(), BA(x->requestUri().size() * 3, 'y')); spin(); }
	int before = srv.nClosed; (void)before; cl.clear(); if (!waitFor(c, [&]() { while (!waiting.empty()) { Conn* x = waiting.back(); waiting.pop_back(); x->writeResponse(200, Headers(), BA(x->requestUri().size() * 3, 'y')); } return srv.sockets() == 0; })) { c.stall("connections-remain", "clients are gone"); return; }
	spinN(3); QList<BA> lines = dev.data().split('\n'); lines.removeLast(); std::map<BA,int> b, e; int nb = 0, ne = 0, nc = 0;
	foreach (const BA& l, lines)
	{
		int k = l.startsWith("[BEGIN] ") ? 1 : l.startsWith("[ END ] ") ? 2 : l.startsWith("[CLOSE] ") ? 3 : 0; if (trace != (k != 0)) { c.fail("mode", show(l)); return; }
		int q = l.indexOf('"'), s1 = l.indexOf(' ', q), s2 = l.indexOf(' ', s1 + 1); BA uri = l.mid(s1 + 1, s2 - s1 - 1); Want w = {k, addr, "GET " + uri + " HTTP/1.1", 0, uri.size() * 3, true, 0, 1 << 30}; int p = l.lastIndexOf("\" "); w.status = l.mid(p + 2, 3).toInt(); BA d = lineDiff(l, w); if (!d.isEmpty()) { c.fail("line-differs", d + " in: " + show(l)); return; }
		if (!asked.count(uri)) { c.fail("unknown-request", show(l)); return; }
		if (k == 1) { ++nb; ++b[uri]; } else if (k == 3) ++nc; else { ++ne; ++e[uri]; if (trace && !b.count(uri)) c.fail("end-before-begin", show(l)); if (e[uri] > asked[uri]) c.fail("logged-twice", show(l)); }
	}
	if (trace && nb != begun) c.fail("begin-lines", num(nb) + " begin lines for " + num(begun) + " requests");
	if (trace && nc != closes) c.fail("close-lines", num(nc) + " close lines for " + num(closes) + " closed connections with logged requests");
	c.count("lines", lines.size()); c.count("ended", ne); c.count("requests", handled); c.distinct(fnv(dev.data()));
}

// One connection object serving client after client, observed by an application that was connected to it before the log was:
// requests that are not logged must never complete the entry of one that was.
FAMILY(C19, recycled, 6000, 60000)
{
	QBuffer dev; dev.open(QIODevice::ReadWrite); bool trace = c.rng.chance(50); Pillow::HttpHandlerLog log(trace ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests, &dev); std::vector<Want> want; Conn conn;
	int id = 0; bool logged = false, ever = false, closeNow = false; BA text, lastText; int status = 0, len = 0; bool pending = false;
	auto answer = [&]() { static const int st[] = {200, 404, 500, 201, 301}; status = st[id % 5]; len = 1 + id * 7; closeNow = c.rng.chance(15); conn.writeResponse(status, Headers(), BA(len, 'a')); };
	QObject::connect(&conn, &Conn::requestReady, [&](Conn*) { ++id; pending = true; logged = c.rng.chance(55); text = deep(conn.requestMethod()) + " " + deep(conn.requestUri()) + " " + deep(conn.requestHttpVersion()); if (logged) { log.handleRequest(&conn); ever = true; lastText = text; if (trace) want.push_back({1, BA(), text, 0, 0, false, 0, 0}); } if (c.rng.chance(60)) answer(); });
	QObject::connect(&conn, &Conn::requestCompleted, [&](Conn*) { pending = false; c.count("completed"); Want w = {trace ? 2 : 0, BA(), text, status, len, true, 0, 1 << 30}; bool l = logged; logged = false; if (closeNow) conn.close(); if (l) want.push_back(w); });
	QObject::connect(&conn, &Conn::closed, [&](Conn*) { if (ever && trace) want.push_back({3, BA(), lastText, 0, 0, false, 0, 0}); ever = logged = pending = false; });
	int n = c.rng.range(2, 8); c.note = num(n) + " clients in turn"; uint64_t sig = trace;
	for (int k = 0; k < n; ++k)
	{
		SimDevice d; conn.initialize(&d, &d); int m = c.rng.below(4);
		for (int i = 0; i < m && d.isOpen(); ++i) { closeNow = false; d.feed("GET /" + num(k) + "/" + num(i) + " HTTP/1.1\r\n\r\n"); if (pending && c.rng.chance(50)) answer(); sig = sig * 31 + (pending ? 7 : 3); if (pending) break; }
		if (d.isOpen()) { if (c.rng.chance(50)) d.close(); else conn.close(); } if (c.rng.chance(50)) spin(); sig = sig * 31 + m;
	}
	judge(c, dev.data(), want); c.count("requests", id); c.distinct(sig);
}
