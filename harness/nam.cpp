// Network access manager checks: C30.
#include "client.h"
#include <QtNetwork/QNetworkReply>
#include <QtNetwork/QNetworkCookieJar>
#include <QtNetwork/QNetworkCookie>
#include <QtNetwork/QHttpMultiPart>
typedef Pillow::NetworkAccessManager Nam;
typedef QNetworkReply Reply;

// What a cookie jar has to hold, per host and path.
struct Jar
{
	struct K { BA name, value, path; };
	std::map<BA, std::vector<K> > hosts;
	void set(const BA& host, const K& k, bool erase) { std::vector<K>& v = hosts[host]; for (size_t i = 0; i < v.size(); ++i) if (v[i].name == k.name && v[i].path == k.path) { v.erase(v.begin() + i); break; } if (!erase) v.push_back(k); }
	std::multiset<BA> get(const BA& host, const BA& path) const
	{
		std::multiset<BA> r; auto it = hosts.find(host); if (it == hosts.end()) return r;
		for (auto& k : it->second) if (k.path == "/" || path == k.path || path.startsWith(k.path + "/")) r.insert(k.name + "=" + k.value);
		return r;
	}
};
enum { FULL, CLOSING, CUT, CUT_RST, GARBAGE, NOTHING, STUCK, REFUSED, NK };
static const char* const KIND[] = {"complete", "complete-then-closed", "cut", "cut-by-reset", "garbage", "closed-without-answer", "never-completed", "refused"};
enum { NONE, ABORT, DELETE, LATER };
enum { AT_ONCE, AT_META, AT_READY, AT_ERROR, AT_FINISHED, AT_POLL, NW };
static const char* const WHEN[] = {"at once", "in metaDataChanged", "in readyRead", "in error", "in finished", "later"};

struct R
{
	int id, up, kind, op, action, when, polls, readMode, conn, end, launchAt, status; bool head, gzip, arrived, over, deleted, metaSeen, errorSeen, finishedSeen, namSeen, acted, inSignal, bodyless; Script s; std::vector<BA> pieces; BA sent, want, got, method, target, data, location; QNetworkReply* reply; int code; int emitted; std::multiset<BA> cookies; std::vector<std::pair<Jar::K,bool> > sets; std::vector<BA> setLines; Pairs sentHeaders; int ready, multipart;
	R() : id(0), up(0), kind(0), op(0), action(NONE), when(0), polls(0), readMode(0), conn(-1), end(0), launchAt(AT_POLL), status(0), head(false), gzip(false), arrived(false), over(false), deleted(false), metaSeen(false), errorSeen(false), finishedSeen(false), namSeen(false), acted(false), inSignal(false), bodyless(false), reply(0), code(0), emitted(0), ready(0), multipart(0) {}
	bool open() const { return reply && !over && !deleted; }
	bool complete() const { return kind == FULL || kind == CLOSING; }
};

struct World
{
	Ctx& c; Net net; std::unique_ptr<Nam> nam; Jar jar; std::vector<std::unique_ptr<R> > rs; size_t next; std::vector<int> active, peak, breaks; QUrl dead; bool cookies, slow; int total, nest = 0, depth = 0, loops = 0;
	World(Ctx& c_, int n) : c(c_), net(c_, n), nam(new Nam()), next(0), active(n), peak(n), breaks(n), cookies(false), slow(false), total(0)
	{
		{ Listener l; dead = QUrl(QString("http://%1:%2/").arg(QString::fromLatin1(l.host)).arg(l.port)); }
		for (int i = 0; i < n; ++i) { Upstream* u = net.up[i].get(); u->onRequest = [this, i, u](Upstream::C& k, const RawReq& q) { arrive(i, *u, k, q); }; }
		QObject::connect(nam.get(), &QNetworkAccessManager::finished, [this](QNetworkReply* p) { R* r = find(p); c.count("nam_finished"); if (!r) { c.fail("nam-finished-unknown", "finished(reply) for an unknown reply"); return; } if (r->namSeen) c.fail("nam-finished-twice", "finished(reply) emitted twice for request " + num(r->id)); r->namSeen = true; if (!p->isFinished()) c.fail("not-isFinished", "isFinished() is false in finished(reply)"); });
	}
	R* find(QNetworkReply* p) { for (auto& r : rs) if (r->reply == p && !r->deleted) return r.get(); return 0; }
	void arrive(int i, Upstream& u, Upstream::C& k, const RawReq& q)
	{
		c.count("requests_arrived"); R* r = 0; for (auto& x : rs) if (x->reply && x->target == q.target) r = x.get();
		if (!r) { c.fail("unknown-request", "unexpected request " + show(q.raw, 200)); return; } if (r->up != i) { c.fail("misdirected", "request " + num(r->id) + " for server " + num(r->up) + " arrived at server " + num(i)); return; } if (r->arrived) { c.fail("sent-twice", "request " + num(r->id) + " arrived twice"); return; }
		r->arrived = true; r->conn = k.id; if (q.method != r->method) c.fail("method", show(r->method) + " became " + show(q.method));
		if (r->multipart) judgeMultipart(*r, q); else if (q.content != r->data) c.fail("request-data", "request " + num(r->id) + ": " + diffText(r->data, q.content));
		Pairs rest; std::multiset<BA> ck; int nc = 0; for (auto& h : q.headers) { BA l = lower(h.first); if (l == "host") { if (h.second != u.l.host + ":" + num(u.l.port)) c.fail("host", show(h.second)); } else if (l == "content-length") ; else if (l == "cookie") { ++nc; int p = 0; while (p <= h.second.size()) { int e = h.second.indexOf("; ", p); if (e < 0) e = h.second.size(); ck.insert(h.second.mid(p, e - p)); p = e + 2; } } else rest.push_back(h); }
		BA e = diffPairs(r->sentHeaders, rest); if (!r->multipart && !e.isEmpty()) c.fail("request-headers", "request " + num(r->id) + ": " + e);
		if (nc > 1) c.fail("cookie-headers", num(nc) + " Cookie headers"); if (ck != r->cookies) { BA a, b; for (auto& x : r->cookies) a += " " + x; for (auto& x : ck) b += " " + x; c.fail("cookies-sent", "request " + num(r->id) + " to " + u.l.host + " had to carry [" + show(a, 300) + "] but carried [" + show(b, 300) + "]"); } if (!ck.empty()) c.count("requests_with_cookies");
		if (r->sent.isEmpty() && r->end == Upstream::KEEP) { k.busy = false; return; } u.reply(k, r->pieces, r->end);
	}
	void judgeMultipart(R& r, const RawReq& q)
	{
		BA t = q.value("Content-Type"); int b = t.indexOf("boundary="); if (!t.startsWith("multipart/form-data") || b < 0) { c.fail("multipart", "Content-Type " + show(t)); return; } BA bd = t.mid(b + 9); if (bd.startsWith('"')) bd = bd.mid(1, bd.size() - 2); BA want; for (int i = 0; i < r.multipart; ++i) want += "--" + bd + "\r\nContent-Disposition: form-data; name=\"p" + num(i) + "\"\r\n\r\n" + bodyFor(r.id + i, r.data.size() + i) + "\r\n"; want += "--" + bd + "--\r\n"; if (q.content != want) c.fail("multipart", diffText(want, q.content)); c.count("multipart");
	}
	// Chooses everything about request i.
	void plan(R& r, int kinds, bool actions)
	{
		Rng& g = c.rng; r.up = g.below(int(net.up.size())); r.kind = g.chance(60) ? int(FULL) : g.below(kinds); static const QNetworkAccessManager::Operation ops[] = {QNetworkAccessManager::GetOperation, QNetworkAccessManager::GetOperation, QNetworkAccessManager::GetOperation, QNetworkAccessManager::HeadOperation, QNetworkAccessManager::PostOperation, QNetworkAccessManager::PutOperation, QNetworkAccessManager::DeleteOperation, QNetworkAccessManager::CustomOperation}; r.op = ops[g.below(8)]; r.head = r.op == QNetworkAccessManager::HeadOperation; if (r.head && (r.kind == CUT || r.kind == CUT_RST || r.kind == STUCK || r.kind == GARBAGE)) r.kind = FULL;
		static const char* m[] = {"", "HEAD", "GET", "PUT", "POST", "DELETE", ""}; r.method = r.op == QNetworkAccessManager::CustomOperation ? genMethod(g).replace("HEAD", "LOCK") : BA(m[r.op]); r.target = BA(g.chance(30) ? "/sub" : "") + "/r" + num(r.id) + (g.chance(30) ? "?" + cleanQuery(g, 10) : BA()); if (r.kind == REFUSED) r.target = "/refused" + num(r.id); if (r.op == QNetworkAccessManager::PostOperation || r.op == QNetworkAccessManager::PutOperation || (r.op == QNetworkAccessManager::CustomOperation && g.chance(50))) r.data = contentOf(g, r.id, g.chance(5) ? g.size(300000) : g.size(3000)); if (r.op == QNetworkAccessManager::PostOperation && g.chance(8) && r.data.size() < 5000) r.multipart = g.range(1, 3);
		RespOpts o; o.maxBody = g.chance(8) ? 200000 : 3000; o.gzip = g.chance(12) && !r.head; Script& s = r.s; s = clientScript(g, r.head, r.id, o); BA plain = s.content; r.gzip = o.gzip && s.framing != Script::NONE; if (r.gzip) s.content = gzipped(g, plain);
		for (size_t i = s.headers.size(); i-- > 0; ) if (lower(s.headers[i].first) == "set-cookie") s.headers.erase(s.headers.begin() + i);
		if (cookies && r.kind != GARBAGE) { int n = g.chance(40) ? g.range(1, 4) : 0; while (n--) { Jar::K k; k.name = g.str("abcAB", g.range(1, 2)); k.value = g.chance(10) ? BA() : g.str("abcXYZ019-_.+/=", g.range(1, 20)); bool erase = g.chance(15); BA line = k.name + "=" + k.value; k.path = "/"; if (g.chance(25)) { k.path = g.chance(50) ? "/sub" : "/other"; line += "; Path=" + k.path; } else if (g.chance(20)) line += "; path=/"; if (erase) line += g.chance(50) ? "; Max-Age=0" : "; Expires=Wed, 01 Jan 2020 00:00:00 GMT"; else if (g.chance(20)) line += "; Max-Age=3600"; if (g.chance(20)) line += "; HttpOnly"; r.sets.push_back(std::make_pair(k, erase)); r.setLines.push_back(line); s.headers.push_back(std::make_pair(BA(g.chance(60) ? "Set-Cookie" : g.chance(50) ? "set-cookie" : "SET-COOKIE"), line)); } }
		if ((s.status / 100 == 3 && s.status != 304) ? g.chance(60) : g.chance(3)) { static const char* l[] = {"http://example.org/a?b=c", "/rooted/%20x", "relative", "?q=1", "//host/x", "../up#f"}; r.location = l[g.below(6)]; s.headers.insert(s.headers.begin() + g.below(int(s.headers.size()) + 1), std::make_pair(BA(g.chance(70) ? "Location" : "lOCATION"), r.location)); }
		bool until = s.framing == Script::CLOSE && !s.noBody(); if (r.kind == CLOSING && keepsAlive(s)) s.headers.push_back(std::make_pair(BA("Connection"), BA("close"))); finishScript(g, s, o); r.status = s.status; r.want = s.noBody() ? BA() : r.gzip ? plain : s.content; r.sent = s.wire; r.end = until || r.kind == CLOSING ? Upstream::FIN : Upstream::KEEP;
		switch (r.kind) { case CUT: case CUT_RST: r.sent = s.wire.left(g.chance(40) ? g.range(1, qMax(1, s.headEnd - 1)) : g.range(1, qMax(1, s.wire.size() - 1))); r.end = r.kind == CUT ? Upstream::FIN : Upstream::RST; break; case GARBAGE: r.sent = genGarbage(g, s); { rgram::R x; rgram::response(r.sent, x); r.want = x.content; } r.end = Upstream::KEEP; break; case NOTHING: r.sent.clear(); r.end = Upstream::FIN; break; case STUCK: r.sent = s.wire.left(g.below(s.wire.size())); if (until && r.sent.size() == s.wire.size()) r.sent.clear(); r.end = Upstream::KEEP; break; }
		r.pieces = r.sent.isEmpty() ? std::vector<BA>() : split(g, r.sent, std::vector<int>(1, s.headEnd)); if (r.pieces.size() > 25) r.pieces = std::vector<BA>(1, r.sent);
		if (actions && g.chance(35)) { r.action = g.range(ABORT, LATER); r.when = g.below(NW); if (r.action == DELETE && r.when != AT_ONCE) r.when = AT_POLL; } if (r.kind == STUCK && (r.action == NONE || r.when != AT_POLL)) { r.action = g.range(ABORT, LATER); r.when = AT_POLL; } r.polls = r.kind == STUCK ? g.range(2, 30) : g.below(12); r.readMode = g.below(4); r.launchAt = g.chance(50) ? int(AT_POLL) : g.range(AT_META, AT_FINISHED);
		c.note += (r.id ? "; " : "") + num(r.id) + ": " + r.method + " server " + num(r.up) + " " + KIND[r.kind] + " " + scriptText(s) + (r.gzip ? " gzip" : "") + " " + num(r.sent.size()) + "/" + num(s.wire.size()) + "B in " + num(int(r.pieces.size())) + (r.action ? BA(r.action == ABORT ? ", abort " : ", delete ") + WHEN[r.when] : BA()) + ", next " + WHEN[r.launchAt];
	}
	static BA scriptText(const Script& s) { return s.version + " " + num(s.status) + " framing " + num(s.framing); }
	void launch()
	{
		R& r = *rs[next++]; Rng& g = c.rng; QString base = net.up[r.up]->url(); QUrl url = r.kind == REFUSED ? dead.resolved(QUrl(QString::fromLatin1(r.target))) : urlOf(base, r.target); QNetworkRequest q(url); Pairs hs; genHeaders(g, hs, r.id); std::set<BA> seen; for (auto& h : hs) if (seen.insert(lower(h.first)).second && lower(h.first) != "cookie") { q.setRawHeader(h.first, h.second.size() ? h.second : BA("")); } if (g.chance(30) && !r.multipart) q.setHeader(QNetworkRequest::ContentTypeHeader, "text/x-thing"); if (g.chance(10)) q.setHeader(QNetworkRequest::UserAgentHeader, "me"); if (g.chance(10)) q.setPriority(QNetworkRequest::HighPriority);
		foreach (const QByteArray& n, q.rawHeaderList()) if (!r.multipart) r.sentHeaders.push_back(std::make_pair(n, q.rawHeader(n))); r.cookies = jar.get(net.up[r.up]->l.host, url.path().toLatin1());
		QNetworkReply* p = 0; QByteArray data = r.data; QBuffer buffer(&data); int skip = 0; bool device = g.chance(40) && !r.multipart; if (device) { skip = g.below(5); data = BA(skip, 'S') + data; buffer.open(QIODevice::ReadOnly); buffer.seek(skip); } ++total; if (r.kind != REFUSED) { ++active[r.up]; peak[r.up] = qMax(peak[r.up], active[r.up]); }
		QHttpMultiPart* mp = 0; if (r.multipart) { mp = new QHttpMultiPart(QHttpMultiPart::FormDataType); for (int i = 0; i < r.multipart; ++i) { QHttpPart part; part.setRawHeader("Content-Disposition", "form-data; name=\"p" + num(i) + "\""); part.setBody(bodyFor(r.id + i, r.data.size() + i)); mp->append(part); } }
		switch (r.op) { case QNetworkAccessManager::HeadOperation: p = nam->head(q); break; case QNetworkAccessManager::GetOperation: p = nam->get(q); break; case QNetworkAccessManager::PutOperation: p = device ? nam->put(q, &buffer) : nam->put(q, data); break; case QNetworkAccessManager::PostOperation: p = mp ? nam->post(q, mp) : device ? nam->post(q, &buffer) : nam->post(q, data); break; case QNetworkAccessManager::DeleteOperation: p = nam->deleteResource(q); break; default: p = r.data.isEmpty() ? nam->sendCustomRequest(q, r.method) : device ? nam->sendCustomRequest(q, r.method, &buffer) : nam->sendCustomRequest(q, r.method, data); }
		if (mp) mp->setParent(p); r.reply = p; R* x = &r; c.count("requests"); if (p->isFinished()) c.fail("finished-at-once", "the reply is finished when it is returned"); if (p->url() != url || p->request().url() != url || p->operation() != r.op || p->manager() != nam.get()) c.fail("reply-accessors", "url(), request(), operation() or manager() is wrong");
		QObject::connect(p, &QNetworkReply::metaDataChanged, p, [this, x]() { c.count("metaDataChanged"); if (x->over) c.fail("signal-after-finished", "metaDataChanged after finished for request " + num(x->id)); if (x->metaSeen) c.fail("meta-twice", "metaDataChanged twice for request " + num(x->id)); x->metaSeen = true; for (auto& k : x->sets) jar.set(net.up[x->up]->l.host, k.first, k.second); judgeHead(*x); if (x->reply->isFinished()) c.fail("finished-early", "isFinished() in metaDataChanged"); act(*x, AT_META); loop(); });
		QObject::connect(p, &QNetworkReply::readyRead, p, [this, x]() { c.count("readyRead"); ++x->ready; if (x->over) c.fail("signal-after-finished", "readyRead after finished for request " + num(x->id)); if (!x->metaSeen) c.fail("content-first", "readyRead before metaDataChanged"); read(*x, false); act(*x, AT_READY); loop(); });
		QObject::connect(p, static_cast<void (QNetworkReply::*)(QNetworkReply::NetworkError)>(&QNetworkReply::error), p, [this, x](QNetworkReply::NetworkError e) { c.count("errors"); if (x->errorSeen) c.fail("error-twice", "error() twice for request " + num(x->id)); if (x->finishedSeen) c.fail("signal-after-finished", "error after finished for request " + num(x->id)); x->errorSeen = true; x->emitted = e; if (x->reply->error() != e) c.fail("error-accessor", "error() is " + num(x->reply->error()) + " while error(" + num(e) + ") is emitted"); ended(*x); act(*x, AT_ERROR); loop(); });
		QObject::connect(p, &QNetworkReply::finished, p, [this, x]() { c.count("finished"); if (x->finishedSeen) { c.fail("finished-twice", "finished twice for request " + num(x->id)); return; } x->finishedSeen = true; if (!x->reply->isFinished() || x->reply->isRunning()) c.fail("not-isFinished", "isFinished() is false in finished()"); x->code = x->reply->error(); ended(*x); judge(*x); act(*x, AT_FINISHED); loop(); });
		QObject::connect(p, &QObject::destroyed, nam.get(), [this, x]() { x->deleted = true; ended(*x); });
		act(r, AT_ONCE);
	}
	// The application runs an event loop of its own inside a signal.
	void loop() { if (!nest || depth >= 3 || loops >= 60 || !c.ok() || !c.rng.chance(nest)) return; NestedLoop inside; ++depth; ++loops; c.count("loops"); net.settle(c.rng.range(1, 15)); --depth; }
	void ended(R& r) { if (r.over) return; r.over = true; if (r.kind == REFUSED) return; --active[r.up]; if (!(r.kind == FULL && !r.errorSeen && r.finishedSeen && keepsAlive(r.s))) ++breaks[r.up]; }
	void act(R& r, int when)
	{
		if (next < rs.size() && r.launchAt == when && c.ok() && when != AT_ONCE) { r.launchAt = AT_POLL; c.count("requests_from_signals"); launch(); }
		if (r.action == NONE || r.acted || r.when != when || r.deleted || !c.ok()) return; r.acted = true; c.count("actions");
		if (r.action == DELETE) { delete r.reply; return; } if (r.action == LATER) { r.reply->deleteLater(); return; }
		bool was = r.over; int f = r.finishedSeen, e = r.errorSeen; r.reply->abort(); if (r.deleted) return; if (was && (int(r.finishedSeen) != f || (r.errorSeen && !e)) && when != AT_ERROR) c.fail("abort-finished-reply", "abort() of a finished reply emitted signals");
		if (!was) { if (!r.finishedSeen) c.fail("abort-not-finished", "abort() did not finish request " + num(r.id)); else if (r.code != QNetworkReply::OperationCanceledError) c.fail("abort-error", "abort() gave error " + num(r.code)); c.count("aborts"); }
	}
	void read(R& r, bool all)
	{
		QNetworkReply* p = r.reply; if (!p->isOpen()) return; qint64 n = p->bytesAvailable(); BA b;
		if (!all && r.readMode == 0) return; // nothing before the end
		if (!all && r.readMode == 1) b = p->read(c.rng.range(0, 1000)); else if (!all && r.readMode == 2) { while (p->bytesAvailable() > 0 && b.size() < 100000) { BA t = p->read(c.rng.range(1, 700)); if (t.isEmpty()) { c.fail("read-empty", "read() gave nothing with " + num(p->bytesAvailable()) + " bytes available"); break; } b += t; } } else b = p->readAll();
		if (b.size() > n) c.fail("bytesAvailable", num(b.size()) + " bytes read with " + num(n) + " available"); if (p->bytesAvailable() != n - b.size()) c.fail("bytesAvailable", num(n) + " bytes available, " + num(b.size()) + " read, " + num(p->bytesAvailable()) + " left"); if (all && p->bytesAvailable()) c.fail("readAll", num(p->bytesAvailable()) + " bytes left by readAll()"); r.got += b; c.count("bytes_read", b.size()); if (r.kind == GARBAGE && r.gzip) { /* the edit may be anywhere in the compressed data */ } else if (!r.want.startsWith(r.got) && !(r.gzip && !r.complete() && r.s.content.startsWith(r.got))) /* a few bytes of compressed data are no telling */ c.fail("content", "request " + num(r.id) + ": " + diffText(r.want, r.got));
	}
	void judgeHead(R& r)
	{
		QNetworkReply* p = r.reply; if (r.kind == GARBAGE) return; int st = p->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt(); if (st != r.s.status) c.fail("status", num(r.s.status) + " became " + num(st));
		std::map<BA, BA> want; std::set<BA> got; for (auto& h : r.s.headers) { BA l = lower(h.first); if (want.count(l)) want[l] += (l == "set-cookie" ? "\n" : ", ") + h.second; else want[l] = h.second; }
		foreach (const QByteArray& n, p->rawHeaderList()) { BA l = lower(n); if (!want.count(l)) c.fail("header-unexpected", show(n)); else if (!got.insert(l).second) c.fail("header-twice", show(n)); }
		for (auto& w : want) { if (!p->hasRawHeader(w.first)) { c.fail("header-missing", show(w.first) + ": " + show(w.second, 100)); } else if (p->rawHeader(w.first) != w.second) c.fail("header-value", show(w.first) + ": expected " + show(w.second, 200) + ", got " + show(p->rawHeader(w.first), 200)); }
		QUrl loc = p->attribute(QNetworkRequest::RedirectionTargetAttribute).toUrl(); if (loc != QUrl::fromEncoded(r.location)) c.fail("redirect", "Location " + show(r.location) + " became " + show(loc.toEncoded())); if (r.s.framing == Script::LENGTH && p->header(QNetworkRequest::ContentLengthHeader).toLongLong() != r.s.content.size()) c.fail("content-length", "ContentLengthHeader is wrong");
		QList<QNetworkCookie> ck = p->header(QNetworkRequest::SetCookieHeader).value<QList<QNetworkCookie> >(); if (size_t(ck.size()) != r.sets.size()) c.fail("cookies-header", num(ck.size()) + " cookies in SetCookieHeader for " + num(int(r.sets.size()))); else for (int i = 0; i < ck.size(); ++i) if (ck[i].name() != r.sets[i].first.name || ck[i].value() != r.sets[i].first.value) c.fail("cookies-header", "cookie " + num(i) + " is " + show(ck[i].toRawForm()) + " for " + show(r.setLines[i]));
		c.count("heads"); c.count("cookies_received", int(r.sets.size()));
	}
	void judge(R& r)
	{
		c.count(KIND[r.kind]); QNetworkReply* p = r.reply; int e = r.code; BA what = BA(KIND[r.kind]) + " request " + num(r.id) + " ended with error " + num(e) + " (" + num(r.sent.size()) + " of " + num(r.s.wire.size()) + " bytes sent)"; if ((e != QNetworkReply::NoError) != r.errorSeen || (r.errorSeen && r.emitted != e)) c.fail("error-signal", "finished with error() " + num(e) + ", emitted " + (r.errorSeen ? num(r.emitted) : BA("nothing")));
		if (p->isOpen()) read(r, true); if (e != QNetworkReply::NoError && p->errorString().isEmpty()) c.fail("errorString", "empty errorString()");
		if (r.acted && r.action == ABORT && r.errorSeen && e == QNetworkReply::OperationCanceledError) return; c.distinct(fnv(r.sent.left(300)) ^ r.kind);
		if (e == QNetworkReply::OperationCanceledError) { c.fail("canceled", what); return; } bool until = r.s.framing == Script::CLOSE && !r.s.noBody() && r.sent.size() >= r.s.headEnd;
		switch (r.kind)
		{
		case FULL: case CLOSING: if (e != QNetworkReply::NoError) { if (r.s.status < 400 || e < 200) c.fail("outcome", what); } if (!r.metaSeen) c.fail("no-metaData", "request " + num(r.id) + " finished without metaDataChanged"); if (r.got != r.want) c.fail("content", "request " + num(r.id) + ": " + diffText(r.want, r.got)); if (!r.want.isEmpty() && !r.ready) c.fail("no-readyRead", "no readyRead for " + num(r.want.size()) + " bytes"); break;
		case CUT: if (until || r.sent.size() == r.s.wire.size()) { if (e != QNetworkReply::NoError) c.fail("outcome", what); } else if (e != QNetworkReply::RemoteHostClosedError) c.fail("outcome", what); break;
		case CUT_RST: if (until || r.sent.size() == r.s.wire.size()) break; if (e != QNetworkReply::RemoteHostClosedError && e != QNetworkReply::UnknownNetworkError) c.fail("outcome", what); break;
		case GARBAGE: if (e != QNetworkReply::ProtocolUnknownError) c.fail("outcome", what + " for " + show(r.sent, 100)); break;
		case NOTHING: if (e != QNetworkReply::RemoteHostClosedError) c.fail("outcome", what); break;
		case STUCK: if (r.sent.size() < r.s.wire.size()) c.fail("outcome", what); break;
		case REFUSED: if (e != QNetworkReply::UnknownNetworkError) c.fail("outcome", what); break;
		}
	}
	void run(int first)
	{
		while (next < rs.size() && int(next) < first && c.ok()) launch();
		bool done = net.wait([&]() {
			if (!c.ok()) return true; bool all = true;
			for (size_t i = 0; i < next && c.ok(); ++i) { R& r = *rs[i]; if (!r.reply || r.deleted) continue; if (r.kind == STUCK && r.polls > 1 && r.action == ABORT && !r.arrived) { all = false; continue; } if (r.polls > 0) --r.polls; else act(r, AT_POLL); if (!r.deleted && !r.over) all = false; }
			for (auto& u : net.up) { for (auto& k : u->cs) if (k->busy && !k->buf.isEmpty()) { c.fail("pipelined", "a request was sent on a connection that still has one unanswered: " + show(k->buf, 100)); break; } if (!u->error.isEmpty()) c.fail("malformed", u->error); }
			if (all && next < rs.size()) { launch(); all = false; } else if (next < rs.size() && c.rng.chance(10)) { launch(); all = false; } return all; });
		if (!c.ok()) return; if (!done) { BA s; for (size_t i = 0; i < next; ++i) if (rs[i]->open()) s += " " + num(rs[i]->id) + (rs[i]->arrived ? "" : "(never arrived)"); c.stall("not-finished", "requests not finished:" + s); return; }
		net.settle(3); for (auto& r : rs) if (r->reply && !r->deleted && !r->finishedSeen) c.fail("no-finished", "request " + num(r->id) + " emitted no finished()"); for (auto& r : rs) if (r->reply && r->finishedSeen && !r->deleted && !r->namSeen) c.fail("no-nam-finished", "no finished(reply) for request " + num(r->id));
		for (size_t i = 0; i < net.up.size() && c.ok(); ++i) { if (net.up[i]->accepted > peak[i] + breaks[i]) c.fail("connections", num(net.up[i]->accepted) + " connections to server " + num(int(i)) + " for at most " + num(peak[i]) + " requests at a time and " + num(breaks[i]) + " lost connections"); c.count("connections", net.up[i]->accepted); if (active[i]) c.fail("harness", "active count"); }
		c.count("peak", *std::max_element(peak.begin(), peak.end()));
	}
	~World() { bool namFirst = c.rng.chance(30); std::vector<QPointer<QNetworkReply> > left; for (auto& r : rs) if (r->reply && !r->deleted) left.push_back(r->reply); if (namFirst) nam.reset(); for (auto& p : left) delete p.data(); nam.reset(); }
};

// Requests at the same time and one after another, to several servers, that go well, fail, or are given up.
FAMILY(C30, requests, 6000, 60000)
{
	World w(c, c.rng.range(1, 3)); w.cookies = c.rng.chance(50); int n = c.rng.range(1, 10); bool wild = c.rng.chance(70); c.note = ""; for (int i = 0; i < n; ++i) { w.rs.emplace_back(new R()); w.rs.back()->id = i; w.plan(*w.rs.back(), wild ? int(NK) : int(CUT), wild); } c.sample(c.note); w.run(c.rng.range(1, n));
}
// Successive requests with cookies: what was set is sent back, to the host that set it only.
FAMILY(C30, cookies, 1000, 15000)
{
	World w(c, c.rng.range(1, 3)); w.cookies = true; int n = c.rng.range(4, 16); c.note = ""; for (int i = 0; i < n; ++i) { w.rs.emplace_back(new R()); w.rs.back()->id = i; w.plan(*w.rs.back(), CUT, false); } c.sample(c.note); w.run(1);
}
// As many connections as requests: all of them arrive before any is answered.
FAMILY(C30, concurrent, 100, 800)
{
	World w(c, c.rng.range(1, 2)); int n = c.rng.range(7, 40); c.note = ""; for (int i = 0; i < n; ++i) { w.rs.emplace_back(new R()); w.rs.back()->id = i; w.plan(*w.rs.back(), CUT, false); w.rs.back()->launchAt = AT_POLL; } for (auto& u : w.net.up) u->paused = true; c.sample(c.note); while (w.next < w.rs.size() && c.ok()) w.launch();
	if (!w.net.wait([&]() { for (auto& r : w.rs) if (!r->arrived) return false; return true; })) { int k = 0; for (auto& r : w.rs) k += r->arrived; c.stall("held-back", "only " + num(k) + " of " + num(n) + " requests arrived"); return; } c.count("concurrent", n); for (auto& u : w.net.up) u->paused = false; w.run(0);
}
// Event loops inside the signals of the replies.
FAMILY(C30, nested_loops, 600, 6000)
{
	World w(c, c.rng.range(1, 2)); w.cookies = c.rng.chance(30); w.nest = c.rng.range(10, 90); int n = c.rng.range(1, 10); c.note = "loops in " + num(w.nest) + "% of the signals; "; for (int i = 0; i < n; ++i) { w.rs.emplace_back(new R()); w.rs.back()->id = i; w.plan(*w.rs.back(), c.rng.chance(50) ? int(NK) : int(CUT), c.rng.chance(50)); } c.sample(c.note); w.run(c.rng.range(1, n));
}
// The manager goes away with requests in every state.
FAMILY(C30, teardown, 1000, 10000)
{
	World w(c, c.rng.range(1, 2)); int n = c.rng.range(1, 8); c.note = ""; for (int i = 0; i < n; ++i) { w.rs.emplace_back(new R()); w.rs.back()->id = i; w.plan(*w.rs.back(), NK, true); } c.sample(c.note); for (int i = 0; i < n; ++i) { if (c.rng.chance(60) && w.next < w.rs.size()) w.launch(); w.net.settle(c.rng.below(6)); } c.count("torn_down");
}
// Other schemes are left to the base class.
FAMILY(C30, other_schemes, 40, 200)
{
	BA d = contentOf(c.rng, 1, c.rng.size(3000)); c.note = "data: URL of " + num(d.size()) + " bytes"; Nam nam; std::unique_ptr<QNetworkReply> p(nam.get(QNetworkRequest(QUrl::fromEncoded("data:text/plain;base64," + d.toBase64().replace('+', "%2B"))))); if (!waitFor(c, [&]() { return p->isFinished(); })) { c.stall("not-finished", "data: URL"); return; } BA got = p->readAll(); if (got != d) c.fail("data-url", diffText(d, got)); c.count("data_urls"); c.distinct(fnv(d));
}
// Requests that name no host fail once, and nothing of them is kept.
FAMILY(C30, nowhere, 60, 400)
{
	static const char* bad[] = {"http:///", "http:///x?y=1", "http:", "http:/path", "HTTP:///a"}; Nam nam; int n = c.rng.range(1, 12), k = c.rng.below(5); c.note = num(n) + " requests to " + bad[k]; int fin = 0; std::vector<QNetworkReply*> rs;
	for (int i = 0; i < n; ++i) { QNetworkReply* p = nam.get(QNetworkRequest(QUrl::fromEncoded(bad[k]))); rs.push_back(p); QObject::connect(p, &QNetworkReply::finished, [&fin]() { ++fin; }); if (c.rng.chance(50)) spin(); }
	if (!waitFor(c, [&]() { for (auto p : rs) if (!p->isFinished()) return false; return true; })) { c.stall("not-finished", "request without a host"); return; }
	spinN(3); if (fin > n) c.fail("finished-twice", num(fin) + " finished signals for " + num(n) + " requests"); for (auto p : rs) if (p->error() == QNetworkReply::NoError) c.fail("no-error", BA("a request to ") + bad[k] + " succeeded");
	for (auto p : rs) delete p; spinN(3); int left = nam.findChildren<Client*>().size(); if (left > 1) c.fail("clients-kept", num(left) + " clients remain after " + num(n) + " requests without a host"); c.count("nowhere", n); c.count("finished", fin); c.distinct(n * 10 + k);
}
