// Proxy handler checks: C20, C21.
#include "sock.h"
#include "upstream.h"
#include "HttpHandlerProxy.h"
#include <zlib.h>

static BA canon(const BA& s)
{
	BA r; auto hex = [](char ch) { return isxdigit((unsigned char)ch); };
	for (int i = 0; i < s.size(); ++i)
	{
		unsigned char ch = s.at(i); bool esc = false; if (ch == '%' && i + 2 < s.size() && hex(s.at(i + 1)) && hex(s.at(i + 2))) { ch = (unsigned char)BA::fromHex(s.mid(i + 1, 2)).at(0); i += 2; esc = true; }
		bool unres = ch < 128 && (isalnum(ch) || strchr("-._~", ch)); bool keep = unres || (!esc && ch && ch < 128 && strchr(":/?#@!$&'()*+,;=", ch) && ch);
		if (keep) r += char(ch); else { char t[8]; snprintf(t, 8, "%%%02X", ch); r += t; }
	}
	if (r.endsWith('?') && r.count('?') == 1) r.chop(1); // an empty query is as good as none
	return r;
}
static BA genUrlPart(Rng& r, int n, bool query)
{
	static const char* odd[] = {"%20", "%41", "%2F", "%2f", "%25", "%ff", "%C3%A9", "%00", "%3F", "%23", "%3b", "%7e", "\xc3\xa9", "\xe2\x82\xac", "{", "}", "|", "^", "\"", "<", ">", "`", "\\", "[", "]", "%26", "%3D", "%2B", "%0d%0a"};
	BA s; while (s.size() < n) { int k = r.below(10); if (k < 6) s += r.ch("abcXYZ019-._~"); else if (k < 8) s += query ? r.ch("&=+;/?:@,!$*'()") : r.ch("/:@+,;=!$*'()&"); else s += odd[r.below(29)]; } return s;
}
static BA gz(const BA& d) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY); BA o(int(deflateBound(&z, d.size())) + 100, 0); z.next_in = (Bytef*)d.constData(); z.avail_in = d.size(); z.next_out = (Bytef*)o.data(); z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(int(z.total_out)); deflateEnd(&z); return o; }
static bool hop(const BA& n) { static const char* h[] = {"connection", "keep-alive", "transfer-encoding", "content-length", "proxy-connection", "te", "trailer", "upgrade"}; for (auto x : h) if (lower(n) == x) return true; return false; }

static const int KNOWN[] = {200, 200, 200, 200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 207, 308, 422, 429, 451, 511, 500, 501, 502, 503, 504, 505};
static Script genScript(Rng& r, bool head, int id, int maxBody)
{
	Script s; s.status = KNOWN[r.below(sizeof KNOWN / sizeof *KNOWN)]; if (r.chance(3)) { static const int other[] = {226, 308, 418, 422, 429, 451, 507, 520, 599}; s.status = other[r.below(9)]; } s.reason = r.chance(80) ? BA("Fine then") : BA(); s.version = r.chance(85) ? "HTTP/1.1" : "HTTP/1.0"; s.head = head;
	s.content = r.chance(15) ? BA() : r.chance(50) ? bodyFor(id, r.size(qMin(maxBody, 2000))) : bodyFor(id, r.size(maxBody)); s.framing = r.chance(50) ? Script::LENGTH : r.chance(60) && s.version == "HTTP/1.1" ? Script::CHUNKED : Script::CLOSE;
	static const char* names[] = {"Server", "X-Thing", "x-thing", "Cache-Control", "Vary", "ETag", "Last-Modified", "Location", "Warning", "X-Frame-Options", "Content-Type", "Content-Language", "WWW-Authenticate", "Date"}; std::set<BA> used;
	int n = r.below(8); while (n--) { BA nm = names[r.below(14)]; if (nm == "WWW-Authenticate" && r.chance(80)) continue; if (nm == "Content-Type" || nm == "Location" || nm == "Date" || nm == "Last-Modified" || nm == "ETag" || nm == "Server") if (!used.insert(nm).second) continue; BA v = nm == "Location" ? BA("/other?a=b") : nm == "WWW-Authenticate" ? BA("Basic realm=\"x\"") : nm == "Last-Modified" || nm == "Date" ? BA("Sun, 06 Nov 1994 08:49:37 GMT") : nm == "ETag" ? BA("\"abc\"") : nm == "Content-Type" ? BA(r.chance(50) ? "text/html; charset=utf-8" : "image/png") : r.str("abcdef0123, ;=\"/", r.range(1, 40)).trimmed(); if (v.isEmpty()) v = "v"; s.headers.push_back(std::make_pair(nm, v)); }
	s.headers.push_back(std::make_pair(BA("X-Resp"), num(id)));
	if (r.chance(10)) s.headers.push_back(std::make_pair(BA("X-Void"), BA()));
	if (r.chance(15)) { int k = r.range(1, 3); for (int i = 0; i < k; ++i) s.headers.push_back(std::make_pair(BA("Set-Cookie"), "c" + num(i) + "=v" + num(id) + "; Path=/" + (r.chance(30) ? "; HttpOnly" : "") + (r.chance(30) ? "; Expires=Wed, 09 Jun 2100 10:18:14 GMT" : ""))); }
	if (!s.noBody() && r.chance(12)) { s.content = gz(bodyFor(id, r.size(3000))); s.headers.push_back(std::make_pair(BA("Content-Encoding"), BA("gzip"))); }
	if (s.noBody() && s.framing == Script::CHUNKED && s.status != 200) s.framing = Script::LENGTH;
	if (s.status == 204 || s.status == 304) { s.content.clear(); s.framing = Script::NONE; }
	if (s.status == 205) s.content.clear();
	if (s.framing == Script::CLOSE && r.chance(50)) s.headers.push_back(std::make_pair(BA("Connection"), BA("close")));
	s.build(r); return s;
}

struct World
{
	Ctx& c; Upstream up; std::unique_ptr<Pillow::HttpHandlerProxy> proxy; Srv srv; std::vector<std::unique_ptr<Cli> > cl; std::shared_ptr<std::map<int,int> > reported; // what the access manager made of each exchange: -1 a failed transfer, 1 a complete response
	World(Ctx& c_, int kind = TCP) : c(c_), srv(kind), reported(new std::map<int,int>()) {
		// A proxy handler without an URL takes no request.
		if (caseIndex() % 4 == 2) { proxy.reset(new Pillow::HttpHandlerProxy()); { SimDevice d; Conn q; bool taken = true; QObject::connect(&q, &Conn::requestReady, [&](Conn* x) { taken = proxy->handleRequest(x); }); q.initialize(&d, &d); d.feed("GET /none HTTP/1.1\r\n\r\n"); spin(); if (taken || !d.tx.isEmpty()) c.fail("unconfigured", "a proxy handler without an URL took a request" + show(d.tx, 200)); d.close(); } proxy->setProxiedUrl(QUrl(up.url())); }
		else if (caseIndex() % 4 == 1) { proxy.reset(new Pillow::HttpHandlerProxy(QUrl("http://127.0.0.1:1/elsewhere"))); proxy->setProxiedUrl(QUrl(up.url())); }
		else proxy.reset(new Pillow::HttpHandlerProxy(QUrl(up.url()))); if (proxy->proxiedUrl() != QUrl(up.url())) c.fail("url", "proxiedUrl() does not tell the URL that was set");
		 srv.onReady = [this](Conn* x) { if (!proxy->handleRequest(x)) c.fail("not-taken", "the proxy handler declined " + deep(x->requestUri()));
		for (QNetworkReply* r : proxy->networkAccessManager()->findChildren<QNetworkReply*>()) if (!r->property("seen").isValid()) { r->setProperty("seen", true); auto rep = reported; QObject::connect(r, &QNetworkReply::finished, r, [r, rep]() { int e = r->error(); (*rep)[r->request().rawHeader("X-Id").toInt()] = e == QNetworkReply::RemoteHostClosedError || e == QNetworkReply::UnknownNetworkError ? -1 : e == QNetworkReply::NoError || e > 100 ? 1 : 0; }); } }; }
	void poll() { up.poll(); for (auto& x : cl) x->poll(); }
	bool wait(const std::function<bool()>& f, int ms = 8000) { return waitFor(c, f, [this]() { poll(); }, ms); }
	int replies() const { return proxy->networkAccessManager()->findChildren<QNetworkReply*>().size(); }
	~World() { cl.clear(); srv.onReady = 0; up.onRequest = 0; for (int i = 0; i < 3; ++i) spin(); }
};

// What the client made of the relayed response.
static void judgeResponse(Ctx& c, const Script& s, const Resp& r, int id)
{
	bool known = Pillow::HttpProtocol::StatusCodes::getStatusCodeAndMessage(s.status); if (r.status != (known ? s.status : 500)) c.fail("status", "upstream sent " + num(s.status) + ", client got " + num(r.status) + " (error body or framing " + num(s.framing) + ", " + num(s.content.size()) + " bytes)");
	BA want = s.noBody() ? BA() : s.content; if (r.content != want) c.fail("content", diffText(want, r.content));
	std::map<BA,BA> a, b; for (auto& h : s.headers) if (!hop(h.first) && lower(h.first) != "set-cookie") { BA& v = a[lower(h.first)]; v += (v.isEmpty() ? "" : ", ") + h.second; } for (auto& h : r.headers) if (!hop(h.first) && lower(h.first) != "set-cookie") { BA& v = b[lower(h.first)]; v += (v.isEmpty() ? "" : ", ") + h.second; }
	if (!a.count("content-type")) b.erase("content-type");
	for (auto& x : a) if (!b.count(x.first)) c.fail("response-header-lost", x.first + ": " + show(x.second)); else if (b[x.first] != x.second) c.fail("response-header-changed", x.first + ": " + show(x.second) + " became " + show(b[x.first]));
	for (auto& x : b) if (!a.count(x.first)) c.fail("response-header-added", x.first + ": " + show(x.second));
	std::vector<BA> ca, cb; for (auto& h : s.headers) if (lower(h.first) == "set-cookie") ca.push_back(h.second); for (auto& h : r.headers) if (lower(h.first) == "set-cookie") cb.push_back(h.second); if (ca != cb) c.fail("set-cookie", num(int(ca.size())) + " Set-Cookie headers sent, " + num(int(cb.size())) + " received or changed" + (cb.empty() ? BA() : ": " + show(cb[0])));
	if (r.value("X-Resp") != num(id)) c.fail("mixed-up", "response " + r.value("X-Resp") + " for request " + num(id));
}
static void judgeRequest(Ctx& c, const Req& q, const BA& uri, const RawReq& u)
{
	if (u.method != q.method) c.fail("method", show(q.method) + " became " + show(u.method));
	if (canon(u.target) != canon(uri)) c.fail("target", show(uri) + " became " + show(u.target));
	if (u.content != q.content) c.fail("request-content", diffText(q.content, u.content));
	std::map<BA,BA> a, b; for (auto& h : q.headers) if (!hop(h.first)) { BA& v = a[lower(h.first)]; v += (v.isEmpty() ? "" : lower(h.first) == "cookie" ? "; " : ", ") + h.second; } for (auto& h : u.headers) if (!hop(h.first)) { BA& v = b[lower(h.first)]; v += (v.isEmpty() ? "" : ", ") + h.second; }
	for (auto& x : a) if (!b.count(x.first)) c.fail("request-header-lost", x.first + ": " + show(x.second)); else if (b[x.first] != x.second) c.fail("request-header-changed", x.first + ": " + show(x.second) + " became " + show(b[x.first]));
	for (auto& x : b) if (!a.count(x.first) && x.first != "host" && x.first != "accept-encoding" && x.first != "accept-language" && x.first != "user-agent") c.fail("request-header-added", x.first + ": " + show(x.second));
}
static Req genProxied(Rng& r, int id)
{
	static const char* ms[] = {"GET", "GET", "GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "$WEIRD-1"}; Req q; q.method = ms[r.below(10)]; { BA path = "/" + genUrlPart(r, r.size(60), false); QList<BA> seg = path.mid(1).split('/'); q.uri = BA(); for (int i = 0; i < seg.size(); ++i) { BA d = BA::fromPercentEncoding(seg[i]); if (d.startsWith(".") || (d.isEmpty() && i + 1 < seg.size())) seg[i] = "x" + seg[i]; q.uri += "/" + seg[i]; } } // dot segments and "//" are normalized by Qt
	if (r.chance(50)) q.uri += "?" + genUrlPart(r, r.size(80), true);
	if (r.chance(10)) q.fragment = "frag"; if (r.chance(15)) q.version = "HTTP/1.0"; q.add("X-Id", num(id)); if (r.chance(80)) q.add("Host", "example.com:80");
	static const char* hs[] = {"Accept", "Accept-Language", "User-Agent", "Cookie", "Referer", "X-Custom", "x-custom", "Authorization", "If-None-Match", "Content-Type", "Accept-Encoding", "X-Empty", "Cache-Control", "Range", "Via", "cookie", "COOKIE"}; std::set<BA> used; // several cookie headers, too
	int n = r.below(8); while (n--) { BA nm = hs[r.below(17)]; bool multi = lower(nm) == "x-custom" || lower(nm) == "cookie" || nm == "Accept" || nm == "Via" || nm == "Cache-Control"; if (!multi && !used.insert(nm).second) continue; BA v = nm == "Accept-Encoding" ? BA(r.chance(50) ? "gzip" : "identity") : lower(nm) == "cookie" ? "a" + num(n) + "=b; c=" + num(id) : nm == "Range" ? BA("bytes=0-100") : nm == "X-Empty" ? BA() : r.str("abc019 ;,=\"/()\xe9", r.range(1, 50)).trimmed(); if (v.isEmpty() && nm != "X-Empty") v = "v"; q.add(nm, v); }
	if (q.method != "HEAD" && r.chance(q.method == "GET" ? 5 : 60)) { q.content = r.bytes(r.size(r.chance(10) ? 200000 : 3000)); q.add("Content-Length", num(q.content.size())); } else if (q.method == "POST" || q.method == "PUT") q.add("Content-Length", "0");
	if (r.chance(10)) q.add("Connection", "keep-alive"); return q;
}

FAMILY(C20, relay, 2400, 8000)
{
	World w(c, c.rng.chance(85) ? TCP : LOCAL); int n = c.rng.range(1, 6); std::vector<Req> qs; std::vector<Script> ss; std::vector<BA> methods; bool pipe = c.rng.chance(30); std::vector<std::vector<BA> > pieces; std::vector<int> sawn(n, 0);
	for (int i = 0; i < n; ++i) { qs.push_back(genProxied(c.rng, i)); if (pipe && qs.back().version == "HTTP/1.0") qs.back().version = "HTTP/1.1"; ss.push_back(genScript(c.rng, qs.back().method == "HEAD", i, c.rng.chance(10) ? 300000 : 4000)); if (pipe) while (ss.back().framing == Script::CLOSE || ss.back().framing == Script::NONE || ss.back().wire.contains("close") || ss.back().version == "HTTP/1.0") ss.back() = genScript(c.rng, qs.back().method == "HEAD", i, 4000); pieces.push_back(split(c.rng, ss.back().wire)); if (pieces.back().size() > 60) pieces.back() = std::vector<BA>(1, ss.back().wire); methods.push_back(qs.back().method); }
	bool fins = false; for (int i = 0; i < n; ++i) if (ss[i].framing == Script::CLOSE || ss[i].version == "HTTP/1.0") fins = true; // Qt sends a request again if its connection closes at the wrong moment
	w.up.onRequest = [&](Upstream::C& k, const RawReq& u) {
		int id = u.value("X-Id").toInt(); if (id < 0 || id >= n) { c.fail("unknown-request", show(u.raw, 200)); return; } if (sawn[id]++) { c.count("repeated"); if (!fins) c.fail("request-repeated", "request " + num(id) + " arrived again upstream"); }
		judgeRequest(c, qs[id], qs[id].uri, u); c.count("upstream_requests"); bool fin = ss[id].framing == Script::CLOSE || ss[id].version == "HTTP/1.0"; w.up.reply(k, pieces[id], fin ? Upstream::FIN : Upstream::KEEP);
	};
	c.note = num(n) + (pipe ? " pipelined" : " successive") + " requests:"; for (int i = 0; i < n; ++i) c.note += " [" + qs[i].method + " " + show(qs[i].uri, 60) + " " + num(qs[i].content.size()) + "B " + qs[i].version + " -> " + ss[i].version + " " + num(ss[i].status) + " framing " + num(ss[i].framing) + " " + num(ss[i].content.size()) + "B in " + num(int(pieces[i].size())) + "]"; c.sample(c.note);
	int done = 0;
	while (done < n && c.ok())
	{
		w.cl.clear(); w.cl.emplace_back(new Cli()); Cli& x = *w.cl.back(); if (!x.connect(w.srv)) { c.stall("connect", ""); return; } int first = done;
		if (pipe) { BA all; for (int i = done; i < n; ++i) all += qs[i].wire(); x.send(all); }
		while (done < n && c.ok())
		{
			if (!pipe) x.send(qs[done].wire()); std::vector<Resp> rs; BA err; int k = done - first;
			bool ok = w.wait([&]() { rs.clear(); err = parseStream(x.in, std::vector<BA>(methods.begin() + first, methods.end()), x.eof, rs); return !err.isEmpty() || x.eof || (int(rs.size()) > k && rs[k].complete); });
			if (!err.isEmpty()) { c.fail("client-stream", "request " + num(done) + ": " + err + " in " + show(x.in.right(400), 400)); return; }
			if (fins && (*w.reported)[done] == -1 && (x.eof || int(rs.size()) > k) && (int(rs.size()) <= k || !rs[k].complete || (rs[k].status == 503 && rs[k].value("X-Resp").isEmpty()))) { c.count("transport_trouble"); ++done; break; } // Qt may take a response ended by closing for a failed one
			if (int(rs.size()) <= k || !rs[k].complete) { if (x.eof) c.fail("incomplete-response", "request " + num(done) + (ok ? ", connection closed after " : ", after ") + show(x.in.right(300), 300)); else c.stall("no-response", "request " + num(done) + " of " + num(n) + ", upstream saw it " + num(sawn[done]) + " times, client got " + show(x.in.right(300), 300)); return; }
			Resp& r = rs[k]; judgeResponse(c, ss[done], r, done); if (sawn[done] < 1 || (sawn[done] > 1 && !fins)) c.fail("upstream-count", "request " + num(done) + " arrived " + num(sawn[done]) + " times"); c.count("relayed"); c.count("relayed_bytes", r.content.size()); c.distinct(fnv(ss[done].wire.left(200)) ^ fnv(qs[done].head()));
			bool closing = r.untilClose || lower(r.value("Connection")) == "close" || (r.version == "HTTP/1.0" && lower(r.value("Connection")) != "keep-alive"); ++done;
			if (closing) { if (!w.wait([&]() { return x.eof; })) { c.stall("not-closed", "response " + num(done - 1) + " announces close"); return; } break; }
		}
	}
	if (!w.up.error.isEmpty()) c.fail("upstream-got-garbage", w.up.error);
	if (c.ok() && !w.wait([&]() { return w.replies() == 0; }, 4000)) c.stall("replies-remain-connected", num(w.replies()) + " proxied replies still exist after all exchanges while the client stays connected");
	w.cl.clear(); if (!w.wait([&]() { return w.replies() == 0; }, 4000)) c.stall("replies-remain", num(w.replies()) + " proxied replies still exist after all exchanges");
}

// Handlers derived from it: what they override is used for every exchange, in order and completely.
struct Ext { Ctx& c; int mask; bool rewrite; std::map<int, BA> pumped; std::map<int, int> headerCalls, replies, pipes, piecesOf; bool drop; Ext(Ctx& c_) : c(c_), mask(0), rewrite(false), drop(false) {} };
class ExtPipe : public Pillow::HttpHandlerProxyPipe { public: Ext& e; int id; int expected; ExtPipe(Ext& e_, int id_, Conn* q, QNetworkReply* r) : Pillow::HttpHandlerProxyPipe(q, r), e(e_), id(id_), expected(0) {} protected:
	void sendHeaders() { ++e.headerCalls[id]; bool before = _headersSent; Pillow::HttpHandlerProxyPipe::sendHeaders(); if (!before && !_broken && !_headersSent) e.c.fail("headers-not-sent", e.c.note); }
	void pump(const QByteArray& d) { if (!e.headerCalls[id]) e.c.fail("pumped-before-headers", e.c.note); e.pumped[id] += d; ++e.piecesOf[id]; BA x = d; for (int i = 0; i < x.size(); ++i) x.data()[i] = x.at(i) ^ e.mask; Pillow::HttpHandlerProxyPipe::pump(x); } };
class ExtProxy : public Pillow::HttpHandlerProxy { public: Ext& e; ExtProxy(Ext& e_, const QUrl& u) : Pillow::HttpHandlerProxy(u), e(e_) {} protected:
	QNetworkReply* createProxiedReply(Conn* q, QNetworkRequest r) { int id = q->requestHeaderValue("X-Id").toInt(); ++e.replies[id]; if (r.rawHeader("X-Id").toInt() != id) e.c.fail("request-argument", e.c.note + ": the request for the manager lacks the headers of the client's"); r.setRawHeader("X-Added", "a" + num(id)); if (e.rewrite) { QUrl u = r.url(); u.setPath("/mapped" + u.path(QUrl::FullyEncoded), QUrl::TolerantMode); r.setUrl(u); } return Pillow::HttpHandlerProxy::createProxiedReply(q, r); }
	Pillow::HttpHandlerProxyPipe* createPipe(Conn* q, QNetworkReply* r) { int id = q->requestHeaderValue("X-Id").toInt(); ++e.pipes[id]; ExtPipe* p = new ExtPipe(e, id, q, r); if (p->request() != q || p->proxiedReply() != r) e.c.fail("pipe-accessor", e.c.note); return p; } };
FAMILY(C20, extended, 500, 12000)
{
	Rng& r = c.rng; World w(c); Ext e(c); e.mask = r.chance(50) ? 0 : 0x20; e.rewrite = r.chance(40); w.proxy.reset(new ExtProxy(e, QUrl(w.up.url()))); int n = r.range(1, 5); std::vector<Req> qs; std::vector<Script> ss; std::vector<std::vector<BA> > pieces; std::vector<int> sawn(n, 0); c.note = BA(e.rewrite ? "rewriting " : "") + "mask " + num(e.mask) + ":";
	for (int i = 0; i < n; ++i) { qs.push_back(genProxied(r, i)); do ss.push_back(genScript(r, qs.back().method == "HEAD", i, 4000)), pieces.push_back(split(r, ss.back().wire)); while (ss.back().framing == Script::CLOSE || ss.back().version == "HTTP/1.0" ? (ss.pop_back(), pieces.pop_back(), true) : false); if (pieces.back().size() > 60) pieces.back() = std::vector<BA>(1, ss.back().wire); c.note += " [" + qs[i].method + " " + show(qs[i].uri, 60) + " -> " + num(ss[i].status) + " framing " + num(ss[i].framing) + " " + num(ss[i].content.size()) + "B in " + num(int(pieces[i].size())) + "]"; } c.sample(c.note);
	w.up.onRequest = [&](Upstream::C& k, const RawReq& u) { int id = u.value("X-Id").toInt(); if (id < 0 || id >= n) { c.fail("unknown-request", show(u.raw, 200)); return; } ++sawn[id]; if (u.value("X-Added") != "a" + num(id)) c.fail("override-ignored", c.note + ": the header added to the request did not arrive"); RawReq v = u; for (size_t i = 0; i < v.headers.size(); ++i) if (lower(v.headers[i].first) == "x-added") { v.headers.erase(v.headers.begin() + i); break; } judgeRequest(c, qs[id], e.rewrite ? "/mapped" + qs[id].uri : qs[id].uri, v); w.up.reply(k, pieces[id], Upstream::KEEP); };
	for (int i = 0; i < n && c.ok(); ++i)
	{
		if (w.cl.empty() || w.cl.back()->eof) { w.cl.clear(); w.cl.emplace_back(new Cli()); if (!w.cl.back()->connect(w.srv)) { c.stall("connect", ""); return; } } Cli& x = *w.cl.back(); x.in.clear(); x.send(qs[i].wire()); std::vector<Resp> rs; BA err;
		w.wait([&]() { rs.clear(); err = parseStream(x.in, std::vector<BA>(1, qs[i].method), x.eof, rs); return !err.isEmpty() || x.eof || (rs.size() && rs[0].complete); }); if (!err.isEmpty()) { c.fail("client-stream", err + " in " + show(x.in, 300)); return; } if (rs.empty() || !rs[0].complete) { if (x.eof) c.fail("incomplete-response", c.note + ": request " + num(i) + ": " + show(x.in.right(300), 300)); else c.stall("no-response", c.note + ": request " + num(i)); return; }
		if (e.mask) for (int k = 0; k < rs[0].content.size(); ++k) rs[0].content.data()[k] = rs[0].content.at(k) ^ e.mask; judgeResponse(c, ss[i], rs[0], i); BA want = ss[i].noBody() ? BA() : ss[i].content; if (e.pumped[i] != want) c.fail("pumped", c.note + ": request " + num(i) + ": " + diffText(want, e.pumped[i])); if (e.replies[i] != 1 || e.pipes[i] != 1) c.fail("override-calls", c.note + ": request " + num(i) + ": createProxiedReply " + num(e.replies[i]) + " times, createPipe " + num(e.pipes[i])); if (!e.headerCalls[i]) c.fail("override-calls", c.note + ": sendHeaders was not called"); c.count("exchanges"); c.count("pumped_pieces", e.piecesOf[i]);
		bool closing = rs[0].untilClose || lower(rs[0].value("Connection")) == "close" || (rs[0].version == "HTTP/1.0" && lower(rs[0].value("Connection")) != "keep-alive"); if (closing) { if (!w.wait([&]() { return x.eof; })) { c.stall("not-closed", c.note); return; } }
	}
	if (c.ok() && !w.wait([&]() { return w.replies() == 0; }, 4000)) c.stall("replies-remain-connected", c.note); if (c.ok()) c.distinct(fnv(c.note)); w.cl.clear(); spin(); w.proxy.reset();
}


// ================================================================ C21
enum { REFUSED, SILENT_CLOSE, MID_HEAD, GARBAGE, RESET_BEFORE, MID_BODY, MID_BODY_RESET, EXCESS, FINE, NKIND };
static const char* const KIND[] = {"refused", "closed-at-once", "closed-in-head", "garbage", "reset-at-once", "closed-in-body", "reset-in-body", "excess", "fine"};
// The upstream side of one exchange of the given kind: what is sent, and how the connection ends.
static std::vector<BA> failPieces(Rng& r, const Script& s, int kind, int& end, int& cut)
{
	end = Upstream::FIN; BA w = s.wire; cut = 0;
	switch (kind)
	{
	case SILENT_CLOSE: w.clear(); break; case RESET_BEFORE: w.clear(); end = Upstream::RST; break;
	case MID_HEAD: w = w.left(r.range(1, s.headEnd - 1)); if (r.chance(30)) end = Upstream::RST; break;
	case GARBAGE: { static const char* g[] = {"FDSPIFUDSAFIUDUSAF DSFIASDUF DIFUSADIFU ASDFDSIF\r\n\r\n", "HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03 binary rubbish in here...", "<html>hello</html>\r\n\r\n"}; w = g[r.below(5)]; break; }
	case MID_BODY: case MID_BODY_RESET: cut = s.framing == Script::CHUNKED ? s.cuts[r.below(int(s.cuts.size()))] : r.below(w.size() - s.headEnd); /* Qt's access manager never reports a close inside a chunk size line */ w = w.left(s.headEnd + cut); if (kind == MID_BODY_RESET) end = Upstream::RST; break;
	case EXCESS: w += r.str("xyz\r\n ", r.range(1, 300)); break;
	default: end = s.framing == Script::CLOSE || s.version == "HTTP/1.0" ? Upstream::FIN : Upstream::KEEP;
	}
	std::vector<BA> v; if (w.isEmpty()) return v; v = split(r, w); if (v.size() > 40) v = std::vector<BA>(1, w); return v;
}
static Script genFailScript(Rng& r, int id, int kind, bool head, int maxBody)
{
	for (;;) { Script s = genScript(r, head, id, maxBody); if ((kind == MID_BODY || kind == MID_BODY_RESET) && (s.noBody() || s.framing == Script::CLOSE || s.framing == Script::NONE || s.content.isEmpty() || s.version == "HTTP/1.0")) continue; if (kind == EXCESS && (s.framing != Script::LENGTH || s.noBody() || s.status >= 400)) continue; return s; }
}
// How the exchange ended for the client. Empty if that is acceptable.
static BA judgeFailure(Ctx& c, int kind, const Script& s, const Req& q, const std::vector<Resp>& rs, int k, bool eof, int id, int reported)
{
	bool complete = int(rs.size()) > k && rs[k].complete;
	if (kind <= RESET_BEFORE) { if (!complete) return "no complete answer"; if (rs[k].status != 503) return "expected 503, got " + num(rs[k].status); return BA(); }
	if (kind == MID_BODY || kind == MID_BODY_RESET)
	{
		if (int(rs.size()) <= k) return eof ? BA() : BA("no answer and connection open");
		const Resp& r = rs[k]; if (r.status == 503 && complete && r.value("X-Resp").isEmpty()) return BA(); // nothing had been relayed yet
		if (complete && reported == 1 && s.framing == Script::CHUNKED && s.content.startsWith(r.content)) { c.count("taken_for_complete"); return BA(); } // Qt may report a chunked response that breaks off between chunks as complete
		if (complete && !r.untilClose) return "the response looks complete (" + num(r.content.size()) + " of " + num(s.content.size()) + " bytes)";
		if (!eof) return "connection still open"; if (!s.content.startsWith(r.content)) return "content differs: " + diffText(s.content, r.content); return BA();
	}
	if (reported == -1 && (!complete || (rs[k].status == 503 && rs[k].value("X-Resp").isEmpty()))) { c.count("transport_trouble"); return complete || eof ? BA() : BA("transfer failed, connection still open"); } // Qt may take a response ended by closing for a failed one
	if (!complete) return "no complete response"; judgeResponse(c, s, rs[k], id); (void)q; return BA();
}

FAMILY(C21, failures, 2000, 8000)
{
	World w(c, c.rng.chance(85) ? TCP : LOCAL); int n = c.rng.range(1, 5); std::vector<Req> qs; std::vector<Script> ss; std::vector<int> kinds, cuts(n, 0); std::vector<std::vector<BA> > pieces(n); std::vector<int> ends(n, 0); c.note = "";
	for (int i = 0; i < n; ++i) { qs.push_back(genProxied(c.rng, i)); kinds.push_back(c.rng.below(NKIND)); if (kinds[i] == EXCESS && i + 1 < n) kinds[i] = FINE; /* excess bytes may legitimately spoil the next exchange on that upstream connection */ if (kinds[i] >= MID_BODY && kinds[i] <= EXCESS && qs[i].method == "HEAD") qs[i].method = "GET"; ss.push_back(genFailScript(c.rng, i, kinds[i], qs[i].method == "HEAD", c.rng.chance(10) ? 300000 : 4000)); pieces[i] = failPieces(c.rng, ss[i], kinds[i], ends[i], cuts[i]); c.note += BA(i ? ", " : "") + qs[i].method + " " + qs[i].version + " " + KIND[kinds[i]] + " (" + num(ss[i].status) + " framing " + num(ss[i].framing) + ", " + num(cuts[i]) + " of " + num(ss[i].wire.size() - ss[i].headEnd) + " body bytes)"; }
	c.sample(c.note); QUrl dead; { Listener l; dead = QUrl(QString("http://%1:%2").arg(QString::fromLatin1(l.host)).arg(l.port)); }
	w.up.onRequest = [&](Upstream::C& k, const RawReq& u) { int id = u.value("X-Id").toInt(); if (id < 0 || id >= n) { c.fail("unknown-request", show(u.raw, 200)); return; } c.count("upstream_requests"); w.up.reply(k, pieces[id], ends[id]); };
	int done = 0;
	while (done < n && c.ok())
	{
		w.cl.clear(); w.cl.emplace_back(new Cli()); Cli& x = *w.cl.back(); if (!x.connect(w.srv)) { c.stall("connect", ""); return; } int first = done; std::vector<BA> methods; for (int i = first; i < n; ++i) methods.push_back(qs[i].method);
		while (done < n && c.ok())
		{
			w.proxy->setProxiedUrl(kinds[done] == REFUSED ? dead : QUrl(w.up.url())); x.send(qs[done].wire()); std::vector<Resp> rs; BA err; int k = done - first;
			bool ok = w.wait([&]() { rs.clear(); err = parseStream(x.in, methods, x.eof, rs); return !err.isEmpty() || x.eof || (int(rs.size()) > k && rs[k].complete); });
			if (!err.isEmpty()) { c.fail("client-stream", "request " + num(done) + ": " + err + " in " + show(x.in.right(400), 400)); return; }
			if (!ok) { c.stall(BA("no-answer:") + KIND[kinds[done]], "request " + num(done) + ", client got " + show(x.in.right(200), 200)); return; }
			BA e = judgeFailure(c, kinds[done], ss[done], qs[done], rs, k, x.eof, done, (*w.reported)[done]); if (!e.isEmpty()) { c.fail(BA("outcome:") + KIND[kinds[done]], "request " + num(done) + ": " + e + "; client got " + show(x.in.right(300), 300)); return; }
			c.count("exchanges"); c.count(KIND[kinds[done]]); c.distinct(fnv(ss[done].wire.left(200)) * 31 + kinds[done] * 7 + cuts[done]); ++done; if (x.eof) break; const Resp& r = rs[k];
			bool closing = r.untilClose || lower(r.value("Connection")) == "close" || (r.version == "HTTP/1.0" && lower(r.value("Connection")) != "keep-alive"); if (closing) { if (!w.wait([&]() { return x.eof; })) { c.stall("not-closed", "response " + num(done - 1) + " announces close"); return; } break; }
		}
	}
	w.cl.clear(); if (!w.wait([&]() { return w.replies() == 0; }, 4000)) c.stall("replies-remain", num(w.replies()) + " proxied replies still exist after all exchanges");
}

// Many clients at once; some go away at any time; the upstream holds its answers for a while, fails some, and answers out of order.
FAMILY(C21, concurrent, 500, 2500)
{
	World w(c, c.rng.chance(85) ? TCP : LOCAL); int n = c.rng.chance(30) ? c.rng.range(12, 40) : c.rng.range(2, 12); struct X { Req q; Script s; int kind, end, cut; std::vector<BA> pieces; Cli* cl; bool gone, judged; int arrived; }; std::vector<X> xs(n); bool hold = c.rng.chance(50), clean = c.rng.chance(40); int goners = 0;
	for (int i = 0; i < n; ++i) { X& x = xs[i]; x.q = genProxied(c.rng, i); x.kind = clean || c.rng.chance(50) ? int(FINE) : c.rng.range(SILENT_CLOSE, FINE); if (x.kind == EXCESS) x.kind = FINE; /* excess bytes spoil whatever exchange Qt starts next on that connection, legitimately */ if (x.kind >= MID_BODY && x.kind <= EXCESS && x.q.method == "HEAD") x.q.method = "GET"; x.s = genFailScript(c.rng, i, x.kind, x.q.method == "HEAD", c.rng.chance(10) ? 300000 : 5000); x.pieces = failPieces(c.rng, x.s, x.kind, x.end, x.cut); x.cl = 0; x.gone = x.judged = false; x.arrived = 0; }
	std::vector<std::pair<int,int> > held; int arrivals = 0; bool release = !hold;
	w.up.onRequest = [&](Upstream::C& k, const RawReq& u) { int id = u.value("X-Id").toInt(); if (id < 0 || id >= n) { c.fail("unknown-request", show(u.raw, 200)); return; } if (!xs[id].arrived++) ++arrivals; if (xs[id].kind == FINE) { if (xs[id].arrived > 1) c.count("repeated"); judgeRequest(c, xs[id].q, xs[id].q.uri, u); } if (release) w.up.reply(k, xs[id].pieces, xs[id].end); else held.push_back(std::make_pair(k.id, id)); };
	c.note = num(n) + " concurrent requests" + (hold ? ", held until all arrived" : "") + (clean ? "" : ", some failing"); c.sample(c.note);
	for (int i = 0; i < n; ++i) { w.cl.emplace_back(new Cli()); xs[i].cl = w.cl.back().get(); if (!xs[i].cl->connect(w.srv)) { c.stall("connect", ""); return; } xs[i].cl->send(xs[i].q.wire()); if (c.rng.chance(30)) { spin(); w.poll(); } }
	if (hold) { if (!w.wait([&]() { return arrivals == n; })) { c.stall("requests-not-concurrent", "only " + num(arrivals) + " of " + num(n) + " requests reached the upstream while none was answered"); return; } c.count("held", n); }
	int leave = c.rng.chance(60) ? c.rng.below(n / 2 + 1) : 0;
	auto drop = [&]() { X& x = xs[c.rng.below(n)]; if (x.gone || x.judged) return; x.gone = true; if (c.rng.chance(50)) x.cl->reset(); else x.cl->shut(); ++goners; };
	for (int i = 0; i < leave / 2; ++i) drop();
	while (!held.empty()) { int k = c.rng.below(int(held.size())); Upstream::C* u = w.up.conn(held[k].first); if (u) w.up.reply(*u, xs[held[k].second].pieces, xs[held[k].second].end); held.erase(held.begin() + k); if (c.rng.chance(50)) { spin(); w.poll(); } }
	release = true; int todo = leave - leave / 2; int tick = 0;
	bool early = c.rng.chance(15); // stop in the middle: everything is destroyed with exchanges in flight
	bool ok = w.wait([&]() {
		if (todo > 0 && ++tick % 3 == 0) { --todo; drop(); } if (early && tick++ > 6) return true;
		bool all = true; for (int i = 0; i < n; ++i) { X& x = xs[i]; if (x.gone || x.judged) continue; std::vector<Resp> rs; BA err = parseStream(x.cl->in, std::vector<BA>(1, x.q.method), x.cl->eof, rs); if (!err.isEmpty()) { c.fail("client-stream", err + " in " + show(x.cl->in.right(300), 300)); return true; } if (x.cl->eof || (!rs.empty() && rs[0].complete)) { x.judged = true; c.note = num(n) + " concurrent requests" + (hold ? ", held" : "") + "; request " + num(i) + " arrived " + num(x.arrived) + " times, " + x.q.method + " " + num(x.q.content.size()) + " bytes"; if (!clean && x.kind == FINE && !x.arrived && !rs.empty() && rs[0].status == 503) { /* put on a connection that another, failing exchange spoilt: the upstream never saw it */ c.count("spoilt"); continue; }
			BA e = judgeFailure(c, x.kind, x.s, x.q, rs, 0, x.cl->eof, i, (*w.reported)[i]); if (!e.isEmpty()) c.fail(BA("outcome:") + KIND[x.kind], "request " + num(i) + ": " + e + "; client got " + show(x.cl->in.right(300), 300)); c.count("exchanges"); c.count(KIND[x.kind]); } else all = false; } return all; }, 12000);
	if (!ok) { BA d; for (int i = 0; i < n; ++i) if (!xs[i].gone && !xs[i].judged) d += " " + num(i) + "(" + KIND[xs[i].kind] + ", arrived " + num(xs[i].arrived) + ", got " + num(xs[i].cl->in.size()) + ")"; c.stall("no-answer:concurrent", "clients without an answer:" + d); return; }
	c.count("left", goners); c.distinct(uint64_t(n) * 1000003 + goners * 101 + fnv(xs[0].s.wire.left(100)));
	if (early) { c.count("destroyed_in_flight"); if (c.rng.chance(50)) { w.srv.onReady = 0; delete w.srv.tcp; delete w.srv.loc; w.srv.tcp = 0; w.srv.loc = 0; } return; }
	w.cl.clear(); if (!w.wait([&]() { return w.replies() == 0; }, 6000)) c.stall("replies-remain", num(w.replies()) + " proxied replies still exist after all exchanges");
}
