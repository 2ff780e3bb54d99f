// HTTP client checks: C23-C29, C31, C35.
#include "client.h"


// ================================================================ C23

// The request writer on a plain device: several requests, read back as one stream.
FAMILY(C23, writer, 6000, 60000)
{
	SimDevice d; Pillow::HttpRequestWriter w; w.setDevice(&d); int n = c.rng.range(1, 6); c.note = num(n) + " requests"; BA all; std::vector<BA> kept;
	for (int i = 0; i < n && c.ok(); ++i)
	{
		BA m = genMethod(c.rng), path = cleanPath(c.rng, c.rng.size(c.rng.chance(5) ? 20000 : 100)), data = dataOf(c.rng, i); if (c.rng.chance(40)) path += "?" + cleanQuery(c.rng, c.rng.size(60)); Pairs hs; genHeaders(c.rng, hs, i); Headers h = collection(hs); int before = d.tx.size(); BA dataWas = deep(data); // the given data must not change either
		if (m == "GET" && data.isEmpty()) w.get(path, h); else if (m == "HEAD" && data.isEmpty()) w.head(path, h); else if (m == "POST") w.post(path, h, data); else if (m == "PUT") w.put(path, h, data); else if (m == "DELETE" && data.isEmpty()) w.deleteResource(path, h); else w.write(m, path, h, data);
		kept.push_back(data); c.note += "; " + m + " " + num(path.size()) + "B path, " + num(int(hs.size())) + " headers, " + num(data.size()) + "B data"; c.distinct(fnv(d.tx.mid(before).left(500)));
		RawReq q; int used = 0; BA why; int k = parseRawRequest(d.tx.mid(before), q, used, &why); if (k < 0) { c.fail("malformed", why); break; } if (k == 0) { c.fail("incomplete", "the written request is incomplete: " + show(d.tx.mid(before), 300)); break; } if (used != d.tx.size() - before) c.fail("trailing-bytes", num(d.tx.size() - before - used) + " bytes after the request: " + show(d.tx.mid(before + used), 100));
		if (q.method != m) c.fail("method", show(m) + " became " + show(q.method)); if (q.target != path) c.fail("path", diffText(path, q.target)); if (q.version != "HTTP/1.1") c.fail("version", q.version); if (q.content != dataWas || data != dataWas) c.fail("data", diffText(dataWas, q.content));
		Pairs want = hs; if (!dataWas.isEmpty()) want.push_back(std::make_pair(BA("Content-Length"), num(dataWas.size()))); Pairs got = q.headers; if (!dataWas.isEmpty()) { size_t at = got.size(); for (size_t j = 0; j < got.size(); ++j) if (lower(got[j].first) == "content-length") at = j; if (at == got.size()) c.fail("length-missing", "no Content-Length for " + num(dataWas.size()) + " bytes"); else { Pairs t = got; t.erase(t.begin() + at); got = t; want.pop_back(); } } BA e = diffPairs(want, got); if (!e.isEmpty()) c.fail("headers", e);
		if (pairsOf(h) != hs) c.fail("headers-modified", "the given collection was modified"); c.count("requests"); c.count("bytes", used);
	}
	c.sample(c.note);
}


// The client against a raw server: what arrives is exactly what was asked for, request after request.
FAMILY(C23, requests, 2500, 20000)
{
	int ns = c.rng.range(1, 3); Net net(c, ns, true); Client cl; Mon m(c, &cl); int n = c.rng.range(1, 6); c.note = num(n) + " requests"; bool ka = c.rng.chance(80); if (!ka) cl.setKeepAliveTimeout(0);
	for (int i = 0; i < n && c.ok(); ++i)
	{
		Upstream& u = *net.up[c.rng.below(ns)]; BA meth = genMethod(c.rng), path = cleanPath(c.rng, c.rng.size(c.rng.chance(5) ? 9000 : 100)), query, data = meth == "HEAD" ? BA() : dataOf(c.rng, i); if (c.rng.chance(40)) query = cleanQuery(c.rng, c.rng.range(1, 60)); Pairs hs; genHeaders(c.rng, hs, i); bool noPath = c.rng.chance(5); if (noPath) path = ""; BA frag = c.rng.chance(10) ? BA("#frag") : BA(); bool user = c.rng.chance(5);
		QString base = u.url(); if (user) base.replace("http://", "http://user@"); QUrl url = urlOf(base, path + (query.isEmpty() ? BA() : "?" + query) + frag); BA target = (noPath ? BA("/") : path) + (query.isEmpty() ? BA() : "?" + query);
		std::vector<RawReq> got; u.onRequest = [&](Upstream::C& k, const RawReq& q) { got.push_back(q); u.reply(k, std::vector<BA>(1, "HTTP/1.1 200 OK\r\nContent-Length: " + BA(meth == "HEAD" ? "5" : "0") + "\r\n\r\n"), Upstream::KEEP); };
		m.begin(); Headers h = collection(hs); if (meth == "GET" && data.isEmpty()) cl.get(url, h); else if (meth == "HEAD") cl.head(url, h); else if (meth == "POST") cl.post(url, h, data); else if (meth == "PUT") cl.put(url, h, data); else if (meth == "DELETE" && data.isEmpty()) cl.deleteResource(url, h); else cl.request(meth, url, h, data);
		c.note += "; " + meth + " " + show(target, 60) + " with " + num(int(hs.size())) + " headers and " + num(data.size()) + "B";
		if (!net.wait([&]() { return m.nFinished > 0 || !u.error.isEmpty(); })) { c.stall("no-response", "request " + num(i) + ", server parsed " + num(int(got.size())) + " requests"); return; }
		if (!u.error.isEmpty()) { c.fail("malformed", u.error); return; } if (m.error != Client::NoError) { c.fail("error", "request " + num(i) + " failed with " + errName(m.error)); return; } if (got.size() != 1) { c.fail("request-count", num(int(got.size())) + " requests arrived instead of 1"); return; }
		RawReq& q = got[0]; if (q.method != meth) c.fail("method", show(meth) + " became " + show(q.method)); if (q.target != target) c.fail("target", show(target) + " became " + show(q.target)); if (q.version != "HTTP/1.1") c.fail("version", q.version); if (q.content != data) c.fail("data", diffText(data, q.content));
		BA host = u.l.host + (u.l.port == 80 ? BA() : ":" + num(u.l.port)); if (q.countOf("Host") != 1 || q.value("Host") != host) c.fail("host", "Host is " + show(q.value("Host")) + " (" + num(q.countOf("Host")) + " of them) for " + host);
		Pairs rest; int nl = 0; for (auto& x : q.headers) { BA l = lower(x.first); if (l == "content-length") ++nl; else if (l != "host") rest.push_back(x); } BA e = diffPairs(hs, rest); if (!e.isEmpty()) c.fail("headers", e); if (nl != (data.isEmpty() ? nl > 1 ? -1 : nl : 1)) c.fail("length-header", num(nl) + " Content-Length headers for " + num(data.size()) + " bytes");
		c.count("requests"); c.count("bytes", q.raw.size()); c.distinct(fnv(q.raw.left(400)));
	}
	c.sample(c.note); net.settle(2); for (auto& u : net.up) for (auto& k : u->cs) if (!k->buf.isEmpty()) c.fail("trailing-bytes", "unexpected bytes after the last request: " + show(k->buf, 100));
}

// Hosts and ports as they appear in the Host header: default port and IPv6.
// The default port, written out or left out, and addresses in brackets: one host, one connection.
static void samePort(Ctx& c)
{
	bool six = c.index % 2; int fd = ::socket(six ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); if (fd < 0) { c.count("skipped"); return; } int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); quint16 port = 0; BA host; bool okay;
	if (six) { struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; if (c.rng.chance(50)) a.sin6_port = htons(80); okay = ::bind(fd, (struct sockaddr*)&a, sizeof a) == 0 && ::listen(fd, 5) == 0; socklen_t l = sizeof a; if (okay) getsockname(fd, (struct sockaddr*)&a, &l); port = ntohs(a.sin6_port); host = "[::1]"; }
	else { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; BA ip = "127." + num(c.rng.range(1, 254)) + "." + num(c.rng.range(0, 255)) + "." + num(c.rng.range(1, 254)); inet_pton(AF_INET, ip.constData(), &a.sin_addr); a.sin_port = htons(80); okay = ::bind(fd, (struct sockaddr*)&a, sizeof a) == 0 && ::listen(fd, 5) == 0; port = 80; host = ip; }
	if (!okay) { ::close(fd); c.count("skipped"); return; }
	BA hostport = host + (port == 80 ? BA() : ":" + num(port)); bool spelled = !six && c.rng.chance(50); c.note = "http://" + hostport + (spelled ? ":80" : "") + "/x"; c.sample(c.note); Client cl; Mon m(c, &cl); int accepted = 0; std::unique_ptr<Peer> p; RawReq q; bool got = false; int served = 0;
	auto poller = [&]() { int f = ::accept(fd, 0, 0); if (f >= 0) { ++accepted; p.reset(new Peer()); p->adopt(f); } if (p) { p->poll(); int used = 0; if (parseRawRequest(p->in, q, used) > 0) { p->in.remove(0, used); got = true; ++served; p->send("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); } } };
	for (int i = 0; i < 2 && c.ok(); ++i)
	{
		got = false; m.begin(); cl.get(QUrl::fromEncoded("http://" + hostport + ((i == 1) != spelled && !six ? ":80" : "") + "/x")); if (!waitFor(c, [&]() { return m.nFinished > 0; }, poller)) { c.stall("no-response", "nothing finished"); break; } if (m.error != Client::NoError) { c.fail("error", BA("request failed with ") + errName(m.error)); break; }
		if (q.value("Host") != hostport) c.fail("host", "Host is " + show(q.value("Host")) + " for " + hostport); c.count("requests"); c.count(six ? "ipv6" : "default_port"); c.distinct(fnv(hostport));
	}
	if (c.ok() && accepted != 1) c.fail("not-reused", num(accepted) + " connections for two requests to the same host and port"); ::close(fd);
}
FAMILY(C23, hosts, 60, 200) { samePort(c); }
FAMILY(C28, default_port, 60, 200) { samePort(c); }

// ================================================================ C24
struct Parser : Pillow::HttpResponseParser
{
	int nBegin, nHeaders, nComplete, atComplete; Pairs hs; int status; BA body; int fed; int contentBeforeHeaders;
	Parser() { reset(); }
	void reset() { nBegin = nHeaders = nComplete = 0; atComplete = -1; hs.clear(); status = 0; body.clear(); contentBeforeHeaders = 0; }
	void messageBegin() { Pillow::HttpResponseParser::messageBegin(); ++nBegin; }
	void headersComplete() { Pillow::HttpResponseParser::headersComplete(); ++nHeaders; hs = pairsOf(headers()); status = statusCode(); }
	void messageContent(const char* d, int n) { if (!nHeaders) ++contentBeforeHeaders; Pillow::HttpResponseParser::messageContent(d, n); body.append(d, n); }
	void messageComplete() { Pillow::HttpResponseParser::messageComplete(); ++nComplete; }
};
static BA scriptText(const Script& s) { return s.version + " " + num(s.status) + " framing " + num(s.framing) + ", " + num(int(s.headers.size())) + " headers, " + num(s.content.size()) + "B content" + (s.trailers.isEmpty() ? "" : ", trailers"); }
// Feeds one response to the parser in the given pieces and judges what it made of it. `rest` is what the pieces hold beyond the response.
static void parseOne(Ctx& c, Parser& p, const Script& s, const std::vector<BA>& pieces, int extra = 0)
{
	p.reset(); int fed = 0, total = s.wire.size(); bool eof = s.framing == Script::CLOSE && !s.noBody(); bool onlyHead = s.noBody();
	for (size_t i = 0; i < pieces.size() && c.ok(); ++i)
	{
		BA piece(pieces[i].constData(), pieces[i].size()); int used = p.inject(piece); int expect = qMin(piece.size(), total - fed); bool last = fed + piece.size() >= total;
		if (p.hasError()) { c.fail("parse-error", BA("error \"") + p.errorString() + "\" at byte " + num(fed + used) + " of " + num(total) + " of a valid response: " + show(s.wire.mid(qMax(0, fed + used - 60), 100))); return; }
		if (used != expect) c.fail("consumed", "inject() consumed " + num(used) + " of " + num(expect) + " bytes at offset " + num(fed));
		fed += expect; if (p.nComplete && !last && !eof) c.fail("completed-early", "messageComplete called after " + num(fed) + " of " + num(total) + " bytes"); if (p.nHeaders && fed < s.headEnd) c.fail("headers-early", "headersComplete after " + num(fed) + " of " + num(s.headEnd) + " head bytes");
		if (fed >= s.headEnd + (onlyHead ? 0 : 1) && p.nHeaders != 1) c.fail("headers-complete", "headersComplete called " + num(p.nHeaders) + " times after " + num(fed) + " bytes (head " + num(s.headEnd) + ")");
	}
	(void)extra; if (!c.ok()) return; if (eof) { if (p.nComplete) c.fail("completed-early", "messageComplete called before the end of the stream"); if (!p.completesOnEof()) c.fail("completes-on-eof", "completesOnEof() is false for a response delimited by the end of the stream"); p.injectEof(); if (p.hasError()) c.fail("parse-error", "error at the end of the stream: " + p.errorString()); }
	if (p.nComplete != 1) c.fail("complete-count", "messageComplete called " + num(p.nComplete) + " times"); if (p.nBegin != 1) c.fail("begin-count", "messageBegin called " + num(p.nBegin) + " times"); if (p.contentBeforeHeaders) c.fail("content-before-headers", "content before headersComplete");
	if (p.status != s.status) c.fail("status", num(s.status) + " became " + num(p.status)); BA e = diffPairs(s.headers, p.hs); if (!e.isEmpty()) c.fail("headers", e); if (p.httpMajor() != 1 || p.httpMinor() != (s.version == "HTTP/1.0" ? 0 : 1)) c.fail("version", s.version + " became " + num(p.httpMajor()) + "." + num(p.httpMinor()));
	BA want = s.noBody() ? BA() : s.content; if (p.body != want) c.fail("content", diffText(want, p.body)); if (p.content() != want) c.fail("content-accessor", diffText(want, deep(p.content())));
	if (p.shouldKeepAlive() != keepsAlive(s)) c.fail("keep-alive", BA("shouldKeepAlive() is ") + (p.shouldKeepAlive() ? "true" : "false") + " for " + show(s.wire.left(s.headEnd), 300)); c.count("responses"); c.count("bytes", total);
}
// Parser level: exact control over the segmentation; several responses on one parser.
FAMILY(C24, parser, 8000, 80000)
{
	Parser p; int n = c.rng.range(1, 4); RespOpts o; o.maxBody = c.rng.chance(10) ? 200000 : 5000; c.note = "";
	for (int i = 0; i < n && c.ok(); ++i)
	{
		Script s = clientScript(c.rng, false, i, o); finishScript(c.rng, s, o); std::vector<BA> v = split(c.rng, s.wire, std::vector<int>(1, s.headEnd)); if (c.rng.chance(10) && s.wire.size() < 6000) { v.clear(); for (int k = 0; k < s.wire.size(); ++k) v.push_back(s.wire.mid(k, 1)); }
		bool closing = !keepsAlive(s); c.note += (i ? "; " : "") + scriptText(s) + " in " + num(int(v.size())) + " pieces"; parseOne(c, p, s, v); c.distinct(fnv(s.wire.left(600)) ^ (v.size() * 7919)); if (closing || c.rng.chance(30)) p.clear();
	}
	c.sample(c.note);
}
// Client level: against a server, with interim responses and HEAD.
static void judgeClient(Ctx& c, Mon& m, const Script& s, bool head, const BA& want)
{
	if (m.error != Client::NoError) { c.fail(BA("error:") + errName(m.error), BA("a complete response was reported as ") + errName(m.error)); return; } if (m.nHeaders != 1) c.fail("headers-count", "headersCompleted emitted " + num(m.nHeaders) + " times"); if (m.status != s.status || m.sHeaders != s.status) c.fail("status", num(s.status) + " became " + num(m.sHeaders) + "/" + num(m.status)); BA e = diffPairs(s.headers, m.headers); if (!e.isEmpty()) c.fail("headers", e);
	BA w = head ? BA() : want; if (m.content != w) c.fail("content", diffText(w, m.content)); if (!w.isEmpty() && !m.nContent) c.fail("no-contentReadyRead", num(w.size()) + " bytes of content without contentReadyRead");
}
FAMILY(C24, client, 2500, 20000)
{
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); int n = c.rng.range(1, 4); c.note = "";
	for (int i = 0; i < n && c.ok(); ++i)
	{
		bool head = c.rng.chance(12); RespOpts o; o.maxBody = c.rng.chance(10) ? 300000 : 5000; Script s = clientScript(c.rng, head, i, o); finishScript(c.rng, s, o); int inter = c.rng.chance(15) ? c.rng.range(1, 4) : 0; BA pre; for (int k = 0; k < inter; ++k) pre += BA("HTTP/1.1 100 Continue\r\n") + (c.rng.chance(30) ? "X-Interim: yes\r\n" : "") + "\r\n";
		std::vector<BA> v = split(c.rng, pre + s.wire, std::vector<int>(1, pre.size() + s.headEnd)); if (v.size() > 50) { v.clear(); BA all = pre + s.wire; int p = 0; while (p < all.size()) { int k = c.rng.range(1, 1 + all.size() / 10); v.push_back(all.mid(p, k)); p += k; } } m.consume = c.rng.chance(30);
		bool fin = (s.framing == Script::CLOSE && !s.noBody()) || (!keepsAlive(s) && c.rng.chance(50)); int conn = -1; u.onRequest = [&](Upstream::C& k, const RawReq&) { conn = k.id; u.reply(k, v, fin ? Upstream::FIN : Upstream::KEEP); }; bool early = false; size_t left = 0; m.onFinished = [&]() { Upstream::C* k = u.conn(conn); if (k && k->busy && !k->todo.empty()) { early = true; left = k->todo.size(); } };
		c.note += (i ? "; " : "") + BA(head ? "HEAD " : "GET ") + (inter ? num(inter) + " interim, " : BA()) + scriptText(s) + " in " + num(int(v.size())) + " pieces"; m.begin(); if (head) cl.head(urlOf(u.url(), "/")); else cl.get(urlOf(u.url(), "/"));
		if (!net.wait([&]() { return m.nFinished > 0; })) { c.stall("not-finished", "response " + num(i) + " of " + num(n) + (s.framing == Script::CLOSE ? " (until close)" : "") + ", headersCompleted " + num(m.nHeaders) + ", " + num(cl.content().size()) + " content bytes"); return; }
		if (early) c.fail("finished-early", "finished with " + num(int(left)) + " pieces of the response unsent"); judgeClient(c, m, s, head, s.noBody() ? BA() : s.content); c.count("responses"); c.count("bytes", s.wire.size()); c.distinct(fnv(s.wire.left(400)) ^ v.size()); int k = m.nFinished; net.settle(3); if (m.nFinished != k) c.fail("finished-twice", "finished again later"); if (cl.responsePending()) c.fail("pending-after", "responsePending() after finished");
	}
	c.sample(c.note);
}

// ================================================================ C25 / C26: histories of good and bad exchanges on one client
enum { FULL, FULL_FIN, CUT_FIN, CUT_RST, GARBAGE, REFUSED, EXCESS, NOTHING, ABORT, NK };
static const char* const KIND[] = {"complete", "complete-then-closed", "cut", "cut-by-reset", "garbage", "refused", "excess", "closed-without-answer", "aborted"};
static void history(Ctx& c, bool wild)
{
	Net net(c); Upstream& u = *net.up[0]; QUrl dead; { Listener l; dead = QUrl(QString("http://%1:%2/").arg(QString::fromLatin1(l.host)).arg(l.port)); }
	Client cl; Mon m(c, &cl); int n = c.rng.range(2, wild ? 7 : 5); c.note = ""; bool immediate = c.rng.chance(35); std::vector<int> kinds; for (int i = 0; i < n; ++i) kinds.push_back(i == n - 1 ? int(FULL) : c.rng.chance(25) ? int(FULL) : c.rng.below(NK)); int i = 0; Script s; std::vector<BA> v; int end = 0; BA sent, want; bool head = false; int arrived = 0; int pos = 0; bool launched = false; bool failed = false; int abortAt = 0;
	auto launch = [&]() {
		int kind = kinds[i]; head = c.rng.chance(10) && kind != CUT_FIN && kind != CUT_RST && kind != GARBAGE; RespOpts o; o.maxBody = c.rng.chance(10) ? 120000 : 3000; o.gzip = c.rng.chance(wild ? 35 : 12) && !head; s = clientScript(c.rng, head, i, o); BA plain = s.content; if (o.gzip && s.framing != Script::NONE) s.content = gzipped(c.rng, plain); finishScript(c.rng, s, o); want = s.noBody() ? BA() : o.gzip && s.framing != Script::NONE ? plain : s.content;
		end = Upstream::KEEP; sent = s.wire; bool until = s.framing == Script::CLOSE && !s.noBody(); if (until) end = Upstream::FIN; abortAt = -1;
		switch (kind) { case FULL_FIN: end = Upstream::FIN; break; case CUT_FIN: case CUT_RST: sent = s.wire.left(c.rng.chance(40) ? c.rng.range(1, qMax(1, s.headEnd - 1)) : c.rng.range(1, qMax(1, s.wire.size() - 1))); end = kind == CUT_FIN ? Upstream::FIN : Upstream::RST; break; case GARBAGE: sent = genGarbage(c.rng, s); end = c.rng.chance(30) ? Upstream::FIN : Upstream::KEEP; break; case NOTHING: sent.clear(); end = c.rng.chance(70) ? Upstream::FIN : Upstream::RST; break; case ABORT: abortAt = c.rng.below(sent.size() + 1); sent = sent.left(abortAt); end = Upstream::KEEP; break; }
		BA pre; if (c.rng.chance(15)) for (int k = c.rng.range(1, 3); k--; ) pre += BA("HTTP/1.1 100 Continue\r\n") + (c.rng.chance(30) ? "X-Interim: yes\r\n" : "") + "\r\n"; const BA all = pre + sent; v = all.isEmpty() ? std::vector<BA>() : split(c.rng, all, std::vector<int>(1, pre.size())); if (v.size() > 40 || (!pre.isEmpty() && c.rng.chance(50))) v = std::vector<BA>(1, all); if (kind == EXCESS && !until) { BA x = c.rng.str("xyz\r\n 0", c.rng.range(1, 60)); if (c.rng.chance(30)) x = s.wire; v.back() += x; }
		c.note += (i ? "; " : "") + BA(KIND[kind]) + (head ? " HEAD " : " ") + (pre.isEmpty() ? "" : "interim, ") + scriptText(s) + (o.gzip ? " gzip" : "") + ", " + num(sent.size()) + " of " + num(s.wire.size()) + " bytes in " + num(int(v.size())) + (end == Upstream::FIN ? " then FIN" : end == Upstream::RST ? " then RST" : "");
		m.begin(); arrived = 0; QUrl url = kind == REFUSED ? dead : urlOf(u.url(), "/r" + num(i)); if (head) cl.head(url); else if (c.rng.chance(20)) cl.post(url, Headers(), bodyFor(i, c.rng.size(3000))); else cl.get(url);
	};
	auto judge = [&]() {
		int kind = kinds[i]; Resp r; BA perr; bool complete = false; if (kind != GARBAGE && kind != REFUSED) { if (sent.size() == s.wire.size()) complete = true; else if (s.framing == Script::CLOSE && !s.noBody() && sent.size() >= s.headEnd) complete = end == Upstream::FIN; } (void)r;
		int e = m.error; failed = e != Client::NoError; c.count(KIND[kind]); BA what = BA(KIND[kind]) + ": error is " + errName(e);
		if (cl.error() != e && !immediate) c.fail("error-changed", "error() changed after finished()");
		if (kind == ABORT) { if (e != Client::AbortedError && !complete) c.fail("outcome:aborted", what); return; }
		if (kind == REFUSED) { if (e != Client::NetworkError) c.fail("outcome:refused", what); return; }
		if (kind == GARBAGE) { if (e != Client::ResponseInvalidError) c.fail("outcome:garbage", what + " for " + show(sent, 100)); return; }
		if (kind == CUT_RST || (kind == NOTHING && end == Upstream::RST)) { bool until = s.framing == Script::CLOSE && !s.noBody() && sent.size() >= s.headEnd; /* a reset is not told from a close there */ if (e == Client::NoError) { if (!until) c.fail("outcome:reset", what); return; } if (e != Client::RemoteHostClosedError && e != Client::NetworkError) c.fail("outcome:reset", what); return; }
		if (complete) { if (sent.size() == s.wire.size()) judgeClient(c, m, s, head, want); else if (e != Client::NoError) c.fail("outcome:until-close", what); return; }
		if (e != Client::RemoteHostClosedError) { c.fail("outcome:cut", what + " after " + num(sent.size()) + " of " + num(s.wire.size()) + " bytes"); return; }
		if (!s.wire.isEmpty() && sent.size() < s.headEnd && m.nHeaders) c.fail("headers-early", "headersCompleted for " + num(sent.size()) + " of " + num(s.headEnd) + " head bytes");
		if (m.nHeaders) { BA d = diffPairs(s.headers, m.headers); if (!d.isEmpty()) c.fail("headers", d); if (!want.startsWith(m.content)) c.fail("content", diffText(want, m.content)); }
	};
	u.onRequest = [&](Upstream::C& k, const RawReq& q) { ++arrived; if (q.target != "/r" + num(i)) c.fail("wrong-request", "expected /r" + num(i) + ", got " + show(q.target)); u.reply(k, v, end); };
	bool inCallback = false; m.onFinished = [&]() { if (!immediate || i + 1 >= n || inCallback) return; if (kinds[i] == EXCESS || (m.error == Client::NoError && !(kinds[i] == FULL && keepsAlive(s)))) return; /* only where the connection is known to be usable or gone */ judge(); if (!c.ok()) return; c.count("immediate"); ++i; launched = true; launch(); };
	launch();
	for (;;)
	{
		int k0 = i; launched = false; bool ok = net.wait([&]() { if (!c.ok()) return true; if (kinds[i] == ABORT && m.open && arrived && (u.cs.empty() || (!u.cs.back()->busy && u.cs.back()->todo.empty()))) { inCallback = false; net.settle(c.rng.below(3)); if (m.open) { c.count("aborts"); int f = m.total; cl.abort(); if (c.ok() && m.total == f) c.fail("abort-without-finished", "abort() of a pending request did not emit finished()"); } } return !m.open; });
		if (!c.ok()) break; (void)k0; if (!ok) { c.stall(BA("not-finished:") + KIND[kinds[i]], "exchange " + num(i) + " (arrived " + num(arrived) + " times): headersCompleted " + num(m.nHeaders) + ", content " + num(cl.content().size())); return; }
		judge(); c.distinct(fnv(sent) * 31 + kinds[i]); if (!c.ok() || i + 1 >= n) break; int f = m.nFinished; net.settle(2); if (!c.ok()) break; (void)f;
		// Let the client notice that the server went away, or that it sent too much.
		if (end != Upstream::KEEP || kinds[i] == EXCESS || !keepsAlive(s)) { waitFor(c, [&]() { QTcpSocket* k = sockOf(&cl); return !k || k->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, end != Upstream::KEEP ? 3000 : 30); }
		++i; launch();
	}
	c.sample(c.note); if (!c.ok()) return; net.settle(3); if (m.open) c.fail("open", "request open at the end"); if (cl.responsePending()) c.fail("pending", "responsePending() at the end");
}
FAMILY(C25, outcomes, 2500, 25000) { history(c, false); }
FAMILY(C26, histories, 2500, 25000) { history(c, true); }
// The application runs event loops of its own inside the signals, while the rest arrives and the server leaves.
FAMILY(C25, nested_loops, 800, 8000)
{
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); int n = c.rng.range(1, 4), depth = 0, spins = 0, chance = c.rng.range(20, 100); c.note = "loops in " + num(chance) + "% of the signals: "; m.consume = c.rng.chance(40); if (m.consume && c.rng.chance(60)) cl.setReadBufferSize(c.rng.range(1, 3000)); int conn = -1;
	auto loop = [&]() { if (depth >= 2 || spins > 60 || !c.rng.chance(chance)) return; NestedLoop inside; ++depth; ++spins; c.count("loops"); int kind = c.rng.below(3); if (kind == 0) { int k = c.rng.range(1, 20); while (k--) { spin(); net.poll(); } } else for (int k = 0; k < 60; ++k) { Upstream::C* x = u.conn(conn); if (kind == 1 ? !x || x->todo.empty() : !x || x->p.fd < 0) { for (k = c.rng.below(5); k-- > 0; ) spin(); break; } spin(); net.poll(); } --depth; };
	m.onHeaders = loop; m.onContent = loop;
	for (int i = 0; i < n && c.ok(); ++i)
	{
		spins = 0; bool head = c.rng.chance(8); RespOpts o; o.maxBody = c.rng.chance(15) ? 200000 : 4000; bool gz = c.rng.chance(15) && !head && !m.consume; o.gzip = gz; Script s = clientScript(c.rng, head, i, o); BA want = s.content; if (gz && s.framing != Script::NONE) s.content = gzipped(c.rng, want); finishScript(c.rng, s, o); if (s.noBody()) want.clear(); bool until = s.framing == Script::CLOSE && !s.noBody(); bool fin = until || !keepsAlive(s) || c.rng.chance(40); BA sent = s.wire; bool cut = !head && c.rng.chance(12); if (cut) { sent = sent.left(c.rng.range(1, qMax(1, sent.size() - 1))); fin = true; }
		std::vector<BA> v = split(c.rng, sent, std::vector<int>(1, s.headEnd)); if (v.size() > 40 || c.rng.chance(25)) v = std::vector<BA>(1, sent); u.onRequest = [&](Upstream::C& k, const RawReq&) { conn = k.id; u.reply(k, v, fin ? Upstream::FIN : Upstream::KEEP); };
		c.note += (i ? "; " : "") + BA(head ? "HEAD " : "GET ") + scriptText(s) + (gz ? " gzip" : "") + (cut ? ", cut at " + num(sent.size()) : BA()) + " in " + num(int(v.size())) + " pieces" + (fin ? " then FIN" : ""); bool loopAtEnd = c.rng.chance(40); m.onFinished = [&, loopAtEnd]() { if (loopAtEnd) loop(); };
		m.begin(); if (head) cl.head(urlOf(u.url(), "/")); else cl.get(urlOf(u.url(), "/")); if (!net.wait([&]() { return m.nFinished > 0; })) { c.stall("not-finished", "response " + num(i) + " of " + num(n) + ", headersCompleted " + num(m.nHeaders) + ", " + num(cl.content().size() + m.consumed.size()) + " content bytes"); return; }
		bool complete = !cut || (until && sent.size() >= s.headEnd); if (!c.ok()) return; if (!cut) judgeClient(c, m, s, head, want); else if (complete ? m.error != Client::NoError : m.error != Client::RemoteHostClosedError) c.fail("outcome:cut", BA(errName(m.error)) + " after " + num(sent.size()) + " of " + num(s.wire.size()) + " bytes"); else if (!gz && m.nHeaders && m.content != sent.mid(s.headEnd) && s.framing != Script::CHUNKED) c.fail("content", diffText(sent.mid(s.headEnd), m.content));
		c.count("responses"); c.distinct(fnv(s.wire.left(400)) ^ v.size()); int k = m.nFinished; net.settle(3); if (m.nFinished != k) c.fail("finished-twice", "finished again later"); if (cl.responsePending()) c.fail("pending-after", "responsePending() after finished"); if (fin) waitFor(c, [&]() { QTcpSocket* t = sockOf(&cl); return !t || t->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, 3000);
	}
	c.sample(c.note);
}
// Every cut position of one response in turn, then a good exchange.
FAMILY(C25, every_cut, 60, 600)
{
	Net net(c); Upstream& u = *net.up[0]; RespOpts o; o.maxBody = 60; o.extra = false; Script s; do s = clientScript(c.rng, false, 0, o); while (s.headers.size() > 4 || s.content.size() > 60 || s.noBody()); finishScript(c.rng, s, o); bool rst = c.rng.chance(20); c.note = scriptText(s) + ", cut at every byte by " + (rst ? "RST" : "FIN"); c.sample(c.note); Client cl; Mon m(c, &cl); if (s.wire.size() > 500) return;
	for (int k = 0; k <= s.wire.size() && c.ok(); ++k)
	{
		u.onRequest = [&](Upstream::C& x, const RawReq&) { u.reply(x, k ? std::vector<BA>(1, s.wire.left(k)) : std::vector<BA>(), rst ? Upstream::RST : Upstream::FIN); }; m.begin(); cl.get(urlOf(u.url(), "/c")); if (!net.wait([&]() { return !m.open; })) { c.stall("not-finished", "cut at byte " + num(k)); return; }
		bool complete = k == s.wire.size() || (s.framing == Script::CLOSE && k >= s.headEnd); int e = m.error; if (rst) { if (complete ? e == Client::ResponseInvalidError : e == Client::NoError || e == Client::ResponseInvalidError) c.fail("outcome:reset", BA(errName(e)) + " when reset at byte " + num(k) + " of " + num(s.wire.size())); } else if (e != (complete ? Client::NoError : Client::RemoteHostClosedError)) c.fail("outcome:cut", BA(errName(e)) + " when closed at byte " + num(k) + " of " + num(s.wire.size()) + " (head " + num(s.headEnd) + ")"); c.count("cuts"); c.distinct(fnv(s.wire) + k);
		waitFor(c, [&]() { QTcpSocket* t = sockOf(&cl); return !t || t->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, 3000);
	}
}
// Parser level histories: whatever was fed before clear() leaves no trace.
FAMILY(C26, parser, 6000, 60000)
{
	Parser p; int n = c.rng.range(1, 4); c.note = "";
	for (int i = 0; i < n; ++i) { Script s = clientScript(c.rng, false, i); finishScript(c.rng, s); BA w = s.wire; if (c.rng.chance(70)) w = w.left(c.rng.below(w.size() + 1)); if (c.rng.chance(25) && !w.isEmpty()) for (int k = c.rng.range(1, 3); k--; ) w[c.rng.below(w.size())] = char(c.rng.next()); c.note += (i ? "; " : "") + num(w.size()) + " of " + num(s.wire.size()) + " bytes of " + scriptText(s); for (auto& x : split(c.rng, w)) { int used = p.inject(x); if (p.hasError() || used < x.size()) break; } if (c.rng.chance(30)) p.injectEof(); p.clear(); if (p.hasError()) c.fail("error-after-clear", p.errorString()); if (!p.headers().isEmpty() || !p.content().isEmpty() || p.statusCode()) c.fail("not-cleared", "headers, content or status remain after clear()"); c.count("disturbances"); }
	Script s = clientScript(c.rng, false, 99); finishScript(c.rng, s); c.note += "; then " + scriptText(s); c.sample(c.note); parseOne(c, p, s, split(c.rng, s.wire)); c.distinct(fnv(c.note));
}
// Complete responses one after another on one parser without clear().
FAMILY(C26, parser_keepalive, 4000, 30000)
{
	Parser p; int n = c.rng.range(2, 6); c.note = ""; RespOpts o; o.untilClose = false; for (int i = 0; i < n && c.ok(); ++i) { Script s; do s = clientScript(c.rng, false, i, o); while (s.version == "HTTP/1.0"); finishScript(c.rng, s, o); c.note += (i ? "; " : "") + scriptText(s); parseOne(c, p, s, split(c.rng, s.wire)); c.distinct(fnv(s.wire.left(300))); } c.sample(c.note);
}

// ================================================================ C27
FAMILY(C27, gzip, 3500, 30000)
{
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); int n = c.rng.range(1, 3); c.note = "";
	for (int i = 0; i < n && c.ok(); ++i)
	{
		RespOpts o; o.maxBody = c.rng.chance(20) ? 400000 : 20000; int mode = c.rng.below(10); o.gzip = mode < 9; Script s; do s = clientScript(c.rng, false, i, o); while (s.noBody()); BA plain = s.content; c.note += (i ? "; " : "") + BA();
		if (mode < 7) { if (c.rng.chance(10)) plain = BA(c.rng.range(1, 30) * 32768 + c.rng.range(-2, 2), 'z'); s.content = gzipped(c.rng, plain); c.note += "gzip of "; } else if (mode < 9) { if (c.rng.chance(25)) { static const int wb[] = {15, -15, 9, -9, 12}; plain = deflated(plain, wb[c.rng.below(5)]); } else if (c.rng.chance(30) && !plain.isEmpty()) plain[0] = '\x1f'; else if (plain.startsWith("\x1f\x8b")) plain[0] = 'x'; if (plain.size() > 1 && plain.startsWith("\x1f\x8b")) plain[1] = 'x'; s.content = plain; c.note += "labelled gzip but of another format, "; } else { if (c.rng.chance(50)) s.content = plain = gzipped(c.rng, plain); /* not labelled: to be left alone */ c.note += "unlabelled "; if (c.rng.chance(40)) s.headers.push_back(std::make_pair(BA("Content-Encoding"), BA(c.rng.chance(50) ? "identity" : "gzipp"))); }
		finishScript(c.rng, s, o); std::vector<BA> v = split(c.rng, s.wire, std::vector<int>(1, s.headEnd)); if (c.rng.chance(30)) { v.clear(); v.push_back(s.wire.left(s.headEnd)); int p = s.headEnd; for (int k = 0; k < 30 && p < s.wire.size(); ++k) v.push_back(s.wire.mid(p++, 1)); if (p < s.wire.size()) v.push_back(s.wire.mid(p)); } if (v.size() > 60) { v.clear(); int p = 0; while (p < s.wire.size()) { int k = c.rng.range(1, 1 + s.wire.size() / 12); v.push_back(s.wire.mid(p, k)); p += k; } }
		c.note += num(plain.size()) + "B, " + num(s.content.size()) + "B on the wire, framing " + num(s.framing) + " in " + num(int(v.size())) + " pieces"; m.consume = c.rng.chance(30); u.onRequest = [&](Upstream::C& k, const RawReq&) { u.reply(k, v, s.framing == Script::CLOSE ? Upstream::FIN : Upstream::KEEP); };
		m.begin(); cl.get(urlOf(u.url(), "/z")); if (!net.wait([&]() { return !m.open; })) { c.stall("not-finished", "headersCompleted " + num(m.nHeaders) + ", content " + num(cl.content().size())); return; }
		if (m.error != Client::NoError) { c.fail("error", errName(m.error)); break; } if (m.content != plain) c.fail(mode < 7 ? "decoded-content" : mode < 9 ? "passed-through-content" : "unencoded-content", diffText(plain, m.content)); BA e = diffPairs(s.headers, m.headers); if (!e.isEmpty()) c.fail("headers", e); c.count(mode < 7 ? "gzip" : mode < 9 ? "mislabelled" : "unlabelled"); c.count("bytes", plain.size()); c.distinct(fnv(s.content.left(2000)) ^ v.size()); net.settle(2);
	}
	c.sample(c.note);
}

// ================================================================ C28
FAMILY(C28, reuse, 1500, 12000)
{
	int ns = c.rng.range(1, 3); Net net(c, ns, true); Client cl; Mon m(c, &cl); int n = c.rng.range(2, 8); c.note = num(ns) + " servers: "; int timeout = -1; int last = -1, lastConn = -1; bool reusable = false, either = false; std::vector<int> served(ns, 0);
	for (int i = 0; i < n && c.ok(); ++i)
	{
		int t = c.rng.below(10); if (t == 0) timeout = 0; else if (t == 1) timeout = 20; else if (t == 2) timeout = 60000; else if (t == 3) timeout = -1; if (t < 4) cl.setKeepAliveTimeout(timeout); // applies to reuse from now on, except that a connection is dropped right after a response with 0
		int k = c.rng.below(ns); Upstream& u = *net.up[k]; RespOpts o; o.maxBody = 500; bool head = c.rng.chance(10); Script s = clientScript(c.rng, head, i, o); for (size_t j = 0; j < s.headers.size(); ++j) if (lower(s.headers[j].first) == "connection") { s.headers.erase(s.headers.begin() + j); break; } if (c.rng.chance(15)) s.headers.push_back(std::make_pair(BA(c.rng.chance(50) ? "Connection" : "connection"), BA(c.rng.chance(70) ? "close" : "Close"))); else if (c.rng.chance(15)) s.headers.push_back(std::make_pair(BA("Connection"), BA(c.rng.chance(50) ? "keep-alive" : "Keep-Alive"))); finishScript(c.rng, s, o);
		bool until = s.framing == Script::CLOSE && !s.noBody(); bool fin = until || c.rng.chance(12); std::vector<BA> v = c.rng.chance(70) ? std::vector<BA>(1, s.wire) : split(c.rng, s.wire); if (v.size() > 20) v = std::vector<BA>(1, s.wire); bool big = c.rng.chance(4); bool early = false;
		bool expired = timeout == 20 && c.rng.chance(50); bool slow = false; if (timeout == 20 && last >= 0) { if (expired) usleep(45000); else slow = true; } if (expired) { net.settle(1); }
		int conn = -1, where = -1, count = 0; BA target = "/q" + num(i); for (int j = 0; j < ns; ++j) net.up[j]->onRequest = [&, j](Upstream::C& x, const RawReq& q) { conn = x.id; where = j; ++count; if (q.target != target) c.fail("wrong-request", show(q.target)); net.up[j]->reply(x, v, fin ? Upstream::FIN : Upstream::KEEP); };
		bool expect = last == k && reusable && timeout != 0 && !expired; bool maybe = either || slow; m.begin(); QUrl url = urlOf(u.url(), target); BA data = big ? bodyFor(i, 3000000) : BA(); (void)early; c.note += (i ? "; " : "") + BA(head ? "HEAD" : "GET") + " server " + num(k) + " timeout " + num(timeout) + (expired ? " expired" : "") + (big ? " 3MB upload" : "") + " -> " + s.version + " " + num(s.status) + " framing " + num(s.framing) + (keepsAlive(s) ? " keep" : " close") + (fin ? " FIN" : ""); if (head) cl.head(url); else if (big) cl.post(url, Headers(), data); else cl.get(url);
		if (!net.wait([&]() { return !m.open; })) { c.stall("not-finished", "request " + num(i) + " arrived " + num(count) + " times at server " + num(where)); return; } if (m.error != Client::NoError) { c.fail("error", "request " + num(i) + ": " + errName(m.error)); break; }
		if (count != 1 || where != k) { c.fail("misdirected", "request for server " + num(k) + " arrived " + num(count) + " times, last at " + num(where)); break; } bool reused = served[k] && last == k && conn == lastConn;
		if (!maybe || (reused && !(last == k && reusable))) { if (reused != expect && !(either && !reused)) { c.fail(reused ? "wrongly-reused" : "not-reused", "request " + num(i) + " to server " + num(k) + (reused ? " reused connection " : " opened connection ") + num(conn)); break; } } c.count(reused ? "reused" : "opened"); ++served[k]; last = k; lastConn = conn; reusable = keepsAlive(s) && !fin && timeout != 0; either = head && s.framing != Script::LENGTH && s.framing != Script::CHUNKED && reusable; if (head && s.framing == Script::CLOSE) { reusable = either = true; if (fin) reusable = either = false; BA cv; for (auto& x : s.headers) if (lower(x.first) == "connection") cv = lower(x.second); if (cv == "close" || (s.version == "HTTP/1.0" && cv != "keep-alive") || timeout == 0) reusable = either = false; } c.distinct(fnv(c.note));
		if (fin) waitFor(c, [&]() { QTcpSocket* q = sockOf(&cl); return !q || q->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, 3000); else net.settle(1);
		if (timeout == 20 && !fin) { /* the next request may or may not make it in time */ }
	}
	c.sample(c.note);
}
// The keep-alive timeout counts the time since the last response: requests made in time go on sharing a connection however long that goes on, a late one does not.
FAMILY(C28, idle, 96, 1500)
{
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); int timeout = c.rng.range(50, 90), n = c.rng.range(4, 7); cl.setKeepAliveTimeout(timeout); c.note = "timeout " + num(timeout) + ":"; QElapsedTimer t; t.start(); qint64 from = 0, to = 0; int conn = -1, last = -1;
	u.onRequest = [&](Upstream::C& k, const RawReq&) { conn = k.id; u.reply(k, std::vector<BA>(1, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"), Upstream::KEEP); }; m.onFinished = [&]() { to = t.elapsed(); };
	auto idle = [&](int ms) { qint64 end = t.elapsed() + ms; while (t.elapsed() < end) { usleep(1000); net.settle(1); } };
	for (int i = 0; i < n && c.ok(); ++i)
	{
		bool late = i && c.rng.chance(15); int gap = i ? late ? timeout + c.rng.range(5, 30) : c.rng.range(timeout / 3, timeout * 2 / 3) : 0; bool slow = c.rng.chance(20); if (i && c.rng.chance(30)) spin(); idle(gap);
		m.begin(); u.paused = slow; qint64 before = t.elapsed(); cl.get(urlOf(u.url(), "/i" + num(i))); qint64 after = t.elapsed(); c.note += " +" + num(gap) + (slow ? "(slow)" : "");
		if (slow) { idle(timeout + 10); u.paused = false; } qint64 sent = t.elapsed(); qint64 wasFrom = from, wasTo = to; if (!net.wait([&]() { return !m.open; })) { c.stall("not-finished", "request " + num(i)); return; } if (m.error != Client::NoError) { c.fail("error", "request " + num(i) + ": " + errName(m.error)); break; }
		if (i && after - wasFrom + 1 < timeout) { if (conn != last) c.fail("not-reused", "request " + num(i) + " at most " + num(int(after - wasFrom)) + " ms after the last response used a new connection"); c.count("in_time"); if (conn == last) c.count("reused"); }
		else if (i && before - wasTo > timeout + 1) { if (conn == last) c.fail("wrongly-reused", "request " + num(i) + " at least " + num(int(before - wasTo)) + " ms after the last response"); c.count("late"); } else if (i) c.count("undecided");
		from = slow ? sent : before; last = conn; c.distinct(fnv(c.note));
	}
	c.sample(c.note);
}
FAMILY(C28, redirects, 1500, 12000)
{
	int ns = 2; Net net(c, ns, true); Client cl; Mon m(c, &cl); static const int codes[] = {300, 301, 302, 303, 307}; int status = c.rng.chance(80) ? codes[c.rng.below(5)] : c.rng.chance(50) ? 200 : 404; bool redirect = status >= 300 && status < 400; BA meth = c.rng.chance(50) ? BA("GET") : c.rng.chance(50) ? BA("POST") : BA("PUT"), data = meth == "GET" ? BA() : bodyFor(1, c.rng.size(3000)); int target = c.rng.below(2); BA base = net.up[0]->url().toLatin1(), other = net.up[target]->url().toLatin1(); BA loc, expect; int form = c.rng.below(7); BA q = c.rng.chance(40) ? "?" + cleanQuery(c.rng, 8) : BA();
	switch (form) { case 0: case 1: loc = other + "/abs/x" + q; expect = "/abs/x" + q; break; case 2: target = 0; loc = "/rooted/%20y%2Fz" + q; expect = "/rooted/%20y%2Fz" + q; break; case 3: target = 0; loc = "sibling" + q; expect = "/dir/sibling" + q; break; case 4: target = 0; loc = "../up" + q; expect = "/up" + q; break; case 5: loc = other.mid(5) + "/proto" + q; expect = "/proto" + q; break; default: target = 0; loc = "?only=query"; expect = "/dir/page?only=query"; break; }
	std::vector<std::pair<int,RawReq> > got; bool keep = c.rng.chance(70); for (int j = 0; j < ns; ++j) net.up[j]->onRequest = [&, j](Upstream::C& x, const RawReq& r) { bool first = got.empty(); got.push_back(std::make_pair(j, r)); BA w = first ? "HTTP/1.1 " + num(status) + " X\r\n" + (c.rng.chance(50) ? "Location: " : "location: ") + loc + "\r\n" + (keep ? "" : "Connection: close\r\n") + "Content-Length: 3\r\n\r\nabc" : BA("HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\ndone"); net.up[j]->reply(x, split(c.rng, w), Upstream::KEEP); };
	bool inside = c.rng.chance(50); bool followed = false; Pairs hs; hs.push_back(std::make_pair(BA("X-Mine"), BA("yes"))); c.note = meth + " -> " + num(status) + " Location: " + show(loc) + (inside ? ", followed inside finished()" : "") + (keep ? "" : ", closing"); c.sample(c.note); c.distinct(fnv(c.note));
	auto follow = [&]() { if (followed) return; followed = true; if (cl.redirected() != redirect) c.fail("redirected", "redirected() is wrong for status " + num(status)); if (redirect && cl.redirectionLocation() != loc) c.fail("location", show(deep(cl.redirectionLocation()))); if (redirect) m.begin(); cl.followRedirection(); if (!redirect && cl.responsePending()) c.fail("followed", "followRedirection() made a request although the status was " + num(status)); };
	m.onFinished = [&]() { if (inside && m.error == Client::NoError) follow(); }; m.begin(); cl.request(meth, urlOf(net.up[0]->url(), "/dir/page?x=y"), collection(hs), data); if (!net.wait([&]() { return !m.open || (followed && got.size() > 1); })) { c.stall("not-finished", "initial request"); return; } if (!inside) { if (m.error != Client::NoError) { c.fail("error", errName(m.error)); return; } follow(); }
	if (!redirect) { net.settle(6); if (got.size() != 1) c.fail("followed", num(int(got.size())) + " requests arrived"); c.count("not_redirected"); return; }
	if (!net.wait([&]() { return !m.open; })) { c.stall("not-finished", "redirected request; " + num(int(got.size())) + " requests arrived"); return; } if (m.error != Client::NoError) { c.fail("error", BA(errName(m.error)) + " for the redirected request"); return; } if (got.size() != 2) { c.fail("request-count", num(int(got.size())) + " requests arrived"); return; }
	RawReq& r = got[1].second; if (got[1].first != target) c.fail("wrong-server", "redirected request arrived at server " + num(got[1].first)); if (r.target != expect) c.fail("target", show(expect) + " became " + show(r.target)); if (r.method != meth || r.content != data) c.fail("not-repeated", "the redirected request was not the same: " + show(r.raw, 200)); if (r.value("X-Mine") != "yes") c.fail("headers", "headers not repeated"); BA host = net.up[target]->l.host + ":" + num(net.up[target]->l.port); if (r.value("Host") != host) c.fail("host", "Host " + r.value("Host") + " instead of " + host); if (m.content != "done") c.fail("content", show(m.content)); c.count("redirected");
}

// ================================================================ C29
enum { A_NONE, A_ABORT, A_ABORT_REQ, A_ABORT2, A_REQ, A_REFUSED_REQ, A_DELETE, A_REQ_REQ, NA };
static const char* const ACT[] = {"nothing", "abort", "abort+request", "abort twice", "request", "request while pending", "deleteLater", "two requests"};
FAMILY(C29, callbacks, 3000, 30000)
{
	Net net(c); Upstream& u = *net.up[0]; Client* cl = new Client(); QPointer<Client> alive(cl); Mon m(c, cl); int n = c.rng.range(1, 4); c.note = ""; bool head = false; Script s; std::vector<BA> v; int end = 0; int served = 0; int where = 0, act = 0, count = 0; bool fired = false; int reqs = 0; int expectErr = -1; bool next = false; std::vector<BA> targets; bool deleted = false; BA content; bool bad = false; bool wasOpen = false;
	auto plan = [&]() { head = c.rng.chance(15); RespOpts o; o.maxBody = c.rng.chance(15) ? 100000 : 3000; o.gzip = c.rng.chance(15) && !head; s = clientScript(c.rng, head, reqs, o); content = s.content; if (o.gzip && s.framing != Script::NONE) s.content = gzipped(c.rng, content); finishScript(c.rng, s, o); if (s.noBody()) content.clear(); v = split(c.rng, s.wire, std::vector<int>(1, s.headEnd)); if (v.size() > 30) v = std::vector<BA>(1, s.wire); end = s.framing == Script::CLOSE && !s.noBody() ? Upstream::FIN : Upstream::KEEP; bad = c.rng.chance(12); if (bad) { BA w = s.wire.left(c.rng.range(1, s.wire.size())); if (c.rng.chance(50)) { v.assign(1, w); end = Upstream::FIN; } else { v.assign(1, genGarbage(c.rng, s)); end = Upstream::KEEP; } } };
	bool plain = false; auto start = [&]() { do plan(); while (plain && bad); m.begin(); fired = false; next = false; expectErr = -1; where = c.rng.below(5); act = plain ? int(A_NONE) : c.rng.below(NA); count = c.rng.below(3); targets.push_back("/q" + num(reqs)); c.note += BA(reqs ? "; " : "") + (head ? "HEAD" : "GET") + (bad ? " bad" : "") + " framing " + num(s.framing) + " in " + num(int(v.size())) + " pieces: " + ACT[act] + " at " + (where == 0 ? BA("headersCompleted") : where == 1 ? "contentReadyRead " + num(count) : where == 2 ? BA("finished") : where == 3 ? BA("a pause") : BA("once sent")); QUrl url = urlOf(u.url(), targets.back()); ++reqs; if (head) cl->head(url); else cl->get(url); };
	std::function<void(bool)> fire = [&](bool idle) {
		if (fired) return; fired = true; c.count("actions"); wasOpen = m.open; bool pendingNow = !idle;
		switch (act)
		{
		case A_NONE: break;
		case A_ABORT: case A_ABORT2: { int f = m.nFinished; if (pendingNow) expectErr = Client::AbortedError; cl->abort(); if (m.nFinished != f + (pendingNow ? 1 : 0)) c.fail("abort-finished", "abort() " + BA(pendingNow ? "of a pending request" : "of an idle client") + " emitted finished() " + num(m.nFinished - f) + " times"); if (act == A_ABORT2) { f = m.nFinished; cl->abort(); if (m.nFinished != f) c.fail("abort-finished", "second abort() emitted finished()"); } c.count("aborts"); break; }
		case A_ABORT_REQ: { if (pendingNow) expectErr = Client::AbortedError; cl->abort(); if (pendingNow && m.error != Client::AbortedError) c.fail("abort-error", errName(m.error)); next = true; start(); break; }
		case A_REQ: if (pendingNow) break; next = true; start(); break;
		case A_REQ_REQ: if (pendingNow) break; next = true; start(); cl->get(urlOf(u.url(), "/second")); c.count("refused"); break;
		case A_REFUSED_REQ: if (!pendingNow) break; cl->get(urlOf(u.url(), "/refused")); c.count("refused"); break;
		case A_DELETE: deleted = true; cl->deleteLater(); c.count("deletions"); break;
		}
	};
	m.onHeaders = [&]() { if (where == 0) fire(false); }; m.onContent = [&]() { if (where == 1 && m.nContent == count + 1) fire(false); }; bool nested = false; int doneCount = 0;
	m.onFinished = [&]() { ++doneCount; BA e; if (fired && expectErr >= 0) { if (m.error != expectErr) c.fail("abort-error", BA("aborted request finished with ") + errName(m.error)); } else if (bad) { if (m.error == Client::AbortedError) c.fail("outcome", "AbortedError without abort()"); } else if (!deleted) { judgeClient(c, m, s, head, content); c.count("completed"); } if (where == 2 && !nested && !fired) { nested = true; fire(true); nested = false; } };
	u.onRequest = [&](Upstream::C& k, const RawReq& q) { ++served; if (q.target != targets.back()) { c.fail("wrong-request", "got " + show(q.target) + ", expected " + targets.back()); return; } u.reply(k, v, end); };
	int rounds = 0; start();
	while (c.ok() && !deleted && rounds++ < n)
	{
		bool ok = net.wait([&]() { if (!c.ok() || deleted) return true; if (where >= 3 && !fired && m.open && (where == 4 || c.rng.chance(20))) { fire(false); if (next) { next = false; return false; } } return !m.open; });
		if (!c.ok() || deleted) break; if (!ok) { c.stall("not-finished", "request " + num(reqs - 1) + ", " + num(served) + " arrived, headersCompleted " + num(m.nHeaders)); break; }
		net.settle(2); if (!c.ok()) break; if (cl->responsePending() && !m.open) { c.fail("pending", "responsePending() with no request"); break; } if (m.open) continue; if (rounds < n) { if (end != Upstream::KEEP || !keepsAlive(s)) waitFor(c, [&]() { QTcpSocket* q = sockOf(cl); return !q || q->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, 1000); start(); }
	}
	// Whatever happened, the client still works.
	if (c.ok() && !deleted) { net.wait([&]() { if (m.open && !fired) fired = true; return !m.open; }, 4000); if (c.ok() && m.open) { c.stall("not-finished", "last request"); } if (c.ok() && !m.open) { waitFor(c, [&]() { QTcpSocket* q = sockOf(cl); return end == Upstream::KEEP || !q || q->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, 1000); plain = true; start(); if (!net.wait([&]() { return !m.open || !c.ok(); })) c.stall("not-finished", "follow-up request"); } }
	c.sample(c.note); c.distinct(fnv(c.note)); if (deleted) { spin(); net.settle(3); if (alive) c.fail("not-deleted", "the client still exists"); c.count("deleted"); } else delete cl; net.settle(2);
}

// ================================================================ C31
FAMILY(C31, bounded, 400, 4000)
{
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); static const int sizes[] = {1, 2, 100, 1000, 1024, 4096, 16384, 65536}; int B = c.rng.chance(70) ? sizes[c.rng.below(8)] : c.rng.range(1, 50000); RespOpts o; o.trailers = c.rng.chance(20); int factor = B < 64 ? 60 : B < 2000 ? 200 : 40; o.maxBody = qMin(3000000, B * factor + 2000); while (c.rng.chance(25)) cl.setReadBufferSize(c.rng.chance(30) ? 0 : c.rng.range(1, 300000)); cl.setReadBufferSize(B); if (cl.readBufferSize() != B) c.fail("accessor", "readBufferSize() is " + num(cl.readBufferSize())); int n = c.rng.range(1, 3); c.note = "read buffer " + num(B);
	for (int i = 0; i < n && c.ok(); ++i)
	{
		if (i && c.rng.chance(40)) { B = c.rng.chance(70) ? sizes[c.rng.below(8)] : c.rng.range(1, 50000); factor = B < 64 ? 60 : B < 2000 ? 200 : 40; o.maxBody = qMin(3000000, B * factor + 2000); cl.setReadBufferSize(B); c.note += "; read buffer " + num(B); } // from the next request on
		Script s; do s = clientScript(c.rng, false, i, o); while (s.noBody()); if (c.rng.chance(50)) s.content = contentOf(c.rng, i, qMax(s.content.size(), o.maxBody / 2)); bool whole = c.rng.chance(20); if (whole) s.content = contentOf(c.rng, i, c.rng.below(B)); if (B < 1000) while (s.headers.size() > 6) s.headers.pop_back(); finishScript(c.rng, s, o); bool fin = s.framing == Script::CLOSE || c.rng.chance(40); std::vector<BA> v; if (c.rng.chance(60)) v.push_back(s.wire); else { int p = 0; while (p < s.wire.size()) { int k = c.rng.range(1, 1 + s.wire.size() / 6); v.push_back(s.wire.mid(p, k)); p += k; } }
		int mode = c.rng.below(4); // 0: consume on every signal, 1: from outside, now and then, 2: mixed, 3: stop for a while, then consume, 4: not before the end, as there is room for everything
		if (whole) mode = 4;
		c.note += "; " + scriptText(s) + (fin ? " FIN" : "") + ", consuming mode " + num(mode); u.onRequest = [&](Upstream::C& k, const RawReq&) { u.reply(k, v, fin ? Upstream::FIN : Upstream::KEEP); }; BA got; qint64 maxHeld = 0; int idle = 0; bool big = s.content.size() > 4 * B; bool pausing = mode == 3; int fins = 0; BA rest;
		auto look = [&]() { qint64 h = cl.content().size(); if (h > maxHeld) maxHeld = h; if (h > 4 * qint64(B) + 1024) c.fail("buffer-exceeded", num(h) + " bytes held with a read buffer of " + num(B)); }; m.onContent = [&]() { look(); if (mode == 0 || (mode == 2 && c.rng.chance(50))) got += cl.consumeContent(); }; m.onFinished = [&]() { ++fins; look(); };
		m.begin(); cl.get(urlOf(u.url(), "/b")); qint64 gotBefore = -1; QElapsedTimer tm; tm.start();
		bool ok = net.wait([&]() { look(); if (!c.ok()) return true; if (pausing) { if (++idle > 30 && (cl.content().size() >= B || !m.open || idle > 200)) { pausing = false; if (big && !m.open && fins) c.fail("finished-unread", "finished with " + num(cl.content().size()) + " of " + num(s.content.size()) + " bytes taken in"); } return false; } if (mode == 4) return !m.open; if (mode != 0 && c.rng.chance(50)) got += cl.consumeContent(); else if (mode == 0 && ++idle % 50 == 0) got += cl.consumeContent(); if (got.size() != gotBefore) { gotBefore = got.size(); } return !m.open; }, 30000);
		if (!c.ok()) break; if (!ok) { c.stall("not-finished", num(got.size()) + " of " + num(s.content.size()) + " bytes received"); return; } got += cl.consumeContent(); if (m.error != Client::NoError) { c.fail(BA("error:") + errName(m.error), BA(errName(m.error)) + " after " + num(got.size()) + " of " + num(s.content.size()) + " bytes" + (fin ? ", server closed after its response" : "")); break; } if (got != s.content) c.fail("content", diffText(s.content, got)); if (fins != 1) c.fail("finished-count", num(fins)); c.count("responses"); c.count("bytes", got.size()); c.count(big ? "beyond_buffer" : "within_buffer"); c.distinct(fnv(s.wire.left(300)) * 31 + B * 7 + mode);
		net.settle(2); if (fin) waitFor(c, [&]() { QTcpSocket* q = sockOf(&cl); return !q || q->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, 1000);
	}
	c.sample(c.note);
}
// The limit is on what is received compressed, too. (Content that does not get smaller, so that what is held can be told.)
FAMILY(C31, compressed, 150, 2000)
{
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); Rng& r = c.rng; int n = r.range(1, 3); c.note = "";
	for (int i = 0; i < n && c.ok(); ++i)
	{
		int B = r.chance(50) ? r.range(100, 3000) : r.range(3000, 40000); cl.setReadBufferSize(B); RespOpts o; Script s; do s = clientScript(r, false, i, o); while (s.noBody()); BA plain = r.bytes(qMin(1500000, B * r.range(1, 40))); while (s.headers.size() > 5) s.headers.pop_back(); for (size_t k = 0; k < s.headers.size(); ) if (lower(s.headers[k].first) == "content-encoding") s.headers.erase(s.headers.begin() + k); else ++k; s.headers.push_back(std::make_pair(BA("Content-Encoding"), BA("gzip"))); s.content = gzipped(r, plain); finishScript(r, s, o);
		bool fin = s.framing == Script::CLOSE || r.chance(30), lazy = r.chance(60); u.onRequest = [&](Upstream::C& k, const RawReq&) { u.reply(k, std::vector<BA>(1, s.wire), fin ? Upstream::FIN : Upstream::KEEP); }; c.note += "read buffer " + num(B) + ", gzip of " + num(plain.size()) + "B" + (lazy ? " read late; " : "; "); BA got; qint64 limit = 4 * qint64(B) + 140000; // a block or two of what the decoder holds back
		auto look = [&]() { qint64 h = cl.content().size(); if (h > limit) c.fail("buffer-exceeded", num(h) + " bytes held with a read buffer of " + num(B)); }; m.onContent = look; m.onFinished = look; m.begin(); cl.get(urlOf(u.url(), "/z")); if (lazy) { net.settle(40); look(); } int idle = 0;
		bool ok = net.wait([&]() { look(); if (!c.ok()) return true; if (!lazy || ++idle % 8 == 0) got += cl.consumeContent(); return !m.open; }, 30000); if (!c.ok()) break; if (!ok) { c.stall("not-finished", num(got.size()) + " of " + num(plain.size()) + " bytes received"); return; } got += cl.consumeContent();
		if (m.error != Client::NoError) c.fail(BA("error:") + errName(m.error), BA(errName(m.error)) + " after " + num(got.size()) + " of " + num(plain.size()) + " bytes"); else if (got != plain) c.fail("content", diffText(plain, got)); c.count("compressed_responses"); c.distinct(fnv(c.note)); net.settle(2); if (fin) waitFor(c, [&]() { QTcpSocket* q = sockOf(&cl); return !q || q->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, 1000);
	}
	c.sample(c.note);
}
// The size of the read buffer is changed while a response arrives; in the end without limit, so that the rest comes without consuming.
FAMILY(C31, changed, 300, 3000)
{
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); int n = c.rng.range(1, 3); c.note = "";
	for (int i = 0; i < n && c.ok(); ++i)
	{
		int B = c.rng.chance(50) ? c.rng.range(1, 300) : c.rng.range(1, 20000); cl.setReadBufferSize(B); RespOpts o; Script s; do s = clientScript(c.rng, false, i, o); while (s.noBody()); s.content = contentOf(c.rng, i, c.rng.chance(50) ? c.rng.range(1, 3 * B) : c.rng.range(1, 60000)); finishScript(c.rng, s, o); bool fin = s.framing == Script::CLOSE || c.rng.chance(40); std::vector<BA> v; if (c.rng.chance(60)) v.push_back(s.wire); else { int p = 0; while (p < s.wire.size()) { int k = c.rng.range(1, 1 + s.wire.size() / 6); v.push_back(s.wire.mid(p, k)); p += k; } }
		u.onRequest = [&](Upstream::C& k, const RawReq&) { u.reply(k, v, fin ? Upstream::FIN : Upstream::KEEP); }; BA got; c.note += (i ? "; " : "") + scriptText(s) + " in " + num(int(v.size())) + (fin ? " FIN" : "") + ", read buffer " + num(B); m.begin(); cl.get(urlOf(u.url(), "/b"));
		int changes = c.rng.below(4); bool eats = c.rng.chance(30); for (int k = 0; k < changes && m.open; ++k) { net.settle(c.rng.below(15)); if (eats && c.rng.chance(50)) got += cl.consumeContent(); int nb = c.rng.chance(60) ? B + c.rng.range(0, 2000) : c.rng.range(1, 20000); cl.setReadBufferSize(nb); c.note += " " + num(nb); B = nb; } net.settle(c.rng.below(30)); if (m.open) cl.setReadBufferSize(0); c.note += " 0"; c.count("changes", changes + 1);
		if (!net.wait([&]() { return !m.open; })) { c.stall("not-finished", num(cl.content().size() + got.size()) + " of " + num(s.content.size()) + " bytes received"); return; } got += cl.consumeContent(); if (m.error != Client::NoError) c.fail(BA("error:") + errName(m.error), BA(errName(m.error)) + " after " + num(got.size()) + " of " + num(s.content.size()) + " bytes"); else if (got != s.content) c.fail("content", diffText(s.content, got)); c.count("responses"); c.distinct(fnv(c.note)); net.settle(2); if (fin) waitFor(c, [&]() { QTcpSocket* q = sockOf(&cl); return !q || q->state() == QAbstractSocket::UnconnectedState; }, [&]() { net.poll(); }, 1000);
	}
	c.sample(c.note);
}

// ================================================================ C35
static BA mutate(Rng& r, BA w)
{
	int k = r.range(0, 6); while (k-- && !w.isEmpty()) { int p = r.chance(60) ? r.below(qMin(w.size(), 300)) : r.below(w.size()); switch (r.below(8)) { case 0: w[p] = char(r.next()); break; case 1: w.remove(p, r.range(1, 8)); break; case 2: w.insert(p, r.bytes(r.range(1, 6))); break; case 3: { static const char* t[] = {"Content-Length: ", "Content-Length: -1\r\n", "Content-Length: 99999999999999999999\r\n", "Transfer-Encoding: chunked\r\n", "\r\n", "\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\n", "ffffffffffffffff\r\n", "FFFFFFFF\r\n", "0\r\n\r\n", "Connection: close\r\n", "Content-Encoding: gzip\r\n", "HTTP/1.1 200 OK\r\n", "\x1f\x8b\x08", "Upgrade: x\r\n", "HTTP/1.1 101 Switching\r\n\r\n", " folded\r\n", ": \r\n", "80000000\r\n"}; w.insert(p, t[r.below(19)]); break; } case 4: w.insert(p, w.mid(r.below(w.size()), r.range(1, 60))); break; case 5: w.truncate(p); break; case 6: w.insert(p, BA(r.range(1, 3000), r.ch("A\r\n 0\xff:"))); break; default: w[p] = r.ch("\r\n :0159;\t/H"); } } return w;
}
FAMILY(C35, parser, 12000, 150000)
{
	Parser p; int n = c.rng.range(1, 3); c.note = "";
	for (int i = 0; i < n; ++i) { RespOpts o; o.maxBody = 400; Script s = clientScript(c.rng, false, i, o); finishScript(c.rng, s, o); BA w = c.rng.chance(10) ? c.rng.bytes(c.rng.size(400)) : mutate(c.rng, s.wire + (c.rng.chance(20) ? s.wire : BA())); c.note += (i ? " | " : "") + show(w, 200); p.reset(); int total = 0; for (auto& x : split(c.rng, w)) { std::unique_ptr<char[]> exact(new char[x.size() ? x.size() : 1]); memcpy(exact.get(), x.constData(), x.size()); int off = 0, rounds = 0; while (off < x.size() && !p.hasError() && rounds++ < 400) { int used = p.inject(exact.get() + off, x.size() - off); if (used < 0 || used > x.size() - off) { c.fail("consumed", num(used) + " of " + num(x.size() - off)); return; } off += used; total += used; } } p.injectEof(); if (p.body.size() > total) c.fail("content-invented", num(p.body.size()) + " content bytes from " + num(total) + " bytes"); c.count("streams"); c.count("bytes", w.size()); c.distinct(fnv(w)); if (p.nHeaders) c.count("heads"); if (p.nComplete) c.count("completed"); if (p.hasError()) c.count("rejected"); p.clear(); }
	Script s = clientScript(c.rng, false, 7); finishScript(c.rng, s); parseOne(c, p, s, split(c.rng, s.wire));
}
FAMILY(C35, client, 3000, 30000)
{
	Net net(c); Upstream& u = *net.up[0]; Client cl; Mon m(c, &cl); int n = c.rng.range(1, 3); c.note = ""; if (c.rng.chance(15)) cl.setReadBufferSize(c.rng.range(1, 2000)); bool act = c.rng.chance(20); m.consume = c.rng.chance(40) || cl.readBufferSize() > 0;
	for (int i = 0; i <= n && c.ok(); ++i)
	{
		bool good = i == n, head = c.rng.chance(10); RespOpts o; o.maxBody = c.rng.chance(10) ? 60000 : 600; o.gzip = c.rng.chance(25) && !head; Script s = clientScript(c.rng, head, i, o); BA plain = s.content; if (o.gzip && s.framing != Script::NONE) s.content = gzipped(c.rng, plain); finishScript(c.rng, s, o); BA want = s.noBody() ? BA() : o.gzip && s.framing != Script::NONE ? plain : s.content; BA w = good ? s.wire : c.rng.chance(8) ? c.rng.bytes(c.rng.size(3000)) : mutate(c.rng, (c.rng.chance(15) ? BA("HTTP/1.1 100 Continue\r\n\r\n") : BA()) + s.wire + (c.rng.chance(15) ? s.wire : BA())); std::vector<BA> v = w.isEmpty() ? std::vector<BA>() : split(c.rng, w); if (v.size() > 30) v.assign(1, w); int end = good ? (s.framing == Script::CLOSE && !s.noBody() ? Upstream::FIN : Upstream::KEEP) : c.rng.below(3); u.onRequest = [&](Upstream::C& k, const RawReq&) { u.reply(k, v, end); };
		c.note += (i ? " | " : "") + BA(head ? "HEAD " : "") + (good ? "then a good response" : show(w, 200)) + (end ? end == Upstream::FIN ? " FIN" : " RST" : ""); m.onContent = [&]() { if (act && !good && c.rng.chance(10)) cl.abort(); }; m.begin(); QUrl url = urlOf(u.url(), "/f"); if (head) cl.head(url); else cl.get(url);
		if (good) { if (!net.wait([&]() { return !m.open; })) { c.stall("not-finished", "the good response after: " + c.note); return; } judgeClient(c, m, s, head, want); c.count("followups"); break; }
		// Either it finishes, or the client legitimately waits for more: then it has to be abortable.
		int quiet = 0; waitFor(c, [&]() { if (!m.open) return true; Upstream::C* k = u.cs.empty() ? 0 : u.cs.back().get(); if (k && k->busy) { quiet = 0; return false; } return ++quiet > (end == Upstream::KEEP ? 12 : 600); }, [&]() { net.poll(); }, end == Upstream::KEEP ? 2000 : 6000);
		if (m.open) { if (end != Upstream::KEEP) { c.stall("not-finished-after-close", "server closed, request still open; content " + num(cl.content().size())); return; } c.count("aborted"); cl.abort(); if (m.open) { c.fail("abort", "abort() did not finish the request"); return; } } else c.count(m.error == Client::NoError ? "accepted" : "rejected"); c.count("streams"); c.count("bytes", w.size()); c.distinct(fnv(w)); net.settle(2); cl.abort(); // hostile leftovers must not reach the next exchange
	}
	c.sample(c.note);
}

// ================================================================ C24 / C25: the response grammar, one edit away from well-formed responses
static void responseGrammar(Ctx& c, bool valid)
{
	RespOpts o; o.maxBody = 60; Script t; do { t = clientScript(c.rng, false, c.rng.below(50), o); finishScript(c.rng, t, o); } while (t.wire.size() > 330); BA base = t.wire; c.note = "one edit away from " + show(base, 400); c.sample(c.note); Parser p; int nv = 0, ni = 0, nn = 0;
	static const char EDGES[] = "\0\t\n\r\x1f !\"#$%&'()*+,-./012349:;<=>?@AFGHZ[\\]^_`acfguz{|}~\x7f\x80\xff"; static const BA EDGE(EDGES, int(sizeof EDGES) - 1);
	auto judge = [&](const BA& w) {
		rgram::R r; rgram::Verdict v = rgram::response(w, r); if (v == rgram::UNSPECIFIED) return; p.clear(); p.reset(); BA x = v == rgram::VALID ? w.left(r.used) : w; int cut = c.rng.chance(50) ? x.size() : c.rng.below(x.size() + 1); c.count("texts");
		for (int k = 0; k < 2; ++k) { BA piece = deep(k == 0 ? x.left(cut) : x.mid(cut)); if (piece.isEmpty() || p.hasError()) continue; p.inject(piece); }
		if (v == rgram::VALID && valid)
		{
			++nv; if (p.hasError()) { c.fail("parse-error", BA("error \"") + p.errorString() + "\" for a well-formed response: " + show(w, 400)); return; } if (r.eof) { if (p.nComplete) c.fail("completed-early", "messageComplete before the end of the stream: " + show(w, 400)); p.injectEof(); }
			if (p.nComplete != 1 || p.hasError()) { c.fail("complete-count", "messageComplete called " + num(p.nComplete) + " times for " + show(w, 400)); return; } if (p.status != r.status || p.httpMinor() != r.minor) c.fail("status", num(p.status) + " for " + show(w, 400)); BA e = diffPairs(r.hs, p.hs); if (!e.isEmpty()) c.fail("headers", e + " | " + show(w, 400)); if (p.body != r.content) c.fail("content", diffText(r.content, p.body) + " | " + show(w, 400));
		}
		else if (v == rgram::INCOMPLETE && valid) { ++nn; if (p.hasError()) c.fail("parse-error", BA("error \"") + p.errorString() + "\" at the start of a well-formed response: " + show(w, 400)); if (p.nComplete) c.fail("completed-early", "messageComplete called for an incomplete response: " + show(w, 400)); }
		else if (v == rgram::INVALID && !valid) { ++ni; if (!p.hasError()) c.fail("accepted-invalid", BA("no error") + (p.nComplete ? ", messageComplete called" : "") + " for a malformed response: " + show(w, 400)); if (p.nComplete) c.fail("completed-invalid", "messageComplete called for a malformed response: " + show(w, 400)); }
	};
	judge(base);
	for (int q = 0; q < base.size() && c.ok(); ++q)
	{
		int budget = c.thorough ? 256 : 12; for (int k = 0; k < budget; ++k) { char x = c.thorough ? char(k) : c.rng.chance(80) ? EDGE.at(c.rng.below(EDGE.size())) : char(c.rng.next()); BA w = base; w[q] = x; judge(w); }
		{ BA w = base; w.remove(q, 1); judge(w); } { BA w = base; w.insert(q, EDGE.at(c.rng.below(EDGE.size()))); judge(w); } judge(base.left(q)); if (c.rng.chance(10)) { BA w = base; w.insert(q, base.mid(q, c.rng.range(1, 30))); judge(w); }
	}
	c.count("valid_texts", nv); c.count("invalid_texts", ni); c.count("incomplete_texts", nn); c.distinct(fnv(base));
}
FAMILY(C24, grammar, 300, 2500) { responseGrammar(c, true); }
FAMILY(C25, grammar, 300, 2500) { responseGrammar(c, false); }
