// Data is passed on as soon as it is there: C37. Everything runs in lock-step: nothing more is sent before what was sent has come out at the other end.
#include "sock.h"
#include "client.h"
#include "HttpHandlerProxy.h"
#include <zlib.h>

// What the bytes received so far of one response's content say; -1 if they make no sense.
static int partialBody(const BA& in, int at, bool chunked, BA& out, bool* end = 0)
{
	out.clear(); if (end) *end = false; if (!chunked) { out = in.mid(at); return 0; }
	for (;;)
	{
		int e = in.indexOf("\r\n", at); if (e < 0) return 0; int semi = in.indexOf(';', at); bool ok; int n = in.mid(at, (semi >= 0 && semi < e ? semi : e) - at).trimmed().toInt(&ok, 16); if (!ok) return -1; at = e + 2;
		if (n == 0) { if (end) *end = in.indexOf("\r\n\r\n", at - 2) >= 0; return 0; } out += in.mid(at, n); if (at + n + 2 > in.size()) return 0; if (in.mid(at + n, 2) != "\r\n") return -1; at += n + 2;
	}
}
static bool chunkedHead(const BA& head) { return lower(head).contains("\r\ntransfer-encoding: chunked\r\n"); }
static std::vector<BA> parts(Rng& r, int id, int max) { std::vector<BA> v; int n = r.range(1, 7); while (n--) v.push_back(contentOf(r, id * 100 + n, qMax(1, r.chance(70) ? r.range(1, 60) : r.size(max)))); return v; }
static BA join(const std::vector<BA>& v, size_t n = size_t(-1)) { BA b; for (size_t i = 0; i < v.size() && i < n; ++i) b += v[i]; return b; }

// Requests are announced with their last byte; what the application writes is handed over at once.
FAMILY(C37, arrivals, 1500, 60000)
{
	Rng& r = c.rng; int n = r.range(1, 6), lag = r.chance(50) ? 0 : r.range(1, 4); std::vector<Req> qs; std::vector<int> ends; BA wire; GenOpts o; o.maxBody = r.chance(20) ? 70000 : 2000;
	for (int i = 0; i < n; ++i) { Req q = genRequest(r, o); q.version = "HTTP/1.1"; bool expect = q.has("Expect"); if (expect) { --i; continue; } qs.push_back(q); wire += q.wire(); ends.push_back(wire.size()); }
	std::vector<BA> ps = split(r, wire, ends); c.note = num(n) + " requests, " + describe(ps) + (lag ? ", answered " + num(lag) + " pieces later" : BA()); c.sample(c.note);
	Session s(c); int answered = 0, since = 0; std::vector<int> readyAt; bool pieces = r.chance(40); std::vector<std::vector<BA> > bodies; for (int i = 0; i < n; ++i) bodies.push_back(parts(r, i, 3000));
	auto answer = [&](int k) {
		++answered; int before = s.d->tx.size(); if (!pieces) { BA b = join(bodies[k]); s.conn->writeResponse(200, Headers(), b); spin(); if (qs[k].method != "HEAD" && !s.d->tx.mid(before).contains(b)) c.fail("write-held-back", "writeResponse: " + num(b.size()) + " bytes of content, " + num(s.d->tx.size() - before) + " written"); return; }
		s.conn->writeHeaders(200); spin(); if (qs[k].method == "HEAD") return; if (!s.d->tx.mid(before).contains("\r\n\r\n")) c.fail("write-held-back", "writeHeaders: " + show(s.d->tx.mid(before))); for (auto& p : bodies[k]) { int at = s.d->tx.size(); s.conn->writeContent(p); spin(); if (!s.d->tx.mid(at).contains(p)) c.fail("write-held-back", "writeContent of " + num(p.size()) + " bytes, " + num(s.d->tx.size() - at) + " written"); } s.conn->endContent();
	};
	s.onReady = [&](int k) { if (!lag && !pieces) answer(k); }; s.start(); spin(); int fed = 0;
	for (size_t i = 0; i < ps.size() && c.ok(); ++i)
	{
		s.feed(ps[i]); fed += ps[i].size(); spin(); if (!lag && pieces) while (s.nReady > answered && c.ok()) { answer(answered); spin(); } if (lag && s.nReady > answered && ++since >= lag) { since = 0; answer(answered); spin(); }
		int in = 0; while (in < n && ends[in] <= fed) ++in; int want = qMin(in, answered + 1); if (s.isClosed()) break; // by the request's own wish
		if (s.nReady != want) c.fail(s.nReady < want ? "announced-late" : "announced-early", num(fed) + " bytes in: " + num(in) + " requests complete, " + num(answered) + " answered, " + num(s.nReady) + " announced"); c.count("pieces");
	}
	while (lag && s.nReady > answered && c.ok() && !s.isClosed()) { answer(answered); spin(); if (!s.isClosed() && s.nReady != qMin(n, answered + 1)) c.fail("announced-late", num(answered) + " of " + num(n) + " answered, " + num(s.nReady) + " announced"); }
	c.distinct(fnv(c.note)); s.finish();
}

// On real sockets, each piece is seen by the other side before the next one is sent.
FAMILY(C37, sockets, 500, 20000)
{
	Rng& r = c.rng; int kind = r.chance(50) ? TCP : r.chance(50) ? LOCAL : TLS; Srv s(kind); Conn* cur = 0; s.onReady = [&](Conn* x) { cur = x; }; Cli k; if (!k.connect(s)) return; alarm(200 * c.slow); int n = r.range(1, 4); BA in; c.note = BA(KINDS[kind]) + ":"; auto poll = [&]() { k.poll(); };
	if (kind == TLS && !waitFor(c, [&]() { return k.handshaken; }, poll)) { c.stall("handshake", c.note); return; }
	for (int i = 0; i < n && c.ok(); ++i)
	{
		GenOpts o; o.maxBody = r.chance(15) ? 300000 : 2000; Req q = genRequest(r, o); if (q.method == "HEAD" || q.has("Expect")) { --i; continue; } q.version = "HTTP/1.1"; int framing = r.below(3); BA w = q.wire(); std::vector<BA> ps = split(r, w); if (ps.size() > 5) ps = std::vector<BA>(1, w); std::vector<BA> body = parts(r, i, 300000); c.note += " " + num(w.size()) + "B in " + num(int(ps.size())) + ", " + (framing == 0 ? "length" : framing == 1 ? "chunked" : "whole") + " in " + num(int(body.size())); if (!i) c.sample(c.note);
		cur = 0; for (size_t j = 0; j < ps.size(); ++j) { if (cur) c.fail("announced-early", c.note); k.send(ps[j]); if (j + 1 < ps.size()) { if (!waitFor(c, [&]() { return k.out.isEmpty() && k.p.out.isEmpty(); }, poll)) { c.stall("not-read", c.note); return; } spin(); } }
		if (!waitFor(c, [&]() { return cur || k.eof; }, poll)) { c.stall("announced-late", c.note); return; } if (!cur) { if (c.ok()) c.count("closed"); return; } c.count("requests"); k.in.clear(); int at = -1; bool chunked = false; Conn* x = cur;
		auto seen = [&](const BA& want, const char* what) { bool ok = waitFor(c, [&]() { if (at < 0) { int e = k.in.indexOf("\r\n\r\n"); if (e < 0) return k.eof; at = e + 4; chunked = chunkedHead(k.in.left(at)); } BA b; if (partialBody(k.in, at, chunked, b) < 0) { c.fail("framing", c.note + ": " + show(k.in.mid(at), 200)); return true; } return b.size() >= want.size() || k.eof; }, poll); BA b; if (at >= 0) partialBody(k.in, at, chunked, b); if (!ok) c.stall("held-back", c.note + ": " + what + ": " + num(b.size()) + " of " + num(want.size()) + " bytes reached the client" + (at < 0 ? ", no headers" : "")); else if (c.ok() && b != want) c.fail("content", c.note + ": " + diffText(want, b)); c.count("pieces"); return ok; };
		BA all = join(body); if (framing == 2) { x->writeResponse(200, Headers(), all); if (!seen(all, "whole response")) return; } else { if (framing == 0) x->writeHeaders(200, hdrs({{"Content-Length", num(all.size())}})); else x->writeHeaders(200); if (!seen(BA(), "headers")) return; for (size_t j = 0; j < body.size() && c.ok(); ++j) { x->writeContent(body[j]); if (!seen(join(body, j + 1), "piece")) return; } if (framing == 1) { x->endContent(); bool over = false; if (!waitFor(c, [&]() { BA b; partialBody(k.in, at, chunked, b, &over); return over || k.eof; }, poll)) { c.stall("held-back", c.note + ": end of the chunks"); return; } } }
		if (k.eof) break;
	}
	c.distinct(fnv(c.note));
}

// Responses in lock-step: what has come out of the pieces sent so far must not wait for the next one.
struct Flow { Script s; BA plain; std::vector<BA> pieces; std::vector<BA> want; std::vector<char> headIn, done; int end; bool gz; };
static Flow flowOf(Rng& r, bool head, int id, bool coded)
{
	Flow f; RespOpts o; o.maxBody = 1; f.gz = coded && !head && r.chance(40); o.gzip = f.gz; o.extra = false; f.s = clientScript(r, head, id, o); Script& s = f.s; if (s.framing == Script::NONE) f.gz = false;
	std::vector<BA> plain = parts(r, id, r.chance(10) ? 200000 : 3000), sent; 
	if (f.gz) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, r.range(1, 9), Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY); for (size_t i = 0; i < plain.size(); ++i) { BA out(plain[i].size() + plain[i].size() / 100 + 1000, 0); z.next_in = (Bytef*)plain[i].data(); z.avail_in = plain[i].size(); z.next_out = (Bytef*)out.data(); z.avail_out = out.size(); deflate(&z, i + 1 == plain.size() ? Z_FINISH : Z_SYNC_FLUSH); out.resize(out.size() - int(z.avail_out)); sent.push_back(out); } deflateEnd(&z); } else sent = plain;
	s.content = join(sent); f.plain = join(plain); finishScript(r, s, o); f.end = Upstream::KEEP; std::vector<BA>& p = f.pieces; BA w = s.wire; bool chunked = s.framing == Script::CHUNKED;
	auto add = [&](const BA& piece, const BA& want, bool headIn, bool done) { p.push_back(piece); f.want.push_back(want); f.headIn.push_back(headIn); f.done.push_back(done); };
	if (s.noBody()) { f.plain.clear(); f.gz = false; int cut = r.chance(50) ? 0 : r.range(1, w.size() - 1); if (cut) add(w.left(cut), BA(), false, false); add(w.mid(cut), BA(), true, true); return f; }
	BA h = w.left(s.headEnd); int cut = r.chance(50) ? 0 : r.range(1, h.size() - 1); if (cut) add(h.left(cut), BA(), false, false); bool ends = s.framing != Script::CLOSE;
	if (f.gz)
	{
		// One piece for each flushed part; chunk boundaries are drawn anew.
		BA first = h.mid(cut); bool alone = r.chance(50); if (alone) { add(first, BA(), true, false); first.clear(); } BA sofar; for (size_t i = 0; i < sent.size(); ++i) { bool last = i + 1 == sent.size(); sofar += plain[i]; BA b = first + (chunked ? BA::number(sent[i].size(), 16) + "\r\n" + sent[i] + "\r\n" : sent[i]); first.clear(); bool tail = last && chunked && r.chance(50); if (last && chunked && !tail) b += "0\r\n\r\n"; add(b, sofar, true, last && ends && !tail); if (tail) add("0\r\n\r\n", sofar, true, true); }
		return f;
	}
	BA rest = w.mid(s.headEnd); std::vector<BA> ps = split(r, rest); if (ps.size() > 8) { ps.clear(); for (int at = 0; at < rest.size(); ) { int n = r.range(1, qMax(1, rest.size() / 3)); ps.push_back(rest.mid(at, n)); at += n; } } if (rest.isEmpty()) { add(h.mid(cut), BA(), true, ends); return f; } size_t i = 0; BA got; if (r.chance(50)) add(h.mid(cut), BA(), true, false); else { got = ps[0]; BA b; partialBody(got, 0, chunked, b); add(h.mid(cut) + ps[0], b, true, ends && got.size() == rest.size()); i = 1; }
	for (; i < ps.size(); ++i) { got += ps[i]; BA b; partialBody(got, 0, chunked, b); add(ps[i], b, true, ends && got.size() == rest.size()); } return f;
}
static BA flowText(const Flow& f) { BA t = f.s.version + " " + num(f.s.status) + " framing " + num(f.s.framing) + (f.s.head ? " HEAD" : "") + (f.gz ? " gzip" : "") + ":"; for (size_t i = 0; i < f.pieces.size() && i < 12; ++i) t += " " + num(f.pieces[i].size()) + "->" + num(f.want[i].size()) + (f.headIn[i] ? "h" : "") + (f.done[i] ? "d" : ""); return t; }

FAMILY(C37, responses, 700, 30000)
{
	Rng& r = c.rng; Net net(c); Upstream& u = *net.up[0]; bool viaManager = r.chance(40), bounded = !viaManager && r.chance(25); Client cl; Pillow::NetworkAccessManager nam; if (bounded) cl.setReadBufferSize(r.range(1000, 100000)); alarm(200 * c.slow); int n = r.range(1, 5); Upstream::C* on = 0; BA sentBody; bool arrived = false; c.note = viaManager ? "manager:" : bounded ? "bounded client:" : "client:"; bool chain = r.chance(50);
	u.onRequest = [&](Upstream::C& k, const RawReq& q) { on = &k; k.busy = true; k.wait = -1000000000; arrived = true; if (q.content != sentBody) c.fail("request-content", diffText(sentBody, q.content)); };
	int keep = bounded || r.chance(60) ? 0 : viaManager ? r.range(1, 2) : 1; if (keep) c.note += " (looked at" + BA(keep == 2 ? ", unread)" : ")"); int announced = 0; BA got; bool head = false, done = false; QObject::connect(&cl, &Client::headersCompleted, &cl, [&]() { head = true; }); QObject::connect(&cl, &Client::contentReadyRead, &cl, [&]() { ++announced; if (keep) got = cl.content(); else got += cl.consumeContent(); }); std::vector<Flow> fs; std::vector<BA> bodies; for (int i = 0; i < n; ++i) { bool hd = r.chance(8); fs.push_back(flowOf(r, hd, i, true)); bodies.push_back(hd || r.chance(60) ? BA() : contentOf(r, i, r.size(r.chance(10) ? 400000 : 5000))); c.note += " [" + flowText(fs.back()) + "]"; } c.sample(c.note);
	std::unique_ptr<QNetworkReply> rep; int at = 0; auto start = [&]() { Flow& f = fs[at]; got.clear(); head = done = arrived = false; on = 0; sentBody = bodies[at]; QUrl url = urlOf(u.url(), "/r" + num(at)); ++at; if (viaManager) { QNetworkRequest q(url); q.setHeader(QNetworkRequest::ContentTypeHeader, "text/plain"); rep.reset(f.s.head ? nam.head(q) : sentBody.size() ? nam.post(q, sentBody) : nam.get(q)); QNetworkReply* p = rep.get(); QObject::connect(p, &QNetworkReply::metaDataChanged, p, [&]() { head = true; }); QObject::connect(p, &QNetworkReply::readyRead, p, [&, p]() { ++announced; if (keep == 2) got = f.plain.left(int(p->bytesAvailable())); else if (keep) got = p->peek(p->bytesAvailable()); else got += p->readAll(); }); QObject::connect(p, &QNetworkReply::finished, p, [&, p]() { done = true; if (keep) { int n = int(p->bytesAvailable()); BA all = p->readAll(); if (all.size() != n) c.fail("available", c.note + ": " + num(n) + " bytes announced, " + num(all.size()) + " read"); got = all; } }); } else if (f.s.head) cl.head(url); else if (sentBody.size()) cl.post(url, Headers(), sentBody); else cl.get(url); };
	bool pending = false; QObject::connect(&cl, &Client::finished, &cl, [&]() { done = true; if (chain && at < n && pending) { pending = false; start(); } });
	for (int i = 0; i < n && c.ok(); ++i)
	{
		Flow& f = fs[i]; if (at == i) start(); BA what = c.note + ": response " + num(i); if (!net.wait([&]() { return arrived || done; })) { c.stall("request-held-back", what + ": the request did not arrive"); break; } if (!arrived) { c.fail("finished-early", what); break; } Upstream::C* k = on; int id = k->id; bool launched = false;
		for (size_t j = 0; j < f.pieces.size() && c.ok(); ++j)
		{
			if (!(k = u.conn(id))) { c.fail("closed-early", what + ": closed before piece " + num(int(j))); break; } bool last = f.done[j]; if (last && chain && !viaManager && i + 1 < n) pending = launched = true; int signalled = announced; bool more = f.want[j].size() > (j ? f.want[j - 1].size() : 0); k->p.send(f.pieces[j]);
			bool ok = net.wait([&]() { if (launched && at == i + 2) return true; return (!f.headIn[j] || head) && got.size() >= f.want[j].size() && (!last || done); }); if (!ok) { c.stall(!f.headIn[j] || head ? got.size() < f.want[j].size() ? "content-held-back" : "finished-late" : "headers-held-back", what + " after piece " + num(int(j)) + ": " + (head ? "" : "no headers, ") + num(got.size()) + " of " + num(f.want[j].size()) + " bytes, " + (done ? "finished" : "not finished")); return; }
			if (more && announced == signalled && !(launched && at == i + 2)) c.fail("not-announced", what + " after piece " + num(int(j)) + ": content arrived without a signal"); if (!(launched && at == i + 2) && got != f.want[j]) c.fail("content", what + " after piece " + num(int(j)) + ": " + diffText(f.want[j], got)); if (!last && done) c.fail("finished-early", what + " after piece " + num(int(j)) + " of " + num(int(f.pieces.size()))); c.count("pieces");
		}
		if (!c.ok()) break; if (!f.done.back()) { if ((k = u.conn(id))) k->p.shut(); if (!net.wait([&]() { return done; })) { c.stall("finished-late", what + " after the server closed"); return; } } else if ((k = u.conn(id))) { k->busy = false; k->wait = 0; if (!keepsAlive(f.s)) k->p.shut(); } net.poll(); c.count("responses");
	}
	if (c.ok()) c.distinct(fnv(c.note)); rep.reset(); u.onRequest = 0;
}

// The proxy relays each piece before the next one is there.
FAMILY(C37, relay, 300, 12000)
{
	Rng& r = c.rng; Net net(c); Upstream& u = *net.up[0]; int kind = r.chance(60) ? TCP : LOCAL; Srv s(kind); std::unique_ptr<Pillow::HttpHandlerProxy> h(new Pillow::HttpHandlerProxy(QUrl(u.url()))); s.onReady = [&](Conn* x) { h->handleRequest(x); }; alarm(200 * c.slow); Cli k; if (!k.connect(s)) return; int n = r.range(1, 4); Upstream::C* on = 0; u.onRequest = [&](Upstream::C& q, const RawReq&) { on = &q; q.busy = true; q.wait = -1000000000; }; net.extra = [&]() { k.poll(); }; c.note = BA(KINDS[kind]) + ":";
	for (int i = 0; i < n && c.ok(); ++i)
	{
		Flow f = flowOf(r, false, i, true); if (f.s.noBody() || f.s.status / 100 != 2 || f.plain.isEmpty()) { --i; continue; } c.note += " [" + flowText(f) + "]"; if (!i) c.sample(c.note); on = 0; k.in.clear(); BA body = r.chance(30) ? contentOf(r, i, r.size(20000)) : BA(); k.send((body.isEmpty() ? BA("GET") : BA("POST")) + " /r" + num(i) + " HTTP/1.1\r\nHost: x\r\nAccept-Encoding: gzip\r\n" + (body.isEmpty() ? BA() : "Content-Length: " + num(body.size()) + "\r\n") + "\r\n" + body);
		if (!net.wait([&]() { return on || k.eof; })) { c.stall("request-held-back", c.note); return; } if (!on) break; int id = on->id; int at = -1; bool chunked = false, over = false; BA raw, enc;
		auto decode = [&](BA& b) { if (at < 0) { int e = k.in.indexOf("\r\n\r\n"); if (e < 0) return false; at = e + 4; chunked = chunkedHead(k.in.left(at)); } if (partialBody(k.in, at, chunked, b, &over) < 0) c.fail("framing", c.note + ": " + show(k.in.mid(at), 200)); return true; };
		for (size_t j = 0; j < f.pieces.size() && c.ok(); ++j)
		{
			Upstream::C* q = u.conn(id); if (!q) { c.count("given_up"); return; } q->p.send(f.pieces[j]); raw += f.pieces[j]; BA want; int he = raw.indexOf("\r\n\r\n"); if (he >= 0) partialBody(raw, he + 4, f.s.framing == Script::CHUNKED, want); if (want.isEmpty() && !f.done[j]) { net.settle(2); continue; } // nothing to see before there is content
			BA b; bool ok = net.wait([&]() { return decode(b) && (b.size() >= want.size() || !c.ok()); }); if (!ok) { c.stall("held-back", c.note + " response " + num(i) + " after piece " + num(int(j)) + ": " + num(b.size()) + " of " + num(want.size()) + " bytes" + (at < 0 ? ", no headers" : "")); return; } if (b != want) c.fail("content", c.note + ": " + diffText(want, b)); c.count("pieces");
		}
		if (!c.ok()) break; if (Upstream::C* q = u.conn(id)) { if (!f.done.back() || !keepsAlive(f.s)) q->p.shut(); else { q->busy = false; q->wait = 0; } } BA b; if (chunked && !net.wait([&]() { decode(b); return over || k.eof; })) { c.stall("held-back", c.note + ": end of the chunks"); return; } net.settle(2); c.count("responses"); if (k.eof) break;
	}
	if (c.ok()) c.distinct(fnv(c.note)); k.shut(); net.settle(3); h.reset(); u.onRequest = 0; net.extra = std::function<void()>();
}

// Large files go out in portions of at most the buffer size, each as soon as there is room.
static void putFile(const BA& path, const BA& content) { int f = ::open(path.constData(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f < 0) return; int at = 0; while (at < content.size()) { ssize_t n = ::write(f, content.constData() + at, content.size() - at); if (n <= 0) break; at += int(n); } ::close(f); }
FAMILY(C37, portions, 300, 12000)
{
	Rng& r = c.rng; QString dir = scratchDir() + "/port"; QDir().mkpath(dir); int asked = r.chance(15) ? r.below(600) : r.chance(40) ? r.range(512, 5000) : r.size(70000), buf = qMax(512, asked), size = buf + (r.chance(20) ? r.range(1, 3) : 1 + r.size(r.chance(50) ? buf * 3 : 300000)); BA content = bodyFor(c.index, size); putFile(dir.toLatin1() + "/f", content); std::unique_ptr<Pillow::HttpHandlerFile> h(new Pillow::HttpHandlerFile(dir)); h->setBufferSize(asked); c.note = "buffer " + num(asked) + ", file " + num(size); c.sample(c.note);
	Session s(c, 0, false); s.onReady = [&](int) { h->handleRequest(s.conn); }; s.start(); int rounds = r.range(1, 2), base = 0;
	for (int k = 0; k < rounds && c.ok(); ++k)
	{
		s.feed("GET /f HTTP/1.1\r\nHost: x\r\n\r\n"); spin(); int head = s.d->tx.indexOf("\r\n\r\n", base); if (head < 0) { c.fail("no-headers", c.note); break; } head += 4; int steps = 0;
		for (;;)
		{
			int out = s.d->tx.size() - head, room = head - base; if (s.d->backlog > buf + room) { c.fail("hoarded", c.note + ": " + num(s.d->backlog) + " bytes unwritten with " + num(out) + " of " + num(size) + " handed over"); break; } if (out >= size) break; if (s.d->backlog == 0) { c.fail("stopped", c.note + ": nothing more after " + num(out) + " of " + num(size) + " bytes"); break; }
			qint64 n = r.chance(30) ? s.d->backlog : r.range(1, qMax(1, int(s.d->backlog))); s.d->drain(n); spin(); if (++steps > 6 && s.d->backlog < buf / 2 && s.d->tx.size() - head < size && 0) break; c.count("steps"); if (steps > 3000) break;
		}
		if (c.ok() && s.d->tx.mid(head) != content) c.fail("content", c.note + ": " + diffText(content, s.d->tx.mid(head))); s.d->drain(s.d->backlog); spin(); base = s.d->tx.size(); c.count("files");
	}
	if (c.ok()) c.distinct(fnv(c.note)); s.finish();
}
FAMILY(C37, unread, 100, 4000)
{
	// A client that does not read holds up its own transfer, and nobody else's; the server does not take the file into memory meanwhile.
	Rng& r = c.rng; int kind = c.index % 3; QString dir = scratchDir() + "/unread"; QDir().mkpath(dir); int buf = r.range(512, 70000), size = r.range(20, 28) << 20; static BA content; if (content.isEmpty()) content = bodyFor(1, 28 << 20); BA f = dir.toLatin1() + "/f"; putFile(f, content.left(size)); putFile(dir.toLatin1() + "/small", "small"); Pillow::HttpHandlerFile h(dir); h.setBufferSize(buf); Srv s(kind); s.onReady = [&](Conn* x) { h.handleRequest(x); }; alarm(200 * c.slow); c.note = BA(KINDS[kind]) + ", buffer " + num(buf) + ", file " + num(size); c.sample(c.note);
	Cli k, k2; if (!k.connect(s, 8192) || !k2.connect(s)) return; auto poll = [&]() { k.poll(); k2.poll(); }; if (kind == TLS && !waitFor(c, [&]() { return k.handshaken && k2.handshaken; }, poll)) { c.stall("handshake", c.note); return; } qint64 before = heapBytes(); k.readLimit = 2000; k.send("GET /f HTTP/1.1\r\nHost: x\r\n\r\n"); if (!waitFor(c, [&]() { return k.in.size() > 0; }, poll)) { c.stall("held-back", c.note); return; }
	for (int i = 0; i < 60 + (24 << 20) / buf && i < 3000; ++i) { spin(); poll(); } for (int i = 0; i < 3; ++i) { k2.in.clear(); k2.send("GET /small HTTP/1.1\r\nHost: x\r\n\r\n"); if (!waitFor(c, [&]() { return k2.in.contains("\r\n\r\nsmall"); }, poll)) { c.stall("others-held-up", c.note); return; } }
	qint64 kept = heapBytes() - before; if (kept > (4 << 20) + 4 * buf) c.fail("hoarded", c.note + ": " + num(kept) + " bytes of memory taken for a client that does not read"); c.count("kept_kb", kept >> 10); k.readLimit = 2000; int step = r.range(100000, 3000000); qint64 peak = 0;
	for (int i = 0; i < 4; ++i) { k.readLimit += step; if (!waitFor(c, [&]() { return k.in.size() >= k.readLimit || k.eof; }, poll)) { c.stall("stopped", c.note + ": " + num(k.in.size()) + " bytes read"); return; } qint64 now = heapBytes() - before - k.in.capacity(); peak = qMax(peak, now); } if (peak > (8 << 20) + 4 * buf) c.fail("hoarded", c.note + ": " + num(peak) + " bytes of memory taken while the client reads on"); if (c.ok()) c.distinct(fnv(c.note)); int head = k.in.indexOf("\r\n\r\n") + 4; if (k.in.mid(head) != content.mid(0, k.in.size() - head)) c.fail("content", c.note);
}
