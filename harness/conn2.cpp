// Response side of the server connection: wire bytes (C04), API misuse (C05), keep-alive negotiation (C06).
#include "session.h"

// ================================================================ C04
static const int kCodes[] = {200,201,202,203,205,206,300,301,302,303,305,307,400,401,403,404,405,406,407,408,409,410,411,412,413,414,415,416,417,500,501,502,503,504,505};
struct Answer { int status; Headers headers; BA content; int api; std::vector<int> cuts; bool close; }; // api 0 writeResponse 1 String 2 headers(CL)+content 3 chunked 4 until close
static void give(Conn* k, const Answer& a)
{
	if (a.api == 0) { k->writeResponse(a.status, a.headers, a.content); return; }
	if (a.api == 1) { k->writeResponseString(a.status, a.headers, QString::fromUtf8(a.content)); return; }
	Headers h = a.headers;
	if (a.api == 2) h << Header("Content-Length", num(a.content.size())); else if (a.api == 3) h << Header("Transfer-Encoding", "chunked");
	k->writeHeaders(a.status, h);
	int pos = 0; for (size_t i = 0; i <= a.cuts.size(); ++i) { int e = i < a.cuts.size() ? a.cuts[i] : a.content.size(); if (e > pos) k->writeContent(a.content.mid(pos, e - pos)); pos = qMax(pos, e); }
	if (a.api >= 3) k->endContent();
}
static BA utf8Text(Rng& r, int n) { BA b; static const char* u[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3\x9f"}; while (b.size() < n) { if (r.chance(10)) b += u[r.below(4)]; else b += char(r.range(32, 126)); } return b; }
static Answer genAnswer(Rng& r)
{
	Answer a; a.close = false;
	switch (r.below(12)) { case 0: a.status = r.range(-5, 1200); break; case 1: a.status = r.chance(50) ? 204 : 304; break; default: a.status = kCodes[r.below(int(sizeof kCodes / sizeof *kCodes))]; }
	if (a.status / 100 == 1) a.status = 200;
	a.api = r.below(5);
	int n = r.chance(10) ? 0 : r.chance(6) ? r.range(60000, 400000) : r.size(9000);
	if (a.status == 204 || a.status == 304) { n = 0; a.api = r.below(2); }
	a.content = a.api == 1 ? utf8Text(r, n) : r.bytes(n);
	int nh = r.below(7);
	for (int i = 0; i < nh; ++i)
	{
		BA name; switch (r.below(4)) { case 0: name = "Set-Cookie"; break; case 1: name = "X-App-" + num(r.below(5)); break; default: name = genToken(r, r.range(1, 20)); }
		BA ln = lower(name); if (ln == "content-length" || ln == "content-type" || ln == "connection" || ln == "transfer-encoding") name = "Y" + name;
		BA v; int vl = r.chance(8) ? r.size(6000) : r.below(40); for (int k = 0; k < vl; ++k) v += char(r.chance(10) ? r.range(128, 255) : r.range(33, 126));
		a.headers << Header(name, v);
	}
	if (r.chance(40)) a.headers.insert(r.below(a.headers.size() + 1), Header(r.chance(50) ? BA("Content-Type") : BA("content-TYPE"), "application/x-" + r.str("abcdef", 5)));
	if (a.api >= 2) { int k = r.below(5); std::set<int> cs; while (k--) cs.insert(r.below(a.content.size() + 1)); a.cuts.assign(cs.begin(), cs.end()); }
	return a;
}
static std::vector<std::pair<BA,BA> > appHeaders(const Headers& h) { std::vector<std::pair<BA,BA> > o; for (int i = 0; i < h.size(); ++i) { BA n = lower(h.at(i).first); if (n != "content-length" && n != "content-type" && n != "connection" && n != "transfer-encoding") o.push_back(std::make_pair(deep(h.at(i).first), deep(h.at(i).second))); } return o; }
static void checkAnswer(Ctx& c, const Answer& a, const BA& method, bool http11, const Resp& r, bool closed)
{
	int want = Pillow::HttpProtocol::StatusCodes::getStatusCodeAndMessage(a.status) ? a.status : 500;
	if (r.status != want) c.fail("status", "status line " + show(r.statusLine, 80) + " for status " + num(a.status));
	if (r.reason.isEmpty()) c.fail("reason", "no reason phrase: " + show(r.statusLine, 80));
	else if (want == 500 && r.reason != "Internal Server Error") c.fail("reason", "status line " + show(r.statusLine, 80));
	if (r.version != (http11 ? "HTTP/1.1" : "HTTP/1.0")) c.fail("version", "status line " + show(r.statusLine, 80));
	std::vector<std::pair<BA,BA> > got; for (auto& h : r.headers) { BA n = lower(h.first); if (n != "content-length" && n != "content-type" && n != "connection" && n != "transfer-encoding") got.push_back(h); }
	if (got != appHeaders(a.headers)) { auto w = appHeaders(a.headers); BA t; for (size_t i = 0; i < qMax(w.size(), got.size()); ++i) if (i >= w.size() || i >= got.size() || w[i] != got[i]) { t = "header " + num(i) + ": expected " + (i < w.size() ? show(w[i].first + ": " + w[i].second, 100) : BA("none")) + ", got " + (i < got.size() ? show(got[i].first + ": " + got[i].second, 100) : BA("none")); break; } c.fail("headers", t); }
	BA ct; bool has = false; for (int i = 0; i < a.headers.size(); ++i) if (lower(a.headers.at(i).first) == "content-type") { ct = a.headers.at(i).second; has = true; }
	if (has && (r.countOf("content-type") != 1 || r.value("content-type") != ct)) c.fail("content-type", "expected " + show(ct, 60) + " got " + num(r.countOf("content-type")) + "x " + show(r.value("content-type"), 60));
	if (r.countOf("content-type") > 1) c.fail("content-type", "several Content-Type headers");
	bool head = method == "HEAD";
	if (a.api <= 2) { if (r.countOf("content-length") != 1 || r.value("content-length") != num(a.content.size())) c.fail("content-length", "Content-Length " + show(r.value("content-length"), 40) + " for " + num(a.content.size()) + " bytes"); }
	else if (a.api == 3 && http11) { if (lower(r.value("transfer-encoding")) != "chunked") c.fail("chunked", "no chunked encoding header"); }
	else if (r.countOf("content-length")) c.fail("content-length", "Content-Length sent although the length is unknown");
	BA wantC = head ? BA() : a.content;
	if (r.content != wantC) c.fail("content", diffText(wantC, r.content));
	if (!r.complete) c.fail("incomplete", "response incomplete on the wire");
	Q_UNUSED(closed);
}
FAMILY(C04, wire, 40000, 800000)
{
	int n = c.rng.range(1, 3); Session s(c, 0, c.rng.chance(70));
	std::vector<BA> methods; std::vector<Answer> as; std::vector<bool> v11; int done = 0;
	s.onReady = [&](int k) { give(s.conn, as[k]); };
	s.onCompleted = [&](int k) {
		int want = as[k].status; if (!Pillow::HttpProtocol::StatusCodes::getStatusCodeAndMessage(want)) want = 500; if (s.conn->responseStatusCode() != want) c.fail("responseStatusCode", num(s.conn->responseStatusCode()) + " != " + num(want));
		qint64 wl = as[k].api <= 2 ? as[k].content.size() : -1; if (s.conn->responseContentLength() != wl) c.fail("responseContentLength", num(s.conn->responseContentLength()) + " != " + num(wl));
	};
	s.start();
	for (int i = 0; i < n && !s.isClosed(); ++i)
	{
		Answer a = genAnswer(c.rng); BA m = c.rng.chance(20) ? "HEAD" : c.rng.chance(50) ? "GET" : "POST"; bool h11 = c.rng.chance(80);
		as.push_back(a); methods.push_back(m); v11.push_back(h11);
		c.note = "api=" + num(a.api) + " status=" + num(a.status) + " method=" + m + (h11 ? " 1.1" : " 1.0") + " content=" + num(a.content.size()) + " headers=" + num(a.headers.size()) + " pieces=" + num(a.cuts.size() + 1);
		c.sample(c.note);
		s.feed(m + " /r" + num(i) + (h11 ? " HTTP/1.1\r\n" : " HTTP/1.0\r\nConnection: keep-alive\r\n") + "\r\n"); spin(); ++done;
		c.distinct(uint64_t(a.api) * 1000003 + a.status * 31 + a.headers.size() * 7 + (m == "HEAD") + uint64_t(a.content.size()) * 1009);
		if (s.nCompleted != i + 1) { c.fail("not-completed", "response not completed"); break; }
		if (s.conn->state() == Conn::Flushing) { int g = 0; while (s.d->backlog > 0 && ++g < 1000000) s.d->drain(c.rng.range(1, 6000)); spin(); }
	}
	int g = 0; while (s.d->backlog > 0 && ++g < 100000) s.d->drain(5000);
	std::vector<Resp> rs; BA e = parseStream(s.d->tx, methods, s.isClosed(), rs);
	if (!e.isEmpty()) c.fail("wire-invalid", e + " in " + show(s.d->tx, 400));
	else if (int(rs.size()) != done) c.fail("response-count", num(rs.size()) + " != " + num(done));
	else for (int i = 0; i < done; ++i) { checkAnswer(c, as[i], methods[i], v11[i], rs[i], s.isClosed()); c.count("responses"); }
	s.finish();
}
FAMILY(C04, head_equals_get, 6000, 100000)
{
	Answer a = genAnswer(c.rng); if (a.api >= 3) a.api = 0; a.cuts.clear(); bool h11 = c.rng.chance(70); BA out[2];
	for (int k = 0; k < 2; ++k)
	{
		Session s(c); s.onReady = [&](int) { give(s.conn, a); }; s.start();
		s.feed((k ? "HEAD" : "GET") + BA(" / HTTP/1.") + (h11 ? "1" : "0") + "\r\n\r\n"); spin();
		if (s.nCompleted != 1) c.fail("not-completed", "response not completed");
		out[k] = s.d->tx; s.finish();
	}
	int e = out[0].indexOf("\r\n\r\n") + 4;
	if (out[1] != out[0].left(e)) c.fail("head-differs", "HEAD answered with " + show(out[1], 300) + " GET head " + show(out[0].left(e), 300));
	c.distinct(a.status * 1000 + a.api); c.count("responses", 2);
}
FAMILY(C04, declared_lengths, 2000, 30000)
{
	// Large declared lengths (no body needed to see the head).
	qint64 v; switch (c.rng.below(5)) { case 0: v = c.rng.next() >> c.rng.range(1, 40); break; case 1: v = 2147483647LL + c.rng.range(0, 3); break; case 2: v = 4294967295LL + c.rng.range(0, 3); break; case 3: v = 9223372036854775807LL; break; default: v = c.rng.range(1, 100000); }
	Session s(c); s.onReady = [&](int) { s.conn->writeHeaders(200, hdrs({{"Content-Length", num(v)}})); if (s.conn->responseContentLength() != v) c.fail("responseContentLength", num(s.conn->responseContentLength()) + " != " + num(v)); s.conn->writeContent("abc"); };
	s.start(); bool head = c.rng.chance(50); s.feed(head ? "HEAD / HTTP/1.1\r\n\r\n" : "GET / HTTP/1.1\r\n\r\n"); spin();
	Resp r; BA e = parseResponse(s.d->tx, 0, head, false, r);
	c.note = "declared " + num(v);
	if (!e.isEmpty()) c.fail("wire-invalid", e); else if (r.value("content-length") != num(v)) c.fail("content-length", "Content-Length: " + show(r.value("content-length"), 40) + " for a declared length of " + num(v));
	c.distinct(v); s.finish();
}

// ================================================================ C05
static const char* const kBadLengths[] = {"abc", "", "x1", "-1", "-5", "-2147483648", "-9223372036854775808", "99999999999999999999", "5,5", "1 2"}; // no lengths: as if none had been given
FAMILY(C05, misuse, 100000, 2000000)
{
	// Reference model of one connection's response side, driven by random API calls.
	struct Want { int status; bool head; BA content; qint64 len; bool chunked, done; bool h11; };
	int n = c.rng.range(1, 4); std::vector<BA> methods; std::vector<bool> v11; BA all; std::vector<BA> wires;
	for (int i = 0; i < n; ++i) { BA m = c.rng.chance(20) ? "HEAD" : "GET"; bool h = c.rng.chance(80); methods.push_back(m); v11.push_back(h); wires.push_back(m + " /" + num(i) + (h ? " HTTP/1.1\r\n" : " HTTP/1.0\r\nConnection: keep-alive\r\n") + "\r\n"); all += wires.back(); }
	Session s(c, 0, true);
	std::vector<Want> w; enum { Idle, Head, Content } st = Idle; bool willClose = false, closedM = false; BA log; int inSlot = 0;
	auto complete = [&]() { w.back().done = true; st = Idle; if (willClose) closedM = true; };
	std::function<void()> op;
	s.onReady = [&](int k) {
		if (closedM) { c.fail("request-after-close", "request delivered although the connection had to close"); return; }
		if (k >= n) { c.fail("extra-request", "extra request"); return; }
		st = Head; log += "R" + num(k) + " "; int cnt = c.rng.chance(50) ? c.rng.below(4) : 0; ++inSlot; while (cnt--) { if (s.nReady != k + 1) break; op(); } --inSlot;
	};
	int ops = 0;
	op = [&]() {
		if (++ops > 60) return;
		c.count("calls");
		switch (c.rng.below(8))
		{
		case 0: case 1: { // writeResponse, possibly with a contradictory length
			int sz = c.rng.below(30); BA body = c.rng.bytes(sz); Headers h; int status = c.rng.chance(50) ? 200 : 404; qint64 len = sz; bool te = c.rng.chance(20);
			int k = c.rng.below(6); if (k == 0) { len = c.rng.below(40); h << Header("Content-Length", num(len)); } else if (k == 1) { h << Header("Content-Length", kBadLengths[c.rng.below(10)]); len = -1; } if (k < 2 && c.rng.chance(15)) h.prepend(Header("Content-LENGTH", c.rng.chance(50) ? num(c.rng.below(50)) : BA(kBadLengths[c.rng.below(10)]))); // the last one counts

			if (te) h << Header("Transfer-Encoding", "chunked");
			log += "wr(" + num(sz) + ",len=" + num(len) + (te ? ",te" : "") + ") ";
			if (st == Head)
			{
				Want x; x.status = status; x.head = methods[s.nReady - 1] == "HEAD"; x.len = len; x.h11 = v11[s.nReady - 1]; x.chunked = len < 0 && te && x.h11; x.done = false;
				willClose = len < 0 && !x.chunked; st = Content; 
				bool whole = !x.head && sz > 0 && (len < 0 || sz <= len) && len != 0;
				if (whole) x.content = body;
				w.push_back(x);
				if (x.head || len == 0) complete(); else if (whole && sz == len) complete();
			}
			s.conn->writeResponse(status, h, body); break; }
		case 2: case 3: { // writeHeaders
			Headers h; int k = c.rng.below(5); qint64 len = -1; bool te = c.rng.chance(40);
			if (k <= 1) { len = c.rng.below(40); h << Header("Content-Length", num(len)); } else if (k == 2) h << Header("content-length", kBadLengths[c.rng.below(10)]);
			if (te) h << Header("Transfer-Encoding", "chunked");
			log += "wh(len=" + num(len) + (te ? ",te" : "") + ") ";
			if (st == Head)
			{
				Want x; x.status = 200; x.head = methods[s.nReady - 1] == "HEAD"; x.len = len; x.h11 = v11[s.nReady - 1]; x.chunked = len < 0 && te && x.h11; x.done = false; w.push_back(x);
				willClose = len < 0 && !x.chunked; st = Content; if (x.head || len == 0) complete();
			}
			s.conn->writeHeaders(200, h); break; }
		case 4: case 5: case 6: { // writeContent
			int sz = c.rng.below(25); BA b = c.rng.bytes(sz); log += "wc(" + num(sz) + ") ";
			if (st == Content) { Want& x = w.back(); if (sz > 0 && (x.len < 0 || x.content.size() + sz <= x.len)) { x.content += b; if (x.len >= 0 && x.content.size() == x.len) complete(); } }
			s.conn->writeContent(b); break; }
		default: { log += "end "; if (st == Content && w.back().len < 0) { complete(); } s.conn->endContent(); }
		}
	};
	// note: the model is updated before each call, because a completing call may dispatch the next request synchronously.
	s.start();
	int ops0 = c.rng.below(3); while (ops0--) op(); // before any request
	if (c.rng.chance(60)) { s.feedAll(split(c.rng, all)); spin(); for (int i = 0; i < 40 && !closedM; ++i) op(); }
	else for (int i = 0; i < n && !closedM; ++i) { s.feed(wires[i]); for (int k = 0; k < 12 && !closedM; ++k) op(); }
	for (int i = 0; i < 4; ++i) op(); // possibly after the close
	spin(); c.note = log.left(900); c.sample(log);
	if (s.isClosed() != closedM) c.fail("closed-state", closedM ? "connection not closed after a response delimited by close" : "connection closed unexpectedly");
	std::vector<Resp> rs; std::vector<BA> used(methods.begin(), methods.begin() + qMin<int>(n, int(w.size())));
	BA e = parseStream(s.d->tx, used, s.isClosed(), rs);
	if (!e.isEmpty()) c.fail("wire-invalid", e + " in " + show(s.d->tx, 500));
	else if (rs.size() != w.size()) c.fail("response-count", num(rs.size()) + " responses on the wire, model has " + num(w.size()) + ": " + show(s.d->tx, 500));
	else for (size_t i = 0; i < w.size(); ++i)
	{
		if (rs[i].content != w[i].content) { c.fail("content", "response " + num(i) + ": " + diffText(w[i].content, rs[i].content)); break; }
		if (rs[i].status != w[i].status) c.fail("status", "response " + num(i) + ": " + num(rs[i].status) + " != " + num(w[i].status));
		if (w[i].done && !rs[i].complete) c.fail("incomplete", "response " + num(i) + " completed in the model, not on the wire");
		if (!w[i].done && rs[i].complete && !rs[i].untilClose) c.fail("complete-early", "response " + num(i) + " complete on the wire, but the application did not finish it");
		if (!w[i].done && rs[i].untilClose && s.isClosed()) c.fail("complete-early", "response " + num(i) + " ended by a close the application did not ask for");
		if (rs[i].chunked != (w[i].chunked && !w[i].head) && !w[i].head) c.fail("framing", "response " + num(i) + " chunked=" + num(rs[i].chunked));
	}
	int doneN = 0; for (auto& x : w) doneN += x.done; if (s.nCompleted != doneN) c.fail("completed-count", num(s.nCompleted) + " completions announced, model has " + num(doneN));
	c.distinct(fnv(log)); s.finish();
}

// ================================================================ C06
FAMILY(C06, table, 80000, 1600000)
{
	static const char* reqConn[] = {0, "close", "Close", "CLOSE", "keep-alive", "Keep-Alive", "KEEP-ALIVE", "foo", ""};
	static const char* rspConn[] = {0, 0, 0, "close", "Close", "keep-alive", "Keep-Alive", "x"};
	Session s(c, 0, c.rng.chance(50)); std::vector<BA> methods; std::vector<BA> cells; std::vector<int> kinds; bool expectClose = false; int i;
	struct Cell { bool h11; int rc, ac, kind; BA method; BA body; bool keep; bool te; };
	std::vector<Cell> cs; bool pipelineAll = c.rng.chance(25); BA later;
	s.onReady = [&](int k) {
		if (k >= int(cs.size())) { c.fail("extra-request", "extra request"); return; }
		const Cell& x = cs[k]; Headers h; if (rspConn[x.ac]) h << Header("Connection", rspConn[x.ac]);
		switch (x.kind)
		{
		case 0: if (x.te) h << Header("Transfer-Encoding", "chunked"); s.conn->writeResponse(200, h, x.body); break;
		case 1: h << Header("Content-Length", num(x.body.size())); if (x.te) h << Header("Transfer-Encoding", "Chunked"); s.conn->writeHeaders(200, h); if (!x.body.isEmpty()) s.conn->writeContent(x.body); break;
		case 2: s.conn->writeHeaders(200, h); if (!x.body.isEmpty()) s.conn->writeContent(x.body); s.conn->endContent(); break;
		case 3: h << Header(c.rng.chance(50) ? "Transfer-Encoding" : "transfer-encoding", c.rng.chance(50) ? "chunked" : "Chunked"); s.conn->writeHeaders(200, h); if (!x.body.isEmpty()) s.conn->writeContent(x.body); s.conn->endContent(); break;
		}
	};
	s.start(); int n = c.rng.range(1, 5);
	for (i = 0; i < n; ++i)
	{
		Cell x; x.h11 = c.rng.chance(65); x.rc = c.rng.below(9); x.ac = c.rng.below(8); x.kind = c.rng.below(4); x.te = c.rng.chance(20); x.method = c.rng.chance(15) ? "HEAD" : "GET"; x.body = bodyFor(i, c.rng.chance(15) ? 0 : c.rng.range(1, 60));
		BA rc = lower(reqConn[x.rc] ? reqConn[x.rc] : ""), ac = lower(rspConn[x.ac] ? rspConn[x.ac] : "");
		bool client = x.h11 ? rc != "close" : rc == "keep-alive"; bool delimited = x.kind == 0 || x.kind == 1 || (x.kind == 3 && x.h11);
		x.keep = client && delimited && ac != "close";
		cs.push_back(x); methods.push_back(x.method);
		BA w = x.method + " /" + num(i) + (x.h11 ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n"); if (c.rng.chance(30)) w += "Host: h\r\n"; if (reqConn[x.rc]) w += (c.rng.chance(60) ? "Connection: " : "CONNECTION: ") + BA(reqConn[x.rc]) + "\r\n"; w += "\r\n";
		c.distinct(uint64_t(x.h11) + x.rc * 2 + x.ac * 32 + x.kind * 512 + x.te * 4096 + (x.method == "HEAD") * 8192 + (i > 0) * 16384);
		c.note += (x.h11 ? "1.1 " : "1.0 ") + BA(reqConn[x.rc] ? reqConn[x.rc] : "-") + "/" + (rspConn[x.ac] ? rspConn[x.ac] : "-") + " kind" + num(x.kind) + (x.te ? "+te " : " ") + x.method + " body" + num(x.body.size()) + (x.keep ? " keep; " : " close; ");
		if (pipelineAll) { later += w; if (!x.keep) { expectClose = true; ++i; break; } continue; }
		s.feed(w); spin(); int g = 0; while (s.d->backlog > 0 && ++g < 1000) s.d->drain(c.rng.range(1, 200));
		spin();
		if (s.nCompleted != i + 1) { c.fail("not-completed", "request " + num(i) + " not completed"); return; }
		if (s.isClosed() != !x.keep) { c.fail(x.keep ? "closed-instead-of-kept" : "kept-instead-of-closed", "request " + num(i)); s.finish(); return; }
		if (!x.keep) { expectClose = true; ++i; break; }
	}
	if (pipelineAll) { later += c.rng.chance(50) && expectClose ? BA("GET /extra HTTP/1.1\r\n\r\n") : BA(); s.feedAll(split(c.rng, later)); spin(); int g = 0; while (s.d->backlog > 0 && ++g < 1000) s.d->drain(c.rng.range(1, 200)); spin(); }
	c.sample(c.note);
	if (s.isClosed() != expectClose) c.fail(expectClose ? "kept-instead-of-closed" : "closed-instead-of-kept", "at the end");
	if (s.nReady != int(cs.size())) c.fail("ready-count", num(s.nReady) + " requests served, expected " + num(cs.size()));
	std::vector<Resp> rs; BA e = parseStream(s.d->tx, methods, s.isClosed(), rs);
	if (!e.isEmpty()) c.fail("wire-invalid", e + " in " + show(s.d->tx, 500));
	else if (rs.size() != cs.size()) c.fail("response-count", num(rs.size()) + " != " + num(cs.size()));
	else for (size_t k = 0; k < cs.size(); ++k)
	{
		const Cell& x = cs[k]; const Resp& r = rs[k]; BA conn = lower(r.value("connection"));
		if (r.countOf("connection") > 1) c.fail("connection-header", "several Connection headers");
		if (x.keep && conn == "close") c.fail("connection-header", "Connection: close sent on response " + num(k) + ", connection kept");
		if (x.keep && !x.h11 && conn != "keep-alive") c.fail("connection-header", "no keep-alive confirmation to an HTTP/1.0 client on response " + num(k));
		if (!x.keep && conn == "keep-alive") c.fail("connection-header", "keep-alive announced on response " + num(k) + ", then closed");
		if (!x.keep && x.h11 && conn != "close") c.fail("connection-header", "closing is not announced to an HTTP/1.1 client on response " + num(k));
		if (r.countOf("transfer-encoding") && (!x.h11 || x.kind != 3)) c.fail("chunked-use", "Transfer-Encoding sent on response " + num(k));
		if (x.kind == 3 && x.h11 && lower(r.value("transfer-encoding")) != "chunked") c.fail("chunked-use", "no chunked encoding on response " + num(k));
		BA want = x.method == "HEAD" ? BA() : x.body; if (r.content != want || !r.complete) c.fail("content", "response " + num(k) + ": " + diffText(want, r.content));
		c.count("cells");
	}
	s.finish();
}
