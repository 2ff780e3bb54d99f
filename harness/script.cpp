// Script handler checks: C22.
#include "session.h"
#include "HttpHandlerQtScript.h"
#include <QtScript/QtScript>
#include <sys/types.h>

static void put(const BA& path, const BA& content) { int f = ::open(path.constData(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f < 0) return; ssize_t r = ::write(f, content.constData(), content.size()); (void)r; ::close(f); }
static QString text(const BA& b) { return QString::fromUtf8(b.constData(), b.size()); }
static bool oddEscape(const BA& b) { for (int i = 0; i < b.size(); ++i) if (b.at(i) == '%' && !(i + 2 < b.size() + 0 && isxdigit((unsigned char)b.at(i + 1)) && isxdigit((unsigned char)b.at(i + 2)))) return true; return false; }
static QString decoded(const BA& b) { BA o; for (int i = 0; i < b.size(); ++i) if (b.at(i) == '%' && i + 2 < b.size() && isxdigit((unsigned char)b.at(i + 1)) && isxdigit((unsigned char)b.at(i + 2))) { o += char(b.mid(i + 1, 2).toInt(0, 16)); i += 2; } else o += b.at(i); return text(o); }
static BA u8(const QString& s) { return s.toUtf8(); }

// What a script function saw.
struct Call { QString method, uri, fragment, path, query, content; std::map<QString, QString> headers, params; BA nativeMethod, nativeUri, nativeContent; bool nativeSame; };
struct Probe { std::vector<Call> calls; Conn* conn; };
static QScriptValue report(QScriptContext* x, QScriptEngine*, void* arg)
{
	Probe* p = static_cast<Probe*>(arg); QScriptValue r = x->argument(0); Call k;
	k.method = r.property("requestMethod").toString(); k.uri = r.property("requestUri").toString(); k.fragment = r.property("requestFragment").toString(); k.path = r.property("requestPath").toString(); k.query = r.property("requestQueryString").toString(); k.content = r.property("requestContent").toString();
	for (QScriptValueIterator it(r.property("requestHeaders")); it.hasNext();) { it.next(); k.headers[it.name()] = it.value().toString(); }
	for (QScriptValueIterator it(r.property("requestQueryParams")); it.hasNext();) { it.next(); k.params[it.name()] = it.value().toString(); }
	Conn* n = qobject_cast<Conn*>(r.property("nativeRequest").toQObject()); k.nativeSame = n == p->conn; if (n) { k.nativeMethod = deep(n->requestMethod()); k.nativeUri = deep(n->requestUri()); k.nativeContent = deep(n->requestContent()); }
	p->calls.push_back(k); return QScriptValue();
}
static QScriptValue nap(QScriptContext* x, QScriptEngine*, void* arg) { (*static_cast<std::function<void()>*>(arg))(); (void)x; return QScriptValue(); }

// The parameters of a query string, last value per name.
static std::map<QString, QString> paramsOf(const BA& q)
{
	std::map<QString, QString> m; if (q.isEmpty()) return m; QList<BA> l = q.split('&');
	for (int i = 0; i < l.size(); ++i) { int e = l[i].indexOf('='); if (e < 0) { if (i == l.size() - 1 && l[i].isEmpty()) continue; m[decoded(l[i])] = QString(); } else m[decoded(l[i].left(e))] = decoded(l[i].mid(e + 1)); }
	return m;
}
struct Returns { const char* js; bool truthy; };
static const Returns RETURNS[] = {{"return true;", true}, {"return false;", false}, {"return 1;", true}, {"return 0;", false}, {"return '';", false}, {"return 'x';", true}, {"return null;", false}, {"return undefined;", false}, {"return {};", true}, {"return [];", true}, {"return NaN;", false}, {"", false}, {"return '0';", true}, {"return -1.5;", true}, {"return function() {};", true}, {"return new Boolean(true);", true}};
static const char* THROWS[] = {"throw new Error('boom');", "throw 'boom';", "throw 5;", "throw null;", "throw undefined;", "throw {a: 1, message: 'boom'};", "undefinedFunction();", "null.x;", "throw false;", "throw '';", "throw 0;", "(function() { throw new TypeError('deep'); })();", "throw [1, 2];", "throw function() {};", "try { throw 'x'; } finally { r.requestMethod = 1; }"};
static const char* RESPONSES[] = {"", "r.nativeRequest.writeResponseString(200, {'X-A': 'b'}, 'hello');", "r.nativeRequest.writeResponseString(404, {}, '');", "r.nativeRequest.writeResponseString(200);", "r.nativeRequest.writeHeaders(200, {'Content-Length': '3'});", "r.nativeRequest.writeHeaders(200, {'Content-Length': '0'});", "r.nativeRequest.writeResponseString(201, {'Content-Type': 'text/plain'}, r.requestPath);", "r.nativeRequest.writeHeaders(200, {'Transfer-Encoding': 'chunked'}); r.nativeRequest.endContent();", "r.nativeRequest.close();"};

FAMILY(C22, requests, 12000, 200000)
{
	QScriptEngine engine; Probe probe; engine.globalObject().setProperty("report", engine.newFunction(report, &probe));
	int nf = c.rng.range(1, 3); std::vector<Pillow::HttpHandlerQtScript*> hs; struct Plan { int resp, ret, thr; }; std::vector<Plan> plans; QObject owner;
	for (int i = 0; i < nf; ++i)
	{
		Plan p; p.resp = c.rng.chance(40) ? 0 : c.rng.below(int(sizeof RESPONSES / sizeof *RESPONSES)); p.thr = c.rng.chance(45) ? c.rng.below(int(sizeof THROWS / sizeof *THROWS)) : -1; p.ret = c.rng.below(int(sizeof RETURNS / sizeof *RETURNS)); if (p.resp == 8 && c.rng.chance(50)) p.resp = 1;
		BA js = BA("(function(r) { ") + (c.rng.chance(50) ? "report(r);" : "report.call(this, r);") + RESPONSES[p.resp] + (p.thr >= 0 ? THROWS[p.thr] : "") + RETURNS[p.ret].js + " })"; if (p.thr == 14) js = BA("(function(r) { report(r); ") + RESPONSES[p.resp] + THROWS[p.thr] + " })";
		QScriptValue f = engine.evaluate(js); if (!f.isFunction()) { c.fail("harness", js); return; }
		Pillow::HttpHandlerQtScript* h; if (c.rng.chance(50)) h = new Pillow::HttpHandlerQtScript(f, &owner); else { h = new Pillow::HttpHandlerQtScript(&owner); if (c.rng.chance(20)) h->setScriptFunction(QScriptValue(5)); h->setScriptFunction(f); } hs.push_back(h); plans.push_back(p); c.note += "f" + num(i) + ": " + js + " ";
	}
	Session s(c, 0, true); probe.conn = s.conn; int n = c.rng.range(1, 5); GenOpts go; go.maxBody = 500; go.maxHeaders = 6; size_t txPos = 0; c.sample(c.note); bool stop = false; Req q; int which = 0;
	s.onReady = [&](int) {
		size_t before = probe.calls.size(); int tx = s.d->tx.size(); Pillow::HttpHandlerQtScript* h = hs[which]; const Plan& p = plans[which]; Conn::State st0 = s.conn->state(); (void)st0;
		bool res = h->handleRequest(s.conn); c.count("calls"); bool wrote = s.d->tx.size() != tx || s.isClosed(); bool threw = p.thr >= 0;
		if (probe.calls.size() != before + 1) { c.fail("call-count", "the function was called " + num(int(probe.calls.size() - before)) + " times"); stop = true; return; }
		const Call& k = probe.calls.back();
		#define SAME(f, a, b) if ((a) != (b)) c.fail("saw-" f, BA(f ": ") + diffText(u8(a), u8(b)));
		SAME("method", text(q.method), k.method) if (!oddEscape(q.uri)) { SAME("uri", decoded(q.uri), k.uri) SAME("path", decoded(q.path), k.path) SAME("query", decoded(q.query), k.query) } if (!oddEscape(q.fragment)) SAME("fragment", decoded(q.fragment), k.fragment)
		SAME("content", text(q.content), k.content)
		if (!k.nativeSame || k.nativeMethod != q.method || k.nativeUri != q.uri || k.nativeContent != q.content) c.fail("saw-native", "the native request differs");
		std::map<QString, std::vector<QString> > eh; for (auto& x : q.headers) eh[text(x.first)].push_back(text(x.second)); for (auto& x : eh) { if (!k.headers.count(x.first)) c.fail("saw-headers", "header " + u8(x.first) + " is missing"); else if (std::find(x.second.begin(), x.second.end(), k.headers.at(x.first)) == x.second.end()) c.fail("saw-headers", u8(x.first) + ": " + diffText(u8(x.second[0]), u8(k.headers.at(x.first)))); } if (k.headers.size() != eh.size()) c.fail("saw-headers", num(int(k.headers.size())) + " headers for " + num(int(eh.size())));
		if (!oddEscape(q.query)) { std::map<QString, QString> ep = paramsOf(q.query); ep.erase(""); std::map<QString, QString> kp = k.params; kp.erase(""); for (auto& x : ep) if (!kp.count(x.first)) c.fail("saw-params", "parameter " + u8(x.first) + " is missing"); else if (kp[x.first] != x.second) c.fail("saw-params", u8(x.first) + ": " + diffText(u8(x.second), u8(kp[x.first]))); if (kp.size() > ep.size()) c.fail("saw-params", num(int(kp.size())) + " parameters for " + num(int(ep.size()))); c.count("params", ep.size()); }
		if (engine.hasUncaughtException()) c.fail("exception-left", "the engine still holds an exception");
		if (threw) { c.count("threw"); if (!res) c.fail("threw-not-taken", "a throwing function did not take the request"); if (p.resp == 0) { c.count("threw_before_response"); if (!wrote) c.fail("threw-unanswered", BA("nothing was answered after ") + THROWS[p.thr]); } }
		else { if (res != RETURNS[p.ret].truthy) c.fail("taken", BA("handleRequest returned ") + (res ? "true" : "false") + " after " + RETURNS[p.ret].js); if (p.resp == 0 && wrote) c.fail("wrote", "something was answered: " + show(s.d->tx.mid(tx), 200)); c.count(res ? "taken" : "declined"); }
		if (!wrote) s.conn->writeResponse(599, Headers(), "NOT ANSWERED");
	};
	s.start();
	for (int i = 0; i < n && c.ok() && !stop && !s.isClosed(); ++i)
	{
		q = genRequest(c.rng, go); if (c.rng.chance(30)) { q.content = c.rng.chance(50) ? BA("100%25 %41%zz+%\xc3\xa9 a=b&c=%26") : c.rng.bytes(c.rng.range(1, 60)) + (c.rng.chance(30) ? BA("\0tail", 5) : BA()); bool has = false; for (auto& h : q.headers) if (lower(h.first) == "content-length") { h.second = num(q.content.size()); has = true; } if (!has) q.add("Content-Length", num(q.content.size())); }
		if (c.rng.chance(40)) { q.query = ""; int np = c.rng.below(5); for (int j = 0; j < np; ++j) { static const char* vs[] = {"=1", "=a%20b", "=%25", "=%26", "=%3D", "=+", "=%c3%a9", "", "=", "=a=b", "=%2541", "=x%00y", "=%2B", "=%0a", "=%7f"}; static const char* ks[] = {"k", "a%20b", "%26", "%41", "k%3d", "long_name", "%25", "z"}; q.query += (j ? "&" : "") + BA(ks[c.rng.below(8)]) + num(j) + vs[c.rng.below(15)]; } q.path = "/p" + genPathChars(c.rng, c.rng.below(6)).replace("?", "").replace(";", ""); q.uri = q.path + (q.query.isEmpty() ? BA() : "?" + q.query); }
		for (auto& h : q.headers) if (lower(h.first) == "connection" || lower(h.first) == "expect") h.second = "x"; if (c.rng.chance(30)) q.add("X-Pct", "a%20b%41 100%"); if (c.rng.chance(20)) q.add("X-Utf", "\xc3\xa9\xff");
		q.version = "HTTP/1.1"; which = c.rng.below(nf); const Plan& p = plans[which]; int done = s.nCompleted, ready = s.nReady; if (c.rng.chance(10)) { engine.evaluate(c.rng.chance(50) ? "throw 'stale';" : "throw new Error('stale');"); c.count("stale_exceptions"); } s.feedAll(split(c.rng, q.wire())); if (c.rng.chance(10)) engine.collectGarbage();
		if (s.nReady == ready) { c.fail("not-delivered", show(q.wire(), 300) + " -> " + show(s.d->tx.mid(int(txPos)), 100)); break; }
		if (p.resp == 4) { c.count("left_incomplete"); Resp r; BA e = parseResponse(s.d->tx, int(txPos), false, false, r); if (!e.isEmpty() || r.complete || r.status != 200 || r.content.size()) c.fail("response-invalid", "after headers only: " + show(s.d->tx.mid(int(txPos)), 300)); break; }
		if (p.resp == 8) { if (s.d->tx.size() != int(txPos)) c.fail("wrote-after-close", show(s.d->tx.mid(int(txPos)), 200)); break; }
		if (s.nCompleted == done) { if (c.ok()) c.fail("not-completed", "the request was not completed"); break; }
		bool head = q.method == "HEAD"; Resp r; BA e = parseResponse(s.d->tx, int(txPos), head, false, r); if (!e.isEmpty() || !r.complete) { c.fail("response-invalid", e + show(s.d->tx.mid(int(txPos)), 300)); break; } txPos = size_t(r.end); if (int(txPos) != s.d->tx.size()) { c.fail("answered-twice", show(s.d->tx.mid(int(txPos)), 200)); break; }
		int want = p.resp == 0 ? (p.thr >= 0 ? 500 : 599) : p.resp == 2 ? 404 : p.resp == 6 ? 201 : 200; if (want == 599) want = 500; // unknown codes go out as 500
		if (r.status != want) c.fail("status", "expected " + num(want) + ", got " + r.statusLine); BA wc = p.resp == 1 ? BA("hello") : BA(); if (p.resp == 6 && !oddEscape(q.path)) wc = decoded(q.path).toUtf8();
		if (p.resp == 0) { bool host = r.content == "NOT ANSWERED"; if (!head && host != (p.thr < 0)) c.fail("answer", "unexpected answer: " + show(r.content, 100)); } else if (!head && !(p.resp == 6 && oddEscape(q.path)) && r.content != wc) c.fail("content-differs", diffText(wc, r.content));
		if (p.resp == 1 && r.value("X-A") != "b") c.fail("headers", "the script's header is missing");
		c.distinct(fnv(q.method) ^ fnv(num(p.resp) + "/" + num(p.thr) + "/" + num(p.ret)) ^ (q.content.isEmpty() ? 1 : 2) ^ (i * 77));
	}
	s.onReady = 0; s.finish();
}

// ---------------------------------------------------------------- deferred answers
FAMILY(C22, deferred, 1500, 20000)
{
	// The script takes requests of several connections and answers them later, in any order, or finds them gone.
	QScriptEngine engine; engine.evaluate("var kept = [];"); Pillow::HttpHandlerQtScript h(engine.evaluate("(function(r) { kept.push(r); return true; })")); int n = c.rng.range(1, 4); std::vector<std::unique_ptr<Session> > ss; std::vector<int> order; std::vector<bool> gone;
	for (int i = 0; i < n; ++i) { ss.emplace_back(new Session(c, 0, true)); Session* s = ss.back().get(); s->onReady = [&h, s, &c](int) { if (!h.handleRequest(s->conn)) c.fail("taken", "not taken"); }; s->start(); s->feed("GET /" + num(i) + " HTTP/1.1\r\n\r\n"); order.push_back(i); gone.push_back(false); }
	for (int i = n - 1; i > 0; --i) std::swap(order[i], order[c.rng.below(i + 1)]); c.note = num(n) + " connections:";
	for (int i : order)
	{
		int how = c.rng.below(5); c.note += " " + num(i) + "/" + num(how); if (c.rng.chance(20)) engine.collectGarbage();
		if (how == 0) { ss[i]->d->close(); gone[i] = true; } else if (how == 1) { ss[i].reset(); gone[i] = true; spinN(2); }
		QScriptValue v = engine.evaluate("kept[" + QString::number(i) + "].nativeRequest.writeResponseString(200, {}, 'answer ' + kept[" + QString::number(i) + "].requestPath)"); c.count("answers"); engine.clearExceptions();
		if (!gone[i]) { Resp r; BA e = parseResponse(ss[i]->d->tx, 0, false, false, r); if (!e.isEmpty() || !r.complete || r.content != "answer /" + num(i)) c.fail("deferred-answer", "connection " + num(i) + ": " + e + show(ss[i]->d->tx, 200)); } else if (ss[i] && ss[i]->d->tx.size()) c.fail("answer-after-close", show(ss[i]->d->tx, 100));
	}
	for (auto& s : ss) if (s) { s->onReady = 0; s->finish(); } c.sample(c.note); c.distinct(fnv(c.note));
}

// ---------------------------------------------------------------- script files
struct Ver { int kind; int tag; BA fn; }; // kinds: 0 good, 1 syntax error, 2 function missing, 3 throws an Error while loading, 4 throws a string while loading, 5 not a function, 6 empty
static BA sourceOf(const Ver& v)
{
	BA t = num(v.tag), good = "var tag = 'v" + t + "'; var hits = 0; function helper() { return tag; } function " + v.fn + "(r) { ++hits; r.nativeRequest.writeResponseString(200, {}, helper() + ':' + r.requestPath); return true; }\n";
	switch (v.kind) { case 1: return good + "function broken( {\n"; case 2: return "var tag = 'v" + t + "'; function another(r) { return true; }\n"; case 3: return good + "throw new Error('while loading');\n"; case 4: return good + "throw 'while loading';\n"; case 5: return "var " + v.fn + " = 'text';\n"; case 6: return BA(); default: return good; }
}
FAMILY(C22, files, 6000, 100000)
{
	BA dir = scratchDir().toLocal8Bit() + "/js22"; ::mkdir(dir.constData(), 0755); QScriptEngine* engine = new QScriptEngine; int nh = c.rng.chance(30) ? 2 : 1; int tag = 0; qint64 clock = 1500000000;
	struct H { Pillow::HttpHandlerQtScriptFile* h; BA file, fn; bool reload; int loaded; qint64 stamp; bool valid; }; std::vector<H> hs; struct File { bool exists; Ver v; qint64 stamp; }; std::map<BA, File> files; int nfile = c.rng.range(1, 3);
	auto path = [&](const BA& f) { return dir + "/" + f; };
	auto stampIt = [&](const BA& f, qint64 t) { struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = t / 1000; ts[0].tv_nsec = ts[1].tv_nsec = (t % 1000) * 1000000; ::utimensat(AT_FDCWD, path(f).constData(), ts, 0); };
	auto write = [&](const BA& f, int kind) { File& x = files[f]; x.exists = true; x.v.kind = kind; x.v.tag = ++tag; x.v.fn = c.rng.chance(85) ? "handle" : "other"; if (c.rng.chance(25) && clock > 1500000000) x.stamp = clock * 1000 - 1 - c.rng.below(1000000) * 7; else { clock += 1 + c.rng.below(100); x.stamp = clock * 1000 + c.rng.below(1000); } for (bool again = true; again;) { again = false; for (auto& o : hs) if (o.stamp == x.stamp) { ++x.stamp; again = true; } } if (c.rng.chance(20)) ::unlink(path(f).constData()); put(path(f), sourceOf(x.v)); stampIt(f, x.stamp); c.count("file_versions"); };
	for (int i = 0; i < nfile; ++i) { BA f = "s" + num(i) + ".js"; if (c.rng.chance(85)) write(f, c.rng.chance(80) ? 0 : c.rng.below(7)); else files[f].exists = false; }
	auto anyFile = [&]() { return "s" + num(c.rng.below(nfile)) + ".js"; };
	for (int i = 0; i < nh; ++i) { H h; h.file = anyFile(); h.fn = c.rng.chance(90) ? "handle" : "other"; h.reload = c.rng.chance(70); h.loaded = -1; h.stamp = 0; h.valid = false; h.h = new Pillow::HttpHandlerQtScriptFile(engine, path(h.file), h.fn, h.reload); if (h.h->autoReload() != h.reload || u8(h.h->fileName()) != path(h.file) || u8(h.h->functionName()) != h.fn) c.fail("configuration", "the handler does not report its configuration"); hs.push_back(h); }
	Session s(c, 0, true); H* cur = 0; bool res = false; s.onReady = [&](int) { res = cur->h->handleRequest(s.conn); if (!res && s.conn->state() == Conn::SendingHeaders) s.conn->writeResponse(404); }; s.start();
	int steps = c.rng.range(2, 14); int txPos = 0; bool engineGone = false, stale = false;
	for (int i = 0; i < steps && c.ok() && !s.isClosed(); ++i)
	{
		int ev = c.rng.below(14); H& g = hs[c.rng.below(nh)];
		if (i > 0) switch (ev) {
		case 0: case 1: case 2: { BA f = anyFile(); write(f, 0); c.note += " good:" + f; break; } case 3: case 4: { BA f = anyFile(); int k = 1 + c.rng.below(6); write(f, k); c.note += " bad" + num(k) + ":" + f; break; }
		case 5: { BA f = anyFile(); ::unlink(path(f).constData()); files[f].exists = false; c.note += " gone:" + f; break; }
		case 6: { BA f = anyFile(); g.h->setFileName(path(f)); if (f != g.file) { g.file = f; g.valid = false; } c.note += " file=" + f; break; } case 7: { BA f = c.rng.chance(60) ? "handle" : "other"; g.h->setFunctionName(f); if (f != g.fn) { g.fn = f; g.valid = false; } c.note += " fn=" + f; break; }
		case 8: { g.reload = !g.reload; g.h->setAutoReload(g.reload); c.note += g.reload ? " auto" : " manual"; break; } case 9: if (c.rng.chance(50)) { engine->collectGarbage(); c.note += " gc"; } else { engine->evaluate("throw 'stale';"); c.note += " stale"; stale = true; } break;
		case 10: { BA a = anyFile(), b = anyFile(); if (a != b && files[a].exists) { ::rename(path(a).constData(), path(b).constData()); files[b] = files[a]; files[a].exists = false; c.note += " mv:" + a + ">" + b; for (auto& o : hs) if (o.valid && o.stamp == files[b].stamp && o.file == b && o.loaded != files[b].v.tag) c.count("same_stamp"); } break; }
		case 11: if (c.rng.chance(5)) { delete engine; engineGone = true; c.note += " engine gone"; } break; }
		H& h = hs[c.rng.below(nh)]; cur = &h; BA p = "/q" + num(i); int done = s.nCompleted; s.feed("GET " + p + " HTTP/1.1\r\n\r\n"); c.count("requests"); c.note += " R";
		if (engineGone) { if (s.nCompleted == done) c.fail("unanswered", "no answer without an engine"); break; }
		if (s.nCompleted == done) { c.fail("unanswered", "the request was taken but not answered"); break; }
		Resp r; BA e = parseResponse(s.d->tx, txPos, false, false, r); if (!e.isEmpty() || !r.complete || r.end != s.d->tx.size()) { c.fail("response-invalid", e + show(s.d->tx.mid(txPos), 300)); break; } txPos = r.end;
		const File& f = files[h.file]; bool changed = f.exists && f.stamp != h.stamp; bool must = !h.valid || (h.reload && changed); bool either = h.valid && h.reload && !f.exists;
		BA old = h.valid ? "v" + num(h.loaded) + ":" + p : BA(); if (engine->hasUncaughtException() && !stale) c.fail("exception-left", "the engine still holds an exception"); if (r.status == 200) stale = false;
		if (!res) c.fail("taken", "a script file request was declined");
		if (either) { c.count("file_gone_after_load"); if (!(r.status == 500 || (r.status == 200 && r.content == old))) c.fail("answer", "got " + r.statusLine + " " + show(r.content, 100)); continue; }
		if (must && f.exists && f.v.kind == 0 && f.v.fn == h.fn) { h.valid = true; h.loaded = f.v.tag; h.stamp = f.stamp; c.count("loads"); old = "v" + num(h.loaded) + ":" + p; must = false; }
		if (must) { c.count("load_failures"); if (r.status != 500) c.fail("not-500", "an unusable script got " + r.statusLine + " " + show(r.content, 100)); }
		else { c.count("served"); if (r.status != 200 || r.content != old) c.fail("answer", "expected " + old + ", got " + r.statusLine + " " + show(r.content, 150)); }
	}
	c.sample(c.note); c.distinct(fnv(c.note)); s.onReady = 0; s.finish(); for (auto& h : hs) delete h.h; if (!engineGone) delete engine; QDir(QString::fromLocal8Bit(dir)).removeRecursively();
}
FAMILY(C22, changing, 300, 3000)
{
	// The file is replaced while it is being loaded: the next request must see the new version.
	BA dir = scratchDir().toLocal8Bit() + "/js22c"; ::mkdir(dir.constData(), 0755); BA f = dir + "/s.js"; QScriptEngine engine; int v = 1; qint64 at = 1500000000 + c.rng.below(100000); int rewrites = c.rng.range(1, 3);
	auto write = [&](int k) { put(f, "during(); function handle(r) { r.nativeRequest.writeResponseString(200, {}, 'v" + num(k) + "'); return true; }\n"); struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = at + k; ts[0].tv_nsec = ts[1].tv_nsec = 0; ::utimensat(AT_FDCWD, f.constData(), ts, 0); };
	std::function<void()> hook = [&]() { if (rewrites-- > 0) { write(++v); c.count("replaced_while_loading"); } }; engine.globalObject().setProperty("during", engine.newFunction(nap, &hook)); write(v);
	Pillow::HttpHandlerQtScriptFile h(&engine, f, "handle", true); Session s(c, 0, true); s.onReady = [&](int) { h.handleRequest(s.conn); }; s.start(); int pos = 0; c.note = num(rewrites) + " replacements"; int before = v;
	for (int i = 0; i < 6 && c.ok(); ++i) { before = v; s.feed("GET / HTTP/1.1\r\n\r\n"); Resp r; BA e = parseResponse(s.d->tx, pos, false, false, r); if (!e.isEmpty() || !r.complete) { c.fail("response-invalid", e); break; } pos = r.end; BA want = "v" + num(before); if (r.content != want && r.content != "v" + num(v)) c.fail("answer", "expected " + want + ", got " + r.statusLine + " " + show(r.content, 100)); }
	c.sample(c.note); c.distinct(fnv(c.note) + c.index % 5); s.onReady = 0; s.finish(); QDir(QString::fromLocal8Bit(dir)).removeRecursively();
}
