// Router and composition checks: C17, C18.
#include "session.h"
#include "HttpHandlerSimpleRouter.h"

static std::vector<int>* g_ran; // ids of the targets that ran
static std::function<void(Conn*)>* g_onRun;
class Target : public QObject
{
	Q_OBJECT
public:
	int id; Target(int i) : id(i) {}
	void run(Conn* x) { g_ran->push_back(id); if (*g_onRun) (*g_onRun)(x); }
	Q_INVOKABLE void invokable(Pillow::HttpConnection* x) { run(x); }
public slots:
	void slot(Pillow::HttpConnection* x) { run(x); }
	void slotA(Pillow::HttpConnection* x) { run(x); }
	bool returning(Pillow::HttpConnection* x) { run(x); return false; }
};
// A handler which takes or declines; one that leaves also takes itself out of its parent while it handles a request.
class RunHandler : public Pillow::HttpHandler { public: int id; bool takes, leaves; RunHandler(int i, bool t = true) : id(i), takes(t), leaves(false) {} bool handleRequest(Conn* x) { g_ran->push_back(id); if (leaves) setParent(0); if (takes && *g_onRun) (*g_onRun)(x); return takes; } };

// ---------------------------------------------------------------- reference matching
struct Tok { int kind; QString text; }; // 0 literal, 1 :name, 2 *name
static bool isWord(QChar ch) { return ch.isLetterOrNumber() || ch.isMark() || ch == QLatin1Char('_'); }
static std::vector<Tok> parsePattern(const QString& p)
{
	std::vector<Tok> v; QString lit; int i = 0;
	while (i < p.size()) { if ((p[i] == ':' || p[i] == '*') && i + 1 < p.size() && isWord(p[i + 1])) { if (!lit.isEmpty()) { Tok t = {0, lit}; v.push_back(t); lit.clear(); } int j = i + 1; while (j < p.size() && isWord(p[j])) ++j; Tok t = {p[i] == ':' ? 1 : 2, p.mid(i + 1, j - i - 1)}; v.push_back(t); i = j; } else lit += p[i++]; }
	if (!lit.isEmpty()) { Tok t = {0, lit}; v.push_back(t); } return v;
}
static bool matches(const std::vector<Tok>& t, size_t k, const QString& s, int pos)
{
	if (k == t.size()) return pos == s.size();
	if (t[k].kind == 0) return s.midRef(pos, t[k].text.size()) == t[k].text && matches(t, k + 1, s, pos + t[k].text.size());
	int end = pos; if (t[k].kind == 1) { while (end < s.size() && (isWord(s[end]) || s[end] == '-')) ++end; } else end = s.size();
	for (int e = end; e >= pos + (t[k].kind == 1); --e) if (matches(t, k + 1, s, e)) return true;
	return false;
}
struct Rt { int id; BA method; QString pattern; std::vector<Tok> toks; int kind; std::vector<QString> names; bool gone; };
static QString genPattern(Rng& r)
{
	static const char* segs[] = {"a", "b", "users", "posts", "first", "x-y", "a_b", "A", "42", "\xc3\xa9t\xc3\xa9", "~me"}; static const char* names[] = {"id", "name", "p1", "page_no", "Key", "x", "y", "z", "rest", "w"}; std::vector<int> left; for (int i = 0; i < 10; ++i) left.push_back(i);
	auto name = [&]() { int k = r.below(int(left.size())); int n = left[k]; left.erase(left.begin() + k); return QString(names[n]); };
	if (r.chance(5)) return "/"; QString p; int n = r.range(1, 4);
	for (int i = 0; i < n; ++i)
	{
		p += "/"; switch (r.below(9)) { case 0: case 1: case 2: p += ":" + name(); break; case 3: p += "*" + name(); break; case 4: p += QString::fromUtf8(segs[r.below(11)]) + "-:" + name(); break; case 5: p += ":" + name() + "-" + QString::fromUtf8(segs[r.below(11)]); break; case 6: p += ":" + name() + "~*" + name(); break; default: p += QString::fromUtf8(segs[r.below(11)]); }
	}
	if (r.chance(8)) p += "/"; return p;
}
static QString genText(Rng& r, bool word) { static const char* w[] = {"a", "42", "hello", "x-y", "a_b", "_", "-", "0", "\xc3\xa9", "users", "Z", "A"}; static const char* o[] = {".", "/", "a b", "+", "~", "%", "\n", "", "a/b/c", "x.html", "=", "\xe2\x82\xac", ":", "*", "$", "("}; QString s = QString::fromUtf8(w[r.below(12)]); if (!word && r.chance(60)) s = QString::fromUtf8(o[r.below(16)]) + (r.chance(50) ? s : QString()); return s; }
static BA encodePath(Rng& r, const QString& s) { BA u = s.toUtf8(), o; bool all = r.chance(10); for (int i = 0; i < u.size(); ++i) { unsigned char ch = u.at(i); bool safe = isalnum(ch) || strchr("/-_~.:*+=$(", ch); if (ch && safe && !all && !r.chance(5)) o += char(ch); else if (ch == '/' && i == 0) o += '/'; else { char t[8]; snprintf(t, 8, r.chance(50) ? "%%%02X" : "%%%02x", ch); o += t; } } return o; }

FAMILY(C17, dispatch, 6000, 150000)
{
	std::vector<int> ran; g_ran = &ran; std::function<void(Conn*)> onRun; g_onRun = &onRun;
	Pillow::HttpHandlerSimpleRouter router; std::vector<std::unique_ptr<QObject> > keep; std::vector<Rt> routes; static const char* ms[] = {"", "", "", "GET", "get", "POST", "Put", "DELETE", "HEAD", "PATCH", "PROP", "PROPFIND", "LOCK", "UNLOCK", "GE", "GETS"};
	int n = c.rng.range(1, 8); static const char* spec[] = {"1slot(Pillow::HttpConnection*)", "slotA", "1slotA( Pillow::HttpConnection * )", "invokable", "invokable(Pillow::HttpConnection*)", "0invokable(Pillow::HttpConnection *)", "slot(Pillow::HttpConnection*)", "1returning(Pillow::HttpConnection*)"};
	auto addRoute = [&]() {
		Rt t; t.id = int(routes.size()); t.method = ms[c.rng.below(16)]; t.pattern = !routes.empty() && c.rng.chance(35) ? routes[c.rng.below(int(routes.size()))].pattern : genPattern(c.rng); t.toks = parsePattern(t.pattern); t.kind = c.rng.below(4); t.gone = false; for (auto& k : t.toks) if (k.kind) t.names.push_back(k.text);
		int id = t.id; bool noMethod = t.method.isEmpty() && c.rng.chance(50);
		switch (t.kind)
		{
		case 0: { RunHandler* h = new RunHandler(id); keep.push_back(std::unique_ptr<QObject>(h)); if (noMethod) router.addRoute(t.pattern, static_cast<Pillow::HttpHandler*>(h)); else router.addRoute(t.method, t.pattern, static_cast<Pillow::HttpHandler*>(h)); break; }
		case 1: { Target* h = new Target(id); keep.push_back(std::unique_ptr<QObject>(h)); const char* m = spec[c.rng.below(7 + 1)]; if (noMethod) router.addRoute(t.pattern, static_cast<QObject*>(h), m); else router.addRoute(t.method, t.pattern, static_cast<QObject*>(h), m); break; }
		case 2: { std::function<void(Conn*)> f = [id, &ran, &onRun](Conn* x) { ran.push_back(id); if (onRun) onRun(x); }; if (noMethod) router.addRoute(t.pattern, f); else router.addRoute(t.method, t.pattern, f); break; }
		default: { Headers h = hdrs({{"X-Static", num(id)}}); BA body = "static " + num(id); if (noMethod) router.addRoute(t.pattern, 299 - id % 90, h, body); else router.addRoute(t.method, t.pattern, 299 - id % 90, h, body); }
		}
		routes.push_back(t);
	};
	while (n--) addRoute();
	bool um = c.rng.chance(50), mm = c.rng.chance(50), mp = c.rng.chance(40); auto settings = [&]() { router.setUnmatchedRequestAction(um ? Pillow::HttpHandlerSimpleRouter::Return4xxResponse : Pillow::HttpHandlerSimpleRouter::Passthrough); router.setMethodMismatchAction(mm ? Pillow::HttpHandlerSimpleRouter::Return4xxResponse : Pillow::HttpHandlerSimpleRouter::Passthrough); router.setAcceptsMethodParam(mp); };
	if (c.rng.chance(15)) um = mm = mp = false; else settings();
	Session s(c); int reqs = c.rng.range(3, 14); BA desc; for (auto& t : routes) desc += "[" + t.method + " " + t.pattern.toUtf8() + "] "; c.sample(desc);
	for (int q = 0; q < reqs && c.ok(); ++q)
	{
		if (c.rng.chance(6)) addRoute(); if (c.rng.chance(8)) { um = c.rng.chance(50); mm = c.rng.chance(50); mp = c.rng.chance(50); settings(); }
		QString path; if (c.rng.chance(85)) { const Rt& t = routes[c.rng.below(int(routes.size()))]; for (auto& k : t.toks) path += k.kind == 0 ? k.text : k.kind == 1 ? genText(c.rng, c.rng.chance(90)) : (c.rng.chance(15) ? QString() : genText(c.rng, false)); } else path = genPattern(c.rng).remove(':').remove('*');
		switch (c.rng.below(12)) { case 0: path += "/"; break; case 1: path += "x"; break; case 2: path = "/x" + path; break; case 3: path.chop(1); break; case 4: path = path.toUpper(); break; }
		if (!path.startsWith("/")) path = "/" + path;
		BA enc = encodePath(c.rng, path); QString dec = QUrl::fromPercentEncoding(enc);
		static const char* rm[] = {"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "G", "OPTIONS", "PROP", "PROPFIND", "LOCK", "UNLOCK", "GE", "GETS", "PROPF"}; BA method = rm[c.rng.below(16)]; BA query; static const char* qn[] = {"id", "name", "p1", "page_no", "key", "X", "other"}; std::vector<std::pair<BA,BA> > qp; int nq = c.rng.below(4); while (nq--) qp.push_back(std::make_pair(BA(qn[c.rng.below(7)]), "q" + num(c.rng.below(100))));
		BA mparam; bool hasM = c.rng.chance(30); if (hasM) { static const char* pm[] = {"POST", "delete", "put", "", "get", "XYZ", "propfind", "lock", "p"}; mparam = pm[c.rng.below(9)]; qp.insert(qp.begin() + c.rng.below(int(qp.size()) + 1), std::make_pair(BA("_method"), mparam)); }
		for (auto& p : qp) query += (query.isEmpty() ? "" : "&") + p.first + "=" + p.second;
		BA wire = method + " " + enc + (query.isEmpty() ? BA() : "?" + query) + " HTTP/1.1\r\n\r\n"; c.note = desc + "| " + show(wire, 200) + " unmatched4xx=" + num(um) + " mismatch4xx=" + num(mm) + " _method=" + num(mp);
		// Expected outcome.
		BA eff = mp && hasM && !mparam.isEmpty() ? mparam : method; int want = -1; std::vector<int> matched; for (auto& t : routes) if (matches(t.toks, 0, dec, 0)) { matched.push_back(t.id); if (want < 0 && (t.method.isEmpty() || lower(t.method) == lower(eff))) want = t.id; }
		ran.clear(); bool result = false, ready = false; int tx = s.d->tx.size(); bool wroteBefore = false;
		onRun = [&](Conn* x) {
			int id = ran.back(); Rt& t = routes[id]; if (int(ran.size()) > 1) return;
			// Captured parameters: each name holds a text such that the pattern spells the path.
			QString spelled; for (auto& k : t.toks) { if (k.kind == 0) spelled += k.text; else { QString v = x->requestParamValue(k.text); spelled += v; if (k.kind == 1) { bool okc = !v.isEmpty(); for (int i = 0; i < v.size(); ++i) if (!isWord(v[i]) && v[i] != '-') okc = false; if (!okc) c.fail("param-text", ":" + k.text.toUtf8() + " is " + show(v.toUtf8(), 60)); } } }
			if (spelled != dec) c.fail("params-wrong", "the parameters spell " + show(spelled.toUtf8(), 100) + " instead of " + show(dec.toUtf8(), 100));
			for (auto& p : qp) { bool over = false; for (auto& nm : t.names) if (nm.compare(p.first, Qt::CaseInsensitive) == 0) over = true; if (over) continue; BA first; for (auto& z : qp) if (lower(z.first) == lower(p.first)) { first = z.second; break; } if (x->requestParamValue(p.first) != QString(first)) c.fail("query-param-lost", p.first); }
			c.count("params", t.names.size());
			x->writeResponse(200, hdrs({{"X-Ran", num(id)}}), "ran " + num(id));
		};
		s.onReady = [&](int) { ready = true; tx = s.d->tx.size(); result = router.handleRequest(s.conn); wroteBefore = s.d->tx.size() != tx; if (!result) { if (wroteBefore) c.fail("passed-on-but-wrote", show(s.d->tx.mid(tx), 100)); s.conn->writeResponse(599); } };
		s.feed(wire); // the first feed happens after start below
		if (q == 0 && !ready) { s.start(); tx = s.d->tx.size(); emit s.d->readyRead(); }
		if (!ready) { c.fail("not-delivered", show(wire, 200)); break; }
		Resp r; BA e = parseResponse(s.d->tx, tx, method == "HEAD", false, r); if (!e.isEmpty() || !r.complete) { c.fail("response-missing", (want >= 0 ? "target " + num(want) + " should have answered; " : BA()) + e + show(s.d->tx.mid(tx), 100)); break; }
		bool headReq = method == "HEAD"; if (r.end != s.d->tx.size()) c.fail("several-responses", show(s.d->tx.mid(tx), 300));
		if (want >= 0)
		{
			if (!result) c.fail("not-taken", "route " + num(want) + " matches, but the request was passed on");
			if (routes[want].kind == 3) { if (!ran.empty()) c.fail("wrong-target", "target " + num(ran[0]) + " ran instead of the static route " + num(want)); int st = 299 - want % 90; if (r.value("X-Static") != num(want)) c.fail("wrong-target", "expected static route " + num(want) + ", got " + show(s.d->tx.mid(tx), 150)); else if ((!headReq && r.content != "static " + num(want)) || (QByteArray(Pillow::HttpProtocol::StatusCodes::getStatusMessage(st)).size() ? r.status != st : false)) c.fail("static-content", show(s.d->tx.mid(tx), 200)); }
			else { if (ran.size() != 1) c.fail("target-runs", num(int(ran.size())) + " target runs, expected one of route " + num(want)); else if (ran[0] != want) c.fail("wrong-target", "route " + num(ran[0]) + " ran, expected " + num(want)); else if (r.value("X-Ran") != num(want)) c.fail("wrong-target", "answer " + show(s.d->tx.mid(tx), 100)); }
			c.count("dispatched");
		}
		else if (matched.empty()) { if (!ran.empty()) c.fail("target-ran", "target " + num(ran[0]) + " ran for an unmatched request"); if (result != um) c.fail("unmatched-result", num(result)); if (um && r.status != 404) c.fail("unmatched-status", r.statusLine); if (um) c.count("not_found"); else c.count("passed_on"); }
		else
		{
			if (!ran.empty()) c.fail("target-ran", "target " + num(ran[0]) + " ran despite another method"); if (result != mm) c.fail("mismatch-result", num(result));
			if (mm) { if (r.status != 405) c.fail("mismatch-status", r.statusLine); std::set<BA> a, b; for (int id : matched) b.insert(routes[id].method); foreach (const BA& x, r.value("Allow").split(',')) a.insert(x.trimmed()); if (a != b) c.fail("allow-header", "Allow: " + r.value("Allow")); c.count("method_refused"); } else c.count("passed_on");
		}
		c.distinct(fnv(wire) ^ fnv(desc));
	}
	onRun = 0; s.onReady = 0; s.finish();
}

// ================================================================ C18
// A model of a handler tree, changed between requests, next to the real one.
struct Node { int kind; int id; bool takes; QObject* obj; std::vector<Node*> kids; Node* parent; int status; BA content; bool hasFn, leaves; ~Node() { for (auto k : kids) delete k; } };
enum { STACK, CUSTOM, FIXED, NOTFOUND, FUNC, PLAIN };
FAMILY(C18, trees, 12000, 250000)
{
	std::vector<int> ran; g_ran = &ran; std::function<void(Conn*)> onRun; g_onRun = &onRun; int serial = 0; int answerer = -1; std::vector<Node*> all;
	onRun = [&](Conn* x) { x->writeResponse(200, Headers(), "by " + num(ran.back())); };
	std::function<Node*(int, Node*)> make = [&](int depth, Node* parent) {
		Node* n = new Node(); n->id = ++serial; n->parent = parent; n->takes = c.rng.chance(35); n->status = 200; n->hasFn = n->leaves = false; int k = c.rng.below(100); n->kind = depth > 0 && k < 30 ? STACK : k < 65 ? CUSTOM : k < 73 ? FIXED : k < 80 ? NOTFOUND : k < 90 ? FUNC : PLAIN; if (!parent) n->kind = STACK;
		QObject* po = parent ? parent->obj : 0; int id = n->id;
		switch (n->kind) { case STACK: n->obj = new Pillow::HttpHandlerStack(po); break; case CUSTOM: { RunHandler* h = new RunHandler(id, n->takes); h->leaves = n->leaves = c.rng.chance(12); n->obj = h; h->setParent(po); break; } case FIXED: { static const int st[] = {200, 404, 500, 302, 201}; n->status = st[c.rng.below(5)]; n->content = c.rng.chance(50) ? "fixed " + num(id) : c.rng.chance(20) ? BA() : c.rng.bytes(c.rng.below(300)); n->obj = new Pillow::HttpHandlerFixed(n->status, n->content, po); break; } case NOTFOUND: n->obj = new Pillow::HttpHandler404(po); break;
		case FUNC: n->hasFn = c.rng.chance(60); if (n->hasFn) n->obj = new Pillow::HttpHandlerFunction([id, &ran, &onRun](Conn* x) { ran.push_back(id); onRun(x); }, po); else n->obj = new Pillow::HttpHandlerFunction(po); break; default: n->obj = new QObject(po); }
		all.push_back(n); if (n->kind == STACK) { int m = c.rng.below(5); while (m--) n->kids.push_back(make(depth - 1, n)); }
		return n;
	};
	Node* root = make(3, 0); std::function<bool(Node*, std::vector<int>&, int&)> expect = [&](Node* n, std::vector<int>& log, int& who) -> bool {
		switch (n->kind) { case STACK: for (auto k : n->kids) if (expect(k, log, who)) return true; return false; case CUSTOM: log.push_back(n->id); if (n->takes) who = n->id; return n->takes; case FIXED: case NOTFOUND: who = n->id; return true; case FUNC: if (n->hasFn) { log.push_back(n->id); who = n->id; } return n->hasFn; default: return false; }
	};
	Session s(c); s.start(); int reqs = c.rng.range(2, 10); Pillow::HttpHandler* top = static_cast<Pillow::HttpHandler*>(root->obj);
	for (int q = 0; q < reqs && c.ok(); ++q)
	{
		std::vector<int> want; int who = -1; bool taken = expect(root, want, who); ran.clear(); bool res = false; int tx = s.d->tx.size(); bool wrote = false; BA path = "/p" + num(q) + (c.rng.chance(30) ? "/%41%1%2F~x'" : ""); if (path.contains("%1%")) path = "/p/%20%31"; bool head = c.rng.chance(10);
		s.onReady = [&](int) { res = top->handleRequest(s.conn); wrote = s.d->tx.size() != tx; if (!res) s.conn->writeResponse(599); };
		s.feed(BA(head ? "HEAD " : "GET ") + path + " HTTP/1.1\r\n\r\n");
		c.note = "tree of " + num(int(all.size())) + " handlers, request " + num(q); if (q == 0) { BA d; for (int i : want) d += " " + num(i); c.sample(c.note + ", expected calls:" + d + ", answered by " + num(who)); }
		if (ran != want) { BA a, b; for (int i : want) a += " " + num(i); for (int i : ran) b += " " + num(i); c.fail("calls-differ", "expected calls" + a + ", got" + b); }
		if (res != taken) c.fail("result", "handleRequest returned " + num(res) + ", expected " + num(taken)); if (!res && wrote) c.fail("declined-but-wrote", show(s.d->tx.mid(tx), 100));
		Resp r; BA e = parseResponse(s.d->tx, tx, head, false, r); if (!e.isEmpty() || !r.complete || r.end != s.d->tx.size()) { c.fail("answers", "not exactly one response: " + e + show(s.d->tx.mid(tx), 200)); break; }
		if (taken) { Node* w = 0; for (auto n : all) if (n->id == who) w = n; if (w->kind == FIXED) { if (r.status != w->status || (!head && r.content != w->content)) c.fail("fixed-answer", show(s.d->tx.mid(tx), 200)); } else if (w->kind == NOTFOUND) { if (r.status != 404 || (!head && !r.content.contains(path))) c.fail("404-answer", show(s.d->tx.mid(tx), 200)); } else if (!head && r.content != "by " + num(who)) c.fail("answerer", show(s.d->tx.mid(tx), 200)); c.count("taken"); } else c.count("declined");
		c.count("calls", ran.size()); uint64_t hsh = all.size(); for (int i : want) hsh = hsh * 31 + i; c.distinct(hsh * 7 + who);
		// The handlers that left.
		for (int id : ran) for (size_t i = 0; i < all.size(); ++i) if (all[i]->id == id && all[i]->leaves) { Node* n = all[i]; all.erase(all.begin() + i); auto& k = n->parent->kids; k.erase(std::find(k.begin(), k.end(), n)); delete n->obj; delete n; c.count("left"); break; }
		// Change the tree.
		int ch = c.rng.below(4);
		while (ch--)
		{
			Node* n = all[c.rng.below(int(all.size()))];
			switch (c.rng.below(6))
			{
			case 0: { Node* p = n->kind == STACK ? n : root; p->kids.push_back(make(1, p)); break; }
			case 1: if (n != root) { auto& k = n->parent->kids; k.erase(std::find(k.begin(), k.end(), n)); std::function<void(Node*)> drop = [&](Node* x) { for (auto y : x->kids) drop(y); all.erase(std::find(all.begin(), all.end(), x)); }; drop(n); delete n->obj; delete n; } break;
			case 2: if (n != root && n->kind != STACK) { Node* p = all[c.rng.below(int(all.size()))]; if (p->kind == STACK) { auto& k = n->parent->kids; k.erase(std::find(k.begin(), k.end(), n)); n->obj->setParent(0); n->obj->setParent(p->obj); n->parent = p; p->kids.push_back(n); } } break;
			case 3: if (n->kind == FIXED) { Pillow::HttpHandlerFixed* f = static_cast<Pillow::HttpHandlerFixed*>(n->obj); int changes = 0; QMetaObject::Connection k = QObject::connect(f, &Pillow::HttpHandlerFixed::changed, [&]() { ++changes; }); BA nc = c.rng.chance(50) ? "changed " + num(c.rng.below(1000)) : c.rng.bytes(c.rng.below(300)); static const int st[] = {200, 403, 503}; int ns = st[c.rng.below(3)]; int wantCh = (ns != n->status) + (nc != n->content); n->status = ns; n->content = nc; f->setStatusCode(ns); f->setContent(nc); QObject::disconnect(k); if (changes != wantCh) c.fail("changed-signal", num(changes) + " changed() signals, expected " + num(wantCh)); if (f->content() != nc || f->statusCode() != ns) c.fail("fixed-properties", ""); } break;
			case 4: if (n->kind == FUNC) { int id = n->id; n->hasFn = !n->hasFn; std::function<void(Conn*)> f; if (n->hasFn) f = [id, &ran, &onRun](Conn* x) { ran.push_back(id); onRun(x); }; static_cast<Pillow::HttpHandlerFunction*>(n->obj)->setFunction(f); } break;
			default: if (n->kind == CUSTOM) { n->takes = !n->takes; static_cast<RunHandler*>(n->obj)->takes = n->takes; } break;
			}
		}
	}
	s.onReady = 0; s.finish(); delete root->obj; delete root; (void)answerer;
}
#include "router.moc"
// Handlers that change the stack, or their own function, while a request goes through it.
namespace {
struct Meddler : Pillow::HttpHandler
{
	int id; std::vector<int>* ran; bool take; std::function<void()> act; Meddler(int i, std::vector<int>* r, QObject* p) : Pillow::HttpHandler(p), id(i), ran(r), take(false) {}
	bool handleRequest(Conn* x) { ran->push_back(id); bool t = take; std::function<void()> a = act; act = 0; if (t) x->writeResponse(200, Headers(), num(id)); if (a) a(); return t; }
};
}
FAMILY(C18, meddlers, 6000, 100000)
{
	std::vector<int> ran; Pillow::HttpHandlerStack* top = new Pillow::HttpHandlerStack(); QObject* at = top; bool nested = c.rng.chance(30); if (nested) at = new Pillow::HttpHandlerStack(top); int n = c.rng.range(2, 9); std::vector<QPointer<Meddler>> h; for (int i = 0; i < n; ++i) { h.push_back(new Meddler(i, &ran, at)); if (c.rng.chance(10)) new QObject(at); }
	Session s(c); bool taken = false; s.start(); c.note = num(n) + " handlers" + (nested ? " in a nested stack:" : ":"); int next = n;
	for (int q = 0; q < 4 && c.ok(); ++q)
	{
		std::vector<int> live; foreach (QObject* o, at->children()) if (Meddler* x = dynamic_cast<Meddler*>(o)) live.push_back(x->id); if (live.empty()) break;
		int who = live[c.rng.below(int(live.size()))]; Meddler* m = h[who]; bool mTakes = c.rng.chance(15); std::set<int> gone, maybe; int how = c.rng.below(6), victims = c.rng.range(1, 3); std::vector<int> vs; for (int i = 0; i < victims; ++i) { int v = live[c.rng.below(int(live.size()))]; if (v != who) vs.push_back(v); }
		int taker = c.rng.chance(60) ? live[c.rng.below(int(live.size()))] : -1; for (auto& x : h) if (x) { x->take = x->id == taker; x->act = 0; } if (mTakes) m->take = true;
		c.note += " " + num(who) + (how < 2 ? " deletes" : how == 2 ? " detaches" : how == 3 ? " adds" : how == 4 ? " leaves" : " moves itself"); for (int v : vs) if (how < 3) c.note += " " + num(v);
		m->act = [&, m, how, vs]() { switch (how) { case 0: case 1: for (int v : vs) if (h[v]) { gone.insert(v); delete h[v].data(); } break; case 2: for (int v : vs) if (h[v]) { maybe.insert(v); h[v]->setParent(0); } break; case 3: { Meddler* a = new Meddler(next++, &ran, at); h.push_back(a); maybe.insert(a->id); break; } case 4: m->setParent(0); break; default: m->setParent(0); m->setParent(at); } };
		ran.clear(); int tx = s.d->tx.size(); s.onReady = [&](int) { taken = top->handleRequest(s.conn); if (!taken) s.conn->writeResponse(599); }; s.feed("GET /" + num(q) + " HTTP/1.1\r\n\r\n");
		// Everyone live at the start is offered the request in order, up to the taker, except for who was deleted in time; who was detached or added meanwhile may be.
		std::vector<int> want, got; std::set<int> before; bool reached = false; int by = -1; for (int id : live) { if (reached && gone.count(id)) continue; want.push_back(id); if (id == who) reached = true; bool t = id == taker || (id == who && mTakes); if (t && !(reached && id != who && maybe.count(id))) { by = id; break; } }
		std::set<int> twice; for (int id : ran) if (!twice.insert(id).second) c.fail("offered-twice", "handler " + num(id) + ":" + c.note);
		std::vector<int> w2; for (int id : want) if (!maybe.count(id)) w2.push_back(id); for (int id : ran) if (!maybe.count(id)) got.push_back(id);
		bool detachedTook = false; for (int id : ran) if (maybe.count(id) && id == taker) detachedTook = true;
		if (!detachedTook) { if (got != w2) { BA a, b; for (int i : w2) a += " " + num(i); for (int i : got) b += " " + num(i); c.fail("calls-differ", "expected" + a + ", got" + b + ";" + c.note); } if (taken != (by >= 0)) c.fail("result", c.note); }
		Resp r; BA e = parseResponse(s.d->tx, tx, false, false, r); if (!e.isEmpty() || !r.complete || r.end != s.d->tx.size()) c.fail("answers", e + show(s.d->tx.mid(tx), 200)); else if (taken && r.content != num(ran.empty() ? -1 : ran.back())) c.fail("answerer", show(r.content)); c.count("calls", int(ran.size())); c.count(how < 2 ? "deleting" : how == 2 ? "detaching" : how == 3 ? "adding" : "leaving");
		for (auto& x : h) if (x && !x->parent()) delete x.data();
	}
	c.sample(c.note); c.distinct(fnv(c.note)); s.onReady = 0; s.finish(); delete top;
}
// A function that replaces itself, or deletes its handler, goes on with what it captured.
FAMILY(C18, functions, 1500, 20000)
{
	Pillow::HttpHandlerStack top; Pillow::HttpHandlerFunction* f = new Pillow::HttpHandlerFunction(&top); int calls = 0, last = -1; Session s(c); s.start(); int n = c.rng.range(2, 6); bool del = c.rng.chance(30);
	std::function<std::function<void(Conn*)>(int)> make = [&](int i) -> std::function<void(Conn*)> { BA text = bodyFor(i, 40); int what = c.rng.below(3); return [&, i, text, what](Conn* x) { ++calls; last = i; if (what == 0) x->writeResponse(200, Headers(), text); if (i == n - 1) { if (del) delete f; else f->setFunction(std::function<void(Conn*)>()); } else f->setFunction(make(i + 1)); if (what) x->writeResponse(200, Headers(), text); }; };
	f->setFunction(make(0)); bool taken = false; s.onReady = [&](int) { taken = top.handleRequest(s.conn); if (!taken) s.conn->writeResponse(599); };
	for (int i = 0; i < n && c.ok(); ++i) { int tx = s.d->tx.size(); calls = 0; s.feed("GET /" + num(i) + " HTTP/1.1\r\n\r\n"); Resp r; BA e = parseResponse(s.d->tx, tx, false, false, r); if (calls != 1 || last != i || !taken) c.fail("calls", num(calls) + " calls of " + num(last) + " instead of " + num(i)); else if (!e.isEmpty() || r.content != bodyFor(i, 40)) c.fail("content", e + diffText(bodyFor(i, 40), r.content)); c.count("replaced"); }
	s.feed("GET /end HTTP/1.1\r\n\r\n"); if (taken) c.fail("taken-without-function", ""); c.note = num(n) + " functions" + (del ? ", the last one deletes its handler" : ""); c.sample(c.note); c.distinct(fnv(c.note)); s.onReady = 0; s.finish();
}
