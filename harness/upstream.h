// A scripted raw HTTP server driven from the harness thread.
#ifndef UPSTREAM_H
#define UPSTREAM_H
#include "h.h"

struct RawReq { BA method, target, version, content, raw; std::vector<std::pair<BA,BA> > headers; int conn; int headLen;
	BA value(const BA& n) const { for (auto& h : headers) if (lower(h.first) == lower(n)) return h.second; return BA(); }
	int countOf(const BA& n) const { int k = 0; for (auto& h : headers) if (lower(h.first) == lower(n)) ++k; return k; } };
// Strict parser of one request at the start of b. 1 parsed (used set), 0 more needed, -1 malformed.
inline int parseRawRequest(const BA& b, RawReq& q, int& used, BA* why = 0)
{
	int e = b.indexOf("\r\n\r\n"); if (e < 0) return 0;
	QList<BA> lines; int p = 0; while (p < e + 2) { int x = b.indexOf("\r\n", p); lines << b.mid(p, x - p); p = x + 2; }
	auto bad = [&](const BA& m) { if (why) *why = m; return -1; };
	int s1 = lines[0].indexOf(' '), s2 = lines[0].lastIndexOf(' '); if (s1 <= 0 || s2 <= s1 + 1) return bad("request line " + show(lines[0]));
	q.method = lines[0].left(s1); q.target = lines[0].mid(s1 + 1, s2 - s1 - 1); q.version = lines[0].mid(s2 + 1); if (q.target.contains(' ') || !(q.version == "HTTP/1.1" || q.version == "HTTP/1.0")) return bad("request line " + show(lines[0]));
	q.headers.clear(); qint64 len = 0; bool seen = false;
	for (int i = 1; i < lines.size(); ++i)
	{
		int c = lines[i].indexOf(':'); if (c <= 0) return bad("header line " + show(lines[i])); BA n = lines[i].left(c), v = lines[i].mid(c + 1); if (n.contains(' ') || n.contains('\r') || v.contains('\n') || n.contains('\n') || v.contains('\r')) return bad("header line " + show(lines[i]));
		if (v.startsWith(' ')) v.remove(0, 1); q.headers.push_back(std::make_pair(n, v));
		if (lower(n) == "content-length") { bool ok; qint64 l = v.toLongLong(&ok); if (!ok || l < 0 || (seen && l != len)) return bad("content length " + show(v)); len = l; seen = true; }
		if (lower(n) == "transfer-encoding") return bad("transfer encoding");
	}
	q.headLen = e + 4; if (b.size() < q.headLen + len) return 0; q.content = b.mid(q.headLen, int(len)); used = q.headLen + int(len); q.raw = b.left(used); return 1;
}

struct Upstream
{
	struct C { Peer p; int id; BA buf; std::vector<BA> todo; int end; bool busy; int wait; C() : end(0), busy(false), wait(0) {} };
	enum { KEEP = 0, FIN = 1, RST = 2 };
	Listener l; std::vector<std::unique_ptr<C> > cs; std::vector<RawReq> reqs; int accepted, closedByPeer; BA error; bool paused, refuse;
	// Called for each complete request; answers through reply().
	std::function<void(C&, const RawReq&)> onRequest;
	std::function<void(C&)> onAccept;
	explicit Upstream(const BA& host = BA(), quint16 port = 0) : l(host, port), accepted(0), closedByPeer(0), paused(false), refuse(false) {}
	QString url() const { return QString("http://%1:%2").arg(QString::fromLatin1(l.host)).arg(l.port); }
	void reply(C& k, const std::vector<BA>& pieces, int end) { k.todo.insert(k.todo.end(), pieces.begin(), pieces.end()); k.end = end; k.busy = true; k.wait = 0; }
	void poll()
	{
		for (int f; (f = l.accept()) >= 0; ) { cs.emplace_back(new C()); cs.back()->p.adopt(f); cs.back()->id = accepted++; if (onAccept) onAccept(*cs.back()); }
		for (size_t i = 0; i < cs.size(); ++i)
		{
			C& k = *cs[i]; if (k.p.fd < 0) continue; k.p.poll(); if (!k.p.in.isEmpty()) { k.buf += k.p.in; k.p.in.clear(); }
			while (!k.busy && k.p.fd >= 0 && !k.buf.isEmpty()) { RawReq q; int used = 0; BA why; int r = parseRawRequest(k.buf, q, used, &why); if (r < 0) { error = why + " in " + show(k.buf, 400); k.buf.clear(); break; } if (!r) break; k.buf.remove(0, used); q.conn = k.id; reqs.push_back(q); if (onRequest) { RawReq copy = q; onRequest(k, copy); } }
			if (k.p.fd < 0) continue;
			if (k.busy && !paused) { if (!k.todo.empty()) { if (k.p.out.isEmpty() && ++k.wait > 1) { k.wait = 0; k.p.send(k.todo.front()); k.todo.erase(k.todo.begin()); } } if (k.todo.empty() && k.p.out.isEmpty() && ++k.wait > 1) { k.busy = false; int e = k.end; k.end = 0; if (e == FIN) k.p.shut(); else if (e == RST) k.p.reset(); } }
			if (k.p.fd >= 0 && (k.p.eof || k.p.err) && (!k.busy || k.p.err)) { ++closedByPeer; k.p.shut(); }
		}
		for (size_t i = cs.size(); i-- > 0; ) if (cs[i]->p.fd < 0) cs.erase(cs.begin() + i);
	}
	C* conn(int id) { for (auto& k : cs) if (k->id == id) return k.get(); return 0; }
};

// A response to be sent by the upstream: text plus what a client has to make of it.
struct Script
{
	int status; BA reason, version; std::vector<std::pair<BA,BA> > headers; BA content; int framing; bool head; BA wire; int headEnd; BA trailers; std::vector<int> cuts; // body offsets at which a chunked body can break off other than inside a chunk size line
	enum { LENGTH, CHUNKED, CLOSE, NONE };
	bool noBody() const { return head || status == 204 || status == 304; }
	void build(Rng& r, bool extensions = false)
	{
		cuts.clear(); wire = version + " " + num(status) + " " + reason + "\r\n"; std::vector<std::pair<BA,BA> > h = headers;
		if (framing == LENGTH) h.insert(h.begin() + r.below(int(h.size()) + 1), std::make_pair(BA(r.chance(50) ? "Content-Length" : "content-length"), num(content.size())));
		else if (framing == CHUNKED) h.insert(h.begin() + r.below(int(h.size()) + 1), std::make_pair(BA("Transfer-Encoding"), BA("chunked")));
		for (auto& x : h) wire += x.first + ": " + x.second + "\r\n"; wire += "\r\n"; headEnd = wire.size();
		if (noBody()) return;
		if (framing == CHUNKED) { int p = 0; int mode = r.below(3); while (p < content.size()) { int n = qMin(content.size() - p, mode == 0 ? content.size() : mode == 1 ? r.range(1, 30 + content.size() / 20) : r.range(1, 5000)); BA s = BA::number(n, 16); if (r.chance(20)) s = s.toUpper(); if (r.chance(10)) s = "0" + s; wire += s; if (extensions && r.chance(10)) wire += ";x=\"y\""; wire += "\r\n"; for (int k = 0; k <= n + 2; k += 1 + n / 50) cuts.push_back(wire.size() + k - headEnd); wire += content.mid(p, n) + "\r\n"; p += n; } wire += "0\r\n" + trailers + "\r\n"; }
		else wire += content;
	}
};
#endif
