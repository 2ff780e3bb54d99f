// A server connection over a simulated device, with the signal life-cycle monitor attached.
#ifndef SESSION_H
#define SESSION_H
#include "h.h"

// Online monitor of the connection's signal protocol: ready, completed alternate; closed is emitted once and last.
struct Session
{
	Ctx& c; SimDevice* d; Conn* conn; bool own; bool expectNone;
	int nReady, nCompleted, nClosed; bool outstanding;
	std::vector<int> completedTx, readyTx; // output bytes handed over when the signal was emitted
	std::function<void(int)> onReady, onCompleted; std::function<void()> onClosed;
	std::vector<QMetaObject::Connection> conns;
	Session(Ctx& c_, Conn* reuse = 0, bool autoDrain = true) : c(c_), d(new SimDevice(autoDrain)), conn(reuse ? reuse : new Conn()), own(!reuse), nReady(0), nCompleted(0), nClosed(0), outstanding(false)
	{
		conns.push_back(QObject::connect(conn, &Conn::requestReady, [this](Conn* self) {
			c.count("ready");
			if (self != conn) c.fail("lifecycle:wrong-sender", "requestReady carries another connection");
			if (nClosed) c.fail("lifecycle:ready-after-closed", "requestReady emitted after closed");
			if (outstanding) c.fail("lifecycle:ready-before-completed", "requestReady emitted while the previous response is not completed");
			outstanding = true; int k = nReady++; readyTx.push_back(d->tx.size());
			if (onReady) onReady(k);
		}));
		conns.push_back(QObject::connect(conn, &Conn::requestCompleted, [this](Conn*) {
			c.count("completed");
			if (nClosed) c.fail("lifecycle:completed-after-closed", "requestCompleted emitted after closed");
			if (!outstanding) c.fail("lifecycle:completed-without-ready", "requestCompleted emitted without an outstanding request");
			outstanding = false; int k = nCompleted++; completedTx.push_back(d->tx.size());
			if (onCompleted) onCompleted(k);
		}));
		conns.push_back(QObject::connect(conn, &Conn::closed, [this](Conn*) {
			c.count("closed");
			if (nClosed) c.fail("lifecycle:closed-twice", "closed emitted twice");
			++nClosed;
			if (onClosed) onClosed();
		}));
	}
	void start() { conn->initialize(d, d); }
	bool isClosed() const { return nClosed > 0; }
	void feed(const BA& b) { if (d->isOpen()) d->feed(b); c.count("bytes_in", b.size()); }
	void feedAll(const std::vector<BA>& p) { for (size_t i = 0; i < p.size(); ++i) feed(p[i]); }
	void finish() // the peer goes away
	{
		if (d->isOpen()) d->close();
		spin();
		if (nClosed != 1) c.fail("lifecycle:not-closed", "device closed, but closed() was emitted " + num(nClosed) + " times");
		c.count("bytes_out", d->tx.size());
	}
	~Session()
	{
		for (size_t i = 0; i < conns.size(); ++i) QObject::disconnect(conns[i]);
		if (d->isOpen()) d->close();
		if (own) delete conn;
		spin();
		delete d;
	}
};

// Deterministic response body naming the request it answers.
inline BA bodyFor(int k, int n) { BA b = "<resp " + num(k) + ">"; if (b.size() >= n) return b.left(qMax(n, 0)); int at = b.size(); b.resize(n); char* d = b.data(); unsigned x = unsigned(k) * 2654435761u + 12345u; for (; at < n; ++at) { x = x * 1664525u + 1013904223u; d[at] = char(x >> 24); } return b; }
inline Headers hdrs(std::initializer_list<std::pair<const char*, BA> > l) { Headers h; for (auto& p : l) h << Header(BA(p.first), p.second); return h; }
#endif
