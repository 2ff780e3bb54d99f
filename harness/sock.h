// Real servers on the three transports, and POSIX/OpenSSL clients driven from the same thread.
#ifndef SOCK_H
#define SOCK_H
#include "h.h"
#include "session.h"
#include "HttpsServer.h"
#include "tlscert.h"
#include <openssl/ssl.h>
#include <openssl/err.h>

enum { TCP = 0, LOCAL = 1, TLS = 2 };
static const char* const KINDS[] = {"tcp", "local", "tls"};

struct Srv
{
	int kind; QTcpServer* tcp; QLocalServer* loc; quint16 port; QString path;
	std::function<void(Conn*)> onReady; std::function<void(Conn*)> onClosed;
	int nReady, nClosed; std::set<Conn*> seen;
	explicit Srv(int k) : kind(k), tcp(0), loc(0), port(0), nReady(0), nClosed(0)
	{
		static int serial = 0; bool steps = caseIndex() % 5 == 1; // set up in steps, or constructed ready
		if (k == LOCAL)
		{
			path = scratchDir() + "/s" + QString::number(++serial);
			Pillow::HttpLocalServer* s = steps ? new Pillow::HttpLocalServer() : new Pillow::HttpLocalServer(path); loc = s; if (steps) s->listen(path);
			QObject::connect(s, &Pillow::HttpLocalServer::requestReady, [this](Conn* c) { ready(c); });
		}
		else
		{
			Pillow::HttpServer* s;
			if (steps) { if (k == TLS) { Pillow::HttpsServer* t = new Pillow::HttpsServer(); t->setCertificate(QSslCertificate(BA(TLS_CERT))); t->setPrivateKey(QSslKey(BA(TLS_KEY), QSsl::Rsa)); s = t; } else s = new Pillow::HttpServer(); s->listen(QHostAddress(QHostAddress::LocalHost), 0); }
			else if (k == TLS) s = new Pillow::HttpsServer(QSslCertificate(BA(TLS_CERT)), QSslKey(BA(TLS_KEY), QSsl::Rsa), QHostAddress(QHostAddress::LocalHost), 0);
			else s = new Pillow::HttpServer(QHostAddress(QHostAddress::LocalHost), 0);
			tcp = s; port = s->serverPort();
			QObject::connect(s, &Pillow::HttpServer::requestReady, [this](Conn* c) { ready(c); });
		}
		foreach (Conn* c, conns()) track(c);
	}
	~Srv() { onReady = 0; onClosed = 0; seen.clear(); delete tcp; delete loc; spin(); }
	void sendBuffer(int n) { if (tcp) { int fd = int(tcp->socketDescriptor()); setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); } } // of what gets accepted: how much the kernel takes over at once
	QObject* obj() const { return tcp ? static_cast<QObject*>(tcp) : static_cast<QObject*>(loc); }
	QList<Conn*> conns() const { return obj()->findChildren<Conn*>(); }
	int sockets() const { return obj()->findChildren<QAbstractSocket*>(QString(), Qt::FindDirectChildrenOnly).size() + obj()->findChildren<QLocalSocket*>(QString(), Qt::FindDirectChildrenOnly).size(); }
	void track(Conn* c)
	{
		if (!seen.insert(c).second) return;
		QObject::connect(c, &Conn::closed, [this](Conn* x) { ++nClosed; if (onClosed) onClosed(x); });
		QObject::connect(c, &QObject::destroyed, [this, c]() { seen.erase(c); });
	}
	void ready(Conn* c) { ++nReady; track(c); if (onReady) onReady(c); }
};

struct Cli
{
	Peer p; SSL* ssl; BA in; BA out; bool eof, err, rst, handshaken; bool reading; qint64 readLimit; int kind; int chunk;
	Cli() : ssl(0), eof(false), err(false), rst(false), handshaken(false), reading(true), readLimit(-1), kind(TCP), chunk(65536) {}
	~Cli() { shut(); }
	static SSL_CTX* ctx() { static SSL_CTX* c = 0; if (!c) { c = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_mode(c, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER); } return c; }
	bool connect(Srv& s, int rcvbuf = 0)
	{
		kind = s.kind; bool ok = kind == LOCAL ? p.connectLocal(s.path, rcvbuf) : p.connectTcp(s.port, rcvbuf);
		if (ok && kind == TLS) { ssl = SSL_new(ctx()); SSL_set_fd(ssl, p.fd); SSL_set_connect_state(ssl); }
		return ok;
	}
	void poll()
	{
		if (p.fd < 0) return;
		if (!ssl) { if (!out.isEmpty()) { p.out += out; out.clear(); } p.reading = reading; p.readLimit = readLimit < 0 ? -1 : readLimit - (in.size() - p.in.size()); p.chunk = chunk; p.poll(); if (p.in.size()) { in += p.in; p.in.clear(); } if (p.eof) eof = true; if (p.err) err = true; if (p.err && p.rst) rst = true; return; }
		ERR_clear_error();
		if (!handshaken) { int r = SSL_do_handshake(ssl); if (r == 1) handshaken = true; else { int e = SSL_get_error(ssl, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { eof = err = true; } return; } }
		while (!out.isEmpty()) { int n = SSL_write(ssl, out.constData(), qMin(out.size(), 16000)); if (n > 0) out.remove(0, n); else { int e = SSL_get_error(ssl, n); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { err = true; if (e == SSL_ERROR_SYSCALL && (errno == ECONNRESET || errno == EPIPE)) rst = true; out.clear(); } break; } }
		int budget = 64;
		while (reading && !eof && (readLimit < 0 || in.size() < readLimit) && budget-- > 0)
		{
			char b[16384]; int want = chunk < int(sizeof b) ? chunk : int(sizeof b); if (readLimit >= 0 && readLimit - in.size() < want) want = int(readLimit - in.size());
			int n = SSL_read(ssl, b, want); if (n > 0) { in.append(b, n); if (chunk < 16384) break; continue; }
			int e = SSL_get_error(ssl, n); if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) break;
			if (e != SSL_ERROR_ZERO_RETURN) err = true; if (e == SSL_ERROR_SYSCALL && (errno == ECONNRESET || errno == EPIPE)) rst = true; eof = true;
		}
	}
	void send(const BA& b) { out += b; poll(); }
	void dropSsl() { if (ssl) { SSL_free(ssl); ssl = 0; } }
	void shut() { dropSsl(); p.shut(); }
	void reset() { dropSsl(); p.reset(); }
};
#endif
