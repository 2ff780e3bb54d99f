// File handler checks: C15 (containment), C16 (exact transfer).
#include "sock.h"
#include <sys/types.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>

struct Tree { QString root; std::map<BA, BA> inside; std::map<BA, BA> outside; std::vector<BA> names; }; // real path -> content
static void rmrf(const QString& p) { if (p.startsWith(scratchDir() + "/")) { QDir d(p); d.removeRecursively(); } }
static void put(const BA& path, const BA& content) { int f = ::open(path.constData(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f < 0) return; ssize_t r = ::write(f, content.constData(), content.size()); (void)r; ::close(f); }
static BA real(const BA& p) { char b[PATH_MAX + 1]; if (p.contains('\0') || !::realpath(p.constData(), b)) return BA(); return BA(b); }
static bool isReg(const BA& p) { struct stat st; return !::stat(p.constData(), &st) && S_ISREG(st.st_mode); }
static BA fileOf(const BA& p) { BA r; int f = ::open(p.constData(), O_RDONLY); if (f < 0) return r; char b[65536]; ssize_t n; while ((n = ::read(f, b, sizeof b)) > 0) r.append(b, int(n)); ::close(f); return r; }

// ================================================================ C15
static BA pct(Rng& r, const BA& s, int p) { BA o; for (int i = 0; i < s.size(); ++i) { unsigned char ch = s.at(i); bool must = ch <= 32 || ch == '%' || ch == '?' || ch == '#' || ch == ';' || ch >= 127 || strchr("\"<>[\\]^`{|}", ch); if (ch != '/' && (must || r.chance(p))) { char t[8]; snprintf(t, 8, r.chance(50) ? "%%%02x" : "%%%02X", ch); o += t; } else if (ch == '/' && r.chance(p / 2)) o += r.chance(50) ? "%2f" : "%2F"; else o += char(ch); } return o; }
FAMILY(C15, paths, 5000, 40000)
{
	alarm(40 * c.slow); static int serial = 0; BA top = scratchDir().toLocal8Bit() + "/t" + num(++serial); ::mkdir(top.constData(), 0755); top = real(top); BA pub = top + "/pub"; ::mkdir(pub.constData(), 0755);
	static const char* sib[] = {"/pub-secret", "/pub2", "/pu", "/pub.bak", "/other", "/publ", "/pub "}; std::vector<BA> outdirs; outdirs.push_back(top);
	for (int i = 0; i < 7; ++i) if (c.rng.chance(60)) { BA d = top + sib[i]; ::mkdir(d.constData(), 0755); outdirs.push_back(d); }
	std::vector<BA> indirs; indirs.push_back(pub); static const char* dn[] = {"sub", "a b", "..x", "x..", "\xc3\xa9t\xc3\xa9", "%2e%2e", "deep", "..."}; int nd = c.rng.below(5); for (int i = 0; i < nd; ++i) { BA d = indirs[c.rng.below(int(indirs.size()))] + "/" + dn[c.rng.below(8)]; if (!::mkdir(d.constData(), 0755)) indirs.push_back(d); }
	static const char* fn[] = {"index.html", "f", "a.txt", "secret", "s p.css", "\xe2\x82\xac.js", "%41", "x.PNG", ".hidden", "..f", "passwd", "a+b"}; std::vector<BA> files; int tag = 0;
	for (auto& d : indirs) { int n = c.rng.range(0, 3); while (n--) { BA f = d + "/" + fn[c.rng.below(12)]; put(f, "PUBLIC " + num(++tag) + " " + f + BA(c.rng.chance(20) ? 2000 : 0, 'p')); files.push_back(f); } }
	for (auto& d : outdirs) { int n = c.rng.range(1, 3); while (n--) { BA f = d + "/" + fn[c.rng.below(12)]; put(f, "SECRET " + num(++tag) + " " + f + BA(c.rng.chance(20) ? 2000 : 0, 's')); files.push_back(f); } }
	// What is no regular file must not be served, nor even opened.
	if (c.rng.chance(40)) { BA f = indirs[c.rng.below(int(indirs.size()))] + "/pipe"; if (c.rng.chance(40)) { if (!::mkfifo(f.constData(), 0644)) files.push_back(f); } else { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; if (f.size() < int(sizeof a.sun_path)) { memcpy(a.sun_path, f.constData(), f.size()); int fd = ::socket(AF_UNIX, SOCK_STREAM, 0); if (!::bind(fd, (struct sockaddr*)&a, sizeof a)) files.push_back(f); ::close(fd); } } c.count("special_files"); }
	std::vector<BA> links; int nl = c.rng.below(5); for (int i = 0; i < nl; ++i) { BA d = indirs[c.rng.below(int(indirs.size()))], l = d + "/ln" + num(i); BA target; switch (c.rng.below(5)) { case 0: target = files.empty() ? top : files[c.rng.below(int(files.size()))]; break; case 1: target = outdirs[c.rng.below(int(outdirs.size()))]; break; case 2: target = indirs[c.rng.below(int(indirs.size()))]; break; case 3: target = ".."; break; default: target = "../pub-secret"; } if (!::symlink(target.constData(), l.constData())) links.push_back(l); }
	BA conf = pub; int ck = c.rng.below(10); switch (ck) { case 0: conf = pub + "/"; break; case 1: conf = top + "/pub2/../pub"; break; case 2: { BA l = top + "/link"; ::symlink(pub.constData(), l.constData()); conf = l; break; } case 3: conf = top + "/./pub//"; break; case 4: conf = indirs.back(); break; case 5: conf = top + "/nonexistent"; break; case 6: conf = ""; break; default: break; }
	BA root = conf.isEmpty() ? BA() : real(conf); int bs = c.rng.chance(50) ? 512 * 1024 : 600;
	Pillow::HttpHandlerFile h(QString::fromLocal8Bit(conf)); h.setBufferSize(bs); if (c.rng.chance(20)) { h.setPublicPath(QString::fromLocal8Bit(top)); h.setPublicPath(QString::fromLocal8Bit(conf)); }
	int reqs = 60; BA lastServed, focus; int moved = 0; std::vector<std::pair<BA, BA> > swapped; // path now a link, where what was there went
	auto below = [&](const BA& d) { return !root.isEmpty() && d.startsWith(root + "/"); };
	for (int q = 0; q < reqs && c.ok(); ++q)
	{
		// The tree changes between requests: what counts is where a path leads when it is asked for.
		if (c.rng.chance(5))
		{
			int how = c.rng.below(5); if (!swapped.empty() && c.rng.chance(40)) how = 1; else if (!lastServed.isEmpty() && c.rng.chance(70)) how = 2 + c.rng.below(2); focus.clear();
			if (how == 0 && !links.empty()) { BA l = links[c.rng.below(int(links.size()))]; if (!::unlink(l.constData())) { BA t = c.rng.chance(50) ? outdirs[c.rng.below(int(outdirs.size()))] : indirs[c.rng.below(int(indirs.size()))]; if (!files.empty() && c.rng.chance(50)) t = files[c.rng.below(int(files.size()))]; ::symlink(t.constData(), l.constData()); c.count("links_retargeted"); } }
			else if (how == 1 && !swapped.empty()) { std::pair<BA, BA> w = swapped.back(); swapped.pop_back(); ::unlink(w.first.constData()); ::rename(w.second.constData(), w.first.constData()); c.count("restored"); focus = lastServed; }
			else if (how <= 3)
			{
				// A file, or a directory on the way to it, becomes a link out of the public path (or to elsewhere within it).
				BA v = lastServed; if (v.isEmpty() && !files.empty()) v = files[c.rng.below(int(files.size()))]; BA f = v; bool dir = c.rng.chance(60); while (dir && v.contains('/')) { BA up = v.left(v.lastIndexOf('/')); if (!below(up)) break; v = up; if (c.rng.chance(50)) break; }
				if (below(v)) { BA keep = top + "/moved" + num(++moved), rest = f.mid(v.size()); struct stat st; bool isDir = !::lstat(v.constData(), &st) && S_ISDIR(st.st_mode); if (!::rename(v.constData(), keep.constData())) { swapped.push_back(std::make_pair(v, keep)); BA to; if (c.rng.chance(30)) to = keep; else if (isDir) { to = top + "/out" + num(moved); ::mkdir(to.constData(), 0755); BA dir = to + rest; for (int s = to.size() + 1; (s = dir.indexOf('/', s)) > 0; ++s) ::mkdir(dir.left(s).constData(), 0755); put(to + rest, "SECRET " + num(++tag) + " moved"); } else { to = top + "/out" + num(moved); put(to, "SECRET " + num(++tag) + " moved"); } if (c.rng.chance(90)) ::symlink(to.constData(), v.constData()); focus = f; c.count("swapped_for_links"); } }
			}
			else if (!files.empty()) { BA f = files[c.rng.below(int(files.size()))]; struct stat st; if (below(f) && !::lstat(f.constData(), &st) && S_ISREG(st.st_mode)) { ::unlink(f.constData()); if (c.rng.chance(50)) put(f, "PUBLIC " + num(++tag) + " again"); focus = f; c.count("files_replaced"); } }
		}
		// Compose a path: towards an existing file, by some detour.
		BA p; BA base = root.isEmpty() ? pub : root;
		switch (c.rng.below(7))
		{
		case 0: case 1: { BA t = files.empty() ? BA("/x") : files[c.rng.below(int(files.size()))]; p = t.startsWith(base + "/") ? t.mid(base.size()) : "/" + QDir(QString::fromLocal8Bit(base)).relativeFilePath(QString::fromLocal8Bit(t)).toLocal8Bit(); break; }
		case 2: { BA t = files.empty() ? BA("/x") : files[c.rng.below(int(files.size()))]; p = "/../" + (t.startsWith(top) ? t.mid(top.size() + 1) : t); break; }
		case 3: if (!links.empty()) { BA l = links[c.rng.below(int(links.size()))]; BA t = files.empty() ? BA() : files[c.rng.below(int(files.size()))]; p = l.startsWith(base) ? l.mid(base.size()) : "/.." + l.mid(top.size()); if (c.rng.chance(60)) p += t.mid(t.lastIndexOf('/')); if (!p.startsWith("/")) p = "/" + p; break; }
		case 4: { p = "/"; int n = c.rng.range(1, 6); while (n--) { static const char* seg[] = {"..", ".", "", "pub", "pub-secret", "sub", "a b", "f", "secret", "index.html", "ln0", "...", "..x"}; p += seg[c.rng.below(13)]; if (n) p += "/"; } break; }
		case 5: { BA t = files.empty() ? BA("/x") : files[c.rng.below(int(files.size()))]; p = t; break; }
		default: { BA t = files.empty() ? BA("/x") : files[c.rng.below(int(files.size()))]; p = t.startsWith(base + "/") ? t.mid(base.size()) : t.mid(top.size()); int at = p.lastIndexOf('/'); static const char* ins[] = {"/.", "/..", "//", "/../pub", "/sub/..", "/nonexistent/..", "/f/.."}; p.insert(at, ins[c.rng.below(7)]); if (!p.startsWith("/")) p = "/" + p; break; }
		}
		if (!focus.isEmpty()) { p = focus.mid(root.size()); if (c.rng.chance(50)) focus.clear(); }
		static const char* tails[] = {"/", "/.", "/..", "%00", "%00.html", ".", " ", "%", "%2"}; if (c.rng.chance(8)) { BA enc = pct(c.rng, p, 20); int ti = c.rng.below(7); p = enc + (ti == 6 ? "%20" : tails[ti]); } else p = pct(c.rng, p, c.rng.chance(50) ? 0 : c.rng.chance(50) ? 10 : 100);
		if (c.rng.chance(3)) p = "*";
		if (!p.startsWith("/") && p != "*") p = "/" + p; if (p.startsWith("%")) p = "/" + p;
		BA dec = p == "*" ? BA() : BA::fromPercentEncoding(p); bool nul = dec.contains('\0'); BA target = root.isEmpty() ? BA() : real(root + (nul ? dec.left(dec.indexOf('\0')) : dec)); bool isInside = !target.isEmpty() && target.startsWith(root + "/") && isReg(target);
		Conn k; SimDevice d(false); bool got = false, res = false; int txAt = 0; bool wrote = false; const char* m = c.rng.chance(80) ? "GET" : c.rng.chance(50) ? "HEAD" : "POST";
		QObject::connect(&k, &Conn::requestReady, [&](Conn* x) { got = true; txAt = d.tx.size(); res = h.handleRequest(x); wrote = d.tx.size() != txAt; if (!res) x->writeResponse(599, Headers(), "DECLINED"); });
		k.initialize(&d, &d); d.feed(BA(m) + " " + p + " HTTP/1.1\r\n\r\n"); for (int i = 0; i < 60 && d.backlog; ++i) { d.drain(d.backlog); spin(); }
		c.note = BA(m) + " " + p + " public path " + conf.mid(top.size()); if (q == 0) c.sample(c.note);
		if (!got) { c.fail("not-delivered", show(d.tx, 100)); break; }
		if (!res && wrote) c.fail("declined-but-wrote", show(d.tx, 200));
		if (res)
		{
			if (root.isEmpty()) c.fail("served-without-public-path", show(d.tx, 300));
			else if (!isInside) c.fail("served-outside", "took a request for " + (target.isEmpty() ? BA("nothing") : target) + ": " + show(d.tx, 400));
			else { Resp r; BA e = parseResponse(d.tx, 0, BA(m) == "HEAD", false, r); BA want = fileOf(target); if (!e.isEmpty() || !r.complete || r.status != 200) c.fail("served-badly", e + show(d.tx, 300)); else if (BA(m) != "HEAD" && r.content != want) c.fail("served-other-content", diffText(want, r.content)); c.count("served"); lastServed = root + (nul ? dec.left(dec.indexOf('\0')) : dec); if (lastServed.contains("/../") || lastServed.contains("//") || lastServed.contains("/./")) lastServed = target; }
		}
		else { c.count("declined"); if (!target.isEmpty() && !isInside) c.count("declined_existing_outside"); if (isInside && !nul) c.fail("declined-inside", "the request for " + target + " was declined"); }
		if (d.tx.contains("SECRET")) { bool allowed = isInside && fileOf(target).contains("SECRET"); if (!allowed) c.fail("leaked-secret", show(d.tx, 300)); }
		c.distinct(fnv(p) ^ ck * 77 ^ isInside);
		d.close();
	}
	rmrf(QString::fromLocal8Bit(top));
}

// ================================================================ C16
struct F16 { BA name, content, type; };
static std::vector<F16>& files16(const BA& dir, int bs, Rng& r)
{
	static std::vector<F16> v; v.clear(); static const char* ext[][2] = {{".html", "text/html"}, {".txt", ""}, {".css", "text/css"}, {".js", "text/javascript"}, {".PNG", "image/png"}, {".jpg", "image/jpeg"}, {".bin", ""}, {"", ""}};
	int sizes[] = {0, 1, bs - 1, bs, bs + 1, bs + 511, 2 * bs, 2 * bs + 1, r.below(bs), bs + r.below(5 * bs), r.chance(20) ? (bs < 4096 ? 300000 : 1500000) : 5 * bs};
	for (int i = 0; i < 11; ++i) { F16 f; int e = r.below(8); f.name = BA(r.chance(30) ? "f %C3%A9" : "file") + num(i) + ext[e][0]; f.type = ext[e][1]; f.content = r.chance(70) ? bodyFor(r.below(1000), qMax(0, sizes[i])) : r.bytes(qMax(0, sizes[i])); v.push_back(f); put(dir + "/" + BA::fromPercentEncoding(f.name.replace(" ", "%20")), f.content); }
	return v;
}
static int servedOpen(const BA& dir)
{
	int files = 0; DIR* d = opendir("/proc/self/fd"); while (struct dirent* e = readdir(d)) { char b[PATH_MAX]; BA p = "/proc/self/fd/" + BA(e->d_name); ssize_t m = readlink(p.constData(), b, sizeof b); if (m > 0 && BA(b, int(m)).startsWith(dir)) ++files; } closedir(d); return files;
}
struct Ask { BA method; int file; BA inm; bool expect304; };
FAMILY(C16, transfers, 600, 20000)
{
	BA dir = scratchDir().toLocal8Bit() + "/pub16"; ::mkdir(dir.constData(), 0755); static const int bss[] = {512, 513, 1000, 4096, 65536, 524288, 100, 1}; bool die = false; int bs = bss[c.rng.below(8)]; int eff = qMax(bs, 8); std::vector<F16> fs = files16(dir, eff, c.rng);
	Pillow::HttpHandlerFile h(QString::fromLocal8Bit(dir)); h.setBufferSize(bs); int fds = openFds();
	int kind = c.rng.chance(60) ? TCP : c.rng.below(3); std::vector<Ask> asks; std::map<BA, BA> etags; // content -> etag
	int n = c.rng.range(1, 8); std::vector<BA> methods; BA wire;
	{
		Srv s(kind); if (c.rng.chance(30)) { s.sendBuffer(c.rng.range(20000, 300000)); c.count("small_send_buffers"); } s.onReady = [&](Conn* x) { if (!h.handleRequest(x)) x->writeResponse(404); };
		Cli k; if (!k.connect(s, c.rng.chance(50) ? 4096 : 0)) { c.fail("connect", ""); return; }
		int slow = c.rng.below(3); if (slow == 1) k.chunk = c.rng.range(1500, 9000); bool pipelined = c.rng.chance(60), abortIt = c.rng.chance(12); int pos = 0; size_t judged = 0; c.note = BA(KINDS[kind]) + " buffer " + num(bs) + (pipelined ? " pipelined" : "") + " reader " + num(slow) + ":"; int reopened = 0;
		auto make = [&](int) { Ask a; a.method = c.rng.chance(70) ? "GET" : c.rng.chance(70) ? "HEAD" : "POST"; a.file = c.rng.below(int(fs.size())); a.expect304 = false; const F16& f = fs[a.file]; if (f.content.size() <= bs && c.rng.chance(50)) { if (etags.count(f.content) && c.rng.chance(60)) { a.inm = etags[f.content]; a.expect304 = true; } else switch (c.rng.below(5)) { case 0: a.inm = "\"x\""; break; case 1: a.inm = "*"; break; case 2: if (!etags.empty()) { a.inm = etags.begin()->second; a.expect304 = etags.begin()->first == f.content; } break; case 3: if (etags.count(f.content)) { a.inm = etags[f.content].left(31); if (c.rng.chance(50)) { a.inm = etags[f.content].toUpper(); a.expect304 = a.inm == etags[f.content]; } } break; default: if (etags.count(f.content)) a.inm = etags[f.content] + "0"; } } return a; };
		auto wireOf = [&](const Ask& a) { BA nm = fs[a.file].name; return a.method + " /" + nm.replace(" ", "%20") + " HTTP/1.1\r\nHost: h\r\n" + (a.inm.isEmpty() ? BA() : "If-None-Match: " + a.inm + "\r\n") + "\r\n"; };
		auto judgeNext = [&]() -> bool { // one complete response available?
			if (judged >= asks.size()) return false; Resp r; const Ask& a = asks[judged]; const F16& f = fs[a.file]; BA e = parseResponse(k.in, pos, a.method == "HEAD", k.eof, r); if (!e.isEmpty()) { c.fail("response-invalid", e); return false; } if (!r.complete) { if (r.content.size() > f.content.size() || !f.content.startsWith(r.content)) c.fail("content-differs", "partial: " + diffText(f.content, r.content)); return false; }
			BA what = a.method + " " + f.name + " (" + num(f.content.size()) + " bytes)";
			if (a.expect304) { if (r.status != 304 || r.content.size()) c.fail("not-304", what + " with its etag got " + r.statusLine); }
			else { if (r.status != 200) c.fail("status", what + " got " + r.statusLine); if (r.value("Content-Length") != num(f.content.size())) c.fail("length", what + ": " + r.value("Content-Length")); if (a.method != "HEAD" && r.content != f.content) c.fail("content-differs", what + ": " + diffText(f.content, r.content)); if (!f.type.isEmpty() && r.value("Content-Type") != f.type) c.fail("media-type", what + ": " + r.value("Content-Type")); if (f.type.isEmpty() && r.value("Content-Type") != "application/octet-stream") c.fail("media-type", what + ": " + r.value("Content-Type"));
				if (f.content.size() <= bs) { BA t = r.value("ETag"); if (t.isEmpty()) c.fail("etag-missing", what); else { if (etags.count(f.content) && etags[f.content] != t) c.fail("etag-unstable", what + " " + t); for (auto& q : etags) if (q.second == t && q.first != f.content) c.fail("etag-collision", what); etags[f.content] = t; } } }
			if (r.headers.empty()) c.fail("headers", "no headers"); pos = r.end; ++judged; c.count("responses"); c.count("bytes", r.content.size()); return true; };
		int tick = 0; auto poller = [&]() { ++tick; if (slow == 2) k.reading = tick % 8 == 0; k.poll(); if (k.kind != LOCAL && !k.in.isEmpty()) { int one = 1; setsockopt(k.p.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); } };
		int last = -1; auto progress = [&]() { if (k.in.size() == last && !k.eof) return false; if (judged < asks.size() && !k.eof && asks[judged].method != "HEAD" && !asks[judged].expect304 && k.in.size() - pos < fs[asks[judged].file].content.size() && k.in.size() - last < (k.in.size() - pos) / 8) return false; last = k.in.size(); while (judgeNext()) {} return true; };
		if (pipelined) { BA w; for (int i = 0; i < n; ++i) { asks.push_back(make(i)); w += wireOf(asks.back()); } k.send(w); }
		for (int i = 0; i < n && c.ok(); ++i)
		{
			if (!pipelined) { asks.push_back(make(i)); k.send(wireOf(asks.back())); } c.note += " " + asks[i].method + ":" + num(fs[asks[i].file].content.size()) + (asks[i].expect304 ? "!" : "");
			if (abortIt && i == n - 1) { waitFor(c, [&]() { return tick > 0; }, poller); if (c.rng.chance(35)) { die = true; c.count("servers_destroyed"); c.note += " server destroyed"; break; } c.rng.chance(50) ? k.reset() : k.shut(); c.count("aborted"); break; }
			if (!waitFor(c, [&]() { progress(); return !c.ok() || int(judged) > i || k.eof; }, poller, 15000)) { c.stall("transfer-stalled", asks[i].method + " " + fs[asks[i].file].name + ": " + num(k.in.size() - pos) + " bytes arrived"); break; }
			if (k.eof && int(judged) <= i) { c.fail("connection-closed", "closed during response " + num(i)); break; }
		}
		c.sample(c.note); (void)reopened;
		if (c.ok() && !abortIt && pos != k.in.size()) c.fail("extra-bytes", show(k.in.mid(pos), 200));
		if (c.ok() && !abortIt) { for (int i = 0; i < 4; ++i) { spin(); k.poll(); } if (pos != k.in.size()) c.fail("extra-bytes", "after the last response: " + show(k.in.mid(pos), 200)); }
		if (c.ok() && abortIt && !die) { if (!waitFor(c, [&]() { return s.sockets() == 0; })) c.stall("socket-left", ""); }
		if (c.ok() && !die) { spinN(4); int files = servedOpen(dir); if (files) c.fail("file-left-open", num(files) + " served files are still open after all transfers ended"); }
	}
	if (c.ok() && die) { spinN(4); int files = servedOpen(dir); if (files) c.fail("file-left-open", num(files) + " served files are still open after their server was destroyed"); }
	(void)fds; c.distinct(fnv(c.note)); rmrf(QString::fromLocal8Bit(dir));
}
FAMILY(C16, simulated, 1800, 60000)
{
	// Exact control over when the output drains; further requests are fed while a transfer is in progress.
	BA dir = scratchDir().toLocal8Bit() + "/pub16s"; ::mkdir(dir.constData(), 0755); int bs = c.rng.chance(50) ? 512 : c.rng.range(512, 5000); std::vector<F16> fs = files16(dir, bs, c.rng); for (auto& f : fs) if (f.content.size() > 200000) f.content.truncate(f.content.size());
	Pillow::HttpHandlerFile h(QString::fromLocal8Bit(dir)); h.setBufferSize(bs); Session s(c, 0, false); std::vector<BA> methods; std::vector<int> want; int n = c.rng.range(1, 6); BA wire;
	for (int i = 0; i < n; ++i) { int f = c.rng.below(10); BA m = c.rng.chance(60) ? "GET" : c.rng.chance(80) ? "HEAD" : "POST"; BA nm = fs[f].name; methods.push_back(m); want.push_back(f); wire += m + " /" + nm.replace(" ", "%20") + " HTTP/1.1\r\n\r\n"; c.note += m + ":" + num(fs[f].content.size()) + " "; }
	bool appClosesFirst = c.rng.chance(5); s.onReady = [&](int) { if (appClosesFirst) s.conn->close(); if (!h.handleRequest(s.conn)) s.conn->writeResponse(404); };
	s.start(); std::vector<BA> pcs = split(c.rng, wire); size_t next = 0; int g = 0; bool cut = c.rng.chance(15); int cutAt = c.rng.below(40); c.note += " buffer " + num(bs) + (cut ? " cut at " + num(cutAt) : BA()); c.sample(c.note);
	while (++g < 4000 && !s.isClosed())
	{
		if (next < pcs.size() && c.rng.chance(60)) s.feed(pcs[next++]);
		if (s.d->backlog && c.rng.chance(80)) s.d->drain(c.rng.chance(50) ? s.d->backlog : 1 + c.rng.below(int(qMin<qint64>(s.d->backlog, 1 << 20)))); if (c.rng.chance(70)) spin();
		if (cut && g == cutAt) { s.d->close(); break; }
		if (next == pcs.size() && s.nCompleted == n && !s.d->backlog) break;
	}
	if (!cut && !appClosesFirst)
	{
		std::vector<Resp> rs; BA e = parseStream(s.d->tx, methods, false, rs); if (!e.isEmpty()) c.fail("response-invalid", e);
		else if (int(rs.size()) != n || !rs.back().complete) c.stall("transfer-stalled", num(int(rs.size())) + " of " + num(n) + " responses");
		else for (int i = 0; i < n; ++i) { const F16& f = fs[want[i]]; if (rs[i].status != 200 || (methods[i] != "HEAD" && rs[i].content != f.content) || rs[i].value("Content-Length") != num(f.content.size())) c.fail("content-differs", "response " + num(i) + " " + rs[i].statusLine + " " + rs[i].value("Content-Length") + ": " + diffText(f.content, rs[i].content)); c.count("responses"); }
	}
	s.onReady = 0; if (!s.isClosed()) { spin(); s.finish(); } spinN(3);
	int files = servedOpen(dir); if (files) c.fail("file-left-open", num(files) + " served files are still open after all transfers ended");
	c.distinct(fnv(c.note)); rmrf(QString::fromLocal8Bit(dir));
}
FAMILY(C16, rewrites, 1500, 40000)
{
	// Files change between requests, with and without any trace in their metadata: the ETag follows the content alone.
	BA dir = scratchDir().toLocal8Bit() + "/pub16r"; ::mkdir(dir.constData(), 0755); int bs = c.rng.chance(50) ? 524288 : c.rng.range(64, 4000); Pillow::HttpHandlerFile h(QString::fromLocal8Bit(dir)); h.setBufferSize(bs);
	struct F { BA name, content; bool exists; }; std::vector<F> fs; int nf = c.rng.range(1, 3); for (int i = 0; i < nf; ++i) { F f; f.name = "r" + num(i) + (c.rng.chance(50) ? ".html" : ""); f.exists = false; fs.push_back(f); }
	std::map<BA, BA> etagOf, contentOf; std::vector<BA> known; Session s(c, 0, false); s.onReady = [&](int) { if (!h.handleRequest(s.conn)) s.conn->writeResponse(404); }; s.start(); int n = c.rng.range(2, 12); struct timespec fixed[2]; fixed[0].tv_sec = fixed[1].tv_sec = 1500000000 + c.rng.below(1000); fixed[0].tv_nsec = fixed[1].tv_nsec = 0; bool keepTime = c.rng.chance(60); int prefix = c.rng.below(bs);
	c.note = "buffer " + num(bs) + (keepTime ? " same time stamps:" : ":"); int txPos = 0;
	for (int i = 0; i < n && c.ok() && !s.isClosed(); ++i)
	{
		F& f = fs[c.rng.below(nf)]; BA path = dir + "/" + f.name;
		if (!f.exists || c.rng.chance(60)) {
			BA next; int how = c.rng.below(6); if (!f.exists) how = 5; if (f.exists && f.content.isEmpty()) how = 5;
			switch (how) { case 0: next = f.content; next[c.rng.below(next.size())] = char(c.rng.below(256)); break; case 1: next = f.content; next[next.size() - 1] = char(next.at(next.size() - 1) ^ 1); break; case 2: next = f.content + "x"; break; case 3: next = f.content.left(f.content.size() - 1); break; case 4: for (auto& o : fs) if (o.exists) next = o.content; break; default: next = bodyFor(c.rng.below(50), c.rng.chance(10) ? bs + c.rng.below(3) : c.rng.chance(50) ? prefix : c.rng.below(bs + 1)); }
			if (c.rng.chance(20)) ::unlink(path.constData()); put(path, next); f.content = next; f.exists = true; if (keepTime) ::utimensat(AT_FDCWD, path.constData(), fixed, 0); c.count("rewrites"); c.note += " W" + num(how) + "(" + num(next.size()) + ")";
		}
		BA inm; if (!known.empty() && c.rng.chance(75)) inm = known[c.rng.below(int(known.size()))]; if (etagOf.count(f.content) && c.rng.chance(30)) inm = etagOf[f.content];
		BA m = c.rng.chance(75) ? "GET" : c.rng.chance(50) ? "HEAD" : "POST"; bool mem = f.content.size() <= bs; bool want304 = mem && !inm.isEmpty() && etagOf.count(f.content) && etagOf[f.content] == inm;
		int done = s.nCompleted; s.feed(m + " /" + f.name + " HTTP/1.1\r\n" + (inm.isEmpty() ? BA() : "If-None-Match: " + inm + "\r\n") + "\r\n"); c.note += " " + m + (inm.isEmpty() ? "" : want304 ? "=" : "!");
		if (!waitFor(c, [&]() { s.d->drain(s.d->backlog); return s.nCompleted > done || s.isClosed(); })) { c.stall("transfer-stalled", f.name); break; }
		Resp r; BA e = parseResponse(s.d->tx, txPos, m == "HEAD", false, r); if (!e.isEmpty() || !r.complete) { c.fail("response-invalid", e + show(s.d->tx.mid(txPos), 200)); break; } txPos = r.end; c.count("responses");
		if (want304) { c.count("not_modified"); if (r.status != 304 || r.content.size()) c.fail("not-304", "its etag got " + r.statusLine); continue; }
		if (r.status != 200) c.fail("status", "a validator of other content got " + r.statusLine); else if (m != "HEAD" && r.content != f.content) c.fail("content-differs", diffText(f.content, r.content)); else if (r.value("Content-Length") != num(f.content.size())) c.fail("length", r.value("Content-Length"));
		BA t = r.value("ETag"); if (!mem) continue; if (t.isEmpty()) { c.fail("etag-missing", ""); continue; } if (etagOf.count(f.content) && etagOf[f.content] != t) c.fail("etag-unstable", etagOf[f.content] + " then " + t); if (contentOf.count(t) && contentOf[t] != f.content) c.fail("etag-collision", diffText(contentOf[t], f.content)); etagOf[f.content] = t; contentOf[t] = f.content; known.push_back(t);
	}
	c.sample(c.note); c.distinct(fnv(c.note)); s.onReady = 0; s.finish(); rmrf(QString::fromLocal8Bit(dir));
}
FAMILY(C16, changing, 1000, 30000)
{
	// The file changes while it is being sent: what was announced is sent as it was, or else the connection is closed.
	BA dir = scratchDir().toLocal8Bit() + "/pub16c"; ::mkdir(dir.constData(), 0755); BA f = dir + "/f"; Rng& r = c.rng; int bs = r.chance(50) ? 512 : r.range(512, 40000), size = bs + 1 + r.size(r.chance(50) ? 3000 : 200000), change = r.below(5), at = r.below(size), len = r.chance(20) ? 0 : r.below(size); BA content = bodyFor(c.index, size); static const char* const N[] = {"truncated to", "appended to", "deleted", "replaced", "rewritten with the same"};
	c.note = "buffer " + num(bs) + ", file " + num(size) + " " + N[change] + (change == 0 ? " " + num(len) : BA()) + " after " + num(at); c.sample(c.note); { int fd = ::open(f.constData(), O_CREAT | O_TRUNC | O_WRONLY, 0644); for (int p = 0; p < size; ) { ssize_t n = ::write(fd, content.constData() + p, size - p); if (n <= 0) break; p += int(n); } ::close(fd); }
	Pillow::HttpHandlerFile h(QString::fromLocal8Bit(dir)); h.setBufferSize(bs); Session s(c, 0, false); s.onReady = [&](int) { if (!h.handleRequest(s.conn)) s.conn->writeResponse(404); }; s.start(); s.feed("GET /f HTTP/1.1\r\nHost: x\r\n\r\n"); spin(); int head = s.d->tx.indexOf("\r\n\r\n") + 4; bool changed = false; int given = 0, g = 0; if (head < 4) { c.fail("no-headers", c.note); return; }
	while (!s.isClosed() && s.nCompleted == 0 && ++g < 5000)
	{
		if (!changed && s.d->tx.size() - head >= at)
		{
			changed = true; given = s.d->tx.size() - head; c.count(N[change]);
			switch (change) { case 0: { int e = ::truncate(f.constData(), len); (void)e; break; } case 1: { int fd = ::open(f.constData(), O_WRONLY | O_APPEND); BA more = r.bytes(1 + r.size(70000)); ssize_t e = ::write(fd, more.constData(), more.size()); (void)e; ::close(fd); break; } case 2: ::unlink(f.constData()); break; case 3: { BA o = dir + "/g"; int fd = ::open(o.constData(), O_CREAT | O_WRONLY | O_TRUNC, 0644); BA other = r.bytes(r.size(70000)); ssize_t e = ::write(fd, other.constData(), other.size()); (void)e; ::close(fd); ::rename(o.constData(), f.constData()); break; } default: { int fd = ::open(f.constData(), O_WRONLY); ssize_t e = ::write(fd, content.constData(), size); (void)e; ::close(fd); } }
		}
		if (s.d->backlog) s.d->drain(r.chance(40) ? s.d->backlog : r.range(1, qMin<int>(int(s.d->backlog), 30000))); spin(); if (!s.d->backlog && !s.isClosed() && s.nCompleted == 0) { spinN(2); if (!s.d->backlog && !s.isClosed() && s.nCompleted == 0) break; }
	}
	while (s.d->backlog) { s.d->drain(s.d->backlog); spin(); } BA got = s.d->tx.mid(head); if (!content.startsWith(got)) c.fail("content-differs", c.note + ": " + diffText(content, got)); if (changed && change == 0) { if (s.nCompleted == 0 && !s.isClosed()) c.fail("left-waiting", c.note + ": " + num(got.size()) + " bytes were sent, and the connection is still open"); if (s.nCompleted && got != content) c.fail("content-differs", c.note + ": completed with " + num(got.size()) + " bytes"); } else if (got != content || s.nCompleted != 1) c.fail("transfer-stalled", c.note + ": " + num(got.size()) + " bytes, " + num(s.nCompleted) + " completed");
	(void)given; s.onReady = 0; if (!s.isClosed()) s.finish(); spinN(3); if (int n = servedOpen(dir)) c.fail("file-left-open", num(n) + " served files are still open"); c.distinct(fnv(c.note)); rmrf(QString::fromLocal8Bit(dir));
}

// Applications can have anything transferred: the rest of a device, with headers and framing of their own.
FAMILY(C16, direct, 1500, 40000)
{
	Rng& r = c.rng; int buf = r.chance(20) ? r.below(600) : r.chance(50) ? r.range(512, 5000) : 512 * 1024, room = qMax(buf, 512); BA all = bodyFor(c.index, 1 + r.size(r.chance(50) ? 3 * qMin(room, 5000) : 60000)); int from = r.chance(70) ? 0 : r.below(all.size()); BA want = all.mid(from); int framing = r.below(3); bool after = r.chance(50), deferred = r.chance(30); int death = r.chance(15) ? r.below(6) : -1, pipelined = r.below(3);
	c.note = "buffer " + num(buf) + ", " + num(want.size()) + " bytes from " + num(from) + (framing == 0 ? ", length" : framing == 1 ? ", chunked" : ", until close") + (deferred ? ", later" : "") + (death >= 0 ? ", source deleted after " + num(death) + " steps" : BA()); c.sample(c.note);
	Session s(c, 0, false); std::unique_ptr<QBuffer> src; QPointer<Pillow::HttpHandlerFileTransfer> t; int finished = 0, ready = 0; bool gone = false;
	auto begin = [&]() { src.reset(new QBuffer); src->setData(all); src->open(QIODevice::ReadOnly); src->seek(from); t = new Pillow::HttpHandlerFileTransfer(src.get(), s.conn, buf); QObject::connect(t.data(), &Pillow::HttpHandlerFileTransfer::finished, s.conn, [&]() { ++finished; if (src && src->pos() != all.size()) c.fail("finished-early", c.note + ": finished() at " + num(int(src->pos())) + " of " + num(all.size())); if (framing == 1) s.conn->endContent(); else if (framing == 2) s.conn->close(); if (t && after) t->deleteLater(); });
		if (framing == 0) s.conn->writeHeaders(200, hdrs({{"Content-Length", num(want.size())}, {"X-Own", "yes"}})); else if (framing == 1) s.conn->writeHeaders(200, hdrs({{"Transfer-Encoding", "chunked"}, {"X-Own", "yes"}})); else s.conn->writeHeaders(200, hdrs({{"X-Own", "yes"}})); t->writeNextPayload(); };
	s.onReady = [&](int k) { ++ready; if (k == 0) { if (!deferred) begin(); } else s.conn->writeResponse(200, Headers(), "next"); }; s.start(); BA wire = "GET /d HTTP/1.1\r\nHost: x\r\n\r\n"; for (int i = 0; i < pipelined; ++i) wire += "GET /n HTTP/1.1\r\n\r\n"; s.feed(wire); spin(); if (deferred) begin(); int steps = 0;
	while (c.ok() && !s.isClosed()) { spin(); if (steps == death && src && !finished) { src.reset(); gone = true; } if (s.d->backlog == 0) break; if (!gone && s.d->backlog > room + 1000 + pipelined * 200) c.fail("hoarded", c.note + ": " + num(s.d->backlog) + " bytes unwritten"); s.d->drain(r.chance(40) ? s.d->backlog : r.range(1, int(qMin<qint64>(s.d->backlog, 3000)))); if (++steps > 4000) break; } spin();
	if (gone) { if (t) c.fail("transfer-left", c.note + ": the transfer outlives its source"); if (finished) c.fail("finished-without-source", c.note); c.count("sources_deleted"); }
	else
	{
		if (finished != 1) c.fail("finished-count", c.note + ": finished() emitted " + num(finished) + " times"); if (framing != 2 && ready != 1 + pipelined) c.fail("not-completed", c.note + ": " + num(ready) + " of " + num(1 + pipelined) + " requests announced"); std::vector<BA> ms(1 + pipelined, BA("GET")); std::vector<Resp> rs; BA e = parseStream(s.d->tx, ms, framing == 2, rs); if (!e.isEmpty() || rs.empty() || !rs[0].complete) c.fail("framing", c.note + ": " + e + " " + show(s.d->tx.left(300), 300)); else { if (rs[0].content != want) c.fail("content", c.note + ": " + diffText(want, rs[0].content)); if (rs[0].value("X-Own") != "yes") c.fail("headers", c.note); if (framing != 2 && int(rs.size()) != 1 + pipelined) c.fail("responses", c.note + ": " + num(int(rs.size())) + " responses"); } if (t) c.fail("transfer-left", c.note + ": the transfer is still there after the response"); c.count("direct_transfers");
	}
	c.distinct(fnv(c.note)); s.onReady = 0; if (!s.isClosed()) { s.conn->close(); spin(); } src.reset(); spin();
}
FAMILY(C16, unreadable, 60, 600)
{
	// An existing file that cannot be opened yields 403 (run the handler as an unprivileged user).
	BA dir = scratchDir().toLocal8Bit() + "/pub403"; ::mkdir(dir.constData(), 0755); put(dir + "/secret.txt", "TOPSECRET"); put(dir + "/open.txt", "OPEN"); ::chmod((dir + "/secret.txt").constData(), 0600); ::chmod((dir + "/open.txt").constData(), 0644); ::chmod(dir.constData(), 0755);
	BA m = c.rng.chance(60) ? "GET" : c.rng.chance(50) ? "HEAD" : "POST"; bool ok = c.rng.chance(40); Pillow::HttpHandlerFile h(QString::fromLocal8Bit(dir)); h.setBufferSize(c.rng.chance(50) ? 2 : 100000); Session s(c, 0, false); bool res = false, priv = false; c.note = m + (ok ? " readable" : " unreadable"); c.sample(c.note);
	s.onReady = [&](int) { if (::geteuid() == 0) { priv = ::seteuid(65534) == 0; } bool can = ::access((dir + "/open.txt").constData(), R_OK) == 0; (void)can; res = h.handleRequest(s.conn); if (priv) { int r = ::seteuid(0); (void)r; } if (!res) s.conn->writeResponse(404); };
	s.start(); s.feed(m + (ok ? " /open.txt" : " /secret.txt") + " HTTP/1.1\r\n\r\n"); for (int i = 0; i < 20; ++i) { s.d->drain(s.d->backlog); spin(); }
	Resp r; BA e = parseResponse(s.d->tx, 0, m == "HEAD", false, r); if (priv) { if (!e.isEmpty() || !r.complete) c.fail("response-invalid", e + show(s.d->tx, 200)); else if (r.status != (ok ? 200 : 403)) { if (r.status == 404) c.count("unreachable_as_user"); else c.fail("status-for-unreadable", r.statusLine); } if (s.d->tx.contains("TOPSECRET")) c.fail("leaked-unreadable", show(s.d->tx, 200)); }
	c.count("unreadable_cases", priv); c.distinct(fnv(c.note) + c.index % 7); s.onReady = 0; s.finish(); rmrf(QString::fromLocal8Bit(dir));
}
