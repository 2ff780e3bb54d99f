// Header collections (C32) and helper functions (C33).
#include "h.h"
#include "HttpHeader.h"
#include "HttpHelpers.h"
#include "ByteArrayHelpers.h"
#include <climits>
#include <cmath>
using Pillow::Token; using Pillow::LowerCaseToken; namespace BH = Pillow::ByteArrayHelpers;

// ================================================================ C32
typedef std::vector<std::pair<BA, BA> > Model;
static char low(char x) { return x >= 'A' && x <= 'Z' ? char(x + 32) : x; }
static bool same(const BA& a, const BA& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (low(a.at(i)) != low(b.at(i))) return false; return true; }
static const char* BASE[] = {"Content-Type", "content-length", "X", "Set-Cookie", "", "Connection", "A@Z[z`{", "x-y_z", "Host", "\xc3\xa9", "K", "transfer-encoding", "close", "keep-alive", "text/html"};
static BA name(Rng& r)
{
	BA b = BASE[r.below(15)]; if (r.chance(15)) b = r.bytes(r.below(6)); if (r.chance(5)) b = BA(r.below(80), 'n');
	switch (r.below(8)) { case 0: for (int i = 0; i < b.size(); ++i) if (isalpha((unsigned char)b.at(i)) && r.chance(50)) b[i] = char(b.at(i) ^ 32); break; case 1: if (!b.isEmpty()) { int i = r.below(b.size()); b[i] = char(b.at(i) ^ (1 << r.below(8))); } break; case 2: b = b.toUpper(); break; case 3: b = b.left(r.below(b.size() + 1)); break; case 4: b += char(r.below(256)); break; case 5: for (int i = 0; i < b.size(); ++i) if (r.chance(20)) b[i] = char(b.at(i) ^ 32); break; default: break; }
	return b;
}
static void compare(Ctx& c, const Headers& h, const Model& m, const char* what)
{
	if (h.size() != int(m.size())) { c.fail("content", BA(what) + ": " + num(h.size()) + " headers, expected " + num(int(m.size()))); return; }
	for (int i = 0; i < h.size(); ++i) if (h.at(i).first != m[i].first || h.at(i).second != m[i].second) { c.fail("content", BA(what) + ": header " + num(i) + " is " + show(h.at(i).first + ": " + h.at(i).second, 100) + ", expected " + show(m[i].first + ": " + m[i].second, 100)); return; }
}
// A lookup through a piece of a bigger buffer that is exactly as long as needed (the sanitizer sees any excess).
struct Slice { char* p; int n; explicit Slice(const BA& b) : p(static_cast<char*>(::malloc(b.size() ? b.size() : 1))), n(b.size()) { memcpy(p, b.constData(), b.size()); } ~Slice() { ::free(p); } const char* data() const { return p; } int size() const { return n; } private: Slice(const Slice&); };
static void lookups(Ctx& c, const Headers& h, const Model& m, const BA& f, const BA& v)
{
	const BA* first = 0; std::vector<BA> all; bool match = false; for (auto& x : m) if (same(x.first, f)) { if (!first) first = &x.second; all.push_back(x.second); match |= same(x.second, v); }
	Slice fs(f), vs(v); BA want = first ? *first : BA(); c.count("lookups"); if (first) c.count("hits"); if (match) c.count("tests_true");
	#define GET(e) { const BA& g = e; if (g != want || (!first && !g.isEmpty())) c.fail("getFieldValue", BA(#e) + " of " + show(f, 60) + ": " + diffText(want, g)); }
	GET(h.getFieldValue(f)) GET(h.getFieldValue(fs.data(), fs.size())) GET(h.getFieldValue(fs))
	#define ALL(e) { QVector<BA> g = e; bool eq = g.size() == int(all.size()); for (int i = 0; eq && i < g.size(); ++i) eq = g.at(i) == all[i]; if (!eq) c.fail("getFieldValues", BA(#e) + " of " + show(f, 60) + ": " + num(g.size()) + " values, expected " + num(int(all.size()))); }
	ALL(h.getFieldValues(f)) ALL(h.getFieldValues(fs.data(), fs.size()))
	#define TEST(e) { bool g = e; if (g != match) c.fail("testFieldValue", BA(#e) + " of " + show(f, 60) + ": " + show(v, 60) + " is " + num(g)); }
	TEST(h.testFieldValue(f, v)) TEST(h.testFieldValue(fs.data(), fs.size(), vs.data(), vs.size())) TEST(h.testFieldValue(fs, vs)) TEST(h.testFieldValue(f, vs))
	// The comparisons everything else in the library uses.
	bool eq = same(f, v);
	#define EQ(e) { bool g = e; if (g != eq) c.fail("asciiEquals", BA(#e) + " of " + show(f, 60) + " and " + show(v, 60) + " is " + num(g)); }
	EQ(BH::asciiEqualsCaseInsensitive(f, v)) EQ(BH::asciiEqualsCaseInsensitive(v, f)) EQ(BH::asciiEqualsCaseInsensitive(fs.data(), fs.size(), vs.data(), vs.size()))
}
template <int N> static void literal(Ctx& c, const Headers& h, const Model& m, const char (&lit)[N], const BA& v)
{
	BA f(lit, N - 1); const BA* first = 0; std::vector<BA> all; bool match = false; for (auto& x : m) if (same(x.first, f)) { if (!first) first = &x.second; all.push_back(x.second); match |= same(x.second, v); } BA want = first ? *first : BA(); Token t(lit); Slice vs(v);
	GET(h.getFieldValue(lit)) GET(h.getFieldValue(t)) ALL(h.getFieldValues(lit)) TEST(h.testFieldValue(lit, v)) TEST(h.testFieldValue(t, v)) TEST(h.testFieldValue(lit, vs)) TEST(h.testFieldValue(t, vs))
	if (lower(f) == f) { LowerCaseToken lt(lit); GET(h.getFieldValue(lt)) TEST(h.testFieldValue(lt, v)) bool eq = same(v, f); EQ(BH::asciiEqualsCaseInsensitive(v, lt)) }
	{ bool eq = same(v, f); EQ(BH::asciiEqualsCaseInsensitive(v, t)) EQ(BH::asciiEqualsCaseInsensitive(v, QLatin1Literal(lit))) }
	{ bool m2 = false; for (auto& x : m) if (same(x.first, v) && same(x.second, f)) m2 = true; match = m2; TEST(h.testFieldValue(v, lit)) TEST(h.testFieldValue(v, t)) }
	{ bool m2 = false; for (auto& x : m) if (same(x.first, f) && same(x.second, "close")) m2 = true; match = m2; TEST(h.testFieldValue(lit, "close")) TEST(h.testFieldValue(lit, "CLOSE")) TEST(h.testFieldValue(t, Token("Close"))) TEST(h.testFieldValue(t, "cLOSE")) TEST(h.testFieldValue(lit, LowerCaseToken("close"))) }
	c.count("lookups", 3);
}
FAMILY(C32, programs, 40000, 1000000)
{
	struct Coll { Headers h; Model m; }; std::vector<std::unique_ptr<Coll> > cs; cs.emplace_back(new Coll); uint64_t sig = 7; int n = c.rng.range(2, 25);
	for (int i = 0; i < n && c.ok(); ++i)
	{
		Coll& a = *cs[c.rng.below(int(cs.size()))]; int op = c.rng.below(17); sig = sig * 31 + op; BA f = name(c.rng), v = c.rng.chance(60) ? name(c.rng) : c.rng.bytes(c.rng.below(8)); if (a.m.size() && c.rng.chance(25)) f = a.m[c.rng.below(int(a.m.size()))].first; if (i < 40) c.note += num(op) + (op > 3 ? "," : "(" + show(f, 20) + ":" + show(v, 20) + "),");
		switch (op)
		{
		case 0: a.h << Header(f, v); a.m.push_back(std::make_pair(f, v)); break; case 1: a.h += Header(QPair<BA, BA>(f, v)); a.m.push_back(std::make_pair(f, v)); break; case 2: a.h.append(Header(f, v)); a.m.push_back(std::make_pair(f, v)); break;
		case 3: { Header x; x = QPair<BA, BA>(f, v); Header y(x); a.h.push_back(y); a.m.push_back(std::make_pair(f, v)); if (x != y || !(x == QPair<BA, BA>(f, v)) || x != QPair<BA, BA>(f, v) || x == Header(f + "x", v) || x == QPair<BA, BA>(f, v + "x")) c.fail("equality", "header comparison is wrong for " + show(f + ": " + v, 60)); const QPair<BA, BA>& pr = x; if (pr.first != f || pr.second != v) c.fail("conversion", "to QPair"); break; }
		case 4: { Coll& b = *cs[c.rng.below(int(cs.size()))]; if (a.m.size() + b.m.size() > 400) break; Model bm = b.m; a.h += b.h; a.m.insert(a.m.end(), bm.begin(), bm.end()); c.count(&a == &b ? "self_appends" : "appends"); break; }
		case 5: { Coll& b = *cs[c.rng.below(int(cs.size()))]; if (a.m.size() + b.m.size() > 400) break; Model bm = b.m; a.h << b.h; a.m.insert(a.m.end(), bm.begin(), bm.end()); break; }
		case 6: { Coll& b = *cs[c.rng.below(int(cs.size()))]; if (a.m.size() + b.m.size() > 400) break; cs.emplace_back(new Coll); Coll& d = *cs.back(); d.h = a.h + b.h; d.m = a.m; d.m.insert(d.m.end(), b.m.begin(), b.m.end()); break; }
		case 7: { std::unique_ptr<Coll> d(new Coll); d->h = a.h; d->m = a.m; cs.push_back(std::move(d)); break; } // shares its data until changed
		case 8: if (a.m.size()) { int k = c.rng.below(int(a.m.size())); a.h << a.h.at(k); a.m.push_back(std::make_pair(a.m[k].first, a.m[k].second)); } break;
		case 9: { Headers copy = a.h; if (a.m.size() > 200) break; a.h += copy; Model k = a.m; a.m.insert(a.m.end(), k.begin(), k.end()); break; } case 10: if (a.m.size() && c.rng.chance(30)) { int k = c.rng.below(int(a.m.size())); a.h.remove(k); a.m.erase(a.m.begin() + k); } break;
		case 11: if (c.rng.chance(10)) { a.h.clear(); a.m.clear(); } break; case 12: a.h.reserve(c.rng.below(64)); break; case 13: { QVector<Header> v2 = a.h; if (a.m.size() > 200) break; a.h += v2; Model k = a.m; a.m.insert(a.m.end(), k.begin(), k.end()); break; }
		case 14: { const QVector<QPair<BA, BA> >& q = a.h; bool eq = q.size() == int(a.m.size()); for (int j = 0; eq && j < q.size(); ++j) eq = q.at(j).first == a.m[j].first && q.at(j).second == a.m[j].second; if (!eq) c.fail("conversion", "to QVector<QPair>"); break; }
		case 15: if (a.m.size() && c.rng.chance(50)) { int k = c.rng.below(int(a.m.size())); a.h[k].second = v; a.m[k].second = v; } break;
		default: { QVariant var = QVariant::fromValue(a.h); Headers back = var.value<Pillow::HttpHeaderCollection>(); compare(c, back, a.m, "through QVariant"); break; }
		}
		for (size_t j = 0; j < cs.size(); ++j) if (cs[j].get() == &a || c.rng.chance(30)) compare(c, cs[j]->h, cs[j]->m, "collection");
		for (int j = 0; j < 2 && c.ok(); ++j) { BA lf = c.rng.chance(60) && a.m.size() ? a.m[c.rng.below(int(a.m.size()))].first : name(c.rng); if (c.rng.chance(50)) for (int k = 0; k < lf.size(); ++k) if (c.rng.chance(40)) lf[k] = isalpha((unsigned char)lf.at(k)) || c.rng.chance(8) ? char(lf.at(k) ^ 32) : lf.at(k); BA lv = c.rng.chance(60) && a.m.size() ? a.m[c.rng.below(int(a.m.size()))].second : name(c.rng); if (c.rng.chance(50)) for (int k = 0; k < lv.size(); ++k) if (isalpha((unsigned char)lv.at(k)) && c.rng.chance(40)) lv[k] = char(lv.at(k) ^ 32); lookups(c, a.h, a.m, lf, lv); if (j == 0) { if (c.rng.chance(40)) lookups(c, a.h, a.m, lf, lf); switch (c.rng.below(7)) { case 0: literal(c, a.h, a.m, "Content-Type", lv); break; case 1: literal(c, a.h, a.m, "connection", lv); break; case 2: literal(c, a.h, a.m, "", lv); break; case 3: literal(c, a.h, a.m, "A@Z[z`{", lv); break; case 4: literal(c, a.h, a.m, "x", lv); break; case 5: literal(c, a.h, a.m, "content-length", lv); break; default: literal(c, a.h, a.m, "a@z[z`{", lv); } } }
		if (cs.size() > 8) cs.erase(cs.begin() + c.rng.below(int(cs.size())));
	}
	if (c.rng.chance(1)) c.sample(c.note); if (c.index < 3) c.sample(c.note); c.distinct(sig);
}
FAMILY(C32, comparisons, 256, 256)
{
	// Every pair of characters, through every comparison, alone and within a longer text.
	char x = char(c.index); c.note = "character " + num(c.index); if (c.index < 2) c.sample(c.note);
	for (int o = 0; o < 256; ++o) { char y = char(o); bool eq = low(x) == low(y); BA f(1, x), v(1, y); for (int k = 0; k < 2; ++k) { if (k) { f = "aZ" + f + "9"; v = "Az" + v + "9"; }
		EQ(BH::asciiEqualsCaseInsensitive(f, v)) EQ(BH::asciiEqualsCaseInsensitive(f.constData(), f.size(), v.constData(), v.size())) EQ(BH::asciiEqualsCaseInsensitive(f, *reinterpret_cast<const QLatin1Literal*>(&static_cast<const QLatin1Literal&>(QLatin1Literal(v.constData(), v.size())))))
		Headers h; h << Header(v, v); bool got = h.testFieldValue(f, f); if (got != eq) c.fail("testFieldValue", show(f, 10) + " vs " + show(v, 10)); if ((h.getFieldValue(f) == v) != eq) c.fail("getFieldValue", show(f, 10) + " vs " + show(v, 10)); if (h.getFieldValues(f).size() != int(eq)) c.fail("getFieldValues", show(f, 10) + " vs " + show(v, 10)); c.count("pairs"); } }
	c.distinct(c.index);
}
#define RAW(lit, f, s) { Header h(lit); if (h.first != BA(f) || h.second != BA(s)) c.fail("raw-header", BA(lit) + " became " + show(h.first, 40) + " | " + show(h.second, 40)); c.count("raw_headers"); }
#define PAIR(a, b) { Header h(a, b); if (h.first != BA(a, sizeof a - 1) || h.second != BA(b, sizeof b - 1)) c.fail("literal-header", BA(a)); c.count("raw_headers"); }
FAMILY(C32, literals, 1, 1)
{
	RAW("Field: Value", "Field", "Value") RAW("Field:Value", "Field", "Value") RAW("Field:    Value", "Field", "Value") RAW("Field: Value ", "Field", "Value ") RAW("Field: a: b", "Field", "a: b") RAW("Field:", "Field", "") RAW("Field: ", "Field", "") RAW("Field", "Field", "") RAW("", "", "") RAW(": v", "", "v") RAW(":", "", "") RAW("F::v", "F", ":v") RAW("F:\tv", "F", "\tv") RAW("F:   ", "F", "") RAW(" F: v", " F", "v") RAW("a:b:c: d", "a", "b:c: d")
	PAIR("a", "b") PAIR("", "b") PAIR("a", "") PAIR("", "") PAIR("Content-Type", "text/html; a=b") PAIR("x\0y", "1\0" "2") PAIR("A:", ":b")
	c.note = "literals"; c.sample(c.note); c.distinct(1);
}

// ================================================================ C33
template <typename T, int Base> static void number(Ctx& c, T v)
{
	static const char* digits = "0123456789abcdef"; __int128 x = v; bool neg = x < 0; if (neg) x = -x; BA want; do { want.prepend(digits[int(x % Base)]); x /= Base; } while (x); if (neg) want.prepend('-');
	BA got; BH::appendNumber<T, Base>(got, v); if (got != want) c.fail("number", "type of " + num(int(sizeof(T))) + " bytes, base " + num(Base) + ": expected " + want + ", got " + show(got, 80));
	BA pre("prefix-42 "); BH::appendNumber<T, Base>(pre, v); if (pre != "prefix-42 " + want) c.fail("number-appended", "expected prefix-42 " + want + ", got " + show(pre, 80)); c.count("numbers");
}
template <typename T> static void numbers(Ctx& c, T v) { number<T, 10>(c, v); number<T, 16>(c, v); number<T, 2>(c, v); number<T, 8>(c, v); number<T, 3>(c, v); number<T, 11>(c, v); }
template <typename T> static T someNumber(Rng& r) { T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); switch (r.below(8)) { case 0: return T(lo + T(r.below(20))); case 1: return T(hi - T(r.below(20))); case 2: return T(r.below(40)) - T(std::numeric_limits<T>::is_signed ? 20 : 0); case 3: { T p = 1; int n = r.below(int(std::log10(double(hi))) + 1); while (n--) p = T(p * 10); return T(p - T(r.below(2))); } case 4: { T p = T(T(1) << r.below(int(sizeof(T)) * 8 - 1)); return T(p - T(r.below(2))); } default: { quint64 u = (quint64(r.next()) << 32) ^ r.next(); return T(u >> r.below(60)); } } }
FAMILY(C33, numbers, 4000, 100000)
{
	for (int i = 0; i < 60; ++i) { numbers<int>(c, someNumber<int>(c.rng)); numbers<unsigned>(c, someNumber<unsigned>(c.rng)); numbers<qint64>(c, someNumber<qint64>(c.rng)); numbers<quint64>(c, someNumber<quint64>(c.rng)); numbers<short>(c, someNumber<short>(c.rng)); numbers<signed char>(c, someNumber<signed char>(c.rng)); numbers<unsigned char>(c, someNumber<unsigned char>(c.rng)); numbers<ushort>(c, someNumber<ushort>(c.rng)); numbers<long>(c, someNumber<long>(c.rng)); }
	if (c.index < 256) { for (int k = 0; k < 256; ++k) { int v = c.index * 256 + k; number<short, 10>(c, short(v)); number<short, 16>(c, short(v)); number<ushort, 10>(c, ushort(v)); number<ushort, 16>(c, ushort(v)); number<int, 10>(c, v - 32768); } number<signed char, 10>(c, (signed char)(c.index)); number<signed char, 16>(c, (signed char)(c.index)); number<unsigned char, 10>(c, (unsigned char)(c.index)); }
	c.note = "case " + num(c.index); if (c.index < 2) c.sample(c.note); c.distinct(c.index);
}
FAMILY(C33, statuses, 1, 1)
{
	static const struct { int code; const char* text; } STD[] = {{100, "Continue"}, {101, "Switching Protocols"}, {200, "OK"}, {201, "Created"}, {202, "Accepted"}, {203, "Non-Authoritative Information"}, {204, "No Content"}, {205, "Reset Content"}, {206, "Partial Content"}, {207, "Multi-Status"}, {208, "Already Reported"}, {226, "IM Used"}, {300, "Multiple Choices"}, {301, "Moved Permanently"}, {302, "Found"}, {303, "See Other"}, {304, "Not Modified"}, {305, "Use Proxy"}, {307, "Temporary Redirect"}, {308, "Permanent Redirect"}, {400, "Bad Request"}, {401, "Unauthorized"}, {402, "Payment Required"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {406, "Not Acceptable"}, {407, "Proxy Authentication Required"}, {408, "Request Timeout"}, {409, "Conflict"}, {410, "Gone"}, {411, "Length Required"}, {412, "Precondition Failed"}, {413, "Request Entity Too Large"}, {414, "Request-URI Too Long"}, {415, "Unsupported Media Type"}, {416, "Requested Range Not Satisfiable"}, {417, "Expectation Failed"}, {421, "Misdirected Request"}, {422, "Unprocessable Entity"}, {423, "Locked"}, {424, "Failed Dependency"}, {425, "Too Early"}, {426, "Upgrade Required"}, {428, "Precondition Required"}, {429, "Too Many Requests"}, {431, "Request Header Fields Too Large"}, {451, "Unavailable For Legal Reasons"}, {500, "Internal Server Error"}, {501, "Not Implemented"}, {502, "Bad Gateway"}, {503, "Service Unavailable"}, {504, "Gateway Timeout"}, {505, "HTTP Version Not Supported"}, {506, "Variant Also Negotiates"}, {507, "Insufficient Storage"}, {508, "Loop Detected"}, {510, "Not Extended"}, {511, "Network Authentication Required"}};
	std::map<int, BA> std_; for (auto& s : STD) std_[s.code] = s.text;
	auto one = [&](int code) { const char* full = Pillow::HttpProtocol::StatusCodes::getStatusCodeAndMessage(code); const char* msg = Pillow::HttpProtocol::StatusCodes::getStatusMessage(code); c.count("codes"); if (!full != !msg) { c.fail("status-disagree", num(code)); return; } if (full && BA(full) != num(code) + " " + BA(msg)) c.fail("status-disagree", num(code) + ": " + BA(full) + " / " + BA(msg)); if (full && !BA(msg).size()) c.fail("status-empty", num(code)); if (std_.count(code)) { c.count("standard_codes"); if (!full) c.fail("status-missing", num(code)); else if (lower(BA(msg)) != lower(std_[code])) c.fail("status-text", num(code) + ": " + BA(msg)); } else if (full && (code < 100 || code > 599)) c.fail("status-out-of-range", num(code)); };
	for (int i = -2000; i <= 70000; ++i) one(i); for (int i = 0; i < 31; ++i) { one(int(1u << i)); one(-int(1u << i)); one(int((1u << i) + 200)); } one(INT_MAX); one(INT_MIN); c.note = "statuses"; c.sample(c.note); c.distinct(1);
}
static BA two(int n) { return BA(n < 10 ? "0" : "") + num(n); }
static BA httpDate(qint64 ms)
{
	static const char* dn[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	qint64 s = ms >= 0 ? ms / 1000 : -((-ms + 999) / 1000); qint64 d = s >= 0 ? s / 86400 : -((-s + 86399) / 86400); int t = int(s - d * 86400); int wd = int(((d + 4) % 7 + 7) % 7);
	qint64 z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = unsigned(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; qint64 y = qint64(yoe) + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, day = doy - (153 * mp + 2) / 5 + 1, mon = mp < 10 ? mp + 3 : mp - 9; if (mon <= 2) ++y; // civil from days
	return BA(dn[wd]) + ", " + two(int(day)) + " " + mn[mon - 1] + " " + num(int(y)) + " " + two(t / 3600) + ":" + two(t / 60 % 60) + ":" + two(t % 60) + " GMT";
}
FAMILY(C33, dates, 3000, 100000)
{
	static const char* zones[] = {"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "America/St_Johns", "Europe/London", "Australia/Lord_Howe", "Pacific/Apia"}; static QList<QTimeZone> tz; if (tz.isEmpty()) for (const char* z : zones) tz << QTimeZone(z);
	for (int i = 0; i < 40; ++i)
	{
		qint64 lo = -30610224000000LL + 86400000LL * 2, hi = 253402300799999LL - 86400000LL * 2, ms; // years 1000 to 9999
		switch (c.rng.below(6)) { case 0: ms = qint64(c.rng.next()) * 1000 + c.rng.below(1000); break; case 1: { QDate d(c.rng.range(1001, 9998), c.rng.range(1, 12), 1); ms = QDateTime(d, QTime(0, 0), Qt::UTC).toMSecsSinceEpoch() + c.rng.range(-2, 2) * 500; break; } case 2: { int y = c.rng.range(1001, 9998); QDate d = QDate(y, 2, 28).addDays(c.rng.range(0, 2)); ms = QDateTime(d, QTime(c.rng.below(24), c.rng.below(60), c.rng.below(60), c.rng.below(1000)), Qt::UTC).toMSecsSinceEpoch(); break; } case 3: { QDate d(c.rng.range(1001, 9998), c.rng.chance(50) ? 12 : 1, c.rng.chance(50) ? 31 : 1); ms = QDateTime(d, c.rng.chance(50) ? QTime(23, 59, 59, 999) : QTime(0, 0), Qt::UTC).toMSecsSinceEpoch(); break; } case 4: ms = c.rng.range(-100000, 100000); break; default: ms = lo + qint64((((quint64(c.rng.next()) << 32) | c.rng.next()) >> 1) % quint64(hi - lo)); }
		ms = qBound(lo, ms, hi); QDateTime dt = QDateTime::fromMSecsSinceEpoch(ms, Qt::UTC); int z = c.rng.below(4); if (z == 1) dt = dt.toOffsetFromUtc(c.rng.range(-13 * 60, 14 * 60) * 60); else if (z == 2) dt = dt.toTimeZone(tz[c.rng.below(tz.size())]); else if (z == 3) dt = dt.toLocalTime();
		BA got = Pillow::HttpProtocol::Dates::getHttpDate(dt), want = httpDate(dt.toMSecsSinceEpoch()); if (dt.toMSecsSinceEpoch() != ms) c.count("zone_inexact"); if (got != want) c.fail("date", num(ms) + " ms, zone kind " + num(z) + ": expected " + want + ", got " + show(got, 60)); c.count("dates"); if (i == 0 && c.index < 3) c.sample(want);
	}
	if (c.index == 0) { BA g = Pillow::HttpProtocol::Dates::getHttpDate(QDateTime()); if (!g.isEmpty()) c.fail("date-invalid", show(g, 60)); qint64 a = QDateTime::currentMSecsSinceEpoch(); BA now = Pillow::HttpProtocol::Dates::getHttpDate(); qint64 b = QDateTime::currentMSecsSinceEpoch(); bool ok = false; for (qint64 t = a; t <= b + 1000; t += 1000) ok |= now == httpDate(qMin(t, b)); if (!ok) c.fail("date-now", now); }
	c.distinct(c.index);
}
FAMILY(C33, media, 600, 20000)
{
	static const char* ext[][2] = {{".html", "text/html"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".png", "image/png"}, {".gif", "image/gif"}, {".css", "text/css"}, {".js", "text/javascript"}, {".xml", "text/xml"}};
	for (int i = 0; i < 60; ++i)
	{
		static const char* stems[] = {"", "a", "/x/y/index", "a.b", "photo.jpg", "style.css.bak", "\xc3\xa9", "dir.js/file", ".", "html", "a b", "%2e", "x.html?"}; BA stem = stems[c.rng.below(13)], want = "application/octet-stream", suffix; int k = c.rng.below(8);
		switch (c.rng.below(5)) { case 0: { static const char* other[] = {"", ".", ".htm", ".json", ".jpgx", ".xhtml", ".mjs", ".jp g", ".txt", ".html ", ".html.", ".js/", ".htmlx", "js", "css"}; suffix = other[c.rng.below(15)]; break; } default: suffix = ext[k][0]; want = ext[k][1]; for (int j = 0; j < suffix.size(); ++j) if (isalpha((unsigned char)suffix.at(j)) && c.rng.chance(30)) suffix[j] = char(suffix.at(j) ^ 32); }
		QString n = QString::fromUtf8(stem + suffix); want = "application/octet-stream"; for (auto& e : ext) if (lower(stem + suffix).endsWith(e[0])) want = e[1]; BA got = Pillow::HttpMimeHelper::getMimeTypeForFilename(n); if (got != want) c.fail("media-type", n.toUtf8() + ": expected " + want + ", got " + got); c.count("names"); c.distinct(fnv(stem + suffix)); if (i == 0 && c.index < 3) c.sample(n.toUtf8() + " " + got);
	}
}
FAMILY(C33, percent, 8000, 200000)
{
	int kind = c.rng.below(6); int n = kind == 0 ? c.rng.below(8) : kind == 1 ? c.rng.range(1015, 1035) : kind == 2 ? c.rng.range(1, 3000) : c.rng.below(60); BA in;
	while (in.size() < n) switch (c.rng.below(6)) { case 0: { char t[8]; snprintf(t, 8, c.rng.chance(50) ? "%%%02x" : "%%%02X", c.rng.below(256)); in += t; break; } case 1: in += '%'; break; case 2: in += "%2"; break; case 3: { in += '%'; in += char(c.rng.below(256)); in += char(c.rng.below(256)); break; } case 4: in += char(c.rng.below(256)); break; default: in += "0aFfgG9z@`/:"[c.rng.below(12)]; } in.truncate(n); if (c.rng.chance(30) && n >= 2) { int at = in.size() - c.rng.range(1, 3); if (at >= 0) in[at] = '%'; }
	auto hex = [](char x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; }; BA want; for (int i = 0; i < in.size();) { if (in.at(i) == '%' && i + 2 < in.size() && hex(in.at(i + 1)) >= 0 && hex(in.at(i + 2)) >= 0) { want += char(hex(in.at(i + 1)) * 16 + hex(in.at(i + 2))); i += 3; } else want += in.at(i++); }
	char* exact = static_cast<char*>(::malloc(n ? n : 1)); memcpy(exact, in.constData(), n); int got = BH::percentDecodeInPlace(exact, n); if (got != want.size() || memcmp(exact, want.constData(), want.size())) c.fail("percent-in-place", show(in, 100) + ": " + diffText(want, BA(exact, qBound(0, got, n)))); memcpy(exact, in.constData(), n);
	QString ws = want.isEmpty() ? QString() : QString::fromUtf8(want.constData(), want.size()); QString a = BH::percentDecode(exact, n); if (a != ws) c.fail("percent-decode", show(in, 100) + ": " + diffText(ws.toUtf8(), a.toUtf8())); if (memcmp(exact, in.constData(), n)) c.fail("percent-input-changed", "the input buffer was changed"); BA raw = BA::fromRawData(exact, n), shared = in; QString b = BH::percentDecode(raw), d = BH::percentDecode(in); if (b != ws || d != ws) c.fail("percent-decode", "QByteArray overload: " + show(in, 100)); if (memcmp(exact, in.constData(), n) || shared != in) c.fail("percent-input-changed", "the input was changed"); ::free(exact);
	c.count("decoded_bytes", n); c.note = num(n) + " bytes"; if (c.index < 3) c.sample(show(in, 60)); c.distinct(fnv(in));
}
