// Runs operation scripts against the library inside the virtual world and records,
// for each script, the events observable at its boundary. One process per script.
#include "json.h"
#include "world.h"

#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <netinet/in.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "ConnectionManager.h"
#include "DiscoveryManager.h"
#include "FileObject.h"
#include "IdentityObject.h"
#include "MessageRouter.h"
#include "ParameterObject.h"
#include "SessionInfo.h"
#include "cip/EPath.h"
#include "cip/MessageRouterRequest.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItemFactory.h"
#include "eip/EncapsPacket.h"
#include "eip/EncapsPacketFactory.h"
#include "fileObject/FileObjectState.h"
#include "sockets/TCPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "utils/Buffer.h"
#include "utils/Logger.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"
#include "vendor/ra/powerFlex525/DPIFaultObject.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.h"

using namespace eipScanner;
using vj::Value;
using Bytes = std::vector<uint8_t>;
namespace dpi = eipScanner::vendor::ra::powerFlex525;

extern "C" ssize_t __real_write(int, const void*, size_t);
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" int __real_close(int);
extern "C" int __real_poll(struct pollfd*, nfds_t, int);

// ------------------------------------------------------------------ event log
static int gOut = -1;
static void rawOut(const std::string& s) {
	size_t n = 0;
	while (n < s.size()) {
		ssize_t k = __real_write(gOut, s.data() + n, s.size() - n);
		if (k <= 0) _exit(7);
		n += k;
	}
}
namespace world {
void emit(const Value& ev) { rawOut(ev.dump() + "\n"); }
void die(const std::string& why) {
	Value v = Value::object();
	v.set("e", "crash"); v.set("why", why);
	emit(v);
	_exit(0);
}
}

// ------------------------------------------------------------------ helpers
static Bytes le32(uint32_t v) { return {(uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24)}; }
static uint32_t rd32(const Bytes& b) {
	uint32_t v = 0;
	for (size_t i = 0; i < b.size() && i < 4; ++i) v |= (uint32_t)b[i] << (8 * i);
	return v;
}
static uint64_t rd64(const Bytes& b) {
	uint64_t v = 0;
	for (size_t i = 0; i < b.size() && i < 8; ++i) v |= (uint64_t)b[i] << (8 * i);
	return v;
}
template <typename T> static Bytes raw(T v) {
	Bytes b(sizeof(T));
	memcpy(b.data(), &v, sizeof(T));
	return b;
}
template <typename T> static T unraw(const Bytes& in) {
	Bytes b = in; b.resize(sizeof(T));
	T v; memcpy(&v, b.data(), sizeof(T));
	return v;
}
static Value B(const Bytes& b) { return Value::bytes(b); }
// texts of the library: characters outside of ASCII (the specification writes ?)
static std::string ascii(const std::string& s) {
	std::string o;
	for (unsigned char c : s) if (c < 0x80) o += c; else if (c >= 0xc0) o += '?';
	return o;
}
static Bytes S(const std::string& s) { return Bytes(s.begin(), s.end()); }

// An appender may call whatever it likes, so it leaves some other value in errno
struct NullAppender : utils::LogAppenderIf {
	void print(utils::LogLevel, const std::string&) override { errno = EIO; }
};
struct TraceAppender : utils::LogAppenderIf {
	int id; explicit TraceAppender(int i) : id(i) {}
	void print(utils::LogLevel l, const std::string& m) override {
		Value v = Value::object();
		v.set("e", "cb"); v.set("k", "log"); v.set("ap", id); v.set("lvl", (int)l); v.set("b", B(S(m)));
		world::emit(v);
		errno = EIO;
	}
};

// ------------------------------------------------------------------ state of a script
struct Listener { std::vector<Value> programs; std::vector<Value> sets; size_t calls = 0; };
static std::map<int, std::shared_ptr<SessionInfo>> sess;
static std::unique_ptr<ConnectionManager> mgr;
static std::map<int, IOConnection::WPtr> conns;
static std::map<int, IOConnection::SPtr> held;
static std::map<std::pair<int, std::string>, Listener> listeners;
static std::map<int, std::unique_ptr<FileObject>> files;
static std::map<int, std::unique_ptr<ParameterObject>> params;
static std::map<int, std::unique_ptr<DiscoveryManager>> discs;
static std::map<int, std::unique_ptr<dpi::DPIFaultManager>> dpis;
static std::map<int, std::unique_ptr<sockets::BaseSocket>> plain;
static int depth = 0;

static void runOp(const Value& op);

static void runListener(int c, const std::string& k, Bytes* out = nullptr) {
	auto& l = listeners[{c, k}];
	size_t n = l.calls++;
	if (n < l.sets.size() && out && l.sets[n].kind == Value::Arr) *out = l.sets[n].asBytes();
	if (n < l.programs.size()) {
		auto prog = l.programs[n];
		for (auto& op : prog.a) runOp(op);
	}
}
static void listenerEnd(int c, const std::string& k, const Bytes& b) {
	Value v = Value::object();
	v.set("e", "cbend"); v.set("c", c); v.set("k", k); v.set("b", B(b));
	world::emit(v);
}
// A listener: of connection c, the g-th of its kind. What it has captured lies on the heap, and is used
// after what it does: it has to live as long as it runs, also if it is replaced meanwhile. It counts its
// calls: it has to be the same object each time.
static std::vector<int> ownerCalls;
struct Owner {
	int c, g;
	std::string kind;
	char pad[64];
	int n, key;
	Owner(int c, int g, const std::string& kind) : c(c), g(g), kind(kind), pad{}, n(0), key((int)ownerCalls.size()) { ownerCalls.push_back(0); }
	void begin(Value& v) {
		bool same = ++n == ++ownerCalls[key];
		v.set("e", "cb"); v.set("k", kind); v.set("c", c); v.set("g", same ? g : -1);
	}
};
static void install(int c, const IOConnection::SPtr& io, const std::string& k, int g) {
	Owner o(c, g, k);
	if (k == "recv") {
		if (!g) return io->setReceiveDataListener([](auto, auto, auto) {});
		io->setReceiveDataListener([o](uint32_t hdr, uint16_t seq, const Bytes& d) mutable {
			Value v = Value::object();
			o.begin(v); v.set("hdr", B(le32(hdr))); v.set("seq", (int)seq);
			v.set("b", B(d)); v.set("t", (int64_t)world::nowUnits());
			world::emit(v);
			runListener(o.c, o.kind);
			listenerEnd(o.c, o.kind, Bytes());
		});
	} else if (k == "send") {
		if (!g) return io->setSendDataListener([](auto) {});
		io->setSendDataListener([o](Bytes& d) mutable {
			Value v = Value::object();
			o.begin(v); v.set("b", B(d)); v.set("t", (int64_t)world::nowUnits());
			world::emit(v);
			runListener(o.c, o.kind, &d);
			listenerEnd(o.c, o.kind, d);
		});
	} else {
		if (!g) return io->setCloseListener([]() {});
		io->setCloseListener([o]() mutable {
			Value v = Value::object();
			o.begin(v); v.set("t", (int64_t)world::nowUnits());
			world::emit(v);
			runListener(o.c, o.kind);
			listenerEnd(o.c, o.kind, Bytes());
		});
	}
}

static cip::EPath mkPath(const std::vector<Value>& p) {
	switch (p.size()) {
		case 0: return cip::EPath();
		case 1: return cip::EPath((uint16_t)p[0].i);
		case 2: return cip::EPath((uint16_t)p[0].i, (uint16_t)p[1].i);
		default: return cip::EPath((uint16_t)p[0].i, (uint16_t)p[1].i, (uint16_t)p[2].i);
	}
}
static cip::Yaskawa_EPath mkYPath(const std::vector<Value>& p) {
	switch (p.size()) {
		case 0: return cip::Yaskawa_EPath();
		case 1: return cip::Yaskawa_EPath((uint8_t)p[0].i);
		case 2: return cip::Yaskawa_EPath((uint8_t)p[0].i, (uint8_t)p[1].i);
		default: return cip::Yaskawa_EPath((uint8_t)p[0].i, (uint8_t)p[1].i, (uint8_t)p[2].i);
	}
}
static Value itemsOut(const eip::CommonPacketItem::Vec& its) {
	Value a = Value::array();
	for (auto& it : its) {
		Value o = Value::object();
		o.set("t", (int)it.getTypeId()); o.set("n", (int)it.getLength()); o.set("d", B(it.getData()));
		a.a.push_back(o);
	}
	return a;
}
static void respOut(Value& r, const cip::MessageRouterResponse& resp) {
	r.set("svc", (int)resp.getServiceCode());
	r.set("st", (int)resp.getGeneralStatusCode());
	Value a = Value::array();
	for (auto x : resp.getAdditionalStatus()) a.a.emplace_back((int)x);
	r.set("add", a);
	r.set("data", B(resp.getData()));
	r.set("items", itemsOut(resp.getAdditionalPacketItems()));
}
static cip::connectionManager::ConnectionParameters mkParams(const Value& p) {
	cip::connectionManager::ConnectionParameters r;
	r.priorityTimeTick = (uint8_t)p.num("prio");
	r.timeoutTicks = (uint8_t)p.num("ticks");
	r.o2tNetworkConnectionId = rd32(p.bytesOf("o2tId"));
	r.t2oNetworkConnectionId = rd32(p.bytesOf("t2oId"));
	r.connectionSerialNumber = (uint16_t)p.num("serial");
	r.originatorVendorId = (uint16_t)p.num("vendor");
	r.originatorSerialNumber = rd32(p.bytesOf("oserial"));
	r.connectionTimeoutMultiplier = (uint8_t)p.num("mult");
	r.o2tRPI = rd32(p.bytesOf("o2tRPI"));
	r.o2tNetworkConnectionParams = rd32(p.bytesOf("o2tP"));
	r.t2oRPI = rd32(p.bytesOf("t2oRPI"));
	r.t2oNetworkConnectionParams = rd32(p.bytesOf("t2oP"));
	r.transportTypeTrigger = (uint8_t)p.num("trig");
	r.o2tRealTimeFormat = (uint8_t)p.num("o2tRT");
	r.t2oRealTimeFormat = (uint8_t)p.num("t2oRT");
	r.connectionPath = p.bytesOf("path");
	return r;
}
static ConnectionManager& theMgr(const std::string& kind = "") {
	if (!mgr) {
		if (kind == "8") mgr.reset(new ConnectionManager(std::make_shared<MessageRouter>(MessageRouter::USE_8_BIT_PATH_SEGMENTS)));
		else mgr.reset(new ConnectionManager());
	}
	return *mgr;
}

// ---- parameter values
template <typename T> static void pvals(Value& r, const ParameterObject& p, bool full) {
	r.set("val", B(raw<T>(p.getActualValue<T>())));
	if (full) {
		r.set("min", B(raw<T>(p.getMinValue<T>())));
		r.set("max", B(raw<T>(p.getMaxValue<T>())));
		r.set("def", B(raw<T>(p.getDefaultValue<T>())));
	}
}
static int64_t toMilli(double d) {
	double x = d * 1000.0;
	if (!(x > -2e9 && x < 2e9)) return -2000000001;
	return llround(x);
}
// a floating point number as fifteen decimal digits, to the base 1000
static Value num(double d) {
	Value o = Value::object();
	if (!std::isfinite(d)) { o.set("nan", true); return o; }
	char t[64];
	snprintf(t, sizeof t, "%.14e", std::fabs(d));
	char* e = strchr(t, 'e');
	int64_t m = 0;
	for (char* c = t; c < e; ++c) if (*c != '.') m = 10 * m + (*c - '0');
	int x = atoi(e + 1) - 14;
	if (!m) x = 0;
	Value l = Value::array();
	for (; m; m /= 1000) l.a.emplace_back((int)(m % 1000));
	o.set("neg", std::signbit(d) && l.a.size()); o.set("m", l); o.set("x", x);
	return o;
}
template <typename T> static void peng(Value& r, const ParameterObject& p, bool full) {
	r.set("eval", num(p.getEngValue<T>()));
	if (full) {
		r.set("emin", num(p.getEngMinValue<T>()));
		r.set("emax", num(p.getEngMaxValue<T>()));
		r.set("edef", num(p.getEngDefaultValue<T>()));
	}
}
template <typename F> static void byType(const std::string& t, F f) {
	if (t == "u8") f((uint8_t)0);
	else if (t == "i8") f((int8_t)0);
	else if (t == "u16") f((uint16_t)0);
	else if (t == "i16") f((int16_t)0);
	else if (t == "u32") f((uint32_t)0);
	else if (t == "i32") f((int32_t)0);
	else if (t == "u64") f((uint64_t)0);
	else if (t == "i64") f((int64_t)0);
	else if (t == "f32") f((float)0);
	else if (t == "f64") f((double)0);
}
static void paramOut(Value& r, ParameterObject& p, const std::string& ty) {
	bool full = p.hasFullAttributes();
	r.set("full", full);
	r.set("scal", p.isScalable());
	r.set("ro", p.isReadOnly());
	r.set("type", (int)p.getType());
	r.set("inst", (int)p.getInstanceId());
	r.set("cls", (int)p.getClassId());
	r.set("prm", (int)p.getParameter());
	r.set("name", B(S(p.getName())));
	r.set("units", B(S(p.getUnits())));
	r.set("help", B(S(p.getHelp())));
	r.set("mul", (int)p.getScalingMultiplier());
	r.set("div", (int)p.getScalingDivisor());
	r.set("base", (int)p.getScalingBase());
	r.set("off", (int)p.getScalingOffset());
	r.set("prec", (int)p.getPrecision());
	byType(ty, [&](auto z) { pvals<decltype(z)>(r, p, full); });
}

static void identOut(Value& r, const IdentityObject& o) {
	r.set("vendor", (int)o.getVendorId());
	r.set("dtype", (int)o.getDeviceType());
	r.set("pcode", (int)o.getProductCode());
	r.set("maj", (int)o.getRevision().getMajorRevision());
	r.set("min", (int)o.getRevision().getMinorRevision());
	r.set("status", (int)o.getStatus());
	r.set("serial", B(le32(o.getSerialNumber())));
	r.set("name", B(S(o.getProductName())));
}

static Value epOut(const sockets::EndPoint& e) {
	// host, address, port, port of the address
	auto sa = e.getAddr();
	Value o = Value::object();
	o.set("host", e.getHost()); o.set("port", e.getPort());
	o.set("ip", Value::bytes(raw(sa.sin_addr.s_addr))); o.set("aport", (int)ntohs(sa.sin_port)); o.set("inet", sa.sin_family == AF_INET);
	return o;
}
template <typename T> static Bytes utilsPack(const T& v) { utils::Buffer b; b << v; return b.data(); }
// an object constructed by default in memory full of ones
template <typename T> struct Dirty {
	alignas(T) unsigned char m[sizeof(T)];
	T* p;
	Dirty() { memset(m, 0xff, sizeof m); p = new (m) T; }
	~Dirty() { p->~T(); }
	T* operator->() { return p; }
	T& operator*() { return *p; }
};
static void equality(const Value& a, Value& r) {
	auto k = a.str("k");
	auto both = [&](auto x, auto y) { r.set("eq", x == y); r.set("rev", y == x); r.set("self", x == x && y == y); return std::make_pair(x, y); };
	auto two = [&](auto mk) { return both(mk(a.at("x")), mk(a.at("y"))); };
	auto ne = [&](auto p) { r.set("ne", p.first != p.second); };
	if (k == "item") ne(two([](const Value& v) { return eip::CommonPacketItem((eip::CommonPacketItemIds)v.num("t"), v.bytesOf("d")); }));
	else if (k == "rev") two([](const Value& v) { return cip::CipRevision((uint8_t)v.num("maj"), (uint8_t)v.num("min")); });
	else if (k == "ep") ne(two([](const Value& v) { return sockets::EndPoint(v.str("host"), (int)v.num("port")); }));
	else if (k == "path") two([](const Value& v) { return mkPath(v.at("p").a); });
	else if (k == "ypath") two([](const Value& v) { return mkYPath(v.at("p").a); });
	else ne(two([](const Value& v) {
		eip::EncapsPacket p;
		if (v.has("ctx")) p.expand(v.bytesOf("ctx"));
		p.setCommand((eip::EncapsCommands)v.num("cmd")); p.setSessionHandle(rd32(v.bytesOf("h")));
		p.setStatusCode((eip::EncapsStatusCodes)rd32(v.bytesOf("st"))); p.setData(v.bytesOf("data"));
		return p;
	}));
}
static void faultListener(dpi::DPIFaultManager& m, int id, int g) {
	Owner o(id, g, "fault");
	m.setNewFaultListener([o](const dpi::DPIFaultParameter& f) mutable {
		auto& d = f.getFaultDetails();
		Value v = Value::object();
		o.begin(v); v.set("num", d.faultNumber); v.set("code", (int)d.faultCode);
		v.set("volt", toMilli(d.busVoltage)); v.set("cur", toMilli(d.current)); v.set("freq", toMilli(d.frequency));
		v.set("ty", f.getFullInformation().faultDescription.faultType);
		v.set("text", ascii(f.getFullInformation().faultDescription.faultText));
		v.set("desc", ascii(f.getFullInformation().faultDescription.faultDescription));
		world::emit(v);
		runListener(o.c, o.kind);
		listenerEnd(o.c, o.kind, {});
	});
}

// ---- typed buffer accesses
static void bufWrite(utils::Buffer& b, const std::string& t, const Value& v) {
	if (t == "bytes") b << v.asBytes();
	else if (t == "u16v") {
		std::vector<uint16_t> w;
		for (auto& x : v.a) w.push_back((uint16_t)x.i);
		b << w;
	}
	else if (t == "rev") { auto x = v.asBytes(); b << cip::CipRevision(x.at(0), x.at(1)); }
	else if (t == "ss") b << cip::CipShortString([&] { auto x = v.asBytes(); return std::string(x.begin(), x.end()); }());
	else if (t == "cs") b << cip::CipString([&] { auto x = v.asBytes(); return std::string(x.begin(), x.end()); }());
	else if (t == "ep") {
		// [a,b,c,d,port]
		std::string h = std::to_string(v.a[0].i) + "." + std::to_string(v.a[1].i) + "." + std::to_string(v.a[2].i) + "." + std::to_string(v.a[3].i);
		b << sockets::EndPoint(h, (int)v.a[4].i);
	}
	else byType(t, [&](auto z) { b << unraw<decltype(z)>(v.asBytes()); });
}
static Value bufRead(utils::Buffer& b, const std::string& t, int n) {
	if (t == "bytes") { Bytes x(n); b >> x; return B(x); }
	if (t == "u16v") {
		std::vector<uint16_t> w(n); b >> w;
		Value a = Value::array();
		for (auto x : w) a.a.emplace_back((int)x);
		return a;
	}
	if (t == "rev") { cip::CipRevision r; b >> r; return B({r.getMajorRevision(), r.getMinorRevision()}); }
	if (t == "ss") { cip::CipShortString s; b >> s; Bytes x = s.getData(); return B(x); }
	if (t == "cs") { cip::CipString s; b >> s; return B(s.getData()); }
	if (t == "ep") {
		sockets::EndPoint e("0.0.0.0", 0); b >> e;
		uint32_t a = e.getAddr().sin_addr.s_addr;
		Value r = B(raw(a));
		int q[4];
		if (sscanf(e.getHost().c_str(), "%d.%d.%d.%d", q, q + 1, q + 2, q + 3) != 4) q[0] = q[1] = q[2] = q[3] = -1;
		for (int x : q) r.a.emplace_back(x);
		r.a.emplace_back(e.getPort());
		return r;
	}
	Value r;
	byType(t, [&](auto z) { decltype(z) v; b >> v; r = B(raw(v)); });
	return r;
}
static eip::CommonPacketItem mkItem(const Value& o) {
	return eip::CommonPacketItem((eip::CommonPacketItemIds)o.num("t"), o.bytesOf("d"));
}

// Many handling passes; the datagrams sent are reported as runs: in a run all bytes are the same
// but for the 32-bit word at 10, which grows by ds, and the 16-bit word at 18, which grows by dc.
static void pump(const Value& a, Value& r) {
	struct Run { Bytes b, ip; int port; int64_t n, ds, dc, gap, lo, hi; };
	std::vector<Run> runs;
	Bytes last;
	int64_t lastT = world::nowUnits(), sent = 0;
	auto w32 = [](const Bytes& b) { return (uint32_t)(b[10] | b[11] << 8 | b[12] << 16 | (uint32_t)b[13] << 24); };
	auto w16 = [](const Bytes& b) { return b.size() < 20 ? 0 : b[18] | b[19] << 8; };
	auto rest = [](Bytes b) { for (size_t i : {10, 11, 12, 13, 18, 19}) if (i < b.size()) b[i] = 0; return b; };
	world::sink = [&](const uint8_t* ip4, int port, const Bytes& b) {
		int64_t t = world::nowUnits(), dt = t - lastT;
		Bytes ip(ip4, ip4 + 4);
		++sent;
		bool join = false;
		if (!runs.empty() && b.size() >= 14 && b.size() == last.size() && ip == runs.back().ip && port == runs.back().port && rest(b) == rest(last)) {
			auto& x = runs.back();
			int64_t ds = (uint32_t)(w32(b) - w32(last)), dc = (uint16_t)(w16(b) - w16(last));
			if (ds < 1000 && (x.n == 1 || (ds == x.ds && dc == x.dc))) {
				join = true;
				x.ds = ds; x.dc = dc; x.lo = x.n == 1 ? dt : std::min(x.lo, dt); x.hi = x.n == 1 ? dt : std::max(x.hi, dt);
				++x.n;
			}
		}
		if (!join && runs.size() < 50) runs.push_back({b, ip, port, 1, 0, 0, dt, 0, 0});
		last = b; lastT = t;
	};
	struct Off { ~Off() { world::sink = nullptr; } } off;
	for (int64_t i = 0; i < a.num("n"); ++i) theMgr().handleConnections(std::chrono::milliseconds(a.num("to")));
	Value l = Value::array();
	for (auto& x : runs) {
		Value o = Value::object();
		o.set("b", B(x.b)); o.set("ip", B(x.ip)); o.set("port", x.port); o.set("n", x.n); o.set("ds", x.ds); o.set("dc", x.dc);
		o.set("gap", x.gap); o.set("lo", x.lo); o.set("hi", x.hi);
		l.a.push_back(o);
	}
	r.set("runs", l);
	r.set("sent", sent);
}

// ------------------------------------------------------------------ the operations
static void doOp(const std::string& k, const Value& a, Value& r) {
	if (k == "sess") {
		sess[(int)a.num("s")].reset();
		auto p = a.has("to")
			? std::make_shared<SessionInfo>(a.str("host"), (int)a.num("port"), std::chrono::milliseconds(a.num("to")))
			: std::make_shared<SessionInfo>(a.str("host"), (int)a.num("port"));
		sess[(int)a.num("s")] = p;
		r.set("h", B(le32(p->getSessionHandle())));
		r.set("port", p->getRemoteEndPoint().getPort());
		r.set("host", p->getRemoteEndPoint().getHost());
	} else if (k == "unsess") {
		sess[(int)a.num("s")].reset();
	} else if (k == "mr") {
		auto si = sess[(int)a.num("s")];
		std::string kind = a.str("r", "std");
		auto& path = a.at("path").a;
		auto data = a.bytesOf("data");
		eip::CommonPacketItem::Vec items;
		for (auto& it : a.at("items").a) items.push_back(mkItem(it));
		int form = (int)a.num("form", 5);
		cip::MessageRouterResponse resp;
		uint8_t svc = (uint8_t)a.num("svc");
		if (kind == "yas") {
			Yaskawa_MessageRouter m;
			resp = form == 3 ? m.sendRequest(si, svc, mkYPath(path)) : form == 4 ? m.sendRequest(si, svc, mkYPath(path), data)
				: m.sendRequest(si, svc, mkYPath(path), data, items);
		} else {
			MessageRouter m(kind == "8");
			resp = form == 3 ? m.sendRequest(si, svc, mkPath(path)) : form == 4 ? m.sendRequest(si, svc, mkPath(path), data)
				: m.sendRequest(si, svc, mkPath(path), data, items);
		}
		respOut(r, resp);
		if (a.num("log")) cip::logGeneralAndAdditionalStatus(resp);
	} else if (k == "raw") {
		eip::EncapsPacket p;
		p.setCommand((eip::EncapsCommands)a.num("cmd"));
		p.setSessionHandle(rd32(a.bytesOf("h")));
		p.setStatusCode((eip::EncapsStatusCodes)rd32(a.bytesOf("st")));
		p.setData(a.bytesOf("data"));
		auto q = sess[(int)a.num("s")]->sendAndReceive(p);
		r.set("b", B(q.pack()));
		r.set("cmd", (int)q.getCommand());
		r.set("n", (int)q.getLength());
		r.set("h", B(le32(q.getSessionHandle())));
		r.set("st", B(le32((uint32_t)q.getStatusCode())));
		r.set("data", B(q.getData()));
	} else if (k == "mgr") {
		mgr.reset(); theMgr(a.str("r"));
	} else if (k == "delmgr") {
		mgr.reset();
	} else if (k == "open") {
		auto si = sess[(int)a.num("s")];
		int c = (int)a.num("c");
		auto p = mkParams(a.at("p"));
		bool large = a.num("large");
		IOConnection::WPtr w = large && a.str("via") != "flag" ? theMgr().largeForwardOpen(si, p)
			: large ? theMgr().forwardOpen(si, p, true) : theMgr().forwardOpen(si, p);
		conns[c] = w;
		if (auto io = w.lock()) {
			if (a.has("lis")) for (auto& l : a.at("lis").a) install(c, io, l.s, 1);
			else if (!a.num("nolisten")) for (auto l : {"recv", "send", "close"}) install(c, io, l, 1);
			r.set("got", true);
		} else r.set("got", false);
	} else if (k == "close") {
		theMgr().forwardClose(sess[(int)a.num("s")], conns[(int)a.num("c")]);
	} else if (k == "setdata") {
		if (auto io = conns[(int)a.num("c")].lock()) { io->setDataToSend(a.bytesOf("b")); r.set("got", true); }
		else r.set("got", false);
	} else if (k == "relisten") {
		if (auto io = conns[(int)a.num("c")].lock()) { install((int)a.num("c"), io, a.str("k"), (int)a.num("g")); r.set("got", true); }
		else r.set("got", false);
	} else if (k == "handle") {
		theMgr().handleConnections(std::chrono::milliseconds(a.num("to")));
	} else if (k == "pump") {
		pump(a, r);
	} else if (k == "hasopen") {
		r.set("v", theMgr().hasOpenConnections());
	} else if (k == "hold") {
		held[(int)a.num("c")] = conns[(int)a.num("c")].lock();
		r.set("got", (bool)held[(int)a.num("c")]);
	} else if (k == "drop") {
		held.erase((int)a.num("c"));
	} else if (k == "on") {
		auto& l = listeners[{(int)a.num("c"), a.str("k")}];
		l.calls = 0; l.programs = a.at("do").a; l.sets = a.at("set").a;
	} else if (k == "adv") {
		world::advanceUnits(a.num("u"));
	} else if (k == "dg") {
		// datagrams were queued by runOp
	} else if (k == "burn") {
		// n forward opens refused by the peer: consumes serial numbers and connection ids
		auto si = sess[(int)a.num("s")];
		auto p = mkParams(a.at("p"));
		for (int i = 0; i < a.num("n"); ++i) theMgr().forwardOpen(si, p, a.num("large"));
	} else if (k == "file") {
		int f = (int)a.num("f");
		files[f].reset();
		files[f].reset(new FileObject((uint16_t)a.num("inst"), sess[(int)a.num("s")]));
		r.set("state", (int)files[f]->getState()->getStateCode());
	} else if (k == "begin") {
		int f = (int)a.num("f");
		files.at(f)->beginUpload(sess[(int)a.num("s")], [f](cip::GeneralStatusCodes st, const Bytes& content) {
			Value v = Value::object();
			v.set("e", "cb"); v.set("k", "file"); v.set("f", f); v.set("st", (int)st); v.set("b", B(content));
			world::emit(v);
			runListener(f, "file");
			listenerEnd(f, "file", content);
		});
		r.set("state", (int)files[f]->getState()->getStateCode());
	} else if (k == "xfer") {
		int f = (int)a.num("f");
		bool more = files.at(f)->handleTransfers(sess[(int)a.num("s")]);
		r.set("more", more);
		r.set("state", (int)files[f]->getState()->getStateCode());
	} else if (k == "fsync") {
		int f = (int)a.num("f");
		try {
			files.at(f)->getState()->SyncState(sess[(int)a.num("s")]);
		} catch (...) {
			r.set("state", (int)files[f]->getState()->getStateCode());   // the state after the failure
			throw;
		}
		r.set("state", (int)files[f]->getState()->getStateCode());
	} else if (k == "param") {
		int p = (int)a.num("p");
		params[p].reset();
		params[p].reset(new ParameterObject((uint16_t)a.num("inst"), (bool)a.num("full"), sess[(int)a.num("s")]));
		paramOut(r, *params[p], a.str("ty"));
	} else if (k == "update") {
		int p = (int)a.num("p");
		try {
			params.at(p)->updateValue(sess[(int)a.num("s")]);
			paramOut(r, *params[p], a.str("ty"));
		} catch (...) {
			paramOut(r, *params[p], a.str("ty"));   // the object after the failed update
			throw;
		}
	} else if (k == "pget") {
		paramOut(r, *params.at((int)a.num("p")), a.str("ty"));
	} else if (k == "scale") {
		// scaling of an object built without a device
		ParameterObject p((uint16_t)1, true, (size_t)a.num("size"));
		p.setScalable(a.num("scal"));
		p.setScalingMultiplier((uint16_t)a.num("mul"));
		p.setScalingDivisor((uint16_t)a.num("div"));
		p.setScalingBase((uint16_t)a.num("base"));
		p.setScalingOffset((int16_t)a.num("off"));
		p.setPrecision((uint8_t)a.num("prec"));
		auto v = [&](const char* n) { return (double)(int64_t)rd64(a.bytesOf(n)); };
		r.set("eng", num(p.actualToEngValue(v("v"))));
		r.set("back", num(p.engToActualValue(p.actualToEngValue(v("v")))));
		if (!a.num("noset")) byType(a.str("ty"), [&](auto z) {
			using T = decltype(z);
			p.setEngMinValue<T>(p.actualToEngValue(v("v")));
			p.setEngMaxValue<T>(p.actualToEngValue(v("v2")));
			p.setEngDefaultValue<T>(p.actualToEngValue(v("v3")));
			r.set("min", num((double)p.getMinValue<T>()));
			r.set("max", num((double)p.getMaxValue<T>()));
			r.set("def", num((double)p.getDefaultValue<T>()));
			peng<T>(r, p, true);
		});
	} else if (k == "peng") {
		auto& p = *params.at((int)a.num("p"));
		byType(a.str("ty"), [&](auto z) { peng<decltype(z)>(r, p, p.hasFullAttributes()); });
	} else if (k == "ident") {
		IdentityObject o((uint16_t)a.num("inst"), sess[(int)a.num("s")]);
		identOut(r, o);
		r.set("inst", (int)o.getInstanceId());
	} else if (k == "dpi") {
		if (a.has("m")) { dpis.at((int)a.num("m"))->handleFaultParameters(sess[(int)a.num("s")]); return; }
		dpi::DPIFaultManager m(a.num("clear"), false, a.num("details"));
		faultListener(m, 0, 1);
		m.handleFaultParameters(sess[(int)a.num("s")]);
	} else if (k == "dpinew") {
		// kept between the calls; without flags: as constructed by default
		auto& m = dpis[(int)a.num("m")];
		m.reset(a.has("clear") ? new dpi::DPIFaultManager(a.num("clear"), a.num("reset"), a.num("details")) : new dpi::DPIFaultManager());
		m->setTrippedDeviceListener([](bool) {});
		faultListener(*m, (int)a.num("m"), 1);
	} else if (k == "dpilisten") {
		faultListener(*dpis.at((int)a.num("m")), (int)a.num("m"), (int)a.num("g"));
	} else if (k == "dpicmd") {
		dpi::DPIFaultManager m;
		m.writeCommand((dpi::DPIFaultManagerCommands)a.num("cmd"), sess[(int)a.num("s")]);
	} else if (k == "dpiobj") {
		dpi::DPIFaultObject o((uint16_t)a.num("inst"), sess[(int)a.num("s")]);
		auto& f = o.getFullInformation();
		r.set("code", (int)f.faultCode); r.set("port", (int)f.dsiPort); r.set("dev", (int)f.dsiDeviceObject);
		r.set("text", B(f.faultText.getData())); r.set("timer", B(raw<uint64_t>(f.timerValue)));
		r.set("valid", f.isValidData); r.set("real", f.isRealTime);
	} else if (k == "dpicode") {
		auto d = dpi::DPIFaultCode((int)a.num("code")).getFaultDescription();
		r.set("ty", d.faultType); r.set("text", ascii(d.faultText)); r.set("desc", ascii(d.faultDescription));
	} else if (k == "disc") {
		auto make = [&] { return std::make_unique<DiscoveryManager>(a.str("host"), (int)a.num("port"), std::chrono::milliseconds(a.num("to"))); };
		auto once = a.has("m") ? nullptr : make();
		if (a.has("m") && !discs.count((int)a.num("m"))) discs[(int)a.num("m")] = make();
		auto v = (once ? once : discs[(int)a.num("m")])->discover();
		Value l = Value::array();
		for (auto& x : v) {
			Value o = Value::object();
			identOut(o, x.identityObject);
			Value ip = Value::array();
			int q[4];
			if (sscanf(x.socketAddress.getHost().c_str(), "%d.%d.%d.%d", q, q + 1, q + 2, q + 3) != 4) q[0] = q[1] = q[2] = q[3] = -1;
			for (int z : q) ip.a.emplace_back(z);
			o.set("ip", ip);
			o.set("port", x.socketAddress.getPort());
			l.a.push_back(o);
		}
		r.set("devs", l);
	} else if (k == "buf") {
		utils::Buffer b(a.bytesOf("init"));
		Value l = Value::array();
		for (auto& s : a.at("steps").a) {
			Value o = Value::object();
			if (s.has("w")) { bufWrite(b, s.str("w"), s.at("v")); o.set("v", Value::array()); }
			else o.set("v", bufRead(b, s.str("r"), (int)s.num("n")));
			o.set("pos", (int64_t)b.pos()); o.set("size", (int64_t)b.size());
			o.set("valid", b.isValid()); o.set("empty", b.empty());
			l.a.push_back(o);
		}
		r.set("res", l);
		r.set("b", B(b.data()));
	} else if (k == "epath") {
		auto& p = a.at("path").a;
		if (a.num("yas")) {
			auto e = mkYPath(p);
			r.set("b", B(e.packPaddedPath())); r.set("w", (int)e.getSizeInWords());
			cip::Yaskawa_EPath f; f.expandPaddedPath(e.packPaddedPath());
			r.set("same", e == f);
			r.set("str", e.toString());
		} else {
			auto e = mkPath(p);
			bool eight = a.num("eight");
			auto b = e.packPaddedPath(eight);
			r.set("b", B(b)); r.set("w", (int)e.getSizeInWords(eight));
			cip::EPath f; f.expandPaddedPath(b);
			r.set("same", e == f);
			r.set("str", e.toString());
		}
	} else if (k == "epathx") {
		Value o = Value::array();
		if (a.num("yas")) {
			cip::Yaskawa_EPath e(1, 2, 3); e.expandPaddedPath(a.bytesOf("b"));
			o.a.emplace_back((int)e.getClassId()); o.a.emplace_back((int)e.getObjectId()); o.a.emplace_back((int)e.getAttributeId());
			r.set("w", (int)e.getSizeInWords());
		} else {
			cip::EPath e(1, 2, 3); e.expandPaddedPath(a.bytesOf("b"));
			o.a.emplace_back((int)e.getClassId()); o.a.emplace_back((int)e.getObjectId()); o.a.emplace_back((int)e.getAttributeId());
			r.set("w", (int)e.getSizeInWords(true));
		}
		r.set("ids", o);
	} else if (k == "cpf") {
		eip::CommonPacket p;
		for (auto& it : a.at("items").a) p << mkItem(it);
		r.set("b", B(p.pack()));
		eip::CommonPacket q;
		q << eip::CommonPacketItem();
		q.expand(p.pack());
		r.set("items", itemsOut(q.getItems()));
		r.set("same", q.getItems() == p.getItems());
	} else if (k == "cpfx") {
		eip::CommonPacket p;
		p << eip::CommonPacketItem();
		p.expand(a.bytesOf("b"));
		r.set("items", itemsOut(p.getItems()));
	} else if (k == "factory") {
		eip::CommonPacketItemFactory f;
		r.set("null", B(f.createNullAddressItem().pack()));
		r.set("uncon", B(f.createUnconnectedDataItem(a.bytesOf("data")).pack()));
		r.set("con", B(f.createConnectedDataItem(a.bytesOf("data")).pack()));
		r.set("seq", B(f.createSequenceAddressItem(rd32(a.bytesOf("h")), rd32(a.bytesOf("n"))).pack()));
		eip::EncapsPacketFactory e;
		r.set("reg", B(e.createRegisterSessionPacket().pack()));
		r.set("unreg", B(e.createUnRegisterSessionPacket(rd32(a.bytesOf("h"))).pack()));
		r.set("rr", B(e.createSendRRDataPacket(rd32(a.bytesOf("h")), (uint16_t)a.num("to"), a.bytesOf("data")).pack()));
		r.set("li", B(e.createListIdentityPacket().pack()));
	} else if (k == "enc") {
		eip::EncapsPacket p;
		p.setCommand((eip::EncapsCommands)a.num("cmd"));
		p.setSessionHandle(rd32(a.bytesOf("h")));
		p.setStatusCode((eip::EncapsStatusCodes)rd32(a.bytesOf("st")));
		p.setData(a.bytesOf("data"));
		auto b = p.pack();
		r.set("b", B(b));
		eip::EncapsPacket q; q.setData({1, 2, 3}); q.expand(b);
		r.set("same", p == q);
		r.set("n", (int)eip::EncapsPacket::getLengthFromHeader(b));
	} else if (k == "encx") {
		eip::EncapsPacket q;
		q.setData({9, 9});
		q.expand(a.bytesOf("b"));
		r.set("cmd", (int)q.getCommand()); r.set("n", (int)q.getLength());
		r.set("h", B(le32(q.getSessionHandle()))); r.set("st", B(le32((uint32_t)q.getStatusCode())));
		r.set("data", B(q.getData()));
		r.set("b", B(q.pack()));
	} else if (k == "mrx") {
		cip::MessageRouterResponse m;
		m.expand(a.bytesOf("b"));
		respOut(r, m);
	} else if (k == "fox") {
		cip::connectionManager::ForwardOpenResponse f;
		f.expand(a.bytesOf("b"));
		r.set("o2t", B(le32(f.getO2TNetworkConnectionId()))); r.set("t2o", B(le32(f.getT2ONetworkConnectionId())));
		r.set("serial", (int)f.getConnectionSerialNumber()); r.set("vendor", (int)f.getOriginatorVendorId());
		r.set("oserial", B(le32(f.getOriginatorSerialNumber())));
		r.set("o2tApi", B(le32(f.getO2TApi()))); r.set("t2oApi", B(le32(f.getT2OApi())));
		r.set("n", (int)f.getApplicationReplaySize()); r.set("app", B(f.getApplicationReplay()));
	} else if (k == "ncp") {
		using N = cip::connectionManager::NetworkConnectionParametersBuilder;
		bool l = a.num("large");
		N n(0, l);
		n.setConnectionType((N::ConnectionType)a.num("ct")).setPriority((N::Priority)a.num("prio")).setType((N::Type)a.num("ty"))
			.setConnectionSize((uint16_t)a.num("size"));
		if (a.num("red")) n.setRedundantOwner((N::RedundantOwner)a.num("red"));
		r.set("v", B(le32(n.build())));
		N m(n.build(), l);
		r.set("ct", (int)m.getConnectionType()); r.set("prio", (int)m.getPriority()); r.set("ty", (int)m.getType());
		r.set("size", (int)m.getConnectionSize()); r.set("red", m.getRedundantOwner() != N::EXCLUSIVE);
	} else if (k == "appender") {
		utils::Logger::setAppender(std::make_unique<TraceAppender>((int)a.num("ap")));
	} else if (k == "loglevel") {
		utils::Logger::setLogLevel((utils::LogLevel)a.num("lvl"));
	} else if (k == "log") {
		utils::Logger l((utils::LogLevel)a.num("lvl"));
		for (auto& p : a.at("parts").a) {
			if (p.kind == Value::Int) l << p.i;
			else if (p.kind == Value::Arr) { auto x = p.asBytes(); l << std::string(x.begin(), x.end()); }
			else l << p.s;
		}
		if (a.has("in")) for (auto& op : a.at("in").a) runOp(op);       // nested loggers
	} else if (k == "console") {
		utils::ConsoleAppender c;
		std::ostringstream os;
		auto old = std::cout.rdbuf(os.rdbuf());
		auto x = a.bytesOf("b");
		c.print((utils::LogLevel)a.num("lvl"), std::string(x.begin(), x.end()));
		std::cout.rdbuf(old);
		r.set("b", B(S(os.str())));
	} else if (k == "end") {
		// destroy everything in the documented order: connections before sessions
		held.clear(); files.clear(); params.clear();
		mgr.reset();
		sess.clear();
		discs.clear(); dpis.clear(); plain.clear();
	} else if (k == "snew") {
		auto& p = plain[(int)a.num("k")];
		p.reset();
		auto kind = a.str("kind"), host = a.str("host");
		int port = (int)a.num("port");
		sockets::EndPoint ep(host, port);
		bool form = a.num("form");
		if (kind == "tcp") {
			if (a.has("cto")) p.reset(new sockets::TCPSocket(ep, std::chrono::milliseconds(a.num("cto"))));
			else p.reset(form ? new sockets::TCPSocket(ep) : new sockets::TCPSocket(host, port));
		} else if (kind == "udp") p.reset(form ? new sockets::UDPSocket(ep) : new sockets::UDPSocket(host, port));
		else p.reset(form ? new sockets::UDPBoundSocket(ep) : new sockets::UDPBoundSocket(host, port));
		if (a.has("to")) p->setRecvTimeout(std::chrono::milliseconds(a.num("to")));
		r.set("host", p->getRemoteEndPoint().getHost()); r.set("port", p->getRemoteEndPoint().getPort());
		r.set("rto", (int)p->getRecvTimeout().count());
	} else if (k == "sto") {
		auto& p = plain.at((int)a.num("k"));
		p->setRecvTimeout(std::chrono::milliseconds(a.num("to")));
		r.set("rto", (int)p->getRecvTimeout().count());
	} else if (k == "ssend") {
		plain.at((int)a.num("k"))->Send(a.bytesOf("b"));
	} else if (k == "srecv") {
		auto& p = plain.at((int)a.num("k"));
		if (a.num("from")) {
			sockets::EndPoint e("9.9.9.9", 9);
			r.set("b", B(dynamic_cast<sockets::UDPSocket&>(*p).ReceiveFrom((size_t)a.num("n"), e)));
			r.set("from", epOut(e));
		} else r.set("b", B(p->Receive((size_t)a.num("n"))));
	} else if (k == "sdel") {
		plain[(int)a.num("k")].reset();
	} else if (k == "ep") {
		sockets::EndPoint e(a.str("host"), (int)a.num("port"));
		r.set("e", epOut(e));
		r.set("str", e.toString());
		auto sa = e.getAddr();
		sockets::EndPoint f(sa);
		r.set("f", epOut(f));
		r.set("same", e == f && !(e != f));
	} else if (k == "eq") {
		equality(a, r);
	} else if (k == "plocal") {
		// a parameter built without a device: what it starts with, and what the setters set
		ParameterObject p((uint16_t)a.num("inst"), (bool)a.num("full"), (size_t)a.num("size"));
		Value first = Value::object(), second = Value::object();
		paramOut(first, p, a.str("ty"));
		auto text = [&](const char* n) { auto x = a.bytesOf(n); return std::string(x.begin(), x.end()); };
		p.setScalable(a.num("scal")); p.setReadOnly(a.num("ro")); p.setType((cip::CipDataTypes)a.num("type"));
		p.setName(text("name")); p.setUnits(text("units")); p.setHelp(text("help"));
		p.setScalingMultiplier((uint16_t)a.num("mul")); p.setScalingDivisor((uint16_t)a.num("div"));
		p.setScalingBase((uint16_t)a.num("base")); p.setScalingOffset((int16_t)a.num("off")); p.setPrecision((uint8_t)a.num("prec"));
		paramOut(second, p, a.str("ty"));
		r.set("first", first); r.set("second", second);
	} else if (k == "ilocal") {
		IdentityObject o((uint16_t)a.num("inst"));
		Value first = Value::object(), second = Value::object();
		identOut(first, o);
		o.setVendorId((uint16_t)a.num("vendor")); o.setDeviceType((uint16_t)a.num("dtype")); o.setProductCode((uint16_t)a.num("pcode"));
		o.setRevision(cip::CipRevision((uint8_t)a.num("maj"), (uint8_t)a.num("min"))); o.setStatus((uint16_t)a.num("status"));
		o.setSerialNumber(rd32(a.bytesOf("serial")));
		auto x = a.bytesOf("name");
		o.setProductName(std::string(x.begin(), x.end()));
		IdentityObject copy = o;
		identOut(second, copy);
		r.set("first", first); r.set("second", second);
		r.set("inst", (int)o.getInstanceId()); r.set("cls", (int)o.getClassId());
		r.set("rev", o.getRevision().toString());
	} else if (k == "fresh") {
		// objects constructed by default in memory that is not zero
		r.set("ss", B(utilsPack(*Dirty<cip::CipShortString>()))); r.set("cs", B(utilsPack(*Dirty<cip::CipString>())));
		r.set("sslen", (int)Dirty<cip::CipShortString>()->getLength()); r.set("cslen", (int)Dirty<cip::CipString>()->getLength());
		r.set("rev", B(utilsPack(*Dirty<cip::CipRevision>())));
		r.set("item", B(Dirty<eip::CommonPacketItem>()->pack()));
		r.set("enc", B(Dirty<eip::EncapsPacket>()->pack()));
		r.set("cpf", B(Dirty<eip::CommonPacket>()->pack()));
		r.set("path", (int)Dirty<cip::EPath>()->getSizeInWords());
		Value m = Value::object();
		respOut(m, *Dirty<cip::MessageRouterResponse>());
		r.set("mr", m);
		Dirty<cip::connectionManager::ForwardOpenResponse> f;
		r.set("fo", B({(uint8_t)(f->getO2TNetworkConnectionId() | f->getT2ONetworkConnectionId() | f->getOriginatorSerialNumber() | f->getO2TApi() | f->getT2OApi()),
			(uint8_t)(f->getConnectionSerialNumber() | f->getOriginatorVendorId() | f->getApplicationReplaySize())}));
		Dirty<dpi::DPIFaultParameter> d;
		auto& x = d->getFaultDetails();
		r.set("dpi", B({(uint8_t)(x.faultNumber != 0), (uint8_t)(x.faultCode != 0), (uint8_t)(x.busVoltage != 0 || x.current != 0 || x.frequency != 0)}));
	} else if (k == "ncpseq") {
		using N = cip::connectionManager::NetworkConnectionParametersBuilder;
		N n(rd32(a.bytesOf("v")), a.num("large"));
		Value l = Value::array();
		for (auto& s : a.at("steps").a) {
			auto f = s.str("f");
			int v = (int)s.num("v");
			if (f == "ct") n.setConnectionType((N::ConnectionType)v);
			else if (f == "prio") n.setPriority((N::Priority)v);
			else if (f == "ty") n.setType((N::Type)v);
			else if (f == "red") n.setRedundantOwner((N::RedundantOwner)v);
			else n.setConnectionSize((uint16_t)v);
			Value o = Value::object();
			o.set("v", B(le32(n.build()))); o.set("ct", (int)n.getConnectionType()); o.set("prio", (int)n.getPriority());
			o.set("ty", (int)n.getType()); o.set("size", (int)n.getConnectionSize()); o.set("red", n.getRedundantOwner() != N::EXCLUSIVE);
			l.a.push_back(o);
		}
		r.set("res", l);
	} else {
		r.set("unknown", k);
	}
}

static void runOp(const Value& op) {
	std::string k = op.str("op");
	Value call = Value::object();
	call.set("e", "call"); call.set("op", k); call.set("t", (int64_t)world::nowUnits());
	Value args = Value::object();
	for (auto& f : op.o) if (f.first != "rx" && f.first != "do" && f.first != "op" && f.first != "in") args.set(f.first, f.second);
	args.set("z", 0);
	int64_t t0 = world::nowUnits();
	world::Ctx c;
	c.rx = op.at("rx").a; c.tx = op.at("tx").a; c.conn = op.str("conn", "ok");
	c.sockFail = (int)op.num("sockfail"); c.bindFail = (int)op.num("bindfail"); c.optFail = (int)op.num("optfail");
	c.callFail = (int)op.num("callfail"); c.err = (int)op.num("errno");
	for (auto& x : op.at("sig").a) c.signals.push_back(world::nowNs() + x.i * world::UNIT_NS);
	c.connWait = op.num("cw") * world::UNIT_NS;
	for (auto& d : op.at("dg").a)
		world::addDatagram(t0 + d.num("at"), (int)d.num("port", 2222), d.bytesOf("b"), d.str("err"),
			d.has("ip") ? d.bytesOf("ip") : Bytes{10, 0, 0, 1}, (int)d.num("from", 2222));
	// an operation on an object that does not exist (its creation failed) is skipped
	bool skip = false;
	static const char* needS[] = {"mr", "raw", "open", "close", "burn", "file", "begin", "xfer", "fsync", "param", "update", "ident", "dpi", "dpicmd", "dpiobj"};
	for (auto n : needS) if (k == n && !sess[(int)op.num("s")]) skip = true;
	if ((k == "begin" || k == "xfer" || k == "fsync") && !files[(int)op.num("f")]) skip = true;
	if ((k == "update" || k == "pget" || k == "peng") && !params[(int)op.num("p")]) skip = true;
	if ((k == "ssend" || k == "srecv" || k == "sto") && !plain[(int)op.num("k")]) skip = true;
	if ((k == "setdata" || k == "relisten" || k == "hold" || k == "close" || k == "drop" || (k == "on" && op.str("k") != "file" && op.str("k") != "fault")) && !conns.count((int)op.num("c"))) skip = true;
	if (k == "dpilisten" && !dpis.count((int)op.num("m"))) skip = true;
	if (skip) return;
	call.set("a", args);
	world::emit(call);
	world::push(c);
	++depth;
	Value r = Value::object();
	bool ok = true;
	std::string ex = "none";
	try {
		doOp(k, op, r);
	} catch (std::system_error&) { ok = false; ex = "system";
	} catch (std::exception&) { ok = false; ex = "runtime";
	} catch (...) { ok = false; ex = "foreign"; }
	--depth;
	world::pop();
	Value ev = Value::object();
	ev.set("e", "ret"); ev.set("op", k); ev.set("ok", ok); ev.set("ex", ex); ev.set("t", (int64_t)world::nowUnits());
	r.set("z", 0);
	ev.set("r", r);
	if (depth == 0) {
		Value live = Value::array();
		for (auto& e : conns) if (!e.second.expired()) live.a.emplace_back(e.first);
		ev.set("live", live);
		ev.set("tcp", world::openFds(true)); ev.set("udp", world::openFds(false));
		ev.set("has", mgr ? mgr->hasOpenConnections() : false);
	}
	world::emit(ev);
}

static void childMain(const Value& script, int out) {
	gOut = out;
	rlimit cpu{8, 9};
	setrlimit(RLIMIT_CPU, &cpu);
	alarm(20);                                          // blocked for real: counts as hanging
	rlimit core{0, 0};
	setrlimit(RLIMIT_CORE, &core);
	std::string lvl = script.str("log", "off");
	if (lvl != "default") {
		utils::Logger::setAppender(std::make_unique<NullAppender>());
		utils::Logger::setLogLevel(lvl == "trace" ? utils::LogLevel::TRACE : utils::LogLevel::OFF);
	}
	world::setRandom((uint32_t)script.num("rnd", 0x0101));
	world::setRecvCost(script.num("cost", 0));
	if (script.has("clk")) world::setClock(script.num("clk"));
	for (auto& op : script.at("ops").a) runOp(op);
	Value fin = Value::object();
	fin.set("op", "end");
	runOp(fin);
	Value e = Value::object();
	e.set("e", "fin"); e.set("fds", world::openFds()); e.set("bad", world::badCloses());
	world::emit(e);
	_exit(0);
}

int main(int argc, char** argv) {
	if (argc < 4) { fprintf(stderr, "usage: driver scripts.ndjson out-prefix jobs [errlog]\n"); return 2; }
	int jobs = atoi(argv[3]);
	std::vector<std::string> lines;
	{ std::ifstream f(argv[1]); std::string l; while (std::getline(f, l)) if (!l.empty()) lines.push_back(l); }
	std::vector<pid_t> workers;
	for (int w = 0; w < jobs; ++w) {
		pid_t wp = fork();
		if (wp) { workers.push_back(wp); continue; }
		std::ofstream out(std::string(argv[2]) + "." + std::to_string(w));
		int bad = 0;
		for (size_t i = w; i < lines.size(); i += jobs) {
			if (bad >= 6) break;                 // the code is clearly broken: do not spend the time on the rest
			Value script = Value::parse(lines[i]);
			int p[2], q[2];
			if (pipe(p)) return 3;
			if (pipe(q)) return 3;
			pid_t pid = fork();
			if (pid == 0) {
				__real_close(p[0]); __real_close(q[0]);
				dup2(q[1], 2);
				if (!freopen("/dev/null", "w", stdout)) _exit(8);
				childMain(script, p[1]);
			}
			__real_close(p[1]); __real_close(q[1]);
			std::string buf, err;
			char tmp[65536];
			bool po = true, qo = true;
			while (po || qo) {
				pollfd fds[2] = {{po ? p[0] : -1, POLLIN, 0}, {qo ? q[0] : -1, POLLIN, 0}};
				__real_poll(fds, 2, -1);
				if (po && fds[0].revents) { ssize_t k = __real_read(p[0], tmp, sizeof tmp); if (k <= 0) po = false; else buf.append(tmp, k); }
				if (qo && fds[1].revents) { ssize_t k = __real_read(q[0], tmp, sizeof tmp); if (k <= 0) qo = false; else if (err.size() < 20000) err.append(tmp, k); }
			}
			__real_close(p[0]); __real_close(q[0]);
			int st = 0;
			waitpid(pid, &st, 0);
			// keep only complete lines
			size_t e = buf.rfind('\n');
			buf.resize(e == std::string::npos ? 0 : e);
			for (auto& ch : buf) if (ch == '\n') ch = ',';
			bool done = buf.find("{\"e\":\"fin\"") != std::string::npos || buf.find("{\"e\":\"crash\"") != std::string::npos;
			if (buf.find("{\"e\":\"crash\"") != std::string::npos) ++bad;
			if (!done || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
				++bad;
				std::string why = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM) ? "hang"
					: WIFSIGNALED(st) ? "signal" + std::to_string(WTERMSIG(st))
					: err.find("AddressSanitizer") != std::string::npos ? "sanitizer" : "exit" + std::to_string(WEXITSTATUS(st));
				if (why == "hang") bad += 2;
				Value c = Value::object();
				c.set("e", "crash"); c.set("why", why);
				if (!buf.empty()) buf += ",";
				buf += c.dump();
				if (argc > 4) { std::ofstream ef(std::string(argv[4]), std::ios::app); ef << "script " << script.num("id") << " " << why << "\n" << err << "\n"; }
			}
			out << "{\"id\":" << script.num("id") << ",\"fam\":\"" << script.str("fam", "x") << "\",\"cost\":" << script.num("cost", 0)
				<< ",\"log\":\"" << script.str("log", "off") << "\",\"ev\":[" << buf << "]}\n";
		}
		out.close();
		_exit(0);
	}
	int rc = 0;
	for (auto p : workers) { int st; waitpid(p, &st, 0); if (st) rc = 4; }
	return rc;
}
