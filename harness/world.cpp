#include "world.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <netinet/in.h>
#include <poll.h>
#include <random>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

using vj::Value;

extern "C" {
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_fcntl(int, int, ...);
int __real_ioctl(int, unsigned long, ...);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_poll(struct pollfd*, nfds_t, int);
ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_writev(int, const struct iovec*, int);
}

namespace world { decltype(sink) sink; }
namespace {
const int VFD0 = 500;
const long CALL_BUDGET = 400000;      // system calls of one operation (but for pumps)

struct Elem { int kind; std::vector<uint8_t> d; size_t pos = 0; int64_t at = 0; };   // kind: 0 data 1 eof 2 rst 3 eintr 4 tmo
struct Sock {
	bool tcp = false, open = false, bound = false, nonblock = false, connected = false, shut = false;
	int idx = 0;                 // serial number among the sockets of its kind
	int port = 0;                // bound port
	int bindSeq = 0;
	int64_t rcvTimeoNs = 0;
	int soError = 0;
	bool connPending = false;    // connect in progress, will succeed / never
	bool connNever = false;
	int64_t connAt = 0;
	std::vector<uint8_t> pending;   // bytes of the request being sent
	bool txFailed = false;
	std::deque<Elem> stream;
	bool sticky = false; int stickyKind = 0;
	sockaddr_in peer{};
};
struct Dgram { int64_t at; int port; std::vector<uint8_t> b; int err; long seq; std::vector<uint8_t> ip; int sport; };

std::map<int, Sock> socks;
std::vector<Dgram> net;
std::vector<world::Ctx> stack;
int64_t clockNs = 1000000000000LL;       // an arbitrary origin
int64_t clock0 = clockNs;
int nextFd = VFD0, tcpCount = 0, udpCount = 0, bindCount = 0, nOpen = 0, nBad = 0;
int lastUdpSender = -1;
long calls = 0, dgSeq = 0;
int64_t recvCost = 0;
uint32_t rnd = 0x1234;
const world::Ctx noCtx;

void tick() { if (!world::sink && ++calls > CALL_BUDGET) world::die("hang"); }
world::Ctx* ctx() { return stack.empty() ? nullptr : &stack.back(); }

Sock* get(int fd) {
	if (fd < VFD0) return nullptr;
	auto it = socks.find(fd);
	if (it == socks.end() || !it->second.open) { ++nBad; errno = EBADF; return nullptr; }
	return &it->second;
}
bool isV(int fd) { return fd >= VFD0; }
// a signal arrives while the process waits until `until`
bool interrupted(int64_t until) {
	auto c = ctx();
	while (c && !c->signals.empty() && c->signals.front() < clockNs) c->signals.pop_front();
	if (!c || c->signals.empty() || c->signals.front() >= until) return false;
	clockNs = c->signals.front();
	c->signals.pop_front();
	errno = EINTR;
	return true;
}
bool planned(int world::Ctx::*f) { auto c = ctx(); return c && c->*f > 0 && --(c->*f) == 0; }
int planErr(int dflt) { auto c = ctx(); return c && c->err ? c->err : dflt; }

// The bytes sent so far form one request; the peer answers with the next reply script.
void flushTx(Sock& s) {
	if (!s.tcp || s.pending.empty()) return;
	Value ev = Value::object();
	ev.set("e", "tx"); ev.set("s", s.idx); ev.set("b", Value::bytes(s.pending));
	ev.set("t", (int64_t)world::nowUnits());
	world::emit(ev);
	std::vector<uint8_t> req;
	req.swap(s.pending);
	Value q = Value::array();
	auto c = ctx();
	int64_t at = clockNs;                            // when the next element arrives
	if (c && c->rxi < c->rx.size() && !s.txFailed) {
		for (auto& el : c->rx[c->rxi].a) {
			Elem e{};
			Value o = Value::object();
			if (el.has("d")) {
				e.kind = 0;
				e.d = el.bytesOf("d");
				for (auto& ec : el.at("echo").a) {       // [dst, src, len]
					for (int k = 0; k < ec.a[2].i; ++k) {
						size_t dst = ec.a[0].i + k, src = ec.a[1].i + k;
						if (dst < e.d.size() && src < req.size()) e.d[dst] = req[src];
					}
				}
				o.set("k", "d"); o.set("d", Value::bytes(e.d));
				if (e.d.empty()) continue;
			} else {
				std::string k = el.str("k");
				e.kind = k == "eof" ? 1 : k == "rst" ? 2 : k == "eintr" ? 3 : 4;
				o.set("k", k); o.set("d", Value::array());
			}
			at += el.num("w", 0) * world::UNIT_NS;
			e.at = at;
			o.set("w", (int)el.num("w", 0));
			s.stream.push_back(e);
			q.a.push_back(o);
		}
		c->rxi++;
	} else if (c) c->rxi++;
	Value r = Value::object();
	r.set("e", "rx"); r.set("s", s.idx); r.set("q", q);
	world::emit(r);
	if (c) c->txi++;
	s.txFailed = false;
}

ssize_t doSend(Sock& s, const uint8_t* p, size_t n) {
	if (s.sticky && s.stickyKind == 2) { errno = EPIPE; return -1; }
	auto c = ctx();
	const Value* f = nullptr;
	if (c && c->txi < c->tx.size()) f = &c->tx[c->txi];
	size_t take = n;
	if (f) {
		std::string k = f->str("k", "ok");
		int64_t after = f->num("after", 0), chunk = f->num("chunk", 0);
		if (chunk > 0 && take > (size_t)chunk) take = chunk;
		if (k == "fail") {
			if ((int64_t)s.pending.size() >= after) { s.txFailed = true; errno = (int)f->num("errno", EPIPE); return -1; }
			if (s.pending.size() + take > (size_t)after) take = after - s.pending.size();
		} else if (k == "eintr") {
			// one EINTR when `after` bytes have gone out
			if ((int64_t)s.pending.size() == after && !s.shut && f->num("done", 0) == 0) {
				const_cast<Value*>(f)->set("done", 1);
				errno = EINTR; return -1;
			}
			if ((int64_t)s.pending.size() < after && s.pending.size() + take > (size_t)after) take = after - s.pending.size();
		}
	}
	s.pending.insert(s.pending.end(), p, p + take);
	return (ssize_t)take;
}

ssize_t tcpRecv(Sock& s, uint8_t* p, size_t n, int flags) {
	flushTx(s);
	size_t got = 0;
	for (;;) {
		if (s.sticky) {
			if (got) return got;
			if (s.stickyKind == 1) return 0;
			errno = ECONNRESET; return -1;
		}
		if (n == 0) return 0;
		if (s.stream.empty()) {
			if (got) return got;
			if (s.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
			if (s.rcvTimeoNs <= 0) world::die("hang");
			clockNs += s.rcvTimeoNs;
			errno = EAGAIN; return -1;
		}
		Elem& e = s.stream.front();
		if (e.at > clockNs && e.kind < 3) {
			if (got) return got;
			if (s.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
			if (s.rcvTimeoNs > 0 && e.at > clockNs + s.rcvTimeoNs) { clockNs += s.rcvTimeoNs; errno = EAGAIN; return -1; }
			clockNs = e.at;
		}
		if (e.kind == 0) {
			size_t k = std::min(n - got, e.d.size() - e.pos);
			if (k) memcpy(p + got, e.d.data() + e.pos, k);
			if (flags & MSG_PEEK) return got + k;
			e.pos += k; got += k;
			if (e.pos == e.d.size()) s.stream.pop_front();
			if (got == n || !(flags & MSG_WAITALL)) return got;
		} else if (e.kind == 1 || e.kind == 2) {
			s.sticky = true; s.stickyKind = e.kind;
		} else if (e.kind == 3) {
			if (got) return got;
			s.stream.pop_front(); errno = EINTR; return -1;
		} else {
			if (got) return got;
			s.stream.pop_front();
			if (s.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
			if (s.rcvTimeoNs <= 0) world::die("hang");
			clockNs += s.rcvTimeoNs;
			errno = EAGAIN; return -1;
		}
	}
}

// which datagrams can this socket see?
bool visible(int fd, const Sock& s, const Dgram& d) {
	if (s.tcp) return false;
	if (d.port == 0) return !s.bound && fd == lastUdpSender;
	if (!s.bound || s.port != d.port) return false;
	// the most recently bound socket of the port gets the datagram
	for (auto& o : socks)
		if (o.second.open && o.second.bound && o.second.port == d.port && o.second.bindSeq > s.bindSeq) return false;
	return true;
}
Dgram* nextFor(int fd, const Sock& s) {
	Dgram* best = nullptr;
	for (auto& d : net)
		if (visible(fd, s, d) && (!best || d.at < best->at || (d.at == best->at && d.seq < best->seq))) best = &d;
	return best;
}
void dropStale() {          // datagrams that arrived while nobody was bound are lost
	for (size_t i = 0; i < net.size();) {
		bool seen = false;
		for (auto& o : socks) if (o.second.open && visible(o.first, o.second, net[i])) seen = true;
		if (!seen && net[i].at <= clockNs) net.erase(net.begin() + i); else ++i;
	}
}

ssize_t udpRecv(int fd, Sock& s, uint8_t* p, size_t n, int flags, sockaddr* a, socklen_t* al) {
	dropStale();
	Dgram* d = nextFor(fd, s);
	if (!d || d->at > clockNs) {
		if (s.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
		if (d && (s.rcvTimeoNs <= 0 || d->at <= clockNs + s.rcvTimeoNs)) {
			if (interrupted(d->at)) return -1;
			clockNs = d->at;
		} else {
			if (s.rcvTimeoNs <= 0) world::die("hang");
			if (interrupted(clockNs + s.rcvTimeoNs)) return -1;
			clockNs += s.rcvTimeoNs;
			errno = EAGAIN; return -1;
		}
	}
	clockNs += recvCost;
	if (d->err) { int e = d->err; net.erase(net.begin() + (d - net.data())); errno = e; return -1; }
	size_t k = std::min(n, d->b.size());
	if (k) memcpy(p, d->b.data(), k);
	ssize_t r = (flags & MSG_TRUNC) ? (ssize_t)d->b.size() : (ssize_t)k;
	if (a && al) {
		sockaddr_in sa{};
		sa.sin_family = AF_INET; sa.sin_port = htons(d->sport); memcpy(&sa.sin_addr, d->ip.data(), 4);
		memcpy(a, &sa, std::min<size_t>(*al, sizeof sa)); *al = sizeof sa;
	}
	if (!(flags & MSG_PEEK)) net.erase(net.begin() + (d - net.data()));
	return r;
}

bool readable(int fd, Sock& s) {
	if (s.tcp) {
		flushTx(s);
		return s.sticky || (!s.stream.empty() && s.stream.front().kind != 4 && s.stream.front().at <= clockNs);
	}
	Dgram* d = nextFor(fd, s);
	return d && d->at <= clockNs;
}
bool writable(Sock& s) { return !(s.tcp && s.connPending && (s.connNever || s.connAt > clockNs)); }

// Waits until one of the sockets is ready: 1; 0 on timeout, -1 if a signal arrives before
int waitReady(const std::vector<int>& rd, const std::vector<int>& wr, int64_t timeoutNs, bool infinite) {
	dropStale();
	for (int fd : wr) { Sock* s = get(fd); if (s && writable(*s)) return 1; }
	for (int fd : rd) { Sock* s = get(fd); if (s && readable(fd, *s)) return 1; }
	int64_t best = -1;
	for (int fd : wr) {
		Sock* s = get(fd);
		if (s && s->connPending && !s->connNever && (best < 0 || s->connAt < best)) best = s->connAt;
	}
	for (int fd : rd) {
		Sock* s = get(fd);
		if (s && s->tcp && !s->stream.empty() && s->stream.front().kind != 4 && (best < 0 || s->stream.front().at < best)) best = s->stream.front().at;
		if (!s || s->tcp) continue;
		Dgram* d = nextFor(fd, *s);
		if (d && (best < 0 || d->at < best)) best = d->at;
	}
	bool comes = best >= 0 && (infinite || best <= clockNs + timeoutNs);
	if (interrupted(comes ? best : infinite ? INT64_MAX : clockNs + timeoutNs)) return -1;
	if (comes) { if (best > clockNs) clockNs = best; return 1; }
	if (infinite) world::die("hang");
	clockNs += timeoutNs;
	for (int fd : rd) {                      // a silent TCP peer: the wait itself used up the timeout
		Sock* s = get(fd);
		if (s && s->tcp && !s->stream.empty() && s->stream.front().kind == 4) s->stream.pop_front();
	}
	return 0;
}
int doClose(int fd) {
	Sock* s = get(fd);
	if (!s) return -1;
	flushTx(*s);
	s->open = false; --nOpen;
	if (fd == lastUdpSender)                 // answers to a socket that is gone are lost
		for (size_t i = 0; i < net.size();) if (net[i].port == 0) net.erase(net.begin() + i); else ++i;
	return 0;
}
}

namespace world {
int64_t nowNs() { return clockNs; }
int64_t nowUnits() { return (clockNs - clock0) / UNIT_NS; }
void advanceUnits(int64_t u) { clockNs += u * UNIT_NS; }
void push(const Ctx& c) { flushAll(); stack.push_back(c); }
void pop() { flushAll(); stack.pop_back(); }
void flushAll() { for (auto& s : socks) if (s.second.open) flushTx(s.second); }
void setClock(int64_t us) { clockNs = clock0 = us * 1000; }
void addDatagram(int64_t at, int port, const std::vector<uint8_t>& b, const std::string& err, const std::vector<uint8_t>& ip, int sport) {
	Dgram d; d.ip = ip; d.sport = sport; d.ip.resize(4); d.at = clock0 + at * UNIT_NS; d.port = port; d.b = b; d.seq = ++dgSeq;
	d.err = err == "" ? 0 : err == "EINTR" ? EINTR : err == "ECONNREFUSED" ? ECONNREFUSED : err == "ENETDOWN" ? ENETDOWN : EIO;
	net.push_back(d);
}
void setRecvCost(int64_t u) { recvCost = u * UNIT_NS; }
void setRandom(uint32_t v) { rnd = v; }
int openFds() { return nOpen; }
int openFds(bool tcp) { int n = 0; for (auto& s : socks) n += s.second.open && s.second.tcp == tcp; return n; }
int badCloses() { return nBad; }
}

extern "C" {
int __wrap_socket(int dom, int type, int) {
	tick();
	auto c = ctx();
	if (c && c->sockFail > 0 && --c->sockFail == 0) { errno = planErr(EMFILE); return -1; }
	Sock s;
	s.open = true;
	s.tcp = (type & 0xff) == SOCK_STREAM;
	s.nonblock = type & SOCK_NONBLOCK;
	s.idx = s.tcp ? ++tcpCount : ++udpCount;
	int fd = nextFd++;
	if (fd >= 1020) world::die("fdlimit");
	socks[fd] = s;
	++nOpen;
	return fd;
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t l) {
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	if (l >= sizeof(sockaddr_in)) memcpy(&s->peer, a, sizeof(sockaddr_in));
	if (!s->tcp) return 0;
	auto c = ctx();
	std::string m = c ? c->conn : "ok";
	Value ip = Value::bytes(std::vector<uint8_t>((uint8_t*)&s->peer.sin_addr, (uint8_t*)&s->peer.sin_addr + 4));
	Value ev = Value::object();
	ev.set("e", "conn"); ev.set("s", s->idx); ev.set("ip", ip); ev.set("port", (int)ntohs(s->peer.sin_port));
	world::emit(ev);
	s->connAt = clockNs + (c ? c->connWait : 0);
	if (m == "refused") { errno = planErr(ECONNREFUSED); return -1; }
	if (m == "ok") { s->connected = true; return 0; }
	if (m == "inprog") { if (!s->nonblock) { clockNs = s->connAt; s->connected = true; return 0; } s->connPending = true; s->connected = true; errno = EINPROGRESS; return -1; }
	if (m == "inprog-refused") { if (!s->nonblock) { errno = planErr(ECONNREFUSED); return -1; } s->connPending = true; s->soError = planErr(ECONNREFUSED); errno = EINPROGRESS; return -1; }
	// "timeout"
	if (!s->nonblock) { clockNs += 120000000000LL; errno = ETIMEDOUT; return -1; }
	s->connPending = s->connNever = true; errno = EINPROGRESS; return -1;
}
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) {
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	auto c = ctx();
	if (c && c->bindFail > 0 && --c->bindFail == 0) { errno = planErr(EADDRINUSE); return -1; }
	sockaddr_in sa{};
	if (l >= sizeof sa) memcpy(&sa, a, sizeof sa);
	dropStale();
	s->bound = true; s->port = ntohs(sa.sin_port); s->bindSeq = ++bindCount;
	return 0;
}
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t l) {
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	auto c = ctx();
	if (c && name != SO_RCVTIMEO && c->optFail > 0 && --c->optFail == 0) { errno = planErr(EPERM); return -1; }
	if (level == SOL_SOCKET && name == SO_RCVTIMEO && l >= sizeof(timeval)) {
		timeval tv; memcpy(&tv, v, sizeof tv);
		if (tv.tv_usec < 0 || tv.tv_usec >= 1000000) { errno = EDOM; return -1; }
		s->rcvTimeoNs = (int64_t)tv.tv_sec * 1000000000LL + (int64_t)tv.tv_usec * 1000LL;
	}
	return 0;
}
int __wrap_getsockopt(int fd, int level, int name, void* v, socklen_t* l) {
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	if (planned(&world::Ctx::callFail)) { errno = planErr(ENOMEM); return -1; }
	int x = 0;
	if (level == SOL_SOCKET && name == SO_ERROR) { x = s->soError; s->soError = 0; }
	if (v && l && *l >= sizeof x) { memcpy(v, &x, sizeof x); *l = sizeof x; }
	return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!isV(fd)) return __real_fcntl(fd, cmd, arg);
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	if (planned(&world::Ctx::callFail)) { errno = planErr(ENOMEM); return -1; }
	if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
	return 0;
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
	if (!isV(fd)) return __real_ioctl(fd, req, arg);
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	if (planned(&world::Ctx::callFail)) { errno = planErr(ENOMEM); return -1; }
	if (req == FIONBIO && arg) s->nonblock = *(int*)arg;
	return 0;
}
int __wrap_shutdown(int fd, int) {
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	flushTx(*s);
	s->shut = true;
	return 0;
}
int __wrap_close(int fd) {
	if (!isV(fd)) return __real_close(fd);
	tick();
	return doClose(fd);
}
static ssize_t sendAny(int fd, const void* p, size_t n, const sockaddr* a, socklen_t al) {
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	if (s->tcp) return doSend(*s, (const uint8_t*)p, n);
	sockaddr_in sa = s->peer;
	if (a && al >= sizeof sa) memcpy(&sa, a, sizeof sa);
	// a signal arrives while the call waits for room
	if (auto c = ctx(); !world::sink && c && c->txi < c->tx.size() && c->tx[c->txi].str("k", "ok") == "eintr" && c->tx[c->txi].num("done", 0) == 0) {
		const_cast<Value&>(c->tx[c->txi]).set("done", 1);
		errno = EINTR;
		return -1;
	}
	if (world::sink) {
		world::sink((const uint8_t*)&sa.sin_addr, ntohs(sa.sin_port), std::vector<uint8_t>((const uint8_t*)p, (const uint8_t*)p + n));
		return (ssize_t)n;
	}
	Value ip = Value::bytes(std::vector<uint8_t>((uint8_t*)&sa.sin_addr, (uint8_t*)&sa.sin_addr + 4));
	Value ev = Value::object();
	ev.set("e", "udp"); ev.set("ip", ip); ev.set("port", (int)ntohs(sa.sin_port));
	ev.set("b", Value::bytes(std::vector<uint8_t>((const uint8_t*)p, (const uint8_t*)p + n)));
	ev.set("t", (int64_t)world::nowUnits());
	// the fault planned for this datagram
	auto c = ctx();
	const Value* f = c && c->txi < c->tx.size() ? &c->tx[c->txi] : nullptr;
	if (c) c->txi++;
	if (f && f->str("k", "ok") == "fail") {
		ev.set("fail", 1);
		world::emit(ev);
		errno = (int)f->num("errno", ENETUNREACH);
		return -1;
	}
	lastUdpSender = fd;
	world::emit(ev);
	return (ssize_t)n;
}
ssize_t __wrap_send(int fd, const void* p, size_t n, int) { return sendAny(fd, p, n, nullptr, 0); }
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int, const sockaddr* a, socklen_t al) { return sendAny(fd, p, n, a, al); }
ssize_t __wrap_write(int fd, const void* p, size_t n) {
	if (!isV(fd)) return __real_write(fd, p, n);
	return sendAny(fd, p, n, nullptr, 0);
}
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int) {
	std::vector<uint8_t> all;
	for (size_t i = 0; i < m->msg_iovlen; ++i)
		all.insert(all.end(), (uint8_t*)m->msg_iov[i].iov_base, (uint8_t*)m->msg_iov[i].iov_base + m->msg_iov[i].iov_len);
	return sendAny(fd, all.data(), all.size(), (const sockaddr*)m->msg_name, m->msg_namelen);
}
static ssize_t recvAny(int fd, void* p, size_t n, int flags, sockaddr* a, socklen_t* al) {
	tick();
	Sock* s = get(fd);
	if (!s) return -1;
	return s->tcp ? tcpRecv(*s, (uint8_t*)p, n, flags) : udpRecv(fd, *s, (uint8_t*)p, n, flags, a, al);
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int f) { return recvAny(fd, p, n, f, nullptr, nullptr); }
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int f, sockaddr* a, socklen_t* al) { return recvAny(fd, p, n, f, a, al); }
ssize_t __wrap_read(int fd, void* p, size_t n) {
	if (!isV(fd)) return __real_read(fd, p, n);
	return recvAny(fd, p, n, 0, nullptr, nullptr);
}
ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) {
	if (m->msg_iovlen < 1) { errno = EINVAL; return -1; }
	size_t room = 0;
	for (size_t i = 0; i < m->msg_iovlen; ++i) room += m->msg_iov[i].iov_len;
	std::vector<uint8_t> all(room + 1);
	ssize_t n = recvAny(fd, all.data(), room, f, (sockaddr*)m->msg_name, m->msg_name ? &m->msg_namelen : nullptr);
	size_t at = 0, got = n > 0 ? std::min((size_t)n, room) : 0;
	for (size_t i = 0; i < m->msg_iovlen && at < got; ++i) {
		size_t k = std::min(got - at, m->msg_iov[i].iov_len);
		memcpy(m->msg_iov[i].iov_base, all.data() + at, k);
		at += k;
	}
	return n;
}
ssize_t __wrap_readv(int fd, const iovec* v, int n) {
	if (!isV(fd)) return __real_readv(fd, v, n);
	msghdr m{};
	m.msg_iov = const_cast<iovec*>(v); m.msg_iovlen = n;
	return __wrap_recvmsg(fd, &m, 0);
}
ssize_t __wrap_writev(int fd, const iovec* v, int n) {
	if (!isV(fd)) return __real_writev(fd, v, n);
	msghdr m{};
	m.msg_iov = const_cast<iovec*>(v); m.msg_iovlen = n;
	return __wrap_sendmsg(fd, &m, 0);
}
// poisoned-memory checks of the buffers are done by the sanitizer in the copies above
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv) {
	tick();
	std::vector<int> rd, wr;
	for (int fd = 0; fd < n; ++fd) {
		if (r && FD_ISSET(fd, r)) rd.push_back(fd);
		if (w && FD_ISSET(fd, w)) wr.push_back(fd);
	}
	for (int fd : rd) if (isV(fd) && !get(fd)) { errno = EBADF; return -1; }
	for (int fd : wr) if (isV(fd) && !get(fd)) { errno = EBADF; return -1; }
	if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) { errno = EINVAL; return -1; }
	if (planned(&world::Ctx::callFail)) { errno = planErr(ENOMEM); return -1; }
	int ok = waitReady(rd, wr, tv ? (int64_t)tv->tv_sec * 1000000000LL + (int64_t)tv->tv_usec * 1000LL : 0, tv == nullptr);
	if (ok < 0) return -1;                   // (the sets are as they were)
	int cnt = 0;
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	if (e) FD_ZERO(e);
	if (!ok) return 0;
	for (int fd : rd) { Sock* s = get(fd); if (s && readable(fd, *s)) { FD_SET(fd, r); ++cnt; } }
	for (int fd : wr) { Sock* s = get(fd); if (s && writable(*s)) { FD_SET(fd, w); ++cnt; } }
	return cnt;
}
int __wrap_poll(pollfd* p, nfds_t n, int ms) {
	bool anyV = n == 0;
	for (nfds_t i = 0; i < n; ++i) if (isV(p[i].fd)) anyV = true;
	if (!anyV) return __real_poll(p, n, ms);
	tick();
	std::vector<int> rd, wr;
	for (nfds_t i = 0; i < n; ++i) {
		p[i].revents = 0;
		if (p[i].events & POLLIN) rd.push_back(p[i].fd);
		if (p[i].events & POLLOUT) wr.push_back(p[i].fd);
	}
	if (planned(&world::Ctx::callFail)) { errno = planErr(ENOMEM); return -1; }
	int ok = waitReady(rd, wr, (int64_t)ms * 1000000LL, ms < 0);
	if (ok <= 0) return ok;
	int cnt = 0;
	for (nfds_t i = 0; i < n; ++i) {
		Sock* s = get(p[i].fd);
		if (!s) { p[i].revents = POLLNVAL; ++cnt; continue; }
		if ((p[i].events & POLLIN) && readable(p[i].fd, *s)) p[i].revents |= POLLIN;
		if ((p[i].events & POLLOUT) && writable(*s)) p[i].revents |= POLLOUT;
		if (p[i].revents) ++cnt;
	}
	return cnt;
}
int __wrap_pselect(int n, fd_set* r, fd_set* w, fd_set* e, const timespec* ts, const sigset_t*) {
	timeval tv{};
	if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; }
	return __wrap_select(n, r, w, e, ts ? &tv : nullptr);
}
int __wrap_ppoll(pollfd* p, nfds_t n, const timespec* ts, const sigset_t*) {
	return __wrap_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1);
}
int __wrap_clock_gettime(clockid_t, timespec* ts) { ts->tv_sec = clockNs / 1000000000LL; ts->tv_nsec = clockNs % 1000000000LL; return 0; }
int __wrap_gettimeofday(timeval* tv, void*) { tv->tv_sec = clockNs / 1000000000LL; tv->tv_usec = clockNs % 1000000000LL / 1000; return 0; }
int __wrap_usleep(useconds_t us) { tick(); clockNs += (int64_t)us * 1000; return 0; }
int __wrap_nanosleep(const timespec* r, timespec*) { tick(); clockNs += (int64_t)r->tv_sec * 1000000000LL + r->tv_nsec; return 0; }
int __wrap_clock_nanosleep(clockid_t, int flags, const timespec* r, timespec*) {
	tick();
	int64_t v = (int64_t)r->tv_sec * 1000000000LL + r->tv_nsec;
	if (flags & TIMER_ABSTIME) { if (v > clockNs) clockNs = v; } else clockNs += v;
	return 0;
}
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
	return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(clockNs));
}
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
	return std::chrono::system_clock::time_point(std::chrono::nanoseconds(clockNs));
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(std::random_device*) { return rnd; }
}
