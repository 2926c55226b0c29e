// A virtual world under the library's system calls: TCP peers, UDP network, clock.
// Every call the library makes to the socket/clock API is redirected here by the
// linker (--wrap); nothing reaches the real network and no real time passes.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <string>
#include <vector>
#include "json.h"

namespace world {
constexpr int64_t UNIT_NS = 100000;      // one model time unit = 100 us

// --- clock
int64_t nowNs();
int64_t nowUnits();
void advanceUnits(int64_t u);

// --- event log
void emit(const vj::Value& ev);          // adds nothing; writes one event
[[noreturn]] void die(const std::string& why);

// --- contexts: replies, send faults and socket faults of the running operation
struct Ctx {
	std::vector<vj::Value> rx;           // reply script per request
	size_t rxi = 0;
	std::vector<vj::Value> tx;           // send behaviour per request
	size_t txi = 0;
	std::string conn = "ok";
	int sockFail = 0;                    // fail the n-th socket() call
	int bindFail = 0;
	int optFail = 0;
	int callFail = 0;                    // fail the n-th fcntl(), select() or getsockopt() call
	int err = 0;                         // with this error
	int64_t connWait = 0;                // how long connecting takes
	std::deque<int64_t> signals;         // when signals arrive (they matter only to a process that waits)
};
void push(const Ctx& c);
void pop();                              // flushes the pending request bytes
void flushAll();

// --- UDP network: datagrams to be delivered to the socket bound to `port`
// (port 0: to the unbound socket that sent last)
// from: the address the datagram comes from
void addDatagram(int64_t atUnits, int port, const std::vector<uint8_t>& b, const std::string& err,
		const std::vector<uint8_t>& ip, int sport);
// while set, datagrams sent go there instead of into the log, and system calls are not counted
extern std::function<void(const uint8_t* ip, int port, const std::vector<uint8_t>& b)> sink;
void setClock(int64_t us);               // the origin of the clock
void setRecvCost(int64_t units);
void setRandom(uint32_t v);
int openFds();
int openFds(bool tcp);
int badCloses();
}
