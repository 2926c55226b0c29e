#include "json.h"
#include <cstdio>
#include <cstdlib>
#include <stdexcept>

namespace vj {
void Value::dump(std::string& out) const {
	switch (kind) {
	case Null: out += "0"; break;
	case Bool: out += i ? "true" : "false"; break;
	case Int: out += std::to_string(i); break;
	case Str:
		out += '"';
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
			else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
			else out += (char)c;
		}
		out += '"';
		break;
	case Arr: {
		out += '[';
		bool first = true;
		for (auto& x : a) { if (!first) out += ','; first = false; x.dump(out); }
		out += ']';
		break;
	}
	case Obj: {
		out += '{';
		bool first = true;
		for (auto& x : o) {
			if (!first) out += ',';
			first = false;
			out += '"'; out += x.first; out += "\":";
			x.second.dump(out);
		}
		out += '}';
		break;
	}
	}
}

namespace {
struct P {
	const char* p; const char* e;
	void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
	[[noreturn]] void bad() { throw std::runtime_error("bad JSON"); }
	Value val() {
		ws();
		if (p >= e) bad();
		Value v;
		if (*p == '{') {
			v.kind = Value::Obj; ++p; ws();
			if (*p == '}') { ++p; return v; }
			for (;;) {
				ws();
				std::string k = string(); ws();
				if (*p++ != ':') bad();
				v.o.emplace_back(k, val()); ws();
				if (*p == ',') { ++p; continue; }
				if (*p == '}') { ++p; return v; }
				bad();
			}
		}
		if (*p == '[') {
			v.kind = Value::Arr; ++p; ws();
			if (*p == ']') { ++p; return v; }
			for (;;) {
				v.a.push_back(val()); ws();
				if (*p == ',') { ++p; continue; }
				if (*p == ']') { ++p; return v; }
				bad();
			}
		}
		if (*p == '"') { v.kind = Value::Str; v.s = string(); return v; }
		if (*p == 't') { p += 4; return Value(true); }
		if (*p == 'f') { p += 5; return Value(false); }
		if (*p == 'n') { p += 4; return v; }
		char* q;
		v.i = strtoll(p, &q, 10);
		if (q == p) bad();
		p = q; v.kind = Value::Int;
		return v;
	}
	std::string string() {
		if (*p != '"') bad();
		++p;
		std::string r;
		while (p < e && *p != '"') {
			if (*p == '\\') {
				++p;
				if (*p == 'u') { r += (char)strtol(std::string(p + 1, 4).c_str(), nullptr, 16); p += 5; }
				else if (*p == 'n') { r += '\n'; ++p; }
				else { r += *p; ++p; }
			} else r += *p++;
		}
		++p;
		return r;
	}
};
}
Value Value::parse(const std::string& t) {
	P p{t.data(), t.data() + t.size()};
	return p.val();
}
}
