// Minimal JSON value used by the harness (scripts in, event lines out).
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace vj {
struct Value;
using Array = std::vector<Value>;
struct Value {
	enum Kind { Null, Bool, Int, Str, Arr, Obj } kind = Null;
	int64_t i = 0;
	std::string s;
	std::vector<Value> a;
	std::vector<std::pair<std::string, Value>> o;

	Value() = default;
	Value(bool b) : kind(Bool), i(b) {}
	Value(int v) : kind(Int), i(v) {}
	Value(unsigned v) : kind(Int), i(v) {}
	Value(long v) : kind(Int), i(v) {}
	Value(unsigned long v) : kind(Int), i((int64_t)v) {}
	Value(long long v) : kind(Int), i(v) {}
	Value(const char* v) : kind(Str), s(v) {}
	Value(const std::string& v) : kind(Str), s(v) {}
	static Value array() { Value v; v.kind = Arr; return v; }
	static Value object() { Value v; v.kind = Obj; return v; }
	static Value bytes(const std::vector<uint8_t>& b) {
		Value v = array();
		for (auto x : b) v.a.emplace_back((int)x);
		return v;
	}
	Value& set(const std::string& k, Value v) {
		kind = Obj;
		for (auto& e : o) if (e.first == k) { e.second = std::move(v); return *this; }
		o.emplace_back(k, std::move(v));
		return *this;
	}
	const Value* find(const std::string& k) const {
		for (auto& e : o) if (e.first == k) return &e.second;
		return nullptr;
	}
	bool has(const std::string& k) const { return find(k) != nullptr; }
	const Value& at(const std::string& k) const {
		static const Value nil;
		auto f = find(k);
		return f ? *f : nil;
	}
	int64_t num(const std::string& k, int64_t d = 0) const {
		auto f = find(k);
		return f && (f->kind == Int || f->kind == Bool) ? f->i : d;
	}
	std::string str(const std::string& k, const std::string& d = "") const {
		auto f = find(k);
		return f && f->kind == Str ? f->s : d;
	}
	std::vector<uint8_t> asBytes() const {
		std::vector<uint8_t> r;
		for (auto& x : a) r.push_back((uint8_t)x.i);
		return r;
	}
	std::vector<uint8_t> bytesOf(const std::string& k) const {
		auto f = find(k);
		return f ? f->asBytes() : std::vector<uint8_t>();
	}
	void dump(std::string& out) const;
	std::string dump() const { std::string r; dump(r); return r; }
	static Value parse(const std::string& text);
};
}
