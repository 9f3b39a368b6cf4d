// Small utilities shared by the harnesses: deterministic randomness, and a plain value model which
// does not depend on the library under test.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
	for (unsigned char c : s)
		h = (h ^ c) * 1099511628211ULL;
	return mix(h);
}

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed)
		: s(mix(seed ^ 0x5bf03635ULL))
	{
	}
	uint64_t next()
	{
		s += 0x9e3779b97f4a7c15ULL;
		return mix(s);
	}
	size_t below(size_t n)
	{
		return n ? static_cast<size_t>(next() % n) : 0;
	}
	int range(int lo, int hi)
	{
		return lo + static_cast<int>(below(static_cast<size_t>(hi - lo + 1)));
	}
	bool pct(int p)
	{
		return static_cast<int>(below(100)) < p;
	}
	template <class C>
	auto& pick(C& c)
	{
		return c[below(c.size())];
	}
	template <class C>
	void shuffle(C& c)
	{
		for (size_t i = c.size(); i > 1; --i)
			std::swap(c[i - 1], c[below(i)]);
	}
};

// A value: literals of documents, variables, arguments seen by accessors, and responses.
struct J
{
	enum K
	{
		Null,
		Bool,
		Int,
		Float,
		Str,
		Enum,
		List,
		Map,
		Var
	} k = Null;
	bool b = false;
	long long i = 0;
	double d = 0;
	std::string s;
	std::vector<J> l;
	std::vector<std::pair<std::string, J>> m;

	J() = default;
	static J boolean(bool v)
	{
		J j;
		j.k = Bool;
		j.b = v;
		return j;
	}
	static J integer(long long v)
	{
		J j;
		j.k = Int;
		j.i = v;
		return j;
	}
	static J real(double v)
	{
		J j;
		j.k = Float;
		j.d = v;
		return j;
	}
	static J str(std::string v)
	{
		J j;
		j.k = Str;
		j.s = std::move(v);
		return j;
	}
	static J enumv(std::string v)
	{
		J j;
		j.k = Enum;
		j.s = std::move(v);
		return j;
	}
	static J var(std::string v)
	{
		J j;
		j.k = Var;
		j.s = std::move(v);
		return j;
	}
	static J list()
	{
		J j;
		j.k = List;
		return j;
	}
	static J map()
	{
		J j;
		j.k = Map;
		return j;
	}
	const J* get(const std::string& n) const
	{
		for (auto& e : m)
			if (e.first == n)
				return &e.second;
		return nullptr;
	}
	void add(std::string n, J v)
	{
		m.emplace_back(std::move(n), std::move(v));
	}
};

inline std::string fmtDouble(double d)
{
	char buf[64];
	snprintf(buf, sizeof buf, "%.17g", d);
	return buf;
}

inline std::string quote(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		char buf[8];
		if (c == '"' || c == '\\')
		{
			r += '\\';
			r += static_cast<char>(c);
		}
		else if (c < 0x20 || c == 0x7f)
		{
			snprintf(buf, sizeof buf, "\\u%04X", c);
			r += buf;
		}
		else
			r += static_cast<char>(c);
	}
	return r + "\"";
}

// Typed, ordered, unambiguous rendering; two values are equal if and only if this is.
inline void canon(const J& j, std::string& o)
{
	switch (j.k)
	{
		case J::Null: o += "null"; break;
		case J::Bool: o += j.b ? "true" : "false"; break;
		case J::Int: o += std::to_string(j.i); break;
		case J::Float: o += "f"; o += fmtDouble(j.d); break;
		case J::Str: o += quote(j.s); break;
		case J::Enum: o += "#"; o += j.s; break;
		case J::Var: o += "$"; o += j.s; break;
		case J::List:
		{
			o += "[";
			bool f = true;
			for (auto& e : j.l)
			{
				if (!f)
					o += ",";
				f = false;
				canon(e, o);
			}
			o += "]";
			break;
		}
		case J::Map:
		{
			o += "{";
			bool f = true;
			for (auto& e : j.m)
			{
				if (!f)
					o += ",";
				f = false;
				o += quote(e.first);
				o += ":";
				canon(e.second, o);
			}
			o += "}";
			break;
		}
	}
}
inline std::string canon(const J& j)
{
	std::string o;
	canon(j, o);
	return o;
}

// Members of input values are unordered, so sort them.
inline J sorted(J j)
{
	for (auto& e : j.l)
		e = sorted(std::move(e));
	for (auto& e : j.m)
		e.second = sorted(std::move(e.second));
	std::sort(j.m.begin(), j.m.end(), [](auto& a, auto& b) { return a.first < b.first; });
	return j;
}

inline std::string jsonStr(const std::string& s)
{
	return quote(s);
}
// JSON text (for variables and evidence).
inline void json(const J& j, std::string& o)
{
	switch (j.k)
	{
		case J::Float:
		{
			auto t = fmtDouble(j.d);
			if (t.find_first_of(".eEn") == std::string::npos)
				t += ".0";
			o += t;
			break;
		}
		case J::Enum: o += quote(j.s); break;
		case J::List:
		{
			o += "[";
			for (size_t i = 0; i < j.l.size(); ++i)
			{
				if (i)
					o += ",";
				json(j.l[i], o);
			}
			o += "]";
			break;
		}
		case J::Map:
		{
			o += "{";
			for (size_t i = 0; i < j.m.size(); ++i)
			{
				if (i)
					o += ",";
				o += quote(j.m[i].first) + ":";
				json(j.m[i].second, o);
			}
			o += "}";
			break;
		}
		default: canon(j, o);
	}
}
inline std::string json(const J& j)
{
	std::string o;
	json(j, o);
	return o;
}

inline std::string base64(const std::string& in)
{
	static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	size_t i = 0;
	for (; i + 2 < in.size(); i += 3)
	{
		unsigned v = (unsigned char)in[i] << 16 | (unsigned char)in[i + 1] << 8 | (unsigned char)in[i + 2];
		o += a[v >> 18];
		o += a[(v >> 12) & 63];
		o += a[(v >> 6) & 63];
		o += a[v & 63];
	}
	if (in.size() - i == 1)
	{
		unsigned v = (unsigned char)in[i] << 16;
		o += a[v >> 18];
		o += a[(v >> 12) & 63];
		o += "==";
	}
	else if (in.size() - i == 2)
	{
		unsigned v = (unsigned char)in[i] << 16 | (unsigned char)in[i + 1] << 8;
		o += a[v >> 18];
		o += a[(v >> 12) & 63];
		o += a[(v >> 6) & 63];
		o += "=";
	}
	return o;
}
// Strict decoder; nullopt if it's not the canonical encoding of anything.
inline std::optional<std::string> unbase64(const std::string& in)
{
	static const std::string a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	if (in.size() % 4)
		return std::nullopt;
	std::string o;
	for (size_t i = 0; i < in.size(); i += 4)
	{
		unsigned v = 0;
		int pad = 0;
		for (int k = 0; k < 4; ++k)
		{
			char c = in[i + k];
			if (c == '=')
			{
				if (i + 4 != in.size() || k < 2)
					return std::nullopt;
				++pad;
				v <<= 6;
				continue;
			}
			if (pad)
				return std::nullopt;
			auto p = a.find(c);
			if (p == std::string::npos)
				return std::nullopt;
			v = v << 6 | static_cast<unsigned>(p);
		}
		if ((pad == 1 && (v & 0xff)) || (pad == 2 && (v & 0xffff)))
			return std::nullopt;
		o += static_cast<char>(v >> 16);
		if (pad < 2)
			o += static_cast<char>(v >> 8);
		if (pad < 1)
			o += static_cast<char>(v);
	}
	return o;
}

inline void appendUtf8(std::string& o, uint32_t c)
{
	if (c < 0x80)
		o += static_cast<char>(c);
	else if (c < 0x800)
	{
		o += static_cast<char>(0xc0 | c >> 6);
		o += static_cast<char>(0x80 | (c & 63));
	}
	else if (c < 0x10000)
	{
		o += static_cast<char>(0xe0 | c >> 12);
		o += static_cast<char>(0x80 | ((c >> 6) & 63));
		o += static_cast<char>(0x80 | (c & 63));
	}
	else
	{
		o += static_cast<char>(0xf0 | c >> 18);
		o += static_cast<char>(0x80 | ((c >> 12) & 63));
		o += static_cast<char>(0x80 | ((c >> 6) & 63));
		o += static_cast<char>(0x80 | (c & 63));
	}
}

} // namespace vh
