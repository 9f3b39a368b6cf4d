// P16: JSON in both directions, against an independent reader and printer.
#include "../common/report.h"
#include "graphqlservice/GraphQLResponse.h"
#include "graphqlservice/JSONResponse.h"
using namespace graphql;
using namespace vh;
using response::Type;
using response::Value;

namespace {

// A strict RFC 8259 reader. Numbers without fraction and exponent are integers.
struct Reader
{
	const std::string& t;
	size_t p = 0;
	bool bigInt = false, infinite = false, loneSurrogate = false, badUtf8 = false, dup = false;
	int depth = 0, maxDepth = 0;
	explicit Reader(const std::string& t)
		: t(t)
	{
	}
	struct Bad
	{
	};
	void ws()
	{
		while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r'))
			++p;
	}
	bool eat(char c)
	{
		if (p < t.size() && t[p] == c)
		{
			++p;
			return true;
		}
		return false;
	}
	void lit(const char* s)
	{
		auto n = strlen(s);
		if (t.compare(p, n, s) != 0)
			throw Bad {};
		p += n;
	}
	unsigned hex4()
	{
		unsigned v = 0;
		for (int k = 0; k < 4; ++k)
		{
			if (p >= t.size() || !isxdigit((unsigned char)t[p]))
				throw Bad {};
			char c = t[p++];
			v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
		}
		return v;
	}
	std::string str()
	{
		if (!eat('"'))
			throw Bad {};
		std::string o;
		for (;;)
		{
			if (p >= t.size())
				throw Bad {};
			unsigned char c = t[p++];
			if (c == '"')
				break;
			if (c < 0x20)
				throw Bad {};
			if (c != '\\')
			{
				o += (char)c;
				continue;
			}
			if (p >= t.size())
				throw Bad {};
			switch (t[p++])
			{
				case '"': o += '"'; break;
				case '\\': o += '\\'; break;
				case '/': o += '/'; break;
				case 'b': o += '\b'; break;
				case 'f': o += '\f'; break;
				case 'n': o += '\n'; break;
				case 'r': o += '\r'; break;
				case 't': o += '\t'; break;
				case 'u':
				{
					unsigned u = hex4();
					if (u >= 0xd800 && u < 0xdc00 && t.compare(p, 2, "\\u") == 0)
					{
						p += 2;
						unsigned w = hex4();
						if (w >= 0xdc00 && w < 0xe000)
							u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00);
						else
							loneSurrogate = true;
					}
					else if (u >= 0xd800 && u < 0xe000)
						loneSurrogate = true;
					appendUtf8(o, u);
					break;
				}
				default: throw Bad {};
			}
		}
		return o;
	}
	J value()
	{
		ws();
		if (++depth > maxDepth)
			maxDepth = depth;
		if (depth > 200 || p >= t.size())
			throw Bad {};
		J j;
		char c = t[p];
		if (c == '{')
		{
			++p;
			j = J::map();
			ws();
			if (!eat('}'))
				for (;;)
				{
					ws();
					auto k = str();
					ws();
					if (!eat(':'))
						throw Bad {};
					auto v = value();
					if (j.get(k))
						dup = true;
					j.add(k, v);
					ws();
					if (eat('}'))
						break;
					if (!eat(','))
						throw Bad {};
				}
		}
		else if (c == '[')
		{
			++p;
			j = J::list();
			ws();
			if (!eat(']'))
				for (;;)
				{
					j.l.push_back(value());
					ws();
					if (eat(']'))
						break;
					if (!eat(','))
						throw Bad {};
				}
		}
		else if (c == '"')
			j = J::str(str());
		else if (c == 't')
		{
			lit("true");
			j = J::boolean(true);
		}
		else if (c == 'f')
		{
			lit("false");
			j = J::boolean(false);
		}
		else if (c == 'n')
			lit("null");
		else
		{
			size_t s = p;
			eat('-');
			auto digits = [&] {
				if (p >= t.size() || !isdigit((unsigned char)t[p]))
					throw Bad {};
				while (p < t.size() && isdigit((unsigned char)t[p]))
					++p;
			};
			if (eat('0'))
				;
			else
				digits();
			bool real = false;
			if (eat('.'))
			{
				real = true;
				digits();
			}
			if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
			{
				real = true;
				++p;
				if (!eat('+'))
					eat('-');
				digits();
			}
			auto text = t.substr(s, p - s);
			if (real)
			{
				j = J::real(strtod(text.c_str(), nullptr));
				// A zero with a huge exponent is 0, but it may as well be refused as out of range.
				if (j.d == 0 && text.find_first_of("eE") != std::string::npos && strtod(text.c_str() + text.find_first_of("eE") + 1, nullptr) > 100)
					infinite = true;
				if (!std::isfinite(j.d))
					infinite = true;
			}
			else if (text.size() > 11 || (strtoll(text.c_str(), nullptr, 10) != (int)strtoll(text.c_str(), nullptr, 10)))
			{
				bigInt = true;
				j = J::integer(0);
			}
			else if (text == "-0")
				j = J::integer(0);
			else
				j = J::integer(strtoll(text.c_str(), nullptr, 10));
		}
		--depth;
		return j;
	}
	std::optional<J> document()
	{
		try
		{
			auto j = value();
			ws();
			if (p != t.size())
				return std::nullopt;
			return j;
		}
		catch (Bad&)
		{
			return std::nullopt;
		}
	}
};

bool validUtf8(const std::string& s)
{
	for (size_t i = 0; i < s.size();)
	{
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
		if (n < 0 || i + n >= s.size())
		{
			if (n != 0)
				return false;
		}
		for (int k = 1; k <= n; ++k)
			if (((unsigned char)s[i + k] & 0xc0) != 0x80)
				return false;
		i += n + 1;
	}
	return true;
}

// What the reader of a serialized value should see: enum names are strings, scalars are what they
// contain.
J asJson(const J& j)
{
	J o = j;
	if (o.k == J::Enum)
		o.k = J::Str;
	for (auto& e : o.l)
		e = asJson(e);
	for (auto& e : o.m)
		e.second = asJson(e.second);
	return o;
}

J fromValue(const Value& v)
{
	switch (v.type())
	{
		case Type::Map:
		{
			J j = J::map();
			for (auto& e : v)
				j.add(e.first, fromValue(e.second));
			return j;
		}
		case Type::List:
		{
			J j = J::list();
			for (size_t i = 0; i < v.size(); ++i)
				j.l.push_back(fromValue(v[i]));
			return j;
		}
		case Type::String: return J::str(v.get<std::string>());
		case Type::EnumValue: return J::enumv(v.get<std::string>());
		case Type::Boolean: return J::boolean(v.get<bool>());
		case Type::Int: return J::integer(v.get<int>());
		case Type::Float: return J::real(v.get<double>());
		case Type::Scalar: return fromValue(v.get<Value>());
		default: return {};
	}
}

struct Gen
{
	Rng& r;
	std::string str()
	{
		std::string s;
		for (size_t n = r.below(r.pct(10) ? 60 : 8); n; --n)
			switch (r.below(8))
			{
				case 0: appendUtf8(s, (uint32_t)r.below(0x20)); break;
				case 1: appendUtf8(s, 0x80 + (uint32_t)r.below(0x780)); break;
				case 2:
				{
					uint32_t c = 0x800 + (uint32_t)r.below(0xf800);
					appendUtf8(s, c >= 0xd800 && c < 0xe000 ? 0xfffd : c);
					break;
				}
				case 3: appendUtf8(s, 0x10000 + (uint32_t)r.below(0x100000)); break;
				case 4: s += "\"\\/"[r.below(3)]; break;
				default: s += (char)(0x20 + r.below(0x5f)); break;
			}
		return s;
	}
	double real()
	{
		switch (r.below(5))
		{
			case 0:
			{
				static const double v[] = { 0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e-7, 1e308, -1.7976931348623157e308,
					2.2250738585072014e-308, 5e-324, 123456789012345680.0, 1e15, 4294967296.0, 0.30000000000000004 };
				return v[r.below(15)];
			}
			case 1: return (double)(int64_t)r.next() / 1024.0;
			case 2: return (double)r.range(-1000, 1000) / 8;
			default:
			{
				for (;;)
				{
					uint64_t b = r.next();
					double d;
					memcpy(&d, &b, 8);
					if (std::isfinite(d))
						return d;
				}
			}
		}
	}
	J value(int depth)
	{
		switch (r.below(depth > 0 ? 9 : 6))
		{
			case 0: return {};
			case 1: return J::boolean(r.pct(50));
			case 2:
			{
				static const int v[] = { 0, 1, -1, 2147483647, -2147483647 - 1 };
				return J::integer(r.pct(40) ? v[r.below(5)] : (int)(uint32_t)r.next());
			}
			case 3: return J::real(real());
			case 4: return J::str(str());
			case 5: return J::enumv("E" + std::to_string(r.below(5)));
			case 6:
			case 7:
			{
				J j = J::map();
				for (size_t n = r.below(6); n; --n)
				{
					auto k = r.pct(30) ? str() : std::string(1, (char)('a' + r.below(8)));
					if (!j.get(k))
						j.add(k, value(depth - 1));
				}
				return j;
			}
			default:
			{
				J j = J::list();
				for (size_t n = r.below(6); n; --n)
					j.l.push_back(value(depth - 1));
				return j;
			}
		}
	}
	Value build(const J& j)
	{
		if (r.pct(10))
		{
			Value s(Type::Scalar);
			s.set<Value>(build(j));
			return s;
		}
		switch (j.k)
		{
			case J::Bool: return Value(j.b);
			case J::Int: return Value((int)j.i);
			case J::Float: return Value(j.d);
			case J::Str: return Value(std::string(j.s));
			case J::Enum:
			{
				Value v(Type::EnumValue);
				v.set<std::string>(std::string(j.s));
				return v;
			}
			case J::List:
			{
				Value v(Type::List);
				for (auto& e : j.l)
					v.emplace_back(build(e));
				return v;
			}
			case J::Map:
			{
				Value v(Type::Map);
				for (auto& e : j.m)
					v.emplace_back(std::string(e.first), build(e.second));
				return v;
			}
			default: return {};
		}
	}
	// A text with random layout and escapes.
	void space(std::string& o)
	{
		while (r.pct(15))
			o += " \t\n\r"[r.below(4)];
	}
	void text(const std::string& s, std::string& o)
	{
		o += '"';
		for (size_t i = 0; i < s.size();)
		{
			unsigned char c = s[i];
			size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
			uint32_t u = n == 1 ? c : c & (0xff >> (n + 1));
			for (size_t k = 1; k < n; ++k)
				u = u << 6 | ((unsigned char)s[i + k] & 63);
			char b[16];
			static const char* simple = "\"\\/\b\f\n\r\t";
			static const char* names = "\"\\/bfnrt";
			auto q = c ? strchr(simple, c) : nullptr;
			if (n == 1 && q && r.pct(60))
			{
				o += '\\';
				o += names[q - simple];
			}
			else if (u < 0x20 || u == '"' || u == '\\' || r.pct(20))
			{
				const char* f = r.pct(50) ? "\\u%04x" : "\\u%04X";
				if (u >= 0x10000)
				{
					snprintf(b, sizeof b, f, 0xd800 + ((u - 0x10000) >> 10));
					o += b;
					snprintf(b, sizeof b, f, 0xdc00 + ((u - 0x10000) & 0x3ff));
					o += b;
				}
				else
				{
					snprintf(b, sizeof b, f, u);
					o += b;
				}
			}
			else
				o.append(s, i, n);
			i += n;
		}
		o += '"';
	}
	void print(const J& j, std::string& o)
	{
		space(o);
		switch (j.k)
		{
			case J::Bool: o += j.b ? "true" : "false"; break;
			case J::Int: o += std::to_string(j.i); break;
			case J::Float:
			{
				char b[400];
				snprintf(b, sizeof b, r.pct(50) ? "%.17e" : "%.17E", j.d);
				if (r.pct(30) && std::fabs(j.d) < 1e15 && std::fabs(j.d) > 1e-5)
				{
					snprintf(b, sizeof b, "%.25f", j.d);
				}
				o += b;
				break;
			}
			case J::Str:
			case J::Enum: text(j.s, o); break;
			case J::List:
				o += "[";
				for (size_t i = 0; i < j.l.size(); ++i)
				{
					if (i)
						o += ",";
					print(j.l[i], o);
				}
				space(o);
				o += "]";
				break;
			case J::Map:
				o += "{";
				for (size_t i = 0; i < j.m.size(); ++i)
				{
					if (i)
						o += ",";
					space(o);
					text(j.m[i].first, o);
					space(o);
					o += ":";
					print(j.m[i].second, o);
				}
				space(o);
				o += "}";
				break;
			default: o += "null";
		}
		space(o);
	}
	std::string mutate(std::string t)
	{
		static const std::string bits[] = { "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud800", "null", "true", "0", "01", "-", "+1",
			"1.", ".5", "1e", "1e5", "1e999", "99999999999", "\x01", std::string(1, '\0'), "nan", "Infinity", "//c\n", "'", "\xff", " ", "\\x", "tru", "{}" , "[]"};
		for (size_t n = 1 + r.below(3); n; --n)
		{
			size_t at = r.below(t.size() + 1);
			switch (r.below(6))
			{
				case 0: t.insert(at, bits[r.below(std::size(bits))]); break;
				case 1: t.erase(at, 1 + r.below(3)); break;
				case 2: t = t.substr(0, at); break;
				case 3:
					if (at < t.size())
						t[at] = (char)r.below(256);
					break;
				case 4: t += bits[r.below(std::size(bits))]; break;
				default:
					if (!t.empty())
					{
						size_t b = r.below(t.size());
						t.insert(at, t.substr(b, r.below(10)));
					}
			}
		}
		return t;
	}
};

} // namespace

void p16(Report& rep)
{
	auto parse = [&](const std::string& text, std::string& error) -> std::optional<J> {
		try
		{
			return fromValue(response::parseJSON(text));
		}
		catch (const std::exception& e)
		{
			error = e.what();
			return std::nullopt;
		}
	};
	auto checkText = [&](const std::string& text, const char* how) {
		Reader reader(text);
		auto want = reader.document();
		std::string error;
		auto got = parse(text, error);
		++rep.evaluations;
		if (!validUtf8(text) || reader.loneSurrogate)
			return;
		if (!want && reader.maxDepth >= 200)
			return;
		if (!want)
		{
			rep.count("malformed texts");
			if (got)
				rep.violation(std::string("malformed text was read as ") + canon(*got), std::string(how) + ": " + quote(text));
			return;
		}
		if (reader.bigInt || reader.infinite || reader.dup)
			return;
		rep.count("well formed texts");
		if (!got)
			rep.violation("well formed text was refused: " + error, std::string(how) + ": " + quote(text));
		else if (canon(*got) != canon(*want))
			rep.violation("read as " + canon(*got) + " instead of " + canon(*want), std::string(how) + ": " + quote(text));
	};
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		Gen g { r };
		auto j = g.value(1 + (int)r.below(6));
		if (j.k != J::List && j.k != J::Map && r.pct(60))
		{
			J l = J::list();
			l.l.push_back(j);
			l.l.push_back(g.value(3));
			j = l;
		}
		if (r.pct(2))
			for (int n = r.range(20, 80); n; --n)
			{
				J l = J::list();
				l.l.push_back(j);
				j = l;
			}
		rep.note(canon(j));
		auto text = response::toJSON(g.build(j));
		++rep.evaluations;
		rep.count("values serialized");
		auto want = canon(asJson(j));
		Reader reader(text);
		auto back = reader.document();
		if (!back)
			rep.violation("the serialized text is not JSON", canon(j) + "\n" + quote(text));
		else if (canon(*back) != want)
			rep.violation("the serialized text denotes " + canon(*back) + " instead of " + want, quote(text));
		std::string error;
		auto again = parse(text, error);
		if (!again)
			rep.violation("the serialized text was refused: " + error, quote(text));
		else if (canon(*again) != want)
			rep.violation("the serialized text was read as " + canon(*again) + " instead of " + want, quote(text));
		std::string mine;
		g.print(j, mine);
		if (j.m.size() + j.l.size() > 1)
			rep.sample(mine);
		checkText(mine, "printed");
		for (int k = 0; k < 6; ++k)
			checkText(g.mutate(mine), "mutated");
	});
}
