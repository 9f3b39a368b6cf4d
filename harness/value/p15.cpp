// P15: histories of operations on response::Value against a plain model.
#include "../common/report.h"
#include "graphqlservice/GraphQLResponse.h"
using namespace graphql;
using namespace vh;
using response::Type;
using response::Value;

namespace {

struct MV
{
	Type t = Type::Null;
	bool b = false;
	int i = 0;
	double d = 0;
	std::string s; // String, EnumValue
	bool json = false;
	std::vector<std::pair<std::string, MV>> m;
	std::vector<MV> l; // List; or zero or one elements for Scalar
	bool operator==(const MV& r) const
	{
		if (t != r.t)
			return false;
		switch (t)
		{
			case Type::Map: return m == r.m;
			case Type::List:
			case Type::Scalar: return l == r.l;
			case Type::String: return s == r.s;
			case Type::EnumValue: return s == r.s;
			case Type::Boolean: return b == r.b;
			case Type::Int: return i == r.i;
			case Type::Float: return d == r.d;
			default: return true;
		}
	}
	size_t weight() const
	{
		size_t n = 1;
		for (auto& e : m)
			n += e.second.weight();
		for (auto& e : l)
			n += e.weight();
		return n;
	}
};

std::string show(const MV& v)
{
	switch (v.t)
	{
		case Type::Map:
		{
			std::string r = "{";
			for (auto& e : v.m)
				r += quote(e.first) + ":" + show(e.second) + ",";
			return r + "}";
		}
		case Type::List:
		case Type::Scalar:
		{
			std::string r = v.t == Type::List ? "[" : "scalar(";
			for (auto& e : v.l)
				r += show(e) + ",";
			return r + (v.t == Type::List ? "]" : ")");
		}
		case Type::String: return quote(v.s) + (v.json ? "j" : "");
		case Type::EnumValue: return "#" + quote(v.s);
		case Type::Boolean: return v.b ? "true" : "false";
		case Type::Int: return std::to_string(v.i);
		case Type::Float: return "f" + fmtDouble(v.d);
		default: return "null";
	}
}

struct Mismatch : std::runtime_error
{
	using std::runtime_error::runtime_error;
};
void expect(bool ok, const std::string& what)
{
	if (!ok)
		throw Mismatch(what);
}
bool misuse = true; // throwing is slow, so not every observation includes the misuses
template <class F>
void expectLogicError(F&& f, const char* what, bool always = false)
{
	if (!always && !misuse)
		return;
	bool thrown = false;
	try
	{
		f();
	}
	catch (const std::logic_error&)
	{
		thrown = true;
	}
	expect(thrown, std::string("no std::logic_error from ") + what);
}

// Walk the value with the const interface only, and compare each observation with the model.
void compare(const Value& v, const MV& m, int depth = 0)
{
	expect(v.type() == m.t, "type is " + std::to_string((int)v.type()) + " instead of " + std::to_string((int)m.t));
	bool isMap = m.t == Type::Map, isList = m.t == Type::List;
	expect(v.maybe_enum() == (m.t == Type::EnumValue || (m.t == Type::String && m.json)), "maybe_enum");
	if (!isMap && !isList)
		expectLogicError([&] { v.size(); }, "size");
	if (isMap)
	{
		expect(v.size() == m.m.size(), "map size");
		auto it = v.begin();
		for (size_t k = 0; k < m.m.size(); ++k, ++it)
		{
			expect(it != v.end(), "iteration ended early");
			expect(it->first == m.m[k].first, "key order at " + std::to_string(k) + ": " + quote(it->first));
			compare(it->second, m.m[k].second, depth + 1);
			auto f = v.find(m.m[k].first);
			expect(f != v.end() && f - v.begin() == (ptrdiff_t)k, "find " + quote(m.m[k].first));
			expect(&v[m.m[k].first] == &it->second, "operator[] " + quote(m.m[k].first));
			// A key which isn't there
			auto absent = m.m[k].first + "\x01";
			bool there = false;
			for (auto& e : m.m)
				there = there || e.first == absent;
			expect(there == (v.find(absent) != v.end()), "find of an absent key");
		}
		expect(it == v.end(), "iteration went on");
		expect(m.m.empty() || &v.get<response::MapType>()[0] == &*v.begin(), "get<MapType>");
		expect(v.get<response::MapType>().size() == m.m.size(), "get<MapType>().size()");
		bool thrown = !misuse;
		try
		{
			if (misuse)
				v["\x02not there"];
		}
		catch (const std::runtime_error&)
		{
			thrown = true;
		}
		expect(thrown, "operator[] of a missing member doesn't throw std::runtime_error");
	}
	else
	{
		expectLogicError([&] { v.begin(); }, "begin");
		expectLogicError([&] { v.end(); }, "end");
		expectLogicError([&] { v.find("a"); }, "find");
		expectLogicError([&] { v["a"]; }, "operator[name]");
		expectLogicError([&] { v.get<response::MapType>(); }, "get<MapType>");
	}
	if (isList)
	{
		expect(v.size() == m.l.size(), "list size");
		for (size_t k = 0; k < m.l.size(); ++k)
			compare(v[k], m.l[k], depth + 1);
		expect(v.get<response::ListType>().size() == m.l.size(), "get<ListType>().size()");
		bool thrown = !misuse;
		try
		{
			if (misuse)
				v[m.l.size()];
		}
		catch (const std::out_of_range&)
		{
			thrown = true;
		}
		expect(thrown, "operator[] beyond the end doesn't throw std::out_of_range");
	}
	else
	{
		expectLogicError([&] { v[size_t { 0 }]; }, "operator[index]");
		expectLogicError([&] { v.get<response::ListType>(); }, "get<ListType>");
	}
	if (m.t == Type::String || m.t == Type::EnumValue)
		expect(v.get<response::StringType>() == m.s, "string is " + quote(v.get<response::StringType>()) + " instead of " + quote(m.s));
	else
		expectLogicError([&] { v.get<response::StringType>(); }, "get<StringType>");
	if (m.t == Type::Boolean)
		expect(v.get<bool>() == m.b, "boolean");
	else
		expectLogicError([&] { v.get<bool>(); }, "get<BooleanType>");
	if (m.t == Type::Int)
		expect(v.get<int>() == m.i && v.get<double>() == (double)m.i, "int");
	else
		expectLogicError([&] { v.get<int>(); }, "get<IntType>");
	if (m.t == Type::Float)
		expect(v.get<double>() == m.d, "float");
	else if (m.t != Type::Int)
		expectLogicError([&] { v.get<double>(); }, "get<FloatType>");
	if (m.t == Type::Scalar && !m.l.empty())
		compare(v.get<Value>(), m.l[0], depth + 1);
	else
		expectLogicError([&] { v.get<Value>(); }, "get<ScalarType>");
	auto id = m.t == Type::String ? unbase64(m.s) : std::nullopt;
	if (id)
	{
		auto got = v.get<response::IdType>();
		expect(std::string(got.begin(), got.end()) == *id, "get<IdType>");
	}
	else if (m.t != Type::String)
		expectLogicError([&] { v.get<response::IdType>(); }, "get<IdType>");
}

struct Case
{
	Rng r;
	Report& rep;
	static constexpr int N = 6;
	std::vector<std::unique_ptr<Value>> v;
	std::vector<MV> m;
	std::string log;

	Case(Report& rep, uint64_t seed)
		: r(seed)
		, rep(rep)
		, m(N)
	{
		for (int k = 0; k < N; ++k)
			v.push_back(std::make_unique<Value>());
		for (int k = 0; k < 3; ++k)
		{
			m[k].t = k == 0 ? Type::Map : k == 1 ? Type::List : Type::Scalar;
			*v[k] = Value(m[k].t);
		}
	}
	std::string key()
	{
		static const std::vector<std::string> keys { "", "a", "b", "c", "aa", "ab", "ba", "B", "A", "a1",
			"data", "errors", "id", "\xc3\xa9", "\xff", "abc", "abd", std::string("a\0b", 3), std::string("a\0", 2), "z" };
		if (r.pct(75))
			return keys[r.below(keys.size())];
		std::string s;
		for (size_t n = r.below(30); n; --n)
			s += (char)('a' + r.below(3));
		return s;
	}
	std::string str()
	{
		static const std::vector<std::string> strs { "", "x", "hello", "RED", "AAAA", "QUI=", "YQ==", "not base 64",
			std::string("e\0f", 3), "\xf0\x9f\x98\x80", "a string long enough that it is not stored inline in the object" };
		return strs[r.below(strs.size())];
	}
	int num()
	{
		static const int n[] = { 0, 1, -1, 2, 42, 2147483647, -2147483647 - 1, 16777217 };
		return r.pct(70) ? n[r.below(8)] : (int)(uint32_t)r.next();
	}
	double real()
	{
		static const double n[] = { 0.0, -0.0, 1.0, 0.5, -1.25, 1e300, 5e-324, 16777217.0 };
		return n[r.below(8)];
	}
	std::pair<std::unique_ptr<Value>, MV> fresh()
	{
		MV x;
		std::unique_ptr<Value> p;
		switch (r.below(9))
		{
			case 0: x.t = (Type)r.below(9); p = std::make_unique<Value>(x.t); break;
			case 1: x.t = Type::String; x.s = str(); x.s = x.s.c_str(); p = std::make_unique<Value>(x.s.c_str()); break;
			case 2: x.t = Type::String; x.s = str(); p = std::make_unique<Value>(std::string(x.s)); break;
			case 3: x.t = Type::Boolean; x.b = r.pct(50); p = std::make_unique<Value>(x.b); break;
			case 4: x.t = Type::Int; x.i = num(); p = std::make_unique<Value>(x.i); break;
			case 5: x.t = Type::Float; x.d = real(); p = std::make_unique<Value>(x.d); break;
			case 6:
			{
				x.t = Type::String;
				auto s = str();
				x.s = base64(s);
				p = std::make_unique<Value>(response::IdType(s.begin(), s.end()));
				break;
			}
			case 7: x.t = Type::List; p = std::make_unique<Value>(Type::List); break;
			default: x.t = Type::Map; p = std::make_unique<Value>(Type::Map); break;
		}
		return { std::move(p), std::move(x) };
	}
	// A Value and its model which can be stored somewhere: fresh, copied from a slot (even the
	// target itself), or moved out of another slot.
	std::pair<std::unique_ptr<Value>, MV> source(int target)
	{
		switch (r.below(3))
		{
			case 0: return fresh();
			case 1:
			{
				int k = (int)r.below(N);
				if (m[k].weight() > 60)
					return fresh();
				log += " copy of " + std::to_string(k);
				rep.count("copies");
				return { std::make_unique<Value>(*v[k]), m[k] };
			}
			default:
			{
				int k = (int)r.below(N);
				if (k == target)
					return fresh();
				log += " move of " + std::to_string(k);
				auto p = std::make_unique<Value>(std::move(*v[k]));
				auto x = m[k];
				*v[k] = Value(Type::Null);
				m[k] = MV {};
				return { std::move(p), std::move(x) };
			}
		}
	}
	void fillMap(int k)
	{
		// Many members at once
		*v[k] = Value(Type::Map);
		m[k] = MV {};
		m[k].t = Type::Map;
		if (r.pct(50))
			v[k]->reserve(r.below(40));
		for (size_t n = r.below(60); n; --n)
		{
			auto name = key();
			int i = num();
			bool dup = false;
			for (auto& e : m[k].m)
				dup = dup || e.first == name;
			MV x;
			x.t = Type::Int;
			x.i = i;
			auto nm = name;
			bool ok = v[k]->emplace_back(std::move(nm), Value(i));
			expect(ok == !dup, "emplace_back returned " + std::to_string(ok) + " for " + quote(name));
			if (!dup)
				m[k].m.emplace_back(name, x);
		}
	}
	void step()
	{
		int k = (int)r.below(N);
		auto& x = m[k];
		auto& p = *v[k];
		auto op = r.below(20);
		// Rather use an operation which suits the value, so that values grow.
		if (r.pct(60))
			switch (x.t)
			{
				case Type::Map: op = r.pct(70) ? 3 : r.pct(30) ? 14 : r.pct(50) ? 19 : 2; break;
				case Type::List: op = r.pct(70) ? 6 : r.pct(30) ? 15 : 19; break;
				case Type::Scalar: op = r.pct(70) ? 12 : 17; break;
				case Type::String: op = r.pct(50) ? 18 : r.pct(50) ? 8 : r.pct(50) ? 13 : 16; break;
				case Type::Null: op = 1; break;
				default: break;
			}
		log += "\n" + std::to_string(op) + " on " + std::to_string(k) + " " + show(x).substr(0, 300);
		switch (op)
		{
			case 0:
			{
				auto f = fresh();
				if (r.pct(50))
					v[k] = std::move(f.first);
				else
					p = std::move(*f.first);
				m[k] = f.second;
				break;
			}
			case 1:
			{
				auto s = source(k);
				p = std::move(*s.first);
				m[k] = s.second;
				break;
			}
			case 2: // assign to itself
			{
				auto& q = p;
				p = std::move(q);
				break;
			}
			case 3:
			case 4:
			case 5:
			{
				auto s = source(k);
				auto name = key();
				auto nm = name;
				if (x.t != Type::Map)
				{
					expectLogicError([&] { p.emplace_back(std::move(nm), std::move(*s.first)); }, "emplace_back(name)", true);
					break;
				}
				if (x.weight() > 150)
					break;
				bool dup = false;
				for (auto& e : x.m)
					dup = dup || e.first == name;
				log += " " + quote(name) + "=" + show(s.second).substr(0, 200);
				bool ok = p.emplace_back(std::move(nm), std::move(*s.first));
				expect(ok == !dup, "emplace_back returned " + std::to_string(ok) + " for " + quote(name));
				if (!dup)
					x.m.emplace_back(name, s.second);
				rep.count(dup ? "duplicate members refused" : "members added");
				break;
			}
			case 6:
			case 7:
			{
				auto s = source(k);
				if (x.t != Type::List)
				{
					expectLogicError([&] { p.emplace_back(std::move(*s.first)); }, "emplace_back", true);
					break;
				}
				if (x.weight() > 150)
					break;
				p.emplace_back(std::move(*s.first));
				x.l.push_back(s.second);
				rep.count("elements added");
				break;
			}
			case 8:
			{
				auto s = str();
				auto c = s;
				if (x.t == Type::String || x.t == Type::EnumValue)
				{
					p.set<response::StringType>(std::move(c));
					x.s = s;
				}
				else
					expectLogicError([&] { p.set<response::StringType>(std::move(c)); }, "set<StringType>", true);
				break;
			}
			case 9:
			{
				bool b = r.pct(50);
				if (x.t == Type::Boolean)
				{
					p.set<bool>(b);
					x.b = b;
				}
				else
					expectLogicError([&] { p.set<bool>(b); }, "set<BooleanType>", true);
				break;
			}
			case 10:
			{
				int i = num();
				if (x.t == Type::Int)
				{
					p.set<int>(i);
					x.i = i;
				}
				else if (x.t == Type::Float)
				{
					p.set<int>(i);
					x.d = i;
				}
				else
					expectLogicError([&] { p.set<int>(i); }, "set<IntType>", true);
				break;
			}
			case 11:
			{
				double d = real();
				if (x.t == Type::Float)
				{
					p.set<double>(d);
					x.d = d;
				}
				else
					expectLogicError([&] { p.set<double>(d); }, "set<FloatType>", true);
				break;
			}
			case 12:
			{
				auto s = source(k);
				if (x.t == Type::Scalar && s.second.weight() < 60)
				{
					p.set<Value>(std::move(*s.first));
					x.l = { s.second };
					rep.count("scalars set");
				}
				else if (x.t != Type::Scalar)
					expectLogicError([&] { p.set<Value>(std::move(*s.first)); }, "set<ScalarType>", true);
				break;
			}
			case 13:
			{
				auto s = str();
				response::IdType id(s.begin(), s.end());
				if (x.t == Type::String)
				{
					p.set<response::IdType>(id);
					x.s = base64(s);
				}
				else
					expectLogicError([&] { p.set<response::IdType>(id); }, "set<IdType>", true);
				break;
			}
			case 14: // release the members, and add them again in another order
			{
				if (x.t != Type::Map)
				{
					expectLogicError([&] { p.release<response::MapType>(); }, "release<MapType>", true);
					break;
				}
				auto members = p.release<response::MapType>();
				expect(members.size() == x.m.size(), "released members");
				for (size_t n = 0; n < members.size(); ++n)
				{
					expect(members[n].first == x.m[n].first, "released key");
					compare(members[n].second, x.m[n].second);
				}
				auto old = x.m;
				x.m.clear();
				compare(p, x);
				rep.count("maps released");
				if (r.pct(70))
				{
					std::vector<size_t> order(members.size());
					for (size_t n = 0; n < order.size(); ++n)
						order[n] = n;
					r.shuffle(order);
					for (auto n : order)
						if (r.pct(90))
						{
							expect(p.emplace_back(std::move(members[n].first), std::move(members[n].second)), "emplace_back after release");
							x.m.push_back(old[n]);
						}
				}
				break;
			}
			case 15:
			{
				if (x.t != Type::List)
				{
					expectLogicError([&] { p.release<response::ListType>(); }, "release<ListType>", true);
					break;
				}
				auto l = p.release<response::ListType>();
				expect(l.size() == x.l.size(), "released elements");
				for (size_t n = 0; n < l.size(); ++n)
					compare(l[n], x.l[n]);
				x.l.clear();
				compare(p, x);
				rep.count("lists released");
				break;
			}
			case 16:
			{
				if (x.t != Type::String && x.t != Type::EnumValue)
				{
					expectLogicError([&] { p.release<response::StringType>(); }, "release<StringType>", true);
					break;
				}
				auto s = p.release<response::StringType>();
				expect(s == x.s, "released string");
				expect(p.get<response::StringType>().empty(), "string left after release");
				p = Value();
				x = MV {};
				break;
			}
			case 17:
			{
				if (x.t != Type::Scalar || x.l.empty())
				{
					expectLogicError([&] { p.release<Value>(); }, "release<ScalarType>", true);
					break;
				}
				auto s = p.release<Value>();
				compare(s, x.l[0]);
				x.l.clear();
				rep.count("scalars released");
				break;
			}
			case 18:
			{
				if (x.t == Type::String)
				{
					if (r.pct(50))
					{
						auto id = unbase64(x.s);
						if (id)
						{
							auto got = p.release<response::IdType>();
							expect(std::string(got.begin(), got.end()) == *id, "released id");
							expect(p.get<response::StringType>().empty(), "string left after release");
							p = Value();
							x = MV {};
						}
						else if (x.s.find(' ') != std::string::npos)
							expectLogicError([&] { p.release<response::IdType>(); }, "release<IdType> of invalid text", true);
					}
					else
					{
						Value q { p.from_json() };
						expect(p.type() == Type::String || true, "");
						p = std::move(q);
						x.json = true;
					}
				}
				else
				{
					expectLogicError([&] { p.release<response::IdType>(); }, "release<IdType>", true);
					Value q { p.from_json() };
					p = std::move(q);
				}
				break;
			}
			default:
			{
				if (r.pct(30))
					fillMap(k);
				else if (x.t == Type::Map || x.t == Type::List)
				{
					p.reserve(r.below(50));
				}
				else
					expectLogicError([&] { p.reserve(3); }, "reserve", true);
			}
		}
	}
	void run()
	{
		size_t steps = 20 + r.below(60);
		for (size_t n = 0; n < steps; ++n)
		{
			step();
			rep.count("operations");
			for (int k = 0; k < N; ++k)
			{
				misuse = r.pct(4);
				compare(*v[k], m[k]);
			}
			misuse = false;
			rep.count("full comparisons", N);
			for (int a = 0; a < N; ++a)
				for (int b = 0; b < N; ++b)
				{
					bool eq = m[a] == m[b];
					expect((*v[a] == *v[b]) == eq, "operator== of " + show(m[a]) + " and " + show(m[b]));
					expect((*v[a] != *v[b]) == !eq, "operator!= of " + show(m[a]) + " and " + show(m[b]));
				}
			for (int k = 0; k < N; ++k)
				if (m[k].weight() > 2)
					rep.note(show(m[k]));
			// A copy equals, and stays the same when the original changes.
			int k = (int)r.below(N);
			if (m[k].weight() < 150 && r.pct(30))
			{
				Value c { *v[k] };
				compare(c, m[k]);
				expect(c == *v[k], "a copy is not equal");
			}
		}
	}
};

} // namespace

void p15(Report& rep)
{
	forCases(rep, [&](long, uint64_t seed) {
		Case c(rep, seed);
		try
		{
			c.run();
		}
		catch (const Mismatch& e)
		{
			rep.violation(e.what(), c.log);
		}
		catch (const std::exception& e)
		{
			rep.violation(std::string("unexpected exception: ") + e.what(), c.log);
		}
		++rep.evaluations;
		if (rep.samples.size() < 2)
			rep.sample(c.log);
	});
}
