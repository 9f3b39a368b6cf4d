// P01: hostile documents, variables, names and encoded texts, in histories on one service. The sanitizers
// watch; the outcome has to be a result document or one of the documented exceptions.
#include "invalid.h"
#include "run.h"
#include "graphqlservice/internal/Base64.h"
#include "graphqlservice/internal/Grammar.h"

namespace vh {
namespace {

using Clock = std::chrono::steady_clock;

struct Hostile
{
	Report& rep;
	Rng r;
	Scene s;
	std::vector<std::string> seen; // documents, to splice

	Hostile(Report& report, uint64_t seed)
		: rep(report)
		, r(seed)
		, s(r)
	{
	}

	// Texts ----------------------------------------------------------------------------------

	std::string token()
	{
		static const std::vector<std::string> t { "{", "}", "(", ")", "[", "]", ":", "!", "$", "@", "=", "|", "&", "...", "\"", "\"\"\"", "\\u", "\\uD83D", "\\uDE00", "\\\"\"\"\"", "#", "\n", "\r", "\r\n", ",",
			"\t", "\xEF\xBB\xBF", std::string(1, '\0'), "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\x7f", "\x01", "query", "mutation", "subscription", "fragment", "on", "true",
			"false", "null", "type", "input", "enum", "schema", "extend", "directive", "scalar", "union", "interface", "implements", "__typename", "__schema", "__type", "__proto__", "a", "_", "0", "-",
			"-0", "00", "1.", ".5", "1e", "1e999", "-1e-999", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "3.14", "skip", "include", "if", "@skip(if:true)",
			"@include(if:$v)", "$v", "...on", "...{", "{}", "[]", "\"\"", "Query", "Int", "String!", "[Int!]!", "[[[[", "]]]]" };
		return r.pick(t);
	}
	std::string valid()
	{
		DocOptions o;
		o.depth = 1 + (int)r.below(4);
		o.width = 1 + (int)r.below(4);
		o.ops = 1 + (int)r.below(3);
		o.introspect = r.pct(30) ? 30 : 0;
		_case = randomCase(s, r, o, (int)r.below(3));
		return _case.req.text;
	}
	std::string broken()
	{
		auto text = valid();
		Doc d = _case.doc;
		Breaker b(*s.model, r, d);
		for (int tries = 0; tries < 5 && b.apply((int)r.below(Breaker::rules)).empty(); ++tries)
			;
		Layout l;
		l.fancy = (int)r.below(3);
		return printDoc(d, r, l) + b.appended;
	}
	std::string soup()
	{
		std::string t;
		for (size_t n = r.below(60); n; --n)
			t += token() + (r.pct(40) ? " " : "");
		return t;
	}
	std::string bytes(size_t n)
	{
		std::string t;
		for (; n; --n)
			t += (char)r.below(256);
		return t;
	}
	// Few bytes, much of something.
	std::string bulky()
	{
		size_t n = 1 + r.below(60);
		auto repeat = [](const std::string& x, size_t k) {
			std::string t;
			for (; k; --k)
				t += x;
			return t;
		};
		auto field = [&] {
			auto& q = s.model->type(s.model->query);
			return r.pick(q.fields).name;
		};
		auto f = field();
		switch (r.below(10))
		{
			case 0: return repeat("{" + f, n) + repeat("}", r.pct(80) ? n : n - 1);
			case 1: return "{" + f + "(a:" + repeat("[", n) + "1" + repeat("]", n) + ")}";
			case 2: return "{" + f + "(a:" + repeat("{a:", n) + "1" + repeat("}", n) + ")}";
			case 3: return "query($v:" + repeat("[", n) + "Int" + repeat("]", n) + "){" + f + "}";
			case 4: return "{" + repeat("...{", n) + f + repeat("}", n) + "}";
			case 5: return "{" + repeat(f + " ", n * 20) + "}";
			case 6: return repeat("query{" + f + "}", n);
			case 7: return "{" + f + repeat("@skip(if:false)", n) + "}";
			case 8:
			{
				// Fragments which spread each other, often in cycles.
				std::string t = "{...F0}";
				for (size_t i = 0; i < n; ++i)
				{
					t += "fragment F" + std::to_string(i) + " on " + s.model->query + "{__typename";
					for (size_t k = 1 + r.below(2); k; --k)
						t += "...F" + std::to_string(r.pct(97) ? std::min(i + k, n - 1) : r.below(n));
					t += i + 1 == n && r.pct(70) ? " " + f + "}" : "}";
				}
				return t;
			}
			default: return "{" + std::string(n * 100, 'a') + ":" + f + "(s:\"" + std::string(n * 100, "ab\\"[r.below(3)]) + "\")}";
		}
	}
	std::string mutate(std::string t)
	{
		for (size_t n = 1 + r.below(r.pct(70) ? 3 : 12); n; --n)
		{
			auto at = r.below(t.size() + 1);
			auto span = std::min(t.size() - at, r.below(12));
			switch (r.below(9))
			{
				case 0: t.insert(at, token()); break;
				case 1: t.erase(at, 1); break;
				case 2: t.erase(at, span); break;
				case 3: t.insert(at, 1, (char)r.below(256)); break;
				case 4:
					if (at < t.size())
						t[at] = (char)(t[at] ^ (1 << r.below(8)));
					break;
				case 5: t.insert(r.below(t.size() + 1), t.substr(at, span * 3)); break;
				case 6: t.resize(at); break;
				case 7: t.replace(at, span, token()); break;
				default:
					if (!seen.empty())
					{
						auto& o = r.pick(seen);
						auto k = r.below(o.size() + 1);
						t = t.substr(0, at) + o.substr(k);
					}
			}
		}
		return t.substr(0, 20000);
	}
	std::string sdl()
	{
		static const std::vector<std::string> parts { "schema { query: Query }", "type Query { a: Int }", "extend type Query @a { b(c: [Int!]! = [1]): String }", "\"\"\"d\"\"\" enum E { A B @deprecated }",
			"input I { a: Int = 1 b: I }", "union U = | A | B", "interface X { a: Int }", "directive @d(a: Int) on FIELD | QUERY", "scalar S @d", "extend schema { mutation: M }", "type A implements X & Y { a: Int }" };
		std::string t;
		for (size_t n = 1 + r.below(4); n; --n)
			t += r.pick(parts) + " ";
		return t;
	}
	std::string document()
	{
		std::string t;
		switch (r.below(12))
		{
			case 0:
			case 1: t = valid(); break;
			case 2:
			case 3: t = broken(); break;
			case 4: t = mutate(broken()); break;
			case 5: t = soup(); break;
			case 6: t = bytes(r.below(80)); break;
			case 7: t = bulky(); break;
			case 8: t = mutate(r.pct(70) ? sdl() : sdl() + valid()); break;
			default: t = mutate(valid()); break;
		}
		if (seen.size() < 20)
			seen.push_back(t);
		else
			r.pick(seen) = t;
		return t;
	}
	template <class T>
	T choice(const std::vector<T>& v)
	{
		return r.pick(v);
	}
	J junk(int depth = 3)
	{
		switch (r.below(depth > 0 ? 9 : 6))
		{
			case 0: return J();
			case 1: return J::boolean(r.pct(50));
			case 2: return J::integer(choice<int>({ 0, 1, -1, 2147483647, -2147483647 - 1, 42 }));
			case 3: return J::real(choice<double>({ 0.5, -0.0, 1e308, -1e-308, 3e9, 1.0 }));
			case 4: return J::str(r.pct(50) ? bytesText() : token());
			case 5: return J::str(r.pct(50) ? "QUJD" : "RED");
			case 6:
			case 7:
			{
				auto l = J::list();
				for (size_t n = r.below(4); n; --n)
					l.l.push_back(junk(depth - 1));
				return l;
			}
			default:
			{
				auto m = J::map();
				std::set<std::string> used;
				for (size_t n = r.below(4); n; --n)
				{
					auto k = r.pct(50) ? name() : "x" + std::to_string(n);
					if (used.insert(k).second)
						m.add(k, junk(depth - 1));
				}
				return m;
			}
		}
	}
	std::string bytesText()
	{
		static const std::vector<std::string> t { "", "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x01", "\"", "\\", "/", "\x7f", " " };
		std::string x;
		for (size_t n = r.below(6); n; --n)
			x += r.pick(t);
		return x;
	}
	std::string name()
	{
		// The names of fields of input types have a chance.
		auto& t = *r.pick(s.model->types);
		if (!t.inputs.empty())
			return r.pick(t.inputs).name;
		return "a";
	}
	J variables()
	{
		auto v = _case.req.vars;
		if (r.pct(40))
			return v;
		for (auto& e : v.m)
			if (r.pct(50))
				e.second = junk();
		if (r.pct(20) && !v.m.empty())
			v.m.erase(v.m.begin() + (std::ptrdiff_t)r.below(v.m.size()));
		if (r.pct(20) && !v.get("v"))
			v.add("v", junk());
		return v;
	}
	std::string operation()
	{
		switch (r.below(6))
		{
			case 0: return "";
			case 1: return token();
			case 2: return bytes(r.below(20));
			case 3: return _case.req.operation.substr(0, _case.req.operation.size() / 2);
			default: return _case.req.operation;
		}
	}

	// What may happen --------------------------------------------------------------------------

	std::string wrong;
	// Only the exceptions which the library documents.
	template <class F>
	std::string guard(const char* what, F&& f)
	{
		auto start = Clock::now();
		std::string outcome;
		try
		{
			f();
			outcome = "result";
		}
		catch (const tao::graphqlpeg::parse_error&)
		{
			outcome = "parse_error";
		}
		catch (service::schema_exception& ex)
		{
			outcome = "schema_exception";
			auto e = fromValue(ex.getErrors());
			if (e.k != J::List || e.l.empty())
				wrong = std::string(what) + ": an exception without errors";
		}
		catch (const std::logic_error&)
		{
			outcome = "logic_error";
		}
		catch (const std::runtime_error&)
		{
			outcome = "runtime_error";
		}
		catch (const std::exception& ex)
		{
			outcome = "foreign exception";
			wrong = std::string(what) + ": a foreign exception: " + ex.what();
		}
		catch (...)
		{
			outcome = "foreign exception";
			wrong = std::string(what) + ": a foreign exception";
		}
		auto took = std::chrono::duration<double>(Clock::now() - start).count();
		slowest = std::max(slowest, took);
		rep.count(std::string(what) + ": " + outcome);
		++rep.evaluations;
		return outcome;
	}
	void only(const std::string& outcome, const char* what, std::initializer_list<const char*> allowed)
	{
		for (auto a : allowed)
			if (outcome == a)
				return;
		if (wrong.empty())
			wrong = std::string(what) + " ended in a " + outcome;
	}
	double slowest = 0;
	std::string last;
	void note(const std::string& text)
	{
		last = text;
		rep.trace(text);
	}

	static std::string shape(const J& d)
	{
		if (d.k != J::Map || !d.get("data"))
			return "a document without data";
		for (auto& e : d.m)
			if (e.first != "data" && e.first != "errors")
				return "a document with " + e.first;
		if (auto e = d.get("errors"))
		{
			if (e->k != J::List || e->l.empty())
				return "a document with empty errors";
			for (auto& x : e->l)
				if (!x.get("message") || x.get("message")->k != J::Str)
					return "an error without a message";
		}
		return "";
	}

	void request()
	{
		auto text = document();
		auto vars = variables();
		auto op = operation();
		note(text + "\noperation: " + op + "\nvariables: " + json(vars));
		rep.note(text);
		rep.sample(text.substr(0, 300));
		auto state = std::make_shared<State>("S");
		auto launch = r.pct(80) ? std::launch::deferred : std::launch::async;
		peg::ast ast;
		auto parsed = guard("parse", [&] { ast = peg::parseString(text); });
		only(parsed, "parsing", { "result", "parse_error" });
#ifdef P01_SCHEMAS
		if (r.pct(15))
			only(guard("parse schema", [&] { peg::parseSchemaString(text); }), "parsing a schema", { "result", "parse_error" });
#endif
		if (parsed != "result" || !wrong.empty())
			return;
		// The copy shares the text; the original may go.
		if (r.pct(20))
		{
			auto copy = std::make_unique<peg::ast>(ast);
			ast = {};
			ast = *copy;
		}
		bool accepted = false;
		if (r.pct(40))
			only(guard("validate",
					 [&] {
						 auto errors = s.svc.svc->validate(ast);
						 accepted = errors.empty();
						 auto e = fromValue(service::buildErrorValues(std::move(errors)));
						 if (e.k != J::List)
							 wrong = "errors which aren't a list";
					 }),
				"validating",
				{ "result" });
		if (!wrong.empty())
			return;
		if (r.pct(_case.op && _case.op->kind == "subscription" ? 60 : 8))
		{
			std::vector<std::string> got;
			service::SubscriptionKey key = 0;
			auto how = guard("subscribe", [&] {
				key = s.svc.svc->subscribe({ state, std::move(ast), std::string(op), toValue(vars) }, [&](std::future<response::Value> f) {
					guard("event", [&] {
						auto w = shape(fromValue(f.get()));
						if (!w.empty())
							wrong = "event: " + w;
					});
				});
			});
			only(how, "subscribing", { "result", "schema_exception", "logic_error" });
			if (how == "result")
			{
				if (r.pct(80))
					deliver(launch);
				if (r.pct(70))
					guard("unsubscribe", [&] { s.svc.svc->unsubscribe(key); });
				else
					keys.push_back(key);
			}
			return;
		}
		auto how = guard("resolve", [&] {
			// Sometimes the last reference to a service goes before the answer is taken.
			auto svc = r.pct(10) ? makeService(s.ctx, true, s.svc.schema).svc : s.svc.svc;
			auto f = svc->resolve(launch, state, ast, op, toValue(vars));
			svc.reset();
			if (r.pct(5))
				return; // nobody is interested
			auto v = f.get();
			auto w = shape(fromValue(v));
			auto text2 = response::toJSON(std::move(v));
			if (w.empty() && text2.substr(0, 8) != "{\"data\":")
				w = "a document which begins with " + text2.substr(0, 20);
			if (!w.empty())
				wrong = "resolve: " + w;
		});
		only(how, "resolving", { "result" });
		if (r.pct(20))
		{
			note("again: " + text + "\noperation: " + op + "\nvariables: " + json(vars));
			only(guard("resolve again",
					 [&] {
						 auto f = s.svc.svc->resolve(launch, state, ast, op, toValue(vars));
						 f.get();
					 }),
				"resolving again",
				{ "result" });
		}
	}
	std::vector<service::SubscriptionKey> keys;
	void deliver(std::launch launch)
	{
		for (auto& f : s.ctx->model->type(s.ctx->model->subscription).fields)
			only(guard("deliver", [&] { s.svc.svc->deliver(launch, f.name, [](response::MapType::const_reference) { return true; }, [](response::MapType::const_reference) { return true; }, {}); }),
				"delivering",
				{ "result" });
	}

	void decoders()
	{
		std::string t;
		switch (r.below(4))
		{
			case 0: t = bytes(r.below(30)); break;
			case 1: t = soup(); break;
			case 2: t = json(junk(5)); break;
			default: t = mutate(json(junk(5)));
		}
		note("decoders: " + t);
		only(guard("parseJSON",
				 [&] {
					 auto v = response::parseJSON(t);
					 response::Value copy(v);
					 response::toJSON(std::move(copy));
				 }),
			"parsing JSON",
			{ "result", "runtime_error" });
		static const std::string alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_ \n";
		std::string e;
		for (size_t n = r.below(24); n; --n)
			e += r.pct(95) ? alphabet[r.below(alphabet.size())] : (char)r.below(256);
		note("decoders: " + quote(e));
		only(guard("fromBase64",
				 [&] {
					 auto v = internal::Base64::fromBase64(e);
					 internal::Base64::toBase64(v);
				 }),
			"decoding",
			{ "result", "logic_error" });
	}

private:
	Case _case;
};

void hostile(Report& rep)
{
	forCases(rep, [&](long, uint64_t seed) {
		Hostile h(rep, seed);
		if (h.r.pct(40))
			h.s.ctx->world.faultPct = (int)h.r.below(30);
		if (h.r.pct(30))
			h.s.ctx->deliverySeed = h.r.next();
		for (int i = 0; i < 40 && h.wrong.empty(); ++i)
		{
			if (h.r.pct(15))
				h.decoders();
			else
				h.request();
		}
		if (h.slowest > 20)
			h.wrong = "an answer took " + std::to_string(h.slowest) + " s";
		if (!h.wrong.empty())
		{
			rep.violation(h.wrong, h.last + "\n" + summary(*h.s.model));
		}
	});
}

Register r01("P01", hostile);

} // namespace
} // namespace vh
