// P17: Base64 and identifiers, directly, through values, and through requests.
#include "../common/report.h"
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/JSONResponse.h"
#include "graphqlservice/internal/Base64.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/IntrospectionSchema.h"
using namespace graphql;
using namespace vh;
using namespace std::literals;
using response::IdType;
using response::Value;
using B = internal::Base64;

namespace {

std::string str(const IdType& v) { return std::string(v.begin(), v.end()); }
IdType id(const std::string& s) { return IdType(s.begin(), s.end()); }

// Like unbase64, but the padding may be omitted altogether.
std::optional<std::string> reference(std::string t)
{
	if (t.find('=') == std::string::npos)
	{
		if (t.size() % 4 == 1)
			return std::nullopt;
		while (t.size() % 4)
			t += '=';
	}
	return unbase64(t);
}

struct Obj : service::Object
{
	explicit Obj(service::ResolverMap&& r)
		: Object({ "Query"sv }, std::move(r))
	{
	}
};
struct Svc : service::Request
{
	Svc(service::TypeMap&& t, const std::shared_ptr<schema::Schema>& s)
		: Request(std::move(t), s)
	{
	}
};
using service::TypeModifier;

std::vector<std::string> seen;

std::shared_ptr<Svc> service_()
{
	auto s = std::make_shared<schema::Schema>(false);
	introspection::AddTypesToSchema(s);
	auto q = schema::ObjectType::Make("Query"sv, ""sv);
	s->AddType("Query"sv, q);
	auto ID = s->LookupType("ID");
	auto NN = [&](auto t) { return s->WrapType(introspection::TypeKind::NON_NULL, t); };
	auto LS = [&](auto t) { return s->WrapType(introspection::TypeKind::LIST, t); };
	q->AddFields({ schema::Field::Make("one"sv, ""sv, std::nullopt, NN(ID), { schema::InputValue::Make("v"sv, ""sv, NN(ID), ""sv) }),
		schema::Field::Make("many"sv, ""sv, std::nullopt, LS(ID), { schema::InputValue::Make("v"sv, ""sv, LS(ID), ""sv) }) });
	s->AddQueryType(q);
	auto o = std::make_shared<Obj>(service::ResolverMap {
		{ "one"sv, [](service::ResolverParams&& p) {
			 auto v = service::IdArgument::require("v", p.arguments);
			 seen.push_back(str(v));
			 return service::IdResult::convert(std::move(v), std::move(p));
		 } },
		{ "many"sv, [](service::ResolverParams&& p) {
			 auto v = service::IdArgument::require<TypeModifier::Nullable, TypeModifier::List, TypeModifier::Nullable>("v", p.arguments);
			 if (v)
				 for (auto& e : *v)
					 seen.push_back(e ? str(*e) : "null"s);
			 return service::IdResult::convert<TypeModifier::Nullable, TypeModifier::List, TypeModifier::Nullable>(std::move(v), std::move(p));
		 } },
	});
	return std::make_shared<Svc>(service::TypeMap { { "query"sv, o } }, s);
}

} // namespace

int main(int argc, char** argv)
{
	Report rep;
	rep.opt = parseOptions(argc, argv);
	auto decode = [&](const std::string& text) {
		auto want = reference(text);
		std::optional<std::string> got;
		std::string error;
		try
		{
			got = str(B::fromBase64(text));
		}
		catch (const std::logic_error& e)
		{
			error = e.what();
		}
		++rep.evaluations;
		if (got != want)
			rep.violation("decoding " + quote(text) + " gave " + (got ? quote(*got) : "the error " + error) + " instead of " + (want ? quote(*want) : "an error"), "");
		rep.count(want ? "texts decoded" : "texts refused");
	};
	auto encode = [&](const std::string& bytes) {
		auto text = B::toBase64(id(bytes));
		++rep.evaluations;
		if (text != base64(bytes))
			rep.violation("encoding " + quote(bytes) + " gave " + quote(text), "");
		auto back = B::fromBase64(text);
		if (str(back) != bytes)
			rep.violation("decoding the encoded bytes " + quote(bytes) + " gave " + quote(str(back)), text);
		Value v(id(bytes));
		if (v.get<std::string>() != text || str(v.get<IdType>()) != bytes)
			rep.violation("Value of " + quote(bytes), v.get<std::string>());
		Value w(response::Type::String);
		w.set<IdType>(id(bytes));
		if (!(v == w))
			rep.violation("Value::set of " + quote(bytes), text);
		if (str(w.release<IdType>()) != bytes)
			rep.violation("Value::release of " + quote(bytes), text);
		rep.count("byte strings round tripped");
	};
	// Every short byte string, and every short text over the characters which matter.
	if (rep.opt.only < 0)
	{
		std::vector<std::string> all { "" };
		for (int a = 0; a < 256; ++a)
		{
			all.push_back(std::string(1, (char)a));
			for (int b = 0; b < 256; ++b)
				all.push_back(std::string { (char)a, (char)b });
		}
		for (size_t k = rep.opt.shard; k < all.size(); k += rep.opt.shards)
			encode(all[k]);
		std::string alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_. \n";
		alphabet += '\0';
		alphabet += (char)0xff;
		alphabet += (char)0x80;
		size_t n = alphabet.size(), total = n * n * n;
		for (size_t k = rep.opt.shard; k < total; k += rep.opt.shards)
		{
			std::string t { alphabet[k % n], alphabet[k / n % n], alphabet[k / n / n] };
			if (k % 97 == 0)
				rep.note(t);
			decode(t);
			if (k < n * n)
				decode(t.substr(0, 2));
			if (k < n)
				decode(t.substr(0, 1));
		}
		// The last two characters of a quantum, with each kind of end.
		for (size_t k = rep.opt.shard; k < n * n; k += rep.opt.shards)
		{
			std::string t { 'Q', 'U', alphabet[k % n], alphabet[k / n] };
			decode(t);
			decode("AAAA" + t);
			decode(t + "=");
			decode(t + "==");
			decode(t + t);
			decode(t + "A");
			decode(std::string { 'Q', alphabet[k % n], alphabet[k / n], '=' });
		}
		decode("");
	}
	auto svc = service_();
	auto request = [&](const std::string& text, const std::string& vars, std::string& json) {
		auto ast = peg::parseString(text);
		json = response::toJSON(svc->resolve(std::launch::deferred, nullptr, ast, "", response::parseJSON(vars)).get());
	};
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		auto bytes = [&] {
			std::string s;
			for (size_t n = r.pct(10) ? r.below(300) : r.below(20); n; --n)
				s += (char)(r.pct(20) ? 0 : r.pct(20) ? 0xff : r.below(256));
			return s;
		};
		for (int k = 0; k < 20; ++k)
		{
			auto b = bytes();
			rep.note(b);
			encode(b);
			auto t = base64(b);
			decode(t);
			for (int m = 0; m < 5; ++m)
			{
				auto u = t;
				size_t at = r.below(u.size() + 1);
				switch (r.below(6))
				{
					case 0: u.insert(at, 1, (char)r.below(256)); break;
					case 1: u.insert(at, 1, '='); break;
					case 2: u.erase(at, 1 + r.below(3)); break;
					case 3:
						if (at < u.size())
							u[at] = (char)r.below(256);
						break;
					case 4: u += std::string(1 + r.below(4), '='); break;
					default:
						if (!u.empty())
							u[u.size() - 1 - r.below(std::min<size_t>(3, u.size()))] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef0123456789+/=-_"[r.below(47)];
				}
				decode(u);
			}
		}
		// Through requests: as a literal, as a variable, and as the result of another request.
		{
			std::vector<std::string> b;
			for (size_t n = 1 + r.below(4); n; --n)
				b.push_back(bytes());
			std::string lits, vars;
			J list = J::list(), wantMany = J::list();
			std::vector<std::string> want;
			for (auto& e : b)
			{
				lits += quote(base64(e)) + " ";
				wantMany.l.push_back(J::str(base64(e)));
				want.push_back(e);
			}
			std::string q, v = "{}";
			bool asVar = r.pct(50);
			J expect = J::map();
			if (asVar)
			{
				q = "query($a:ID!,$b:[ID]){one(v:$a) many(v:$b)}";
				J vs = J::map();
				vs.add("a", J::str(base64(b[0])));
				vs.add("b", wantMany);
				v = json(vs);
			}
			else
				q = "{one(v:" + quote(base64(b[0])) + ") many(v:[" + lits + "])}";
			expect.add("one", J::str(base64(b[0])));
			expect.add("many", wantMany);
			J doc = J::map();
			doc.add("data", expect);
			want.insert(want.begin(), b[0]);
			seen.clear();
			std::string out;
			request(q, v, out);
			++rep.evaluations;
			rep.count("requests");
			rep.sample(q + " " + v + " => " + out);
			if (seen != want)
				rep.violation("the accessors didn't receive the identifiers", q + " " + v + " => " + out);
			if (out != json(doc))
				rep.violation("the response is " + out + " instead of " + json(doc), q + " " + v);
			// Send the response's own text back.
			auto again = response::parseJSON(out);
			auto text = again["data"sv]["one"sv].get<std::string>();
			seen.clear();
			request("{one(v:" + quote(text) + ")}", "{}", out);
			if (seen.size() != 1 || seen[0] != b[0])
				rep.violation("an identifier from a response was not read back", q + " => " + out);
			// Invalid text never reaches the accessor.
			auto bad = base64(b[0]) + "=A"[r.below(2)];
			if (!reference(bad))
			{
				seen.clear();
				bool thrown = false;
				try
				{
					if (r.pct(50))
						request("{one(v:" + quote(bad) + ")}", "{}", out);
					else
						request("query($a:ID!){one(v:$a)}", "{\"a\":" + quote(bad) + "}", out);
				}
				catch (const std::exception&)
				{
					thrown = true;
				}
				rep.count("invalid identifiers sent");
				if (!seen.empty() || (!thrown && out.find("\"errors\"") == std::string::npos))
					rep.violation("an invalid identifier was accepted", bad + " => " + out);
			}
		}
	});
	return rep.finish();
}
