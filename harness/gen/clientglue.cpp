// P19: a generated client against random variables, responses and errors.
#include "../common/report.h"
#include "clientglue.h"
#include "../parse/dump.h"
#include "client.h"
#include "graphqlservice/JSONResponse.h"

namespace vh {

extern const ClientUnderTest clientUnderTest;

namespace {

// What the document says, without its layout.
std::string dump(const peg::ast& ast)
{
	Dump d;
	d.positions = false;
	for (auto& n : ast.root->children)
		d.node(*n);
	return d.o;
}

struct Responses
{
	const ClientCase& c;
	Rng r;
	long badAt = -1; // the leaf which doesn't conform
	long leaves = 0;
	bool bad = false;
	long budget = 400;
	std::string badWhat;

	bool omitted(const std::vector<Dir>& dirs)
	{
		for (auto& d : dirs)
			if ((d.name == "skip" || d.name == "include") && r.pct(40))
				return true;
		return false;
	}
	struct Entry
	{
		TR type;
		std::vector<const std::vector<Sel>*> sub;
	};
	void collect(const std::string& object, const std::vector<Sel>& sels, std::vector<std::pair<std::string, Entry>>& into)
	{
		auto matches = [&](const std::string& on) {
			if (on.empty() || on == object)
				return true;
			if (!c.model->byName.count(object))
				return false;
			auto l = c.model->conditions(object);
			return std::find(l.begin(), l.end(), on) != l.end();
		};
		for (auto& s : sels)
		{
			if (omitted(s.dirs))
				continue;
			if (s.k == Sel::Spread)
			{
				auto f = c.doc.frag(s.name);
				if (matches(f->on))
					collect(object, f->sels, into);
				continue;
			}
			if (s.k == Sel::Inline)
			{
				if (matches(s.on))
					collect(object, s.sub, into);
				continue;
			}
			auto it = std::find_if(into.begin(), into.end(), [&](auto& e) { return e.first == s.key(); });
			if (it == into.end())
			{
				into.push_back({ s.key(), { c.fieldType(object, s.name), {} } });
				it = into.end() - 1;
			}
			it->second.sub.push_back(&s.sub);
		}
	}
	J object(const std::string& name, const std::vector<const std::vector<Sel>*>& sels)
	{
		std::vector<std::pair<std::string, Entry>> entries;
		for (auto s : sels)
			collect(name, *s, entries);
		if (r.pct(20))
			r.shuffle(entries);
		auto o = J::map();
		for (auto& e : entries)
			o.add(e.first, e.first == "__typename" ? leaf({ "N", "String" }) : value(e.second.type, e.second.sub));
		if (r.pct(5))
			o.add("not_selected", J::integer(1));
		return o;
	}
	J value(const TR& t, const std::vector<const std::vector<Sel>*>& sub)
	{
		--budget;
		if (t.isList())
		{
			if (!t.nonNull() && r.pct(12))
				return J();
			auto l = J::list();
			for (size_t n = budget > 0 ? r.below(4) : r.below(2); n; --n)
				l.l.push_back(value(t.item(), sub));
			return l;
		}
		if (!c.composite(t.name))
			return leaf(t);
		if (!t.nonNull() && (r.pct(12) || budget < -300))
			return J();
		auto types = c.model->byName.count(t.name) ? c.model->possible(t.name) : std::vector<std::string> { t.name };
		if (types.empty())
			return J();
		return object(r.pick(types), sub);
	}
	J leaf(const TR& t)
	{
		if (leaves++ == badAt)
			if (auto b = wrong(t))
				return *b;
		if (!t.nonNull() && r.pct(12))
			return J();
		auto& d = c.type(t.name);
		if (d.kind == Kind::Enum)
			return J::enumv(d.values[r.below(d.values.size())].name);
		// Scalars named like the built-in types, and all others.
		return randomConst(*c.model, r, { "N", t.name }, 2, false);
	}
	std::optional<J> wrong(const TR& t)
	{
		auto& d = c.type(t.name);
		std::vector<J> all { J::list(), J::map() };
		if (t.nonNull())
			all.push_back(J());
		auto add = [&](std::initializer_list<J> l) { all.insert(all.end(), l); };
		if (d.kind == Kind::Enum)
		{
			add({ J::integer(0), J::boolean(true), J::real(1.5), J::enumv("NO_SUCH_VALUE"), J::enumv(d.values[0].name + "x"), J::str("not a name") });
			auto other = d.values[0].name;
			for (auto& ch : other)
				ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch));
			if (std::none_of(d.values.begin(), d.values.end(), [&](auto& v) { return v.name == other; }))
				all.push_back(J::enumv(other));
		}
		else if (t.name == "Int")
			add({ J::real(1.5), J::str("1"), J::boolean(true) });
		else if (t.name == "Float")
			add({ J::str("1.0"), J::boolean(false) });
		else if (t.name == "String")
			add({ J::integer(3), J::real(0.5), J::boolean(true) });
		else if (t.name == "Boolean")
			add({ J::integer(1), J::str("true"), J::real(0) });
		else if (t.name == "ID")
			add({ J::integer(1), J::boolean(true), J::str("***"), J::str("A"), J::real(2.5) });
		else
			return std::nullopt;
		bad = true;
		auto j = r.pick(all);
		badWhat = canon(j) + " as " + printTR(t);
		return j;
	}
	J data() { return object(c.model->root(c.op->kind), { &c.op->sels }); }
};

// What the client should make of it.
J expectedMember(const ClientCase& c, const TR& t, const std::vector<Member>& sub, bool composite, const J* j);
J expectedRecord(const ClientCase& c, const std::vector<Member>& members, const J& j)
{
	auto o = J::map();
	for (auto& m : members)
		o.add(m.key, expectedMember(c, m.type, m.sub, m.composite, j.k == J::Map ? j.get(m.key) : nullptr));
	return o;
}
J expectedMember(const ClientCase& c, const TR& t, const std::vector<Member>& sub, bool composite, const J* j)
{
	if (!t.nonNull() && (!j || j->k == J::Null))
		return J();
	if (t.isList())
	{
		auto l = J::list();
		if (j)
			for (auto& e : j->l)
				l.l.push_back(expectedMember(c, t.item(), sub, composite, &e));
		return l;
	}
	if (composite)
		return expectedRecord(c, sub, j ? *j : J());
	auto& d = c.type(t.name);
	if (!j)
	{
		if (d.kind == Kind::Enum)
			return J::enumv(d.values[0].name);
		return t.name == "Int" ? J::integer(0) : t.name == "Float" ? J::real(0) : t.name == "Boolean" ? J::boolean(false) : t.name == "String" || t.name == "ID" ? J::str("") : J();
	}
	if (t.name == "Float" && j->k == J::Int)
		return J::real((double)j->i);
	return *j;
}
J expectedVariable(const ClientCase& c, const TR& t, const J* j)
{
	if (!t.nonNull() && (!j || j->k == J::Null))
		return J();
	if (t.isList())
	{
		auto l = J::list();
		for (auto& e : j->l)
			l.l.push_back(expectedVariable(c, t.item(), &e));
		return l;
	}
	auto& d = c.type(t.name);
	if (d.kind == Kind::Input)
	{
		auto o = J::map();
		for (auto& f : d.inputs)
			o.add(f.name, expectedVariable(c, f.type, j->get(f.name)));
		return o;
	}
	if (t.name == "Float" && j->k == J::Int)
		return J::real((double)j->i);
	return *j;
}
// Every member which isn't optional gets a value.
J givenVariable(const ClientCase& c, Rng& r, const TR& t, int depth)
{
	if (!t.nonNull() && r.pct(20))
		return J();
	if (t.isList())
	{
		auto l = J::list();
		for (size_t n = r.below(4); n; --n)
			l.l.push_back(givenVariable(c, r, t.item(), depth - 1));
		return l;
	}
	auto& d = c.type(t.name);
	if (d.kind == Kind::Input)
	{
		auto o = J::map();
		for (auto& f : d.inputs)
			if (f.type.nonNull() || r.pct(depth > 0 ? 70 : 0))
				o.add(f.name, givenVariable(c, r, f.type, depth - 1));
		return o;
	}
	return randomConst(*c.model, r, { "N", t.name }, 2);
}

std::string firstDifference(const J& a, const J& b, const std::string& at)
{
	if (a.k == J::Map && b.k == J::Map && a.m.size() == b.m.size())
		for (size_t i = 0; i < a.m.size(); ++i)
		{
			if (a.m[i].first != b.m[i].first)
				return at + ": " + a.m[i].first + " and " + b.m[i].first;
			if (canon(a.m[i].second) != canon(b.m[i].second))
				return firstDifference(a.m[i].second, b.m[i].second, at + "/" + a.m[i].first);
		}
	if (a.k == J::List && b.k == J::List && a.l.size() == b.l.size())
		for (size_t i = 0; i < a.l.size(); ++i)
			if (canon(a.l[i]) != canon(b.l[i]))
				return firstDifference(a.l[i], b.l[i], at + "/" + std::to_string(i));
	return at + ": " + canon(a).substr(0, 300) + " instead of " + canon(b).substr(0, 300);
}
void same(Report& rep, const J& got, const J& expected, const std::string& what, const std::string& detail)
{
	auto a = sorted(got), b = sorted(expected);
	if (canon(a) != canon(b))
		rep.violation(what + ": " + firstDifference(a, b, ""), detail);
}

J randomErrors(Rng& r, J& expected)
{
	auto l = J::list();
	expected = J::list();
	for (size_t n = 1 + r.below(4); n; --n)
	{
		auto e = J::map();
		auto message = randomText(r);
		auto locations = J::list(), path = J::list();
		for (size_t k = r.below(3); k; --k)
		{
			auto x = J::map();
			auto line = J::integer(1 + r.below(5000)), column = J::integer(1 + r.below(300));
			if (r.pct(50))
			{
				x.add("line", line);
				x.add("column", column);
			}
			else
			{
				x.add("column", column);
				x.add("line", line);
			}
			locations.l.push_back(x);
		}
		for (size_t k = r.below(5); k; --k)
			path.l.push_back(r.pct(60) ? J::str(randomText(r)) : J::integer(r.below(1000)));
		std::vector<std::string> order { "message", "locations", "path", "extensions" };
		r.shuffle(order);
		bool hasLocations = r.pct(75), hasPath = r.pct(75);
		for (auto& k : order)
			if (k == "message")
				e.add(k, J::str(message));
			else if (k == "locations" && hasLocations)
				e.add(k, locations);
			else if (k == "path" && hasPath)
				e.add(k, path);
			else if (k == "extensions" && r.pct(30))
			{
				auto x = J::map();
				x.add("message", J::str("other"));
				x.add("path", J::integer(3));
				e.add(k, x);
			}
		l.l.push_back(e);
		auto x = J::map();
		x.add("message", J::str(message));
		x.add("locations", hasLocations ? locations : J::list());
		x.add("path", hasPath ? path : J::list());
		expected.l.push_back(x);
	}
	return l;
}
J fromErrors(const std::vector<client::Error>& errors)
{
	auto l = J::list();
	for (auto& e : errors)
	{
		auto x = J::map();
		x.add("message", J::str(e.message));
		auto locations = J::list(), path = J::list();
		for (auto& a : e.locations)
		{
			auto y = J::map();
			y.add("line", J::integer(a.line));
			y.add("column", J::integer(a.column));
			locations.l.push_back(y);
		}
		for (auto& s : e.path)
			path.l.push_back(std::holds_alternative<int>(s) ? J::integer(std::get<int>(s)) : J::str(std::get<std::string>(s)));
		x.add("locations", locations);
		x.add("path", path);
		l.l.push_back(x);
	}
	return l;
}

void run(Report& rep)
{
	auto c = makeClientCase(rep.opt.seed);
	auto about = c.sdl + "\n" + c.request + "\n";
	rep.count("fields of responses", (long)c.members.size());
	rep.count("variables", (long)c.op->vars.size());
	rep.count("input types", (long)c.inputs.size());
	rep.count("enum types", (long)c.enums.size());
	rep.count(c.op->kind);
	// The document.
	{
		auto ast = peg::parseString(c.request);
		std::string expected = dump(ast), text;
		++rep.evaluations;
		try
		{
			text = dump(peg::parseString(clientUnderTest.text()));
		}
		catch (const std::exception& ex)
		{
			rep.violation(std::string("the request text can't be parsed: ") + ex.what(), clientUnderTest.text());
			return;
		}
		auto object = dump(clientUnderTest.object());
		if (text != expected)
			rep.violation("the request text is another document", clientUnderTest.text() + "\n" + about);
		if (object != expected)
			rep.violation("the request object is another document", about);
		if (&clientUnderTest.object() != &clientUnderTest.object() || !clientUnderTest.object().validated)
			rep.violation("the request object isn't validated, or another one each time", about);
	}
	for (long i = 0; i < rep.opt.cases; ++i)
	{
		rep.begin(i);
		Rng r(mix(rep.opt.seed * 31 + 7) ^ mix((uint64_t)i));
		// Variables.
		if (clientUnderTest.serialize)
		{
			auto given = J::map(), expected = J::map();
			for (auto& v : c.op->vars)
			{
				auto j = givenVariable(c, r, v.type, 3);
				expected.add(v.name, expectedVariable(c, v.type, &j));
				given.add(v.name, j);
			}
			auto got = clientUnderTest.serialize(given);
			++rep.evaluations;
			rep.note("v" + canon(given));
			rep.count("variables serialized");
			same(rep, got, expected, "serialized variables", canon(given) + "\n" + about);
		}
		// Responses.
		auto seed = r.next();
		bool direct = r.pct(50);
		Responses good { c, Rng(seed) };
		auto data = good.data();
		auto leaves = good.leaves;
		auto value = [&](const J& j) { return direct ? toValue(j) : response::parseJSON(json(j)); };
		auto detail = json(data) + "\n" + about;
		++rep.evaluations;
		rep.note("r" + canon(data));
		rep.count("responses parsed");
		rep.count("leaves of responses", leaves);
		rep.sample(json(data));
		auto whole = J::map(), errors = J();
		bool hasErrors = r.pct(50), dataFirst = r.pct(50);
		auto list = hasErrors ? randomErrors(r, errors) : J();
		if (dataFirst)
			whole.add("data", data);
		if (hasErrors)
			whole.add("errors", list);
		if (!dataFirst)
			whole.add("data", data);
		try
		{
			auto parts = client::parseServiceResponse(value(whole));
			if (hasErrors)
			{
				same(rep, fromErrors(parts.errors), errors, "errors of a response", json(whole));
				rep.count("errors parsed", (long)list.l.size());
			}
			else if (!parts.errors.empty())
				rep.violation("errors of a response without errors", json(whole));
			auto got = clientUnderTest.parse(std::move(parts.data));
			same(rep, got, expectedRecord(c, c.members, data), "response", detail);
		}
		catch (const std::exception& ex)
		{
			rep.violation(std::string("a conforming response is refused: ") + ex.what(), detail);
		}
		// Null data.
		if (i % 8 == 0)
		{
			auto none = J::map();
			if (r.pct(50))
				none.add("data", J());
			none.add("errors", randomErrors(r, errors));
			auto parts = client::parseServiceResponse(value(none));
			same(rep, fromErrors(parts.errors), errors, "errors without data", json(none));
			if (parts.data.type() != response::Type::Null)
				rep.violation("data of a response without data", json(none));
			++rep.evaluations;
		}
		// One leaf which doesn't conform.
		for (int k = 0; k < 3 && leaves; ++k)
		{
			Responses wrong { c, Rng(seed) };
			wrong.badAt = (long)r.below((size_t)leaves);
			auto other = wrong.data();
			if (!wrong.bad)
				continue;
			++rep.evaluations;
			rep.count("responses with a wrong leaf");
			try
			{
				clientUnderTest.parse(value(other));
				rep.violation("a response with " + wrong.badWhat + " is accepted", json(other) + "\n" + about);
			}
			catch (const std::exception&)
			{
			}
		}
		if (rep.violations.size() >= 5)
			break;
	}
}

} // namespace
} // namespace vh

int main(int argc, char** argv)
{
	vh::Report rep;
	rep.opt = vh::parseOptions(argc, argv);
	vh::run(rep);
	return rep.finish();
}
