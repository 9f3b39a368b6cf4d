// P14: introspection queries against what the model declares.
#include "meta.h"
#include "run.h"

namespace vh {
namespace {

struct Generator
{
	const Model& m;
	const Model& meta;
	Rng& r;
	Doc d;
	int aliases = 0, budget = 0;

	std::string someType()
	{
		std::vector<std::string> names;
		for (auto& t : m.types)
			names.push_back(t->name);
		if (r.pct(15))
			for (auto& t : meta.types)
				names.push_back(t->name);
		if (r.pct(15))
			for (auto& t : m.builtin)
				names.push_back(t->name);
		return r.pick(names);
	}
	std::vector<Sel> sels(const std::string& parent, int depth)
	{
		std::vector<Sel> v;
		auto& t = meta.type(parent);
		std::set<std::string> keys;
		for (size_t n = 1 + r.below(5); n || v.empty(); n -= n ? 1 : 0)
		{
			if (--budget < 0)
				depth = 0;
			Sel s;
			if (r.pct(8))
				s.name = "__typename";
			else
			{
				auto& f = t.fields[r.below(t.fields.size())];
				auto composite = f.type.name.compare(0, 2, "__") == 0 && meta.type(f.type.name).kind == Kind::Object;
				if (composite && depth <= 0)
				{
					if (--n > 100)
						n = 0;
					if (v.empty())
						s.name = "__typename";
					else
						continue;
				}
				else
				{
					s.name = f.name;
					if (!f.args.empty() && r.pct(70))
						s.args.emplace_back("includeDeprecated", r.pct(60) ? J::boolean(r.pct(70)) : r.pct(30) ? J() : J::var(r.pct(50) ? "yes" : "no"));
					if (composite)
					{
						s.hasSub = true;
						// Lists of types in lists of types get big.
						s.sub = sels(f.type.name, depth - (f.type.isList() ? 2 : 1));
					}
				}
			}
			if (r.pct(30) || s.hasSub || !s.args.empty() || keys.count(s.name))
				s.alias = "k" + std::to_string(aliases++);
			keys.insert(s.key());
			v.push_back(s);
		}
		if (r.pct(15))
		{
			Sel in;
			in.k = Sel::Inline;
			if (r.pct(60))
				in.on = parent;
			in.hasSub = true;
			in.sub = std::move(v);
			v = { in };
		}
		else if (r.pct(15))
		{
			Frag f;
			f.name = "F" + std::to_string(d.frags.size());
			f.on = parent;
			f.sels = std::move(v);
			Sel sp;
			sp.k = Sel::Spread;
			sp.name = f.name;
			v = { sp };
			d.frags.push_back(f);
			d.order.insert(d.order.begin() + (std::ptrdiff_t)r.below(d.order.size() + 1), -(int)d.frags.size());
		}
		return v;
	}
	static bool uses(const std::vector<Sel>& s, const std::string& v)
	{
		for (auto& e : s)
		{
			for (auto& a : e.args)
				if (a.second.k == J::Var && a.second.s == v)
					return true;
			if (uses(e.sub, v))
				return true;
		}
		return false;
	}
	void make(J& vars)
	{
		Op op;
		d.order.push_back(0);
		for (size_t n = 1 + r.below(3); n; --n)
		{
			budget = 40;
			Sel s;
			s.alias = "root" + std::to_string(n);
			s.hasSub = true;
			if (r.pct(45))
			{
				s.name = "__schema";
				s.sub = sels("__Schema", 3 + (int)r.below(5));
			}
			else
			{
				s.name = "__type";
				auto name = someType();
				if (r.pct(75))
					s.args.emplace_back("name", J::str(name));
				else
				{
					s.args.emplace_back("name", J::var("name" + std::to_string(n)));
					op.vars.push_back({ "name" + std::to_string(n), { "N", "String" }, std::nullopt, {} });
					vars.add("name" + std::to_string(n), J::str(name));
				}
				s.sub = sels("__Type", 4 + (int)r.below(5));
			}
			op.sels.push_back(s);
		}
		for (auto v : { "yes", "no" })
		{
			bool used = uses(op.sels, v);
			for (auto& f : d.frags)
				used = used || uses(f.sels, v);
			if (used)
			{
				op.vars.push_back({ v, { "", "Boolean" }, std::nullopt, {} });
				vars.add(v, J::boolean(v == std::string("yes")));
			}
		}
		d.ops.push_back(op);
	}
};

std::string nameOf(const Sel& s, const J& vars)
{
	auto& v = s.args[0].second;
	return v.k == J::Var ? vars.get(v.s)->s : v.s;
}

void introspect(Report& rep)
{
	auto meta = metaModel();
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		SchemaOptions so;
		so.mutation = !r.pct(30);
		so.subscription = !r.pct(30);
		so.objects = 6;
		Scene s(r, so);
		// Introspection can be switched off.
		if (r.pct(5) && !supplied)
		{
			auto svc = makeService(s.ctx, true, buildSchema(*s.model, false));
			for (auto q : { "{ __schema { queryType { name } } }", "{ __type(name: \"Int\") { name } }" })
			{
				Request_ req;
				req.text = q;
				auto out = execute(svc, s.ctx, req, std::launch::deferred);
				++rep.evaluations;
				rep.count("without introspection");
				if (out.threw || !out.data() || out.data()->k != J::Null || !out.errors())
					rep.violation("introspection is possible without the introspection types: " + canon(out.document), summary(*s.model));
			}
		}
		for (int k = 0; k < 8; ++k)
		{
			Doc d;
			J vars = J::map();
			Request_ req;
			if (k == 0)
			{
				d = fullIntrospectionDoc();
				req.text = fullIntrospectionQuery();
			}
			else
			{
				Generator g { *s.model, *meta, r, {}, 0, 0 };
				g.make(vars);
				d = std::move(g.d);
				Layout l;
				l.fancy = (int)r.below(2);
				req.text = printDoc(d, r, l);
				req.vars = vars;
			}
			auto desc = req.describe() + "\n" + summary(*s.model);
			rep.trace(desc);
			Introspector in(*s.model, *meta, d, vars);
			auto expected = J::map();
			for (auto& f : d.ops[0].sels)
				expected.add(f.key(), f.name == "__schema" ? in.schema(f.sub) : in.type({ "", nameOf(f, vars) }, f.sub));
			if (in.tooBig)
			{
				rep.count("too big");
				continue;
			}
			auto out = execute(s.svc, s.ctx, req, r.pct(90) ? std::launch::deferred : std::launch::async);
			++rep.evaluations;
			rep.note(desc);
			rep.sample(req.text + "\n=> " + canon(out.document).substr(0, 400));
			rep.count("objects compared", in.nodes);
			for (auto& e : in.seen)
				rep.count(e.first, e.second);
			std::string wrong;
			if (out.threw)
				wrong = "an exception: " + out.exception;
			else if (out.errors() || !out.data())
				wrong = "errors: " + canon(out.document).substr(0, 1000);
			else
			{
				Outcome got;
				got.document = J::map();
				got.document.add("data", Introspector::normal(*out.data(), d.ops[0].sels, d));
				Expected e;
				e.data = Introspector::normal(expected, d.ops[0].sels, d);
				wrong = compareData(e, got);
			}
			if (!wrong.empty())
			{
				rep.violation(wrong, desc);
				return;
			}
		}
	});
}

Register r14("P14", introspect);

} // namespace
} // namespace vh
