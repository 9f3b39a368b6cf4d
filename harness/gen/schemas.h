// Random schemas for the generators: like randomModel, with more of what only matters there.
#pragma once
#include "../engine/model.h"

namespace vh {

inline void renameType(Model& m, const std::string from, const std::string to)
{
	if (m.byName.count(to) || !m.byName.count(from))
		return;
	auto t = m.byName.at(from);
	m.byName.erase(from);
	m.byName[to] = t;
	t->name = to;
	auto fix = [&](std::string& s) {
		if (s == from)
			s = to;
	};
	auto inputs = [&](std::vector<InVal>& v) {
		for (auto& i : v)
			fix(i.type.name);
	};
	for (auto& e : m.types)
	{
		for (auto& f : e->fields)
		{
			fix(f.type.name);
			inputs(f.args);
		}
		inputs(e->inputs);
		for (auto& i : e->ifaces)
			fix(i);
		for (auto& i : e->members)
			fix(i);
	}
	for (auto& d : m.dirs)
		inputs(d.args);
	fix(m.query);
	fix(m.mutation);
	fix(m.subscription);
}

// The rule by which names become C++ names.
inline std::string cppName(const std::string& n)
{
	std::string r;
	for (auto c : n)
		if (c != '_' || r.empty() || r.back() != '_')
			r += c;
	if (r.size() > 1 && r[0] == '_' && isupper((unsigned char)r[1]))
		r = r.substr(1);
	return r;
}

inline std::unique_ptr<Model> loaderModel(Rng& r)
{
	SchemaOptions so;
	so.mutation = r.pct(70);
	so.subscription = r.pct(70);
	auto mp = randomModel(r, so);
	auto& m = *mp;
	if (r.pct(30))
	{
		std::vector<std::string> names;
		for (auto& t : m.types)
			names.push_back(t->name);
		auto n = r.pick(names);
		static const std::vector<std::string> to { "With__Two", "__Three___", "_Capital", "_lower", "a__b__c", "type_", "Query1", "extend", "input", "Schema", "implements" };
		renameType(m, n, r.pick(to));
	}
	// Types with the default names of the operations which aren't bound to them.
	static const std::vector<std::string> defaults { "Query", "Mutation", "Subscription" };
	if (r.pct(20))
	{
		auto n = r.pick(defaults);
		for (auto& t : m.types)
			if (t->kind != Kind::Scalar && t->name != m.query && t->name != m.mutation && t->name != m.subscription)
			{
				renameType(m, t->name, n);
				break;
			}
	}
	static const std::vector<std::string> locs { "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" };
	for (auto& d : m.dirs)
		for (auto& l : locs)
			if (r.pct(10))
				d.locs.push_back(l);
	for (auto& d : m.dirs)
		r.shuffle(d.locs);
	// Null is the same as no default.
	auto nulls = [&](std::vector<InVal>& v) {
		for (auto& i : v)
			if (!i.def && !i.type.nonNull() && r.pct(10))
				i.def = J();
	};
	for (auto& t : m.types)
	{
		nulls(t->inputs);
		for (auto& f : t->fields)
		{
			nulls(f.args);
			if (f.depr && r.pct(30))
				f.depr = "No longer supported";
		}
		for (auto& v : t->values)
			if (v.depr && r.pct(30))
				v.depr = "No longer supported";
	}
	for (auto& d : m.dirs)
		nulls(d.args);
	return mp;
}

} // namespace vh
