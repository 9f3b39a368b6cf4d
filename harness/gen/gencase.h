// A random schema with generator options, and the C++ names which the generated code should have.
#pragma once
#include "schemas.h"
#include "sdl.h"

namespace vh {

inline std::string capital(std::string n)
{
	n[0] = (char)toupper((unsigned char)n[0]);
	return n;
}

// Names have to stay apart from each other in C++.
inline bool cppDistinct(const Model& m)
{
	std::set<std::string> types { "Operations", "Object", "Request" };
	for (auto& t : m.types)
		if (!types.insert(cppName(t->name)).second)
			return false;
	auto args = [&](const std::vector<InVal>& v, bool members) {
		std::set<std::string> names;
		for (auto& a : v)
			if (!names.insert(capital(cppName(a.name))).second || (members && types.count(cppName(a.name))))
				return false;
		return true;
	};
	for (auto& t : m.types)
	{
		std::set<std::string> names;
		for (auto& f : t->fields)
			if (!names.insert(capital(cppName(f.name))).second || !args(f.args, false))
				return false;
		for (auto& v : t->values)
			if (!names.insert(cppName(v.name)).second)
				return false;
		if (!args(t->inputs, true))
			return false;
	}
	return true;
}

// Raw strings don't keep carriage returns.
inline void dropReturns(std::string& sdl, Model& m)
{
	auto drop = [](std::string& s) { s.erase(std::remove(s.begin(), s.end(), '\r'), s.end()); };
	auto inputs = [&](std::vector<InVal>& v) {
		for (auto& i : v)
			drop(i.defText);
	};
	drop(sdl);
	for (auto& t : m.types)
	{
		inputs(t->inputs);
		for (auto& f : t->fields)
			inputs(f.args);
	}
	for (auto& d : m.dirs)
		inputs(d.args);
}

struct GenCase
{
	std::unique_ptr<Model> model;
	std::string sdl, prefix, space;
	bool separate = false, stubs = true, introspection = true, headers = false;
	std::map<std::string, std::string> missing; // accessors left to the stubs, and their message

	std::string accessor(const TypeDef& t, const FieldDef& f) const
	{
		// The accessors of an interface are those of its implementations.
		bool inherited = false;
		for (auto& i : t.ifaces)
			inherited = inherited || model->type(i).field(f.name);
		return (t.name == model->mutation && !inherited ? "apply" : "get") + capital(cppName(f.name));
	}
};

inline GenCase makeGenCase(uint64_t seed)
{
	Rng r(seed);
	GenCase c;
	do
		c.model = loaderModel(r);
	while (!cppDistinct(*c.model));
	auto& m = *c.model;
	SdlOptions so;
	so.fancy = (int)r.below(2);
	so.extensions = r.pct(50);
	so.directives = r.pct(50);
	c.sdl = Sdl(r, m, so).write();
	dropReturns(c.sdl, m);
	static const std::vector<std::string> prefixes { "Pre", "X1", "My" }, spaces { "space", "a_b", "outer::inner", "today" };
	c.prefix = r.pick(prefixes);
	c.space = r.pick(spaces);
	c.separate = r.pct(50);
	c.stubs = r.pct(50);
	c.introspection = r.pct(80);
	c.headers = r.pct(30);
	if (c.stubs)
		for (auto& t : m.types)
			for (auto& f : t->fields)
				if (t->kind == Kind::Object && r.pct(12))
					c.missing[t->name + "." + f.name] = cppName(t->name) + "::" + c.accessor(*t, f) + " is not implemented";
	return c;
}

} // namespace vh
