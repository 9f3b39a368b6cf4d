// What the accessors of the simulated service produce, as a function of the object, the field and the
// arguments only, so that the service and the reference executor agree on it.
#pragma once
#include "doc.h"

namespace vh {

struct OutVal
{
	enum K { Null, Leaf, List, Obj, Bad } k = Null;
	J leaf;
	std::vector<OutVal> items;
	std::string type; // of an object
	uint64_t id = 0;
	std::string message; // of a bad element
};

struct Fault
{
	enum K { None, Runtime, Schema } k = None;
	std::vector<std::string> messages;
};

struct World
{
	const Model* model = nullptr;
	uint64_t seed = 0;
	int faultPct = 0; // % of accessors which fail
	int badPct = 0;   // % of list elements, enums and objects which fail on their own
	int nullPct = 15;
	bool badEnums = true;
	// Fields without an accessor, and what is said about them.
	std::map<std::string, std::string> missing;
	int maxList = 3;

	uint64_t hash(uint64_t objId, const std::string& type, const std::string& field, const std::string& args) const
	{
		return hashStr(type + "." + field + args, mix(seed ^ objId * 0x9e3779b97f4a7c15ULL));
	}
	const std::string* without(const std::string& type, const std::string& field) const
	{
		auto it = missing.find(type + "." + field);
		return it == missing.end() ? nullptr : &it->second;
	}
	Fault fault(uint64_t h) const
	{
		Rng r(h ^ 0xfa017);
		Fault f;
		if (!r.pct(faultPct))
			return f;
		f.k = r.pct(50) ? Fault::Runtime : Fault::Schema;
		size_t n = f.k == Fault::Schema && r.pct(30) ? 2 : 1;
		for (size_t i = 0; i < n; ++i)
			f.messages.push_back("failed " + std::to_string(r.below(1000000)) + " " + randomText(r));
		return f;
	}
	OutVal value(uint64_t h, const TR& t) const
	{
		Rng r(h);
		return value(r, t, true);
	}
	J leaf(Rng& r, const std::string& name) const
	{
		auto& d = model->type(name);
		if (d.kind == Kind::Enum)
			return J::enumv(d.values[r.below(d.values.size())].name);
		if (name == "Int")
			return J::integer(randomInt(r));
		if (name == "Float")
			return J::real(randomDouble(r));
		if (name == "String")
			return J::str(randomText(r, true));
		if (name == "Boolean")
			return J::boolean(r.pct(50));
		if (name == "ID")
			return J::str(base64(randomBytes(r)));
		return randomScalar(r);
	}

private:
	OutVal value(Rng& r, const TR& t, bool containable) const
	{
		OutVal o;
		if (!t.nonNull() && r.pct(nullPct))
			return o;
		if (t.isList())
		{
			o.k = OutVal::List;
			auto item = t.item();
			for (size_t n = r.below((size_t)maxList + 1); n; --n)
				o.items.push_back(value(r, item, !item.nonNull()));
			return o;
		}
		auto& d = model->type(t.name);
		if (badPct && r.pct(badPct) && ((d.kind == Kind::Enum && badEnums) || (model->composite(t.name) && containable)))
		{
			o.k = OutVal::Bad;
			o.message = "bad " + std::to_string(r.below(1000000));
			if (model->composite(t.name))
			{
				auto p = model->possible(t.name);
				o.type = p[r.below(p.size())];
			}
			return o;
		}
		if (model->composite(t.name))
		{
			auto p = model->possible(t.name);
			o.k = OutVal::Obj;
			o.type = p[r.below(p.size())];
			o.id = r.next();
			return o;
		}
		o.k = OutVal::Leaf;
		o.leaf = leaf(r, t.name);
		return o;
	}
};

// Values of the variables of one operation, as they're written in JSON.
inline J jsonable(J j)
{
	if (j.k == J::Enum)
		j.k = J::Str;
	for (auto& e : j.l)
		e = jsonable(std::move(e));
	for (auto& e : j.m)
		e.second = jsonable(std::move(e.second));
	return j;
}
inline J randomVars(const Model& m, const Doc& d, const Op& op, Rng& r)
{
	auto o = J::map();
	for (auto& v : op.vars)
	{
		if (v.def && r.pct(50))
			continue;
		if (!v.def && !v.type.nonNull() && !d.noOmit.count(v.name) && r.pct(20))
			continue;
		J j;
		do
			j = randomConst(m, r, v.type, 3, false);
		while ((v.def || d.noNull.count(v.name)) && j.k == J::Null);
		o.add(v.name, jsonable(j));
	}
	if (r.pct(10))
		o.add("unusedVariable", J::integer(1));
	r.shuffle(o.m);
	return o;
}

// ---------------------------------------------------------------------------------------------
// The value of an argument.

// What a literal means with these variables; missing variables are nulls.
inline J evalRaw(const J& j, const J& vars)
{
	if (j.k == J::Var)
	{
		auto v = vars.get(j.s);
		return v ? *v : J();
	}
	J r = j;
	for (auto& e : r.l)
		e = evalRaw(e, vars);
	for (auto& e : r.m)
		e.second = evalRaw(e.second, vars);
	if (r.k == J::Int && (r.i > INT32_MAX || r.i < INT32_MIN))
		r = J::real((double)r.i);
	return r;
}
// Convert it to the declared type, all members of input objects filled in; nothing if it doesn't match.
inline std::optional<J> coerce(const Model& m, const TR& t, const J& raw)
{
	if (raw.k == J::Null)
	{
		if (t.nonNull())
			return m.type(t.name).kind == Kind::Scalar && t.w == "N" && t.name != "Int" && t.name != "Float" && t.name != "String" && t.name != "Boolean" && t.name != "ID"
				? std::optional(J())
				: std::nullopt;
		return J();
	}
	if (t.isList())
	{
		if (raw.k != J::List)
			return std::nullopt;
		auto l = J::list();
		for (auto& e : raw.l)
		{
			auto c = coerce(m, t.item(), e);
			if (!c)
				return std::nullopt;
			l.l.push_back(std::move(*c));
		}
		return l;
	}
	auto& d = m.type(t.name);
	switch (d.kind)
	{
		case Kind::Enum:
			if (raw.k != J::Enum && raw.k != J::Str)
				return std::nullopt;
			for (auto& v : d.values)
				if (v.name == raw.s)
					return J::enumv(raw.s);
			return std::nullopt;
		case Kind::Input:
		{
			if (raw.k != J::Map)
				return std::nullopt;
			auto o = J::map();
			for (auto& f : d.inputs)
			{
				auto v = raw.get(f.name);
				auto c = coerce(m, f.type, v ? *v : f.def ? *f.def : J());
				if (!c)
					return std::nullopt;
				o.add(f.name, std::move(*c));
			}
			return o;
		}
		default: break;
	}
	if (t.name == "Int")
		return raw.k == J::Int ? std::optional(raw) : std::nullopt;
	if (t.name == "Float")
		return raw.k == J::Int ? std::optional(J::real((double)raw.i)) : raw.k == J::Float ? std::optional(raw) : std::nullopt;
	if (t.name == "String")
		return raw.k == J::Str ? std::optional(raw) : std::nullopt;
	if (t.name == "Boolean")
		return raw.k == J::Bool ? std::optional(raw) : std::nullopt;
	if (t.name == "ID")
		return raw.k == J::Str && unbase64(raw.s) ? std::optional(raw) : std::nullopt;
	return raw;
}

// ---------------------------------------------------------------------------------------------
// What the monitors record.

struct Event
{
	enum K { Accessor, Begin, End, Done } k = Accessor;
	std::string path, type, field, args;
	std::string op, def, spread, inl, dirs; // directives
	std::string context;
	std::string state;
	uint64_t seq = 0;
	std::string text() const
	{
		static const char* names[] = { "accessor ", "begin ", "end ", "done " };
		return names[k] + (path.empty() ? "/" : path) + " " + type + (field.empty() ? "" : "." + field) + args + " " + context + " state:" + state + " operation:" + op
			+ " definition:" + def + " spread:" + spread + " inline:" + inl + (k == Accessor ? " field:" + dirs : "");
	}
};

struct ExpectedError
{
	std::string message;             // exact, or if it's empty:
	std::vector<std::string> names;  // "Invalid argument: <name> error: " for any of these
	Pos pos;
	std::string path; // canonical JSON list
};

} // namespace vh
