// What introspection should report about a schema: an evaluator of introspection queries over the model.
#pragma once
#include "doc.h"

namespace vh {

inline TR readTR(const std::string& s)
{
	if (s.back() == '!')
	{
		auto t = readTR(s.substr(0, s.size() - 1));
		return { "N" + t.w, t.name };
	}
	if (s[0] == '[')
	{
		auto t = readTR(s.substr(1, s.size() - 2));
		return { "L" + t.w, t.name };
	}
	return { "", s };
}

// The schema of introspection itself, as section 4 of the specification (June 2018) has it.
inline std::unique_ptr<Model> metaModel()
{
	auto m = std::make_unique<Model>();
	auto object = [&](const char* name, std::vector<std::pair<const char*, const char*>> fields) {
		auto& t = m->add(Kind::Object, name);
		for (auto& f : fields)
		{
			FieldDef d;
			d.name = f.first;
			d.type = readTR(f.second);
			if ((d.name == "fields" || d.name == "enumValues") && t.name == "__Type")
			{
				InVal a;
				a.name = "includeDeprecated";
				a.type = { "", "Boolean" };
				a.def = J::boolean(false);
				a.defText = "false";
				d.args.push_back(a);
			}
			t.fields.push_back(d);
		}
	};
	auto enumeration = [&](const char* name, std::vector<const char*> values) {
		auto& t = m->add(Kind::Enum, name);
		for (auto v : values)
			t.values.push_back({ v, "", std::nullopt });
	};
	object("__Schema", { { "types", "[__Type!]!" }, { "queryType", "__Type!" }, { "mutationType", "__Type" }, { "subscriptionType", "__Type" }, { "directives", "[__Directive!]!" } });
	object("__Type", { { "kind", "__TypeKind!" }, { "name", "String" }, { "description", "String" }, { "fields", "[__Field!]" }, { "interfaces", "[__Type!]" },
		{ "possibleTypes", "[__Type!]" }, { "enumValues", "[__EnumValue!]" }, { "inputFields", "[__InputValue!]" }, { "ofType", "__Type" } });
	object("__Field", { { "name", "String!" }, { "description", "String" }, { "args", "[__InputValue!]!" }, { "type", "__Type!" }, { "isDeprecated", "Boolean!" }, { "deprecationReason", "String" } });
	object("__InputValue", { { "name", "String!" }, { "description", "String" }, { "type", "__Type!" }, { "defaultValue", "String" } });
	object("__EnumValue", { { "name", "String!" }, { "description", "String" }, { "isDeprecated", "Boolean!" }, { "deprecationReason", "String" } });
	object("__Directive", { { "name", "String!" }, { "description", "String" }, { "locations", "[__DirectiveLocation!]!" }, { "args", "[__InputValue!]!" } });
	enumeration("__TypeKind", { "SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL" });
	enumeration("__DirectiveLocation", { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT",
		"FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION" });
	auto directive = [&](const char* name, std::vector<std::string> locs, const char* arg, TR type, const char* def) {
		DirDef d;
		d.name = name;
		d.locs = locs;
		InVal a;
		a.name = arg;
		a.type = type;
		if (*def)
		{
			a.def = J();
			a.defText = def;
		}
		d.args.push_back(a);
		m->dirs.push_back(d);
	};
	directive("skip", { "FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" }, "if", { "N", "Boolean" }, "");
	directive("include", { "FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" }, "if", { "N", "Boolean" }, "");
	directive("deprecated", { "FIELD_DEFINITION", "ENUM_VALUE" }, "reason", { "", "String" }, "\"No longer supported\"");
	for (auto& b : m->builtin)
		b->desc = "Built-in type";
	return m;
}

class Introspector
{
public:
	Introspector(const Model& m, const Model& meta, const Doc& d, const J& vars)
		: _m(m)
		, _meta(meta)
		, _d(d)
		, _vars(vars)
	{
	}
	bool tooBig = false;
	long nodes = 0;
	std::map<std::string, long> seen;

	J schema(const std::vector<Sel>& s)
	{
		return select("__Schema", s, [&](const Sel& f) -> J {
			if (f.name == "types")
			{
				auto l = J::list();
				for (auto& t : all())
					l.l.push_back(type({ "", t }, f.sub));
				return unordered(l);
			}
			if (f.name == "directives")
			{
				auto l = J::list();
				for (auto m : { &_meta, &_m })
					for (auto& d : m->dirs)
						l.l.push_back(directive(d, f.sub));
				return unordered(l);
			}
			auto& n = f.name == "queryType" ? _m.query : f.name == "mutationType" ? _m.mutation : _m.subscription;
			return n.empty() ? J() : type({ "", n }, f.sub);
		});
	}
	J type(const TR& t, const std::vector<Sel>& s)
	{
		static const char* kinds[] = { "SCALAR", "ENUM", "INPUT_OBJECT", "OBJECT", "INTERFACE", "UNION" };
		auto def = t.w.empty() ? &find(t.name) : nullptr;
		return select("__Type", s, [&](const Sel& f) -> J {
			if (f.name == "kind")
			{
				std::string k = t.w.empty() ? kinds[(int)def->kind] : t.w[0] == 'N' ? "NON_NULL" : "LIST";
				++seen["kind " + k];
				return J::enumv(k);
			}
			if (f.name == "ofType")
				return def ? J() : type({ t.w.substr(1), t.name }, f.sub);
			if (!def)
				return J();
			if (f.name == "name")
				return J::str(def->name);
			if (f.name == "description")
				return text(def->desc);
			if (f.name == "fields")
				return def->kind == Kind::Object || def->kind == Kind::Interface
					? list(def->fields, f, [&](auto& e) { return field(e, f.sub); })
					: J();
			if (f.name == "enumValues")
				return def->kind == Kind::Enum ? list(def->values, f, [&](auto& e) { return value(e, f.sub); }) : J();
			if (f.name == "inputFields")
				return def->kind == Kind::Input ? inputs(def->inputs, f.sub) : J();
			if (f.name == "interfaces")
				return def->kind == Kind::Object ? types(def->ifaces, f.sub) : J();
			if (f.name == "possibleTypes")
				return def->kind == Kind::Interface || def->kind == Kind::Union ? unordered(types(_m.possible(def->name), f.sub)) : J();
			return J::str("?");
		});
	}
	// Lists of which the order isn't specified are sorted, both here and in the response.
	static J unordered(J l)
	{
		std::sort(l.l.begin(), l.l.end(), [](auto& a, auto& b) { return canon(a) < canon(b); });
		return l;
	}
	static J normal(J j, const std::vector<Sel>& sels, const Doc& d)
	{
		if (j.k == J::List)
		{
			for (auto& e : j.l)
				e = normal(e, sels, d);
			return j;
		}
		if (j.k != J::Map)
			return j;
		for (auto& e : j.m)
			if (auto f = find(sels, e.first, d))
			{
				e.second = normal(e.second, f->sub, d);
				if ((f->name == "types" || f->name == "directives" || f->name == "possibleTypes") && e.second.k == J::List)
					e.second = unordered(e.second);
			}
		return j;
	}
	std::vector<std::string> all() const
	{
		std::vector<std::string> r;
		for (auto& t : _m.builtin)
			r.push_back(t->name);
		for (auto& t : _meta.types)
			r.push_back(t->name);
		for (auto& t : _m.types)
			r.push_back(t->name);
		return r;
	}

private:
	const Model& _m;
	const Model& _meta;
	const Doc& _d;
	const J& _vars;

	static const Sel* find(const std::vector<Sel>& sels, const std::string& key, const Doc& d)
	{
		for (auto& s : sels)
		{
			if (s.k == Sel::Field)
			{
				if (s.key() == key)
					return &s;
				continue;
			}
			auto f = find(s.k == Sel::Inline ? s.sub : d.frag(s.name)->sels, key, d);
			if (f)
				return f;
		}
		return nullptr;
	}
	const TypeDef& find(const std::string& n) const
	{
		auto it = _meta.byName.find(n); // includes the built-in scalars, with their descriptions
		return it != _meta.byName.end() ? *it->second : _m.type(n);
	}
	static J text(const std::string& s) { return s.empty() ? J() : J::str(s); }
	bool deprecated(const Sel& f)
	{
		for (auto& a : f.args)
			if (a.first == "includeDeprecated")
			{
				if (a.second.k == J::Bool)
					return a.second.b;
				if (a.second.k == J::Var)
				{
					auto v = _vars.get(a.second.s);
					return v && v->k == J::Bool && v->b;
				}
			}
		return false;
	}
	template <class T, class F>
	J list(const std::vector<T>& v, const Sel& f, F one)
	{
		auto l = J::list();
		auto include = deprecated(f);
		for (auto& e : v)
		{
			if (e.depr && !include)
			{
				++seen["deprecated members omitted"];
				continue;
			}
			if (e.depr)
				++seen["deprecated members included"];
			l.l.push_back(one(e));
		}
		return l;
	}
	J types(const std::vector<std::string>& v, const std::vector<Sel>& s)
	{
		auto l = J::list();
		for (auto& n : v)
			l.l.push_back(type({ "", n }, s));
		return l;
	}
	J inputs(const std::vector<InVal>& v, const std::vector<Sel>& s)
	{
		auto l = J::list();
		for (auto& a : v)
			l.l.push_back(select("__InputValue", s, [&](const Sel& f) -> J {
				if (f.name == "name")
					return J::str(a.name);
				if (f.name == "description")
					return text(a.desc);
				if (f.name == "type")
					return type(a.type, f.sub);
				if (a.def)
					++seen["default values"];
				return a.def ? J::str(a.defText) : J();
			}));
		return l;
	}
	J field(const FieldDef& d, const std::vector<Sel>& s)
	{
		return select("__Field", s, [&](const Sel& f) -> J {
			if (f.name == "name")
				return J::str(d.name);
			if (f.name == "description")
				return text(d.desc);
			if (f.name == "args")
				return inputs(d.args, f.sub);
			if (f.name == "type")
				return type(d.type, f.sub);
			if (f.name == "isDeprecated")
				return J::boolean(d.depr.has_value());
			return d.depr ? J::str(*d.depr) : J();
		});
	}
	J value(const EnumVal& d, const std::vector<Sel>& s)
	{
		return select("__EnumValue", s, [&](const Sel& f) -> J {
			if (f.name == "name")
				return J::str(d.name);
			if (f.name == "description")
				return text(d.desc);
			if (f.name == "isDeprecated")
				return J::boolean(d.depr.has_value());
			return d.depr ? J::str(*d.depr) : J();
		});
	}
	J directive(const DirDef& d, const std::vector<Sel>& s)
	{
		return select("__Directive", s, [&](const Sel& f) -> J {
			if (f.name == "name")
				return J::str(d.name);
			if (f.name == "description")
				return text(d.desc);
			if (f.name == "args")
				return inputs(d.args, f.sub);
			auto l = J::list();
			for (auto& x : d.locs)
				l.l.push_back(J::enumv(x));
			return l;
		});
	}
	template <class F>
	J select(const char* name, const std::vector<Sel>& s, F value)
	{
		auto o = J::map();
		if (++nodes > 20000)
			tooBig = true;
		if (!tooBig)
			add(o, name, s, value);
		return o;
	}
	template <class F>
	void add(J& o, const char* name, const std::vector<Sel>& s, F& value)
	{
		for (auto& e : s)
			switch (e.k)
			{
				case Sel::Field:
					if (!o.get(e.key()))
						o.add(e.key(), e.name == "__typename" ? J::str(name) : value(e));
					break;
				case Sel::Inline: add(o, name, e.sub, value); break;
				case Sel::Spread: add(o, name, _d.frag(e.name)->sels, value); break;
			}
	}
};

// The query which tools send: everything, with types up to seven wrappers deep.
inline std::string fullIntrospectionQuery()
{
	return R"(query IntrospectionQuery {
  __schema {
    queryType { name } mutationType { name } subscriptionType { name }
    types { ...FullType }
    directives { name description locations args { ...InputValue } }
  }
}
fragment FullType on __Type {
  kind name description
  fields(includeDeprecated: true) { name description args { ...InputValue } type { ...TypeRef } isDeprecated deprecationReason }
  inputFields { ...InputValue }
  interfaces { ...TypeRef }
  enumValues(includeDeprecated: true) { name description isDeprecated deprecationReason }
  possibleTypes { ...TypeRef }
}
fragment InputValue on __InputValue { name description type { ...TypeRef } defaultValue }
fragment TypeRef on __Type { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } } } }
)";
}
// The same as a document of the model.
inline Doc fullIntrospectionDoc()
{
	Doc d;
	auto f = [](const std::string& name, std::vector<Sel> sub = {}) {
		Sel s;
		s.name = name;
		s.hasSub = !sub.empty();
		s.sub = std::move(sub);
		return s;
	};
	auto dep = [](Sel s) {
		s.args.emplace_back("includeDeprecated", J::boolean(true));
		return s;
	};
	auto spread = [](const std::string& name) {
		Sel s;
		s.k = Sel::Spread;
		s.name = name;
		return s;
	};
	auto frag = [&](const std::string& name, const std::string& on, std::vector<Sel> sels) {
		Frag g;
		g.name = name;
		g.on = on;
		g.sels = std::move(sels);
		d.frags.push_back(g);
		d.order.push_back(-(int)d.frags.size());
	};
	Op op;
	op.name = "IntrospectionQuery";
	op.sels = { f("__schema", { f("queryType", { f("name") }), f("mutationType", { f("name") }), f("subscriptionType", { f("name") }), f("types", { spread("FullType") }),
		f("directives", { f("name"), f("description"), f("locations"), f("args", { spread("InputValue") }) }) }) };
	d.ops.push_back(op);
	d.order.push_back(0);
	frag("FullType", "__Type", { f("kind"), f("name"), f("description"),
		dep(f("fields", { f("name"), f("description"), f("args", { spread("InputValue") }), f("type", { spread("TypeRef") }), f("isDeprecated"), f("deprecationReason") })),
		f("inputFields", { spread("InputValue") }), f("interfaces", { spread("TypeRef") }),
		dep(f("enumValues", { f("name"), f("description"), f("isDeprecated"), f("deprecationReason") })), f("possibleTypes", { spread("TypeRef") }) });
	frag("InputValue", "__InputValue", { f("name"), f("description"), f("type", { spread("TypeRef") }), f("defaultValue") });
	std::vector<Sel> ref { f("kind"), f("name") };
	for (int i = 0; i < 6; ++i)
		ref = { f("kind"), f("name"), f("ofType", ref) };
	frag("TypeRef", "__Type", ref);
	return d;
}

} // namespace vh
