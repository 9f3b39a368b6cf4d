// A random schema and request document with the types which a generated client of it should have.
#pragma once
#include "gencase.h"
#include "../engine/invalid.h"
#include "../engine/meta.h"

namespace vh {

inline bool cppKeyword(const std::string& n)
{
	static const std::set<std::string> all { "true", "false", "namespace", "class", "struct", "enum", "union", "new", "delete", "default", "operator", "template", "typename", "this",
		"int", "float", "double", "bool", "char", "void", "const", "static", "public", "private", "protected", "for", "if", "else", "while", "do", "return", "switch", "case", "break",
		"continue", "goto", "and", "or", "not", "xor", "nullptr", "auto", "using", "try", "catch", "throw", "explicit", "export", "extern", "friend", "inline", "mutable", "register",
		"short", "long", "signed", "unsigned", "sizeof", "typedef", "typeid", "virtual", "volatile", "asm" };
	return all.count(n) != 0;
}

struct Member
{
	std::string key, cpp;
	TR type;
	bool composite = false;
	std::string record; // the name of the nested type
	std::vector<Member> sub;
};

struct ClientCase
{
	std::unique_ptr<Model> model, meta;
	std::string sdl, request, prefix, operation, space;
	std::vector<std::string> invalid; // documents which break a rule
	std::vector<std::string> what;
	bool introspection = true, headers = false, sources = false;
	Doc doc;
	const Op* op = nullptr;
	std::vector<Member> members;
	std::vector<std::string> enums, inputs; // which the client declares
	std::string scope;                      // namespace of the client

	const TypeDef& type(const std::string& n) const { return model->byName.count(n) ? model->type(n) : meta->type(n); }
	bool composite(const std::string& n) const
	{
		auto k = type(n).kind;
		return k == Kind::Object || k == Kind::Interface || k == Kind::Union;
	}
	TR fieldType(const std::string& parent, const std::string& field) const
	{
		if (field == "__typename")
			return { "N", "String" };
		if (parent == model->query && introspection)
		{
			if (field == "__schema")
				return { "", "__Schema" };
			if (field == "__type")
				return { "", "__Type" };
		}
		return type(parent).field(field)->type;
	}
	// All of the fields which the selection set can have, whatever the type of the object.
	void collect(const std::string& parent, const std::vector<Sel>& sels, std::vector<Member>& into) const
	{
		for (auto& s : sels)
		{
			if (s.k == Sel::Spread)
			{
				auto f = doc.frag(s.name);
				collect(f->on, f->sels, into);
				continue;
			}
			if (s.k == Sel::Inline)
			{
				collect(s.on.empty() ? parent : s.on, s.sub, into);
				continue;
			}
			auto t = fieldType(parent, s.name);
			auto it = std::find_if(into.begin(), into.end(), [&](auto& m) { return m.key == s.key(); });
			if (it == into.end())
			{
				Member m;
				m.key = s.key();
				m.cpp = cppName(m.key);
				m.type = t;
				m.composite = composite(t.name);
				m.record = cppName(m.cpp + "_" + t.name);
				into.push_back(m);
				it = into.end() - 1;
			}
			if (it->composite)
				collect(t.name, s.sub, it->sub);
		}
	}
	void use(const std::string& n)
	{
		auto& t = type(n);
		auto add = [&](std::vector<std::string>& l) {
			if (std::find(l.begin(), l.end(), n) != l.end())
				return false;
			l.push_back(n);
			return true;
		};
		if (t.kind == Kind::Enum)
			add(enums);
		if (t.kind == Kind::Input)
			if (add(inputs))
				for (auto& f : t.inputs)
					use(f.type.name);
	}
	void useAll(const std::vector<Member>& l)
	{
		for (auto& m : l)
		{
			use(m.type.name);
			useAll(m.sub);
		}
	}
	// Names have to stay apart from each other in C++.
	bool distinct(const std::vector<Member>& l, const std::set<std::string>& types) const
	{
		std::set<std::string> names;
		for (auto& m : l)
		{
			if (cppKeyword(m.cpp) || types.count(m.cpp) || !names.insert(m.cpp).second)
				return false;
			if (m.composite && (types.count(m.record) || types.count(m.record + "_") || !names.insert(m.record).second || !distinct(m.sub, types)))
				return false;
		}
		return true;
	}
	bool usable()
	{
		members.clear();
		enums.clear();
		inputs.clear();
		collect(model->root(op->kind), op->sels, members);
		for (auto& v : op->vars)
			use(v.type.name);
		useAll(members);
		std::set<std::string> types { "Variables", "Response", "GetRequestText", "GetRequestObject", "serializeVariables", "parseResponse", "graphql", "response", "std", "client" };
		for (auto l : { &enums, &inputs })
			for (auto& n : *l)
				if (!types.insert(cppName(n)).second)
					return false;
		std::set<std::string> names;
		for (auto& v : op->vars)
			if (cppKeyword(cppName(v.name)) || types.count(cppName(v.name)) || !names.insert(cppName(v.name)).second)
				return false;
		for (auto& n : inputs)
			for (auto& f : type(n).inputs)
				if (cppKeyword(cppName(f.name)) || types.count(cppName(f.name)))
					return false;
		for (auto& n : enums)
			for (auto& v : type(n).values)
				if (cppKeyword(cppName(v.name)))
					return false;
		return distinct(members, types);
	}
};

// Some of the fields of a selection set move to another field with the same key.
inline void splitFields(Rng& r, std::vector<Sel>& sels, bool splittable)
{
	for (size_t i = 0; i < sels.size(); ++i)
	{
		splitFields(r, sels[i].sub, splittable || sels[i].k == Sel::Field);
		if (!splittable || sels[i].k != Sel::Field || sels[i].sub.size() < 2 || !r.pct(25))
			continue;
		auto other = sels[i];
		auto at = 1 + r.below(sels[i].sub.size() - 1);
		sels[i].sub.resize(at);
		other.sub.erase(other.sub.begin(), other.sub.begin() + (long)at);
		if (r.pct(40))
		{
			Sel in;
			in.k = Sel::Inline;
			in.hasSub = true;
			in.sub = { other };
			other = in;
		}
		sels.insert(sels.begin() + (long)(i + 1 + r.below(sels.size() - i)), other);
	}
}
inline void renameAliases(std::vector<Sel>& sels)
{
	for (auto& s : sels)
	{
		if (cppKeyword(s.alias))
			s.alias += "_";
		renameAliases(s.sub);
	}
}
inline Sel parsedField(const std::string& alias, const std::string& name, std::vector<Sel> sub = {})
{
	Sel s;
	s.alias = alias;
	s.name = name;
	s.hasSub = !sub.empty();
	s.sub = std::move(sub);
	return s;
}
inline std::vector<Sel> metaType(Rng& r, int depth)
{
	std::vector<Sel> l;
	auto f = [&](const char* n) { l.push_back(parsedField("", n)); };
	f("kind");
	if (r.pct(70))
		f("name");
	if (r.pct(30))
		f("description");
	if (depth > 0 && r.pct(80))
		l.push_back(parsedField(r.pct(20) ? "of" : "", "ofType", metaType(r, depth - 1)));
	if (depth > 0 && r.pct(40))
		l.push_back(parsedField("", "fields", { parsedField("", "name"), parsedField("", "isDeprecated"), parsedField("", "type", metaType(r, depth - 1)) }));
	if (depth > 0 && r.pct(30))
		l.push_back(parsedField("", "enumValues", { parsedField("", "name"), parsedField("why", "deprecationReason") }));
	if (depth > 0 && r.pct(30))
		l.push_back(parsedField("", "inputFields", { parsedField("", "defaultValue"), parsedField("", "type", metaType(r, 0)) }));
	return l;
}
inline Sel metaField(Rng& r)
{
	if (r.pct(40))
	{
		auto s = parsedField("theType", "__type", metaType(r, 3));
		s.args.emplace_back("name", J::str("Int"));
		return s;
	}
	std::vector<Sel> l { parsedField("", "types", metaType(r, 3)) };
	if (r.pct(60))
		l.push_back(parsedField("", "directives", { parsedField("", "name"), parsedField("", "locations"), parsedField("", "args", { parsedField("", "name") }) }));
	if (r.pct(60))
		l.push_back(parsedField("", "queryType", metaType(r, 1)));
	if (r.pct(40))
		l.push_back(parsedField("m", "mutationType", metaType(r, 0)));
	return parsedField(r.pct(50) ? "" : "aSchema", "__schema", l);
}

inline ClientCase makeClientCase(uint64_t seed)
{
	Rng r(seed);
	ClientCase c;
	c.meta = metaModel();
	static const std::vector<std::string> prefixes { "Pre", "X1", "My" }, spaces { "space", "a_b" };
	for (;;)
	{
		do
			c.model = loaderModel(r);
		while (!cppDistinct(*c.model));
		auto& m = *c.model;
		SdlOptions so;
		so.fancy = (int)r.below(2);
		so.extensions = r.pct(50);
		so.directives = r.pct(50);
		c.sdl = Sdl(r, m, so).write();
		dropReturns(c.sdl, m);
		c.introspection = r.pct(80);
		for (int attempt = 0; attempt < 20; ++attempt)
		{
			DocOptions o;
			o.ops = 1 + (int)r.below(3);
			o.depth = 2 + (int)r.below(3);
			o.width = 3 + (int)r.below(3);
			o.vars = 45;
			c.doc = randomDoc(m, r, o);
			for (auto& op : c.doc.ops)
			{
				renameAliases(op.sels);
				splitFields(r, op.sels, op.kind != "subscription");
			}
			for (auto& f : c.doc.frags)
			{
				renameAliases(f.sels);
				splitFields(r, f.sels, f.on != m.subscription);
			}
			auto plain = c.doc;
			for (auto& op : c.doc.ops)
				if (c.introspection && op.kind == "query" && r.pct(25))
					op.sels.insert(op.sels.begin() + (long)r.below(op.sels.size() + 1), metaField(r));
			// The first one, or the named one.
			size_t first = 0;
			for (auto i : c.doc.order)
				if (i >= 0)
				{
					first = (size_t)i;
					break;
				}
			auto index = r.below(c.doc.ops.size());
			c.op = &c.doc.ops[index];
			c.operation = index == first && r.pct(50) ? "" : c.op->name;
			if (index != first && c.op->name.empty())
				continue;
			if (!c.usable())
				continue;
			Layout l;
			l.fancy = (int)r.below(2);
			c.request = printDoc(c.doc, r, l);
			c.request.erase(std::remove(c.request.begin(), c.request.end(), '\r'), c.request.end());
			if (c.request.find(")gql\"") != std::string::npos)
				continue;
			for (int k = 0; k < 12; ++k)
			{
				Doc broken = plain;
				Breaker b(m, r, broken);
				auto what = b.apply((int)r.below(Breaker::rules));
				if (what.empty())
					continue;
				c.invalid.push_back(printDoc(broken, r, l) + b.appended);
				c.what.push_back(what);
			}
			if (r.pct(15))
				c.request = "\xef\xbb\xbf" + c.request;
			auto kind = c.op->kind;
			auto name = c.op->name;
			if (name.empty())
			{
				name = kind;
				name[0] = (char)toupper((unsigned char)name[0]);
			}
			c.scope = "graphql::client::" + kind + "::" + name;
			c.prefix = r.pick(prefixes);
			c.space = r.pick(spaces);
			c.headers = r.pct(30);
			c.sources = r.pct(30);
			return c;
		}
	}
}

} // namespace vh
