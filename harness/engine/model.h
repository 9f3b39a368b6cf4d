// A model of a GraphQL schema, independent of the library, and a generator of random schemas.
#pragma once
#include "../common/util.h"

namespace vh {

// Wrappers outermost first: 'N' non-null, 'L' list. "" is a nullable named type.
struct TR
{
	std::string w, name;
	bool nonNull() const { return !w.empty() && w[0] == 'N'; }
	TR nullable() const { return nonNull() ? TR { w.substr(1), name } : *this; }
	bool isList() const { return w.find('L') == 0 || w.find("NL") == 0; }
	TR item() const { return { w.substr(w[0] == 'N' ? 2 : 1), name }; }
	bool operator==(const TR& o) const { return w == o.w && name == o.name; }
};
inline std::string printTR(const TR& t)
{
	if (t.w.empty())
		return t.name;
	TR in { t.w.substr(1), t.name };
	return t.w[0] == 'N' ? printTR(in) + "!" : "[" + printTR(in) + "]";
}
// The wrappers which the conversion code is instantiated for.
inline const std::vector<std::string>& wrappers()
{
	static const std::vector<std::string> all { "", "N", "L", "NL", "LN", "NLN", "LL", "NLNLN", "LNL" };
	return all;
}
inline int wrapperIndex(const std::string& w)
{
	auto& a = wrappers();
	for (size_t i = 0; i < a.size(); ++i)
		if (a[i] == w)
			return (int)i;
	return -1;
}

enum class Kind { Scalar, Enum, Input, Object, Interface, Union };

struct InVal
{
	std::string name, desc;
	TR type;
	std::optional<J> def;
	std::string defText;
};
struct FieldDef
{
	std::string name, desc;
	TR type;
	std::vector<InVal> args;
	std::optional<std::string> depr;
};
struct EnumVal
{
	std::string name, desc;
	std::optional<std::string> depr;
};
struct TypeDef
{
	Kind kind = Kind::Scalar;
	std::string name, desc;
	std::vector<FieldDef> fields;
	std::vector<InVal> inputs;
	std::vector<EnumVal> values;
	std::vector<std::string> ifaces, members;
	const FieldDef* field(const std::string& n) const
	{
		for (auto& f : fields)
			if (f.name == n)
				return &f;
		return nullptr;
	}
};
struct DirDef
{
	std::string name, desc;
	std::vector<std::string> locs;
	std::vector<InVal> args;
	bool at(const std::string& l) const { return std::find(locs.begin(), locs.end(), l) != locs.end(); }
};

struct Model
{
	std::vector<std::unique_ptr<TypeDef>> types; // declaration order, without the built-in scalars
	std::map<std::string, TypeDef*> byName;
	std::vector<std::unique_ptr<TypeDef>> builtin;
	std::vector<DirDef> dirs;
	std::string query, mutation, subscription;

	Model()
	{
		for (auto n : { "Int", "Float", "String", "Boolean", "ID" })
		{
			builtin.push_back(std::make_unique<TypeDef>());
			builtin.back()->name = n;
			byName[n] = builtin.back().get();
		}
	}
	TypeDef& add(Kind k, const std::string& name)
	{
		types.push_back(std::make_unique<TypeDef>());
		auto& t = *types.back();
		t.kind = k;
		t.name = name;
		byName[name] = &t;
		return t;
	}
	const TypeDef& type(const std::string& n) const { return *byName.at(n); }
	bool composite(const std::string& n) const
	{
		auto k = type(n).kind;
		return k == Kind::Object || k == Kind::Interface || k == Kind::Union;
	}
	const std::string& root(const std::string& op) const { return op == "query" ? query : op == "mutation" ? mutation : subscription; }
	// The object types a value of this type may have.
	std::vector<std::string> possible(const std::string& n) const
	{
		auto& t = type(n);
		std::vector<std::string> r;
		if (t.kind == Kind::Object)
			r.push_back(n);
		else if (t.kind == Kind::Union)
			r = t.members;
		else if (t.kind == Kind::Interface)
			for (auto& o : types)
				if (o->kind == Kind::Object && std::find(o->ifaces.begin(), o->ifaces.end(), n) != o->ifaces.end())
					r.push_back(o->name);
		return r;
	}
	bool overlap(const std::string& a, const std::string& b) const
	{
		auto p = possible(a), q = possible(b);
		for (auto& x : p)
			if (std::find(q.begin(), q.end(), x) != q.end())
				return true;
		return false;
	}
	// All of the type conditions which match an object of this type.
	std::vector<std::string> conditions(const std::string& object) const
	{
		std::vector<std::string> r { object };
		auto& t = type(object);
		r.insert(r.end(), t.ifaces.begin(), t.ifaces.end());
		for (auto& u : types)
			if (u->kind == Kind::Union && std::find(u->members.begin(), u->members.end(), object) != u->members.end())
				r.push_back(u->name);
		return r;
	}
};

// A literal without any layout freedom.
inline std::string plainLit(const J& j)
{
	switch (j.k)
	{
		case J::Str: return quote(j.s);
		case J::Enum: return j.s;
		case J::Float:
		{
			auto t = fmtDouble(j.d);
			if (t.find_first_of(".eE") == std::string::npos)
				t += ".0";
			return t;
		}
		case J::List:
		{
			std::string r = "[";
			for (size_t i = 0; i < j.l.size(); ++i)
				r += (i ? ", " : "") + plainLit(j.l[i]);
			return r + "]";
		}
		case J::Map:
		{
			std::string r = "{";
			for (size_t i = 0; i < j.m.size(); ++i)
				r += (i ? ", " : "") + j.m[i].first + ": " + plainLit(j.m[i].second);
			return r + "}";
		}
		default: return canon(j);
	}
}

inline std::string randomText(Rng& r, bool controls = false)
{
	static const std::vector<std::string> words { "", "a", "x y", "\"quoted\"", "back\\slash", "tab\there", "line\nbreak", "caf\xc3\xa9", "\xe2\x82\xac",
		"/", "\\n", "{}", "null", "true", "$v", "#c", "\"\"\"", "\xef\xbf\xbd", "abc", "&<>" };
	std::string s = r.pick(words);
	while (r.pct(40))
		s += r.pick(words);
	if (controls && r.pct(10))
	{
		s += (char)(1 + r.below(31));
		appendUtf8(s, (uint32_t)(0x10000 + r.below(0x100000)));
	}
	return s;
}
inline double randomDouble(Rng& r)
{
	switch (r.below(6))
	{
		case 0: return r.range(-5, 5);
		case 1: return r.range(-1000000, 1000000) / 1000.0;
		case 2: return 1e300 * r.range(-9, 9);
		case 3: return r.range(-99, 99) * 1e-20;
		case 4: return (double)(int64_t)r.next();
		default: return r.range(-100, 100) / 7.0;
	}
}
inline int randomInt(Rng& r)
{
	switch (r.below(5))
	{
		case 0: return 0;
		case 1: return INT32_MAX - (int)r.below(2);
		case 2: return INT32_MIN + (int)r.below(2);
		default: return r.range(-100, 100000);
	}
}
inline std::string randomBytes(Rng& r)
{
	std::string s;
	for (size_t n = r.below(7); n; --n)
		s += (char)r.below(256);
	return s;
}

// A random value for a custom scalar.
inline J randomScalar(Rng& r, int depth = 2, bool enums = true)
{
	switch (r.below(depth > 0 ? 8 : 6))
	{
		case 0: return J::integer(randomInt(r));
		case 1: return J::real(randomDouble(r));
		case 2: return J::boolean(r.pct(50));
		case 3: return enums ? J::enumv("SCALAR_" + std::string(1, (char)('A' + r.below(5)))) : J::str("e");
		case 4:
		case 5: return J::str(randomText(r));
		case 6:
		{
			auto l = J::list();
			for (size_t n = r.below(3); n; --n)
				l.l.push_back(randomScalar(r, depth - 1, enums));
			return l;
		}
		default:
		{
			auto m = J::map();
			const char* names[] = { "a", "ab", "b", "key" };
			for (auto n : names)
				if (r.pct(40))
					m.add(n, randomScalar(r, depth - 1, enums));
			return m;
		}
	}
}

// A constant of an input type. Null only where it's allowed.
inline J randomConst(const Model& m, Rng& r, const TR& t, int depth = 3, bool enums = true)
{
	if (!t.nonNull() && r.pct(15))
		return J();
	if (t.isList())
	{
		auto l = J::list();
		auto item = t.item();
		for (size_t n = r.below(4); n; --n)
			l.l.push_back(randomConst(m, r, item, depth - 1, enums));
		return l;
	}
	auto& d = m.type(t.name);
	if (d.kind == Kind::Enum)
		return J::enumv(d.values[r.below(d.values.size())].name);
	if (d.kind == Kind::Input)
	{
		auto o = J::map();
		std::vector<const InVal*> fs;
		for (auto& f : d.inputs)
			fs.push_back(&f);
		r.shuffle(fs);
		for (auto f : fs)
			if ((f->type.nonNull() && !f->def) || r.pct(depth > 0 ? 60 : 0))
				o.add(f->name, randomConst(m, r, f->type, depth - 1, enums));
		return o;
	}
	if (t.name == "Int")
		return J::integer(randomInt(r));
	if (t.name == "Float")
		return r.pct(30) ? J::integer(r.range(-1000, 1000)) : J::real(randomDouble(r));
	if (t.name == "String")
		return J::str(randomText(r));
	if (t.name == "Boolean")
		return J::boolean(r.pct(50));
	if (t.name == "ID")
		return J::str(base64(randomBytes(r)));
	auto s = randomScalar(r, 2, enums);
	return s;
}

struct SchemaOptions
{
	bool mutation = true, subscription = true;
	int objects = 4;
};

// A random schema. Input objects are acyclic, so that values of them can always be made.
inline std::unique_ptr<Model> randomModel(Rng& r, const SchemaOptions& so = {})
{
	auto mp = std::make_unique<Model>();
	auto& m = *mp;
	static const std::vector<std::string> stems { "A", "Ab", "Abc", "B", "Item", "ItemList", "Node", "User", "UserX", "Z", "Thing", "Thin", "T_1", "_Odd" };
	std::set<std::string> usedNames { "Int", "Float", "String", "Boolean", "ID" };
	auto typeName = [&] {
		for (;;)
		{
			auto n = r.pick(stems);
			if (r.pct(40))
				n += std::to_string(r.below(30));
			if (usedNames.insert(n).second)
				return n;
		}
	};
	static const std::vector<std::string> fieldStems { "a", "b", "ab", "abc", "id", "name", "names", "value", "x", "x1", "list", "query", "type", "on_", "_u", "A", "fragment", "nullable", "isTrue", "next" };
	auto fieldName = [&](std::set<std::string>& used) {
		for (;;)
		{
			auto n = r.pick(fieldStems);
			if (r.pct(25))
				n += std::to_string(r.below(20));
			if (used.insert(n).second)
				return n;
		}
	};
	auto desc = [&] { return r.pct(30) ? randomText(r) : std::string(); };
	std::vector<std::string> inputNames { "Int", "Float", "String", "Boolean", "ID" }, leafNames = inputNames;
	for (size_t n = r.below(3); n; --n)
	{
		auto& t = m.add(Kind::Scalar, typeName());
		t.desc = desc();
		inputNames.push_back(t.name);
		leafNames.push_back(t.name);
	}
	for (size_t n = 1 + r.below(2); n; --n)
	{
		auto& t = m.add(Kind::Enum, typeName());
		t.desc = desc();
		static const std::vector<std::string> ev { "RED", "RE", "REDDER", "green", "Blue", "_X", "on", "type", "A1" };
		auto names = ev;
		r.shuffle(names);
		for (size_t k = 1 + r.below(5); k; --k)
		{
			t.values.push_back({ names.back(), desc(), r.pct(25) ? std::optional(desc()) : std::nullopt });
			names.pop_back();
		}
		inputNames.push_back(t.name);
		leafNames.push_back(t.name);
	}
	auto wrapper = [&] { return r.pct(45) ? (r.pct(50) ? "" : "N") : wrappers()[r.below(wrappers().size())]; };
	auto inVal = [&](std::set<std::string>& used, bool required) {
		InVal v;
		v.name = fieldName(used);
		v.desc = desc();
		v.type = { wrapper(), r.pick(inputNames) };
		(void)required;
		if (r.pct(30))
		{
			do
				v.def = randomConst(m, r, v.type, 2);
			while (v.def->k == J::Null);
			v.defText = plainLit(*v.def);
		}
		return v;
	};
	for (size_t n = r.below(3); n; --n)
	{
		auto name = typeName();
		std::set<std::string> used;
		std::vector<InVal> fields;
		for (size_t k = 1 + r.below(4); k; --k)
			fields.push_back(inVal(used, false));
		auto& t = m.add(Kind::Input, name);
		t.desc = desc();
		t.inputs = std::move(fields);
		inputNames.push_back(t.name);
	}
	// The names of the composite types are chosen first, so that fields can refer to any of them.
	std::vector<std::string> ifaces, objects, unions;
	for (size_t n = r.below(3); n; --n)
		ifaces.push_back(typeName());
	for (int n = 1 + (int)r.below((size_t)so.objects); n; --n)
		objects.push_back(typeName());
	for (size_t n = r.below(3); n; --n)
		unions.push_back(typeName());
	std::vector<std::string> composites = objects;
	composites.insert(composites.end(), ifaces.begin(), ifaces.end());
	composites.insert(composites.end(), unions.begin(), unions.end());
	auto field = [&](std::set<std::string>& used, int compositePct) {
		FieldDef f;
		f.name = fieldName(used);
		f.desc = desc();
		f.type = { wrapper(), r.pct(compositePct) ? r.pick(composites) : r.pick(leafNames) };
		std::set<std::string> argsUsed;
		if (r.pct(45))
			for (size_t k = 1 + r.below(3); k; --k)
				f.args.push_back(inVal(argsUsed, false));
		if (r.pct(15))
			f.depr = desc();
		return f;
	};
	for (auto& n : ifaces)
	{
		std::set<std::string> used;
		auto& t = m.add(Kind::Interface, n);
		t.desc = desc();
		for (size_t k = 1 + r.below(3); k; --k)
			t.fields.push_back(field(used, 35));
	}
	auto object = [&](const std::string& n, size_t fields, int compositePct) -> TypeDef& {
		std::set<std::string> used;
		auto& t = m.add(Kind::Object, n);
		t.desc = desc();
		for (auto& i : ifaces)
		{
			if (!r.pct(50))
				continue;
			auto& it = m.type(i);
			bool clash = false;
			for (auto& f : it.fields)
				if (used.count(f.name))
					clash = true;
			if (clash)
				continue;
			t.ifaces.push_back(i);
			for (auto& f : it.fields)
			{
				used.insert(f.name);
				t.fields.push_back(f);
			}
		}
		for (size_t k = fields; k; --k)
			t.fields.push_back(field(used, compositePct));
		r.shuffle(t.fields);
		return t;
	};
	for (auto& n : objects)
		object(n, 1 + r.below(5), 35);
	// Every interface has an implementation.
	for (auto& i : ifaces)
		if (m.possible(i).empty())
		{
			for (auto& t : m.types)
			{
				if (t->kind != Kind::Object)
					continue;
				bool clash = false;
				for (auto& f : m.type(i).fields)
					if (t->field(f.name))
						clash = true;
				if (clash)
					continue;
				t->ifaces.push_back(i);
				for (auto& f : m.type(i).fields)
					t->fields.push_back(f);
				break;
			}
			if (m.possible(i).empty())
			{
				auto& t = m.add(Kind::Object, typeName());
				t.ifaces.push_back(i);
				t.fields = m.type(i).fields;
				objects.push_back(t.name);
			}
		}
	for (auto& u : unions)
	{
		auto& t = m.add(Kind::Union, u);
		t.desc = desc();
		auto names = objects;
		r.shuffle(names);
		names.resize(1 + r.below(std::min<size_t>(names.size(), 3)));
		t.members = names;
	}
	auto rootName = [&](const char* def) {
		std::string n = r.pct(60) ? std::string(def) : std::string("Root") + def;
		usedNames.insert(n);
		return n;
	};
	m.query = rootName("Query");
	object(m.query, 3 + r.below(4), 60);
	if (so.mutation)
	{
		m.mutation = rootName("Mutation");
		object(m.mutation, 3 + r.below(3), 60);
	}
	if (so.subscription)
	{
		m.subscription = rootName("Subscription");
		object(m.subscription, 2 + r.below(3), 60);
	}
	static const std::vector<std::string> dirNames { "tag", "ta", "mark", "opt", "d1", "skipper", "includes" };
	static const std::vector<std::string> locs { "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT" };
	auto names = dirNames;
	r.shuffle(names);
	for (size_t n = 2 + r.below(4); n; --n)
	{
		DirDef d;
		d.name = names.back();
		names.pop_back();
		d.desc = desc();
		for (auto& l : locs)
			if (r.pct(60))
				d.locs.push_back(l);
		if (d.locs.empty())
			d.locs.push_back("FIELD");
		std::set<std::string> used;
		for (size_t k = r.below(3); k; --k)
			d.args.push_back(inVal(used, false));
		m.dirs.push_back(std::move(d));
	}
	// Shuffle the declaration order, which everything but introspection should ignore.
	r.shuffle(m.types);
	return mp;
}

// The schema as a schema definition document.
inline std::string descSDL(const std::string& d, const std::string& indent)
{
	return d.empty() ? std::string() : indent + quote(d) + "\n";
}

} // namespace vh
