// P20: schema documents through the loader.
#include "../common/report.h"
#include "SchemaLoader.h"
#include "schemas.h"
#include "sdl.h"
#include <unistd.h>
using namespace graphql;
using namespace vh;

namespace {

J fromValue(const response::Value& v)
{
	using response::Type;
	switch (v.type())
	{
		case Type::Boolean: return J::boolean(v.get<bool>());
		case Type::Int: return J::integer(v.get<int>());
		case Type::Float: return J::real(v.get<double>());
		case Type::String: return J::str(v.get<std::string>());
		case Type::EnumValue: return J::enumv(v.get<std::string>());
		case Type::List:
		{
			auto l = J::list();
			for (size_t i = 0; i < v.size(); ++i)
				l.l.push_back(fromValue(v[i]));
			return l;
		}
		case Type::Map:
		{
			auto m = J::map();
			for (auto& e : v)
				m.add(e.first, fromValue(e.second));
			return m;
		}
		default: return J();
	}
}
std::string S(std::string_view v) { return std::string(v); }
std::string q(std::string_view v) { return quote(std::string(v)); }

// What was loaded and what was written, as text.
std::string typeOf(std::string_view type, const generator::TypeModifierStack& m)
{
	std::string o;
	for (auto e : m)
		o += e == service::TypeModifier::Nullable ? '?' : e == service::TypeModifier::List ? 'L' : '-';
	return o + " " + S(type);
}
std::string typeOf(const TR& t)
{
	std::string o;
	for (size_t i = 0;;)
	{
		if (i < t.w.size() && t.w[i] == 'N')
			++i;
		else
			o += '?';
		if (i < t.w.size() && t.w[i] == 'L')
		{
			o += 'L';
			++i;
		}
		else
			break;
	}
	return o + " " + t.name;
}
int inputKind(const Model& m, const std::string& n)
{
	for (auto& b : m.builtin)
		if (b->name == n)
			return (int)generator::InputFieldType::Builtin;
	auto k = m.type(n).kind;
	return (int)(k == Kind::Scalar ? generator::InputFieldType::Scalar : k == Kind::Enum ? generator::InputFieldType::Enum : generator::InputFieldType::Input);
}
int outputKind(const Model& m, const std::string& n)
{
	using O = generator::OutputFieldType;
	for (auto& b : m.builtin)
		if (b->name == n)
			return (int)O::Builtin;
	switch (m.type(n).kind)
	{
		case Kind::Scalar: return (int)O::Scalar;
		case Kind::Enum: return (int)O::Enum;
		case Kind::Union: return (int)O::Union;
		case Kind::Interface: return (int)O::Interface;
		default: return (int)O::Object;
	}
}
std::string inputs(const generator::InputFieldList& l, const std::string& indent)
{
	std::string o;
	for (auto& f : l)
		o += indent + "in " + S(f.name) + " cpp " + S(f.cppName) + " type " + typeOf(f.type, f.modifiers) + " kind " + std::to_string((int)f.fieldType) + " desc " + q(f.description)
			+ (f.defaultValueString.empty() ? " no default" : " default " + canon(fromValue(f.defaultValue)) + " text " + q(f.defaultValueString)) + "\n";
	return o;
}
std::string inputs(const Model& m, const std::vector<InVal>& l, const std::string& indent)
{
	std::string o;
	for (auto& f : l)
		o += indent + "in " + f.name + " cpp " + cppName(f.name) + " type " + typeOf(f.type) + " kind " + std::to_string(inputKind(m, f.type.name)) + " desc " + quote(f.desc)
			+ (f.def ? " default " + canon(*f.def) + " text " + quote(f.defText) : " no default") + "\n";
	return o;
}
std::string depr(const std::optional<std::string_view>& d) { return d ? " deprecated " + q(*d) : " live"; }
std::string depr(const std::optional<std::string>& d) { return d ? " deprecated " + quote(*d) : " live"; }
std::string outputs(const generator::OutputFieldList& l)
{
	std::string o;
	for (auto& f : l)
		o += "  out " + S(f.name) + " cpp " + S(f.cppName) + " type " + typeOf(f.type, f.modifiers) + " kind " + std::to_string((int)f.fieldType) + " desc " + q(f.description) + depr(f.deprecationReason)
			+ (f.interfaceField ? " interface" : "") + (f.inheritedField ? " inherited" : "") + " by " + S(f.accessor) + "\n" + inputs(f.arguments, "    ");
	return o;
}
std::string outputs(const Model& m, const TypeDef& t)
{
	std::string o;
	for (auto& f : t.fields)
	{
		bool inherited = false;
		for (auto& i : t.ifaces)
			inherited = inherited || m.type(i).field(f.name);
		o += "  out " + f.name + " cpp " + cppName(f.name) + " type " + typeOf(f.type) + " kind " + std::to_string(outputKind(m, f.type.name)) + " desc " + quote(f.desc) + depr(f.depr)
			+ (t.kind == Kind::Interface ? " interface" : "") + (inherited ? " inherited" : "") + " by " + (t.name == m.mutation && !inherited ? "apply" : "get") + "\n" + inputs(m, f.args, "    ");
	}
	return o;
}

std::string dump(const generator::SchemaLoader& l, bool& ordered)
{
	std::ostringstream o;
	auto where = [&](std::string_view n) {
		auto& p = l.getTypePosition(n);
		o << " at " << p.line << ":" << p.column;
	};
	size_t i = 0;
	auto index = [&](size_t found) {
		if (found != i)
			o << " index " << found << " instead of " << i;
		++i;
	};
	i = 0;
	std::map<std::string, std::string> in;
	std::set<std::string> before, all;
	for (auto& t : l.getInputTypes())
		all.insert(S(t.type));
	for (auto& t : l.getInputTypes())
	{
		o.str("");
		o << "input " << t.type << " cpp " << t.cppType << " desc " << q(t.description) << (l.getSchemaType(t.type) == generator::SchemaType::Input ? "" : " wrong type");
		index(l.getInputIndex(t.type));
		where(t.type);
		o << "\n" << inputs(t.fields, "  ");
		in[S(t.type)] += o.str();
		for (auto& f : t.fields)
			if (all.count(S(f.type)) && !before.count(S(f.type)))
				ordered = false;
		before.insert(S(t.type));
	}
	// The order of the input types depends on how they refer to each other.
	o.str("");
	i = 0;
	for (auto& t : l.getScalarTypes())
	{
		o << "scalar " << t.type << " desc " << q(t.description) << (l.getSchemaType(t.type) == generator::SchemaType::Scalar ? "" : " wrong type");
		index(l.getScalarIndex(t.type));
		where(t.type);
		o << "\n";
	}
	i = 0;
	for (auto& t : l.getEnumTypes())
	{
		o << "enum " << t.type << " cpp " << t.cppType << " desc " << q(t.description) << (l.getSchemaType(t.type) == generator::SchemaType::Enum ? "" : " wrong type");
		index(l.getEnumIndex(t.type));
		where(t.type);
		o << "\n";
		for (auto& v : t.values)
			o << "  value " << v.value << " cpp " << v.cppValue << " desc " << q(v.description) << depr(v.deprecationReason) << "\n";
	}
	for (auto& e : in)
		o << e.second;
	i = 0;
	for (auto& t : l.getUnionTypes())
	{
		o << "union " << t.type << " cpp " << t.cppType << " desc " << q(t.description) << (l.getSchemaType(t.type) == generator::SchemaType::Union ? "" : " wrong type");
		index(l.getUnionIndex(t.type));
		where(t.type);
		o << "\n ";
		for (auto& m : t.options)
			o << " " << m;
		o << "\n";
	}
	i = 0;
	for (auto& t : l.getInterfaceTypes())
	{
		o << "interface " << t.type << " cpp " << t.cppType << " desc " << q(t.description) << (l.getSchemaType(t.type) == generator::SchemaType::Interface ? "" : " wrong type");
		index(l.getInterfaceIndex(t.type));
		where(t.type);
		o << "\n" << outputs(t.fields);
	}
	i = 0;
	for (auto& t : l.getObjectTypes())
	{
		o << "type " << t.type << " cpp " << t.cppType << " desc " << q(t.description) << (l.getSchemaType(t.type) == generator::SchemaType::Object ? "" : " wrong type");
		index(l.getObjectIndex(t.type));
		where(t.type);
		o << "\n  implements";
		for (auto& m : t.interfaces)
			o << " " << m;
		o << "\n  unions";
		for (auto& m : t.unions)
			o << " " << m;
		o << "\n" << outputs(t.fields);
	}
	for (auto& d : l.getDirectives())
	{
		auto& p = l.getDirectivePosition(d.name);
		o << "directive " << d.name << " desc " << q(d.description) << " at " << p.line << ":" << p.column << "\n ";
		for (auto& e : d.locations)
			o << " " << e;
		o << "\n" << inputs(d.arguments, "  ");
	}
	for (auto& e : l.getOperationTypes())
		o << "operation " << e.operation << " " << e.type << " cpp " << e.cppType << "\n";
	return o.str();
}
std::string dump(const Model& m, const Sdl& sdl)
{
	std::ostringstream o;
	auto where = [&](const TypeDef& t) {
		auto& p = sdl.positions.at(t.name);
		o << " at " << p.line << ":" << p.column;
	};
	auto each = [&](Kind k, auto&& f) {
		for (auto& t : m.types)
			if (t->kind == k)
				f(*t);
	};
	each(Kind::Scalar, [&](const TypeDef& t) {
		o << "scalar " << t.name << " desc " << quote(t.desc);
		where(t);
		o << "\n";
	});
	each(Kind::Enum, [&](const TypeDef& t) {
		o << "enum " << t.name << " cpp " << cppName(t.name) << " desc " << quote(t.desc);
		where(t);
		o << "\n";
		for (auto& v : t.values)
			o << "  value " << v.name << " cpp " << cppName(v.name) << " desc " << quote(v.desc) << depr(v.depr) << "\n";
	});
	std::vector<const TypeDef*> in;
	each(Kind::Input, [&](const TypeDef& t) { in.push_back(&t); });
	std::sort(in.begin(), in.end(), [](auto a, auto b) { return a->name < b->name; });
	for (auto t : in)
	{
		o << "input " << t->name << " cpp " << cppName(t->name) << " desc " << quote(t->desc);
		where(*t);
		o << "\n" << inputs(m, t->inputs, "  ");
	}
	each(Kind::Union, [&](const TypeDef& t) {
		o << "union " << t.name << " cpp " << cppName(t.name) << " desc " << quote(t.desc);
		where(t);
		o << "\n ";
		for (auto& e : t.members)
			o << " " << e;
		o << "\n";
	});
	each(Kind::Interface, [&](const TypeDef& t) {
		o << "interface " << t.name << " cpp " << cppName(t.name) << " desc " << quote(t.desc);
		where(t);
		o << "\n" << outputs(m, t);
	});
	each(Kind::Object, [&](const TypeDef& t) {
		o << "type " << t.name << " cpp " << cppName(t.name) << " desc " << quote(t.desc);
		where(t);
		o << "\n  implements";
		for (auto& e : t.ifaces)
			o << " " << e;
		o << "\n  unions";
		each(Kind::Union, [&](const TypeDef& u) {
			for (auto& e : u.members)
				if (e == t.name)
					o << " " << u.name;
		});
		o << "\n" << outputs(m, t);
	});
	for (auto& d : m.dirs)
	{
		auto& p = sdl.directivePositions.at(d.name);
		o << "directive " << d.name << " desc " << quote(d.desc) << " at " << p.line << ":" << p.column << "\n ";
		for (auto& e : d.locs)
			o << " " << e;
		o << "\n" << inputs(m, d.args, "  ");
	}
	for (auto& e : sdl.roots)
		o << "operation " << e.first << " " << e.second << " cpp " << cppName(e.second) << "\n";
	return o.str();
}

std::string file;

void store(const std::string& text)
{
	std::ofstream f(file, std::ios::binary | std::ios::trunc);
	f << text;
}

// One inconsistency. Returns what it is, with the names of which one has to be in the error.
std::pair<std::string, std::vector<std::string>> breakModel(Model& m, Rng& r, std::string& append)
{
	std::vector<TypeDef*> by[6];
	for (auto& t : m.types)
		by[(int)t->kind].push_back(t.get());
	auto& scalars = by[0];
	auto& enums = by[1];
	auto& ins = by[2];
	auto& objects = by[3];
	auto& ifaces = by[4];
	auto& unions = by[5];
	(void)scalars;
	std::vector<TypeDef*> withFields = objects;
	withFields.insert(withFields.end(), ifaces.begin(), ifaces.end());
	std::vector<FieldDef*> fields;
	for (auto t : withFields)
		for (auto& f : t->fields)
			fields.push_back(&f);
	auto any = [&](auto& v) { return v[r.below(v.size())]; };
	// Any place of an input value.
	auto input = [&]() -> InVal* {
		switch (r.below(3))
		{
			case 0:
				if (!ins.empty())
				{
					auto t = any(ins);
					if (!t->inputs.empty())
						return &t->inputs[r.below(t->inputs.size())];
				}
				[[fallthrough]];
			case 1:
				if (!m.dirs.empty())
				{
					auto& d = m.dirs[r.below(m.dirs.size())];
					if (d.args.empty() || r.pct(30))
						d.args.push_back({ "zz", "", { "", "Int" } });
					return &d.args[r.below(d.args.size())];
				}
				[[fallthrough]];
			default:
			{
				auto f = any(fields);
				if (f->args.empty())
					f->args.push_back({ "zz", "", { "", "Int" } });
				return &f->args[r.below(f->args.size())];
			}
		}
	};
	auto outputOnly = [&] {
		std::vector<TypeDef*> v = objects;
		v.insert(v.end(), ifaces.begin(), ifaces.end());
		v.insert(v.end(), unions.begin(), unions.end());
		return any(v)->name;
	};
	static const std::vector<std::string> unknown { "Nope", "Int32", "string", "ID_", "Strin", "__Type" };
	switch (r.below(22))
	{
		case 0:
		{
			static const std::vector<std::string> builtins { "Int", "Float", "String", "Boolean", "ID" };
			auto n = r.pick(builtins);
			const std::vector<std::string> forms { "scalar " + n, "type " + n + " { a: " + m.query + " }", "enum " + n + " { A }", "interface " + n + " { a: Boolean }", "input " + n + " { b: Float }", "union " + n + " = " + m.query };
			append = r.pick(forms);
			return { "built-in type", { n } };
		}
		case 1:
		{
			auto n = r.pick(unknown);
			const std::vector<std::string> forms { "scalar " + n + " @a", "type " + n + " { a: Int }", "enum " + n + " { A }", "interface " + n + " @a", "input " + n + " { b: Float }", "union " + n + " = " + m.query, "type " + n + " @a" };
			append = "extend " + r.pick(forms);
			return { "extension of an unknown type", { n } };
		}
		case 2:
		{
			auto t = m.types[r.below(m.types.size())].get();
			std::vector<std::string> forms;
			if (t->kind != Kind::Scalar)
				forms.push_back("scalar " + t->name + " @a");
			if (t->kind != Kind::Object)
				forms.push_back("type " + t->name + " { zzz: Int }");
			if (t->kind != Kind::Enum)
				forms.push_back("enum " + t->name + " { ZZZ }");
			if (t->kind != Kind::Interface)
				forms.push_back("interface " + t->name + " { zzz: Int }");
			if (t->kind != Kind::Input)
				forms.push_back("input " + t->name + " { zzz: Int }");
			if (t->kind != Kind::Union)
				forms.push_back("union " + t->name + " = " + m.query);
			append = "extend " + r.pick(forms);
			return { "extension of another kind of type", { t->name } };
		}
		case 3:
		{
			auto f = any(fields);
			f->type.name = r.pick(unknown);
			return { "unknown field type", { f->type.name } };
		}
		case 4:
			if (!ins.empty())
			{
				auto f = any(fields);
				f->type.name = any(ins)->name;
				return { "input type of a field", { f->type.name } };
			}
			[[fallthrough]];
		case 5:
		{
			auto v = input();
			v->type.name = r.pick(unknown);
			v->def.reset();
			return { "unknown argument type", { v->type.name } };
		}
		case 6:
		case 7:
		{
			auto v = input();
			v->type.name = outputOnly();
			v->def.reset();
			return { "output type of an input", { v->type.name } };
		}
		case 8:
		{
			auto& root = r.pct(40) ? m.query : r.pct(50) ? m.mutation : m.subscription;
			root = r.pick(unknown);
			return { "unknown root", { root } };
		}
		case 9:
		{
			std::vector<TypeDef*> v = ifaces;
			v.insert(v.end(), unions.begin(), unions.end());
			v.insert(v.end(), ins.begin(), ins.end());
			v.insert(v.end(), enums.begin(), enums.end());
			auto& root = r.pct(40) ? m.query : r.pct(50) ? m.mutation : m.subscription;
			root = any(v)->name;
			return { "root which isn't an object", { root } };
		}
		case 10:
			m.query.clear();
			if (m.mutation.empty() && m.subscription.empty())
				m.mutation = any(objects)->name;
			return { "no query", { "Query" } };
		case 11:
		case 12:
		{
			auto t = any(objects);
			std::vector<std::string> names { r.pick(unknown) };
			for (auto& o : m.types)
				if (o->kind != Kind::Interface)
					names.push_back(o->name);
			auto n = r.pct(50) ? names[0] : r.pick(names);
			t->ifaces.insert(t->ifaces.begin() + (long)r.below(t->ifaces.size() + 1), n);
			return { "implements what isn't an interface", { n } };
		}
		case 13:
		case 14:
		{
			if (unions.empty())
			{
				auto& u = m.add(Kind::Union, "ZU");
				u.members = { m.query };
				unions.push_back(&u);
			}
			auto t = any(unions);
			std::vector<std::string> names { r.pick(unknown), "Int" };
			for (auto& o : m.types)
				if (o->kind != Kind::Object)
					names.push_back(o->name);
			auto n = r.pct(50) ? names[0] : r.pick(names);
			t->members.insert(t->members.begin() + (long)r.below(t->members.size() + 1), n);
			return { "union of what isn't an object", { n } };
		}
		case 15:
		case 16:
		{
			// A cycle of one to three input types, which others may refer to.
			size_t n = 1 + r.below(3);
			std::vector<std::string> names;
			for (size_t i = 0; i < n; ++i)
				names.push_back("Cyc" + std::to_string(i));
			for (size_t i = 0; i < n; ++i)
			{
				auto& t = m.add(Kind::Input, names[i]);
				InVal v;
				v.name = "next";
				v.type = { r.pick(wrappers()), names[(i + 1) % n] };
				t.inputs.push_back({ "a", "", { "", "Int" } });
				t.inputs.insert(t.inputs.begin() + (long)r.below(2), v);
				if (!ins.empty() && r.pct(50))
					t.inputs.push_back({ "other", "", { "", any(ins)->name } });
			}
			// The error may name one which only refers to the cycle.
			if (!ins.empty() && r.pct(30))
			{
				any(ins)->inputs.push_back({ "zz", "", { "", names[0] } });
				for (auto t : ins)
					names.push_back(t->name);
			}
			return { "cycle of input types", names };
		}
		case 17:
		case 18:
		{
			auto v = input();
			v->type.w = r.pct(50) ? "N" : r.pct(50) ? "NL" : "NLN";
			v->def = J();
			return { "null default of a non-null input", { v->name } };
		}
		case 19:
		{
			static const std::vector<std::string> executable { "query Q { a }", "fragment F on Query { a }", "mutation { a }", "subscription S($a: Int) { a }" };
			append = "scalar ZZ " + r.pick(executable);
			return { "executable definition", {} };
		}
		case 20:
		{
			auto v = input();
			v->def = r.pct(50) ? J::var("v") : J::list();
			if (v->def->k == J::List)
			{
				v->def->l.push_back(J::integer(1));
				v->def->l.push_back(J::var("v"));
			}
			return { "variable in a default value", { "variable" } };
		}
		default:
		{
			static const std::vector<std::string> bad { "type {", "enum E { }", "type T { }", "input I { }", "type T { a }", "type T { a: }", "type T { a: [Int }", "type T { a: Int!! }", "scalar", "union U = ", "union U = A B",
				"interface", "interface X implements { a: Int }", "directive @d FIELD", "directive d on FIELD", "directive @d on", "directive @d on NOWHERE", "schema { }", "schema { query Q }", "schema { subscribe: Q }", "extend", "extend foo A { a: Int }", "extend scalar X", "extend type X", "type T { a(): Int }", "type T { a(b): Int }",
				"type T { a(b: Int = ): Int }", "\"unfinished", "\"\"\"unfinished", "type T { a: Int", "input I { a: Int = 01 }", "type T { a: Int } }", "enum E { true }", "enum E { null A }", "\"description\"", "input I { a(b: Int): Int }", "enum E { A: 1 }", "type T & A { a: Int }", "\x7f\x01" };
			append = r.pick(bad);
			return { "syntax error", {} };
		}
	}
}

// The real generator refuses the document, too, and doesn't leave any files.
void generate(Report& r, const std::string& text, bool bad)
{
	auto dir = file + ".out";
	auto clean = "rm -rf '" + dir + "'";
	if (system((clean + "; mkdir '" + dir + "'").c_str()))
		return;
	auto rc = system(("cd '" + dir + "' && timeout 120 '" + r.opt.extra["schemagen"] + "' -s '" + file + "' -p Pre -n space > /dev/null 2> ../generator.err").c_str());
	auto files = system(("test -z \"$(ls '" + dir + "')\"").c_str());
	r.count(bad ? "refused by schemagen" : "generated");
	if (bad && WEXITSTATUS(rc) != 1)
		r.violation("schemagen ended with status " + std::to_string(WEXITSTATUS(rc)) + " for a schema with an inconsistency", text);
	if (bad && files)
		r.violation("schemagen generated files for a schema with an inconsistency", text);
	if (!bad && (rc || !files))
		r.violation("schemagen ended with status " + std::to_string(WEXITSTATUS(rc)) + " for a valid schema", text);
	if (system(clean.c_str()))
		return;
}

void run(Report& r)
{
	file = (r.opt.out.empty() ? "/tmp/p20." + std::to_string(getpid()) : r.opt.out) + ".graphql";
	forCases(r, [&](long index, uint64_t seed) {
		Rng g(seed);
		auto mp = loaderModel(g);
		auto& m = *mp;
		SdlOptions so;
		so.fancy = g.pct(60) ? 2 : (int)g.below(2);
		so.extensions = g.pct(75);
		so.directives = g.pct(75);
		bool bad = g.pct(35);
		std::string append;
		std::pair<std::string, std::vector<std::string>> broken;
		if (bad)
			broken = breakModel(m, g, append);
		Sdl sdl(g, m, so);
		sdl.bound = bad && (broken.first == "unknown root" || broken.first == "root which isn't an object");
		// At the end it's separated by a comment, which ends a layout of any kind.
		std::string text = sdl.write();
		if (!append.empty())
		{
			auto at = g.below(3);
			if (at == 0)
				text += "\n" + append;
			else if (text.compare(0, 3, "\xef\xbb\xbf") == 0 || broken.first == "syntax error")
				text += " #\n" + append + "\n";
			else
				text = append + "\n" + text;
		}
		store(text);
		r.trace(text);
		++r.evaluations;
		if (text.size() > 40)
			r.note(text);
		std::string got;
		if (r.opt.extra.count("schemagen") && index % 16 == 0)
			generate(r, text, bad);
		try
		{
			generator::SchemaLoader loader(generator::SchemaOptions { file, "Pre", "space" });
			if (bad)
			{
				r.violation("a schema with an inconsistency is accepted: " + broken.first, text);
				return;
			}
			bool ordered = true;
			got = dump(loader, ordered);
			if (!ordered)
				r.violation("an input type comes before one which it depends on", text);
			if (loader.getFilenamePrefix() != "Pre" || loader.getSchemaNamespace() != "space" || loader.isIntrospection())
				r.violation("the options are not kept", "");
		}
		catch (const std::runtime_error& ex)
		{
			std::string what = ex.what();
			if (!bad)
			{
				r.violation("a valid schema is refused: " + what, text);
				return;
			}
			r.count("refused: " + broken.first);
			if (what.empty())
				r.violation("the refusal of a schema doesn't say why: " + broken.first, text);
			bool named = broken.second.empty();
			for (auto& n : broken.second)
				named = named || what.find(n) != std::string::npos;
			if (!named)
				r.violation("the error doesn't name the offender (" + broken.first + " " + broken.second[0] + "): " + what, text);
			return;
		}
		catch (const std::exception& ex)
		{
			r.violation(std::string("unexpected exception: ") + ex.what() + (bad ? " for " + broken.first : ""), text);
			return;
		}
		auto want = dump(m, sdl);
		if (want != got)
		{
			std::istringstream a(want), b(got);
			std::string x, y;
			while (std::getline(a, x) && std::getline(b, y) && x == y)
				;
			r.violation("the schema was loaded as\n" + y + "\ninstead of\n" + x, text);
			return;
		}
		r.count("schemas");
		r.count("types", (long)m.types.size());
		for (auto& t : m.types)
		{
			r.count("fields", (long)t->fields.size());
			r.count("input fields", (long)t->inputs.size());
		}
		r.sample(text.substr(0, 600));
	});
	unlink(file.c_str());
}

} // namespace

int main(int argc, char** argv)
{
	Report r;
	r.opt = parseOptions(argc, argv);
	run(r);
	return r.finish();
}
