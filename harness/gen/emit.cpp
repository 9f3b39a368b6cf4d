// Writes the schema of a case, the options of the generator, and a service in C++ which implements the
// generated classes.   emit --seed N --out DIR
#include "../common/report.h"
#include "gencase.h"
using namespace vh;

namespace {

struct Emitter
{
	const GenCase& c;
	const Model& m;
	std::string ns;

	std::string base(const std::string& n, bool& object) const
	{
		object = false;
		static const std::map<std::string, std::string> builtin { { "Int", "IntType" }, { "Float", "FloatType" }, { "String", "StringType" }, { "Boolean", "BooleanType" }, { "ID", "IdType" } };
		auto it = builtin.find(n);
		if (it != builtin.end())
			return "graphql::response::" + it->second;
		switch (m.type(n).kind)
		{
			case Kind::Scalar: return "graphql::response::Value";
			case Kind::Enum:
			case Kind::Input: return ns + "::" + cppName(n);
			case Kind::Object: object = true; return "std::shared_ptr<" + ns + "::object::" + cppName(n) + ">";
			default: object = true; return "std::shared_ptr<graphql::service::Object>";
		}
	}
	std::string type(const TR& t) const
	{
		auto in = t.nonNull() ? TR { t.w.substr(1), t.name } : t;
		bool object = false;
		auto inner = in.isList() ? "std::vector<" + type(in.item()) + ">" : base(t.name, object);
		return t.nonNull() || object ? inner : "std::optional<" + inner + ">";
	}
	std::string driver() const
	{
		std::string o = "#include \"gen/glue.h\"\n#include \"" + c.prefix + (c.separate ? "Objects.h" : "Schema.h") + "\"\n";
		if (c.separate)
			o += "#include \"" + c.prefix + "Schema.h\"\n";
		// Arguments.
		o += "namespace " + ns + " {\nusing vh::J; using vh::toJ;\n";
		for (auto& t : m.types)
			if (t->kind == Kind::Enum)
			{
				auto n = cppName(t->name);
				o += "inline J toJ(const " + n + "& v) { switch (v) {\n";
				for (auto& v : t->values)
					o += "\tcase " + n + "::" + cppName(v.name) + ": return J::enumv(\"" + v.name + "\");\n";
				o += "\t} return J::str(\"not a value\"); }\n";
			}
		for (auto& t : m.types)
			if (t->kind == Kind::Input)
				o += "J toJ(const " + cppName(t->name) + "& v);\n";
		for (auto& t : m.types)
			if (t->kind == Kind::Input)
			{
				o += "J toJ(const " + cppName(t->name) + "& v) { auto o = J::map();\n";
				for (auto& f : t->inputs)
				{
					o += "\tstatic_assert(std::is_same_v<decltype(v." + cppName(f.name) + "), " + type(f.type) + ">);\n";
					o += "\to.add(\"" + f.name + "\", toJ(v." + cppName(f.name) + "));\n";
				}
				o += "\treturn o; }\n";
			}
		o += "}\nnamespace vh {\n";
		for (auto& t : m.types)
			if (t->kind == Kind::Enum)
			{
				auto n = ns + "::" + cppName(t->name);
				o += "template <> struct Make<" + n + "> { static " + n + " make(OutVal& v, const CtxP&, const TypeDef*) {\n";
				for (auto& v : t->values)
					o += "\tif (v.leaf.s == \"" + v.name + "\") return " + n + "::" + cppName(v.name) + ";\n";
				o += "\tthrow std::logic_error(\"enum\"); } };\n";
			}
		for (auto& t : m.types)
		{
			if (t->kind != Kind::Object)
				continue;
			auto n = cppName(t->name);
			o += "struct Impl_" + n + " : " + ns + "::object::" + n + " {\n\tGen g;\n";
			o += "\tImpl_" + n + "(const CtxP& c, uint64_t id, const std::string& bad) : g(c, \"" + t->name + "\", id, bad) {}\n";
			o += "\tvoid beginSelectionSet(const graphql::service::SelectionSetParams& p) const override { g.begin(p); }\n";
			o += "\tvoid endSelectionSet(const graphql::service::SelectionSetParams& p) const override { g.end(p); }\n";
			for (auto& f : t->fields)
			{
				if (c.missing.count(t->name + "." + f.name))
					continue;
				auto res = type(f.type);
				o += "\tgraphql::service::FieldResult<" + res + "> " + c.accessor(*t, f) + "(graphql::service::FieldParams&& p";
				for (size_t i = 0; i < f.args.size(); ++i)
					o += ", " + type(f.args[i].type) + "&& a" + std::to_string(i);
				o += ") const override { return g.call<" + res + ">(\"" + f.name + "\", std::move(p), {";
				for (size_t i = 0; i < f.args.size(); ++i)
					o += (i ? ", " : " ") + ("toJ(a" + std::to_string(i)) + ")";
				o += " }); }\n";
			}
			o += "};\n";
			for (auto& i : t->ifaces)
				o += "static_assert(std::is_base_of_v<" + ns + "::" + cppName(i) + ", " + ns + "::object::" + n + ">);\n";
		}
		o += "static std::shared_ptr<graphql::service::Object> makeGenerated(const CtxP& c, const std::string& type, uint64_t id, const std::string& bad) {\n";
		for (auto& t : m.types)
			if (t->kind == Kind::Object)
				o += "\tif (type == \"" + t->name + "\") return std::make_shared<Impl_" + cppName(t->name) + ">(c, id, bad);\n";
		o += "\tthrow std::logic_error(type); }\n";
		o += "static Service makeGeneratedService(const CtxP& c) {\n\tc->object = makeGenerated;\n\tService s;\n";
		o += "\ts.svc = construct<" + ns + "::Operations>(";
		bool first = true;
		for (auto& op : { std::pair<std::string, const char*> { m.query, "QueryId" }, { m.mutation, "MutationId" }, { m.subscription, "SubscriptionId" } })
			if (!op.first.empty())
			{
				o += std::string(first ? "" : ", ") + "std::make_shared<Impl_" + cppName(op.first) + ">(c, " + op.second + ", \"\")";
				first = false;
			}
		o += ");\n\ts.schema = " + ns + "::GetSchema();\n\treturn s; }\n";
		o += "extern const GeneratedService generatedService;\nconst GeneratedService generatedService { makeGeneratedService };\n}\n";
		return o;
	}
};

} // namespace

int main(int argc, char** argv)
{
	auto opt = parseOptions(argc, argv);
	auto c = makeGenCase(opt.seed);
	auto write = [&](const std::string& name, const std::string& text) {
		std::ofstream f(opt.out + "/" + name, std::ios::binary);
		f << text;
	};
	write("schema.graphql", c.sdl);
	write("driver.cpp", Emitter { c, *c.model, "graphql::" + c.space }.driver());
	std::string options = "-p\n" + c.prefix + "\n-n\n" + c.space + "\n";
	if (c.separate)
		options += "--separate-files\n";
	if (!c.stubs)
		options += "--no-stubs\n";
	if (!c.introspection)
		options += "--no-introspection\n";
	if (c.headers)
		options += "--header-dir\ninc\n";
	write("options", options);
	return 0;
}
