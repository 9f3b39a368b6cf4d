// Writes the schema and the request of a case, the options of the generator, and what knows the types of
// the generated client.   emitclient --seed N --out DIR
#include "../common/report.h"
#include "client.h"
using namespace vh;

namespace {

struct Emitter
{
	const ClientCase& c;
	std::string o;
	int counter = 0;

	std::string base(const std::string& n) const
	{
		static const std::map<std::string, std::string> builtin { { "Int", "IntType" }, { "Float", "FloatType" }, { "String", "StringType" }, { "Boolean", "BooleanType" }, { "ID", "IdType" } };
		auto it = builtin.find(n);
		if (it != builtin.end())
			return "graphql::response::" + it->second;
		switch (c.type(n).kind)
		{
			case Kind::Scalar: return "graphql::response::Value";
			case Kind::Enum: return c.scope + "::" + cppName(n);
			default: return c.scope + "::Variables::" + cppName(n);
		}
	}
	std::string chain(const TR& t, const std::string& inner) const
	{
		auto in = t.nonNull() ? TR { t.w.substr(1), t.name } : t;
		auto text = in.isList() ? "std::vector<" + chain(in.item(), inner) + ">" : inner;
		return t.nonNull() ? text : "std::optional<" + text + ">";
	}
	std::string record(const std::vector<Member>& l)
	{
		std::vector<std::string> subs;
		for (auto& m : l)
			subs.push_back(m.composite ? record(m.sub) : "");
		auto name = "record" + std::to_string(counter++);
		o += "template <class T> J " + name + "(const T& v) { auto o = J::map();\n\tstatic_assert(std::is_class_v<T>);\n";
		for (size_t i = 0; i < l.size(); ++i)
		{
			auto& m = l[i];
			auto member = "v." + m.cpp;
			o += "\tstatic_assert(std::is_same_v<std::remove_cv_t<std::remove_reference_t<decltype(" + member + ")>>, "
				+ chain(m.type, m.composite ? "InnerT<decltype(" + member + ")>" : base(m.type.name)) + ">);\n";
			o += "\to.add(\"" + m.key + "\", through(" + member + ", [](const auto& e) { return " + (m.composite ? subs[i] : "toJ") + "(e); }));\n";
		}
		o += "\treturn o; }\n";
		return name;
	}
	std::string driver()
	{
		o = "#include \"gen/clientglue.h\"\n#include \"" + c.prefix + "Client.h\"\n";
		o += "namespace " + c.scope + " {\nusing vh::J; using vh::set; using vh::toJ; using vh::through; using vh::InnerT;\n";
		for (auto& n : c.enums)
		{
			auto& t = c.type(n);
			auto cpp = cppName(n);
			o += "static_assert(std::is_enum_v<" + cpp + ">);\n";
			o += "[[maybe_unused]] static J toJ(const " + cpp + "& v) { switch (v) {\n";
			for (auto& v : t.values)
				o += "\tcase " + cpp + "::" + cppName(v.name) + ": return J::enumv(\"" + v.name + "\");\n";
			o += "\t} return J::str(\"not a value\"); }\n";
			o += "[[maybe_unused]] static void set(" + cpp + "& o, const J& j) {\n";
			for (auto& v : t.values)
				o += "\tif (j.s == \"" + v.name + "\") o = " + cpp + "::" + cppName(v.name) + ";\n";
			o += "}\n";
		}
		if (!c.op->vars.empty())
		{
			for (auto& n : c.inputs)
				o += "[[maybe_unused]] static void set(Variables::" + cppName(n) + "& o, const J& j);\n";
			auto setter = [&](const std::string& name, const std::string& cpp, const TR& type) {
				o += "\tstatic_assert(std::is_same_v<decltype(o." + cpp + "), " + chain(type, base(type.name)) + ">);\n";
				o += "\tif (auto p = j.get(\"" + name + "\")) set(o." + cpp + ", *p);\n";
			};
			for (auto& n : c.inputs)
			{
				o += "static void set(Variables::" + cppName(n) + "& o, const J& j) {\n";
				for (auto& f : c.type(n).inputs)
					setter(f.name, cppName(f.name), f.type);
				o += "}\n";
			}
			o += "static void set(Variables& o, const J& j) {\n";
			for (auto& v : c.op->vars)
				setter(v.name, cppName(v.name), v.type);
			o += "}\n";
			o += "static J serialize(const J& j) { Variables v; set(v, j); return vh::fromValue(serializeVariables(std::move(v))); }\n";
		}
		auto top = record(c.members);
		o += "static J parse(graphql::response::Value&& v) { return " + top + "(parseResponse(std::move(v))); }\n}\n";
		o += "namespace vh {\nextern const ClientUnderTest clientUnderTest;\nconst ClientUnderTest clientUnderTest { ";
		o += (c.op->vars.empty() ? "nullptr" : c.scope + "::serialize") + ", " + c.scope + "::parse, " + c.scope + "::GetRequestText, " + c.scope + "::GetRequestObject };\n}\n";
		return o;
	}
};

} // namespace

int main(int argc, char** argv)
{
	auto opt = parseOptions(argc, argv);
	auto c = makeClientCase(opt.seed);
	auto write = [&](const std::string& name, const std::string& text) {
		std::ofstream f(opt.out + "/" + name, std::ios::binary);
		f << text;
	};
	write("schema.graphql", c.sdl);
	write("request.graphql", c.request);
	for (size_t i = 0; i < c.invalid.size(); ++i)
		write("invalid" + std::to_string(i) + ".graphql", c.invalid[i]);
	std::string what;
	for (auto& w : c.what)
		what += w + "\n";
	write("what", what);
	write("driver.cpp", Emitter { c }.driver());
	std::string options = "-p\n" + c.prefix + "\n-n\n" + c.space + "\n";
	if (!c.operation.empty())
		options += "-o\n" + c.operation + "\n";
	if (!c.introspection)
		options += "--no-introspection\n";
	if (c.headers)
		options += "--header-dir\ninc\n";
	if (c.sources)
		options += "--source-dir\nsrc\n";
	write("options", options);
	return 0;
}
