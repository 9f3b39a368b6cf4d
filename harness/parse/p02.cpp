// P02: random valid documents, mutations of them, and all short texts over small alphabets, through
// every entry point of the parser, compared with the reference parser.
#include "common/report.h"
#include "dump.h"
#include "refparse.h"


#include <unistd.h>

using namespace vh;
using namespace graphql;

namespace {

struct Outcome
{
	bool accepted = false;
	std::string tree, problem;
};

template <class F>
Outcome observe(F&& parse)
{
	Outcome r;
	try
	{
		auto ast = parse();
		if (!ast.root)
		{
			r.problem = "no tree";
			return r;
		}
		Dump d;
		for (auto& c : ast.root->children)
			d.node(*c);
		r.tree = std::move(d.o);
		r.accepted = true;
	}
	catch (const peg::parse_error&)
	{
	}
	catch (const std::exception& e)
	{
		r.problem = std::string("another exception: ") + e.what();
	}
	return r;
}

// ---------------------------------------------------------------------------------------------

struct Gen
{
	Rng& r;
	std::vector<std::string> t;
	int depth = 0;

	explicit Gen(Rng& rng)
		: r(rng)
	{
	}
	std::string anyName()
	{
		static const std::vector<std::string> names { "a", "b", "name", "_", "__typename", "A1", "on", "query", "mutation", "subscription", "fragment", "true", "false",
			"null", "type", "schema", "input", "extend", "onto", "nullable", "truely", "queryName", "e5", "E", "x1e5", "u0041", "fragments", "implements", "_1" };
		return r.pick(names);
	}
	std::string name(std::initializer_list<const char*> except = {})
	{
		for (;;)
		{
			auto n = anyName();
			bool bad = false;
			for (auto e : except)
				bad = bad || n == e;
			if (!bad)
				return n;
		}
	}
	std::string number()
	{
		auto digits = [&](bool lead) {
			std::string d = lead ? std::string(1, "123456789"[r.below(9)]) : std::string(1, "0123456789"[r.below(10)]);
			for (size_t n = r.below(3); n; --n)
				d += "0123456789"[r.below(10)];
			return d;
		};
		std::string s = r.pct(30) ? "-" : "";
		s += r.pct(30) ? "0" : digits(true);
		if (r.pct(40))
			s += "." + digits(false);
		if (r.pct(30))
			s += std::string(r.pct(50) ? "e" : "E") + (r.pct(30) ? "-" : r.pct(30) ? "+" : "") + digits(false);
		return s;
	}
	std::string string()
	{
		static const std::vector<std::string> plain { "a", " ", "  ", "\t", "#", ",", "{", "}", "'", "\xc3\xa9", "\xe2\x82\xac", "\xef\xbf\xbf", "\x7f", "...", "\"", "\\", "$x" };
		static const std::vector<std::string> escapes { "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\uFFFF", "\\u0000", "\\uD83D\\uDE00", "\\ud83d\\ude00\\u0041",
			"\\u0041\\u0042" };
		std::string s;
		if (r.pct(35))
		{
			for (size_t n = r.below(9); n; --n)
				switch (r.below(6))
				{
					case 0: s += r.pct(30) ? "\r\n" : "\n"; break;
					case 1: s += "\\\"\"\""; break;
					case 2: s += r.pct(50) ? "  " : "\t"; break;
					case 3: s += r.pick(escapes); break;
					case 4: s += r.pct(30) ? "\n" : "\n  "; break;
					default: s += r.pick(plain);
				}
			// No three quotes in a row other than escaped ones, and none at the end.
			std::string o;
			for (size_t i = 0; i < s.size();)
			{
				if (s.compare(i, 4, "\\\"\"\"") == 0)
				{
					o += s.substr(i, 4) + " ";
					i += 4;
				}
				else if (s[i] == '"' || s[i] == '\\')
				{
					o += std::string(1, s[i++]) + "x";
				}
				else
					o += s[i++];
			}
			return "\"\"\"" + o + "\"\"\"";
		}
		for (size_t n = r.below(6); n; --n)
		{
			auto e = r.pct(40) ? r.pick(escapes) : r.pick(plain);
			if (e != "\"" && e != "\\")
				s += e;
		}
		return "\"" + s + "\"";
	}
	void value()
	{
		++depth;
		switch (r.below(depth > 4 ? 6 : 9))
		{
			case 0: t.push_back(number()); break;
			case 1: t.push_back(string()); break;
			case 2: t.push_back(r.pct(50) ? "true" : "false"); break;
			case 3: t.push_back("null"); break;
			case 4: t.push_back(name({ "true", "false", "null" })); break;
			case 5:
				t.push_back("$");
				t.push_back(name());
				break;
			case 6:
			case 7:
				t.push_back("[");
				for (size_t n = r.below(4); n; --n)
					value();
				t.push_back("]");
				break;
			default:
				t.push_back("{");
				for (size_t n = r.below(4); n; --n)
				{
					t.push_back(name());
					t.push_back(":");
					value();
				}
				t.push_back("}");
		}
		--depth;
	}
	void args()
	{
		if (r.pct(65))
			return;
		t.push_back("(");
		for (size_t n = 1 + r.below(3); n; --n)
		{
			t.push_back(name());
			t.push_back(":");
			value();
		}
		t.push_back(")");
	}
	void dirs()
	{
		if (r.pct(75))
			return;
		for (size_t n = 1 + r.below(2); n; --n)
		{
			t.push_back("@");
			t.push_back(name());
			args();
		}
	}
	void type()
	{
		if (r.pct(30) && depth < 6)
		{
			++depth;
			t.push_back("[");
			type();
			t.push_back("]");
			--depth;
		}
		else
			t.push_back(name());
		if (r.pct(40))
			t.push_back("!");
	}
	void sels()
	{
		++depth;
		t.push_back("{");
		for (size_t n = 1 + r.below(depth > 3 ? 2 : 4); n; --n)
			switch (r.below(6))
			{
				case 0:
					t.push_back("...");
					t.push_back(name({ "on" }));
					dirs();
					break;
				case 1:
					t.push_back("...");
					if (r.pct(60))
					{
						t.push_back("on");
						t.push_back(name());
					}
					dirs();
					sels();
					break;
				default:
					if (r.pct(25))
					{
						t.push_back(name());
						t.push_back(":");
					}
					t.push_back(name());
					args();
					dirs();
					if (depth < 5 && r.pct(30))
						sels();
			}
		t.push_back("}");
		--depth;
	}
	void document()
	{
		for (size_t n = 1 + r.below(4); n; --n)
			switch (r.below(4))
			{
				case 0: sels(); break;
				case 1:
					t.push_back("fragment");
					t.push_back(name({ "on" }));
					t.push_back("on");
					t.push_back(name());
					dirs();
					sels();
					break;
				default:
					t.push_back(std::vector<std::string> { "query", "mutation", "subscription" }[r.below(3)]);
					if (r.pct(60))
						t.push_back(name());
					if (r.pct(40))
					{
						t.push_back("(");
						for (size_t k = 1 + r.below(3); k; --k)
						{
							t.push_back("$");
							t.push_back(name());
							t.push_back(":");
							type();
							if (r.pct(40))
							{
								t.push_back("=");
								value();
							}
						}
						t.push_back(")");
					}
					dirs();
					sels();
			}
	}
	// Some of these are necessary between tokens which would run into each other.
	std::string ignored(bool required, int fancy)
	{
		std::string o;
		if (fancy == 0)
			return required ? " " : "";
		for (size_t n = required + (r.pct(fancy == 2 ? 60 : 20) ? r.below(3) : 0); n; --n)
			switch (r.below(7))
			{
				case 0: o += "\n"; break;
				case 1: o += "\r\n"; break;
				case 2: o += "\t"; break;
				case 3: o += ","; break;
				case 4:
				{
					static const std::vector<std::string> c { "", " x", "\"", "#", " }", "\"\"\"", "{ a", "\\", " caf\xc3\xa9", "...F", "$" };
					o += "#" + r.pick(c) + (r.pct(30) ? "\r\n" : "\n");
					break;
				}
				default: o += " ";
			}
		return o;
	}
	std::string print(int fancy)
	{
		std::string o = r.pct(fancy == 2 ? 15 : 2) ? "\xef\xbb\xbf" : "";
		o += ignored(false, fancy);
		for (size_t i = 0; i < t.size(); ++i)
		{
			if (i)
			{
				auto word = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
				char a = t[i - 1].back(), b = t[i][0];
				bool number = isdigit((unsigned char)t[i - 1][0]) || t[i - 1][0] == '-';
				o += ignored((word(a) && word(b)) || (number && b == '.') || (a == '"' && b == '"'), fancy);
			}
			o += t[i];
		}
		// A comment may end with the document.
		return o + ignored(false, fancy) + (r.pct(fancy == 2 ? 10 : 1) ? "# end" : "");
	}
};

const std::vector<std::string> tokens { "{", "}", "(", ")", "[", "]", ":", "=", "!", "@", "$", "...", "on", "a", "query", "mutation", "fragment", "F", "true", "null", "1", "-1", "1.5", "\"s\"", "\"\"\"b\"\"\"",
	"@d", "$v", "subscription", "&", "|", "..", "\"", "\"\"\"", "#", "\\", "1.", "01", "-", ";", "?", "%", "'", "<", "\x01", "\xff", "\xf0\x9f\x98\x80" };

} // namespace

int main(int argc, char** argv)
{
	Report rep;
	rep.opt = parseOptions(argc, argv);
	long chunks = 512;
	long sweep = 1;
	if (rep.opt.extra.count("sweep"))
		sweep = std::stol(rep.opt.extra["sweep"]);
	char dir[] = "p02-XXXXXX";
	if (!mkdtemp(dir))
		return 2;
	const std::string file = std::string(dir) + "/document.graphql";

	long turn = 0;
	auto check = [&](const std::string& text, const char* what, bool valid = false) {
		if (valid)
			rep.trace(text);
		auto want = RefParser::parse(text);
		if (valid && want.verdict != RefParse::Accepted)
		{
			std::cerr << "the reference doesn't accept a generated document: " << want.reason << "\n" << text << "\n";
			exit(2);
		}
		++rep.evaluations;
		if (want.verdict == RefParse::Unknown)
		{
			rep.count("left open: " + want.reason);
			return;
		}
		rep.count(std::string(what) + (want.verdict == RefParse::Accepted ? ", accepted" : ", refused"));
		auto judge = [&](const Outcome& got, const char* entry) {
			auto detail = std::string(entry) + " of " + what + "\n" + text + "\n";
			if (!got.problem.empty())
				rep.violation(got.problem, detail);
			else if (got.accepted && want.verdict == RefParse::Refused)
				rep.violation("accepted a text which isn't a document (" + want.reason + ")", detail + "=> " + got.tree);
			else if (!got.accepted && want.verdict == RefParse::Accepted)
				rep.violation("refused a document", detail + "expected " + want.tree);
			else if (got.accepted && got.tree != want.tree)
				rep.violation("the tree differs from the document", detail + "expected " + want.tree + "\ngot      " + got.tree);
		};
		judge(observe([&] {
			// The library has its own copy, and needs no terminator.
			auto copy = std::make_unique<char[]>(text.size());
			memcpy(copy.get(), text.data(), text.size());
			auto ast = peg::parseString({ copy.get(), text.size() });
			memset(copy.get(), '#', text.size());
			return ast;
		}),
			"parseString");
		++turn;
		if (turn % 4 == 1)
		{
			judge(observe([&] { return operator""_graphql(text.data(), text.size()); }), "the literal operator");
			rep.count("literals");
		}
		if (turn % 8 == 3 && !text.empty())
		{
			std::ofstream(file, std::ios::binary | std::ios::trunc) << text;
			judge(observe([&] { return peg::parseFile(file); }), "parseFile");
			rep.count("files");
		}
		if (want.verdict == RefParse::Accepted && want.nodes > 5)
			rep.note(want.tree);
	};
	// Texts of the form prefix + x + suffix for all sequences x of up to n parts.
	struct Family
	{
		const char* name;
		std::string prefix, suffix;
		std::vector<std::string> parts;
		size_t n;
		std::string glue;
	};
	const std::vector<Family> families {
		{ "numbers", "{a(x:", ")}", { "-", "0", "1", "7", ".", "e", "+", "a" }, 5, "" },
		{ "strings", "{a(x:", ")}", { "\"", "\\", "u", "8", "D", "n", "\n", "\xc3\xa9", "x" }, 5, "" },
		{ "escapes", "{a(x:\"", "\")}", { "\\u", "D8", "dC", "00", "4", "g", "\\", "\"" }, 5, "" },
		{ "block strings", "{a(x:\"\"\"", "\"\"\")}", { "\n", " ", "\t", "x", "\\\"\"\"", "\"", "\\", "\r\n" }, 5, "" },
		{ "selections", "{", "}", { "a", ":", "...", "on", "{", "}", "@", "(x:1)", "A" }, 4, " " },
		{ "compact selections", "{", "}", { "a", ":", "...", "on", "{a}", "@d", "(x:1)", "#", "\n", "," }, 4, "" },
		{ "definitions", "", "", { "query", "{a}", "fragment", "on", "A", "(", "$v:A", ")", "@d", "true" }, 5, " " },
		{ "compact definitions", "", "", { "query", "{a}", "fragment F", " on", " A", "($v:A)", "@d", "mutation" }, 5, "" },
		{ "variables", "query(", "){a}", { "$", "v", ":", "[", "]", "!", "=", "1" }, 5, "" },
		{ "types", "query($v:", "){a}", { "[", "]", "!", "A", " ", "=1" }, 6, "" },
		{ "values", "{a(x:", ")}", { "[", "]", "{", "}", "b:", "$", "1", " c", "\"\"" }, 5, "" },
		{ "arguments", "{a", "}", { "(", ")", "x", ":", "1", ",", "$v" }, 5, "" },
		{ "ignored", "{a", "b}", { " ", "\n", "\r\n", "#", ",", "\t", "}", ":" }, 5, "" },
	};
	auto family = [&](const Family& f, long chunk) {
		for (size_t len = 0; len <= f.n; ++len)
		{
			size_t total = 1;
			for (size_t k = 0; k < len; ++k)
				total *= f.parts.size();
			for (size_t i = (size_t)chunk; i < total; i += (size_t)chunks)
			{
				// The longest ones are sampled unless it is a thorough run.
				if (len == f.n && sweep > 1 && mix(i + rep.opt.seed) % (uint64_t)sweep)
					continue;
				std::string x;
				size_t v = i;
				for (size_t k = 0; k < len; ++k, v /= f.parts.size())
					x += (k ? f.glue : "") + f.parts[v % f.parts.size()];
				check(f.prefix + f.glue + x + f.glue + f.suffix, f.name);
			}
		}
	};
	forCases(rep, [&](long index, uint64_t seed) {
		if (index < chunks)
		{
			for (auto& f : families)
				family(f, index);
			return;
		}
		Rng r(seed);
		Gen g(r);
		g.document();
		auto text = g.print((int)r.below(3));
		check(text, "random documents", true);
		rep.sample(text);
		for (int k = 0; k < 6; ++k)
		{
			// Break tokens.
			Gen b(r);
			b.t = g.t;
			for (size_t n = 1 + r.below(2); n && !b.t.empty(); --n)
			{
				size_t at = r.below(b.t.size()), to = r.below(b.t.size());
				switch (r.below(6))
				{
					case 0: b.t.erase(b.t.begin() + (long)at); break;
					case 1: b.t.insert(b.t.begin() + (long)at, tokens[r.below(tokens.size())]); break;
					case 2: b.t[at] = tokens[r.below(tokens.size())]; break;
					case 3: b.t.insert(b.t.begin() + (long)at, b.t[to]); break;
					case 4: std::swap(b.t[at], b.t[to]); break;
					default: b.t.resize(at + 1);
				}
			}
			if (!b.t.empty())
				check(b.print((int)r.below(3)), "broken tokens");
		}
		for (int k = 0; k < 6; ++k)
		{
			// Break characters.
			auto s = text;
			for (size_t n = 1 + r.below(3); n && !s.empty(); --n)
			{
				size_t at = r.below(s.size());
				static const std::string chars = "{}()[]:=!@$.#\"\\,\n\r\t abcdefnu0123456789-+eE_&|\xc3\xa9\xff\x01";
				switch (r.below(5))
				{
					case 0: s.erase(at, 1); break;
					case 1: s.insert(at, 1, chars[r.below(chars.size())]); break;
					case 2: s[at] = chars[r.below(chars.size())]; break;
					case 3: s.insert(at, s.substr(r.below(s.size()), r.below(6))); break;
					default: s.resize(at);
				}
			}
			check(s, "broken characters");
		}
	});
	if (rep.opt.shard == 0 && rep.opt.only < 0)
	{
		// Known: a carriage return without a line feed is a line terminator, too.
		std::string failed;
		auto comment = observe([] { return peg::parseString("{a #\rb}"); });
		if (!comment.accepted)
			failed += "it doesn't end a comment; ";
		auto line = observe([] { return peg::parseString("{\ra}"); });
		if (line.tree.find("(field@2:1") == std::string::npos)
			failed += "it doesn't start a new line; ";
		if (observe([] { return peg::parseString("{a(b:\"\r\")}"); }).accepted)
			failed += "it is accepted in a string; ";
		if (!failed.empty())
			rep.finding("lone-cr", "a carriage return without a line feed is not a line terminator: " + failed);
	}
	unlink(file.c_str());
	rmdir(dir);
	return rep.finish();
}
