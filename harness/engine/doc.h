// A model of an executable document, a generator of valid ones, and a printer with random layout.
#pragma once
#include "model.h"

namespace vh {

struct Pos
{
	size_t line = 0, column = 0;
};
struct Dir
{
	std::string name;
	std::vector<std::pair<std::string, J>> args;
	Pos pos;
};
struct Sel
{
	enum K { Field, Spread, Inline } k = Field;
	std::string alias, name; // name of the field or fragment
	std::string on;          // type condition of an inline fragment
	std::vector<std::pair<std::string, J>> args;
	std::vector<Dir> dirs;
	std::vector<Sel> sub;
	bool hasSub = false;
	Pos pos;
	const std::string& key() const { return alias.empty() ? name : alias; }
};
struct VarDef
{
	std::string name;
	TR type;
	std::optional<J> def;
	Pos pos;
};
struct Op
{
	std::string kind = "query", name;
	bool shorthand = false;
	std::vector<VarDef> vars;
	std::vector<Dir> dirs;
	std::vector<Sel> sels;
	Pos pos;
};
struct Frag
{
	std::string name, on;
	std::vector<Dir> dirs;
	std::vector<Sel> sels;
	Pos pos;
};
struct Doc
{
	std::vector<Op> ops;
	std::vector<Frag> frags;
	std::vector<int> order; // >= 0: ops[i]; < 0: frags[-1 - i]
	std::set<std::string> noOmit; // variables for which a missing value isn't the same as a null
	std::set<std::string> noNull; // nullable variables in non-null positions, which have a default
	const Frag* frag(const std::string& n) const
	{
		for (auto& f : frags)
			if (f.name == n)
				return &f;
		return nullptr;
	}
};

// ---------------------------------------------------------------------------------------------
// Printing.

struct Layout
{
	int fancy = 1; // 0: compact, 1: some variety, 2: hostile
	bool bom = false;
};

class Printer
{
public:
	Printer(Rng& r, const Layout& l)
		: _r(r)
		, _l(l)
	{
		if (l.bom)
			_o += "\xef\xbb\xbf";
	}
	std::string print(Doc& d)
	{
		if (_l.fancy)
			ignored(false);
		for (auto i : d.order)
		{
			if (i >= 0)
				op(d.ops[(size_t)i]);
			else
				frag(d.frags[(size_t)(-1 - i)]);
		}
		if (_l.fancy)
			ignored(false);
		return _o;
	}
	static bool nameChar(char c)
	{
		return isalnum((unsigned char)c) || c == '_';
	}
	// Literals and types can be printed alone, too.
	void literal(const J& j)
	{
		switch (j.k)
		{
			case J::Null: tok("null"); break;
			case J::Bool: tok(j.b ? "true" : "false"); break;
			case J::Int: tok(std::to_string(j.i)); break;
			case J::Float: tok(floatText(j.d)); break;
			case J::Str: tok(stringText(j.s)); break;
			case J::Enum: tok(j.s); break;
			case J::Var: sigil("$", j.s); break;
			case J::List:
				tok("[");
				for (auto& e : j.l)
					literal(e);
				tok("]");
				break;
			case J::Map:
				tok("{");
				for (auto& e : j.m)
				{
					tok(e.first);
					tok(":");
					literal(e.second);
				}
				tok("}");
				break;
		}
	}
	const std::string& text() const { return _o; }

protected:
	Rng& _r;
	Layout _l;
	std::string _o;
	size_t _token = 0; // where the last token starts

	std::string floatText(double d)
	{
		auto t = fmtDouble(d);
		auto e = t.find('e');
		if (t.find('.') == std::string::npos && e == std::string::npos)
			t += _r.pct(50) ? ".0" : "e0";
		else if (e != std::string::npos && _l.fancy)
		{
			std::string m = t.substr(0, e), x = t.substr(e + 1);
			if (x[0] == '+' && _r.pct(50))
				x = x.substr(1);
			t = m + (_r.pct(50) ? "e" : "E") + x;
		}
		return t;
	}
	// A block string keeps its text as it is as long as the text has no indentation, no blank lines at
	// its ends, and no carriage returns or control characters.
	static bool blockable(const std::string& s)
	{
		if (s.empty() || s[0] == ' ' || s[0] == '\t' || s[0] == '\n' || s[0] == '"' || s.back() == '\n' || s.back() == ' ' || s.back() == '\t' || s.back() == '"'
			|| s.back() == '\\')
			return false;
		for (size_t i = 0; i < s.size(); ++i)
		{
			unsigned char c = (unsigned char)s[i];
			if ((c < 0x20 && c != '\n' && c != '\t') || c == 0x7f || c >= 0xf0)
				return false;
			if (c == '\n' && (s[i + 1] == ' ' || s[i + 1] == '\t' || s[i + 1] == '\n'))
				return false;
		}
		return true;
	}
	std::string stringText(const std::string& s)
	{
		if (_l.fancy && blockable(s) && _r.pct(15))
		{
			std::string o = "\"\"\"", indent, eol = _r.pct(20) ? "\r\n" : "\n";
			// The common indentation, and blank lines around the text, aren't part of it.
			const bool indented = _r.pct(50);
			if (indented)
			{
				for (size_t i = _r.below(5); i > 0; --i)
					indent += _r.pct(80) ? ' ' : '\t';
				for (size_t i = _r.below(3); i > 0; --i)
					o += (_r.pct(30) ? "  " : _r.pct(30) ? indent + "\t" : "") + eol;
				o += eol + indent;
			}
			for (size_t i = 0; i < s.size();)
			{
				if (s.compare(i, 3, "\"\"\"") == 0)
				{
					o += "\\\"\"\"";
					i += 3;
				}
				else if (s[i] == '\n')
				{
					o += eol + indent;
					++i;
				}
				else
					o += s[i++];
			}
			if (indented)
				for (size_t i = _r.below(3); i > 0; --i)
					o += eol + (_r.pct(50) ? indent : " ");
			// A quote right before the end would be taken for a part of it, blockable prevents it.
			return o + "\"\"\"";
		}
		std::string o = "\"";
		for (size_t i = 0; i < s.size();)
		{
			unsigned char c = (unsigned char)s[i];
			uint32_t cp = c;
			size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
			if (n == 2)
				cp = (c & 31u) << 6 | ((unsigned char)s[i + 1] & 63u);
			else if (n == 3)
				cp = (c & 15u) << 12 | ((unsigned char)s[i + 1] & 63u) << 6 | ((unsigned char)s[i + 2] & 63u);
			else if (n == 4)
				cp = (c & 7u) << 18 | ((unsigned char)s[i + 1] & 63u) << 12 | ((unsigned char)s[i + 2] & 63u) << 6 | ((unsigned char)s[i + 3] & 63u);
			auto hex = [&](uint32_t u) {
				char b[8];
				snprintf(b, sizeof b, _r.pct(50) ? "\\u%04X" : "\\u%04x", u);
				return std::string(b);
			};
			static const std::map<char, char> shorts { { '"', '"' }, { '\\', '\\' }, { '\b', 'b' }, { '\f', 'f' }, { '\n', 'n' }, { '\r', 'r' }, { '\t', 't' } };
			auto sh = n == 1 ? shorts.find((char)c) : shorts.end();
			if (n == 4)
			{
				// Outside of the source character range, so as a surrogate pair.
				o += hex(0xd800 + ((cp - 0x10000) >> 10)) + hex(0xdc00 + ((cp - 0x10000) & 0x3ff));
			}
			else if (sh != shorts.end() && !(c == '\t' && _r.pct(30)))
				o += _r.pct(80) ? std::string("\\") + sh->second : hex(c);
			else if (c == '/' && _r.pct(30))
				o += "\\/";
			else if ((c < 0x20 && c != '\t') || (n <= 3 && _l.fancy && _r.pct(5)))
				o += hex(cp);
			else
				o += s.substr(i, n);
			i += n;
		}
		return o + "\"";
	}
	// Whitespace, line ends, commas and comments.
	void ignored(bool required)
	{
		if (_l.fancy == 0)
		{
			if (required)
				_o += ' ';
			return;
		}
		bool any = false;
		int n = _l.fancy == 2 ? (int)_r.below(4) : _r.pct(30) ? 1 : 0;
		for (int i = 0; i < n || (required && !any); ++i)
		{
			any = true;
			switch (_r.below(_l.fancy == 2 ? 8 : 5))
			{
				case 0:
				case 1: _o += ' '; break;
				case 2: _o += '\n'; break;
				case 3: _o += "\t"; break;
				case 4: _o += ", "; break;
				case 5: _o += "\r\n"; break;
				case 6: _o += ",,"; break;
				default:
				{
					static const std::vector<std::string> c { "", " comment", " \"quoted {", "# }", " caf\xc3\xa9", "\"\"\"", " query Q { a }", "...F", ", \\ \t" };
					_o += "#" + _r.pick(c) + (_r.pct(30) ? "\r\n" : "\n");
				}
			}
		}
	}
	// Returns where the token starts.
	Pos tok(const std::string& t)
	{
		bool required = false;
		if (!_o.empty() && !t.empty())
		{
			char a = _o.back(), b = t[0];
			// Names and numbers run into each other, and so do two strings, or a number and a spread.
			if ((nameChar(a) && nameChar(b)) || (a == '"' && b == '"') || (nameChar(a) && b == '-' && false) || (isdigit((unsigned char)a) && b == '.'))
				required = true;
		}
		if (!_o.empty() && _l.fancy != 0)
			ignored(required);
		else if (required)
			_o += ' ';
		Pos p = here();
		_token = _o.size();
		_o += t;
		return p;
	}
	Pos sigil(const char* c, const std::string& name)
	{
		if (_l.fancy != 2 || _r.pct(80))
			return tok(c + name);
		auto p = tok(c);
		tok(name);
		return p;
	}
	Pos here() const
	{
		Pos p { 1, 1 };
		size_t start = _o.compare(0, 3, "\xef\xbb\xbf") == 0 ? 3 : 0;
		for (size_t i = start; i < _o.size(); ++i)
		{
			if (_o[i] == '\n')
			{
				++p.line;
				p.column = 1;
			}
			else
				++p.column;
		}
		if (p.line == 1)
			p.column += start;
		return p;
	}
	void args(std::vector<std::pair<std::string, J>>& a)
	{
		if (a.empty())
			return;
		tok("(");
		for (auto& e : a)
		{
			tok(e.first);
			tok(":");
			literal(e.second);
		}
		tok(")");
	}
	void dirs(std::vector<Dir>& d)
	{
		for (auto& e : d)
		{
			e.pos = sigil("@", e.name);
			args(e.args);
		}
	}
	void type(const TR& t)
	{
		if (t.w.empty())
			tok(t.name);
		else if (t.w[0] == 'N')
		{
			type({ t.w.substr(1), t.name });
			tok("!");
		}
		else
		{
			tok("[");
			type({ t.w.substr(1), t.name });
			tok("]");
		}
	}
	void sels(std::vector<Sel>& s)
	{
		tok("{");
		for (auto& e : s)
			sel(e);
		tok("}");
	}
	void sel(Sel& s)
	{
		switch (s.k)
		{
			case Sel::Field:
				if (!s.alias.empty())
				{
					s.pos = tok(s.alias);
					tok(":");
					tok(s.name);
				}
				else
					s.pos = tok(s.name);
				args(s.args);
				dirs(s.dirs);
				if (s.hasSub)
					sels(s.sub);
				break;
			case Sel::Spread:
				s.pos = tok("...");
				tok(s.name);
				dirs(s.dirs);
				break;
			case Sel::Inline:
				s.pos = tok("...");
				if (!s.on.empty())
				{
					tok("on");
					tok(s.on);
				}
				dirs(s.dirs);
				sels(s.sub);
				break;
		}
	}
	void op(Op& o)
	{
		if (o.shorthand)
		{
			auto before = _o.size();
			sels(o.sels);
			(void)before;
			return;
		}
		o.pos = tok(o.kind);
		if (!o.name.empty())
			tok(o.name);
		if (!o.vars.empty())
		{
			tok("(");
			for (auto& v : o.vars)
			{
				v.pos = sigil("$", v.name);
				tok(":");
				type(v.type);
				if (v.def)
				{
					tok("=");
					literal(*v.def);
				}
			}
			tok(")");
		}
		dirs(o.dirs);
		sels(o.sels);
	}
	void frag(Frag& f)
	{
		f.pos = tok("fragment");
		tok(f.name);
		tok("on");
		tok(f.on);
		dirs(f.dirs);
		sels(f.sels);
	}
};

inline std::string printDoc(Doc& d, Rng& r, Layout l = {})
{
	return Printer(r, l).print(d);
}

// ---------------------------------------------------------------------------------------------
// Generation.

struct DocOptions
{
	int ops = 2;           // at most
	int depth = 4;         // of selection sets
	int width = 4;         // of selection sets
	int custom = 25;       // % of places with custom directives
	int skips = 15;        // % of places with skip or include
	int vars = 30;         // % of argument values which are variables
	int frags = 20;        // % of selections which are spreads
	int inlines = 20;      // % of selections which are inline fragments
	int dups = 8;          // % of selections which repeat a leaf
	std::string only;      // only this kind of operations
	bool subscriptions = true;
	bool omitArgs = true;
	int introspect = 0;    // % of query root selections which are __schema or __type
};

class DocGen
{
public:
	DocGen(const Model& m, Rng& r, const DocOptions& o)
		: _m(m)
		, _r(r)
		, _opt(o)
	{
	}
	Doc make()
	{
		size_t n = 1 + _r.below((size_t)_opt.ops);
		for (size_t i = 0; i < n; ++i)
		{
			Op op;
			if (!_opt.only.empty() && !_m.root(_opt.only).empty())
				op.kind = _opt.only;
			else
			{
				std::vector<std::string> kinds { "query", "query", "query" };
				if (!_m.mutation.empty())
					kinds.push_back("mutation");
				if (!_m.subscription.empty() && _opt.subscriptions)
					kinds.push_back("subscription");
				op.kind = _r.pick(kinds);
			}
			if (n > 1 || _r.pct(70))
				op.name = opName();
			_vars.clear();
			_budget = 60;
			auto& root = _m.root(op.kind);
			op.dirs = directives(op.kind == "query" ? "QUERY" : op.kind == "mutation" ? "MUTATION" : "SUBSCRIPTION", false);
			Scope scope;
			if (op.kind == "subscription")
				op.sels = subscriptionRoot(root);
			else
				op.sels = selections(root, _opt.depth, scope, false, true);
			_d.ops.push_back(std::move(op));
		}
		for (auto& op : _d.ops)
			finish(op);
		dropUnused();
		for (size_t i = 0; i < _d.ops.size(); ++i)
			_d.order.push_back((int)i);
		for (size_t i = 0; i < _d.frags.size(); ++i)
			_d.order.push_back(-1 - (int)i);
		_r.shuffle(_d.order);
		if (_d.ops.size() == 1)
		{
			auto& op = _d.ops[0];
			if (op.kind == "query" && op.vars.empty() && op.dirs.empty() && _r.pct(50))
			{
				op.shorthand = true;
				op.name.clear();
			}
		}
		return std::move(_d);
	}

private:
	struct PoolVar
	{
		TR type;
		bool def;
	};
	struct Scope
	{
		std::set<std::string> composite; // plain names of composite fields which are taken
	};
	const Model& _m;
	Rng& _r;
	DocOptions _opt;
	Doc _d;
	std::map<std::string, PoolVar> _pool;
	std::set<std::string> _vars;
	std::map<std::string, std::string> _leafKeys; // response key -> signature
	std::set<std::string> _compositePlain, _aliases, _opNames;
	std::vector<std::string> _complete; // finished fragments
	int _budget = 60, _counter = 0;
	bool _inDirective = false;

	std::string opName()
	{
		static const std::vector<std::string> names { "Q", "Q1", "query", "Op", "Operation", "mutation", "_", "A", "AB", "ABC" };
		for (;;)
		{
			auto n = _r.pick(names);
			if (_r.pct(30))
				n += std::to_string(_r.below(50));
			if (_opNames.insert(n).second)
				return n;
		}
	}
	std::string unique(const char* stem)
	{
		return stem + std::to_string(_counter++);
	}

	// A value for this position: a literal, which may have variables in it.
	J value(const TR& t, bool hasDefault, bool top, int depth = 3)
	{
		if (_r.pct(top ? _opt.vars : _opt.vars / 3))
		{
			auto n = variable(t, hasDefault);
			if (hasDefault || _inDirective)
				_d.noOmit.insert(n);
			auto& v = _pool.at(n);
			if (t.nonNull() && !v.type.nonNull() && !v.def)
				_d.noNull.insert(n);
			return J::var(n);
		}
		if (!t.nonNull() && _r.pct(10))
			return J();
		if (t.isList())
		{
			auto l = J::list();
			for (size_t n = _r.below(4); n; --n)
				l.l.push_back(value(t.item(), false, false, depth - 1));
			return l;
		}
		auto& d = _m.type(t.name);
		if (d.kind == Kind::Input)
		{
			auto o = J::map();
			std::vector<const InVal*> fs;
			for (auto& f : d.inputs)
				fs.push_back(&f);
			_r.shuffle(fs);
			for (auto f : fs)
				if ((f->type.nonNull() && !f->def) || _r.pct(depth > 0 ? 60 : 0))
					o.add(f->name, value(f->type, f->def.has_value(), false, depth - 1));
			return o;
		}
		return randomConst(_m, _r, { "N", t.name });
	}
	std::string variable(const TR& t, bool hasDefault)
	{
		// An existing one which is allowed here?
		std::vector<std::string> usable;
		for (auto& v : _pool)
			if (allowed(v.second, t, hasDefault))
				usable.push_back(v.first);
		if (!usable.empty() && _r.pct(60))
			return _r.pick(usable);
		PoolVar v { t, false };
		if (t.nonNull())
		{
			if (_r.pct(25))
			{
				v.type = t.nullable();
				// The default of the position is as good as one of the variable.
				v.def = !hasDefault || _r.pct(50);
			}
		}
		else
		{
			if (_r.pct(30))
				v.type.w = "N" + v.type.w;
			else if (_r.pct(40))
				v.def = true;
			if (wrapperIndex(v.type.w) < 0)
				v.type = t;
		}
		static const std::vector<std::string> stems { "v", "a", "b", "id", "on", "type", "x", "query", "_" };
		for (;;)
		{
			auto n = _r.pick(stems) + (_r.pct(70) ? std::to_string(_pool.size()) : "");
			if (_pool.emplace(n, v).second)
				return n;
		}
	}
	static bool covers(const TR& var, const TR& loc)
	{
		if (var.name != loc.name)
			return false;
		// strip in step
		std::string a = var.w, b = loc.w;
		for (;;)
		{
			if (!b.empty() && b[0] == 'N')
			{
				if (a.empty() || a[0] != 'N')
					return false;
				a = a.substr(1);
				b = b.substr(1);
				continue;
			}
			if (!a.empty() && a[0] == 'N')
			{
				a = a.substr(1);
				continue;
			}
			if (a.empty() || b.empty())
				return a.empty() && b.empty();
			a = a.substr(1);
			b = b.substr(1);
		}
	}
	static bool allowed(const PoolVar& v, const TR& t, bool hasDefault)
	{
		if (t.nonNull() && !v.type.nonNull())
			return (v.def || hasDefault) && covers(v.type, t.nullable());
		return covers(v.type, t);
	}
	std::vector<Dir> directives(const std::string& loc, bool conditional)
	{
		std::vector<Dir> r;
		if (conditional)
			for (auto n : { "skip", "include" })
				if (_r.pct(_opt.skips / 2))
				{
					Dir d;
					d.name = n;
					bool takes = n[0] == 'i';
					J v = _r.pct(_opt.vars) ? J::var(variable({ "N", "Boolean" }, false)) : J::boolean(_r.pct(25) ? !takes : takes);
					d.args.emplace_back("if", v);
					r.push_back(std::move(d));
				}
		for (auto& dd : _m.dirs)
			if (dd.at(loc) && _r.pct(_opt.custom))
			{
				Dir d;
				d.name = dd.name;
				_inDirective = true;
				d.args = arguments(dd.args, true);
				_inDirective = false;
				r.push_back(std::move(d));
			}
		_r.shuffle(r);
		return r;
	}
	std::vector<std::pair<std::string, J>> arguments(const std::vector<InVal>& defs, bool)
	{
		std::vector<std::pair<std::string, J>> r;
		for (auto& a : defs)
			if ((a.type.nonNull() && !a.def) || !_opt.omitArgs || _r.pct(65))
				r.emplace_back(a.name, value(a.type, a.def.has_value(), true));
		_r.shuffle(r);
		return r;
	}
	static std::string signature(const std::string& name, const std::vector<std::pair<std::string, J>>& args, const TR& type)
	{
		auto a = J::map();
		for (auto& e : args)
			a.add(e.first, e.second);
		return name + canon(sorted(a)) + printTR(type);
	}
	std::string freshAlias()
	{
		static const std::vector<std::string> stems { "k", "a", "ab", "name", "id", "x", "data", "errors", "on", "fragment", "true", "null" };
		for (;;)
		{
			auto n = _r.pick(stems) + (_r.pct(75) ? std::to_string(_r.below(200)) : "");
			if (!_leafKeys.count(n) && !_compositePlain.count(n) && _aliases.insert(n).second && n.compare(0, 2, "__") != 0)
			{
				return n;
			}
		}
	}
	void leafKey(Sel& s, const TR& type)
	{
		auto sig = signature(s.name, s.args, type);
		auto it = _leafKeys.find(s.name);
		if (_r.pct(80) && !_compositePlain.count(s.name) && !_aliases.count(s.name) && (it == _leafKeys.end() || it->second == sig))
		{
			_leafKeys[s.name] = sig;
			return;
		}
		if (_r.pct(30))
			for (auto& e : _leafKeys)
				if (e.second == sig)
				{
					if (e.first != s.name)
						s.alias = e.first;
					return;
				}
		s.alias = freshAlias();
		_leafKeys[s.alias] = sig;
	}
	void compositeKey(Sel& s, Scope& scope, bool inFragment)
	{
		if (!inFragment && _r.pct(60) && !_leafKeys.count(s.name) && !_aliases.count(s.name) && scope.composite.insert(s.name).second)
		{
			_compositePlain.insert(s.name);
			return;
		}
		s.alias = freshAlias();
	}
	Sel field(const std::string& parent, const FieldDef& f, int depth, Scope& scope, bool inFragment)
	{
		(void)parent;
		Sel s;
		s.k = Sel::Field;
		s.name = f.name;
		s.args = arguments(f.args, false);
		s.dirs = directives("FIELD", true);
		if (_m.composite(f.type.name))
		{
			s.hasSub = true;
			compositeKey(s, scope, inFragment);
			Scope inner;
			s.sub = selections(f.type.name, depth - 1, inner, inFragment && false, false);
		}
		else
			leafKey(s, f.type);
		return s;
	}
	Sel typenameSel()
	{
		Sel s;
		s.name = "__typename";
		s.dirs = directives("FIELD", true);
		leafKey(s, { "N", "String" });
		return s;
	}
	std::vector<Sel> selections(const std::string& parent, int depth, Scope& scope, bool inFragment, bool root)
	{
		auto& t = _m.type(parent);
		std::vector<Sel> r;
		size_t n = 1 + _r.below((size_t)_opt.width + (root ? 2 : 0));
		for (size_t i = 0; i < n; ++i)
		{
			--_budget;
			if (depth > 0 && _budget > 0 && _r.pct(_opt.frags))
			{
				if (auto s = spread(parent, depth, scope, inFragment))
				{
					r.push_back(std::move(*s));
					continue;
				}
			}
			if (depth > 0 && _budget > 0 && _r.pct(_opt.inlines))
			{
				Sel s;
				s.k = Sel::Inline;
				std::string on = parent;
				if (_r.pct(75))
				{
					on = overlapping(parent);
					s.on = on;
				}
				s.dirs = directives("INLINE_FRAGMENT", true);
				s.hasSub = true;
				s.sub = selections(on, depth - 1, scope, inFragment, false);
				r.push_back(std::move(s));
				continue;
			}
			if (_r.pct(_opt.dups) && !r.empty())
			{
				auto copy = r[_r.below(r.size())];
				if (copy.k == Sel::Field && !copy.hasSub)
				{
					copy.dirs = directives("FIELD", true);
					r.push_back(std::move(copy));
					continue;
				}
			}
			std::vector<const FieldDef*> fs;
			for (auto& f : t.fields)
				if ((depth > 1 && _budget > 0) || !_m.composite(f.type.name))
					fs.push_back(&f);
			if (fs.empty() || _r.pct(8))
				r.push_back(typenameSel());
			else
				r.push_back(field(parent, *fs[_r.below(fs.size())], depth, scope, inFragment));
		}
		return r;
	}
	std::string overlapping(const std::string& parent)
	{
		std::vector<std::string> c;
		for (auto& t : _m.types)
			if (_m.composite(t->name) && _m.overlap(t->name, parent))
				c.push_back(t->name);
		return _r.pick(c);
	}
	std::optional<Sel> spread(const std::string& parent, int depth, Scope& scope, bool inFragment)
	{
		(void)scope;
		(void)inFragment;
		Sel s;
		s.k = Sel::Spread;
		std::vector<std::string> usable;
		for (auto& n : _complete)
			if (_m.overlap(_d.frag(n)->on, parent))
				usable.push_back(n);
		if (!usable.empty() && _r.pct(55))
			s.name = _r.pick(usable);
		else
		{
			if (_d.frags.size() > 12)
				return std::nullopt;
			Frag f;
			static const std::vector<std::string> stems { "F", "Fr", "Frag", "fields", "query", "A", "type" };
			do
				f.name = _r.pick(stems) + (_r.pct(80) ? std::to_string(_counter++) : "");
			while (_d.frag(f.name) || _inProgress.count(f.name));
			_inProgress.insert(f.name);
			f.on = overlapping(parent);
			f.dirs = directives("FRAGMENT_DEFINITION", false);
			Scope inner;
			f.sels = selections(f.on, depth - 1, inner, true, false);
			s.name = f.name;
			_complete.push_back(f.name);
			_d.frags.push_back(std::move(f));
		}
		s.dirs = directives("FRAGMENT_SPREAD", true);
		return s;
	}
	std::set<std::string> _inProgress;

	std::vector<Sel> subscriptionRoot(const std::string& root)
	{
		auto& t = _m.type(root);
		Scope scope;
		auto save = _opt;
		auto s = field(root, t.fields[_r.below(t.fields.size())], _opt.depth, scope, true);
		// The root field of a subscription has to be there.
		s.dirs.erase(std::remove_if(s.dirs.begin(), s.dirs.end(), [](auto& d) { return d.name == "skip" || d.name == "include"; }), s.dirs.end());
		std::vector<Sel> r { s };
		while (_r.pct(25))
		{
			if (_r.pct(50))
			{
				Sel i;
				i.k = Sel::Inline;
				if (_r.pct(60))
					i.on = root;
				_opt.skips = 0;
				i.dirs = directives("INLINE_FRAGMENT", false);
				i.hasSub = true;
				i.sub = std::move(r);
				r = { i };
			}
			else
			{
				Frag f;
				do
					f.name = unique("SubF");
				while (_d.frag(f.name));
				f.on = root;
				_opt.skips = 0;
				f.dirs = directives("FRAGMENT_DEFINITION", false);
				f.sels = std::move(r);
				Sel i;
				i.k = Sel::Spread;
				i.name = f.name;
				i.dirs = directives("FRAGMENT_SPREAD", false);
				_d.frags.push_back(std::move(f));
				r = { i };
			}
		}
		_opt = save;
		return r;
	}

	// Declare the variables which the operation uses.
	void collect(const J& j, std::set<std::string>& v)
	{
		if (j.k == J::Var)
			v.insert(j.s);
		for (auto& e : j.l)
			collect(e, v);
		for (auto& e : j.m)
			collect(e.second, v);
	}
	void collect(const std::vector<Dir>& d, std::set<std::string>& v)
	{
		for (auto& e : d)
			for (auto& a : e.args)
				collect(a.second, v);
	}
	void collect(const std::vector<Sel>& s, std::set<std::string>& v, std::set<std::string>& frags)
	{
		for (auto& e : s)
		{
			for (auto& a : e.args)
				collect(a.second, v);
			collect(e.dirs, v);
			if (e.k == Sel::Spread)
			{
				if (frags.insert(e.name).second)
				{
					auto f = _d.frag(e.name);
					collect(f->dirs, v);
					collect(f->sels, v, frags);
				}
			}
			else
				collect(e.sub, v, frags);
		}
	}
	void finish(Op& op)
	{
		std::set<std::string> v, frags;
		collect(op.dirs, v);
		collect(op.sels, v, frags);
		for (auto& n : v)
		{
			auto& p = _pool.at(n);
			VarDef d;
			d.name = n;
			d.type = p.type;
			if (p.def)
			{
				do
					d.def = randomConst(_m, _r, p.type);
				while (d.def->k == J::Null);
			}
			op.vars.push_back(std::move(d));
		}
		_r.shuffle(op.vars);
		for (auto& n : frags)
			_used.insert(n);
	}
	std::set<std::string> _used;
	void dropUnused()
	{
		_d.frags.erase(std::remove_if(_d.frags.begin(), _d.frags.end(), [&](auto& f) { return !_used.count(f.name); }), _d.frags.end());
		_r.shuffle(_d.frags);
	}
};

inline Doc randomDoc(const Model& m, Rng& r, const DocOptions& o = {})
{
	return DocGen(m, r, o).make();
}

} // namespace vh
