// Schema definition documents: a model printed with random layout, in a random order, and with some of the
// content of the types moved to extensions.
#pragma once
#include "../engine/doc.h"

namespace vh {

struct SdlOptions
{
	bool extensions = true, directives = true;
	int fancy = 2;
};

// The model is changed to what the document says: the order of the types becomes that of their definitions.
class Sdl : public Printer
{
public:
	Sdl(Rng& r, Model& m, const SdlOptions& o)
		: Printer(r, { o.fancy, o.fancy == 2 && r.pct(10) })
		, _m(m)
		, _so(o)
	{
	}
	// Where the definitions of the types and directives begin.
	std::map<std::string, Pos> positions, directivePositions;
	// The order of the operations, as they are bound in the document.
	std::vector<std::pair<std::string, std::string>> roots;
	bool bound = false; // there is a schema definition

	std::string write()
	{
		struct Block
		{
			TypeDef* t = nullptr;
			DirDef* d = nullptr;
			bool ext = false, schema = false;
			// Slices of the content.
			size_t f0 = 0, f1 = 0, i0 = 0, i1 = 0;
		};
		std::vector<Block> blocks;
		for (auto& t : _m.types)
		{
			blocks.push_back({ t.get() });
			if (_so.extensions)
				for (int n = 0; n < 3 && _r.pct(30); ++n)
					blocks.push_back({ t.get(), nullptr, true });
		}
		for (auto& d : _m.dirs)
			blocks.push_back({ nullptr, &d });
		for (auto op : { "query", "mutation", "subscription" })
			if (!_m.root(op).empty())
				roots.push_back({ op, _m.root(op) });
		bool defaults = true;
		for (auto op : { "query", "mutation", "subscription" })
		{
			std::string d = op;
			d[0] = (char)toupper(d[0]);
			if (_m.root(op).empty() ? _m.byName.count(d) && _m.type(d).kind == Kind::Object : _m.root(op) != d)
				defaults = false;
		}
		bound = bound || !defaults || _r.pct(40);
		if (bound)
		{
			_r.shuffle(roots);
			blocks.push_back({ nullptr, nullptr, false, true });
			if (_so.extensions && _r.pct(30))
				blocks.push_back({ nullptr, nullptr, true, true });
		}
		_r.shuffle(blocks);
		// The extensions take what the definition leaves, in the order in which they come.
		for (auto& def : blocks)
		{
			if (def.ext)
				continue;
			std::vector<Block*> all { &def };
			for (auto& b : blocks)
				if (b.ext && b.t == def.t && b.d == def.d && b.schema == def.schema)
					all.push_back(&b);
			size_t nf = def.schema ? roots.size() : def.t ? count(*def.t) : 0, ni = def.t ? def.t->ifaces.size() : 0;
			std::vector<size_t> cf, ci;
			for (size_t i = 0; i + 1 < all.size(); ++i)
			{
				cf.push_back(_r.below(nf + 1));
				ci.push_back(_r.below(ni + 1));
			}
			if (def.schema)
				for (auto& c : cf)
					c = std::max<size_t>(c, 1);
			std::sort(cf.begin(), cf.end());
			std::sort(ci.begin(), ci.end());
			cf.push_back(nf);
			ci.push_back(ni);
			for (size_t i = 0, f = 0, j = 0; i < all.size(); ++i)
			{
				all[i]->f0 = f;
				all[i]->f1 = f = cf[i];
				all[i]->i0 = j;
				all[i]->i1 = j = ci[i];
			}
		}
		if (_l.fancy)
			ignored(false);
		std::vector<std::unique_ptr<TypeDef>> order;
		std::vector<DirDef> dirs;
		for (auto& b : blocks)
		{
			if (b.schema)
			{
				if (b.ext)
					tok("extend");
				tok("schema");
				directives(b.ext && b.f0 == b.f1);
				if (b.f0 == b.f1)
					continue;
				tok("{");
				for (size_t i = b.f0; i < b.f1; ++i)
				{
					tok(roots[i].first);
					tok(":");
					tok(roots[i].second);
				}
				tok("}");
			}
			else if (b.d)
			{
				directive(*b.d);
				dirs.push_back(*b.d);
			}
			else
			{
				type(*b.t, b.ext, b.f0, b.f1, b.i0, b.i1);
				if (!b.ext)
					for (auto& t : _m.types)
						if (t.get() == b.t)
							order.push_back(std::move(t));
			}
		}
		_m.types = std::move(order);
		_m.dirs = std::move(dirs);
		if (_l.fancy)
			ignored(false);
		return _o;
	}

private:
	Model& _m;
	SdlOptions _so;
	Pos _start;
	bool _started = false;

	static size_t count(const TypeDef& t)
	{
		return t.kind == Kind::Enum ? t.values.size() : t.kind == Kind::Input ? t.inputs.size() : t.kind == Kind::Union ? t.members.size() : t.fields.size();
	}
	void begin() { _started = false; }
	Pos item(const std::string& t)
	{
		auto p = tok(t);
		if (!_started)
			_start = p;
		_started = true;
		return p;
	}
	void description(const std::string& d)
	{
		begin();
		if (!d.empty() || _r.pct(5))
			item(stringText(d));
	}
	// Directives which don't mean anything to the library.
	bool directives(bool required, bool deprecated = false)
	{
		bool any = false;
		if (_so.directives || required)
			for (int n = 0; n < 2 && (_r.pct(15) || (required && !any)); ++n)
			{
				std::vector<std::pair<std::string, J>> a;
				static const std::vector<std::string> names { "tag", "mark", "d1", "deprecate", "deprecatedX", "on", "type", "external" };
				auto name = !deprecated && _r.pct(10) ? std::string("deprecated") : _r.pick(names);
				if (_r.pct(50))
					a.push_back({ _r.pct(30) ? "reason" : "a", name == "deprecated" ? J::str(randomText(_r)) : randomScalar(_r) });
				sigil("@", name);
				args(a);
				any = true;
			}
		return any;
	}
	// Where deprecation counts.
	void deprecation(const std::optional<std::string>& d)
	{
		if (_so.directives && _r.pct(15))
			directives(false, true);
		if (d)
		{
			std::vector<std::pair<std::string, J>> a;
			if (*d != "No longer supported" || _r.pct(40))
				a.push_back({ "reason", J::str(*d) });
			sigil("@", "deprecated");
			args(a);
		}
		if (_so.directives && _r.pct(15))
			directives(false, true);
	}
	void input(InVal& v)
	{
		description(v.desc);
		item(v.name);
		tok(":");
		Printer::type(v.type);
		if (v.def)
		{
			tok("=");
			v.defText = sourceOf(*v.def);
		}
		directives(false);
	}
	// Prints a literal, and returns its text without what is ignored before it.
	std::string sourceOf(const J& j)
	{
		size_t i = _o.size();
		Printer::literal(j);
		for (;;)
		{
			if (i < _o.size() && (_o[i] == ' ' || _o[i] == '\t' || _o[i] == '\n' || _o[i] == '\r' || _o[i] == ','))
				++i;
			else if (i < _o.size() && _o[i] == '#')
				while (i < _o.size() && _o[i] != '\n' && _o[i] != '\r')
					++i;
			else
				return _o.substr(i);
		}
	}
	void arguments(std::vector<InVal>& a)
	{
		if (a.empty())
			return;
		tok("(");
		for (auto& v : a)
			input(v);
		tok(")");
	}
	void directive(DirDef& d)
	{
		description(d.desc);
		item("directive");
		sigil("@", d.name);
		directivePositions[d.name] = _start;
		arguments(d.args);
		_o += ' ';
		tok("on");
		_o += ' ';
		bool first = true;
		for (auto& l : d.locs)
		{
			if (!first || _r.pct(20))
				tok("|");
			tok(l);
			first = false;
		}
	}
	void names(const std::vector<std::string>& n, size_t from, size_t to, const char* separator)
	{
		for (size_t i = from; i < to; ++i)
		{
			if (i > from || _r.pct(20))
				tok(separator);
			tok(n[i]);
		}
	}
	void type(TypeDef& t, bool ext, size_t f0, size_t f1, size_t i0, size_t i1)
	{
		static const char* keywords[] = { "scalar", "enum", "input", "type", "interface", "union" };
		bool needed = ext && f0 == f1 && i0 == i1;
		if (ext)
			tok("extend");
		else
			description(t.desc);
		item(keywords[(int)t.kind]);
		if (!ext)
			positions[t.name] = _start;
		tok(t.name);
		if (i0 != i1)
		{
			tok("implements");
			names(t.ifaces, i0, i1, "&");
		}
		directives(needed);
		if (f0 == f1)
			return;
		if (t.kind == Kind::Union)
		{
			tok("=");
			names(t.members, f0, f1, "|");
			return;
		}
		tok("{");
		for (size_t i = f0; i < f1; ++i)
		{
			if (t.kind == Kind::Enum)
			{
				auto& v = t.values[i];
				description(v.desc);
				item(v.name);
				deprecation(v.depr);
			}
			else if (t.kind == Kind::Input)
				input(t.inputs[i]);
			else
			{
				auto& f = t.fields[i];
				description(f.desc);
				item(f.name);
				arguments(f.args);
				tok(":");
				Printer::type(f.type);
				deprecation(f.depr);
			}
		}
		tok("}");
	}
};

} // namespace vh
