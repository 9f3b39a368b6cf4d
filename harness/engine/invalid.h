// Breaks one validation rule of a valid document.
#pragma once
#include "doc.h"
#include "world.h"

namespace vh {

struct Breaker
{
	const Model& m;
	Rng& r;
	Doc& d;
	std::string appended; // text after the document

	struct Spot // a selection set
	{
		std::vector<Sel>* sels;
		std::string parent;
		int op = -1;      // of this operation,
		std::string frag; // or of this fragment
		bool subscriptionRoot = false;
	};
	struct Site // a value
	{
		J* value;
		TR type;
		int op;
		std::string frag;
		bool constant = false; // default of a variable
		bool hasDefault = false;
	};
	struct Args // an argument list
	{
		std::vector<std::pair<std::string, J>>* args;
		const std::vector<InVal>* defs;
		int op;
		std::string frag;
	};
	struct Dirs
	{
		std::vector<Dir>* dirs;
		std::string loc;
		int op;
		std::string frag;
	};
	std::vector<Spot> spots;
	std::vector<Args> args;
	std::vector<Dirs> dirs;
	std::vector<Site> sites;
	std::vector<InVal> condition; // of skip and include

	Breaker(const Model& model, Rng& rng, Doc& doc)
		: m(model)
		, r(rng)
		, d(doc)
	{
		d.frags.reserve(d.frags.size() + 8); // pointers into them stay valid
		InVal i;
		i.name = "if";
		i.type = { "N", "Boolean" };
		condition.push_back(i);
		for (size_t i2 = 0; i2 < d.ops.size(); ++i2)
		{
			auto& op = d.ops[i2];
			if (!op.shorthand)
				addDirs(op.dirs, op.kind == "query" ? "QUERY" : op.kind == "mutation" ? "MUTATION" : "SUBSCRIPTION", (int)i2, "");
			walk(op.sels, m.root(op.kind), (int)i2, "", op.kind == "subscription");
			for (auto& v : op.vars)
				if (v.def)
					descend(*v.def, v.type, (int)i2, "", true);
		}
		for (auto& f : d.frags)
		{
			addDirs(f.dirs, "FRAGMENT_DEFINITION", -1, f.name);
			walk(f.sels, f.on, -1, f.name, f.on == m.subscription);
		}
	}
	void descend(J& v, const TR& t, int op, const std::string& frag, bool constant, bool hasDefault = false)
	{
		sites.push_back({ &v, t, op, frag, constant, hasDefault });
		if (v.k == J::List && t.isList())
			for (auto& e : v.l)
				descend(e, t.item(), op, frag, constant);
		if (v.k == J::Map && !t.isList() && m.type(t.name).kind == Kind::Input)
			for (auto& e : v.m)
				for (auto& f : m.type(t.name).inputs)
					if (f.name == e.first)
						descend(e.second, f.type, op, frag, constant, f.def.has_value());
	}
	void addArgs(std::vector<std::pair<std::string, J>>& a, const std::vector<InVal>& defs, int op, const std::string& frag)
	{
		args.push_back({ &a, &defs, op, frag });
		for (auto& e : a)
			for (auto& def : defs)
				if (def.name == e.first)
					descend(e.second, def.type, op, frag, false, def.def.has_value());
	}
	const DirDef* directive(const std::string& n)
	{
		for (auto& e : m.dirs)
			if (e.name == n)
				return &e;
		return nullptr;
	}
	void addDirs(std::vector<Dir>& ds, const std::string& loc, int op, const std::string& frag)
	{
		dirs.push_back({ &ds, loc, op, frag });
		for (auto& e : ds)
		{
			auto def = directive(e.name);
			addArgs(e.args, def ? def->args : condition, op, frag);
		}
	}
	void walk(std::vector<Sel>& sels, const std::string& parent, int op, const std::string& frag, bool subscriptionRoot)
	{
		spots.push_back({ &sels, parent, op, frag, subscriptionRoot });
		for (auto& s : sels)
			switch (s.k)
			{
				case Sel::Field:
				{
					addDirs(s.dirs, "FIELD", op, frag);
					if (s.name == "__typename")
						break;
					auto f = m.type(parent).field(s.name);
					addArgs(s.args, f->args, op, frag);
					if (s.hasSub)
						walk(s.sub, f->type.name, op, frag, false);
					break;
				}
				case Sel::Inline:
					addDirs(s.dirs, "INLINE_FRAGMENT", op, frag);
					walk(s.sub, s.on.empty() ? parent : s.on, op, frag, subscriptionRoot);
					break;
				case Sel::Spread: addDirs(s.dirs, "FRAGMENT_SPREAD", op, frag); break;
			}
	}

	// The operations which use this fragment, or just this one.
	void reach(const std::vector<Sel>& s, std::set<std::string>& frags)
	{
		for (auto& e : s)
		{
			if (e.k == Sel::Spread)
			{
				if (frags.insert(e.name).second && d.frag(e.name))
					reach(d.frag(e.name)->sels, frags);
			}
			else
				reach(e.sub, frags);
		}
	}
	std::vector<Op*> users(int op, const std::string& frag)
	{
		std::vector<Op*> u;
		for (size_t i = 0; i < d.ops.size(); ++i)
		{
			std::set<std::string> f;
			reach(d.ops[i].sels, f);
			if ((int)i == op || (!frag.empty() && f.count(frag)))
				u.push_back(&d.ops[i]);
		}
		return u;
	}
	static void vars(const J& j, std::set<std::string>& v)
	{
		if (j.k == J::Var)
			v.insert(j.s);
		for (auto& e : j.l)
			vars(e, v);
		for (auto& e : j.m)
			vars(e.second, v);
	}
	static void vars(const std::vector<Dir>& ds, std::set<std::string>& v)
	{
		for (auto& e : ds)
			for (auto& a : e.args)
				vars(a.second, v);
	}
	static void vars(const std::vector<Sel>& s, std::set<std::string>& v)
	{
		for (auto& e : s)
		{
			for (auto& a : e.args)
				vars(a.second, v);
			vars(e.dirs, v);
			vars(e.sub, v);
		}
	}
	// Drop what nobody uses any more, so that the document is invalid for one reason only.
	void tidy(const std::set<std::string>& keepVars = {}, const std::set<std::string>& keepFrags = {})
	{
		std::set<std::string> used;
		for (auto& op : d.ops)
		{
			std::set<std::string> f, v;
			reach(op.sels, f);
			vars(op.dirs, v);
			vars(op.sels, v);
			for (auto& n : f)
				if (auto fr = d.frag(n))
				{
					vars(fr->dirs, v);
					vars(fr->sels, v);
				}
			used.insert(f.begin(), f.end());
			op.vars.erase(std::remove_if(op.vars.begin(), op.vars.end(), [&](auto& x) { return !v.count(x.name) && !keepVars.count(x.name); }), op.vars.end());
		}
		std::vector<int> order;
		std::vector<Frag> frags;
		for (auto i : d.order)
		{
			if (i >= 0)
			{
				order.push_back(i);
				continue;
			}
			auto& f = d.frags[(size_t)(-1 - i)];
			if (used.count(f.name) || keepFrags.count(f.name))
			{
				frags.push_back(f);
				order.push_back(-(int)frags.size());
			}
		}
		d.frags = std::move(frags);
		d.order = std::move(order);
	}

	// Fields which lead from this type to one in which fragments on it may be spread.
	std::vector<std::string> wayBack(const std::string& from)
	{
		for (int tries = 0; tries < 20; ++tries)
		{
			std::vector<std::string> path;
			auto at = from;
			for (int k = 0; k < 3; ++k)
			{
				std::vector<const FieldDef*> next;
				auto& def = m.type(at);
				if (def.kind == Kind::Union)
					break;
				for (auto& f : def.fields)
					if (m.composite(f.type.name) && std::none_of(f.args.begin(), f.args.end(), [](auto& a) { return a.type.nonNull() && !a.def; }))
						next.push_back(&f);
				if (next.empty())
					break;
				auto f = r.pick(next);
				path.push_back(f->name);
				at = f->type.name;
				if (m.overlap(at, from))
					return path;
			}
		}
		return {};
	}
	// A literal which isn't of this type.
	std::optional<J> wrong(const TR& t, int depth = 2, bool list = false)
	{
		if (t.nonNull() && r.pct(20))
			return J();
		auto& def = m.type(t.name);
		bool builtin = t.name == "Int" || t.name == "Float" || t.name == "String" || t.name == "Boolean" || t.name == "ID";
		if (t.isList())
		{
			if (depth > 0 && r.pct(70))
			{
				auto w = wrong(t.item(), depth - 1);
				if (!w)
					return std::nullopt;
				auto l = J::list();
				size_t n = r.below(3);
				for (size_t i = 0; i < n; ++i)
					l.l.push_back(randomConst(m, r, t.item()));
				l.l.insert(l.l.begin() + (std::ptrdiff_t)r.below(n + 1), *w);
				return l;
			}
			// Something which isn't even a single item.
			if (def.kind == Kind::Scalar && !builtin)
				return std::nullopt;
			TR single { "", t.name };
			return wrong(single, 0, true);
		}
		if (def.kind == Kind::Scalar && !builtin)
			return t.nonNull() ? std::optional(J()) : std::nullopt;
		std::vector<J> c;
		if (t.name != "Int" && t.name != "Float" && t.name != "ID")
			c.push_back(J::integer(5));
		if (t.name != "Float")
			c.push_back(J::real(1.5));
		if (t.name != "String" && t.name != "ID")
			c.push_back(J::str(def.kind == Kind::Enum ? def.values[0].name : "abc"));
		if (t.name != "Boolean")
			c.push_back(J::boolean(r.pct(50)));
		c.push_back(J::enumv("NO_SUCH_VALUE"));
		if (def.kind != Kind::Enum)
			c.push_back(J::enumv("SOME_VALUE"));
		if (def.kind != Kind::Input)
		{
			c.push_back(J::map());
			auto one = J::map();
			one.add("a", J::integer(1));
			c.push_back(one);
		}
		auto l = J::list();
		if (r.pct(50) && !list)
			c.push_back(l);
		if (def.kind == Kind::Input)
		{
			auto o = randomConst(m, r, { "N", t.name });
			switch (r.below(4))
			{
				case 0:
					o.add("noSuchInputField", J::integer(1));
					return o;
				case 1:
					for (size_t i = 0; i < o.m.size(); ++i)
						for (auto& f : def.inputs)
							if (f.name == o.m[i].first && f.type.nonNull() && !f.def)
							{
								o.m.erase(o.m.begin() + (std::ptrdiff_t)i);
								return o;
							}
					break;
				case 2:
					for (auto& f : def.inputs)
						if (auto w = wrong(f.type, depth - 1))
						{
							o.m.erase(std::remove_if(o.m.begin(), o.m.end(), [&](auto& e) { return e.first == f.name; }), o.m.end());
							o.add(f.name, *w);
							return o;
						}
					break;
				default:
					if (!o.m.empty())
					{
						o.add(o.m[0].first, o.m[0].second);
						return o;
					}
			}
		}
		return r.pick(c);
	}
	// Has an element as deep as the type has lists.
	static bool full(const J& v, const TR& t)
	{
		if (v.k == J::Var || v.k == J::Null)
			return false;
		if (!t.isList())
			return true;
		return v.k == J::List && std::any_of(v.l.begin(), v.l.end(), [&](auto& e) { return full(e, t.item()); });
	}
	// The fragments with fields for the root of an operation.
	void rootFrags(const std::vector<Sel>& s, std::set<std::string>& f)
	{
		for (auto& e : s)
		{
			if (e.k == Sel::Inline)
				rootFrags(e.sub, f);
			else if (e.k == Sel::Spread && d.frag(e.name) && f.insert(e.name).second)
				rootFrags(d.frag(e.name)->sels, f);
		}
	}
	std::string freshVar()
	{
		return "broken" + std::to_string(r.below(1000));
	}
	Sel leaf(const std::string& name)
	{
		Sel s;
		s.name = name;
		return s;
	}
	template <class T>
	T* any(std::vector<T>& v)
	{
		return v.empty() ? nullptr : &v[r.below(v.size())];
	}
	std::vector<std::pair<std::string, J>> required(const std::vector<InVal>& defs)
	{
		std::vector<std::pair<std::string, J>> a;
		for (auto& def : defs)
			if (def.type.nonNull() && !def.def)
				a.emplace_back(def.name, randomConst(m, r, def.type));
		return a;
	}
	size_t at(std::vector<Sel>& s) { return r.below(s.size() + 1); }
	void insert(Spot& s, Sel x) { s.sels->insert(s.sels->begin() + (std::ptrdiff_t)at(*s.sels), std::move(x)); }
	// Subscriptions have room for one root field only.
	Spot* spot()
	{
		std::vector<Spot*> c;
		for (auto& s : spots)
			if (!s.subscriptionRoot)
				c.push_back(&s);
		return c.empty() ? nullptr : c[r.below(c.size())];
	}
	Sel minimal(const FieldDef& f)
	{
		auto s = leaf(f.name);
		s.args = required(f.args);
		if (m.composite(f.type.name))
		{
			s.hasSub = true;
			s.sub.push_back(leaf("__typename"));
		}
		return s;
	}
	const FieldDef* leafField(const std::string& parent)
	{
		auto& t = m.type(parent);
		std::vector<const FieldDef*> c;
		for (auto& f : t.fields)
			if (!m.composite(f.type.name))
				c.push_back(&f);
		return c.empty() ? nullptr : c[r.below(c.size())];
	}
	std::string someType(Kind k)
	{
		std::vector<std::string> c;
		for (auto& t : m.types)
			if (t->kind == k)
				c.push_back(t->name);
		return c.empty() ? "" : r.pick(c);
	}
	void addFrag(Frag f)
	{
		d.frags.push_back(std::move(f));
		d.order.insert(d.order.begin() + (std::ptrdiff_t)r.below(d.order.size() + 1), -(int)d.frags.size());
	}
	void unshorten()
	{
		for (auto& op : d.ops)
			op.shorthand = false;
	}

	// Somewhere in a selection set of this type: directly, or in a fragment.
	void place(std::vector<Sel>& sels, const std::string& parent, Sel x, const std::string& fragment)
	{
		auto where = r.below(3);
		if (where == 1)
		{
			Sel in;
			in.k = Sel::Inline;
			if (r.pct(50))
				in.on = parent;
			in.hasSub = true;
			in.sub = { x };
			x = in;
		}
		else if (where == 2)
		{
			unshorten();
			Frag f;
			f.name = fragment;
			f.on = parent;
			f.sels = { x };
			x = leaf(f.name);
			x.k = Sel::Spread;
			addFrag(f);
		}
		sels.insert(sels.begin() + (std::ptrdiff_t)at(sels), x);
	}
	static Sel on(const std::string& type, Sel x)
	{
		Sel in;
		in.k = Sel::Inline;
		in.on = type;
		in.hasSub = true;
		in.sub = { std::move(x) };
		return in;
	}
	Sel* compositeField(Spot*& in)
	{
		for (int i = 0; i < 20; ++i)
		{
			in = &spots[r.below(spots.size())];
			std::vector<Sel*> c;
			for (auto& e : *in->sels)
				if (e.k == Sel::Field && e.hasSub)
					c.push_back(&e);
			if (!c.empty())
				return r.pick(c);
		}
		return nullptr;
	}
	bool disjoint(std::string& a, std::string& b, Spot*& in)
	{
		for (int i = 0; i < 20; ++i)
		{
			in = spot();
			if (!in || m.type(in->parent).kind == Kind::Object)
				continue;
			auto p = m.possible(in->parent);
			if (p.size() < 2)
				continue;
			r.shuffle(p);
			a = p[0];
			b = p[1];
			return true;
		}
		return false;
	}
	// Changes which leave the document valid: fields which are selected again.
	std::string widen()
	{
		Spot* sp = nullptr;
		switch (r.below(4))
		{
			case 0: // with more of their fields
			{
				auto f = compositeField(sp);
				if (!f)
					return "";
				auto x = *f;
				x.dirs.clear();
				auto again = x.sub;
				x.sub = { leaf("__typename") };
				x.sub[0].alias = "widened";
				if (r.pct(50))
					for (auto& e : again)
						x.sub.push_back(e);
				r.shuffle(x.sub);
				place(*sp->sels, sp->parent, x, "Widened");
				return "a field with another selection";
			}
			case 1: // from one of two types
			{
				std::string a, b;
				if (!disjoint(a, b, sp))
					return "";
				std::vector<std::pair<const FieldDef*, const FieldDef*>> c;
				for (auto& f : m.type(a).fields)
					for (auto& g : m.type(b).fields)
						if (f.type.w == g.type.w && (f.type.name == g.type.name || (m.composite(f.type.name) && m.composite(g.type.name))))
							c.emplace_back(&f, &g);
				if (c.empty())
					return "";
				auto [f, g] = r.pick(c);
				auto x = minimal(*f), y = minimal(*g);
				x.alias = y.alias = "widened";
				place(*sp->sels, sp->parent, on(a, x), "WidenedA");
				place(*sp->sels, sp->parent, on(b, y), "WidenedB");
				return "a key for fields of two types";
			}
			case 2: // by spreading a fragment twice
			{
				sp = &spots[r.below(spots.size())];
				for (auto& e : *sp->sels)
					if (e.k == Sel::Spread || e.k == Sel::Inline)
					{
						auto x = e;
						place(*sp->sels, sp->parent, x, "Widened");
						return "a fragment twice";
					}
				return "";
			}
			default: // of both an interface and its type
			{
				for (int i = 0; i < 20; ++i)
				{
					sp = spot();
					if (!sp || m.type(sp->parent).kind != Kind::Interface || m.type(sp->parent).fields.empty())
						continue;
					auto& f = r.pick(m.type(sp->parent).fields);
					auto x = minimal(f), y = x;
					x.alias = y.alias = "widened";
					if (y.hasSub && r.pct(50))
						y.sub[0].alias = "other";
					place(*sp->sels, sp->parent, x, "WidenedA");
					auto p = m.possible(sp->parent);
					place(*sp->sels, sp->parent, on(r.pick(p), y), "WidenedB");
					return "a field of an interface and of a type";
				}
				return "";
			}
		}
	}

	static constexpr int rules = 52;
	// What was broken; nothing if this rule doesn't apply to the document.
	std::string apply(int rule)
	{
		auto s = spot();
		switch (rule)
		{
			case 0:
			{
				if (!s)
					return "";
				insert(*s, leaf(r.pct(50) ? "noSuchField" : "__noSuchField"));
				return "unknown field";
			}
			case 1: // on an abstract type, a field of one of its object types
			{
				for (int i = 0; i < 10 && s; ++i, s = spot())
				{
					auto k = m.type(s->parent).kind;
					if (k == Kind::Object)
						continue;
					auto p = m.possible(s->parent);
					auto f = leafField(r.pick(p));
					if (!f || m.type(s->parent).field(f->name))
						continue;
					auto x = minimal(*f);
					x.alias = "brokenField";
					insert(*s, x);
					return "field of a possible type on an abstract type";
				}
				return "";
			}
			case 2:
			{
				if (!s)
					return "";
				auto f = leafField(s->parent);
				auto x = f ? minimal(*f) : leaf("__typename");
				x.alias = "brokenLeaf";
				x.hasSub = true;
				x.sub.push_back(leaf("__typename"));
				insert(*s, x);
				return "selection on a leaf";
			}
			case 3:
			{
				for (auto& sp : spots)
					for (auto& e : *sp.sels)
						if (e.k == Sel::Field && e.hasSub && r.pct(40))
						{
							e.hasSub = false;
							e.sub.clear();
							tidy();
							return "composite field without a selection";
						}
				return "";
			}
			case 4:
			{
				std::vector<Sel*> c;
				for (auto& sp : spots)
					for (auto& e : *sp.sels)
						if (e.k == Sel::Field)
							c.push_back(&e);
				r.pick(c)->args.emplace_back("noSuchArgument", J::integer(1));
				return "unknown argument";
			}
			case 5:
			{
				for (auto& ds : dirs)
					for (auto& e : *ds.dirs)
						if (r.pct(60))
						{
							e.args.emplace_back("noSuchArgument", J::integer(1));
							return "unknown directive argument";
						}
				return "";
			}
			case 6:
			{
				for (int i = 0; i < 20; ++i)
				{
					auto a = any(args);
					if (!a || a->args->empty())
						continue;
					auto e = (*a->args)[r.below(a->args->size())];
					if (r.pct(50))
						for (auto& def : *a->defs)
							if (def.name == e.first)
							{
								std::set<std::string> v;
								vars(e.second, v);
								if (v.empty())
									e.second = randomConst(m, r, def.type);
							}
					a->args->push_back(e);
					return "duplicate argument";
				}
				return "";
			}
			case 7:
			{
				for (int i = 0; i < 30; ++i)
				{
					auto a = any(args);
					if (!a)
						return "";
					for (size_t k = 0; k < a->args->size(); ++k)
						for (auto& def : *a->defs)
							if (def.name == (*a->args)[k].first && def.type.nonNull() && !def.def)
							{
								a->args->erase(a->args->begin() + (std::ptrdiff_t)k);
								tidy();
								return "required argument left out";
							}
				}
				return "";
			}
			case 8:
			case 9:
			case 10:
			{
				std::vector<Site> c;
				for (auto& site : sites)
					if (rule == 8 ? site.type.nonNull() : true)
						if (!site.constant)
							c.push_back(site);
				for (int i = 0; i < 10 && !c.empty(); ++i)
				{
					auto& site = r.pick(c);
					auto w = rule == 8 ? std::optional(J()) : wrong(site.type);
					if (!w)
						continue;
					auto was = canon(*site.value);
					*site.value = *w;
					tidy();
					return (rule == 8 ? "null for a non-null value" : "literal of a wrong type ") + canon(*w) + " for " + printTR(site.type) + " instead of " + was;
				}
				return "";
			}
			case 11:
			{
				std::vector<Site> c;
				for (auto& site : sites)
					if (site.constant)
						c.push_back(site);
				for (int i = 0; i < 10 && !c.empty(); ++i)
				{
					auto& site = r.pick(c);
					auto w = wrong(site.type);
					if (!w)
						continue;
					*site.value = *w;
					return "default value of a wrong type " + canon(*w) + " for " + printTR(site.type);
				}
				return "";
			}
			case 12:
			{
				std::vector<Site*> c;
				for (auto& site : sites)
					if (!site.constant)
						c.push_back(&site);
				if (c.empty())
					return "";
				*r.pick(c)->value = J::var("noSuchVariable");
				tidy();
				return "undefined variable";
			}
			case 13:
			{
				unshorten();
				VarDef v;
				v.name = freshVar();
				v.type = { r.pct(50) ? "N" : "", "Int" };
				auto& op = r.pick(d.ops);
				op.vars.insert(op.vars.begin() + (std::ptrdiff_t)r.below(op.vars.size() + 1), v);
				return "unused variable";
			}
			case 14:
			{
				for (auto& op : d.ops)
					if (!op.vars.empty())
					{
						op.vars.push_back(r.pick(op.vars));
						return "duplicate variable";
					}
				return "";
			}
			case 15: // variables of types which aren't input types
			case 16: // and of types which don't fit where they're used
			case 17:
			case 18:
			{
				unshorten();
				std::vector<Site> c;
				for (auto& site : sites)
					if (!site.constant)
						c.push_back(site);
				for (int i = 0; i < 20 && !c.empty(); ++i)
				{
					auto& site = r.pick(c);
					VarDef v;
					v.name = freshVar();
					v.type = site.type;
					std::string what;
					if (rule == 15)
					{
						v.type.name = r.pct(40) ? "NoSuchType" : r.pct(50) ? m.query : r.pct(50) ? someType(Kind::Interface) : someType(Kind::Union);
						what = "variable of type " + v.type.name;
					}
					else
					{
						switch (r.below(4))
						{
							case 0:
							{
								auto other = r.pct(50) ? std::string("Int") : someType(r.pct(50) ? Kind::Enum : r.pct(50) ? Kind::Input : Kind::Scalar);
								v.type.name = other;
								break;
							}
							case 1:
								v.type.name = r.pct(50) ? "String" : r.pct(50) ? "ID" : "Float";
								break;
							case 2: // weaker in one place, and perhaps stronger in others
							{
								std::vector<bool> levels;
								bool nonNull = false;
								for (auto ch : v.type.w)
									if (ch == 'N')
										nonNull = true;
									else
									{
										levels.push_back(nonNull);
										nonNull = false;
									}
								levels.push_back(nonNull);
								std::vector<size_t> strict;
								for (size_t k = site.hasDefault ? 1 : 0; k < levels.size(); ++k)
									if (levels[k])
										strict.push_back(k);
								if (strict.empty())
									continue;
								auto weak = r.pick(strict);
								v.type.w.clear();
								for (size_t k = 0; k < levels.size(); ++k)
								{
									if (k != weak && (levels[k] || r.pct(40)))
										v.type.w += 'N';
									if (k + 1 < levels.size())
										v.type.w += 'L';
								}
								// A default value only makes up for the outermost.
								if (weak && !v.type.nonNull() && r.pct(40))
								{
									do
										v.def = randomConst(m, r, v.type);
									while (v.def->k == J::Null);
								}
								break;
							}
							default: // more or fewer lists
								if (v.type.isList() && r.pct(50))
									v.type.w = v.type.w.substr(v.type.w.find('L') + 1);
								else
									v.type.w = "NLN" + (v.type.nonNull() ? v.type.w.substr(1) : v.type.w);
						}
						if (v.type.name.empty() || v.type == site.type)
							continue;
						what = "variable of type " + printTR(v.type) + " for " + printTR(site.type);
					}
					if (v.type.name.empty())
						continue;
					*site.value = J::var(v.name);
					tidy();
					for (auto u : users(site.op, site.frag))
						u->vars.push_back(v);
					return what;
				}
				return "";
			}
			case 19:
			{
				unshorten();
				auto ds = any(dirs);
				Dir x;
				x.name = "noSuchDirective";
				ds->dirs->push_back(x);
				return "unknown directive";
			}
			case 20:
			{
				unshorten();
				for (int i = 0; i < 30; ++i)
				{
					auto ds = any(dirs);
					Dir x;
					bool conditional = ds->loc == "FIELD" || ds->loc == "FRAGMENT_SPREAD" || ds->loc == "INLINE_FRAGMENT";
					if (r.pct(40) && !conditional)
					{
						x.name = r.pct(50) ? "skip" : "include";
						x.args.emplace_back("if", J::boolean(x.name == "include"));
					}
					else if (!m.dirs.empty())
					{
						auto& def = m.dirs[r.below(m.dirs.size())];
						if (def.at(ds->loc))
							continue;
						x.name = def.name;
						x.args = required(def.args);
					}
					else
						continue;
					ds->dirs->push_back(x);
					return "directive in a wrong place: " + x.name + " on " + ds->loc;
				}
				return "";
			}
			case 21:
			{
				for (auto& ds : dirs)
					if (!ds.dirs->empty() && r.pct(50))
					{
						ds.dirs->push_back((*ds.dirs)[r.below(ds.dirs->size())]);
						return "directive twice in one place";
					}
				return "";
			}
			case 22:
			{
				if (!s)
					return "";
				auto x = leaf("NoSuchFragment");
				x.k = Sel::Spread;
				insert(*s, x);
				return "unknown fragment";
			}
			case 23:
			{
				Frag f;
				f.name = "UnusedFragment";
				f.on = m.query;
				f.sels.push_back(leaf("__typename"));
				addFrag(f);
				return "unused fragment";
			}
			case 24:
			{
				if (d.frags.empty())
					return "";
				auto f = r.pick(d.frags);
				if (r.pct(50))
				{
					f.sels = { leaf("__typename") };
					f.dirs.clear();
				}
				addFrag(f);
				return "two fragments with the same name";
			}
			case 25:
			case 26:
			case 27:
			{
				// A fragment, or an inline one, on something wrong: unknown, a leaf type, or one which doesn't overlap.
				if (!s)
					return "";
				std::string on;
				if (rule == 25)
					on = "NoSuchType";
				else if (rule == 26)
					on = r.pct(30) ? "String" : someType(r.pct(40) ? Kind::Enum : r.pct(50) ? Kind::Input : Kind::Scalar);
				else
				{
					std::vector<std::string> c;
					for (auto& t : m.types)
						if (m.composite(t->name) && !m.overlap(t->name, s->parent))
							c.push_back(t->name);
					if (!c.empty())
						on = r.pick(c);
				}
				if (on.empty())
					return "";
				Sel x;
				if (r.pct(50))
				{
					x.k = Sel::Inline;
					x.on = on;
					x.hasSub = true;
					x.sub.push_back(leaf("__typename"));
					insert(*s, x);
					return "inline fragment on " + on + " in " + s->parent;
				}
				Frag f;
				f.name = "BrokenFragment";
				f.on = on;
				f.sels.push_back(leaf("__typename"));
				x.k = Sel::Spread;
				x.name = f.name;
				auto parent = s->parent;
				insert(*s, x);
				addFrag(f);
				return "fragment on " + on + " in " + parent;
			}
			case 28:
			{
				// A cycle of fragments, perhaps through fields, next to fragments which aren't part of it.
				if (!s)
					return "";
				size_t n = 1 + r.below(3);
				auto parent = s->parent;
				auto x = leaf("Cycle0");
				x.k = Sel::Spread;
				insert(*s, x);
				bool side = false;
				for (size_t i = 0; i < n; ++i)
				{
					Frag f;
					f.name = "Cycle" + std::to_string(i);
					f.on = parent;
					auto next = leaf("Cycle" + std::to_string((i + 1) % n));
					next.k = Sel::Spread;
					if (r.pct(40))
					{
						Sel in;
						in.k = Sel::Inline;
						in.hasSub = true;
						in.sub = { leaf("__typename"), next };
						next = in;
					}
					if (auto path = wayBack(parent); !path.empty() && r.pct(50))
						for (auto at = path.rbegin(); at != path.rend(); ++at)
						{
							auto through = leaf(*at);
							through.alias = "through" + std::to_string(i) + *at;
							through.hasSub = true;
							through.sub = { next };
							if (r.pct(30))
								through.sub.insert(through.sub.begin(), leaf("__typename"));
							next = through;
						}
					f.sels = { leaf("__typename"), next };
					if (r.pct(50))
						std::swap(f.sels[0], f.sels[1]);
					for (size_t k = r.below(3); k; --k)
					{
						auto other = leaf("Beside");
						other.k = Sel::Spread;
						f.sels.insert(f.sels.begin() + (std::ptrdiff_t)r.below(f.sels.size() + 1), other);
						side = true;
					}
					addFrag(f);
				}
				if (side)
				{
					Frag f;
					f.name = "Beside";
					f.on = parent;
					f.sels = { leaf("__typename") };
					addFrag(f);
				}
				return "cycle of " + std::to_string(n) + " fragments";
			}
			case 29:
			{
				for (auto& op : d.ops)
					if (!op.name.empty())
					{
						auto copy = op;
						d.ops.push_back(copy);
						d.order.push_back((int)d.ops.size() - 1);
						return "two operations with the same name";
					}
				return "";
			}
			case 30:
			{
				unshorten();
				Op op;
				op.shorthand = r.pct(50);
				op.sels = { leaf("__typename") };
				d.ops.push_back(op);
				d.order.insert(r.pct(50) ? d.order.begin() : d.order.end(), (int)d.ops.size() - 1);
				return "an anonymous operation which isn't alone";
			}
			case 31:
			{
				// Two root fields of a subscription.
				std::set<std::string> roots;
				for (auto& op : d.ops)
					if (op.kind == "subscription")
						rootFrags(op.sels, roots);
				for (auto& sp : spots)
				{
					if (!sp.subscriptionRoot || (!sp.frag.empty() && !roots.count(sp.frag)) || r.pct(30))
						continue;
					auto x = r.pct(20) ? leaf("__typename") : minimal(r.pick(m.type(m.subscription).fields));
					x.alias = "secondRoot";
					switch (r.below(3))
					{
						case 0: insert(sp, x); break;
						case 1:
						{
							Sel in;
							in.k = Sel::Inline;
							in.hasSub = true;
							in.sub = { x };
							insert(sp, in);
							break;
						}
						default:
						{
							Frag f;
							f.name = "SecondRoot";
							f.on = m.subscription;
							f.sels = { x };
							auto in = leaf(f.name);
							in.k = Sel::Spread;
							insert(sp, in);
							addFrag(f);
						}
					}
					return "subscription with two root fields";
				}
				return "";
			}
			case 32:
			{
				if (!m.mutation.empty() && !m.subscription.empty())
					return "";
				unshorten();
				if (d.ops.size() == 1 && d.ops[0].name.empty())
					d.ops[0].name = "Named";
				Op op;
				op.kind = m.mutation.empty() ? "mutation" : "subscription";
				op.name = "Unsupported";
				op.sels = { leaf("__typename") };
				d.ops.push_back(op);
				d.order.insert(r.pct(50) ? d.order.begin() : d.order.end(), (int)d.ops.size() - 1);
				return "unsupported operation type";
			}
			case 33: // conflicts
			case 34:
			case 35:
			case 36:
			{
				for (int i = 0; i < 20 && s; ++i, s = spot())
				{
					auto& t = m.type(s->parent);
					if (t.fields.empty())
						continue;
					auto& a = t.fields[r.below(t.fields.size())];
					auto x = minimal(a), y = x;
					if (rule != 35)
					{
						// Another field with the same key.
						auto& b = t.fields[r.below(t.fields.size())];
						if (a.name == b.name)
							continue;
						if (rule == 33 && (m.composite(a.type.name) || m.composite(b.type.name)))
							continue;
						y = minimal(b);
					}
					else
					{
						// The same field with other arguments.
						if (a.args.empty() || x.hasSub)
							continue;
						auto& arg = a.args[r.below(a.args.size())];
						auto v1 = randomConst(m, r, arg.type), v2 = randomConst(m, r, arg.type);
						if (canon(sorted(v1)) == canon(sorted(v2)))
							continue;
						auto set = [&](Sel& q, const J& v) {
							q.args.erase(std::remove_if(q.args.begin(), q.args.end(), [&](auto& e) { return e.first == arg.name; }), q.args.end());
							q.args.emplace_back(arg.name, v);
							r.shuffle(q.args);
						};
						set(x, v1);
						if (r.pct(70) || (arg.type.nonNull() && !arg.def))
							set(y, v2);
						else
							y.args.erase(std::remove_if(y.args.begin(), y.args.end(), [&](auto& e) { return e.first == arg.name; }), y.args.end());
					}
					x.alias = y.alias = "conflict";
					auto parent = s->parent;
					auto where = r.below(3);
					auto sels = s->sels;
					sels->insert(sels->begin() + (std::ptrdiff_t)at(*sels), x);
					if (where == 0)
						sels->insert(sels->begin() + (std::ptrdiff_t)at(*sels), y);
					else if (where == 1)
					{
						Sel in;
						in.k = Sel::Inline;
						if (r.pct(50))
							in.on = parent;
						in.hasSub = true;
						in.sub = { y };
						sels->insert(sels->begin() + (std::ptrdiff_t)at(*sels), in);
					}
					else
					{
						Frag f;
						f.name = "Conflict";
						f.on = parent;
						f.sels = { y };
						auto in = leaf(f.name);
						in.k = Sel::Spread;
						sels->insert(sels->begin() + (std::ptrdiff_t)at(*sels), in);
						addFrag(f);
					}
					return rule == 35 ? "the same key for one field with different arguments" : "the same key for different fields";
				}
				return "";
			}
			case 37: // a field of an abstract type and one of an object type in it
			{
				for (int i = 0; i < 20 && s; ++i, s = spot())
				{
					auto& t = m.type(s->parent);
					if (t.kind != Kind::Interface || t.fields.empty())
						continue;
					auto& a = t.fields[r.below(t.fields.size())];
					auto possible = m.possible(s->parent);
					auto object = r.pick(possible);
					auto& ofs = m.type(object).fields;
					auto& b = ofs[r.below(ofs.size())];
					if (a.name == b.name)
						continue;
					auto x = minimal(a), y = minimal(b);
					x.alias = y.alias = "conflict";
					Sel in;
					in.k = Sel::Inline;
					in.on = object;
					in.hasSub = true;
					in.sub = { y };
					insert(*s, x);
					insert(*s, in);
					return "the same key for different fields of an interface and of its object type";
				}
				return "";
			}
			case 46: // unknown field in the second selection of a field
			{
				auto f = compositeField(s);
				if (!f)
					return "";
				auto x = *f;
				x.sub = { leaf("noSuchField") };
				if (r.pct(50))
					x.sub.push_back(leaf("__typename"));
				place(*s->sels, s->parent, x, "Conflict");
				return "unknown field where a field is selected again";
			}
			case 47: // conflict between two selections of a field
			{
				for (int i = 0; i < 20; ++i)
				{
					auto f = compositeField(s);
					if (!f)
						return "";
					auto of = m.type(s->parent).field(f->name);
					auto& t = m.type(of->type.name);
					if (t.fields.empty())
						continue;
					auto& a = t.fields[r.below(t.fields.size())];
					auto b = r.pct(30) ? nullptr : &t.fields[r.below(t.fields.size())];
					if (b && b->name == a.name)
						continue;
					auto p = minimal(a), q = b ? minimal(*b) : leaf("__typename");
					p.alias = q.alias = "conflict";
					auto x = *f, y = *f;
					x.sub = { p };
					y.sub = { q };
					auto parent = s->parent;
					auto sels = s->sels;
					place(*sels, parent, x, "ConflictA");
					place(*sels, parent, y, "ConflictB");
					return "a conflict between two selections of a field";
				}
				return "";
			}
			case 48: // different shapes in two types
			{
				for (int i = 0; i < 10; ++i)
				{
					std::string a, b;
					if (!disjoint(a, b, s))
						return "";
					std::vector<std::pair<const FieldDef*, const FieldDef*>> c;
					for (auto& f : m.type(a).fields)
						for (auto& g : m.type(b).fields)
							if (m.composite(f.type.name) && m.composite(g.type.name) && f.type.w == g.type.w)
								c.emplace_back(&f, &g);
					if (c.empty())
						continue;
					auto [f, g] = r.pick(c);
					auto l = leafField(g->type.name);
					if (!l || (l->type.name == "String" && l->type.w == "N"))
						continue;
					auto x = minimal(*f), y = minimal(*g);
					y.sub = { minimal(*l) };
					x.sub[0].alias = y.sub[0].alias = "k";
					x.alias = y.alias = "conflict";
					place(*s->sels, s->parent, on(a, x), "ConflictA");
					place(*s->sels, s->parent, on(b, y), "ConflictB");
					return "a key for fields of two types with different shapes below";
				}
				return "";
			}
			case 49: // three fields, of which two conflict
			{
				for (int i = 0; i < 20; ++i)
				{
					std::string a, b;
					if (!disjoint(a, b, s))
						return "";
					auto& fa = m.type(a).fields;
					auto& f = fa[r.below(fa.size())];
					auto& h = fa[r.below(fa.size())];
					if (f.name == h.name)
						continue;
					std::vector<const FieldDef*> c;
					for (auto& g : m.type(b).fields)
						if (g.type == f.type || (f.type.w == g.type.w && m.composite(f.type.name) && m.composite(g.type.name)))
							c.push_back(&g);
					if (c.empty())
						continue;
					auto x = minimal(f), y = minimal(*r.pick(c)), z = minimal(h);
					x.alias = y.alias = z.alias = "conflict";
					std::vector<Sel> in { on(b, y), on(a, x), on(a, z) };
					for (auto& e : in)
						insert(*s, e);
					return "a key for a field of one type and two of another";
				}
				return "";
			}
			case 51: // a variable in the default value of another
			{
				std::vector<Site> c;
				for (auto& site : sites)
					if (site.constant && site.op >= 0)
						c.push_back(site);
				if (c.empty())
					return "";
				auto site = r.pick(c);
				*site.value = J::var("constant");
				VarDef v;
				v.name = "constant";
				v.type = site.type;
				auto& vars = d.ops[(size_t)site.op].vars;
				vars.insert(r.pct(70) ? vars.begin() : vars.end(), v);
				return "a variable in a default value";
			}
			case 50: // an unknown argument of the second
			{
				std::string a, b;
				if (!disjoint(a, b, s))
					return "";
				auto x = leaf("__typename"), y = x;
				x.alias = y.alias = "conflict";
				y.args.emplace_back("noSuchArgument", J::integer(1));
				place(*s->sels, s->parent, on(a, x), "ConflictA");
				place(*s->sels, s->parent, on(b, y), "ConflictB");
				return "an unknown argument where a key is used again";
			}
			case 38:
			{
				static const std::vector<std::string> definitions { "type NewType { a: Int }", "scalar NewScalar", "enum NewEnum { A B }", "input NewInput { a: Int }",
					"interface NewInterface { a: Int }", "union NewUnion = A | B", "directive @newDirective on FIELD", "schema { query: Query }", "extend type Query { a: Int }",
					"\"description\" type Described { a: Int }", "extend scalar Date @new" };
				appended = "\n" + r.pick(definitions);
				unshorten();
				return "a type definition in the document: " + appended;
			}
			case 39: // required field of an input object
			{
				std::vector<std::pair<J*, size_t>> c;
				for (auto& site : sites)
					if (site.value->k == J::Map && !site.type.isList() && m.type(site.type.name).kind == Kind::Input)
						for (size_t i = 0; i < site.value->m.size(); ++i)
							for (auto& f : m.type(site.type.name).inputs)
								if (f.name == site.value->m[i].first && f.type.nonNull() && !f.def)
									c.emplace_back(site.value, i);
				if (c.empty())
					return "";
				auto e = r.pick(c);
				e.first->m.erase(e.first->m.begin() + (std::ptrdiff_t)e.second);
				tidy();
				return "required input field left out";
			}
			case 40: // unknown, or duplicate, field of an input object
			{
				std::vector<J*> c;
				for (auto& site : sites)
					if (site.value->k == J::Map && !site.type.isList() && m.type(site.type.name).kind == Kind::Input)
						c.push_back(site.value);
				if (c.empty())
					return "";
				auto o = r.pick(c);
				if (o->m.empty() || r.pct(50))
				{
					o->add("noSuchInputField", J::integer(1));
					return "unknown input field";
				}
				auto e = r.pick(o->m);
				std::set<std::string> v;
				vars(e.second, v);
				o->add(e.first, e.second);
				return "duplicate input field";
			}
			case 41: // a list in a list of too few levels
			{
				std::vector<Site*> c;
				for (auto& site : sites)
				{
					auto& t = m.type(site.type.name);
					if (t.kind != Kind::Scalar || site.type.name == "Int" || site.type.name == "String" || site.type.name == "ID" || site.type.name == "Boolean" || site.type.name == "Float")
						if (full(*site.value, site.type))
							c.push_back(&site);
				}
				if (c.empty())
					return "";
				auto site = r.pick(c);
				auto l = J::list();
				l.l.push_back(*site->value);
				// Deep enough not to be a list of this type.
				*site->value = l;
				return "one list too many for " + printTR(site->type);
			}
			case 42: // a fragment which is only used by another unused one
			{
				Frag f, g;
				f.name = "UnusedA";
				g.name = "UnusedB";
				f.on = g.on = m.query;
				g.sels.push_back(leaf("__typename"));
				auto x = leaf("UnusedB");
				x.k = Sel::Spread;
				f.sels = { x };
				addFrag(f);
				addFrag(g);
				return "fragments which are only used by unused ones";
			}
			case 43: // a variable which is only declared by one of two operations
			{
				for (auto& op : d.ops)
				{
					if (op.vars.empty())
						continue;
					op.vars.erase(op.vars.begin() + (std::ptrdiff_t)r.below(op.vars.size()));
					return "undeclared variable";
				}
				return "";
			}
			case 44: // introspection fields away from the root of a query
			{
				for (int i = 0; i < 10 && s; ++i, s = spot())
				{
					if (s->parent == m.query)
						continue;
					auto x = leaf("__schema");
					x.hasSub = true;
					x.sub.push_back(leaf("__typename"));
					insert(*s, x);
					return "__schema on " + s->parent;
				}
				return "";
			}
			case 45: // a broken selection of the introspection schema
			{
				std::vector<Spot*> c;
				for (auto& sp : spots)
					if (sp.parent == m.query)
						c.push_back(&sp);
				if (c.empty())
					return "";
				auto x = leaf(r.pct(50) ? "__schema" : "__type");
				if (x.name == "__type" && r.pct(70))
					x.args.emplace_back("name", J::str("Int"));
				x.hasSub = true;
				bool complete = x.name == "__schema" || !x.args.empty();
				x.sub.push_back(leaf(complete ? (r.pct(50) ? "noSuchField" : x.name == "__schema" ? "types" : "fields") : "name"));
				insert(*c[r.below(c.size())], x);
				return "invalid introspection";
			}
		}
		return "";
	}
};

} // namespace vh
