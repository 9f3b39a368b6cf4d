// The reference executor: what a request should return, which accessors it should call with what, and
// which errors it should report.
#pragma once
#include "world.h"

namespace vh {

struct Expected
{
	J data;
	std::vector<ExpectedError> errors;
	std::vector<Event> events;
	std::vector<std::string> rootKeys; // of the operation, in order
	bool tooBig = false;
};

class Reference
{
public:
	Reference(const World& w, const Doc& d, const Op& op, const J& jsonVars)
		: _m(*w.model)
		, _w(w)
		, _d(d)
		, _op(op)
	{
		_vars = J::map();
		for (auto& v : op.vars)
		{
			auto g = jsonVars.get(v.name);
			_vars.add(v.name, g ? *g : v.def ? evalRaw(*v.def, J::map()) : J());
		}
	}
	Expected run(uint64_t rootId, const std::string& context, const std::string& state)
	{
		_context = context;
		_state = state;
		_opDirs = canon(dirMap(_op.dirs));
		auto& root = _m.root(_op.kind);
		Frame empty;
		std::vector<J> path;
		_r.data = object(root, rootId, _op.sels, path, empty);
		return std::move(_r);
	}
	// The root field of a subscription: name, arguments, directives.
	struct Root
	{
		std::string name;
		J args, dirs;
	};
	Root subscription()
	{
		const Sel* s = nullptr;
		auto sels = &_op.sels;
		while (!s)
		{
			auto& f = sels->at(0);
			if (f.k == Sel::Field)
				s = &f;
			else
				sels = f.k == Sel::Inline ? &f.sub : &_d.frag(f.name)->sels;
		}
		Root r;
		r.name = s->name;
		r.args = J::map();
		for (auto& a : s->args)
			r.args.add(a.first, evalRaw(a.second, _vars));
		// In the order of the document, which matters to equality.
		r.dirs = J::map();
		for (auto& d : s->dirs)
		{
			auto a = J::map();
			for (auto& e : d.args)
				a.add(e.first, evalRaw(e.second, _vars));
			r.dirs.add(d.name, a);
		}
		return r;
	}
	const J& vars() const { return _vars; }

private:
	struct Frame
	{
		J def = J::map(), spread = J::map(), inl = J::map();
	};
	const Model& _m;
	const World& _w;
	const Doc& _d;
	const Op& _op;
	J _vars;
	Expected _r;
	std::string _context, _state, _opDirs;
	size_t _steps = 0;

	J dirMap(const std::vector<Dir>& dirs)
	{
		auto m = J::map();
		for (auto& d : dirs)
		{
			if (m.get(d.name))
				continue;
			auto a = J::map();
			for (auto& e : d.args)
				a.add(e.first, evalRaw(e.second, _vars));
			m.add(d.name, a);
		}
		return sorted(m);
	}
	static bool skipped(const J& dirs)
	{
		auto s = dirs.get("skip"), i = dirs.get("include");
		return (s && s->get("if")->b) || (i && !i->get("if")->b);
	}
	static J merge(J inner, const J& outer)
	{
		for (auto& e : outer.m)
			if (!inner.get(e.first))
				inner.add(e.first, e.second);
		return sorted(inner);
	}
	static std::string pathText(const std::vector<J>& path)
	{
		std::string s;
		for (auto& p : path)
			s += "/" + (p.k == J::Int ? std::to_string(p.i) : p.s);
		return s;
	}
	static std::string pathJson(const std::vector<J>& path)
	{
		auto l = J::list();
		l.l = path;
		return canon(l);
	}
	struct Found
	{
		const Sel* sel;
		J dirs;
		Frame frame;
	};
	void collect(const std::vector<Sel>& sels, const std::vector<std::string>& conds, const Frame& frame, std::vector<Found>& out, std::set<std::string>& keys)
	{
		for (auto& s : sels)
		{
			if (++_steps > 20000)
			{
				_r.tooBig = true;
				return;
			}
			auto dirs = dirMap(s.dirs);
			if (skipped(dirs))
				continue;
			auto matches = [&](const std::string& on) { return std::find(conds.begin(), conds.end(), on) != conds.end(); };
			if (s.k == Sel::Field)
			{
				if (keys.insert(s.key()).second)
					out.push_back({ &s, dirs, frame });
			}
			else if (s.k == Sel::Inline)
			{
				if (!s.on.empty() && !matches(s.on))
					continue;
				Frame f = frame;
				f.inl = merge(dirs, frame.inl);
				collect(s.sub, conds, f, out, keys);
			}
			else
			{
				auto fr = _d.frag(s.name);
				if (!matches(fr->on))
					continue;
				Frame f = frame;
				f.spread = merge(dirs, frame.spread);
				f.def = merge(dirMap(fr->dirs), frame.def);
				collect(fr->sels, conds, f, out, keys);
			}
		}
	}
	Event event(Event::K k, const std::string& type, const std::vector<J>& path, const Frame& f)
	{
		Event e;
		e.k = k;
		e.path = pathText(path);
		e.type = type;
		e.context = _context;
		e.state = _state;
		e.op = _opDirs;
		e.def = canon(f.def);
		e.spread = canon(f.spread);
		e.inl = canon(f.inl);
		return e;
	}
	J object(const std::string& type, uint64_t id, const std::vector<Sel>& sels, std::vector<J>& path, const Frame& outer)
	{
		if (_r.events.size() > 1500)
			_r.tooBig = true;
		if (_r.tooBig)
			return {};
		_r.events.push_back(event(Event::Begin, type, path, outer));
		std::vector<Found> fields;
		std::set<std::string> keys;
		collect(sels, _m.conditions(type), {}, fields, keys);
		auto o = J::map();
		auto& t = _m.type(type);
		for (auto& f : fields)
		{
			auto& s = *f.sel;
			path.push_back(J::str(s.key()));
			if (path.size() == 1)
				_r.rootKeys.push_back(s.key());
			if (s.name == "__typename")
				o.add(s.key(), J::str(type));
			else
				o.add(s.key(), field(t, id, *t.field(s.name), s, f, path));
			path.pop_back();
		}
		_r.events.push_back(event(Event::End, type, path, outer));
		return o;
	}
	J field(const TypeDef& t, uint64_t id, const FieldDef& fd, const Sel& s, const Found& found, std::vector<J>& path)
	{
		auto args = J::map();
		std::vector<std::string> bad;
		for (auto& a : fd.args)
		{
			std::optional<J> v;
			auto given = std::find_if(s.args.begin(), s.args.end(), [&](auto& e) { return e.first == a.name; });
			if (given != s.args.end())
				v = coerce(_m, a.type, evalRaw(given->second, _vars));
			else
				v = coerce(_m, a.type, a.def ? *a.def : J());
			if (v)
				args.add(a.name, *v);
			else
				bad.push_back(a.name);
		}
		if (!bad.empty())
		{
			_r.errors.push_back({ "", bad, s.pos, pathJson(path) });
			return {};
		}
		if (auto without = _w.without(t.name, fd.name))
		{
			_r.errors.push_back({ "Field error name: " + s.key() + " unknown error: " + *without, {}, s.pos, pathJson(path) });
			return {};
		}
		auto ev = event(Event::Accessor, t.name, path, found.frame);
		ev.field = fd.name;
		ev.args = canon(args);
		ev.dirs = canon(found.dirs);
		_r.events.push_back(ev);
		auto h = _w.hash(id, t.name, fd.name, ev.args);
		auto f = _w.fault(h);
		if (f.k != Fault::None)
		{
			for (auto& msg : f.messages)
				_r.errors.push_back({ (f.k == Fault::Runtime ? "Field error name: " + s.key() + " unknown error: " : "") + msg, {}, s.pos, pathJson(path) });
			return {};
		}
		return complete(_w.value(h, fd.type), s, path, found.frame);
	}
	J complete(const OutVal& v, const Sel& s, std::vector<J>& path, const Frame& frame)
	{
		switch (v.k)
		{
			case OutVal::Null: return {};
			case OutVal::Leaf: return v.leaf;
			case OutVal::Bad: _r.errors.push_back({ "Field error name: " + s.key() + " unknown error: " + v.message, {}, s.pos, pathJson(path) }); return {};
			case OutVal::Obj: return object(v.type, v.id, s.sub, path, frame);
			case OutVal::List:
			{
				auto l = J::list();
				for (size_t i = 0; i < v.items.size(); ++i)
				{
					path.push_back(J::integer((long long)i));
					l.l.push_back(complete(v.items[i], s, path, frame));
					path.pop_back();
				}
				return l;
			}
		}
		return {};
	}
};

} // namespace vh
