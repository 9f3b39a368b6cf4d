#include "run.h"

namespace vh {

std::map<std::string, Mode>& modes()
{
	static std::map<std::string, Mode> m;
	return m;
}

Outcome execute(const Service& s, const CtxP& ctx, const Request_& r, std::launch launch, const std::string& stateName)
{
	try
	{
		auto ast = peg::parseString(r.text);
		return execute(s, ctx, ast, r, launch, stateName);
	}
	catch (const std::exception& ex)
	{
		Outcome o;
		o.threw = true;
		o.exception = std::string("parsing: ") + ex.what();
		return o;
	}
}

Outcome execute(const Service& s, const CtxP& ctx, peg::ast& ast, const Request_& r, std::launch launch, const std::string& stateName)
{
	Outcome o;
	auto state = stateName.empty() ? nullptr : std::make_shared<State>(stateName);
	if (!state)
		ctx->log.events.clear();
	try
	{
		auto vars = response::parseJSON(json(r.vars));
		auto result = s.svc->resolve(launch, state, ast, r.operation, std::move(vars));
		o.document = fromValue(result.get());
	}
	catch (const std::exception& ex)
	{
		o.threw = true;
		o.exception = ex.what();
	}
	auto& log = state ? state->log : ctx->log;
	std::lock_guard<std::mutex> lock(log.mutex);
	o.events = std::move(log.events);
	log.events.clear();
	return o;
}

static std::string firstDifference(const J& a, const J& b, const std::string& at = "")
{
	if (canon(a) == canon(b))
		return "";
	if (a.k == b.k && a.k == J::Map)
	{
		for (size_t i = 0; i < std::max(a.m.size(), b.m.size()); ++i)
		{
			if (i >= a.m.size())
				return at + ": unexpected member " + b.m[i].first;
			if (i >= b.m.size())
				return at + ": missing member " + a.m[i].first;
			if (a.m[i].first != b.m[i].first)
				return at + ": member " + b.m[i].first + " instead of " + a.m[i].first;
			auto d = firstDifference(a.m[i].second, b.m[i].second, at + "/" + a.m[i].first);
			if (!d.empty())
				return d;
		}
	}
	if (a.k == b.k && a.k == J::List && a.l.size() == b.l.size())
		for (size_t i = 0; i < a.l.size(); ++i)
		{
			auto d = firstDifference(a.l[i], b.l[i], at + "/" + std::to_string(i));
			if (!d.empty())
				return d;
		}
	return at + ": " + canon(b).substr(0, 300) + " instead of " + canon(a).substr(0, 300);
}

std::string compareData(const Expected& e, const Outcome& o)
{
	if (o.threw)
		return "an exception instead of a response: " + o.exception;
	auto d = o.data();
	if (!d)
		return "no data entry: " + canon(o.document).substr(0, 500);
	auto diff = firstDifference(e.data, *d);
	return diff.empty() ? "" : "data" + diff + (o.errors() ? " errors: " + canon(*o.errors()).substr(0, 500) : "");
}

std::string compareErrors(const Expected& e, const Outcome& o)
{
	if (o.threw)
		return "an exception instead of a response: " + o.exception;
	for (auto& m : o.document.m)
		if (m.first != "data" && m.first != "errors")
			return "unexpected member " + m.first;
	auto list = o.errors();
	if (e.errors.empty())
		return list ? "unexpected errors " + canon(*list).substr(0, 800) : "";
	if (!list || list->k != J::List)
		return "no errors instead of " + std::to_string(e.errors.size());
	if (list->l.size() != e.errors.size())
		return std::to_string(list->l.size()) + " errors instead of " + std::to_string(e.errors.size()) + ": " + canon(*list).substr(0, 800);
	for (size_t i = 0; i < e.errors.size(); ++i)
	{
		auto& want = e.errors[i];
		auto& got = list->l[i];
		auto msg = got.get("message");
		if (!msg || msg->k != J::Str)
			return "an error without a message: " + canon(got);
		bool ok = want.message.empty() ? false : msg->s == want.message;
		for (auto& n : want.names)
			if (msg->s.compare(0, 25 + n.size(), "Invalid argument: " + n + " error:") == 0)
				ok = true;
		if (!ok)
			return "error message " + quote(msg->s) + " instead of " + (want.message.empty() ? "Invalid argument: " + want.names[0] : quote(want.message));
		auto loc = got.get("locations");
		auto wantLoc = "[{\"line\":" + std::to_string(want.pos.line) + ",\"column\":" + std::to_string(want.pos.column) + "}]";
		if (!loc || canon(*loc) != wantLoc)
			return "error location " + (loc ? canon(*loc) : "none") + " instead of " + wantLoc + " for " + quote(msg->s);
		auto path = got.get("path");
		if (!path || canon(*path) != want.path)
			return "error path " + (path ? canon(*path) : "none") + " instead of " + want.path + " for " + quote(msg->s);
		if (got.m.size() != 3)
			return "unexpected members of the error " + canon(got);
	}
	return "";
}

static std::string compareSets(std::vector<std::string> want, std::vector<std::string> got)
{
	std::sort(want.begin(), want.end());
	std::sort(got.begin(), got.end());
	if (want == got)
		return "";
	std::vector<std::string> missing, extra;
	std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(missing));
	std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
	std::string r;
	for (size_t i = 0; i < missing.size() && i < 3; ++i)
		r += "\nmissing:    " + missing[i];
	for (size_t i = 0; i < extra.size() && i < 3; ++i)
		r += "\nunexpected: " + extra[i];
	return std::to_string(missing.size()) + " missing and " + std::to_string(extra.size()) + " unexpected:" + r;
}

std::string compareEvents(const Expected& e, const Outcome& o)
{
	std::vector<std::string> want, got;
	auto text = [](Event ev) {
		ev.args.clear(); // those are another property's business
		return ev.text();
	};
	for (auto& ev : e.events)
		want.push_back(text(ev));
	for (auto& ev : o.events)
		if (ev.k != Event::Done)
			got.push_back(text(ev));
	auto d = compareSets(want, got);
	return d.empty() ? "" : "events: " + d;
}
std::string compareArguments(const Expected& e, const Outcome& o)
{
	std::vector<std::string> want, got;
	auto text = [](const Event& ev) { return ev.path + " " + ev.type + "." + ev.field + " " + ev.args; };
	for (auto& ev : e.events)
		if (ev.k == Event::Accessor)
			want.push_back(text(ev));
	for (auto& ev : o.events)
		if (ev.k == Event::Accessor)
			got.push_back(text(ev));
	auto d = compareSets(want, got);
	return d.empty() ? "" : "accessor invocations: " + d;
}

std::string checkOrder(const Outcome& o)
{
	struct Span
	{
		uint64_t begin = 0, end = 0;
		int begins = 0, ends = 0;
	};
	std::map<std::string, Span> spans;
	for (auto& e : o.events)
	{
		if (e.k == Event::Begin)
		{
			spans[e.path].begin = e.seq;
			++spans[e.path].begins;
		}
		if (e.k == Event::End)
		{
			spans[e.path].end = e.seq;
			++spans[e.path].ends;
		}
	}
	for (auto& s : spans)
		if (s.second.begins != 1 || s.second.ends != 1 || s.second.begin > s.second.end)
			return "selection set of " + s.first + ": " + std::to_string(s.second.begins) + " begin and " + std::to_string(s.second.ends) + " end events";
	for (auto& e : o.events)
		if (e.k == Event::Accessor)
		{
			// The object's own path is the field's without the last name.
			auto parent = e.path.substr(0, e.path.rfind('/'));
			auto it = spans.find(parent);
			if (it == spans.end())
				return "no selection set events for the object at " + parent;
			if (e.seq < it->second.begin || e.seq > it->second.end)
				return "accessor " + e.path + " outside of the begin and end events of its object";
		}
	return "";
}

const Supplied* supplied = nullptr;

Scene::Scene(Rng& r, const SchemaOptions& so)
{
	model = supplied ? supplied->model() : randomModel(r, so);
	ctx->model = model.get();
	ctx->world.model = model.get();
	ctx->world.seed = r.next();
	if (supplied)
		supplied->world(*ctx);
	svc = supplied ? supplied->service(ctx) : makeService(ctx);
}

Case randomCase(const Scene& s, Rng& r, const DocOptions& o, int fancy)
{
	Case c;
	c.doc = randomDoc(*s.model, r, o);
	Layout l;
	l.fancy = fancy;
	l.bom = fancy == 2 && r.pct(5);
	c.req.text = printDoc(c.doc, r, l);
	c.op = &c.doc.ops[r.below(c.doc.ops.size())];
	if (c.doc.ops.size() > 1 || (!c.op->name.empty() && r.pct(50)))
		c.req.operation = c.op->name;
	c.req.vars = randomVars(*s.model, c.doc, *c.op, r);
	return c;
}

std::string summary(const Model& m)
{
	std::string r;
	for (auto& t : m.types)
	{
		static const char* kinds[] = { "scalar", "enum", "input", "type", "interface", "union" };
		r += std::string(kinds[(int)t->kind]) + " " + t->name;
		for (auto& i : t->ifaces)
			r += " &" + i;
		for (auto& i : t->members)
			r += " |" + i;
		r += " {";
		auto vals = [&](const std::vector<InVal>& v) {
			for (auto& a : v)
				r += " " + a.name + ":" + printTR(a.type) + (a.def ? "=" + a.defText : "");
		};
		vals(t->inputs);
		for (auto& v : t->values)
			r += " " + v.name;
		for (auto& f : t->fields)
		{
			r += " " + f.name;
			if (!f.args.empty())
			{
				r += "(";
				vals(f.args);
				r += ")";
			}
			r += ":" + printTR(f.type);
		}
		r += " }\n";
	}
	for (auto& d : m.dirs)
	{
		r += "directive @" + d.name + "(";
		for (auto& a : d.args)
			r += " " + a.name + ":" + printTR(a.type) + (a.def ? "=" + a.defText : "");
		r += ") on";
		for (auto& l : d.locs)
			r += " " + l;
		r += "\n";
	}
	return r;
}

} // namespace vh

int main(int argc, char** argv)
{
	vh::Report rep;
	rep.opt = vh::parseOptions(argc, argv);
	auto it = vh::modes().find(rep.opt.prop);
	if (it == vh::modes().end())
	{
		std::cerr << "no such property here: " << rep.opt.prop << "\n";
		return 2;
	}
	vh::probes(rep);
	it->second(rep);
	return rep.finish();
}
