// P03, P06, P08, P09, P13: one request at a time against the reference executor.
#include "invalid.h"
#include "run.h"

namespace vh {
namespace {

enum Aspect { Valid, Data, Errors, Arguments, Events };

DocOptions optionsFor(Aspect a, Rng& r)
{
	DocOptions o;
	o.depth = 2 + (int)r.below(4);
	o.width = 2 + (int)r.below(4);
	switch (a)
	{
		case Valid: break;
		case Data:
			o.ops = 3;
			o.skips = 30;
			o.custom = 5;
			o.subscriptions = true;
			break;
		case Errors:
			o.ops = 1;
			o.custom = 5;
			break;
		case Arguments:
			o.ops = 1;
			o.custom = 0;
			o.skips = 3;
			o.vars = 45;
			break;
		case Events:
			o.ops = 2;
			o.custom = 50;
			o.subscriptions = true;
			if (r.pct(30))
				o.only = "subscription";
			o.skips = 20;
			o.frags = 30;
			o.inlines = 30;
			break;
	}
	return o;
}

// Break the values of some of the variables: a value which can't be converted to the declared type.
void breakVars(const Scene& s, Case& c, Rng& r)
{
	auto& m = *s.model;
	for (auto& v : c.op->vars)
	{
		if (!r.pct(35) || c.doc.noOmit.count(v.name) || v.def)
			continue;
		// Boolean variables may be used in skip and include, which are evaluated before the fields.
		if (v.type.name == "Boolean" || m.type(v.type.name).kind == Kind::Scalar)
		{
			if (v.type.name != "Int" && v.type.name != "String" && v.type.name != "ID" && v.type.name != "Float")
				continue;
		}
		for (auto& e : c.req.vars.m)
		{
			if (e.first != v.name)
				continue;
			// Somewhere inside, or as a whole.
			J* at = &e.second;
			while ((at->k == J::List && !at->l.empty() && r.pct(80)))
				at = &at->l[r.below(at->l.size())];
			if (at->k == J::Map && !at->m.empty() && r.pct(60))
			{
				// Members with defaults are left alone.
				continue;
			}
			switch (r.below(7))
			{
				case 0: *at = J::boolean(true); break;
				case 1: *at = J::str("not base64!"); break;
				case 2: *at = J::integer(7); break;
				case 3: *at = J::map(); break;
				case 4: *at = J::list(); break;
				case 5: *at = J::real(1.5); break;
				default: *at = J(); break;
			}
		}
	}
}

// An event of a subscription, and the notifications of the default subscription object around it.
std::string events(Report& rep, const Scene& s, const Case& c, Rng& r)
{
	auto state = r.pct(85) ? std::make_shared<State>("S" + std::to_string(r.below(100))) : nullptr;
	auto& log = state ? state->log : s.ctx->log;
	auto name = state ? state->name : "none";
	auto launch = [&] { return r.pct(70) ? std::launch::deferred : std::launch::async; };
	auto compare = [&](uint64_t id, const std::string& context) -> std::string {
		Outcome o;
		{
			std::lock_guard<std::mutex> lock(log.mutex);
			o.events.swap(log.events);
		}
		Reference ref(s.ctx->world, c.doc, *c.op, c.req.vars);
		auto e = ref.run(id, context, name);
		if (e.tooBig)
			return "";
		++rep.evaluations;
		rep.count("events of " + context, (long)o.events.size());
		auto w = compareEvents(e, o);
		if (w.empty())
			w = checkOrder(o);
		return w.empty() ? "" : context + ": " + w;
	};
	{
		std::lock_guard<std::mutex> lock(log.mutex);
		log.events.clear();
	}
	Reference ref(s.ctx->world, c.doc, *c.op, c.req.vars);
	auto root = ref.subscription();
	int delivered = 0;
	auto& q = *s.svc.svc;
	std::string wrong;
	auto key = q.subscribe(launch(), { state, peg::parseString(c.req.text), std::string(c.req.operation), response::parseJSON(json(c.req.vars)) },
		[&](std::future<response::Value> f) {
			++delivered;
			f.get();
		}).get();
	wrong = compare(SubscriptionId, "subscribe");
	if (wrong.empty())
	{
		bool own = r.pct(50);
		auto all = [](response::MapType::const_reference) { return true; };
		q.deliver(launch(), root.name, all, all, own ? makeObject(s.ctx, s.model->subscription, 77) : nullptr);
		wrong = delivered == 1 ? compare(own ? 77 : SubscriptionId, "subscription") : "the event did not arrive";
	}
	q.unsubscribe(launch(), key).get();
	return wrong.empty() ? compare(SubscriptionId, "unsubscribe") : wrong;
}

template <Aspect A>
void mode(Report& rep)
{
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		Scene s(r);
		if (A == Errors)
		{
			s.ctx->world.faultPct = r.pct(20) ? 60 : 5 + (int)r.below(20);
			s.ctx->world.badPct = (int)r.below(20);
		}
		if (A == Errors && r.pct(50))
		{
			s.ctx->deliverySeed = r.next();
			s.ctx->asyncPct = 30;
		}
		for (int k = 0; k < 6; ++k)
		{
			auto o = optionsFor(A, r);
			auto c = randomCase(s, r, o, (int)r.below(3));
			if (A == Arguments && r.pct(40))
				breakVars(s, c, r);
			rep.trace(c.req.describe());
			if (A == Valid)
			{
				++rep.evaluations;
				rep.note(c.req.text);
				rep.sample(c.req.text);
				auto ast = peg::parseString(c.req.text);
				auto errors = s.svc.svc->validate(ast);
				if (!errors.empty())
				{
					rep.violation("a valid document is rejected: " + errors.front().message,
						c.req.text + "\n" + summary(*s.model));
					return;
				}
				rep.count("documents accepted");
				for (auto& op : c.doc.ops)
				{
					rep.count(op.kind + " operations");
					rep.count("variables", (long)op.vars.size());
				}
				rep.count("fragments", (long)c.doc.frags.size());
				// The same document with fields which are selected more than once.
				Doc wide = c.doc;
				std::string what;
				{
					Breaker b(*s.model, r, wide);
					what = b.widen();
				}
				if (!what.empty())
				{
					auto text = printDoc(wide, r, Layout());
					rep.trace(text);
					rep.note(text);
					++rep.evaluations;
					rep.count("merged selections");
					auto again = peg::parseString(text);
					errors = s.svc.svc->validate(again);
					if (!errors.empty())
					{
						rep.violation("a valid document with " + what + " is rejected: " + errors.front().message, text + "\n" + summary(*s.model));
						return;
					}
				}
			}
			if (c.op->kind == "subscription")
			{
				if (A == Events)
				{
					rep.note(c.req.describe());
					auto wrong = events(rep, s, c, r);
					if (!wrong.empty())
					{
						rep.violation(wrong, c.req.describe() + "\n" + summary(*s.model));
						return;
					}
				}
				continue;
			}
			Reference ref(s.ctx->world, c.doc, *c.op, c.req.vars);
			auto stateName = r.pct(85) ? "S" + std::to_string(r.below(100)) : std::string();
			auto expected = ref.run(c.op->kind == "query" ? QueryId : MutationId, c.op->kind, stateName.empty() ? "none" : stateName);
			if (expected.tooBig)
			{
				rep.count("too big");
				continue;
			}
			if (A == Arguments || A == Errors)
			{
				rep.count("errors expected", (long)expected.errors.size());
				if (!expected.errors.empty())
					rep.count("requests with errors");
			}
			auto launch = r.pct(80) ? std::launch::deferred : std::launch::async;
			auto out = execute(s.svc, s.ctx, c.req, launch, stateName);
			if (A != Valid)
			{
				++rep.evaluations;
				rep.note(c.req.describe());
				rep.sample(c.req.describe() + "\n=> " + canon(out.document).substr(0, 400));
			}
			long accessors = 0;
			for (auto& e : out.events)
				if (e.k == Event::Accessor)
					++accessors;
			rep.count("accessor invocations", accessors);
			rep.count("events", (long)out.events.size());
			std::string wrong;
			switch (A)
			{
				case Valid:
					if (out.threw)
						wrong = "an exception: " + out.exception;
					else if (!out.data() || out.data()->k != J::Map)
						wrong = "a valid operation isn't executed: " + canon(out.document).substr(0, 500);
					break;
				case Data: wrong = compareData(expected, out); break;
				case Errors:
					wrong = compareErrors(expected, out);
					if (wrong.empty())
						wrong = compareData(expected, out);
					break;
				case Arguments:
					wrong = compareArguments(expected, out);
					if (wrong.empty())
						wrong = compareErrors(expected, out);
					break;
				case Events:
					wrong = compareEvents(expected, out);
					if (wrong.empty())
						wrong = checkOrder(out);
					break;
			}
			if (!wrong.empty())
			{
				rep.violation(wrong, c.req.describe() + "\n" + summary(*s.model) + "\n=> " + canon(out.document).substr(0, 3000));
				return;
			}
		}
	});
}

Register r03("P03", mode<Valid>), r06("P06", mode<Data>), r08("P08", mode<Errors>), r09("P09", mode<Arguments>), r13("P13", mode<Events>);

} // namespace
} // namespace vh
