// P05: the answers of one long-lived service, in a random history, and those of a new service each.
#include "invalid.h"
#include "run.h"

namespace vh {
namespace {

struct Question
{
	Request_ req;
	std::string kind; // of its operation
	bool subscribable = false;
	// The answers of a new service.
	std::string parse, verdict, response, events, delivered, deliveredEvents, subscribed;
	std::shared_ptr<peg::ast> ast; // kept for a second use
	int asked = 0;
};

std::string eventsText(const std::vector<Event>& events)
{
	std::vector<std::string> t;
	for (auto& e : events)
		if (e.k != Event::Done)
			t.push_back(e.text());
	std::sort(t.begin(), t.end());
	std::string r;
	for (auto& e : t)
		r += e + "\n";
	return r;
}

struct Asker
{
	const Service& svc;
	const CtxP& ctx;

	std::string validate(peg::ast& ast) const { return canon(fromValue(service::buildErrorValues(svc.svc->validate(ast)))); }
	std::pair<std::string, std::string> resolve(peg::ast& ast, const Question& q, std::launch launch) const
	{
		auto o = execute(svc, ctx, ast, q.req, launch);
		return { o.threw ? "exception " + o.exception : canon(o.document), eventsText(o.events) };
	}
	// Subscribe; the answer to one event.
	struct Subscription
	{
		std::string error;
		service::SubscriptionKey key = 0;
		std::shared_ptr<State> state = std::make_shared<State>("S");
		std::shared_ptr<std::vector<std::string>> got = std::make_shared<std::vector<std::string>>();
	};
	Subscription subscribe(peg::ast ast, const Question& q) const
	{
		Subscription s;
		try
		{
			s.key = svc.svc->subscribe({ s.state, std::move(ast), std::string(q.req.operation), response::parseJSON(json(q.req.vars)) },
				[got = s.got](std::future<response::Value> f) {
					try
					{
						got->push_back(canon(fromValue(f.get())));
					}
					catch (const std::exception& ex)
					{
						got->push_back(std::string("exception ") + ex.what());
					}
				});
		}
		catch (const service::schema_exception& ex)
		{
			s.error = "refused " + canon(fromValue(service::schema_exception(ex).getErrors()));
		}
		catch (const std::exception& ex)
		{
			s.error = std::string("exception ") + ex.what();
		}
		return s;
	}
	// To everybody.
	void deliver(std::launch launch) const
	{
		for (auto& f : ctx->model->type(ctx->model->subscription).fields)
			svc.svc->deliver(launch, f.name, [](response::MapType::const_reference) { return true; }, [](response::MapType::const_reference) { return true; }, {});
	}
	static std::string take(const Subscription& s, std::string& events)
	{
		std::string r;
		for (auto& e : *s.got)
			r += e + "\n";
		s.got->clear();
		std::lock_guard<std::mutex> lock(s.state->log.mutex);
		events = eventsText(s.state->log.events);
		s.state->log.events.clear();
		return r;
	}
};

Question question(Scene& s, Rng& r)
{
	Question q;
	DocOptions o;
	o.ops = 2;
	o.depth = 3;
	o.width = 3;
	o.custom = 15;
	o.subscriptions = true;
	if (!s.model->subscription.empty() && r.pct(25))
		o.only = "subscription";
	auto c = randomCase(s, r, o, (int)r.below(2));
	q.req = c.req;
	q.kind = c.op->kind;
	auto opIndex = (size_t)(c.op - c.doc.ops.data());
	if (r.pct(50))
	{
		Doc broken = c.doc;
		Breaker b(*s.model, r, broken);
		auto what = b.apply((int)r.below(Breaker::rules));
		if (!what.empty())
		{
			Layout l;
			q.req.text = printDoc(broken, r, l) + b.appended;
			q.req.operation = broken.ops[std::min(opIndex, broken.ops.size() - 1)].name;
		}
	}
	switch (r.below(12))
	{
		case 0: q.req.operation = "NoSuchOperation"; break;
		case 1: q.req.vars = J::map(); break;
		case 2:
			for (auto& v : q.req.vars.m)
				v.second = J::str("something else");
			break;
		case 3: // a syntax error
			q.req.text.insert(r.below(q.req.text.size()), 1, "{}()!$:@\"?\x01"[r.below(11)]);
			break;
		case 4: q.req.text.resize(r.below(q.req.text.size())); break;
		default: break;
	}
	return q;
}

void ask(Question& q, const CtxP& ctx)
{
	peg::ast probe;
	try
	{
		probe = peg::parseString(q.req.text);
	}
	catch (const std::exception& ex)
	{
		q.parse = ex.what();
		return;
	}
	{
		auto svc = makeService(ctx);
		q.verdict = Asker { svc, ctx }.validate(probe);
	}
	{
		auto svc = makeService(ctx);
		auto ast = peg::parseString(q.req.text);
		std::tie(q.response, q.events) = Asker { svc, ctx }.resolve(ast, q, std::launch::deferred);
	}
	if (ctx->model->subscription.empty())
		return;
	auto svc = makeService(ctx);
	Asker a { svc, ctx };
	auto s = a.subscribe(peg::parseString(q.req.text), q);
	q.subscribed = s.error;
	if (s.error.empty())
	{
		q.subscribable = true;
		a.deliver(std::launch::deferred);
		q.delivered = Asker::take(s, q.deliveredEvents);
	}
}

void history(Report& rep)
{
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		SchemaOptions so;
		so.mutation = !r.pct(25);
		so.subscription = !r.pct(15);
		Scene s(r, so);
		if (r.pct(50))
			s.ctx->world.faultPct = (int)r.below(30);
		std::vector<Question> qs;
		for (size_t n = 6 + r.below(8); n; --n)
		{
			qs.push_back(question(s, r));
			rep.trace(qs.back().req.describe());
			ask(qs.back(), s.ctx);
			auto& q = qs.back();
			rep.note(q.req.describe());
			rep.count(!q.parse.empty() ? "questions which don't parse" : q.verdict != "[]" ? "invalid questions" : "valid questions");
			if (q.subscribable)
				rep.count("subscribable questions");
		}
		auto svc = makeService(s.ctx);
		Asker a { svc, s.ctx };
		std::vector<std::pair<Question*, Asker::Subscription>> subs;
		std::string log, wrong;
		auto step = [&](const std::string& what, const Question& q) {
			log += what + " question " + std::to_string(&q - qs.data()) + "\n";
			rep.trace(log + q.req.describe());
			rep.count(what);
			++rep.evaluations;
		};
		auto differ = [&](const char* what, const std::string& got, const std::string& want) {
			if (wrong.empty() && got != want)
				wrong = std::string(what) + ": " + got.substr(0, 600) + "\ninstead of " + want.substr(0, 600);
		};
		size_t steps = 25 + r.below(40);
		const Question* current = nullptr;
		for (size_t i = 0; i < steps && wrong.empty(); ++i)
		{
			auto& q = r.pick(qs);
			current = &q;
			// The same parsed document, or a new one.
			auto ast = q.ast && r.pct(50) ? q.ast : nullptr;
			if (ast)
				rep.count("documents reused");
			else
			{
				try
				{
					ast = std::make_shared<peg::ast>(peg::parseString(q.req.text));
				}
				catch (const std::exception& ex)
				{
					step("parse", q);
					differ("parse error", ex.what(), q.parse);
					continue;
				}
				differ("parsed instead of", "", q.parse);
				if (r.pct(60))
					q.ast = ast;
			}
			if (q.asked++)
				rep.count("questions asked again");
			auto how = r.below(10);
			auto launch = r.pct(80) ? std::launch::deferred : std::launch::async;
			if (how < 3)
			{
				step("validate", q);
				differ("verdict", a.validate(*ast), q.verdict);
				// A valid document is marked as valid. An invalid one has the same errors again.
				if (r.pct(40))
					differ("second verdict", a.validate(*ast), q.verdict);
			}
			else if (how < 7)
			{
				step("resolve", q);
				auto [response, events] = a.resolve(*ast, q, launch);
				differ("response", response, q.response);
				// What has started before a request fails depends on the launch policy.
				if (launch == std::launch::deferred)
					differ("events", events, q.events);
			}
			else if (how < 9)
			{
				if (s.model->subscription.empty())
					continue;
				step("subscribe", q);
				// Subscribing takes the document along.
				auto x = a.subscribe(r.pct(50) ? std::move(*ast) : peg::ast(*ast), q);
				if (ast == q.ast)
					q.ast = nullptr;
				differ("subscribing", x.error, q.subscribed);
				if (x.error.empty())
					subs.emplace_back(&q, std::move(x));
			}
			else if (!subs.empty() && r.pct(30))
			{
				auto at = r.below(subs.size());
				step("unsubscribe", *subs[at].first);
				svc.svc->unsubscribe(subs[at].second.key);
				subs.erase(subs.begin() + (std::ptrdiff_t)at);
			}
			else if (!subs.empty())
			{
				step("deliver", q);
				a.deliver(launch);
				for (auto& x : subs)
				{
					current = x.first;
					std::string events;
					differ("delivered", Asker::take(x.second, events), x.first->delivered);
					if (launch == std::launch::deferred)
						differ("events of a delivery", events, x.first->deliveredEvents);
					rep.count("deliveries compared");
					if (!wrong.empty())
						break;
				}
			}
		}
		rep.sample(log.substr(0, 800));
		if (!wrong.empty())
			rep.violation(wrong, log + "\n" + current->req.describe() + "\n" + summary(*s.model));
	});
}

Register r05("P05", history);

} // namespace
} // namespace vh
