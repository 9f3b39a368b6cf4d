// P11: several threads use one service, under TSan, and each checks its own answers.
#include "invalid.h"
#include "run.h"

namespace vh {
namespace {

struct Question
{
	Case c;
	std::string context;
	bool valid = true;
	Expected expected;      // if valid
	std::string answer;     // otherwise
	peg::ast shared;        // its tree is shared by the threads
};

struct Listener
{
	Case c;
	std::string stateName;
	Reference::Root root;
	J expected;
	bool exact = true; // or the errors are unspecified
	std::atomic<long> got { 0 }, wrong { 0 };
	std::string what; // of the first wrong one
	std::mutex mutex;
};
using ListenerP = std::shared_ptr<Listener>;

service::SubscriptionCallback callback(const ListenerP& x)
{
	return [x](std::future<response::Value> f) {
		std::string text;
		try
		{
			auto j = fromValue(f.get());
			auto d = j.get("data");
			text = canon(d ? *d : j);
		}
		catch (const std::exception& ex)
		{
			text = std::string("exception: ") + ex.what();
		}
		if (text != canon(x->expected))
		{
			std::lock_guard<std::mutex> lock(x->mutex);
			if (x->wrong++ == 0)
				x->what = text;
		}
		x->got.fetch_add(1, std::memory_order_relaxed);
	};
}

void concurrent(Report& rep)
{
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		Pool pool(2, r.next());
		Scene s(r);
		s.ctx->lock = r.pct(60);
		if (r.pct(50))
		{
			s.ctx->world.faultPct = (int)r.below(25);
			s.ctx->world.badPct = (int)r.below(20);
		}
		// The questions and their answers.
		std::vector<std::unique_ptr<Question>> questions;
		for (int k = 0; k < 7; ++k)
		{
			auto q = std::make_unique<Question>();
			DocOptions o;
			o.ops = 2;
			o.custom = 15;
			o.depth = 2 + (int)r.below(2);
			o.width = 3;
			o.subscriptions = false;
			q->c = randomCase(s, r, o, (int)r.below(3));
			if (r.pct(25))
			{
				// Invalid: what a service of its own answers is right.
				Breaker b(*s.model, r, q->c.doc);
				auto what = b.apply((int)r.below((size_t)Breaker::rules));
				if (!what.empty())
				{
					Layout l;
					q->c.req.text = printDoc(q->c.doc, r, l) + b.appended;
					q->c.req.operation = "";
					q->valid = false;
				}
			}
			if (q->valid)
			{
				q->context = q->c.op->kind;
				Reference ref(s.ctx->world, q->c.doc, *q->c.op, q->c.req.vars);
				q->expected = ref.run(q->context == "query" ? QueryId : MutationId, q->context, "S");
				if (q->expected.tooBig || q->expected.events.size() > 60)
					continue;
			}
			try
			{
				q->shared = peg::parseString(q->c.req.text);
			}
			catch (const std::exception&)
			{
				continue;
			}
			if (!q->valid)
			{
				auto own = makeService(s.ctx, true, s.svc.schema);
				auto out = execute(own, s.ctx, q->c.req, std::launch::deferred);
				if (out.threw)
					continue;
				q->answer = canon(out.document);
			}
			questions.push_back(std::move(q));
		}
		if (questions.empty())
			return;
		// Subscriptions which exist all the time.
		std::vector<ListenerP> listeners;
		std::map<std::string, long> expectedPerField;
		auto listener = [&](Rng& rng) -> ListenerP {
			DocOptions o;
			o.ops = 1;
			o.only = "subscription";
			o.custom = 5;
			o.depth = 2;
			o.width = 3;
			auto x = std::make_shared<Listener>();
			x->c = randomCase(s, rng, o, 0);
			if (x->c.op->kind != "subscription")
				return nullptr;
			Reference ref(s.ctx->world, x->c.doc, *x->c.op, x->c.req.vars);
			x->root = Reference(s.ctx->world, x->c.doc, *x->c.op, x->c.req.vars).subscription();
			auto e = ref.run(SubscriptionId, "subscription", "L");
			if (e.tooBig || e.events.size() > 40)
				return nullptr;
			x->expected = e.data;
			return x;
		};
		auto params = [&](const ListenerP& x) {
			return service::SubscriptionParams { std::make_shared<State>("L"), peg::parseString(x->c.req.text), std::string(x->c.req.operation), response::parseJSON(json(x->c.req.vars)) };
		};
		std::vector<service::SubscriptionKey> keys;
		if (!s.model->subscription.empty())
			for (int k = 0; k < 5; ++k)
				if (auto x = listener(r))
				{
					keys.push_back(s.svc.svc->subscribe(params(x), callback(x)));
					listeners.push_back(x);
				}
		// Those of the threads which come and go.
		const int threads = 3 + (int)r.below(3);
		std::vector<std::vector<ListenerP>> own((size_t)threads);
		for (auto& o : own)
			if (!s.model->subscription.empty())
				for (int k = 0; k < 2; ++k)
					if (auto x = listener(r))
						o.push_back(x);
		std::vector<std::string> fields;
		for (auto& x : listeners)
			fields.push_back(x->root.name);
		for (auto& o : own)
			for (auto& x : o)
				fields.push_back(x->root.name);

		s.ctx->deliverySeed = r.pct(70) ? r.next() | 1 : 0;
		s.ctx->maxDelay = r.pct(30) ? 80 : 0;
		s.ctx->pool = &pool;
		rep.trace(std::to_string(threads) + " threads\n" + questions[0]->c.req.describe());
		rep.sample(std::to_string(threads) + " threads, " + std::to_string(questions.size()) + " documents, " + std::to_string(listeners.size()) + " subscriptions\n" + questions[0]->c.req.describe());

		struct Result
		{
			std::string wrong, detail;
			long requests = 0, delivered = 0, churn = 0, validations = 0;
			std::map<std::string, long> deliveries;
			uint64_t order = 0;
		};
		std::vector<Result> results((size_t)threads);
		std::atomic<int> ready { 0 };
		std::atomic<uint64_t> turn { 0 };
		std::vector<std::thread> ts;
		for (int t = 0; t < threads; ++t)
			ts.emplace_back([&, t, threadSeed = r.next()] {
				Rng tr(threadSeed);
				auto& res = results[(size_t)t];
				auto& mine = own[(size_t)t];
				std::vector<std::pair<ListenerP, service::SubscriptionKey>> active;
				++ready;
				while (ready < threads)
					std::this_thread::yield();
				for (int k = 0; k < 12 && res.wrong.empty(); ++k)
				{
					res.order = mix(res.order ^ turn.fetch_add(1, std::memory_order_relaxed));
					int what = (int)tr.below(10);
					try
					{
						if (what < 6 || fields.empty())
						{
							auto& q = *questions[tr.below(questions.size())];
							peg::ast ast;
							if (tr.pct(50))
								ast = q.shared;
							else
								ast = peg::parseString(q.c.req.text);
							if (tr.pct(20))
							{
								auto errors = s.svc.svc->validate(ast);
								++res.validations;
								if (errors.empty() != q.valid)
								{
									res.wrong = q.valid ? "a valid document was refused" : "an invalid document was accepted";
									res.detail = q.c.req.describe();
									return;
								}
							}
							auto launch = tr.pct(50) ? std::launch::async : std::launch::deferred;
							auto out = execute(s.svc, s.ctx, ast, q.c.req, launch);
							++res.requests;
							if (q.valid)
							{
								res.wrong = compareData(q.expected, out);
								if (res.wrong.empty())
									res.wrong = compareErrors(q.expected, out);
								if (res.wrong.empty())
									res.wrong = compareArguments(q.expected, out);
							}
							else if (out.threw || canon(out.document) != q.answer)
								res.wrong = "the answer is " + (out.threw ? out.exception : canon(out.document)) + " instead of " + q.answer;
							if (!res.wrong.empty())
								res.detail = q.c.req.describe();
						}
						else if (what < 8)
						{
							auto name = fields[tr.below(fields.size())];
							service::SubscriptionFilterCallback all = [](response::MapType::const_reference) { return true; };
							auto launch = tr.pct(50) ? std::launch::async : std::launch::deferred;
							switch (tr.below(2))
							{
								case 0: s.svc.svc->deliver(launch, name, all, nullptr); break;
								default: s.svc.svc->deliver(launch, name, all, all, nullptr);
							}
							++res.deliveries[name];
							++res.delivered;
							for (auto& a : active)
								if (a.first->root.name == name && a.first->got.load(std::memory_order_relaxed) == 0)
								{
									res.wrong = "an event didn't reach a subscription of the same thread";
									res.detail = a.first->c.req.describe();
								}
						}
						else if (active.empty() || (active.size() < 3 && tr.pct(50)))
						{
							if (mine.empty())
								continue;
							// A fresh one each time.
							auto& like = *mine[tr.below(mine.size())];
							auto x = std::make_shared<Listener>();
							x->c = like.c;
							x->root = like.root;
							x->expected = like.expected;
							auto key = tr.pct(50) ? s.svc.svc->subscribe(params(x), callback(x)) : s.svc.svc->subscribe(tr.pct(50) ? std::launch::async : std::launch::deferred, params(x), callback(x)).get();
							active.emplace_back(x, key);
							++res.churn;
						}
						else
						{
							auto at = tr.below(active.size());
							auto a = active[at];
							active.erase(active.begin() + (std::ptrdiff_t)at);
							if (tr.pct(50))
								s.svc.svc->unsubscribe(a.second);
							else
								s.svc.svc->unsubscribe(tr.pct(50) ? std::launch::async : std::launch::deferred, a.second).get();
							++res.churn;
							if (a.first->wrong)
							{
								std::lock_guard<std::mutex> lock(a.first->mutex);
								res.wrong = "a subscriber got " + a.first->what + " instead of " + canon(a.first->expected);
								res.detail = a.first->c.req.describe();
							}
						}
					}
					catch (const std::exception& ex)
					{
						res.wrong = std::string("an exception: ") + ex.what();
						if (auto se = dynamic_cast<const service::schema_exception*>(&ex))
							res.wrong += canon(fromValue(service::schema_exception(*se).getErrors()));
					}
				}
				for (auto& a : active)
					s.svc.svc->unsubscribe(a.second);
			});
		for (auto& t : ts)
			t.join();
		std::map<std::string, long> total;
		uint64_t order = 0;
		for (auto& res : results)
		{
			if (!res.wrong.empty())
			{
				rep.violation(res.wrong, res.detail + "\n" + summary(*s.model));
				return;
			}
			rep.evaluations += res.requests + res.delivered + res.churn + res.validations;
			rep.count("requests", res.requests);
			rep.count("validations", res.validations);
			rep.count("deliveries", res.delivered);
			rep.count("subscriptions and unsubscriptions", res.churn);
			order = mix(order ^ res.order);
			for (auto& d : res.deliveries)
				total[d.first] += d.second;
		}
		rep.note(order); // how the threads took turns
		for (auto& x : listeners)
		{
			if (x->got != total[x->root.name])
			{
				rep.violation("a subscription got " + std::to_string(x->got) + " of " + std::to_string(total[x->root.name]) + " events", x->c.req.describe());
				return;
			}
			rep.count("events received", x->got);
			if (x->wrong)
			{
				rep.violation("a subscriber got " + x->what + " instead of " + canon(x->expected), x->c.req.describe());
				return;
			}
		}
		for (auto k : keys)
			s.svc.svc->unsubscribe(k);
	});
}

Register r11("P11", concurrent);

} // namespace
} // namespace vh
