// P12: histories of subscribe, unsubscribe and deliver against a model of the active subscriptions.
#include "run.h"

namespace vh {
namespace {

struct Subscriber
{
	Case c;
	std::string stateName;
	std::shared_ptr<State> state;
	Reference::Root root;
	bool active = true;
	bool async = false;
	service::SubscriptionKey key = 0;
	// What arrived.
	std::mutex mutex;
	std::vector<J> got;
	std::vector<std::string> failures;
	std::function<void()> during; // runs in the callback
};
using SubP = std::shared_ptr<Subscriber>;

struct History
{
	Report& rep;
	Rng& r;
	Scene& s;
	bool hasDefault;
	Pool& pool;
	std::vector<SubP> subs;
	std::string log;
	std::string wrong;

	void step(const std::string& t)
	{
		log += t + "\n";
		rep.trace(log);
	}
	std::launch launch() { return r.pct(70) ? std::launch::deferred : std::launch::async; }
	std::vector<SubP> active()
	{
		std::vector<SubP> a;
		for (auto& x : subs)
			if (x->active)
				a.push_back(x);
		return a;
	}
	service::SubscriptionParams params(const SubP& x)
	{
		return { x->state, peg::parseString(x->c.req.text), std::string(x->c.req.operation), response::parseJSON(json(x->c.req.vars)) };
	}
	service::SubscriptionCallback callback(const SubP& x)
	{
		return [x](std::future<response::Value> f) {
			J j;
			std::string failure;
			try
			{
				j = fromValue(f.get());
			}
			catch (const std::exception& ex)
			{
				failure = ex.what();
			}
			{
				std::lock_guard<std::mutex> lock(x->mutex);
				if (failure.empty())
					x->got.push_back(std::move(j));
				else
					x->failures.push_back(failure);
			}
			if (x->during)
				x->during();
		};
	}
	Outcome take(const SubP& x)
	{
		Outcome o;
		std::lock_guard<std::mutex> lock(x->state->log.mutex);
		o.events = std::move(x->state->log.events);
		x->state->log.events.clear();
		return o;
	}
	// The notification of the default subscription object.
	void expectNotified(const SubP& x, bool notified, const std::string& context)
	{
		auto o = take(x);
		Expected e;
		if (notified)
		{
			Reference ref(s.ctx->world, x->c.doc, *x->c.op, x->c.req.vars);
			e = ref.run(SubscriptionId, context, x->stateName);
			if (e.tooBig)
				return;
			rep.count("notifications");
		}
		auto w = compareEvents(e, o);
		if (w.empty())
			w = compareArguments(e, o);
		if (!w.empty() && wrong.empty())
			wrong = context + " notification: " + w;
	}
	void subscribe()
	{
		auto x = std::make_shared<Subscriber>();
		DocOptions o;
		o.ops = 3;
		o.custom = 20;
		o.depth = 3;
		o.width = 3;
		if (r.pct(75))
			o.only = "subscription";
		x->c = randomCase(s, r, o, (int)r.below(2));
		x->stateName = "S" + std::to_string(subs.size());
		x->state = std::make_shared<State>(x->stateName);
		// Mostly subscriptions.
		for (auto& op : x->c.doc.ops)
			if (op.kind == "subscription" && x->c.op->kind != "subscription" && r.pct(90))
			{
				x->c.op = &op;
				x->c.req.operation = op.name;
				x->c.req.vars = randomVars(*s.model, x->c.doc, op, r);
			}
		bool ok = x->c.op->kind == "subscription";
		if (ok && r.pct(5))
		{
			ok = false;
			x->c.req.text += " { unknownFieldName }";
			if (x->c.doc.ops.size() == 1)
				x->c.req.operation = x->c.op->name;
		}
		else if (ok && r.pct(3))
		{
			ok = false;
			x->c.req.operation = "NoSuchOperation";
		}
		int how = (int)r.below(3);
		auto l = how == 1 ? std::launch::deferred : std::launch::async;
		x->async = how > 0;
		step("subscribe " + std::string(how == 0 ? "sync" : how == 1 ? "deferred" : "async") + " " + x->c.req.describe());
		try
		{
			if (how == 0)
				x->key = s.svc.svc->subscribe(params(x), callback(x));
			else
				x->key = s.svc.svc->subscribe(l, params(x), callback(x)).get();
			if (!ok)
			{
				wrong = "subscribing to something else than a valid subscription succeeded";
				return;
			}
		}
		catch (const service::schema_exception& ex)
		{
			if (ok)
			{
				auto e = service::schema_exception(ex).getErrors();
				wrong = "subscribing failed: " + canon(fromValue(e));
			}
			else
				expectNotified(x, false, "subscribe");
			rep.count("refused subscriptions");
			return;
		}
		rep.count("subscriptions");
		for (auto& other : active())
			if (other->key == x->key)
			{
				wrong = "two active subscriptions have the same key";
				return;
			}
		x->root = Reference(s.ctx->world, x->c.doc, *x->c.op, x->c.req.vars).subscription();
		step("key " + std::to_string(x->key) + " field " + x->root.name + canon(x->root.args) + canon(x->root.dirs));
		subs.push_back(x);
		expectNotified(x, how > 0 && hasDefault, "subscribe");
	}
	void unsubscribe()
	{
		auto a = active();
		int how = (int)r.below(3);
		service::SubscriptionKey key = 1000000;
		SubP x;
		if (!a.empty() && r.pct(90))
		{
			x = r.pick(a);
			key = x->key;
		}
		step("unsubscribe " + std::to_string(key) + " " + std::to_string(how));
		if (how == 0)
			s.svc.svc->unsubscribe(key);
		else
			s.svc.svc->unsubscribe(how == 1 ? std::launch::deferred : std::launch::async, key).get();
		rep.count("unsubscriptions");
		if (!x)
			return;
		x->active = false;
		expectNotified(x, how > 0 && hasDefault, "unsubscribe");
		// It's released along with the callback.
		rep.count(x->state.use_count() == 1 ? "released registrations" : "retained registrations");
	}
	response::Value change(J j)
	{
		// Something else, of another type.
		return toValue(j.k == J::Int ? J::str("other") : J::integer(424242));
	}
	void deliver()
	{
		auto& t = s.model->type(s.model->subscription);
		auto a = active();
		std::string name = t.fields[r.below(t.fields.size())].name;
		SubP like;
		if (!a.empty() && r.pct(85))
		{
			like = r.pick(a);
			name = like->root.name;
		}
		else if (r.pct(20))
			name = "noSuchField";
		// The event.
		std::map<std::string, J> args, dirs;
		if (like)
		{
			for (auto& e : like->root.args.m)
				args[e.first] = e.second;
			for (auto& e : like->root.dirs.m)
				dirs[e.first] = e.second;
		}
		auto spoil = [&](std::map<std::string, J>& m) {
			if (m.empty())
				return;
			auto it = m.begin();
			std::advance(it, (std::ptrdiff_t)r.below(m.size()));
			if (r.pct(50))
				m.erase(it);
			else
				it->second = it->second.k == J::Int ? J::str("other") : J::integer(424242);
		};
		if (r.pct(25))
			spoil(args);
		if (r.pct(25))
			spoil(dirs);
		if (r.pct(50))
			args["extra"] = J::integer(1);
		if (r.pct(50))
			dirs["extra"] = J::map();
		auto mask = r.next();
		auto pass = [mask](const std::string& n, const J& v, int which) { return hashStr(n + canon(sorted(v)), mask + (uint64_t)which) % 4 != 0; };
		int overload = (int)r.below(5);
		auto l = launch();
		bool withObject = !hasDefault || r.pct(50);
		uint64_t id = withObject ? 1000 + r.below(1000) : (uint64_t)SubscriptionId;
		auto object = withObject ? std::make_shared<DynObj>(s.ctx, t, id) : nullptr;
		std::shared_ptr<service::Object> obj = object;
		service::SubscriptionArguments sa, sd;
		for (auto& e : args)
			sa.emplace(e.first, toValue(e.second));
		for (auto& e : dirs)
			sd.emplace(e.first, toValue(e.second));
		std::atomic<long> filtered { 0 };
		service::SubscriptionFilterCallback fa = [&](response::MapType::const_reference e) { ++filtered; return pass(e.first, fromValue(e.second), 0); };
		service::SubscriptionFilterCallback fd = [&](response::MapType::const_reference e) { ++filtered; return pass(e.first, fromValue(e.second), 1); };
		step("deliver " + name + " overload " + std::to_string(overload) + (withObject ? " with object " + std::to_string(id) : ""));
		for (auto& e : args)
			log += "  argument " + e.first + " " + canon(e.second) + "\n";
		for (auto& e : dirs)
			log += "  directive " + e.first + " " + canon(e.second) + "\n";

		std::vector<SubP> expected;
		for (auto& x : a)
		{
			if (x->root.name != name)
				continue;
			bool match = true;
			auto exact = [&](const J& required, const std::map<std::string, J>& have) {
				for (auto& e : required.m)
				{
					auto it = have.find(e.first);
					if (it == have.end() || canon(sorted(it->second)) != canon(sorted(e.second)))
						match = false;
				}
			};
			auto filter = [&](const J& required, int which) {
				for (auto& e : required.m)
					if (!pass(e.first, e.second, which))
						match = false;
			};
			static const std::map<std::string, J> none;
			switch (overload)
			{
				case 0: exact(x->root.args, none); exact(x->root.dirs, none); break;
				case 1: exact(x->root.args, args); exact(x->root.dirs, none); break;
				case 2: exact(x->root.args, args); exact(x->root.dirs, dirs); break;
				case 3: filter(x->root.args, 0); break;
				case 4: filter(x->root.args, 0); filter(x->root.dirs, 1); break;
			}
			if (match)
				expected.push_back(x);
		}
		// Sometimes a callback changes the subscriptions.
		SubP victim;
		if (!expected.empty() && r.pct(10))
		{
			auto who = r.pick(expected);
			victim = r.pick(a);
			step("  the callback of " + std::to_string(who->key) + " unsubscribes " + std::to_string(victim->key));
			auto svc = s.svc.svc;
			who->during = [svc, key = victim->key] { svc->unsubscribe(key); };
		}
		try
		{
			bool d = l == std::launch::deferred && r.pct(50);
			auto& q = *s.svc.svc;
			switch (overload)
			{
				case 0: d ? q.deliver(name, obj) : q.deliver(l, name, obj); break;
				case 1: d ? q.deliver(name, sa, obj) : q.deliver(l, name, sa, obj); break;
				case 2: d ? q.deliver(name, sa, sd, obj) : q.deliver(l, name, sa, sd, obj); break;
				case 3: d ? q.deliver(name, fa, obj) : q.deliver(l, name, fa, obj); break;
				case 4: d ? q.deliver(name, fa, fd, obj) : q.deliver(l, name, fa, fd, obj); break;
			}
		}
		catch (const std::exception& ex)
		{
			wrong = std::string("deliver threw: ") + ex.what();
			return;
		}
		rep.count("deliveries");
		rep.count("filter calls", filtered);
		rep.count("callbacks expected", (long)expected.size());
		rep.count("callbacks withheld", (long)(a.size() - expected.size()));
		for (auto& x : subs)
			x->during = nullptr;
		for (auto& x : subs)
		{
			auto o = take(x);
			std::vector<J> got;
			std::vector<std::string> failures;
			{
				std::lock_guard<std::mutex> lock(x->mutex);
				got.swap(x->got);
				failures.swap(x->failures);
			}
			bool due = std::find(expected.begin(), expected.end(), x) != expected.end();
			if (!failures.empty())
				wrong = "an exception instead of a response: " + failures[0];
			else if (got.size() != (due ? 1u : 0u))
				wrong = std::to_string(got.size()) + " callbacks instead of " + (due ? "1" : "0") + " for key " + std::to_string(x->key) + (x->active ? "" : " (unsubscribed)");
			else if (due)
			{
				Reference ref(s.ctx->world, x->c.doc, *x->c.op, x->c.req.vars);
				auto e = ref.run(id, "subscription", x->stateName);
				if (e.tooBig)
					continue;
				rep.count("callbacks");
				rep.note(x->c.req.describe() + std::to_string(id));
				o.document = got[0];
				wrong = compareData(e, o);
				if (wrong.empty())
					wrong = compareErrors(e, o);
				if (wrong.empty())
					wrong = compareEvents(e, o);
				if (wrong.empty())
					wrong = compareArguments(e, o);
				if (!wrong.empty())
					wrong += "\n=> " + canon(got[0]).substr(0, 2000);
			}
			else if (!o.events.empty())
				wrong = "accessors ran for a subscription which doesn't match: " + o.events[0].text();
			if (!wrong.empty())
			{
				wrong = "key " + std::to_string(x->key) + ": " + wrong;
				return;
			}
		}
		if (victim)
			victim->active = false;
	}
};

void subscriptions(Report& rep)
{
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		Pool pool(2, r.next());
		auto hasDefault = r.pct(70);
		Scene s(r);
		for (int tries = 0; s.model->subscription.empty() && tries < 20; ++tries)
			s = Scene(r);
		if (s.model->subscription.empty())
			return;
		s.svc = makeService(s.ctx, hasDefault);
		if (r.pct(40))
			s.ctx->world.faultPct = (int)r.below(25);
		if (r.pct(50))
		{
			s.ctx->deliverySeed = r.next();
			s.ctx->asyncPct = 30;
			s.ctx->pool = &pool;
		}
		History h { rep, r, s, hasDefault, pool, {}, {}, {} };
		size_t steps = 15 + r.below(30);
		for (size_t i = 0; i < steps && h.wrong.empty(); ++i)
		{
			++rep.evaluations;
			auto k = r.below(10);
			if (k < 3 || h.active().empty())
				h.subscribe();
			else if (k < 5)
				h.unsubscribe();
			else
				h.deliver();
		}
		rep.sample(h.log.substr(0, 1200));
		if (!h.wrong.empty())
			rep.violation(h.wrong, h.log + "\n" + summary(*s.model));
		// Those who are left are released with the service.
	});
}

Register r12("P12", subscriptions);

} // namespace
} // namespace vh
