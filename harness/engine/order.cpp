// P07: the same request under many launch policies and completion orders.  P10: mutations in order.
#include "run.h"

namespace vh {
namespace {

void deliver(const Scene& s, Rng& r, Pool& pool)
{
	s.ctx->deliverySeed = r.next() | 1;
	s.ctx->asyncPct = 30 + (int)r.below(71);
	s.ctx->maxDelay = r.pct(40) ? 1 + (int)r.below(150) : 0;
	s.ctx->pool = &pool;
}

void independence(Report& rep)
{
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		Pool pool(1 + (int)r.below(3), r.next());
		Scene s(r);
		if (r.pct(60))
		{
			s.ctx->world.faultPct = (int)r.below(30);
			s.ctx->world.badPct = (int)r.below(20);
		}
		for (int k = 0; k < 4; ++k)
		{
			DocOptions o;
			o.ops = 1;
			o.custom = 5;
			o.depth = 2 + (int)r.below(3);
			o.subscriptions = false;
			auto c = randomCase(s, r, o, 0);
			Reference ref(s.ctx->world, c.doc, *c.op, c.req.vars);
			auto expected = ref.run(c.op->kind == "query" ? QueryId : MutationId, c.op->kind, "S");
			if (expected.tooBig || expected.events.size() > 150)
			{
				rep.count("too big");
				continue;
			}
			for (int v = 0; v < 8; ++v)
			{
				auto launch = v % 2 ? std::launch::async : std::launch::deferred;
				s.ctx->deliverySeed = 0;
				if (v > 1)
					deliver(s, r, pool);
				auto how = std::string(v % 2 ? "async" : "deferred") + " launch, " + (v > 1 ? "accessors in variant " + std::to_string(v) : "immediate accessors");
				rep.trace(how + "\n" + c.req.describe());
				auto out = execute(s.svc, s.ctx, c.req, launch);
				++rep.evaluations;
				rep.note(c.req.describe());
				rep.sample(how + ": " + c.req.describe() + "\n=> " + canon(out.document).substr(0, 300));
				rep.count(v > 1 ? "variants with futures" : "variants without futures");
				rep.count("errors", (long)expected.errors.size());
				std::string order;
				for (auto& e : out.events)
					if (e.k == Event::Accessor)
						order += e.path + ",";
				rep.counters["accessor invocations"] += (long)std::count(order.begin(), order.end(), ',');
				rep.note(hashStr(order, 5)); // the order in which they ran
				auto wrong = compareData(expected, out);
				if (wrong.empty())
					wrong = compareErrors(expected, out);
				if (!wrong.empty())
				{
					rep.violation(how + ": " + wrong, c.req.describe() + "\n" + summary(*s.model) + "\n=> " + canon(out.document).substr(0, 3000));
					return;
				}
			}
		}
	});
}

void serial(Report& rep)
{
	forCases(rep, [&](long, uint64_t seed) {
		Rng r(seed);
		Pool pool(1 + (int)r.below(3), r.next());
		SchemaOptions so;
		Scene s(r, so);
		if (s.model->mutation.empty())
		{
			rep.count("no mutations");
			return;
		}
		s.ctx->logDone = true;
		if (r.pct(60))
		{
			s.ctx->world.faultPct = (int)r.below(40);
			s.ctx->world.badPct = (int)r.below(20);
		}
		for (int k = 0; k < 6; ++k)
		{
			DocOptions o;
			o.ops = 2;
			o.only = "mutation";
			o.custom = 5;
			o.width = 3 + (int)r.below(4);
			o.depth = 2 + (int)r.below(3);
			o.dups = 15;
			auto c = randomCase(s, r, o, 0);
			Reference ref(s.ctx->world, c.doc, *c.op, c.req.vars);
			auto expected = ref.run(MutationId, "mutation", "S");
			if (expected.tooBig || expected.events.size() > 150)
			{
				rep.count("too big");
				continue;
			}
			for (int v = 0; v < 4; ++v)
			{
				auto launch = v % 2 ? std::launch::async : std::launch::deferred;
				s.ctx->deliverySeed = 0;
				if (v)
					deliver(s, r, pool);
				auto how = std::string(v % 2 ? "async" : "deferred") + " launch, accessors in variant " + std::to_string(v);
				rep.trace(how + "\n" + c.req.describe());
				auto out = execute(s.svc, s.ctx, c.req, launch);
				++rep.evaluations;
				rep.note(c.req.describe() + how);
				rep.sample(how + ": " + c.req.describe() + "\n=> " + canon(out.document).substr(0, 300));
				rep.count("root fields", (long)expected.rootKeys.size());
				rep.count("errors", (long)expected.errors.size());
				auto wrong = compareArguments(expected, out); // exactly once, each
				if (wrong.empty())
					wrong = compareData(expected, out);
				if (wrong.empty())
				{
					// The interval of each root field: from its accessor to the last thing that happened under it.
					std::map<std::string, size_t> index;
					for (size_t i = 0; i < expected.rootKeys.size(); ++i)
						index[expected.rootKeys[i]] = i;
					struct Interval
					{
						uint64_t first = UINT64_MAX, last = 0;
						std::string at;
					};
					std::vector<Interval> spans(expected.rootKeys.size());
					for (auto& e : out.events)
					{
						if (e.path.empty())
							continue;
						auto key = e.path.substr(1, e.path.find('/', 1) == std::string::npos ? std::string::npos : e.path.find('/', 1) - 1);
						auto it = index.find(key);
						if (it == index.end())
						{
							wrong = "an event outside of the selected root fields: " + e.path;
							break;
						}
						auto& sp = spans[it->second];
						sp.first = std::min(sp.first, e.seq);
						if (e.seq > sp.last)
						{
							sp.last = e.seq;
							sp.at = e.text();
						}
						rep.count(e.k == Event::Done ? "completions" : e.k == Event::Accessor ? "accessor invocations" : "selection set events");
					}
					uint64_t last = 0;
					std::string at;
					for (size_t i = 0; i < spans.size() && wrong.empty(); ++i)
					{
						if (!spans[i].last)
							continue;
						if (spans[i].first < last)
							wrong = "root field " + expected.rootKeys[i] + " started before " + at;
						last = spans[i].last;
						at = spans[i].at;
						rep.count("intervals");
					}
				}
				if (!wrong.empty())
				{
					rep.violation(how + ": " + wrong, c.req.describe() + "\n" + summary(*s.model) + "\n=> " + canon(out.document).substr(0, 3000));
					return;
				}
			}
		}
	});
}

Register r07("P07", independence), r10("P10", serial);

} // namespace
} // namespace vh
