// P04: documents which break one rule.
#include "invalid.h"
#include "run.h"

namespace vh {
namespace {

std::string checkErrors(const J& list, const std::string& text)
{
	if (list.k != J::List || list.l.empty())
		return "no errors";
	size_t lines = 1 + (size_t)std::count_if(text.begin(), text.end(), [](char c) { return c == '\n' || c == '\r'; });
	for (auto& e : list.l)
	{
		auto msg = e.get("message");
		if (!msg || msg->k != J::Str || msg->s.empty())
			return "an error without a message: " + canon(e);
		auto loc = e.get("locations");
		if (!loc || loc->k != J::List || loc->l.empty())
			return "an error without locations: " + canon(e);
		for (auto& l : loc->l)
		{
			auto line = l.get("line"), column = l.get("column");
			if (!line || !column || line->i < 1 || column->i < 1 || (size_t)line->i > lines || (size_t)column->i > text.size() + 1)
				return "an error with a strange location: " + canon(e);
		}
	}
	return "";
}

void invalid(Report& rep)
{
	forCases(rep, [&](long index, uint64_t seed) {
		Rng r(seed);
		SchemaOptions so;
		so.mutation = !r.pct(25);
		so.subscription = !r.pct(25);
		Scene s(r, so);
		for (int k = 0; k < 10; ++k)
		{
			DocOptions o;
			o.depth = 2 + (int)r.below(3);
			o.width = 2 + (int)r.below(3);
			auto c = randomCase(s, r, o, 0);
			auto opIndex = (size_t)(c.op - c.doc.ops.data());
			Doc broken = c.doc;
			Breaker b(*s.model, r, broken);
			// All of the rules get their turn.
			auto rule = (int)((index * 10 + k) % Breaker::rules);
			if (rep.opt.extra.count("rule"))
				rule = std::stoi(rep.opt.extra["rule"]);
			auto what = b.apply(rule);
			if (what.empty())
			{
				rep.count("rule doesn't apply");
				continue;
			}
			Layout l;
			l.fancy = (int)r.below(3);
			Request_ q = c.req;
			q.text = printDoc(broken, r, l) + b.appended;
			q.operation = broken.ops[std::min(opIndex, broken.ops.size() - 1)].name;
			auto desc = what + "\n" + q.describe() + "\n" + summary(*s.model);
			rep.trace(desc);
			++rep.evaluations;
			rep.note(q.text);
			rep.count("rule " + std::to_string(rule));
			rep.sample(what + ": " + q.text);
			std::string wrong;
			try
			{
				auto ast = peg::parseString(q.text);
				auto before = s.ctx->accessors.load();
				if (r.pct(50))
				{
					auto errors = s.svc.svc->validate(ast);
					wrong = checkErrors(fromValue(service::buildErrorValues(std::move(errors))), q.text);
					if (!wrong.empty())
						wrong = "validate: " + wrong;
					rep.count("validated");
				}
				if (wrong.empty() && (broken.ops[std::min(opIndex, broken.ops.size() - 1)].kind == "subscription" && r.pct(50)))
				{
					// Nothing may be subscribed either.
					try
					{
						s.svc.svc->subscribe({ nullptr, std::move(ast), std::string(q.operation), response::parseJSON(json(q.vars)) }, [](std::future<response::Value>) {});
						wrong = "subscribed";
					}
					catch (const service::schema_exception& ex)
					{
						wrong = checkErrors(fromValue(service::schema_exception(ex).getErrors()), q.text);
					}
					rep.count("subscriptions refused");
				}
				else if (wrong.empty())
				{
					auto out = execute(s.svc, s.ctx, ast, q, r.pct(80) ? std::launch::deferred : std::launch::async);
					if (out.threw)
						wrong = "an exception instead of a response: " + out.exception;
					else if (!out.data() || out.data()->k != J::Null)
						wrong = "a response with data " + canon(out.document).substr(0, 300);
					else if (!out.errors())
						wrong = "no errors";
					else
						wrong = checkErrors(*out.errors(), q.text);
					if (wrong.empty() && !out.events.empty())
						wrong = "the service was called: " + out.events[0].text();
					rep.count("resolved");
				}
				if (wrong.empty() && s.ctx->accessors.load() != before)
					wrong = "accessors were called";
			}
			catch (const std::exception& ex)
			{
				// Type definitions may be refused by the parser already.
				if (rule == 38)
					rep.count("refused by the parser");
				else
					wrong = std::string("parsing failed: ") + ex.what();
			}
			if (!wrong.empty())
				rep.violation("rule " + std::to_string(rule) + ", " + what + ": " + wrong, desc);
		}
	});
}

Register r04("P04", invalid);

} // namespace
} // namespace vh
