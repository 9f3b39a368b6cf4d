// Fixed probes of the known findings, which the random workloads leave out.
#include "run.h"

namespace vh {
namespace {

struct Probe
{
	Model model;
	CtxP ctx = std::make_shared<Ctx>();
	Service svc;

	Probe()
	{
		auto field = [](TypeDef& t, const char* name, const char* w, const char* type) -> FieldDef& {
			FieldDef f;
			f.name = name;
			f.type = { w, type };
			t.fields.push_back(f);
			return t.fields.back();
		};
		auto& a = model.add(Kind::Object, "A");
		field(a, "n", "N", "Int");
		field(a, "m", "N", "Int");
		auto& q = model.add(Kind::Object, "Query");
		field(q, "a", "N", "A");
		InVal x;
		x.name = "x";
		x.type = { "L", "Int" };
		field(q, "list", "N", "Int").args.push_back(x);
		x.type = { "", "Int" };
		x.def = J::integer(5);
		x.defText = "5";
		field(q, "defaulted", "N", "Int").args.push_back(x);
		auto& s = model.add(Kind::Object, "Subscription");
		field(s, "a", "N", "A");
		model.query = "Query";
		model.subscription = "Subscription";
		ctx->model = ctx->world.model = &model;
		ctx->world.nullPct = 0;
		svc = makeService(ctx);
	}
	Outcome run(const std::string& text, J vars = J::map())
	{
		Request_ r;
		r.text = text;
		r.vars = std::move(vars);
		return execute(svc, ctx, r, std::launch::deferred);
	}
};

} // namespace

void probes(Report& rep)
{
	if (rep.opt.shard != 0 || rep.opt.only >= 0)
		return;
	Probe p;
	if (rep.opt.prop == "P06")
	{
		auto o = p.run("{a{n} a{m}}");
		auto a = o.data() ? o.data()->get("a") : nullptr;
		if (!a || !a->get("n") || !a->get("m"))
			rep.finding("merged-selection", "{a{n} a{m}} answers " + canon(o.document));
	}
	if (rep.opt.prop == "P03")
	{
		auto o = p.run("{list(x:1)}");
		if (o.threw || o.errors())
			rep.finding("list-coercion", "{list(x:1)} of x:[Int] answers " + canon(o.document));
	}
	if (rep.opt.prop == "P09")
	{
		auto o = p.run("query($v:Int){defaulted(x:$v)}");
		std::string args;
		for (auto& e : o.events)
			if (e.k == Event::Accessor)
				args += e.args;
		if (args.find('5') == std::string::npos)
			rep.finding("omitted-variable", "query($v:Int){defaulted(x:$v)} of x:Int=5 without variables calls the accessor with " + args);
	}
	if (rep.opt.prop == "P12")
	{
		try
		{
			auto ast = peg::parseString("subscription{a{n} a{m}}");
			auto key = p.svc.svc->subscribe(service::SubscriptionParams { {}, std::move(ast), "", response::Value(response::Type::Map) }, [](std::future<response::Value>) {});
			p.svc.svc->unsubscribe(key);
		}
		catch (const std::exception& ex)
		{
			rep.finding("merged-root-field", std::string("subscription{a{n} a{m}} is refused: ") + ex.what());
		}
	}
}

} // namespace vh
