// P18: a generated service through the monitors of the execution properties.
#include "glue.h"
#include "../engine/run.h"
#include "../engine/conv.h"
#include "gencase.h"

namespace vh {

std::atomic<long> overlaps { 0 };
std::atomic<int> linger { 0 };
extern const GeneratedService generatedService;

// There are no objects described at run time, and no findings of this property.
extern const ConvOps opsInt, opsFloat, opsString, opsBoolean, opsID, opsScalar, opsEnum, opsInput, opsObject, opsAbstract;
const ConvOps opsInt {}, opsFloat {}, opsString {}, opsBoolean {}, opsID {}, opsScalar {}, opsEnum {}, opsInput {}, opsObject {}, opsAbstract {};
void probes(Report&) {}

Gen::Gen(const CtxP& c, const std::string& t, uint64_t i, const std::string& b)
	: ctx(c)
	, type(c->model->type(t))
	, id(i)
	, bad(b)
{
}
void Gen::begin(const service::SelectionSetParams& p) const
{
	if (!bad.empty())
		throw std::runtime_error(bad);
	Event e;
	e.k = Event::Begin;
	e.type = type.name;
	ctx->record(p, std::move(e));
}
void Gen::end(const service::SelectionSetParams& p) const
{
	if (!bad.empty())
		return;
	Event e;
	e.k = Event::End;
	e.type = type.name;
	ctx->record(p, std::move(e));
}
void Gen::alone() const
{
	if (inside.fetch_add(1, std::memory_order_relaxed))
		overlaps.fetch_add(1, std::memory_order_relaxed);
	if (auto us = linger.load(std::memory_order_relaxed))
		nap(us);
}
Gen::Call Gen::enter(const char* field, service::FieldParams& fp, std::vector<J>& given) const
{
	Call c;
	c.field = type.field(field);
	auto& f = *c.field;
	auto args = J::map();
	for (size_t i = 0; i < given.size(); ++i)
		args.add(f.args[i].name, std::move(given[i]));
	auto argText = canon(args);
	auto path = pathText(fp.errorPath);
	c.delivery = ctx->delivery(path);
	ctx->accessors.fetch_add(1, std::memory_order_relaxed);
	Event e;
	e.type = type.name;
	e.field = f.name;
	e.args = argText;
	e.dirs = canon(sorted(fromValue(fp.fieldDirectives)));
	ctx->record(fp, std::move(e));
	if (ctx->logDone)
		c.delivery.done = [ctx = ctx, state = fp.state, path, name = f.name] {
			auto s = std::static_pointer_cast<State>(state);
			auto& l = s ? s->log : ctx->log;
			Event done;
			done.k = Event::Done;
			done.path = path;
			done.field = name;
			std::lock_guard<std::mutex> lock(l.mutex);
			done.seq = ctx->tick();
			l.events.push_back(std::move(done));
		};
	auto h = ctx->world.hash(id, type.name, f.name, argText);
	auto fault = ctx->world.fault(h);
	if (fault.k == Fault::None)
	{
		c.value = ctx->world.value(h, f.type);
		return c;
	}
	if (c.delivery.k == Delivery::Immediate || c.delivery.syncError)
	{
		if (c.delivery.done)
			c.delivery.done();
		if (fault.k == Fault::Runtime)
			throw std::runtime_error(fault.messages[0]);
		std::list<service::schema_error> errors;
		for (auto& m : fault.messages)
			errors.push_back({ m });
		throw service::schema_exception(std::move(errors));
	}
	c.value.k = OutVal::Bad;
	c.value.leaf = J::list();
	c.value.leaf.b = fault.k == Fault::Schema;
	for (auto& m : fault.messages)
		c.value.leaf.l.push_back(J::str(m));
	return c;
}

namespace {

uint64_t modelSeed;

std::unique_ptr<Model> theModel() { return makeGenCase(modelSeed).model; }
Service theService(const CtxP& c) { return generatedService.make(c); }
void theWorld(Ctx& c)
{
	c.world.badEnums = false;
	c.world.missing = makeGenCase(modelSeed).missing;
}
const Supplied theSupplied { theModel, theService, theWorld };

// Requests of several threads which share the root objects.
void together(Report& rep)
{
	Rng r(rep.opt.seed);
	Scene s(r);
	s.ctx->deliverySeed = r.next();
	s.ctx->asyncPct = 20;
	linger = 20;
	auto before = overlaps.load();
	std::vector<Case> cases;
	std::vector<Expected> expected;
	for (int i = 0; i < 12; ++i)
	{
		DocOptions o;
		o.ops = 1;
		o.only = "query";
		o.depth = 2;
		cases.push_back(randomCase(s, r, o, 0));
		auto& c = cases.back();
		expected.push_back(Reference(s.ctx->world, c.doc, *c.op, c.req.vars).run(QueryId, "query", "S"));
	}
	for (size_t i = 0; i < cases.size(); ++i)
		cases[i].op = nullptr;
	std::mutex mutex;
	std::vector<std::thread> threads;
	for (int t = 0; t < 3; ++t)
		threads.emplace_back([&, t] {
			for (size_t k = 0; k < cases.size(); ++k)
			{
				auto i = (k + (size_t)t * 4) % cases.size();
				if (expected[i].tooBig)
					continue;
				auto out = execute(s.svc, s.ctx, cases[i].req, (k + (size_t)t) % 2 ? std::launch::async : std::launch::deferred);
				auto wrong = compareData(expected[i], out);
				if (wrong.empty())
					wrong = compareErrors(expected[i], out);
				std::lock_guard<std::mutex> lock(mutex);
				++rep.evaluations;
				rep.count("requests of concurrent threads");
				rep.count("accessor invocations of concurrent threads", (long)std::count_if(out.events.begin(), out.events.end(), [](auto& e) { return e.k == Event::Accessor; }));
				if (!wrong.empty())
					rep.violation("with other threads: " + wrong, cases[i].req.describe());
			}
		});
	for (auto& t : threads)
		t.join();
	linger = 0;
	if (auto n = overlaps.load() - before)
		rep.violation(std::to_string(n) + " accessors of an object were entered while another one of it was running", "");
}

void withoutIntrospection(Report& rep)
{
	Rng r(rep.opt.seed);
	Scene s(r);
	for (auto q : { "{ __schema { queryType { name } } }", "{ __type(name: \"Int\") { name } }" })
	{
		Request_ req;
		req.text = q;
		auto out = execute(s.svc, s.ctx, req, std::launch::deferred);
		++rep.evaluations;
		rep.count("without introspection");
		if (out.threw || !out.data() || out.data()->k != J::Null || !out.errors())
			rep.violation("introspection is possible without the introspection types: " + canon(out.document), q);
	}
}

void generated(Report& rep)
{
	modelSeed = rep.opt.seed;
	supplied = &theSupplied;
	auto c = makeGenCase(modelSeed);
	rep.count(c.separate ? "with separate files" : "with a single file");
	rep.count(c.stubs ? "with stubs" : "without stubs");
	rep.count("accessors left to the stubs", (long)c.missing.size());
	rep.count("types", (long)c.model->types.size());
	for (auto& t : c.model->types)
		rep.count("fields", (long)t->fields.size());
	rep.opt.shards = 1;
	rep.opt.shard = 0;
	auto n = rep.opt.cases;
	auto run = [&](const char* prop, long cases) {
		rep.opt.cases = cases;
		modes().at(prop)(rep);
		rep.count(std::string("cases of ") + prop, cases);
	};
	run("P06", n);
	run("P08", n);
	run("P09", n);
	run("P13", n);
	run("P04", n);
	if (!c.model->mutation.empty())
		run("P10", (n + 1) / 2);
	if (c.introspection)
		run("P14", (n + 1) / 2);
	else
		withoutIntrospection(rep);
	together(rep);
	for (auto& v : rep.violations)
		v.detail += "\n" + c.sdl;
}

Register r18("P18", generated);

} // namespace
} // namespace vh
