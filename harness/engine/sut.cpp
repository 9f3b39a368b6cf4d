#include "conv.h"

namespace vh {

extern const ConvOps opsInt, opsFloat, opsString, opsBoolean, opsID, opsScalar, opsEnum, opsInput, opsObject, opsAbstract;
thread_local const TypeDef* currentEnum = nullptr;
thread_local const TypeDef* currentInput = nullptr;
static thread_local const Model* currentModel = nullptr;

Base baseOf(const Model& m, const std::string& name)
{
	static const std::map<std::string, Base> builtin { { "Int", Base::Int }, { "Float", Base::Float }, { "String", Base::String }, { "Boolean", Base::Boolean }, { "ID", Base::ID } };
	auto it = builtin.find(name);
	if (it != builtin.end())
		return it->second;
	switch (m.type(name).kind)
	{
		case Kind::Scalar: return Base::Scalar;
		case Kind::Enum: return Base::Enum;
		case Kind::Input: return Base::Input;
		case Kind::Object: return Base::Object;
		default: return Base::Abstract;
	}
}
const ConvOps& convOps(Base b)
{
	static const ConvOps* all[] = { &opsInt, &opsFloat, &opsString, &opsBoolean, &opsID, &opsScalar, &opsEnum, &opsInput, &opsObject, &opsAbstract };
	return *all[(int)b];
}

Pool::Pool(int threads, uint64_t seed)
	: _rng(seed)
{
	for (int i = 0; i < threads; ++i)
		_threads.emplace_back([this] {
			std::unique_lock<std::mutex> lock(_mutex);
			for (;;)
			{
				_cv.wait(lock, [this] { return _stop || !_tasks.empty(); });
				if (_tasks.empty())
					return;
				// Let a few of them pile up sometimes.
				if (_rng.pct(40))
				{
					lock.unlock();
					std::this_thread::sleep_for(std::chrono::microseconds(50));
					lock.lock();
					if (_tasks.empty())
						continue;
				}
				auto at = _rng.below(_tasks.size());
				auto task = std::move(_tasks[at]);
				_tasks.erase(_tasks.begin() + (std::ptrdiff_t)at);
				lock.unlock();
				task();
				task = nullptr;
				lock.lock();
			}
		});
}
Pool::~Pool()
{
	{
		std::lock_guard<std::mutex> lock(_mutex);
		_stop = true;
	}
	_cv.notify_all();
	for (auto& t : _threads)
		t.join();
}
void Pool::add(std::function<void()> f)
{
	{
		std::lock_guard<std::mutex> lock(_mutex);
		_tasks.push_back(std::move(f));
	}
	_cv.notify_one();
}

std::string pathText(const std::optional<service::field_path>& p)
{
	std::string s;
	for (auto& e : service::buildErrorPath(p))
		s += "/" + (std::holds_alternative<size_t>(e) ? std::to_string(std::get<size_t>(e)) : std::string(std::get<std::string_view>(e)));
	return s;
}
std::string contextName(service::ResolverContext c)
{
	switch (c)
	{
		case service::ResolverContext::Query: return "query";
		case service::ResolverContext::Mutation: return "mutation";
		case service::ResolverContext::NotifySubscribe: return "subscribe";
		case service::ResolverContext::Subscription: return "subscription";
		case service::ResolverContext::NotifyUnsubscribe: return "unsubscribe";
	}
	return "?";
}

void Ctx::record(const service::SelectionSetParams& p, Event&& e)
{
	auto s = std::static_pointer_cast<State>(p.state);
	auto& l = s ? s->log : log;
	e.state = s ? s->name : "none";
	e.context = contextName(p.resolverContext);
	e.path = pathText(p.errorPath);
	auto dirs = [](const response::Value& v) { return canon(sorted(fromValue(v))); };
	e.op = dirs(p.operationDirectives);
	e.def = dirs(p.fragmentDefinitionDirectives);
	e.spread = dirs(p.fragmentSpreadDirectives);
	e.inl = dirs(p.inlineFragmentDirectives);
	std::lock_guard<std::mutex> lock(l.mutex);
	e.seq = tick();
	l.events.push_back(std::move(e));
}
Delivery Ctx::delivery(const std::string& path) const
{
	Delivery d;
	if (!deliverySeed)
		return d;
	Rng r(hashStr(path, deliverySeed));
	if (r.pct(asyncPct))
		d.k = (Delivery::K)(1 + r.below(3));
	d.syncError = r.pct(50);
	d.delay = maxDelay ? (int)r.below((size_t)maxDelay) : 0;
	return d;
}

J readInput(const Model& m, const InVal& a, const response::Value& arguments)
{
	auto was = currentModel;
	currentModel = &m;
	WithType t(m.type(a.type.name));
	struct Back
	{
		const Model* was;
		~Back() { currentModel = was; }
	} back { was };
	auto& ops = convOps(baseOf(m, a.type.name));
	if (a.def)
	{
		response::Value defaults(response::Type::Map);
		defaults.emplace_back(std::string(a.name), toValue(*a.def));
		return ops.arg(wrapperIndex(a.type.w), a.name, arguments, &defaults);
	}
	return ops.arg(wrapperIndex(a.type.w), a.name, arguments, nullptr);
}

std::shared_ptr<service::Object> makeObject(const CtxP& ctx, const std::string& type, uint64_t id, const std::string& bad)
{
	return ctx->object ? ctx->object(ctx, type, id, bad) : std::make_shared<DynObj>(ctx, ctx->model->type(type), id, bad);
}

static service::TypeNames typeNames(const Model& m, const TypeDef& t)
{
	service::TypeNames r;
	for (auto& c : m.conditions(t.name))
		r.emplace(m.type(c).name);
	return r;
}

struct RootMaker
{
	static service::ResolverMap resolvers(DynObj* self, const TypeDef& t)
	{
		service::ResolverMap r;
		for (auto& f : t.fields)
			r.emplace(std::string_view(f.name), service::Resolver([self, &f](service::ResolverParams&& p) { return self->resolveField(f, std::move(p)); }));
		r.emplace("__typename"sv, service::Resolver([&t](service::ResolverParams&& p) { return service::StringResult::convert(std::string(t.name), std::move(p)); }));
		r.emplace("__schema"sv, service::Resolver([self](service::ResolverParams&& p) {
			if (!self->schemaForIntrospection)
				throw service::schema_exception { { "no introspection" } };
			return service::ModifiedResult<service::Object>::convert(
				std::static_pointer_cast<service::Object>(std::make_shared<introspection::Schema>(self->schemaForIntrospection)), std::move(p));
		}));
		r.emplace("__type"sv, service::Resolver([self](service::ResolverParams&& p) {
			if (!self->schemaForIntrospection)
				throw service::schema_exception { { "no introspection" } };
			auto name = service::ModifiedArgument<response::StringType>::require("name", p.arguments);
			const auto& base = self->schemaForIntrospection->LookupType(name);
			auto result = base ? std::make_shared<introspection::Type>(base) : nullptr;
			return service::ModifiedResult<introspection::object::Type>::convert<service::TypeModifier::Nullable>(
				std::shared_ptr<introspection::object::Type>(std::move(result)), std::move(p));
		}));
		return r;
	}
};

DynObj::DynObj(const CtxP& ctx, const TypeDef& type, uint64_t id, std::string bad)
	: Object(typeNames(*ctx->model, type), RootMaker::resolvers(this, type))
	, _ctx(ctx)
	, _type(type)
	, _id(id)
	, _bad(std::move(bad))
{
}
void DynObj::beginSelectionSet(const service::SelectionSetParams& params) const
{
	if (!_bad.empty())
		throw std::runtime_error(_bad);
	Event e;
	e.k = Event::Begin;
	e.type = _type.name;
	_ctx->record(params, std::move(e));
}
void DynObj::endSelectionSet(const service::SelectionSetParams& params) const
{
	if (!_bad.empty())
		return;
	Event e;
	e.k = Event::End;
	e.type = _type.name;
	_ctx->record(params, std::move(e));
}

std::future<service::ResolverResult> DynObj::resolveField(const FieldDef& f, service::ResolverParams&& params)
{
	auto args = J::map();
	for (auto& a : f.args)
		args.add(a.name, readInput(*_ctx->model, a, params.arguments));
	auto argText = canon(args);
	auto path = pathText(params.errorPath);
	auto d = _ctx->delivery(path);
	OutVal v;
	{
		std::unique_lock<std::mutex> lock(_resolverMutex, std::defer_lock);
		if (_ctx->lock)
			lock.lock();
		auto directives = std::move(params.fieldDirectives);
		// What the accessor gets.
		service::FieldParams fp(std::move(params), std::move(directives));
		_ctx->accessors.fetch_add(1, std::memory_order_relaxed);
		Event e;
		e.type = _type.name;
		e.field = f.name;
		e.args = argText;
		e.dirs = canon(sorted(fromValue(fp.fieldDirectives)));
		_ctx->record(fp, std::move(e));
		if (_ctx->logDone)
		{
			auto state = fp.state;
			d.done = [ctx = _ctx, state, path, name = f.name] {
				auto s = std::static_pointer_cast<State>(state);
				auto& l = s ? s->log : ctx->log;
				Event done;
				done.k = Event::Done;
				done.path = path;
				done.field = name;
				std::lock_guard<std::mutex> lock2(l.mutex);
				done.seq = ctx->tick();
				l.events.push_back(std::move(done));
			};
		}
		auto h = _ctx->world.hash(_id, _type.name, f.name, argText);
		auto fault = _ctx->world.fault(h);
		if (fault.k != Fault::None)
		{
			if (d.k == Delivery::Immediate || d.syncError)
			{
				if (d.done)
					d.done();
				if (fault.k == Fault::Runtime)
					throw std::runtime_error(fault.messages[0]);
				std::list<service::schema_error> errors;
				for (auto& m : fault.messages)
					errors.push_back({ m });
				throw service::schema_exception(std::move(errors));
			}
			v.k = OutVal::Bad;
			v.leaf = J::list();
			v.leaf.b = fault.k == Fault::Schema;
			for (auto& m : fault.messages)
				v.leaf.l.push_back(J::str(m));
		}
		else
			v = _ctx->world.value(h, f.type);
	}
	return convOps(baseOf(*_ctx->model, f.type.name)).res(wrapperIndex(f.type.w), _ctx, &_ctx->model->type(f.type.name), std::move(v), d, std::move(params));
}

// ---------------------------------------------------------------------------------------------

std::shared_ptr<schema::Schema> buildSchema(const Model& m, bool introspection)
{
	auto s = std::make_shared<schema::Schema>(!introspection);
	introspection::AddTypesToSchema(s);
	std::map<std::string, std::shared_ptr<schema::ObjectType>> objects;
	std::map<std::string, std::shared_ptr<schema::InterfaceType>> ifaces;
	std::map<std::string, std::shared_ptr<schema::UnionType>> unions;
	std::map<std::string, std::shared_ptr<schema::EnumType>> enums;
	std::map<std::string, std::shared_ptr<schema::InputObjectType>> inputs;
	for (auto& t : m.types)
		switch (t->kind)
		{
			case Kind::Scalar: s->AddType(t->name, schema::ScalarType::Make(t->name, t->desc)); break;
			case Kind::Enum: s->AddType(t->name, enums[t->name] = schema::EnumType::Make(t->name, t->desc)); break;
			case Kind::Input: s->AddType(t->name, inputs[t->name] = schema::InputObjectType::Make(t->name, t->desc)); break;
			case Kind::Object: s->AddType(t->name, objects[t->name] = schema::ObjectType::Make(t->name, t->desc)); break;
			case Kind::Interface: s->AddType(t->name, ifaces[t->name] = schema::InterfaceType::Make(t->name, t->desc)); break;
			case Kind::Union: s->AddType(t->name, unions[t->name] = schema::UnionType::Make(t->name, t->desc)); break;
		}
	std::function<std::shared_ptr<const schema::BaseType>(const std::string&, const std::string&)> wrap = [&](const std::string& w, const std::string& name) {
		if (w.empty())
			return s->LookupType(name);
		return s->WrapType(w[0] == 'N' ? introspection::TypeKind::NON_NULL : introspection::TypeKind::LIST, wrap(w.substr(1), name));
	};
	auto inVals = [&](const std::vector<InVal>& v) {
		std::vector<std::shared_ptr<const schema::InputValue>> r;
		for (auto& a : v)
			r.push_back(schema::InputValue::Make(a.name, a.desc, wrap(a.type.w, a.type.name), a.defText));
		return r;
	};
	auto fields = [&](const TypeDef& t) {
		std::vector<std::shared_ptr<const schema::Field>> r;
		for (auto& f : t.fields)
			r.push_back(schema::Field::Make(f.name, f.desc, f.depr ? std::make_optional<std::string_view>(*f.depr) : std::nullopt, wrap(f.type.w, f.type.name), inVals(f.args)));
		return r;
	};
	for (auto& t : m.types)
		switch (t->kind)
		{
			case Kind::Enum:
			{
				std::vector<schema::EnumValueType> v;
				for (auto& e : t->values)
					v.push_back({ e.name, e.desc, e.depr ? std::make_optional<std::string_view>(*e.depr) : std::nullopt });
				enums[t->name]->AddEnumValues(std::move(v));
				break;
			}
			case Kind::Input: inputs[t->name]->AddInputValues(inVals(t->inputs)); break;
			case Kind::Interface: ifaces[t->name]->AddFields(fields(*t)); break;
			case Kind::Union:
			{
				std::vector<std::weak_ptr<const schema::BaseType>> v;
				for (auto& n : t->members)
					v.push_back(s->LookupType(n));
				unions[t->name]->AddPossibleTypes(std::move(v));
				break;
			}
			default: break;
		}
	for (auto& t : m.types)
		if (t->kind == Kind::Object)
		{
			std::vector<std::shared_ptr<const schema::InterfaceType>> v;
			for (auto& n : t->ifaces)
				v.push_back(ifaces[n]);
			if (!v.empty())
				objects[t->name]->AddInterfaces(std::move(v));
			objects[t->name]->AddFields(fields(*t));
		}
	static const std::map<std::string, introspection::DirectiveLocation> locs { { "QUERY", introspection::DirectiveLocation::QUERY },
		{ "MUTATION", introspection::DirectiveLocation::MUTATION }, { "SUBSCRIPTION", introspection::DirectiveLocation::SUBSCRIPTION },
		{ "FIELD", introspection::DirectiveLocation::FIELD }, { "FRAGMENT_DEFINITION", introspection::DirectiveLocation::FRAGMENT_DEFINITION },
		{ "FRAGMENT_SPREAD", introspection::DirectiveLocation::FRAGMENT_SPREAD }, { "INLINE_FRAGMENT", introspection::DirectiveLocation::INLINE_FRAGMENT } };
	for (auto& d : m.dirs)
	{
		std::vector<introspection::DirectiveLocation> l;
		for (auto& n : d.locs)
			l.push_back(locs.at(n));
		s->AddDirective(schema::Directive::Make(d.name, d.desc, std::move(l), inVals(d.args)));
	}
	s->AddQueryType(objects.at(m.query));
	if (!m.mutation.empty())
		s->AddMutationType(objects.at(m.mutation));
	if (!m.subscription.empty())
		s->AddSubscriptionType(objects.at(m.subscription));
	return s;
}

Service makeService(const CtxP& ctx, bool defaultSubscription, std::shared_ptr<schema::Schema> schema)
{
	auto& m = *ctx->model;
	Service r;
	r.schema = schema ? schema : buildSchema(m);
	service::TypeMap ops;
	auto q = std::make_shared<DynObj>(ctx, m.type(m.query), QueryId);
	q->schemaForIntrospection = r.schema;
	ops.emplace("query"sv, q);
	if (!m.mutation.empty())
		ops.emplace("mutation"sv, std::make_shared<DynObj>(ctx, m.type(m.mutation), MutationId));
	if (!m.subscription.empty())
		ops.emplace("subscription"sv, defaultSubscription ? std::make_shared<DynObj>(ctx, m.type(m.subscription), SubscriptionId) : nullptr);
	r.svc = std::make_shared<Svc>(std::move(ops), r.schema);
	return r;
}

} // namespace vh

namespace graphql::service {

template <>
vh::DynEnum ModifiedArgument<vh::DynEnum>::convert(const response::Value& value)
{
	if (!value.maybe_enum())
		throw schema_exception { { "not a valid " + vh::currentEnum->name + " value" } };
	auto& name = value.get<response::StringType>();
	for (auto& v : vh::currentEnum->values)
		if (v.name == name)
			return { name, {} };
	throw schema_exception { { "not a valid " + vh::currentEnum->name + " value" } };
}
template <>
std::future<ResolverResult> ModifiedResult<vh::DynEnum>::convert(FieldResult<vh::DynEnum>&& result, ResolverParams&& params)
{
	return resolve(std::move(result), std::move(params), [](vh::DynEnum&& value, const ResolverParams&) {
		if (!value.bad.empty())
			throw std::runtime_error(value.bad);
		response::Value r(response::Type::EnumValue);
		r.set<response::StringType>(std::string(value.value));
		return r;
	});
}
template <>
vh::DynInput ModifiedArgument<vh::DynInput>::convert(const response::Value& value)
{
	auto& t = *vh::currentInput;
	vh::DynInput r { vh::J::map() };
	auto& m = *vh::currentModel;
	for (auto& f : t.inputs)
		r.value.add(f.name, vh::readInput(m, f, value));
	return r;
}

} // namespace graphql::service
