// The service under test: a real service::Request over real service::Objects, for any schema model.
#pragma once
#include "../common/report.h"
#include "ref.h"
#include "value.h"
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/JSONResponse.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/Introspection.h"
#include "graphqlservice/introspection/IntrospectionSchema.h"
#include <atomic>
#include <condition_variable>
#include <thread>

namespace vh {
using namespace graphql;
using namespace std::literals;

// Completes promises from its own threads, in an order which has nothing to do with that of the requests.
class Pool
{
public:
	explicit Pool(int threads, uint64_t seed);
	~Pool();
	void add(std::function<void()> f);

private:
	std::mutex _mutex;
	std::condition_variable _cv;
	std::vector<std::function<void()>> _tasks;
	bool _stop = false;
	Rng _rng;
	std::vector<std::thread> _threads;
};

struct Log
{
	std::mutex mutex;
	std::vector<Event> events;
};

struct State : service::RequestState
{
	explicit State(std::string n)
		: name(std::move(n))
	{
	}
	std::string name;
	Log log;
};

struct Delivery
{
	enum K { Immediate, Deferred, Async, Pooled } k = Immediate;
	bool syncError = true;
	int delay = 0; // microseconds
	std::function<void()> done;
};

struct Ctx
{
	const Model* model = nullptr;
	World world;
	uint64_t deliverySeed = 0; // 0: everything immediate
	int asyncPct = 50;
	int maxDelay = 0;
	bool logDone = false;
	bool lock = true; // like the generated code
	Pool* pool = nullptr;
	Log log;           // of requests without a state
	std::atomic<uint64_t> seq { 1 };
	// Relaxed, so that the monitor doesn't order what the service leaves unordered.
	uint64_t tick() { return seq.fetch_add(1, std::memory_order_relaxed); }
	std::atomic<long> accessors { 0 };

	// Makes objects of other classes than DynObj.
	std::shared_ptr<service::Object> (*object)(const std::shared_ptr<Ctx>& ctx, const std::string& type, uint64_t id, const std::string& bad) = nullptr;

	void record(const service::SelectionSetParams& p, Event&& e);
	Delivery delivery(const std::string& path) const;
};
using CtxP = std::shared_ptr<Ctx>;

std::shared_ptr<service::Object> makeObject(const CtxP& ctx, const std::string& type, uint64_t id, const std::string& bad = {});
std::string pathText(const std::optional<service::field_path>& p);
std::string contextName(service::ResolverContext c);

class DynObj : public service::Object
{
public:
	DynObj(const CtxP& ctx, const TypeDef& type, uint64_t id, std::string bad = {});

protected:
	void beginSelectionSet(const service::SelectionSetParams& params) const override;
	void endSelectionSet(const service::SelectionSetParams& params) const override;

private:
	std::future<service::ResolverResult> resolveField(const FieldDef& f, service::ResolverParams&& params);
	CtxP _ctx;
	const TypeDef& _type;
	uint64_t _id;
	std::string _bad;
	friend struct RootMaker;

public:
	std::shared_ptr<schema::Schema> schemaForIntrospection;
};

class Svc : public service::Request
{
public:
	Svc(service::TypeMap&& t, const std::shared_ptr<schema::Schema>& s)
		: Request(std::move(t), s)
	{
	}
};

std::shared_ptr<schema::Schema> buildSchema(const Model& m, bool introspection = true);
struct Service
{
	std::shared_ptr<schema::Schema> schema;
	std::shared_ptr<service::Request> svc;
};
enum : uint64_t { QueryId = 1, MutationId = 2, SubscriptionId = 3 };
// With a default subscription object or without one.
Service makeService(const CtxP& ctx, bool defaultSubscription = true, std::shared_ptr<schema::Schema> schema = {});

} // namespace vh
