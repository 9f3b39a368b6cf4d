// What the services which implement generated classes share.
#pragma once
#include "../engine/make.h"

namespace vh {

struct Gen
{
	CtxP ctx;
	const TypeDef& type;
	uint64_t id;
	std::string bad;
	mutable std::atomic<int> inside { 0 };

	Gen(const CtxP& c, const std::string& t, uint64_t i, const std::string& b);
	void begin(const service::SelectionSetParams& p) const;
	void end(const service::SelectionSetParams& p) const;

	struct Call
	{
		const FieldDef* field = nullptr;
		Delivery delivery;
		OutVal value;
	};
	Call enter(const char* field, service::FieldParams& p, std::vector<J>& args) const;

	template <class V>
	service::FieldResult<V> call(const char* field, service::FieldParams&& p, std::vector<J>&& args) const
	{
		struct Inside
		{
			std::atomic<int>& n;
			~Inside() { n.fetch_sub(1, std::memory_order_relaxed); }
		};
		alone();
		Inside in { inside };
		auto c = enter(field, p, args);
		return deliver<V>(ctx, &ctx->model->type(c.field->type.name), std::move(c.value), c.delivery);
	}

private:
	void alone() const;
};

extern std::atomic<long> overlaps; // accessors of one object entered at the same time
extern std::atomic<int> linger;    // microseconds which each accessor takes

struct GeneratedService
{
	Service (*make)(const CtxP&);
};

// Whatever the order of the constructor's parameters.
template <class Ops, class A>
std::shared_ptr<service::Request> construct(A a)
{
	return std::make_shared<Ops>(a);
}
template <class Ops, class A, class B>
std::shared_ptr<service::Request> construct(A a, B b)
{
	if constexpr (std::is_constructible_v<Ops, A, B>)
		return std::make_shared<Ops>(a, b);
	else
		return std::make_shared<Ops>(b, a);
}
template <class Ops, class A, class B, class C>
std::shared_ptr<service::Request> construct(A a, B b, C c)
{
	if constexpr (std::is_constructible_v<Ops, A, B, C>)
		return std::make_shared<Ops>(a, b, c);
	else if constexpr (std::is_constructible_v<Ops, A, C, B>)
		return std::make_shared<Ops>(a, c, b);
	else if constexpr (std::is_constructible_v<Ops, B, A, C>)
		return std::make_shared<Ops>(b, a, c);
	else if constexpr (std::is_constructible_v<Ops, B, C, A>)
		return std::make_shared<Ops>(b, c, a);
	else if constexpr (std::is_constructible_v<Ops, C, A, B>)
		return std::make_shared<Ops>(c, a, b);
	else
		return std::make_shared<Ops>(c, b, a);
}

} // namespace vh
