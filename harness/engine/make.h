// Conversions between the model's values and C++ types: what accessors get, and what they return.
#pragma once
#include "sut.h"

namespace vh {

inline J toJ(int v) { return J::integer(v); }
inline J toJ(double v) { return J::real(v); }
inline J toJ(bool v) { return J::boolean(v); }
inline J toJ(const std::string& v) { return J::str(v); }
inline J toJ(const response::IdType& v) { return J::str(base64(std::string(v.begin(), v.end()))); }
inline J toJ(const response::Value& v) { return fromValue(v); }
template <class T>
J toJ(const std::optional<T>& v);
template <class T>
J toJ(const std::vector<T>& v)
{
	auto l = J::list();
	for (size_t i = 0; i < v.size(); ++i)
		l.l.push_back(toJ(static_cast<const T&>(v[i])));
	return l;
}
template <class T>
J toJ(const std::optional<T>& v)
{
	return v ? toJ(*v) : J();
}

// Build the C++ value of a result.
template <class T>
struct Make;
template <>
struct Make<int>
{
	static int make(OutVal& v, const CtxP&, const TypeDef*) { return (int)v.leaf.i; }
};
template <>
struct Make<double>
{
	static double make(OutVal& v, const CtxP&, const TypeDef*) { return v.leaf.d; }
};
template <>
struct Make<std::string>
{
	static std::string make(OutVal& v, const CtxP&, const TypeDef*) { return v.leaf.s; }
};
template <>
struct Make<bool>
{
	static bool make(OutVal& v, const CtxP&, const TypeDef*) { return v.leaf.b; }
};
template <>
struct Make<response::IdType>
{
	static response::IdType make(OutVal& v, const CtxP&, const TypeDef*)
	{
		auto s = *unbase64(v.leaf.s);
		return response::IdType(s.begin(), s.end());
	}
};
template <>
struct Make<response::Value>
{
	static response::Value make(OutVal& v, const CtxP&, const TypeDef*) { return toValue(v.leaf); }
};
template <class T>
struct Make<std::shared_ptr<T>>
{
	static std::shared_ptr<T> make(OutVal& v, const CtxP& c, const TypeDef*)
	{
		if (v.k == OutVal::Null)
			return nullptr;
		return std::static_pointer_cast<T>(makeObject(c, v.type, v.id, v.message));
	}
};
template <class T>
struct Make<std::optional<T>>
{
	static std::optional<T> make(OutVal& v, const CtxP& c, const TypeDef* t)
	{
		if (v.k == OutVal::Null)
			return std::nullopt;
		return Make<T>::make(v, c, t);
	}
};
template <class T>
struct Make<std::vector<T>>
{
	static std::vector<T> make(OutVal& v, const CtxP& c, const TypeDef* t)
	{
		std::vector<T> r;
		for (auto& e : v.items)
			r.push_back(Make<T>::make(e, c, t));
		return r;
	}
};

inline void nap(int us)
{
	if (us > 0)
		std::this_thread::sleep_for(std::chrono::microseconds(us));
}

// What an accessor returns for this value, delivered in this way.
template <class V>
service::FieldResult<V> deliver(const CtxP& ctx, const TypeDef* type, OutVal&& v, const Delivery& d)
{
	if (d.k == Delivery::Immediate)
	{
		auto value = Make<V>::make(v, ctx, type);
		if (d.done)
			d.done();
		return service::FieldResult<V>(std::move(value));
	}
	auto produce = [v = std::move(v), ctx, type, d]() mutable -> V {
		nap(d.delay);
		if (v.k == OutVal::Bad && v.leaf.k == J::List)
		{
			// The whole accessor failed.
			if (d.done)
				d.done();
			if (v.leaf.b)
			{
				std::list<service::schema_error> errors;
				for (auto& m : v.leaf.l)
					errors.push_back({ m.s });
				throw service::schema_exception(std::move(errors));
			}
			throw std::runtime_error(v.leaf.l[0].s);
		}
		auto value = Make<V>::make(v, ctx, type);
		if (d.done)
			d.done();
		return value;
	};
	std::future<V> f;
	if (d.k == Delivery::Pooled && ctx->pool)
	{
		auto p = std::make_shared<std::promise<V>>();
		f = p->get_future();
		ctx->pool->add([p, produce = std::move(produce)]() mutable {
			try
			{
				p->set_value(produce());
			}
			catch (...)
			{
				p->set_exception(std::current_exception());
			}
		});
	}
	else
		f = std::async(d.k == Delivery::Deferred ? std::launch::deferred : std::launch::async, std::move(produce));
	return service::FieldResult<V>(std::move(f));
}

} // namespace vh
