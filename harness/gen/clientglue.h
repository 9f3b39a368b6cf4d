// What the programs which test generated clients share.
#pragma once
#include "../engine/value.h"
#include "graphqlservice/GraphQLClient.h"
#include "graphqlservice/GraphQLParse.h"

namespace vh {

inline J toJ(int v) { return J::integer(v); }
inline J toJ(double v) { return J::real(v); }
inline J toJ(bool v) { return J::boolean(v); }
inline J toJ(const std::string& v) { return J::str(v); }
inline J toJ(const response::IdType& v) { return J::str(base64(std::string(v.begin(), v.end()))); }
inline J toJ(const response::Value& v) { return fromValue(v); }

// Through the lists and optional values to what is in them.
template <class T>
struct Inner
{
	using type = T;
};
template <class T>
struct Inner<std::optional<T>> : Inner<T>
{
};
template <class T>
struct Inner<std::vector<T>> : Inner<T>
{
};
template <>
struct Inner<response::IdType>
{
	using type = response::IdType;
};
template <class T>
using InnerT = typename Inner<std::decay_t<T>>::type;

template <class T, class F>
J through(const T& v, const F& f);
template <class T>
struct Through
{
	template <class F>
	static J get(const T& v, const F& f)
	{
		return f(v);
	}
};
template <class T>
struct Through<std::optional<T>>
{
	template <class F>
	static J get(const std::optional<T>& v, const F& f)
	{
		return v ? Through<T>::get(*v, f) : J();
	}
};
template <class T>
struct Through<std::vector<T>>
{
	template <class F>
	static J get(const std::vector<T>& v, const F& f)
	{
		auto l = J::list();
		for (size_t i = 0; i < v.size(); ++i)
			l.l.push_back(Through<T>::get(v[i], f));
		return l;
	}
};
template <>
struct Through<response::IdType>
{
	template <class F>
	static J get(const response::IdType& v, const F& f)
	{
		return f(v);
	}
};
template <class T, class F>
J through(const T& v, const F& f)
{
	return Through<T>::get(v, f);
}

inline void set(int& o, const J& j) { o = (int)j.i; }
inline void set(double& o, const J& j) { o = j.k == J::Int ? (double)j.i : j.d; }
inline void set(bool& o, const J& j) { o = j.b; }
inline void set(std::string& o, const J& j) { o = j.s; }
inline void set(response::IdType& o, const J& j)
{
	auto s = *unbase64(j.s);
	o = response::IdType(s.begin(), s.end());
}
inline void set(response::Value& o, const J& j) { o = toValue(j); }
template <class T>
void set(std::optional<T>& o, const J& j);
template <class T>
void set(std::vector<T>& o, const J& j)
{
	o.clear();
	for (auto& e : j.l)
	{
		T t {};
		set(t, e);
		o.push_back(std::move(t));
	}
}
template <class T>
void set(std::optional<T>& o, const J& j)
{
	if (j.k == J::Null)
	{
		o.reset();
		return;
	}
	T t {};
	set(t, j);
	o = std::move(t);
}

struct ClientUnderTest
{
	J (*serialize)(const J& variables); // null without variables
	J (*parse)(response::Value&& data);
	const std::string& (*text)() noexcept;
	const peg::ast& (*object)() noexcept;
};

} // namespace vh
