// Between the library's values and those of the models.
#pragma once
#include "../common/util.h"
#include "graphqlservice/GraphQLResponse.h"

namespace vh {
using namespace graphql;

inline J fromValue(const response::Value& v)
{
	switch (v.type())
	{
		case response::Type::Null: return {};
		case response::Type::Boolean: return J::boolean(v.get<response::BooleanType>());
		case response::Type::Int: return J::integer(v.get<response::IntType>());
		case response::Type::Float: return J::real(v.get<response::FloatType>());
		case response::Type::String: return J::str(v.get<response::StringType>());
		case response::Type::EnumValue: return J::enumv(v.get<response::StringType>());
		case response::Type::List:
		{
			auto l = J::list();
			for (size_t i = 0; i < v.size(); ++i)
				l.l.push_back(fromValue(v[i]));
			return l;
		}
		case response::Type::Map:
		{
			auto m = J::map();
			for (auto& e : v.get<response::MapType>())
				m.add(e.first, fromValue(e.second));
			return m;
		}
		default: return fromValue(v.get<response::ScalarType>());
	}
}
inline response::Value toValue(const J& j)
{
	switch (j.k)
	{
		case J::Bool: return response::Value(j.b);
		case J::Int: return response::Value((int)j.i);
		case J::Float: return response::Value(j.d);
		case J::Str: return response::Value(std::string(j.s));
		case J::Enum:
		{
			response::Value v(response::Type::EnumValue);
			v.set<response::StringType>(std::string(j.s));
			return v;
		}
		case J::List:
		{
			response::Value v(response::Type::List);
			for (auto& e : j.l)
				v.emplace_back(toValue(e));
			return v;
		}
		case J::Map:
		{
			response::Value v(response::Type::Map);
			for (auto& e : j.m)
				v.emplace_back(std::string(e.first), toValue(e.second));
			return v;
		}
		default: return {};
	}
}

} // namespace vh
