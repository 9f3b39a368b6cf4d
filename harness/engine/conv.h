// Conversion of arguments and results between the model's values and the library's C++ types, done the
// way the generated code does it, for every combination of wrappers.
#pragma once
#include "sut.h"

namespace vh {

struct DynEnum
{
	std::string value, bad;
};
struct DynInput
{
	J value;
};

// Like the generated code's types, but described at run time.
extern thread_local const TypeDef* currentEnum;
extern thread_local const TypeDef* currentInput;

struct WithType
{
	const TypeDef* enumWas = currentEnum;
	const TypeDef* inputWas = currentInput;
	explicit WithType(const TypeDef& t)
	{
		if (t.kind == Kind::Enum)
			currentEnum = &t;
		if (t.kind == Kind::Input)
			currentInput = &t;
	}
	~WithType()
	{
		currentEnum = enumWas;
		currentInput = inputWas;
	}
};

enum class Base { Int, Float, String, Boolean, ID, Scalar, Enum, Input, Object, Abstract };
Base baseOf(const Model& m, const std::string& name);

struct ConvOps
{
	J (*arg)(int wrapper, const std::string& name, const response::Value& arguments, const response::Value* defaults);
	std::future<service::ResolverResult> (*res)(int wrapper, const CtxP& ctx, const TypeDef* type, OutVal&& v, const Delivery& d, service::ResolverParams&& params);
};
const ConvOps& convOps(Base b);

// Reads one argument or input field.
J readInput(const Model& m, const InVal& a, const response::Value& arguments);

} // namespace vh

namespace graphql::service {
template <>
vh::DynEnum ModifiedArgument<vh::DynEnum>::convert(const response::Value& value);
template <>
std::future<ResolverResult> ModifiedResult<vh::DynEnum>::convert(FieldResult<vh::DynEnum>&& result, ResolverParams&& params);
template <>
vh::DynInput ModifiedArgument<vh::DynInput>::convert(const response::Value& value);
} // namespace graphql::service
