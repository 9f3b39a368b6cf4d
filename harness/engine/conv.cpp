// Compiled once per base type, with CONV set to its number.
#include "conv.h"
#include "make.h"

namespace vh {

inline J toJ(const DynEnum& v) { return J::enumv(v.value); }
inline J toJ(const DynInput& v) { return v.value; }

template <>
struct Make<DynEnum>
{
	static DynEnum make(OutVal& v, const CtxP&, const TypeDef*) { return { v.leaf.s, v.message }; }
};
namespace {

using service::TypeModifier;

template <class T, TypeModifier... M>
J readArg(const std::string& name, const response::Value& arguments, const response::Value* defaults)
{
	using A = service::ModifiedArgument<T>;
	if (!defaults)
		return toJ(A::template require<M...>(name, arguments));
	return toJ(arguments.find(name) != arguments.end() ? A::template require<M...>(name, arguments) : A::template require<M...>(name, *defaults));
}

template <class T, TypeModifier... M>
std::future<service::ResolverResult> writeRes(const CtxP& ctx, const TypeDef* type, OutVal&& v, const Delivery& d, service::ResolverParams&& params)
{
	using R = service::ModifiedResult<T>;
	using V = typename R::template ResultTraits<T, M...>::type;
	return R::template convert<M...>(deliver<V>(ctx, type, std::move(v), d), std::move(params));
}

constexpr auto Nu = TypeModifier::Nullable;
constexpr auto Li = TypeModifier::List;

// In the order of wrappers().
template <class T>
[[maybe_unused]] J argOf(int w, const std::string& name, const response::Value& arguments, const response::Value* defaults)
{
	switch (w)
	{
		case 0: return readArg<T, Nu>(name, arguments, defaults);
		case 1: return readArg<T>(name, arguments, defaults);
		case 2: return readArg<T, Nu, Li, Nu>(name, arguments, defaults);
		case 3: return readArg<T, Li, Nu>(name, arguments, defaults);
		case 4: return readArg<T, Nu, Li>(name, arguments, defaults);
		case 5: return readArg<T, Li>(name, arguments, defaults);
		case 6: return readArg<T, Nu, Li, Nu, Li, Nu>(name, arguments, defaults);
		case 7: return readArg<T, Li, Li>(name, arguments, defaults);
		case 8: return readArg<T, Nu, Li, Li, Nu>(name, arguments, defaults);
		default: throw std::logic_error("wrapper");
	}
}
template <class T>
[[maybe_unused]] std::future<service::ResolverResult> resOf(int w, const CtxP& ctx, const TypeDef* type, OutVal&& v, const Delivery& d, service::ResolverParams&& p)
{
	switch (w)
	{
		case 0: return writeRes<T, Nu>(ctx, type, std::move(v), d, std::move(p));
		case 1: return writeRes<T>(ctx, type, std::move(v), d, std::move(p));
		case 2: return writeRes<T, Nu, Li, Nu>(ctx, type, std::move(v), d, std::move(p));
		case 3: return writeRes<T, Li, Nu>(ctx, type, std::move(v), d, std::move(p));
		case 4: return writeRes<T, Nu, Li>(ctx, type, std::move(v), d, std::move(p));
		case 5: return writeRes<T, Li>(ctx, type, std::move(v), d, std::move(p));
		case 6: return writeRes<T, Nu, Li, Nu, Li, Nu>(ctx, type, std::move(v), d, std::move(p));
		case 7: return writeRes<T, Li, Li>(ctx, type, std::move(v), d, std::move(p));
		case 8: return writeRes<T, Nu, Li, Li, Nu>(ctx, type, std::move(v), d, std::move(p));
		default: throw std::logic_error("wrapper");
	}
}

} // namespace

#if CONV == 0
extern const ConvOps opsInt { argOf<response::IntType>, resOf<response::IntType> };
#elif CONV == 1
extern const ConvOps opsFloat { argOf<response::FloatType>, resOf<response::FloatType> };
#elif CONV == 2
extern const ConvOps opsString { argOf<response::StringType>, resOf<response::StringType> };
#elif CONV == 3
extern const ConvOps opsBoolean { argOf<response::BooleanType>, resOf<response::BooleanType> };
#elif CONV == 4
extern const ConvOps opsID { argOf<response::IdType>, resOf<response::IdType> };
#elif CONV == 5
extern const ConvOps opsScalar { argOf<response::Value>, resOf<response::Value> };
#elif CONV == 6
extern const ConvOps opsEnum { argOf<DynEnum>, resOf<DynEnum> };
#elif CONV == 7
extern const ConvOps opsInput { argOf<DynInput>, nullptr };
extern const ConvOps opsObject { nullptr, resOf<DynObj> };
#elif CONV == 8
extern const ConvOps opsAbstract { nullptr, resOf<service::Object> };
#endif

} // namespace vh
