#pragma once
#include "../common/util.h"
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/Grammar.h"

namespace vh {
using namespace graphql;

// The tree which the library made, rendered like that of the reference parser, or without its layout.
struct Dump
{
	std::string o;
	bool positions = true;

	template <class T>
	static bool is(const peg::ast_node& n, const char* name, const char*& kind)
	{
		if (!n.is_type<T>())
			return false;
		kind = name;
		return true;
	}
	void node(const peg::ast_node& n)
	{
		const char* kind = nullptr;
		bool text = false, position = true;
#define K(T) is<peg::T>(n, #T, kind)
		if (K(operation_type) || K(operation_name) || K(named_type) || K(directive_name) || K(argument_name) || K(object_field_name) || K(field_name) || K(alias_name)
			|| K(fragment_name) || K(integer_value) || K(float_value) || K(string_value) || K(true_keyword) || K(false_keyword) || K(null_keyword) || K(enum_value)
			|| K(variable_name) || K(variable_value))
			text = true;
		else if (K(fragment_spread) || K(inline_fragment))
			position = false;
		else
			K(operation_definition) || K(fragment_definition) || K(type_condition) || K(variable) || K(default_value) || K(list_type) || K(nonnull_type) || K(directives)
				|| K(directive) || K(arguments) || K(argument) || K(list_value) || K(object_value) || K(object_field) || K(selection_set) || K(field);
#undef K
		if (!kind)
		{
			// Not a part of the tree which means anything by itself.
			for (auto& c : n.children)
				node(*c);
			return;
		}
		auto p = n.begin();
		o += "(" + std::string(kind);
		if (position && positions)
			o += "@" + std::to_string(p.line) + ":" + std::to_string(p.column);
		if (text)
		{
			std::string t;
			if (n.is_type<peg::string_value>())
				t = std::string(n.unescaped_view());
			else if (n.is_type<peg::variable_name>() || n.is_type<peg::variable_value>())
			{
				t = n.string().substr(1);
				while (!t.empty() && !isalnum((unsigned char)t[0]) && t[0] != '_')
					t.erase(0, t[0] == '#' ? std::min(t.find('\n'), t.size() - 1) + 1 : 1);
			}
			else
				t = n.string();
			o += " " + quote(t);
		}
		else
			for (auto& c : n.children)
				node(*c);
		o += ")";
	}
};

} // namespace vh
