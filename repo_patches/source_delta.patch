From c456350696bc7542d69f9dc16cd01780fd6a7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 01/61] fix: decode the escape sequences in string values

---
 src/SyntaxTree.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b323f54..e3c21ac 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -55,12 +55,12 @@ std::string_view ast_node::unescaped_view() const
 				children.cend(),
 				size_t(0),
 				[](size_t total, const std::unique_ptr<ast_node>& child) {
-					return total + child->string_view().size();
+					return total + child->unescaped_view().size();
 				}));
 
 			for (const auto& child : children)
 			{
-				joined.append(child->string_view());
+				joined.append(child->unescaped_view());
 			}
 
 			const_cast<ast_node*>(this)->_unescaped =
@@ -69,7 +69,7 @@ std::string_view ast_node::unescaped_view() const
 		else if (!children.empty())
 		{
 			const_cast<ast_node*>(this)->_unescaped =
-				std::make_unique<unescaped_t>(children.front()->string_view());
+				std::make_unique<unescaped_t>(children.front()->unescaped_view());
 		}
 		else if (has_content() && is_type<escaped_unicode>())
 		{
@@ -152,6 +152,19 @@ struct ast_selector<float_value> : std::true_type
 template <>
 struct ast_selector<escaped_unicode> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		// Decode this while parsing, so an invalid code point (e.g. a lone surrogate) is reported as
+		// a parse_error in the document.
+		try
+		{
+			static_cast<void>(n->unescaped_view());
+		}
+		catch (const parse_error&)
+		{
+			throw parse_error("invalid escaped unicode code point", n->begin());
+		}
+	}
 };
 
 template <>
@@ -236,6 +249,12 @@ struct ast_selector<block_quote_character> : std::true_type
 template <>
 struct ast_selector<string_value> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		// Cache the decoded string while parsing, so the tree is never modified after that and it can
+		// be shared between threads.
+		static_cast<void>(n->unescaped_view());
+	}
 };
 
 template <>
-- 
2.43.0


From c50a7fc1ff9cf9c223ae4994785986f942f89014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 02/61] verify: let a define select the parse entry points to
 compile

---
 src/SyntaxTree.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index e3c21ac..30e2533 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -751,6 +751,7 @@ template <>
 const std::string ast_control<schema_document_content>::error_message =
 	"Expected schema type http://spec.graphql.org/June2018/#Document";
 
+#if !defined(GRAPHQL_VERIFY_PARSE_PARTS) || (GRAPHQL_VERIFY_PARSE_PARTS & 1)
 ast parseSchemaString(std::string_view input)
 {
 	ast result { std::make_shared<ast_input>(
@@ -776,7 +777,9 @@ ast parseSchemaString(std::string_view input)
 
 	return result;
 }
+#endif
 
+#if !defined(GRAPHQL_VERIFY_PARSE_PARTS) || (GRAPHQL_VERIFY_PARSE_PARTS & 2)
 ast parseSchemaFile(std::string_view filename)
 {
 	ast result;
@@ -809,7 +812,9 @@ ast parseSchemaFile(std::string_view filename)
 
 	return result;
 }
+#endif
 
+#if !defined(GRAPHQL_VERIFY_PARSE_PARTS) || (GRAPHQL_VERIFY_PARSE_PARTS & 4)
 ast parseString(std::string_view input)
 {
 	ast result { std::make_shared<ast_input>(
@@ -835,7 +840,9 @@ ast parseString(std::string_view input)
 
 	return result;
 }
+#endif
 
+#if !defined(GRAPHQL_VERIFY_PARSE_PARTS) || (GRAPHQL_VERIFY_PARSE_PARTS & 8)
 ast parseFile(std::string_view filename)
 {
 	ast result;
@@ -868,9 +875,11 @@ ast parseFile(std::string_view filename)
 
 	return result;
 }
+#endif
 
 } // namespace peg
 
+#if !defined(GRAPHQL_VERIFY_PARSE_PARTS) || (GRAPHQL_VERIFY_PARSE_PARTS & 16)
 peg::ast operator"" _graphql(const char* text, size_t size)
 {
 	peg::ast result { std::make_shared<peg::ast_input>(
@@ -899,5 +908,6 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 
 	return result;
 }
+#endif
 
 } // namespace graphql
-- 
2.43.0


From 0572e1347258d4429b7e811b2f023403cf277368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 03/61] fix: don't keep a dangling reference to the name of the
 parser input

---
 src/SyntaxTree.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 30e2533..4a76efc 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -751,6 +751,10 @@ template <>
 const std::string ast_control<schema_document_content>::error_message =
 	"Expected schema type http://spec.graphql.org/June2018/#Document";
 
+// The ast_node only keeps a std::string_view of the source, and it outlives the input. When parsing
+// from memory the source needs to be a string literal which is not owned by the input.
+using string_input = memory_input<tracking_mode::eager, eol::lf_crlf, std::string_view>;
+
 #if !defined(GRAPHQL_VERIFY_PARSE_PARTS) || (GRAPHQL_VERIFY_PARSE_PARTS & 1)
 ast parseSchemaString(std::string_view input)
 {
@@ -764,7 +768,7 @@ ast parseSchemaString(std::string_view input)
 		// Try a smaller grammar with only schema type definitions first.
 		result.root =
 			parse_tree::parse<schema_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				string_input(data.data(), data.size(), "GraphQL"sv));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -772,7 +776,7 @@ ast parseSchemaString(std::string_view input)
 		// executable definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				string_input(data.data(), data.size(), "GraphQL"sv));
 	}
 
 	return result;
@@ -827,7 +831,7 @@ ast parseString(std::string_view input)
 		// Try a smaller grammar with only executable definitions first.
 		result.root = parse_tree::
 			parse<executable_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				string_input(data.data(), data.size(), "GraphQL"sv));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -835,7 +839,7 @@ ast parseString(std::string_view input)
 		// definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				string_input(data.data(), data.size(), "GraphQL"sv));
 	}
 
 	return result;
@@ -893,7 +897,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::string_input(text, size, "GraphQL"sv));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -903,7 +907,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::string_input(text, size, "GraphQL"sv));
 	}
 
 	return result;
-- 
2.43.0


From 9e8fafe1335330f451e8655b4595f69645554249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 04/61] fix: parse float values with both a fractional part and
 an exponent part

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 1e95e2d..9cbc778 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -224,7 +224,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<fractional_part, exponent_part, seq<fractional_part, exponent_part>>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
 {
 };
 
-- 
2.43.0


From d5dfcfb5c636d7577222e634891321ea27018d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 05/61] fix: don't parse nested list types exponentially often

---
 include/graphqlservice/internal/Grammar.h |  8 +++++---
 src/SyntaxTree.cpp                        | 10 ++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 9cbc778..50087bd 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -359,7 +359,7 @@ struct list_type;
 struct nonnull_type;
 
 struct list_type_content
-	: seq<star<ignored>, sor<nonnull_type, list_type, named_type>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, nonnull_type, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -369,11 +369,13 @@ struct list_type : if_must<one<'['>, list_type_content>
 };
 
 // http://spec.graphql.org/June2018/#NonNullType
-struct nonnull_type : seq<sor<list_type, named_type>, star<ignored>, one<'!'>>
+// The '!' is optional so we don't need to parse each of the nested types twice (and a list of lists
+// exponentially often). If it isn't there, the node is replaced with the list_type or named_type.
+struct nonnull_type : seq<sor<list_type, named_type>, opt<star<ignored>, one<'!'>>>
 {
 };
 
-struct type_name_content : sor<nonnull_type, list_type, named_type>
+struct type_name_content : seq<nonnull_type>
 {
 };
 
diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 4a76efc..2682df4 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -335,6 +335,16 @@ struct ast_selector<list_type> : std::true_type
 template <>
 struct ast_selector<nonnull_type> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		if (n->string_view().back() != '!')
+		{
+			// Without the '!' this is just the nullable list_type or named_type.
+			auto nullable = std::move(n->children.front());
+
+			n = std::move(nullable);
+		}
+	}
 };
 
 template <>
-- 
2.43.0


From 1ed9918ea6a3e81f10756687a659d47762db94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 06/61] fix: don't require ignored tokens between the members
 of a list

---
 include/graphqlservice/internal/Grammar.h | 33 +++++++++++++----------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 50087bd..aafdeb1 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -189,8 +189,13 @@ struct integer_part : seq<opt<negative_sign>, sor<zero_digit, seq<nonzero_digit,
 {
 };
 
+// A number can't be followed immediately by another digit, name, or '.'.
+struct number_end : not_at<sor<identifier_other, one<'.'>>>
+{
+};
+
 // http://spec.graphql.org/June2018/#IntValue
-struct integer_value : integer_part
+struct integer_value : seq<integer_part, number_end>
 {
 };
 
@@ -224,7 +229,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>, number_end>
 {
 };
 
@@ -278,7 +283,7 @@ struct argument : if_must<argument_name, argument_content>
 };
 
 struct arguments_content
-	: seq<star<ignored>, list<argument, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<argument, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -290,7 +295,7 @@ struct arguments : if_must<one<'('>, arguments_content>
 struct list_entry;
 
 struct list_value_content
-	: seq<star<ignored>, opt<list<list_entry, plus<ignored>>>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, opt<list<list_entry, star<ignored>>>, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -313,7 +318,7 @@ struct object_field : if_must<object_field_name, object_field_content>
 };
 
 struct object_value_content
-	: seq<star<ignored>, opt<list<object_field, plus<ignored>>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, opt<list<object_field, star<ignored>>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -395,7 +400,7 @@ struct variable : if_must<variable_name, variable_content>
 };
 
 struct variable_definitions_content
-	: seq<star<ignored>, list<variable, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<variable, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -418,7 +423,7 @@ struct directive : if_must<one<'@'>, directive_content>
 };
 
 // http://spec.graphql.org/June2018/#Directives
-struct directives : list<directive, plus<ignored>>
+struct directives : list<directive, star<ignored>>
 {
 };
 
@@ -504,7 +509,7 @@ struct selection : sor<field, fragement_spread_or_inline_fragment>
 };
 
 struct selection_set_content
-	: seq<star<ignored>, list<selection, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<selection, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -560,7 +565,7 @@ struct root_operation_definition : if_must<operation_type, root_operation_defini
 
 struct schema_definition_content
 	: seq<opt<star<ignored>, directives>, star<ignored>, one<'{'>, star<ignored>,
-		  list<root_operation_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+		  list<root_operation_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -608,7 +613,7 @@ struct arguments_definition_start : one<'('>
 };
 
 struct arguments_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -633,7 +638,7 @@ struct field_definition : if_must<field_definition_start, field_definition_conte
 };
 
 struct fields_definition_content
-	: seq<star<ignored>, list<field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -808,7 +813,7 @@ struct enum_values_definition_start : one<'{'>
 };
 
 struct enum_values_definition_content
-	: seq<star<ignored>, list<enum_value_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<enum_value_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -884,7 +889,7 @@ struct input_fields_definition_start : one<'{'>
 };
 
 struct input_fields_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -997,7 +1002,7 @@ struct schema_extension_start : seq<extend_keyword, plus<ignored>, schema_keywor
 };
 
 struct schema_extension_operation_type_definitions
-	: seq<one<'{'>, star<ignored>, list<operation_type_definition, plus<ignored>>, star<ignored>,
+	: seq<one<'{'>, star<ignored>, list<operation_type_definition, star<ignored>>, star<ignored>,
 		  must<one<'}'>>>
 {
 };
-- 
2.43.0


From ff0d75ff78a27145a87fecbb6616df415cc3c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 07/61] fix: reset the validation state after an unsupported
 operation type

---
 src/Validation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 23e4731..376d2b4 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -769,6 +769,11 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 		error << "Unsupported operation type: " << operationType;
 
 		_errors.push_back({ error.str(), { position.line, position.column } });
+
+		// Don't leave references to this operation for the next operation or document.
+		_operationVariables.reset();
+		_variableDefinitions.clear();
+		_referencedVariables.clear();
 		return;
 	}
 
-- 
2.43.0


From 12d797952281088a27d431fa073f9a3c95292ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 08/61] fix: validate that the required arguments of a
 directive are present

---
 src/Validation.cpp | 84 ++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 376d2b4..c691e93 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -2015,10 +2015,12 @@ void ValidateExecutableVisitor::visitDirectives(
 			continue;
 		}
 
+		ValidateFieldArguments validateArguments;
+		internal::string_view_map<schema_location> argumentLocations;
+
 		peg::on_first_child<peg::arguments>(*directive,
-			[this, &directive, &directiveName, itrDirective](const peg::ast_node& child) {
-				ValidateFieldArguments validateArguments;
-				internal::string_view_map<schema_location> argumentLocations;
+			[this, &directiveName, itrDirective, &validateArguments, &argumentLocations](
+				const peg::ast_node& child) {
 				std::list<std::string_view> argumentNames;
 
 				for (auto& argument : child.children)
@@ -2061,52 +2063,52 @@ void ValidateExecutableVisitor::visitDirectives(
 						_errors.push_back({ message.str(), argumentLocations[argumentName] });
 					}
 				}
+			});
 
-				for (auto& argument : itrDirective->second.arguments)
-				{
-					auto itrArgument = validateArguments.find(argument.first);
-					const bool missing = itrArgument == validateArguments.end();
+		for (auto& argument : itrDirective->second.arguments)
+		{
+			auto itrArgument = validateArguments.find(argument.first);
+			const bool missing = itrArgument == validateArguments.end();
 
-					if (!missing && itrArgument->second.value)
-					{
-						// The value was not null.
-						if (!validateInputValue(argument.second.nonNullDefaultValue,
-								itrArgument->second,
-								argument.second.type))
-						{
-							// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
-							std::ostringstream message;
+			if (!missing && itrArgument->second.value)
+			{
+				// The value was not null.
+				if (!validateInputValue(argument.second.nonNullDefaultValue,
+						itrArgument->second,
+						argument.second.type))
+				{
+					// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
+					std::ostringstream message;
 
-							message << "Incompatible argument directive: " << directiveName
-									<< " name: " << argument.first;
+					message << "Incompatible argument directive: " << directiveName
+							<< " name: " << argument.first;
 
-							_errors.push_back({ message.str(), argumentLocations[argument.first] });
-						}
+					_errors.push_back({ message.str(), argumentLocations[argument.first] });
+				}
 
-						continue;
-					}
-					else if (argument.second.defaultValue)
-					{
-						// The argument has a default value.
-						continue;
-					}
+				continue;
+			}
+			else if (argument.second.defaultValue)
+			{
+				// The argument has a default value.
+				continue;
+			}
 
-					// See if the argument is wrapped in NON_NULL
-					if (argument.second.type
-						&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
-					{
-						// http://spec.graphql.org/June2018/#sec-Required-Arguments
-						auto position = directive->begin();
-						std::ostringstream message;
+			// See if the argument is wrapped in NON_NULL
+			if (argument.second.type
+				&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
+			{
+				// http://spec.graphql.org/June2018/#sec-Required-Arguments
+				auto position = directive->begin();
+				std::ostringstream message;
 
-						message << (missing ? "Missing argument directive: "
-											: "Required non-null argument directive: ")
-								<< directiveName << " name: " << argument.first;
+				message << (missing ? "Missing argument directive: "
+									: "Required non-null argument directive: ")
+						<< directiveName << " name: " << argument.first;
 
-						_errors.push_back({ message.str(), { position.line, position.column } });
-					}
-				}
-			});
+				_errors.push_back({ message.str(), { position.line, position.column } });
+			}
+		}
 	}
 }
 
-- 
2.43.0


From b3ee51fd739d8e4e072a7890ebc2964c9603efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 09/61] fix: reject null literals for non-null inputs with a
 default value

---
 src/Validation.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index c691e93..c095d9c 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -955,7 +955,7 @@ bool ValidateExecutableVisitor::validateInputValue(
 	if (!argument.value)
 	{
 		// The null literal matches any nullable type and does not match a non-nullable type.
-		if (kind == introspection::TypeKind::NON_NULL && !hasNonNullDefaultValue)
+		if (kind == introspection::TypeKind::NON_NULL)
 		{
 			_errors.push_back({ "Expected Non-Null value", argument.position });
 			return false;
@@ -1061,21 +1061,18 @@ bool ValidateExecutableVisitor::validateInputValue(
 					return false;
 				}
 
-				if (entry.second.value || !itrField->second.defaultValue)
+				if (!validateInputValue(itrField->second.nonNullDefaultValue,
+						entry.second,
+						itrField->second.type))
 				{
-					if (!validateInputValue(itrField->second.nonNullDefaultValue,
-							entry.second,
-							itrField->second.type))
-					{
-						// Error messages are added in the recursive call, so just bubble up the
-						// result.
-						return false;
-					}
-
-					// The recursive call may invalidate the iterator, so reacquire it.
-					itrFields = getInputTypeFields(name);
+					// Error messages are added in the recursive call, so just bubble up the
+					// result.
+					return false;
 				}
 
+				// The recursive call may invalidate the iterator, so reacquire it.
+				itrFields = getInputTypeFields(name);
+
 				subFields.emplace(entry.first);
 			}
 
@@ -1726,7 +1723,7 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 
 				continue;
 			}
-			else if (argument.second.defaultValue)
+			else if (missing && argument.second.defaultValue)
 			{
 				// The argument has a default value.
 				continue;
@@ -2088,7 +2085,7 @@ void ValidateExecutableVisitor::visitDirectives(
 
 				continue;
 			}
-			else if (argument.second.defaultValue)
+			else if (missing && argument.second.defaultValue)
 			{
 				// The argument has a default value.
 				continue;
-- 
2.43.0


From a805f4b0101eee76c71f28d037120a2bdec5fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 10/61] fix: serialize the validation of concurrent requests

---
 include/graphqlservice/GraphQLService.h | 2 ++
 src/GraphQLService.cpp                  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 285686e..726c526 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -960,6 +960,8 @@ private:
 		const std::string& operationName, response::Value&& variables) const;
 
 	const TypeMap _operations;
+	// The validation visitor is shared by all of the requests.
+	mutable std::mutex _validationMutex;
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e1c409a..afdee9d 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1628,6 +1628,8 @@ std::list<schema_error> Request::validate(peg::ast& query) const
 
 	if (!query.validated)
 	{
+		const std::lock_guard<std::mutex> lock(_validationMutex);
+
 		_validation->visit(*query.root);
 		errors = _validation->getStructuredErrors();
 		query.validated = errors.empty();
-- 
2.43.0


From 11341d10919410069c68b15379d5184b22ac8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 11/61] fix: only subscribe to the selected operation

---
 src/GraphQLService.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index afdee9d..ad3b768 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1396,7 +1396,6 @@ public:
 	SubscriptionDefinitionVisitor(SubscriptionParams&& params, SubscriptionCallback&& callback,
 		FragmentMap&& fragments, const std::shared_ptr<Object>& subscriptionObject);
 
-	const peg::ast_node& getRoot() const;
 	std::shared_ptr<SubscriptionData> getRegistration();
 
 	void visit(const peg::ast_node& operationDefinition);
@@ -1426,11 +1425,6 @@ SubscriptionDefinitionVisitor::SubscriptionDefinitionVisitor(SubscriptionParams&
 {
 }
 
-const peg::ast_node& SubscriptionDefinitionVisitor::getRoot() const
-{
-	return *_params.query.root;
-}
-
 std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration()
 {
 	auto result = std::move(_result);
@@ -1986,10 +1980,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		std::move(fragments),
 		itr->second);
 
-	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-		[&subscriptionVisitor](const peg::ast_node& child) {
-			subscriptionVisitor.visit(child);
-		});
+	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
 	auto key = _nextKey++;
-- 
2.43.0


From f909cce211b37e57f45fbc71c26d35ad1f9b48a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 12/61] fix: subscribe to fields in fragments on the
 subscription root

---
 src/GraphQLService.cpp | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index ad3b768..d88b45c 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1401,6 +1401,7 @@ public:
 	void visit(const peg::ast_node& operationDefinition);
 
 private:
+	void visitSelection(const peg::ast_node& selection);
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
@@ -1438,21 +1439,7 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 {
 	const auto& selection = *operationDefinition.children.back();
 
-	for (const auto& child : selection.children)
-	{
-		if (child->is_type<peg::field>())
-		{
-			visitField(*child);
-		}
-		else if (child->is_type<peg::fragment_spread>())
-		{
-			visitFragmentSpread(*child);
-		}
-		else if (child->is_type<peg::inline_fragment>())
-		{
-			visitInlineFragment(*child);
-		}
-	}
+	visitSelection(selection);
 
 	response::Value directives(response::Type::Map);
 
@@ -1478,6 +1465,25 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 			selection);
 }
 
+void SubscriptionDefinitionVisitor::visitSelection(const peg::ast_node& selection)
+{
+	for (const auto& child : selection.children)
+	{
+		if (child->is_type<peg::field>())
+		{
+			visitField(*child);
+		}
+		else if (child->is_type<peg::fragment_spread>())
+		{
+			visitFragmentSpread(*child);
+		}
+		else if (child->is_type<peg::inline_fragment>())
+		{
+			visitInlineFragment(*child);
+		}
+	}
+}
+
 void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 {
 	std::string_view name;
@@ -1564,10 +1570,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		return;
 	}
 
-	for (const auto& selection : itr->second.getSelection().children)
-	{
-		visit(*selection);
-	}
+	visitSelection(itr->second.getSelection());
 }
 
 void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
@@ -1595,10 +1598,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
-			for (const auto& selection : child.children)
-			{
-				visit(*selection);
-			}
+			visitSelection(child);
 		});
 	}
 }
-- 
2.43.0


From 4b619c8f8338e9a15dc540d2ffb56535fdb82927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 13/61] fix: apply the default variable values to subscriptions

---
 src/GraphQLService.cpp | 82 ++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index d88b45c..f59d471 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1254,6 +1254,47 @@ void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
 		Fragment(fragmentDefinition, _variables));
 }
 
+// Filter the variables down to the ones which are defined in this operation, and add the default
+// values or nulls for any which are missing.
+response::Value getOperationVariables(
+	const peg::ast_node& operationDefinition, response::Value&& variables)
+{
+	response::Value operationVariables(response::Type::Map);
+
+	peg::for_each_child<peg::variable>(operationDefinition,
+		[&variables, &operationVariables](const peg::ast_node& variable) {
+			std::string variableName;
+
+			peg::on_first_child<peg::variable_name>(variable,
+				[&variableName](const peg::ast_node& name) {
+					// Skip the $ prefix
+					variableName = name.string_view().substr(1);
+				});
+
+			auto itrVar = variables.find(variableName);
+			response::Value valueVar;
+
+			if (itrVar != variables.get<response::MapType>().cend())
+			{
+				valueVar = response::Value(itrVar->second);
+			}
+			else
+			{
+				peg::on_first_child<peg::default_value>(variable,
+					[&variables, &valueVar](const peg::ast_node& defaultValue) {
+						ValueVisitor visitor(variables);
+
+						visitor.visit(*defaultValue.children.front());
+						valueVar = visitor.getValue();
+					});
+			}
+
+			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
+		});
+
+	return operationVariables;
+}
+
 // OperationDefinitionVisitor visits the AST and executes the one with the specified
 // operation name.
 class OperationDefinitionVisitor
@@ -1312,41 +1353,8 @@ void OperationDefinitionVisitor::visit(
 {
 	auto itr = _operations.find(operationType);
 
-	// Filter the variable definitions down to the ones referenced in this operation
-	response::Value operationVariables(response::Type::Map);
-
-	peg::for_each_child<peg::variable>(operationDefinition,
-		[this, &operationVariables](const peg::ast_node& variable) {
-			std::string variableName;
-
-			peg::on_first_child<peg::variable_name>(variable,
-				[&variableName](const peg::ast_node& name) {
-					// Skip the $ prefix
-					variableName = name.string_view().substr(1);
-				});
-
-			auto itrVar = _params->variables.find(variableName);
-			response::Value valueVar;
-
-			if (itrVar != _params->variables.get<response::MapType>().cend())
-			{
-				valueVar = response::Value(itrVar->second);
-			}
-			else
-			{
-				peg::on_first_child<peg::default_value>(variable,
-					[this, &valueVar](const peg::ast_node& defaultValue) {
-						ValueVisitor visitor(_params->variables);
-
-						visitor.visit(*defaultValue.children.front());
-						valueVar = visitor.getValue();
-					});
-			}
-
-			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
-		});
-
-	_params->variables = std::move(operationVariables);
+	_params->variables =
+		getOperationVariables(operationDefinition, std::move(_params->variables));
 
 	response::Value operationDirectives(response::Type::Map);
 
@@ -1975,6 +1983,10 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 	}
 
 	auto itr = _operations.find(strSubscription);
+
+	params.variables =
+		getOperationVariables(*operationDefinition.second, std::move(params.variables));
+
 	SubscriptionDefinitionVisitor subscriptionVisitor(std::move(params),
 		std::move(callback),
 		std::move(fragments),
-- 
2.43.0


From 745a56dd7afcb08e963aec3fe51aba60904e76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 14/61] fix: evaluate fragment definition directives with the
 variables of the operation

---
 include/graphqlservice/GraphQLService.h |  8 +++--
 src/GraphQLService.cpp                  | 41 ++++++++++---------------
 2 files changed, 21 insertions(+), 28 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 726c526..83dc0fe 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -228,16 +228,18 @@ private:
 class Fragment
 {
 public:
-	explicit Fragment(const peg::ast_node& fragmentDefinition, const response::Value& variables);
+	explicit Fragment(const peg::ast_node& fragmentDefinition);
 
 	std::string_view getType() const;
 	const peg::ast_node& getSelection() const;
-	const response::Value& getDirectives() const;
+
+	// The directives may depend on the variables defined in the operation which uses the fragment.
+	response::Value getDirectives(const response::Value& variables) const;
 
 private:
 	std::string_view _type;
-	response::Value _directives;
 
+	std::reference_wrapper<const peg::ast_node> _definition;
 	std::reference_wrapper<const peg::ast_node> _selection;
 };
 
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index f59d471..41cf4a8 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -472,18 +472,11 @@ bool DirectiveVisitor::shouldSkip() const
 	return false;
 }
 
-Fragment::Fragment(const peg::ast_node& fragmentDefinition, const response::Value& variables)
+Fragment::Fragment(const peg::ast_node& fragmentDefinition)
 	: _type(fragmentDefinition.children[1]->children.front()->string_view())
-	, _directives(response::Type::Map)
+	, _definition(fragmentDefinition)
 	, _selection(*(fragmentDefinition.children.back()))
 {
-	peg::on_first_child<peg::directives>(fragmentDefinition,
-		[this, &variables](const peg::ast_node& child) {
-			DirectiveVisitor directiveVisitor(variables);
-
-			directiveVisitor.visit(child);
-			_directives = directiveVisitor.getDirectives();
-		});
 }
 
 std::string_view Fragment::getType() const
@@ -496,9 +489,16 @@ const peg::ast_node& Fragment::getSelection() const
 	return _selection.get();
 }
 
-const response::Value& Fragment::getDirectives() const
+response::Value Fragment::getDirectives(const response::Value& variables) const
 {
-	return _directives;
+	DirectiveVisitor directiveVisitor(variables);
+
+	peg::on_first_child<peg::directives>(_definition.get(),
+		[&directiveVisitor](const peg::ast_node& child) {
+			directiveVisitor.visit(child);
+		});
+
+	return directiveVisitor.getDirectives();
 }
 
 ResolverParams::ResolverParams(const SelectionSetParams& selectionSetParams,
@@ -1020,7 +1020,7 @@ void SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
 		}
 	}
 
-	response::Value fragmentDefinitionDirectives(itr->second.getDirectives());
+	auto fragmentDefinitionDirectives = itr->second.getDirectives(_variables);
 
 	// Merge outer fragment definition directives as long as they don't conflict.
 	for (const auto& entry : _fragmentDirectives.back().fragmentDefinitionDirectives)
@@ -1225,23 +1225,14 @@ OperationData::OperationData(std::shared_ptr<RequestState>&& state, response::Va
 class FragmentDefinitionVisitor
 {
 public:
-	FragmentDefinitionVisitor(const response::Value& variables);
-
 	FragmentMap getFragments();
 
 	void visit(const peg::ast_node& fragmentDefinition);
 
 private:
-	const response::Value& _variables;
-
 	FragmentMap _fragments;
 };
 
-FragmentDefinitionVisitor::FragmentDefinitionVisitor(const response::Value& variables)
-	: _variables(variables)
-{
-}
-
 FragmentMap FragmentDefinitionVisitor::getFragments()
 {
 	FragmentMap result(std::move(_fragments));
@@ -1251,7 +1242,7 @@ FragmentMap FragmentDefinitionVisitor::getFragments()
 void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
 {
 	_fragments.emplace(fragmentDefinition.children.front()->string_view(),
-		Fragment(fragmentDefinition, _variables));
+		Fragment(fragmentDefinition));
 }
 
 // Filter the variables down to the ones which are defined in this operation, and add the default
@@ -1693,7 +1684,7 @@ std::future<response::Value> Request::resolve(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
+		FragmentDefinitionVisitor fragmentVisitor;
 
 		peg::for_each_child<peg::fragment_definition>(*query.root,
 			[&fragmentVisitor](const peg::ast_node& child) {
@@ -1841,7 +1832,7 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
+		FragmentDefinitionVisitor fragmentVisitor;
 
 		peg::for_each_child<peg::fragment_definition>(root,
 			[&fragmentVisitor](const peg::ast_node& child) {
@@ -1942,7 +1933,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		throw schema_exception { std::move(errors) };
 	}
 
-	FragmentDefinitionVisitor fragmentVisitor(params.variables);
+	FragmentDefinitionVisitor fragmentVisitor;
 
 	peg::for_each_child<peg::fragment_definition>(*params.query.root,
 		[&fragmentVisitor](const peg::ast_node& child) {
-- 
2.43.0


From 444ede22fd34cc5ee6188c955d81897570725115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 15/61] fix: support subscriptions without a default
 subscription object

---
 src/GraphQLService.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 41cf4a8..1d4a8cc 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1551,7 +1551,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		};
 	}
 
-	bool skip = !_subscriptionObject->matchesType(itr->second.getType());
+	bool skip = _subscriptionObject && !_subscriptionObject->matchesType(itr->second.getType());
 	DirectiveVisitor directiveVisitor(_params.variables);
 
 	if (!skip)
@@ -1593,7 +1593,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 			typeCondition = &child;
 		});
 
-	if (typeCondition == nullptr
+	if (typeCondition == nullptr || !_subscriptionObject
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
@@ -2004,7 +2004,8 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end())
+			// There may be an empty entry in the operations map.
+			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
 				const auto& registration = spThis->_subscriptions.at(key);
@@ -2078,7 +2079,8 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
 
-		if (itrOperation != spThis->_operations.end())
+		// There may be an empty entry in the operations map.
+		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
 			const auto& registration = spThis->_subscriptions.at(key);
-- 
2.43.0


From eb8c1d69cf27c616c85f0626c051982bc7d52106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 16/61] fix: rethrow the original exception when subscribing
 fails

---
 src/GraphQLService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 1d4a8cc..3a4314f 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2030,11 +2030,11 @@ std::future<SubscriptionKey> Request::subscribe(
 							registration->data->variables)
 						.get();
 				}
-				catch (const std::exception& ex)
+				catch (const std::exception&)
 				{
 					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
 					spThis->unsubscribe(key);
-					throw ex;
+					throw;
 				}
 			}
 
-- 
2.43.0


From 511b77f516091a6fda91dd233b4d8169be11484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 17/61] fix: synchronize access to the registered subscriptions

---
 include/graphqlservice/GraphQLService.h |  5 ++
 src/GraphQLService.cpp                  | 67 +++++++++++++++++++------
 2 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 83dc0fe..09acaf0 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -954,6 +954,9 @@ public:
 		response::Value&& variables) const;
 
 private:
+	std::shared_ptr<SubscriptionData> findSubscription(SubscriptionKey key) const;
+	std::vector<std::shared_ptr<SubscriptionData>> findListeners(const SubscriptionName& name) const;
+
 	std::pair<std::string, const peg::ast_node*> findUnvalidatedOperationDefinition(
 		const peg::ast_node& root, const std::string& operationName) const;
 
@@ -965,6 +968,8 @@ private:
 	// The validation visitor is shared by all of the requests.
 	mutable std::mutex _validationMutex;
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
+	// These members may be accessed from multiple threads.
+	mutable std::mutex _subscriptionMutex;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
 	SubscriptionKey _nextKey = 0;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 3a4314f..cd1c2fb 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1986,6 +1986,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
+	const std::lock_guard<std::mutex> lock(_subscriptionMutex);
 	auto key = _nextKey++;
 
 	_listeners[registration->field].emplace(key);
@@ -2008,7 +2009,14 @@ std::future<SubscriptionKey> Request::subscribe(
 			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
-				const auto& registration = spThis->_subscriptions.at(key);
+				const auto registration = spThis->findSubscription(key);
+
+				if (!registration)
+				{
+					// Another thread already unsubscribed it.
+					return key;
+				}
+
 				response::Value emptyFragmentDirectives(response::Type::Map);
 				const SelectionSetParams selectionSetParams {
 					ResolverContext::NotifySubscribe,
@@ -2044,8 +2052,38 @@ std::future<SubscriptionKey> Request::subscribe(
 		std::move(callback));
 }
 
+std::shared_ptr<SubscriptionData> Request::findSubscription(SubscriptionKey key) const
+{
+	const std::lock_guard<std::mutex> lock(_subscriptionMutex);
+	const auto itrSubscription = _subscriptions.find(key);
+
+	return (itrSubscription == _subscriptions.end()) ? nullptr : itrSubscription->second;
+}
+
+std::vector<std::shared_ptr<SubscriptionData>> Request::findListeners(
+	const SubscriptionName& name) const
+{
+	const std::lock_guard<std::mutex> lock(_subscriptionMutex);
+	std::vector<std::shared_ptr<SubscriptionData>> registrations;
+	const auto itrListeners = _listeners.find(name);
+
+	if (itrListeners != _listeners.end())
+	{
+		registrations.reserve(itrListeners->second.size());
+		for (const auto& key : itrListeners->second)
+		{
+			registrations.push_back(_subscriptions.find(key)->second);
+		}
+	}
+
+	return registrations;
+}
+
 void Request::unsubscribe(SubscriptionKey key)
 {
+	// Release this after the lock, it may be the last reference to the callback and state.
+	std::shared_ptr<SubscriptionData> registration;
+	const std::lock_guard<std::mutex> lock(_subscriptionMutex);
 	auto itrSubscription = _subscriptions.find(key);
 
 	if (itrSubscription == _subscriptions.end())
@@ -2053,7 +2091,9 @@ void Request::unsubscribe(SubscriptionKey key)
 		return;
 	}
 
-	const auto listenerKey = std::string_view { itrSubscription->second->field };
+	registration = std::move(itrSubscription->second);
+
+	const auto listenerKey = std::string_view { registration->field };
 	auto& listener = _listeners.at(listenerKey);
 
 	listener.erase(key);
@@ -2083,7 +2123,13 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
-			const auto& registration = spThis->_subscriptions.at(key);
+			const auto registration = spThis->findSubscription(key);
+
+			if (!registration)
+			{
+				return;
+			}
+
 			response::Value emptyFragmentDirectives(response::Type::Map);
 			const SelectionSetParams selectionSetParams {
 				ResolverContext::NotifyUnsubscribe,
@@ -2213,20 +2259,13 @@ void Request::deliver(std::launch launch, const SubscriptionName& name,
 		throw std::invalid_argument("Missing subscriptionObject");
 	}
 
-	auto itrListeners = _listeners.find(name);
-
-	if (itrListeners == _listeners.end())
-	{
-		return;
-	}
-
+	// Don't hold the lock while calling the filters, resolvers, or callbacks.
+	const auto registrations = findListeners(name);
 	std::vector<std::future<void>> callbacks;
 
-	callbacks.reserve(itrListeners->second.size());
-	for (const auto& key : itrListeners->second)
+	callbacks.reserve(registrations.size());
+	for (const auto& registration : registrations)
 	{
-		auto itrSubscription = _subscriptions.find(key);
-		auto registration = itrSubscription->second;
 		const auto& subscriptionArguments = registration->arguments;
 		bool matchedArguments = true;
 
-- 
2.43.0


From 0c10f4550f4d9c32f92ba2df2b75256bd4e8157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 18/61] fix: don't let a skipped field hide another field with
 the same name

---
 src/GraphQLService.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index cd1c2fb..22b68a8 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -852,6 +852,18 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
+	DirectiveVisitor directiveVisitor(_variables);
+
+	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
+		directiveVisitor.visit(child);
+	});
+
+	// A field which is skipped doesn't conflict with another field with the same response name.
+	if (directiveVisitor.shouldSkip())
+	{
+		return;
+	}
+
 	if (!_names.emplace(alias).second)
 	{
 		// Skip resolving fields which map to the same response name as a field we've already
@@ -879,17 +891,6 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
-	DirectiveVisitor directiveVisitor(_variables);
-
-	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
-		directiveVisitor.visit(child);
-	});
-
-	if (directiveVisitor.shouldSkip())
-	{
-		return;
-	}
-
 	response::Value arguments(response::Type::Map);
 
 	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
-- 
2.43.0


From d8c44832585ffc0233c88e273a827144062ba1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 19/61] fix: complete each of the top level mutation fields
 before starting the next one

---
 src/GraphQLService.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 22b68a8..26d4383 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -932,6 +932,13 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			_fragments,
 			_variables));
 
+		if (_resolverContext == ResolverContext::Mutation && !_path)
+		{
+			// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
+			// Finish resolving each of the top level fields before starting the next one.
+			result.wait();
+		}
+
 		_values.push_back({ alias, std::move(result) });
 	}
 	catch (schema_exception& scx)
-- 
2.43.0


From b03c6af7ebdd611bbda3140c621312d2312a5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 20/61] fix: always return a document if an operation fails to
 resolve

---
 src/GraphQLService.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 26d4383..df2679b 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1388,9 +1388,25 @@ void OperationDefinitionVisitor::visit(
 				selectionLaunch,
 			};
 
-			return operation
-				->resolve(selectionSetParams, selection, params->fragments, params->variables)
-				.get();
+			try
+			{
+				return operation
+					->resolve(selectionSetParams, selection, params->fragments, params->variables)
+					.get();
+			}
+			catch (schema_exception& scx)
+			{
+				// There's no field to report this on, e.g. an invalid directive on a fragment.
+				return ResolverResult { {}, scx.getStructuredErrors() };
+			}
+			catch (const std::exception& ex)
+			{
+				std::ostringstream message;
+
+				message << "Operation unknown error: " << ex.what();
+
+				return ResolverResult { {}, { schema_error { message.str() } } };
+			}
 		},
 		std::cref(*operationDefinition.children.back()));
 }
-- 
2.43.0


From 4b6dc8ffea159987ce6ecea172afe3dcc7e79d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 21/61] fix: apply both the skip and include directives if both
 are present

---
 src/GraphQLService.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index df2679b..4b25c75 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -451,13 +451,13 @@ bool DirectiveVisitor::shouldSkip() const
 			argumentFalse = !argumentTrue;
 		}
 
-		if (argumentTrue)
+		if (argumentTrue || argumentFalse)
 		{
-			return skip;
-		}
-		else if (argumentFalse)
-		{
-			return !skip;
+			// If both of the directives are present, both of them need to let it through.
+			if (argumentTrue == skip)
+			{
+				return true;
+			}
 		}
 		else
 		{
-- 
2.43.0


From 2f95a0171d602e97e9017d60b937e9c136cc37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 22/61] fix: report invalid skip and include arguments on the
 field they belong to

---
 src/GraphQLService.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 4b25c75..5a1dea4 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -853,15 +853,24 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 	}
 
 	DirectiveVisitor directiveVisitor(_variables);
+	std::exception_ptr directiveError;
 
 	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
 		directiveVisitor.visit(child);
 	});
 
-	// A field which is skipped doesn't conflict with another field with the same response name.
-	if (directiveVisitor.shouldSkip())
+	try
 	{
-		return;
+		// A field which is skipped doesn't conflict with another field with the same response name.
+		if (directiveVisitor.shouldSkip())
+		{
+			return;
+		}
+	}
+	catch (const schema_exception&)
+	{
+		// Report this as an error on this field.
+		directiveError = std::current_exception();
 	}
 
 	if (!_names.emplace(alias).second)
@@ -923,6 +932,11 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 
 	try
 	{
+		if (directiveError)
+		{
+			std::rethrow_exception(directiveError);
+		}
+
 		auto result = itrResolver->second(ResolverParams(selectionSetParams,
 			field,
 			std::string(alias),
-- 
2.43.0


From 4d6c2af052774bfabf039be910b66138736b7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 23/61] fix: always report the location and path of field
 errors, and null list elements

---
 include/graphqlservice/GraphQLService.h |  24 ++++--
 src/GraphQLService.cpp                  | 110 ++++++++++++------------
 2 files changed, 70 insertions(+), 64 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 09acaf0..00b7521 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -78,6 +78,10 @@ struct schema_error
 	error_path path;
 };
 
+// Fill in the location and the path of any errors which do not have them yet.
+GRAPHQLSERVICE_EXPORT void addDefaultErrorLocation(
+	std::list<schema_error>& errors, const schema_location& location, const error_path& path);
+
 GRAPHQLSERVICE_EXPORT response::Value buildErrorValues(std::list<schema_error>&& structuredErrors);
 
 // This exception bubbles up 1 or more error messages to the JSON results.
@@ -691,10 +695,11 @@ struct ModifiedResult
 					{
 						auto errors = scx.getStructuredErrors();
 
-						if (!errors.empty())
-						{
-							document.errors.splice(document.errors.end(), errors);
-						}
+						addDefaultErrorLocation(errors,
+							wrappedParams.getLocation(),
+							buildErrorPath(wrappedParams.errorPath));
+						document.errors.splice(document.errors.end(), errors);
+						document.data.emplace_back({});
 					}
 					catch (const std::exception& ex)
 					{
@@ -706,6 +711,7 @@ struct ModifiedResult
 						document.errors.emplace_back(schema_error { message.str(),
 							wrappedParams.getLocation(),
 							buildErrorPath(wrappedParams.errorPath) });
+						document.data.emplace_back({});
 					}
 
 					++std::get<size_t>(wrappedParams.errorPath->segment);
@@ -740,16 +746,16 @@ private:
 			{
 				auto errors = scx.getStructuredErrors();
 
-				if (!errors.empty())
-				{
-					document.errors.splice(document.errors.end(), errors);
-				}
+				addDefaultErrorLocation(errors,
+					paramsFuture.getLocation(),
+					buildErrorPath(paramsFuture.errorPath));
+				document.errors.splice(document.errors.end(), errors);
 			}
 			catch (const std::exception& ex)
 			{
 				std::ostringstream message;
 
-				message << "Field name: " << paramsFuture.fieldName
+				message << "Field error name: " << paramsFuture.fieldName
 						<< " unknown error: " << ex.what();
 
 				document.errors.emplace_back(schema_error { message.str(),
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 5a1dea4..3b68f37 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -94,6 +94,23 @@ error_path buildErrorPath(const std::optional<field_path>& path)
 	return result;
 }
 
+void addDefaultErrorLocation(
+	std::list<schema_error>& errors, const schema_location& location, const error_path& path)
+{
+	for (auto& error : errors)
+	{
+		if (error.location.line == 0)
+		{
+			error.location = location;
+		}
+
+		if (error.path.empty())
+		{
+			error.path = path;
+		}
+	}
+}
+
 response::Value buildErrorValues(std::list<schema_error>&& structuredErrors)
 {
 	response::Value errors(response::Type::List);
@@ -754,6 +771,15 @@ struct FragmentDirectives
 	response::Value inlineFragmentDirectives;
 };
 
+// Pending result of a single field, with everything we need to report an error on that field.
+struct SelectionValue
+{
+	std::string_view name;
+	schema_location location;
+	error_path path;
+	std::future<ResolverResult> result;
+};
+
 // SelectionVisitor visits the AST and resolves a field or fragment, unless it's skipped by
 // a directive or type condition.
 class SelectionVisitor
@@ -765,7 +791,7 @@ public:
 
 	void visit(const peg::ast_node& selection);
 
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> getValues();
+	std::vector<SelectionValue> getValues();
 
 private:
 	void visitField(const peg::ast_node& field);
@@ -784,7 +810,7 @@ private:
 
 	std::list<FragmentDirectives> _fragmentDirectives;
 	internal::string_view_set _names;
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> _values;
+	std::vector<SelectionValue> _values;
 };
 
 SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
@@ -810,7 +836,7 @@ SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
 	_values.reserve(count);
 }
 
-std::vector<std::pair<std::string_view, std::future<ResolverResult>>> SelectionVisitor::getValues()
+std::vector<SelectionValue> SelectionVisitor::getValues()
 {
 	auto values = std::move(_values);
 
@@ -882,21 +908,21 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 	}
 
 	const auto itrResolver = _resolvers.find(name);
+	const auto position = field.begin();
+	const schema_location location { position.line, position.column };
 
 	if (itrResolver == _resolvers.end())
 	{
 		std::promise<ResolverResult> promise;
-		auto position = field.begin();
 		std::ostringstream error;
+		auto path = buildErrorPath(_path ? std::make_optional(_path->get()) : std::nullopt);
 
 		error << "Unknown field name: " << name;
 
-		promise.set_exception(
-			std::make_exception_ptr(schema_exception { { schema_error { error.str(),
-				{ position.line, position.column },
-				buildErrorPath(_path ? std::make_optional(_path->get()) : std::nullopt) } } }));
+		promise.set_exception(std::make_exception_ptr(
+			schema_exception { { schema_error { error.str(), location, path } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, location, std::move(path), promise.get_future() });
 		return;
 	}
 
@@ -953,45 +979,22 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			result.wait();
 		}
 
-		_values.push_back({ alias, std::move(result) });
+		_values.push_back({ alias,
+			location,
+			buildErrorPath(selectionSetParams.errorPath),
+			std::move(result) });
 	}
-	catch (schema_exception& scx)
+	catch (const std::exception&)
 	{
 		std::promise<ResolverResult> promise;
-		auto position = field.begin();
-		auto messages = scx.getStructuredErrors();
 
-		for (auto& message : messages)
-		{
-			if (message.location.line == 0)
-			{
-				message.location = { position.line, position.column };
-			}
-
-			if (message.path.empty())
-			{
-				message.path = buildErrorPath(selectionSetParams.errorPath);
-			}
-		}
+		// The location and path are added to the error when we collect the results.
+		promise.set_exception(std::current_exception());
 
-		promise.set_exception(std::make_exception_ptr(schema_exception { std::move(messages) }));
-
-		_values.push_back({ alias, promise.get_future() });
-	}
-	catch (const std::exception& ex)
-	{
-		std::promise<ResolverResult> promise;
-		auto position = field.begin();
-		std::ostringstream message;
-
-		message << "Field error name: " << alias << " unknown error: " << ex.what();
-
-		promise.set_exception(
-			std::make_exception_ptr(schema_exception { { schema_error { message.str(),
-				{ position.line, position.column },
-				buildErrorPath(selectionSetParams.errorPath) } } }));
-
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias,
+			location,
+			buildErrorPath(selectionSetParams.errorPath),
+			promise.get_future() });
 	}
 }
 
@@ -1164,18 +1167,18 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	return std::async(
 		selectionSetParams.launch,
-		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children) {
+		[](std::vector<SelectionValue>&& children) {
 			ResolverResult document { response::Value { response::Type::Map } };
 
 			document.data.reserve(children.size());
 
 			for (auto& child : children)
 			{
-				auto name = child.first;
+				auto name = child.name;
 
 				try
 				{
-					auto value = child.second.get();
+					auto value = child.result.get();
 
 					if (!document.data.emplace_back(std::string { name }, std::move(value.data)))
 					{
@@ -1183,7 +1186,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 						message << "Ambiguous field error name: " << name;
 
-						document.errors.push_back({ message.str() });
+						document.errors.push_back(
+							{ message.str(), child.location, std::move(child.path) });
 					}
 
 					if (!value.errors.empty())
@@ -1195,13 +1199,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 				{
 					auto errors = scx.getStructuredErrors();
 
-					if (!errors.empty())
-					{
-						std::copy(errors.begin(),
-							errors.end(),
-							std::back_inserter(document.errors));
-					}
-
+					addDefaultErrorLocation(errors, child.location, child.path);
+					document.errors.splice(document.errors.end(), errors);
 					document.data.emplace_back(std::string { name }, {});
 				}
 				catch (const std::exception& ex)
@@ -1210,7 +1209,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 					message << "Field error name: " << name << " unknown error: " << ex.what();
 
-					document.errors.push_back({ message.str() });
+					document.errors.push_back(
+						{ message.str(), child.location, std::move(child.path) });
 					document.data.emplace_back(std::string { name }, {});
 				}
 			}
-- 
2.43.0


From cc3dcd77ae95604cce61a3ed340e41606c768717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 24/61] fix: keep the fragment directives alive until the
 fields are resolved

---
 src/GraphQLService.cpp | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 3b68f37..12586be 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -792,6 +792,7 @@ public:
 	void visit(const peg::ast_node& selection);
 
 	std::vector<SelectionValue> getValues();
+	std::list<FragmentDirectives> getFragmentDirectives();
 
 private:
 	void visitField(const peg::ast_node& field);
@@ -808,7 +809,10 @@ private:
 	const TypeNames& _typeNames;
 	const ResolverMap& _resolvers;
 
+	// These are borrowed by the parameters of the fields, so don't remove any of them till the fields
+	// are resolved. The last entry of the stack is the innermost fragment.
 	std::list<FragmentDirectives> _fragmentDirectives;
+	std::vector<std::reference_wrapper<const FragmentDirectives>> _fragmentStack;
 	internal::string_view_set _names;
 	std::vector<SelectionValue> _values;
 };
@@ -831,6 +835,7 @@ SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
 	_fragmentDirectives.push_back({ response::Value(response::Type::Map),
 		response::Value(response::Type::Map),
 		response::Value(response::Type::Map) });
+	_fragmentStack.push_back(std::cref(_fragmentDirectives.back()));
 
 	_names.reserve(count);
 	_values.reserve(count);
@@ -843,6 +848,13 @@ std::vector<SelectionValue> SelectionVisitor::getValues()
 	return values;
 }
 
+std::list<FragmentDirectives> SelectionVisitor::getFragmentDirectives()
+{
+	auto fragmentDirectives = std::move(_fragmentDirectives);
+
+	return fragmentDirectives;
+}
+
 void SelectionVisitor::visit(const peg::ast_node& selection)
 {
 	if (selection.is_type<peg::field>())
@@ -949,9 +961,9 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		_resolverContext,
 		_state,
 		_operationDirectives,
-		_fragmentDirectives.back().fragmentDefinitionDirectives,
-		_fragmentDirectives.back().fragmentSpreadDirectives,
-		_fragmentDirectives.back().inlineFragmentDirectives,
+		_fragmentStack.back().get().fragmentDefinitionDirectives,
+		_fragmentStack.back().get().fragmentSpreadDirectives,
+		_fragmentStack.back().get().inlineFragmentDirectives,
 		std::make_optional(field_path { _path, path_segment { alias } }),
 		_launch,
 	};
@@ -1036,7 +1048,7 @@ void SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
 	auto fragmentSpreadDirectives = directiveVisitor.getDirectives();
 
 	// Merge outer fragment spread directives as long as they don't conflict.
-	for (const auto& entry : _fragmentDirectives.back().fragmentSpreadDirectives)
+	for (const auto& entry : _fragmentStack.back().get().fragmentSpreadDirectives)
 	{
 		if (fragmentSpreadDirectives.find(entry.first) == fragmentSpreadDirectives.end())
 		{
@@ -1048,7 +1060,7 @@ void SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
 	auto fragmentDefinitionDirectives = itr->second.getDirectives(_variables);
 
 	// Merge outer fragment definition directives as long as they don't conflict.
-	for (const auto& entry : _fragmentDirectives.back().fragmentDefinitionDirectives)
+	for (const auto& entry : _fragmentStack.back().get().fragmentDefinitionDirectives)
 	{
 		if (fragmentDefinitionDirectives.find(entry.first) == fragmentDefinitionDirectives.end())
 		{
@@ -1059,7 +1071,8 @@ void SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
 
 	_fragmentDirectives.push_back({ std::move(fragmentDefinitionDirectives),
 		std::move(fragmentSpreadDirectives),
-		response::Value(_fragmentDirectives.back().inlineFragmentDirectives) });
+		response::Value(_fragmentStack.back().get().inlineFragmentDirectives) });
+	_fragmentStack.push_back(std::cref(_fragmentDirectives.back()));
 
 	const size_t count = itr->second.getSelection().children.size();
 
@@ -1074,7 +1087,7 @@ void SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
 		visit(*selection);
 	}
 
-	_fragmentDirectives.pop_back();
+	_fragmentStack.pop_back();
 }
 
 void SelectionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
@@ -1106,7 +1119,7 @@ void SelectionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
 				auto inlineFragmentDirectives = directiveVisitor.getDirectives();
 
 				// Merge outer inline fragment directives as long as they don't conflict.
-				for (const auto& entry : _fragmentDirectives.back().inlineFragmentDirectives)
+				for (const auto& entry : _fragmentStack.back().get().inlineFragmentDirectives)
 				{
 					if (inlineFragmentDirectives.find(entry.first)
 						== inlineFragmentDirectives.end())
@@ -1117,9 +1130,10 @@ void SelectionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
 				}
 
 				_fragmentDirectives.push_back(
-					{ response::Value(_fragmentDirectives.back().fragmentDefinitionDirectives),
-						response::Value(_fragmentDirectives.back().fragmentSpreadDirectives),
+					{ response::Value(_fragmentStack.back().get().fragmentDefinitionDirectives),
+						response::Value(_fragmentStack.back().get().fragmentSpreadDirectives),
 						std::move(inlineFragmentDirectives) });
+				_fragmentStack.push_back(std::cref(_fragmentDirectives.back()));
 
 				const size_t count = child.children.size();
 
@@ -1134,7 +1148,7 @@ void SelectionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
 					visit(*selection);
 				}
 
-				_fragmentDirectives.pop_back();
+				_fragmentStack.pop_back();
 			});
 	}
 }
@@ -1167,7 +1181,7 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	return std::async(
 		selectionSetParams.launch,
-		[](std::vector<SelectionValue>&& children) {
+		[](std::vector<SelectionValue>&& children, const std::list<FragmentDirectives>&) {
 			ResolverResult document { response::Value { response::Type::Map } };
 
 			document.data.reserve(children.size());
@@ -1217,7 +1231,8 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 			return document;
 		},
-		visitor.getValues());
+		visitor.getValues(),
+		visitor.getFragmentDirectives());
 }
 
 bool Object::matchesType(std::string_view typeName) const
-- 
2.43.0


From f1c4a845e8c491b821d65f520025f324a3e95909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 25/61] fix: always end the selection set if it began

---
 src/GraphQLService.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 12586be..cb16946 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1172,9 +1172,18 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	beginSelectionSet(selectionSetParams);
 
-	for (const auto& child : selection.children)
+	try
 	{
-		visitor.visit(*child);
+		for (const auto& child : selection.children)
+		{
+			visitor.visit(*child);
+		}
+	}
+	catch (const std::exception&)
+	{
+		// Each call to beginSelectionSet needs a matching call to endSelectionSet.
+		endSelectionSet(selectionSetParams);
+		throw;
 	}
 
 	endSelectionSet(selectionSetParams);
-- 
2.43.0


From 061acf6d4b978c03b2f7b4154d30da875f53aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 26/61] fix: don't truncate integer literals which don't fit in
 an integer

---
 src/GeneratorLoader.cpp | 17 ++++++++++++++++-
 src/GraphQLService.cpp  | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/GeneratorLoader.cpp b/src/GeneratorLoader.cpp
index 6e1edd6..aed1270 100644
--- a/src/GeneratorLoader.cpp
+++ b/src/GeneratorLoader.cpp
@@ -6,6 +6,8 @@
 #include "graphqlservice/internal/Grammar.h"
 
 #include <algorithm>
+#include <cstdlib>
+#include <limits>
 
 namespace graphql::generator {
 
@@ -108,7 +110,20 @@ void DefaultValueVisitor::visit(const peg::ast_node& value)
 
 void DefaultValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto text = intValue.string();
+	const auto value = std::strtod(text.c_str(), nullptr);
+
+	// http://spec.graphql.org/June2018/#sec-Int
+	if (value >= static_cast<double>(std::numeric_limits<response::IntType>::min())
+		&& value <= static_cast<double>(std::numeric_limits<response::IntType>::max()))
+	{
+		_value = response::Value(static_cast<response::IntType>(value));
+	}
+	else
+	{
+		// It doesn't fit in an integer, but it could still be converted to a float.
+		_value = response::Value(value);
+	}
 }
 
 void DefaultValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index cb16946..5f1ed1b 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -9,7 +9,9 @@
 
 #include <algorithm>
 #include <array>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 
 namespace graphql::service {
 
@@ -293,7 +295,20 @@ void ValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto text = intValue.string();
+	const auto value = std::strtod(text.c_str(), nullptr);
+
+	// http://spec.graphql.org/June2018/#sec-Int
+	if (value >= static_cast<double>(std::numeric_limits<response::IntType>::min())
+		&& value <= static_cast<double>(std::numeric_limits<response::IntType>::max()))
+	{
+		_value = response::Value(static_cast<response::IntType>(value));
+	}
+	else
+	{
+		// It doesn't fit in an integer, but it could still be converted to a float.
+		_value = response::Value(value);
+	}
 }
 
 void ValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
-- 
2.43.0


From 411ce0ff5cdbb27e52ce9f025383faf6da989b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 27/61] fix: refuse variables in the default values of a schema

---
 src/GeneratorLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GeneratorLoader.cpp b/src/GeneratorLoader.cpp
index aed1270..d473926 100644
--- a/src/GeneratorLoader.cpp
+++ b/src/GeneratorLoader.cpp
@@ -96,7 +96,7 @@ void DefaultValueVisitor::visit(const peg::ast_node& value)
 	{
 		visitObjectValue(value);
 	}
-	else if (value.is_type<peg::variable>())
+	else if (value.is_type<peg::variable_value>())
 	{
 		std::ostringstream error;
 		const auto position = value.begin();
-- 
2.43.0


From 3b115467528f213ef95f7de85cafa8ffc20a7650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 28/61] fix: keep embedded zero characters in JSON strings

---
 src/JSONResponse.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c0d9172..0295280 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -28,7 +28,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 			for (auto& entry : members)
 			{
-				writer.Key(entry.first.c_str());
+				writer.Key(entry.first.data(), static_cast<rapidjson::SizeType>(entry.first.size()));
 				writeResponse(writer, std::move(entry.second));
 			}
 
@@ -56,7 +56,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 		{
 			auto value = response.release<StringType>();
 
-			writer.String(value.c_str());
+			writer.String(value.data(), static_cast<rapidjson::SizeType>(value.size()));
 			break;
 		}
 
@@ -104,7 +104,7 @@ std::string toJSON(Value&& response)
 	rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
 
 	writeResponse(writer, std::move(response));
-	return buffer.GetString();
+	return { buffer.GetString(), buffer.GetSize() };
 }
 
 struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, ResponseHandler>
@@ -178,9 +178,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool String(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		setValue(Value(std::string(str)).from_json());
+		setValue(Value(std::string(str, length)).from_json());
 		return true;
 	}
 
@@ -190,9 +190,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Key(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool Key(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		_keyStack.push_back(str);
+		_keyStack.emplace_back(str, length);
 		return true;
 	}
 
-- 
2.43.0


From e86e1b04a76ee15b343e417ea74d198a3986d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 29/61] fix: refuse text which is not well formed JSON

---
 src/JSONResponse.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index 0295280..d3853a4 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -11,6 +11,7 @@
 #include <rapidjson/writer.h>
 
 #include <limits>
+#include <sstream>
 #include <stdexcept>
 #include <vector>
 
@@ -244,7 +245,16 @@ Value parseJSON(const std::string& json)
 	rapidjson::Reader reader;
 	rapidjson::StringStream ss(json.c_str());
 
-	reader.Parse(ss, handler);
+	// The stream ends at the first zero character, which can't be part of a JSON document.
+	if (!reader.Parse(ss, handler) || ss.Tell() != json.size())
+	{
+		std::ostringstream error;
+
+		error << "Invalid JSON offset: "
+			  << (reader.HasParseError() ? reader.GetErrorOffset() : ss.Tell());
+
+		throw std::runtime_error(error.str());
+	}
 
 	return handler.getResponse();
 }
-- 
2.43.0


From f295ecf89a70a4edec8b813061ddd68cb634d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 30/61] fix: use the same names for enum values everywhere in
 the generated code

---
 src/ClientGenerator.cpp | 2 +-
 src/SchemaGenerator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 5c69973..fdd6ce2 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -484,7 +484,7 @@ using namespace )cpp"
 		for (const auto& enumValue : enumValues)
 		{
 			firstValue = false;
-			sourceFile << R"cpp(	")cpp" << SchemaLoader::getSafeCppName(enumValue->name())
+			sourceFile << R"cpp(	")cpp" << enumValue->name()
 					   << R"cpp("sv,
 )cpp";
 		}
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 0de251b..a09a9df 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -220,7 +220,7 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 				}
 
 				firstValue = false;
-				headerFile << R"cpp(	)cpp" << value.value;
+				headerFile << R"cpp(	)cpp" << value.cppValue;
 			}
 			headerFile << R"cpp(
 };
-- 
2.43.0


From 5f7291b158837d37befc5c1e7f4ec9ed6150cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 31/61] fix: keep the full precision of float default values in
 the generated code

---
 src/SchemaGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index a09a9df..2727892 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -37,7 +37,9 @@
 
 #include <cctype>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -1813,6 +1815,7 @@ std::string Generator::getArgumentDefaultValue(
 			argumentDefaultValue
 				<< padding
 				<< R"cpp(		entry = response::Value(static_cast<response::FloatType>()cpp"
+				<< std::setprecision(std::numeric_limits<response::FloatType>::max_digits10)
 				<< defaultValue.get<response::FloatType>() << R"cpp());
 )cpp";
 			break;
-- 
2.43.0


From 9fa2ae0ab0828ecdf5008a45bbe87d199b2af0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 32/61] fix: apply the default reason of the deprecated
 directive

---
 src/SchemaLoader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index cd347d7..d46f69e 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -889,7 +889,8 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view reason;
+							// http://spec.graphql.org/June2018/#sec--deprecated
+							value.deprecationReason = "No longer supported"sv;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&value](const peg::ast_node& arguments) {
@@ -1109,7 +1110,8 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view deprecationReason;
+							// http://spec.graphql.org/June2018/#sec--deprecated
+							auto deprecationReason = "No longer supported"sv;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&deprecationReason](const peg::ast_node& arguments) {
-- 
2.43.0


From 12d010dca9dc318ae61393621071cdcb49824637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 33/61] fix: resolve the types of all the arguments in the
 schema

---
 src/SchemaLoader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index d46f69e..1513e46 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -199,6 +199,11 @@ void SchemaLoader::validateSchema()
 		fixupInputFieldList(entry.fields);
 	}
 
+	for (auto& entry : _directives)
+	{
+		fixupInputFieldList(entry.arguments);
+	}
+
 	// Handle nested input types by fully declaring the dependencies first.
 	reorderInputTypeDependencies();
 
@@ -377,6 +382,8 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 			entry.accessor = *accessor;
 		}
 
+		fixupInputFieldList(entry.arguments);
+
 		if (s_builtinTypes.find(entry.type) != s_builtinTypes.cend())
 		{
 			continue;
@@ -435,8 +442,6 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 				throw std::runtime_error(error.str());
 			}
 		}
-
-		fixupInputFieldList(entry.arguments);
 	}
 }
 
-- 
2.43.0


From ad9f775a42051b9fafed368772c02c362c87e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 34/61] fix: don't drop type extensions before, or without, the
 definition of the type

---
 include/SchemaLoader.h |  1 +
 src/SchemaLoader.cpp   | 76 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 76 insertions(+), 1 deletion(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index cbd8169..d439e6d 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -268,6 +268,7 @@ private:
 	void visitEnumTypeExtension(const peg::ast_node& enumTypeExtension);
 	void visitInputObjectTypeDefinition(const peg::ast_node& inputObjectTypeDefinition);
 	void visitInputObjectTypeExtension(const peg::ast_node& inputObjectTypeExtension);
+	void visitScalarTypeExtension(const peg::ast_node& scalarTypeExtension);
 	void visitUnionTypeDefinition(const peg::ast_node& unionTypeDefinition);
 	void visitUnionTypeExtension(const peg::ast_node& unionTypeExtension);
 	void visitInterfaceTypeDefinition(const peg::ast_node& interfaceTypeDefinition);
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 1513e46..0f6a6c7 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -34,6 +34,28 @@ const CppTypeMap SchemaLoader::s_builtinCppTypes = {
 
 const std::string_view SchemaLoader::s_scalarCppType = R"cpp(response::Value)cpp"sv;
 
+static bool isExtension(const peg::ast_node& definition)
+{
+	return definition.is_type<peg::schema_extension>()
+		|| definition.is_type<peg::scalar_type_extension>()
+		|| definition.is_type<peg::enum_type_extension>()
+		|| definition.is_type<peg::input_object_type_extension>()
+		|| definition.is_type<peg::union_type_extension>()
+		|| definition.is_type<peg::interface_type_extension>()
+		|| definition.is_type<peg::object_type_extension>();
+}
+
+static void unknownExtension(std::string_view type, const peg::ast_node& extension)
+{
+	const auto position = extension.begin();
+	std::ostringstream error;
+
+	error << "Unknown type: " << type << " extended on line: " << position.line
+		  << " column: " << position.column;
+
+	throw std::runtime_error(error.str());
+}
+
 SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 	: _customSchema(std::move(customSchema))
 	, _isIntrospection(!_customSchema)
@@ -163,9 +185,21 @@ SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 		}
 	}
 
+	// Extensions may come before the definition of the type that they extend.
+	for (const auto& child : _ast.root->children)
+	{
+		if (!isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
+	}
+
 	for (const auto& child : _ast.root->children)
 	{
-		visitDefinition(*child);
+		if (isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
 	}
 
 	validateSchema();
@@ -568,6 +602,10 @@ void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 	{
 		visitScalarTypeDefinition(definition);
 	}
+	else if (definition.is_type<peg::scalar_type_extension>())
+	{
+		visitScalarTypeExtension(definition);
+	}
 	else if (definition.is_type<peg::enum_type_definition>())
 	{
 		visitEnumTypeDefinition(definition);
@@ -707,6 +745,10 @@ void SchemaLoader::visitObjectTypeExtension(const peg::ast_node& objectTypeExten
 				}
 			});
 	}
+	else
+	{
+		unknownExtension(name, objectTypeExtension);
+	}
 }
 
 void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTypeDefinition)
@@ -764,6 +806,10 @@ void SchemaLoader::visitInterfaceTypeExtension(const peg::ast_node& interfaceTyp
 				}
 			});
 	}
+	else
+	{
+		unknownExtension(name, interfaceTypeExtension);
+	}
 }
 
 void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObjectTypeDefinition)
@@ -821,6 +867,10 @@ void SchemaLoader::visitInputObjectTypeExtension(const peg::ast_node& inputObjec
 				}
 			});
 	}
+	else
+	{
+		unknownExtension(name, inputObjectTypeExtension);
+	}
 }
 
 void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefinition)
@@ -926,6 +976,10 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 			enumType.values.push_back(std::move(value));
 		});
 	}
+	else
+	{
+		unknownExtension(name, enumTypeExtension);
+	}
 }
 
 void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefinition)
@@ -952,6 +1006,22 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 	_scalarTypes.push_back({ name, description });
 }
 
+void SchemaLoader::visitScalarTypeExtension(const peg::ast_node& scalarTypeExtension)
+{
+	std::string_view name;
+
+	peg::on_first_child<peg::scalar_name>(scalarTypeExtension,
+		[&name](const peg::ast_node& child) {
+			name = child.string_view();
+		});
+
+	// It can only add directives, and there aren't any which matter on a scalar type.
+	if (_scalarNames.find(name) == _scalarNames.cend())
+	{
+		unknownExtension(name, scalarTypeExtension);
+	}
+}
+
 void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefinition)
 {
 	std::string_view name;
@@ -999,6 +1069,10 @@ void SchemaLoader::visitUnionTypeExtension(const peg::ast_node& unionTypeExtensi
 				unionType.options.push_back(child.string_view());
 			});
 	}
+	else
+	{
+		unknownExtension(name, unionTypeExtension);
+	}
 }
 
 void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefinition)
-- 
2.43.0


From f94969cfa0e41118daf4f2aec929459b599618c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 35/61] fix: apply the default values of nullable arguments and
 input fields

---
 include/graphqlservice/GraphQLService.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 00b7521..0659770 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -414,13 +414,19 @@ struct ModifiedArgument
 		return result;
 	}
 
-	// Wrap require with modifiers in a try/catch block.
+	// Wrap require with modifiers in a try/catch block. A missing argument is not found, even if the
+	// type is nullable, so that it's not mistaken for an explicit null.
 	template <TypeModifier Modifier = TypeModifier::None, TypeModifier... Other>
 	static std::pair<typename ArgumentTraits<Type, Modifier, Other...>::type, bool> find(
 		const std::string& name, const response::Value& arguments) noexcept
 	{
 		try
 		{
+			if (arguments.find(name) == arguments.end())
+			{
+				return { typename ArgumentTraits<Type, Modifier, Other...>::type {}, false };
+			}
+
 			return { require<Modifier, Other...>(name, arguments), true };
 		}
 		catch (const std::exception&)
-- 
2.43.0


From 72d316279bece2adad5995ce90ce2c6ce620b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 36/61] fix: name the argument in the error if a list or an
 input object doesn't match

---
 include/graphqlservice/GraphQLService.h | 27 ++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 0659770..adc8a30 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -337,15 +337,16 @@ struct ModifiedArgument
 
 			for (auto& error : errors)
 			{
-				std::ostringstream message;
-
-				message << "Invalid argument: " << name << " error: " << error.message;
-
-				error.message = message.str();
+				error.message = invalidArgument(name, error.message);
 			}
 
 			throw schema_exception(std::move(errors));
 		}
+		catch (const std::exception& ex)
+		{
+			// E.g. a missing member or something other than a map for an input object.
+			throw schema_exception { { invalidArgument(name, ex.what()) } };
+		}
 	}
 
 	// Wrap require in a try/catch block.
@@ -397,6 +398,12 @@ struct ModifiedArgument
 	require(const std::string& name, const response::Value& arguments)
 	{
 		const auto& values = arguments[name];
+
+		if (values.type() != response::Type::List)
+		{
+			throw schema_exception { { invalidArgument(name, "not a list") } };
+		}
+
 		typename ArgumentTraits<Type, Modifier, Other...>::type result(values.size());
 		const auto& elements = values.get<response::ListType>();
 
@@ -434,6 +441,16 @@ struct ModifiedArgument
 			return { typename ArgumentTraits<Type, Modifier, Other...>::type {}, false };
 		}
 	}
+
+private:
+	static std::string invalidArgument(std::string_view name, std::string_view error)
+	{
+		std::ostringstream message;
+
+		message << "Invalid argument: " << name << " error: " << error;
+
+		return message.str();
+	}
 };
 
 // Convenient type aliases for testing, generated code won't actually use these. These are also
-- 
2.43.0


From 4965f43e89f683b7b496735a19ab39d26f22ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 37/61] fix: refuse excess padding in Base64 encoded text

---
 src/Base64.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index fd520ab..ea94bf1 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -46,6 +46,8 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 		encoded = encoded.substr(4);
 	}
 
+	size_t paddingSize = 0;
+
 	// Get any leftover partial segment with 2 or 3 non-padding characters
 	if (encoded.size() > 1)
 	{
@@ -66,6 +68,7 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 			result.emplace_back(static_cast<std::uint8_t>(segment & 0xFF));
 
 			encoded = encoded.substr(3);
+			paddingSize = 1;
 		}
 		else
 		{
@@ -77,12 +80,15 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 			result.emplace_back(static_cast<std::uint8_t>((segment & 0xFF00) >> 8));
 
 			encoded = encoded.substr(2);
+			paddingSize = 2;
 		}
 	}
 
-	// Make sure anything that's left is 0 - 2 characters of padding
-	if ((encoded.size() > 0 && padding != encoded[0])
-		|| (encoded.size() > 1 && padding != encoded[1]) || encoded.size() > 2)
+	// Make sure anything that's left is the 0 - 2 characters of padding for the partial segment,
+	// which may also be omitted
+	if (!encoded.empty()
+		&& (encoded.size() != paddingSize
+			|| encoded.find_first_not_of(padding) != std::string_view::npos))
 	{
 		throw std::logic_error { "invalid padding at the end of a base64 encoded string" };
 	}
-- 
2.43.0


From 710173ac4cc50f7f56787d8ab68793cb7a26a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 38/61] fix: keep the string if it can't be released as an
 identifier

---
 src/GraphQLResponse.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 7ddaf65..50feb39 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -305,9 +305,12 @@ IdType Value::release<IdType>()
 	}
 
 	auto& stringData = std::get<StringData>(_data);
-	auto stringValue = std::move(stringData.string);
+	auto result = internal::Base64::fromBase64(stringData.string);
 
-	return internal::Base64::fromBase64(stringValue);
+	// Don't clear the string unless it was successfully decoded.
+	stringData.string.clear();
+
+	return result;
 }
 
 Value::Value(Type type /* = Type::Null */)
-- 
2.43.0


From 0e4b5db5f981f34dae2f66a16691434a5fe89f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 39/61] fix: copy scalar values which are not set

---
 src/GraphQLResponse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 50feb39..aa2ebce 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -469,8 +469,13 @@ Value::Value(const Value& other)
 			break;
 
 		case Type::Scalar:
-			_data = { ScalarData { std::make_unique<ScalarType>(other.get<ScalarType>()) } };
+		{
+			const auto& scalar = std::get<ScalarData>(other._data).scalar;
+
+			_data = { ScalarData {
+				scalar ? std::make_unique<ScalarType>(*scalar) : std::unique_ptr<ScalarType> {} } };
 			break;
+		}
 	}
 }
 
-- 
2.43.0


From a872b7a829fb7898f1768c7756840ac258c08b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 40/61] fix: read floating point values with their full
 precision

---
 src/JSONResponse.cpp | 53 ++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index d3853a4..4bc3085 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -10,7 +10,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
-#include <limits>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <vector>
@@ -148,28 +148,6 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Uint(unsigned int i)
-	{
-		if (i > static_cast<unsigned int>(std::numeric_limits<int>::max()))
-		{
-			// http://spec.graphql.org/June2018/#sec-Int
-			throw std::overflow_error("GraphQL only supports 32-bit signed integers");
-		}
-		return Int(static_cast<int>(i));
-	}
-
-	bool Int64(int64_t /*i*/)
-	{
-		// http://spec.graphql.org/June2018/#sec-Int
-		throw std::overflow_error("GraphQL only supports 32-bit signed integers");
-	}
-
-	bool Uint64(uint64_t /*i*/)
-	{
-		// http://spec.graphql.org/June2018/#sec-Int
-		throw std::overflow_error("GraphQL only supports 32-bit signed integers");
-	}
-
 	bool Double(double d)
 	{
 		auto value = Value(Type::Float);
@@ -179,6 +157,33 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
+	bool RawNumber(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
+	{
+		// rapidjson validates the syntax of the number, but by default it only approximates the
+		// value of a floating point number.
+		const std::string number { str, length };
+		std::istringstream stream { number };
+
+		stream.imbue(std::locale::classic());
+
+		if (number.find_first_of(".eE") == std::string::npos)
+		{
+			int i = 0;
+
+			if (!(stream >> i))
+			{
+				// http://spec.graphql.org/June2018/#sec-Int
+				throw std::overflow_error("GraphQL only supports 32-bit signed integers");
+			}
+
+			return Int(i);
+		}
+
+		double d = 0.0;
+
+		return (stream >> d) && Double(d);
+	}
+
 	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
 		setValue(Value(std::string(str, length)).from_json());
@@ -246,7 +251,7 @@ Value parseJSON(const std::string& json)
 	rapidjson::StringStream ss(json.c_str());
 
 	// The stream ends at the first zero character, which can't be part of a JSON document.
-	if (!reader.Parse(ss, handler) || ss.Tell() != json.size())
+	if (!reader.Parse<rapidjson::kParseNumbersAsStringsFlag>(ss, handler) || ss.Tell() != json.size())
 	{
 		std::ostringstream error;
 
-- 
2.43.0


From 0efc4ad3218d414d774b7a179124553f17c6d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 41/61] fix: count variables in fragment definition directives
 as used by the operation

---
 src/Validation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index c095d9c..8a41e83 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -1845,6 +1845,14 @@ void ValidateExecutableVisitor::visitFragmentSpread(const peg::ast_node& fragmen
 		return;
 	}
 
+	if (_operationVariables)
+	{
+		// The directives on the fragment definition may use the variables of the operation.
+		peg::on_first_child<peg::directives>(itr->second.get(), [this](const peg::ast_node& child) {
+			visitDirectives(introspection::DirectiveLocation::FRAGMENT_DEFINITION, child);
+		});
+	}
+
 	auto outerType = std::move(_scopedType);
 
 	_fragmentStack.emplace(name);
-- 
2.43.0


From e7302af1e8887e4fc9e04c77b801062119e60f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 42/61] fix: don't replace invalid arguments with their default
 values

---
 samples/separate/QueryObject.cpp                 |  5 ++---
 samples/separate/TodaySchema.cpp                 |  5 ++---
 samples/separate_nointrospection/QueryObject.cpp |  5 ++---
 samples/separate_nointrospection/TodaySchema.cpp |  5 ++---
 samples/unified/TodaySchema.cpp                  | 10 ++++------
 samples/unified_nointrospection/TodaySchema.cpp  | 10 ++++------
 samples/validation/ValidationSchema.cpp          |  9 ++++-----
 src/IntrospectionSchema.cpp                      | 10 ++++------
 src/SchemaGenerator.cpp                          | 16 ++++++++--------
 9 files changed, 32 insertions(+), 43 deletions(-)

diff --git a/samples/separate/QueryObject.cpp b/samples/separate/QueryObject.cpp
index d756490..86f1191 100644
--- a/samples/separate/QueryObject.cpp
+++ b/samples/separate/QueryObject.cpp
@@ -141,9 +141,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
+	auto argIds = (params.arguments.find("ids") != params.arguments.end()
+		? service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments)
 		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/samples/separate/TodaySchema.cpp b/samples/separate/TodaySchema.cpp
index 07b69b6..5e50cbc 100644
--- a/samples/separate/TodaySchema.cpp
+++ b/samples/separate/TodaySchema.cpp
@@ -76,9 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
+	auto valueIsComplete = (value.find("isComplete") != value.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
diff --git a/samples/separate_nointrospection/QueryObject.cpp b/samples/separate_nointrospection/QueryObject.cpp
index d081b8b..5c70de3 100644
--- a/samples/separate_nointrospection/QueryObject.cpp
+++ b/samples/separate_nointrospection/QueryObject.cpp
@@ -138,9 +138,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
+	auto argIds = (params.arguments.find("ids") != params.arguments.end()
+		? service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments)
 		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/samples/separate_nointrospection/TodaySchema.cpp b/samples/separate_nointrospection/TodaySchema.cpp
index a80582b..facbf5c 100644
--- a/samples/separate_nointrospection/TodaySchema.cpp
+++ b/samples/separate_nointrospection/TodaySchema.cpp
@@ -76,9 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
+	auto valueIsComplete = (value.find("isComplete") != value.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
diff --git a/samples/unified/TodaySchema.cpp b/samples/unified/TodaySchema.cpp
index c840830..46ec0ae 100644
--- a/samples/unified/TodaySchema.cpp
+++ b/samples/unified/TodaySchema.cpp
@@ -76,9 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
+	auto valueIsComplete = (value.find("isComplete") != value.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
@@ -264,9 +263,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
+	auto argIds = (params.arguments.find("ids") != params.arguments.end()
+		? service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments)
 		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/samples/unified_nointrospection/TodaySchema.cpp b/samples/unified_nointrospection/TodaySchema.cpp
index 67d3949..b74fc85 100644
--- a/samples/unified_nointrospection/TodaySchema.cpp
+++ b/samples/unified_nointrospection/TodaySchema.cpp
@@ -76,9 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
+	auto valueIsComplete = (value.find("isComplete") != value.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
@@ -261,9 +260,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
+	auto argIds = (params.arguments.find("ids") != params.arguments.end()
+		? service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments)
 		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/samples/validation/ValidationSchema.cpp b/samples/validation/ValidationSchema.cpp
index c5e4a81..075aa48 100644
--- a/samples/validation/ValidationSchema.cpp
+++ b/samples/validation/ValidationSchema.cpp
@@ -327,7 +327,7 @@ service::FieldResult<response::BooleanType> Dog::getDoesKnowCommand(service::Fie
 
 std::future<service::ResolverResult> Dog::resolveDoesKnowCommand(service::ResolverParams&& params)
 {
-	auto argDogCommand = service::ModifiedArgument<DogCommand>::require("dogCommand", params.arguments);
+	auto argDogCommand = service::ModifiedArgument<validation::DogCommand>::require("dogCommand", params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getDoesKnowCommand(service::FieldParams(std::move(params), std::move(directives)), std::move(argDogCommand));
@@ -521,7 +521,7 @@ service::FieldResult<response::BooleanType> Cat::getDoesKnowCommand(service::Fie
 
 std::future<service::ResolverResult> Cat::resolveDoesKnowCommand(service::ResolverParams&& params)
 {
-	auto argCatCommand = service::ModifiedArgument<CatCommand>::require("catCommand", params.arguments);
+	auto argCatCommand = service::ModifiedArgument<validation::CatCommand>::require("catCommand", params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getDoesKnowCommand(service::FieldParams(std::move(params), std::move(directives)), std::move(argCatCommand));
@@ -850,9 +850,8 @@ std::future<service::ResolverResult> Arguments::resolveOptionalNonNullBooleanArg
 		return values;
 	}();
 
-	auto pairOptionalBooleanArg = service::ModifiedArgument<response::BooleanType>::find("optionalBooleanArg", params.arguments);
-	auto argOptionalBooleanArg = (pairOptionalBooleanArg.second
-		? std::move(pairOptionalBooleanArg.first)
+	auto argOptionalBooleanArg = (params.arguments.find("optionalBooleanArg") != params.arguments.end()
+		? service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", params.arguments)
 		: service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/src/IntrospectionSchema.cpp b/src/IntrospectionSchema.cpp
index ddc9e1a..51e5ea5 100644
--- a/src/IntrospectionSchema.cpp
+++ b/src/IntrospectionSchema.cpp
@@ -250,9 +250,8 @@ std::future<service::ResolverResult> Type::resolveFields(service::ResolverParams
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
+	auto argIncludeDeprecated = (params.arguments.find("includeDeprecated") != params.arguments.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", params.arguments)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
@@ -295,9 +294,8 @@ std::future<service::ResolverResult> Type::resolveEnumValues(service::ResolverPa
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
+	auto argIncludeDeprecated = (params.arguments.find("includeDeprecated") != params.arguments.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", params.arguments)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 2727892..15026cc 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -1871,14 +1871,14 @@ std::string Generator::getArgumentDeclaration(const InputField& argument, const
 	}
 	else
 	{
-		argumentDeclaration << R"cpp(	auto pair)cpp" << argumentName << R"cpp( = )cpp"
-							<< getArgumentAccessType(argument) << R"cpp(::find)cpp"
-							<< getTypeModifiers(argument.modifiers) << R"cpp((")cpp"
-							<< argument.name << R"cpp(", )cpp" << argumentsToken << R"cpp();
-	auto )cpp" << prefixToken
-							<< argumentName << R"cpp( = (pair)cpp" << argumentName << R"cpp(.second
-		? std::move(pair)cpp"
-							<< argumentName << R"cpp(.first)
+		// The default value only replaces a missing argument, not one with an invalid value.
+		argumentDeclaration << R"cpp(	auto )cpp" << prefixToken << argumentName << R"cpp( = ()cpp"
+							<< argumentsToken << R"cpp(.find(")cpp" << argument.name
+							<< R"cpp(") != )cpp" << argumentsToken << R"cpp(.end()
+		? )cpp" << getArgumentAccessType(argument)
+							<< R"cpp(::require)cpp" << getTypeModifiers(argument.modifiers)
+							<< R"cpp((")cpp" << argument.name << R"cpp(", )cpp" << argumentsToken
+							<< R"cpp()
 		: )cpp" << getArgumentAccessType(argument)
 							<< R"cpp(::require)cpp" << getTypeModifiers(argument.modifiers)
 							<< R"cpp((")cpp" << argument.name << R"cpp(", )cpp" << defaultToken
-- 
2.43.0


From 52b9de73b16c368e9e21c60e6afb459b1ae362d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 43/61] fix: compare strings irrespective of whether they were
 parsed from JSON

---
 src/GraphQLResponse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index aa2ebce..59fa70c 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -21,7 +21,8 @@ bool Value::MapData::operator==(const MapData& rhs) const
 
 bool Value::StringData::operator==(const StringData& rhs) const
 {
-	return from_json == rhs.from_json && string == rhs.string;
+	// Where it came from only matters to maybe_enum.
+	return string == rhs.string;
 }
 
 bool Value::NullData::operator==(const NullData&) const
-- 
2.43.0


From 9daf7f2d5f8090d3f063fe4c2ffe626b9949a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 44/61] fix: validate every field which is merged into a
 selection set

The second and later fields with a response key weren't validated at all when they could be
merged with the first one: their arguments and selection sets could be anything. They were only
compared with the first one, their selection sets weren't compared at all, and valid fields of
different object types were refused if they returned different object types. Fragments which
are spread more than once in the same selection set are only visited once now.
---
 include/Validation.h |  34 ++++++++--
 src/Validation.cpp   | 143 +++++++++++++++++++++++++++++++++----------
 2 files changed, 140 insertions(+), 37 deletions(-)

diff --git a/include/Validation.h b/include/Validation.h
index 692d2f6..a2a7525 100644
--- a/include/Validation.h
+++ b/include/Validation.h
@@ -125,19 +125,40 @@ private:
 
 using ValidateFieldArguments = internal::string_view_map<ValidateArgumentValuePtr>;
 
+// The object types of the selection sets which enclose a field, from the root of the operation or
+// fragment definition down to the parent type of the field. There is a nullptr for a selection set
+// on an abstract type, which might turn out to be any of its possible types.
+using ValidateParentTypes = std::vector<const schema::BaseType*>;
+
 struct ValidateField
 {
-	ValidateField(ValidateType&& returnType, ValidateType&& objectType, std::string_view fieldName,
-		ValidateFieldArguments&& arguments);
+	ValidateField(ValidateType&& returnType, ValidateParentTypes&& parentTypes,
+		std::string_view fieldName, ValidateFieldArguments&& arguments);
 
-	bool operator==(const ValidateField& other) const;
+	bool canMerge(const ValidateField& other) const;
 
 	ValidateType returnType;
-	ValidateType objectType;
+	ValidateParentTypes parentTypes;
 	std::string_view fieldName;
 	ValidateFieldArguments arguments;
 };
 
+struct ValidateResponseField;
+
+// ValidateSelectionSet collects everything which is selected for one object in the response, from
+// all of the selection sets and fragments which are merged there.
+struct ValidateSelectionSet
+{
+	internal::string_view_map<std::shared_ptr<ValidateResponseField>> fields;
+	internal::string_view_map<std::vector<ValidateParentTypes>> fragments;
+};
+
+struct ValidateResponseField
+{
+	std::vector<ValidateField> fields;
+	std::shared_ptr<ValidateSelectionSet> selectionSet = std::make_shared<ValidateSelectionSet>();
+};
+
 using ValidateTypes = internal::string_view_map<ValidateType>;
 
 // ValidateVariableTypeVisitor visits the AST and builds a ValidateType structure representing
@@ -204,6 +225,8 @@ private:
 
 	void visitSelection(const peg::ast_node& selection);
 
+	ValidateParentTypes getParentTypes() const;
+
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
@@ -254,7 +277,8 @@ private:
 	TypeFields _typeFields;
 	InputTypeFields _inputTypeFields;
 	ValidateType _scopedType;
-	internal::string_view_map<ValidateField> _selectionFields;
+	ValidateParentTypes _parentTypes;
+	std::shared_ptr<ValidateSelectionSet> _selectionSet = std::make_shared<ValidateSelectionSet>();
 };
 
 } // namespace graphql::service
diff --git a/src/Validation.cpp b/src/Validation.cpp
index 8a41e83..7f92194 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -263,20 +263,64 @@ void ValidateArgumentValueVisitor::visitObjectValue(const peg::ast_node& objectV
 	_argumentValue.position = { position.line, position.column };
 }
 
-ValidateField::ValidateField(ValidateType&& returnType, ValidateType&& objectType,
+ValidateField::ValidateField(ValidateType&& returnType, ValidateParentTypes&& parentTypes,
 	std::string_view fieldName, ValidateFieldArguments&& arguments)
 	: returnType(std::move(returnType))
-	, objectType(std::move(objectType))
+	, parentTypes(std::move(parentTypes))
 	, fieldName(fieldName)
 	, arguments(std::move(arguments))
 {
 }
 
-bool ValidateField::operator==(const ValidateField& other) const
+bool ValidateField::canMerge(const ValidateField& other) const
 {
-	return (returnType == other.returnType)
-		&& ((objectType && other.objectType && &objectType->get() != &other.objectType->get())
-			|| (fieldName == other.fieldName && arguments == other.arguments));
+	// http://spec.graphql.org/June2018/#SameResponseShape()
+	auto shape = returnType;
+	auto otherShape = other.returnType;
+
+	while (shape && otherShape && !(shape == otherShape))
+	{
+		const auto kind = shape->get().kind();
+		const auto otherKind = otherShape->get().kind();
+		const auto isComposite = [](introspection::TypeKind kind) noexcept {
+			return kind == introspection::TypeKind::OBJECT
+				|| kind == introspection::TypeKind::INTERFACE
+				|| kind == introspection::TypeKind::UNION;
+		};
+
+		if (isComposite(kind) && isComposite(otherKind))
+		{
+			// The fields in the selection sets are compared as they're added to the merged one.
+			break;
+		}
+
+		if (kind != otherKind
+			|| (kind != introspection::TypeKind::NON_NULL
+				&& kind != introspection::TypeKind::LIST))
+		{
+			return false;
+		}
+
+		shape = getValidateType(shape->get().ofType().lock());
+		otherShape = getValidateType(otherShape->get().ofType().lock());
+	}
+
+	if (shape.has_value() != otherShape.has_value())
+	{
+		return false;
+	}
+
+	// http://spec.graphql.org/June2018/#FieldsInSetCanMerge()
+	for (size_t i = 0; i < parentTypes.size() && i < other.parentTypes.size(); ++i)
+	{
+		if (parentTypes[i] && other.parentTypes[i] && parentTypes[i] != other.parentTypes[i])
+		{
+			// No object is of both types, so there's only going to be one of these fields.
+			return true;
+		}
+	}
+
+	return fieldName == other.fieldName && arguments == other.arguments;
 }
 
 ValidateVariableTypeVisitor::ValidateVariableTypeVisitor(
@@ -627,7 +671,7 @@ void ValidateExecutableVisitor::visitFragmentDefinition(const peg::ast_node& fra
 
 	_scopedType.reset();
 	_fragmentStack.clear();
-	_selectionFields.clear();
+	_selectionSet = std::make_shared<ValidateSelectionSet>();
 }
 
 void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& operationDefinition)
@@ -784,7 +828,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 
 	visitSelection(selection);
 
-	if (_fieldCount > 1 && operationType == strSubscription)
+	if (_selectionSet->fields.size() > 1 && operationType == strSubscription)
 	{
 		// http://spec.graphql.org/June2018/#sec-Single-root-field
 		auto position = operationDefinition.begin();
@@ -802,7 +846,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 
 	_scopedType.reset();
 	_fragmentStack.clear();
-	_selectionFields.clear();
+	_selectionSet = std::make_shared<ValidateSelectionSet>();
 
 	for (const auto& variable : _variableDefinitions)
 	{
@@ -842,6 +886,17 @@ void ValidateExecutableVisitor::visitSelection(const peg::ast_node& selection)
 	}
 }
 
+ValidateParentTypes ValidateExecutableVisitor::getParentTypes() const
+{
+	auto parentTypes = _parentTypes;
+
+	parentTypes.push_back(_scopedType->get().kind() == introspection::TypeKind::OBJECT
+			? &_scopedType->get()
+			: nullptr);
+
+	return parentTypes;
+}
+
 ValidateTypeFieldArguments ValidateExecutableVisitor::getArguments(
 	const std::vector<std::shared_ptr<const schema::InputValue>>& args)
 {
@@ -1652,32 +1707,32 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 			}
 		});
 
-	ValidateType objectType =
-		(_scopedType->get().kind() == introspection::TypeKind::OBJECT ? _scopedType
-																	  : ValidateType {});
 	ValidateField validateField(std::move(wrappedType),
-		std::move(objectType),
+		getParentTypes(),
 		name,
 		std::move(validateArguments));
-	auto itrValidateField = _selectionFields.find(alias);
+	auto& responseField = _selectionSet->fields[alias];
 
-	if (itrValidateField != _selectionFields.end())
+	if (!responseField)
 	{
-		if (itrValidateField->second == validateField)
-		{
-			// We already validated this field.
-			return;
-		}
-		else
-		{
-			// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
-			auto position = field.begin();
-			std::ostringstream message;
+		responseField = std::make_shared<ValidateResponseField>();
+	}
 
-			message << "Conflicting field type: " << _scopedType->get().name() << " name: " << name;
+	const auto mergedField = responseField;
 
-			_errors.push_back({ message.str(), { position.line, position.column } });
-		}
+	if (!std::all_of(mergedField->fields.begin(),
+			mergedField->fields.end(),
+			[&validateField](const ValidateField& other) {
+				return validateField.canMerge(other);
+			}))
+	{
+		// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
+		auto position = field.begin();
+		std::ostringstream message;
+
+		message << "Conflicting field type: " << _scopedType->get().name() << " name: " << name;
+
+		_errors.push_back({ message.str(), { position.line, position.column } });
 	}
 
 	auto itrField = itrType->second.find(name);
@@ -1747,7 +1802,17 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_selectionFields.emplace(alias, std::move(validateField));
+	if (std::none_of(mergedField->fields.begin(),
+			mergedField->fields.end(),
+			[&validateField](const ValidateField& other) {
+				return validateField.returnType == other.returnType
+					&& validateField.parentTypes == other.parentTypes
+					&& validateField.fieldName == other.fieldName
+					&& validateField.arguments == other.arguments;
+			}))
+	{
+		mergedField->fields.push_back(std::move(validateField));
+	}
 
 	const peg::ast_node* selection = nullptr;
 
@@ -1759,19 +1824,22 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 
 	if (selection != nullptr)
 	{
+		auto outerParentTypes = getParentTypes();
 		auto outerType = std::move(_scopedType);
-		auto outerFields = std::move(_selectionFields);
+		auto outerSelectionSet = std::move(_selectionSet);
 		auto outerFieldCount = _fieldCount;
 
+		std::swap(_parentTypes, outerParentTypes);
 		_fieldCount = 0;
-		_selectionFields.clear();
+		_selectionSet = mergedField->selectionSet;
 		_scopedType = std::move(innerType);
 
 		visitSelection(*selection);
 
 		innerType = std::move(_scopedType);
 		_scopedType = std::move(outerType);
-		_selectionFields = std::move(outerFields);
+		_selectionSet = std::move(outerSelectionSet);
+		_parentTypes = std::move(outerParentTypes);
 		subFieldCount = _fieldCount;
 		_fieldCount = outerFieldCount;
 	}
@@ -1853,6 +1921,17 @@ void ValidateExecutableVisitor::visitFragmentSpread(const peg::ast_node& fragmen
 		});
 	}
 
+	auto& visited = _selectionSet->fragments[name];
+
+	if (std::find(visited.begin(), visited.end(), _parentTypes) != visited.end())
+	{
+		// The fields in this fragment are already part of the merged selection set.
+		++_fieldCount;
+		return;
+	}
+
+	visited.push_back(_parentTypes);
+
 	auto outerType = std::move(_scopedType);
 
 	_fragmentStack.emplace(name);
-- 
2.43.0


From 14dac6766bbbf6b9318454b4351649e657028350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 45/61] fix: don't visit a fragment twice in the same selection
 set

Fragments which spread others twice took time exponential in the length of the document.
---
 src/GraphQLService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 5f1ed1b..6177dea 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -829,6 +829,9 @@ private:
 	std::list<FragmentDirectives> _fragmentDirectives;
 	std::vector<std::reference_wrapper<const FragmentDirectives>> _fragmentStack;
 	internal::string_view_set _names;
+
+	// Visiting a fragment again in the same selection set can't add any fields to it.
+	internal::string_view_set _visitedFragments;
 	std::vector<SelectionValue> _values;
 };
 
@@ -1055,7 +1058,7 @@ void SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
 		skip = directiveVisitor.shouldSkip();
 	}
 
-	if (skip)
+	if (skip || !_visitedFragments.emplace(name).second)
 	{
 		return;
 	}
-- 
2.43.0


From a5302a2f31873cb56d2279d7078c50624fe326fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 46/61] fix: remove the indentation and blank lines around
 block strings

---
 src/SyntaxTree.cpp | 74 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 73 insertions(+), 1 deletion(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 2682df4..adb81d4 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -8,10 +8,12 @@
 
 #include <tao/pegtl/contrib/unescape.hpp>
 
+#include <algorithm>
 #include <functional>
 #include <memory>
 #include <numeric>
 #include <tuple>
+#include <vector>
 
 using namespace std::literals;
 
@@ -38,6 +40,63 @@ std::string ast_node::string() const noexcept
 	return std::string { string_view() };
 }
 
+// http://spec.graphql.org/June2018/#BlockStringValue()
+static std::string block_string_value(std::string_view raw)
+{
+	std::vector<std::string_view> lines;
+
+	while (true)
+	{
+		const auto end = raw.find_first_of("\r\n"sv);
+
+		lines.push_back(raw.substr(0, end));
+
+		if (end == std::string_view::npos)
+		{
+			break;
+		}
+
+		raw.remove_prefix(raw.compare(end, 2, "\r\n"sv) == 0 ? end + 2 : end + 1);
+	}
+
+	// Find the common indentation of all the lines after the first one which are not blank.
+	constexpr auto whitespace = " \t"sv;
+	auto commonIndent = std::string_view::npos;
+
+	for (auto itr = lines.cbegin() + 1; itr != lines.cend(); ++itr)
+	{
+		commonIndent = std::min(commonIndent, itr->find_first_not_of(whitespace));
+	}
+
+	if (commonIndent != std::string_view::npos)
+	{
+		for (auto itr = lines.begin() + 1; itr != lines.end(); ++itr)
+		{
+			itr->remove_prefix(std::min(commonIndent, itr->size()));
+		}
+	}
+
+	// Leave out the blank lines at the start and at the end.
+	const auto notBlank = [whitespace](std::string_view line) noexcept {
+		return line.find_first_not_of(whitespace) != std::string_view::npos;
+	};
+	const auto first = std::find_if(lines.cbegin(), lines.cend(), notBlank);
+	const auto last = std::find_if(lines.crbegin(), lines.crend(), notBlank).base();
+	std::string formatted;
+
+	for (auto itr = first; itr < last; ++itr)
+	{
+		if (itr != first)
+		{
+			formatted.append("\n"sv);
+		}
+
+		formatted.append(*itr);
+	}
+
+	return formatted;
+}
+
 void ast_node::unescaped_view(std::string_view unescaped) noexcept
 {
 	_unescaped = std::make_unique<unescaped_t>(unescaped);
@@ -47,7 +106,20 @@ std::string_view ast_node::unescaped_view() const
 {
 	if (!_unescaped)
 	{
-		if (children.size() > 1)
+		if (string_view().substr(0, 3) == R"bq(""")bq"sv
+			&& (is_type<string_value>() || is_type<description>()))
+		{
+			std::string raw;
+
+			for (const auto& child : children)
+			{
+				raw.append(child->unescaped_view());
+			}
+
+			const_cast<ast_node*>(this)->_unescaped =
+				std::make_unique<unescaped_t>(block_string_value(raw));
+		}
+		else if (children.size() > 1)
 		{
 			std::string joined;
 
-- 
2.43.0


From 90f6667eea497cb645f7e3e62f2ce26f5a818f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 47/61] fix: allow ignored tokens between the sigil and the
 name of variables and directives

---
 include/graphqlservice/internal/Grammar.h | 7 ++++---
 src/GraphQLService.cpp                    | 4 ++--
 src/RequestLoader.cpp                     | 2 +-
 src/SyntaxTree.cpp                        | 5 +++++
 src/Validation.cpp                        | 4 ++--
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index aafdeb1..8e0a3eb 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -84,7 +84,7 @@ struct variable_name_content : name
 };
 
 // http://spec.graphql.org/June2018/#Variable
-struct variable_name : if_must<one<'$'>, variable_name_content>
+struct variable_name : if_must<seq<one<'$'>, star<ignored>>, variable_name_content>
 {
 };
 
@@ -413,7 +413,7 @@ struct directive_name : name
 {
 };
 
-struct directive_content : seq<directive_name, opt<star<ignored>, arguments>>
+struct directive_content : seq<star<ignored>, directive_name, opt<star<ignored>, arguments>>
 {
 };
 
@@ -973,7 +973,8 @@ struct directive_definition_start
 };
 
 struct directive_definition_content
-	: seq<star<ignored>, one<'@'>, directive_name, opt<star<ignored>, arguments_definition>,
+	: seq<star<ignored>, one<'@'>, star<ignored>, directive_name,
+		  opt<star<ignored>, arguments_definition>,
 		  plus<ignored>, on_keyword, plus<ignored>, directive_locations>
 {
 };
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 6177dea..408171e 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -275,7 +275,7 @@ void ValueVisitor::visit(const peg::ast_node& value)
 
 void ValueVisitor::visitVariable(const peg::ast_node& variable)
 {
-	const auto name = variable.string_view().substr(1);
+	const auto name = variable.children.front()->string_view();
 	auto itr = _variables.find(name);
 
 	if (itr == _variables.get<response::MapType>().cend())
@@ -1323,7 +1323,7 @@ response::Value getOperationVariables(
 			peg::on_first_child<peg::variable_name>(variable,
 				[&variableName](const peg::ast_node& name) {
 					// Skip the $ prefix
-					variableName = name.string_view().substr(1);
+					variableName = name.children.front()->string_view();
 				});
 
 			auto itrVar = variables.find(variableName);
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 73c7b90..860ef78 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -750,7 +750,7 @@ void RequestLoader::collectVariables() noexcept
 				if (child->is_type<peg::variable_name>())
 				{
 					// Skip the $ prefix
-					variable.name = child->string_view().substr(1);
+					variable.name = child->children.front()->string_view();
 					variable.cppName = _schemaLoader.getSafeCppName(variable.name);
 				}
 				else if (child->is_type<peg::named_type>() || child->is_type<peg::list_type>()
diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index adb81d4..ed457ad 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -206,6 +206,11 @@ struct ast_selector<object_value> : std::true_type
 {
 };
 
+template <>
+struct ast_selector<variable_name_content> : std::true_type
+{
+};
+
 template <>
 struct ast_selector<variable_value> : std::true_type
 {
diff --git a/src/Validation.cpp b/src/Validation.cpp
index 7f92194..be40839 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -153,7 +153,7 @@ void ValidateArgumentValueVisitor::visit(const peg::ast_node& value)
 
 void ValidateArgumentValueVisitor::visitVariable(const peg::ast_node& variable)
 {
-	ValidateArgumentVariable value { variable.string_view().substr(1) };
+	ValidateArgumentVariable value { variable.children.front()->string_view() };
 	auto position = variable.begin();
 
 	_argumentValue.value = std::make_unique<ValidateArgumentValue>(std::move(value));
@@ -702,7 +702,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 				if (child->is_type<peg::variable_name>())
 				{
 					// Skip the $ prefix
-					variableName = child->string_view().substr(1);
+					variableName = child->children.front()->string_view();
 
 					if (_operationVariables->find(variableName) != _operationVariables->end())
 					{
-- 
2.43.0


From 9f1eee12938f0f345f6a10341ad5d51f9b56060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 48/61] fix: refuse variables in the default values of
 variables

---
 src/Validation.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index be40839..86f94cd 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -690,10 +690,13 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 			operationName = child.string_view();
 		});
 
+	// The default values are constants, so there aren't any variables which they can refer to.
 	_operationVariables = std::make_optional<VariableTypes>();
 
+	VariableTypes operationVariables;
+
 	peg::for_each_child<peg::variable>(operationDefinition,
-		[this, operationName](const peg::ast_node& variable) {
+		[this, operationName, &operationVariables](const peg::ast_node& variable) {
 			std::string_view variableName;
 			ValidateArgument variableArgument;
 
@@ -704,7 +707,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 					// Skip the $ prefix
 					variableName = child->children.front()->string_view();
 
-					if (_operationVariables->find(variableName) != _operationVariables->end())
+					if (operationVariables.find(variableName) != operationVariables.end())
 					{
 						// http://spec.graphql.org/June2018/#sec-Variable-Uniqueness
 						auto position = child->begin();
@@ -784,9 +787,11 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 			}
 
 			_variableDefinitions.emplace(variableName, variable);
-			_operationVariables->emplace(variableName, std::move(variableArgument));
+			operationVariables.emplace(variableName, std::move(variableArgument));
 		});
 
+	_operationVariables = std::make_optional(std::move(operationVariables));
+
 	peg::on_first_child<peg::directives>(operationDefinition,
 		[this, &operationType](const peg::ast_node& child) {
 			auto location = introspection::DirectiveLocation::QUERY;
-- 
2.43.0


From 593c89bca1ed7f174ad4165b0ad038c275b8a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 49/61] fix: keep the whole text of descriptions with escape
 sequences

---
 src/SchemaLoader.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 0f6a6c7..2c165a8 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -700,7 +700,7 @@ void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -765,7 +765,7 @@ void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTy
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -826,7 +826,7 @@ void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObje
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -886,7 +886,7 @@ void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefiniti
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -928,7 +928,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 				[&value](const peg::ast_node& description) {
 					if (!description.children.empty())
 					{
-						value.description = description.children.front()->unescaped_view();
+						value.description = description.unescaped_view();
 					}
 				});
 
@@ -996,7 +996,7 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1035,7 +1035,7 @@ void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefini
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1088,7 +1088,7 @@ void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefini
 		[&directive](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				directive.description = child.children.front()->unescaped_view();
+				directive.description = child.unescaped_view();
 			}
 		});
 
@@ -1174,7 +1174,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 			else if (child->is_type<peg::directives>())
 			{
@@ -1263,7 +1263,7 @@ InputFieldList SchemaLoader::getInputFields(const peg::ast_node::children_t& fie
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 		}
 
-- 
2.43.0


From 9279085d1d721daeb0920909e0e85f478b3e2449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 50/61] fix: look up the index of an input type after the input
 types are reordered

---
 src/SchemaLoader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 2c165a8..c3bae77 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -586,6 +586,12 @@ void SchemaLoader::reorderInputTypeDependencies()
 
 		itr = itrDependent;
 	}
+
+	// The types may have moved.
+	for (size_t i = 0; i < _inputTypes.size(); ++i)
+	{
+		_inputNames[_inputTypes[i].type] = i;
+	}
 }
 
 void SchemaLoader::visitDefinition(const peg::ast_node& definition)
-- 
2.43.0


From 92d6f3961ccab6c52e444be861b4af27cc5d7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 51/61] fix: allow ignored tokens between the directives and
 the operations of a schema extension

---
 include/graphqlservice/internal/Grammar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 8e0a3eb..ba5cf9a 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -1010,7 +1010,8 @@ struct schema_extension_operation_type_definitions
 
 struct schema_extension_content
 	: seq<star<ignored>,
-		  sor<seq<opt<directives>, schema_extension_operation_type_definitions>, directives>>
+		  sor<seq<opt<directives, star<ignored>>, schema_extension_operation_type_definitions>,
+			  directives>>
 {
 };
 
-- 
2.43.0


From 9716cb8d2484281ef9876943425a5c93ea21e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 52/61] fix: refuse true, false and null as the names of enum
 values

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index ba5cf9a..0444483 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -247,7 +247,7 @@ struct bool_value : sor<true_keyword, false_keyword>
 };
 
 // http://spec.graphql.org/June2018/#EnumValue
-struct enum_value : seq<not_at<true_keyword, false_keyword, null_keyword>, name>
+struct enum_value : seq<not_at<sor<true_keyword, false_keyword, null_keyword>>, name>
 {
 };
 
-- 
2.43.0


From e8378db49b7a20db0b4239f1e0f9c2bed23cb14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 53/61] fix: mutation types override the accessors of their
 interfaces

---
 src/SchemaLoader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index c3bae77..1a25811 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -411,7 +411,8 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 			entry.inheritedField = false;
 		}
 
-		if (accessor)
+		// Fields which are inherited from an interface override its accessors.
+		if (accessor && !entry.inheritedField)
 		{
 			entry.accessor = *accessor;
 		}
-- 
2.43.0


From 71aa787a8fa96251470fbbb1593026dd526dcae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 54/61] fix: declare the variables of a client with their
 nullable and list modifiers

---
 src/ClientGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index fdd6ce2..aeb8430 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -279,7 +279,10 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 
 		for (const auto& variable : variables)
 		{
-			headerFile << R"cpp(	)cpp" << _schemaLoader.getCppType(variable.type->name())
+			headerFile << R"cpp(	)cpp"
+					   << RequestLoader::getOutputCppType(_schemaLoader.getCppType(
+															  variable.type->name()),
+							  variable.modifiers)
 					   << R"cpp( )cpp" << variable.cppName << R"cpp( {};
 )cpp";
 		}
-- 
2.43.0


From 5c5eef6d3c15fdff1ad5a43425594f5966f66a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 55/61] fix: only input object types are members of the
 Variables of a client

---
 include/ClientGenerator.h |  1 +
 src/ClientGenerator.cpp   | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 36def4f..5fd5941 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -41,6 +41,7 @@ private:
 	const std::string& getClientNamespace() const noexcept;
 	const std::string& getRequestNamespace() const noexcept;
 	const std::string& getFullNamespace() const noexcept;
+	std::string getVariableCppType(const RequestSchemaType& type) const noexcept;
 	std::string getResponseFieldCppType(
 		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
 
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index aeb8430..62f6cc6 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -138,6 +138,19 @@ const std::string& Generator::getFullNamespace() const noexcept
 	return s_namespace;
 }
 
+std::string Generator::getVariableCppType(const RequestSchemaType& type) const noexcept
+{
+	std::string result { _schemaLoader.getCppType(type->name()) };
+
+	// The input object types are declared in the Variables struct, all other types are not.
+	if (type->kind() == introspection::TypeKind::INPUT_OBJECT)
+	{
+		result = R"cpp(Variables::)cpp" + result;
+	}
+
+	return result;
+}
+
 std::string Generator::getResponseFieldCppType(
 	const ResponseField& responseField, std::string_view currentScope /* = {} */) const noexcept
 {
@@ -547,7 +560,7 @@ response::Value ModifiedVariable<Variables::)cpp"
 
 				sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << inputField->name()
 						   << R"cpp()js"s, ModifiedVariable<)cpp"
-						   << _schemaLoader.getCppType(type->name()) << R"cpp(>::serialize)cpp"
+						   << getVariableCppType(type) << R"cpp(>::serialize)cpp"
 						   << getTypeModifierList(modifiers) << R"cpp((std::move(inputValue.)cpp"
 						   << SchemaLoader::getSafeCppName(inputField->name()) << R"cpp()));
 )cpp";
@@ -628,8 +641,8 @@ response::Value serializeVariables(Variables&& variables)
 		for (const auto& variable : variables)
 		{
 			sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << variable.name
-					   << R"cpp()js"s, ModifiedVariable<Variables::)cpp"
-					   << _schemaLoader.getCppType(variable.type->name()) << R"cpp(>::serialize)cpp"
+					   << R"cpp()js"s, ModifiedVariable<)cpp"
+					   << getVariableCppType(variable.type) << R"cpp(>::serialize)cpp"
 					   << getTypeModifierList(variable.modifiers)
 					   << R"cpp((std::move(variables.)cpp" << variable.cppName << R"cpp()));
 )cpp";
-- 
2.43.0


From fa982b838d4c9089c6401387b85774ff93dbf133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 56/61] fix: order the input types of a client by their wrapped
 fields, too

---
 src/RequestLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 860ef78..fec44fc 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -857,7 +857,7 @@ void RequestLoader::reorderInputTypeDependencies() noexcept
 			std::for_each(fields.begin(),
 				fields.end(),
 				[&result](const std::shared_ptr<const schema::InputValue>& field) noexcept {
-					const auto fieldType = field->type().lock();
+					const auto [fieldType, modifiers] = unwrapSchemaType(field->type().lock());
 
 					if (fieldType->kind() == introspection::TypeKind::INPUT_OBJECT)
 					{
-- 
2.43.0


From 4a05bb64577ab2391b27b3f977e4d2e4c8498b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 57/61] fix: use the same names for response types inside and
 outside of their scope

---
 src/ClientGenerator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 62f6cc6..96cab0d 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -164,13 +164,14 @@ std::string Generator::getResponseFieldCppType(
 		{
 			std::ostringstream oss;
 
+			oss << responseField.cppName << R"cpp(_)cpp" << responseField.type->name();
+			result = SchemaLoader::getSafeCppName(oss.str());
+
 			if (!currentScope.empty())
 			{
-				oss << currentScope << R"cpp(::)cpp";
+				result = std::string { currentScope } + R"cpp(::)cpp" + result;
 			}
 
-			oss << responseField.cppName << R"cpp(_)cpp" << responseField.type->name();
-			result = SchemaLoader::getSafeCppName(oss.str());
 			break;
 		}
 
-- 
2.43.0


From a049b90ff91156b14fce84f4170b146ce749fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 58/61] fix: keep the members of all fields of a client which
 share a response name

---
 include/RequestLoader.h |  2 ++
 src/RequestLoader.cpp   | 62 ++++++++++++++++++++++++++---------------
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 0f1fef6..55b2471 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -123,6 +123,8 @@ private:
 		void visitInlineFragment(const peg::ast_node& inlineFragment);
 
 		void mergeFragmentFields(ResponseFieldList&& fragmentFields) noexcept;
+		void addField(ResponseField&& responseField) noexcept;
+		static void mergeField(ResponseFieldList& fields, ResponseField&& responseField) noexcept;
 
 		const SchemaLoader& _schemaLoader;
 		const FragmentDefinitionMap& _fragments;
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index fec44fc..b711944 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -1022,14 +1022,6 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
-	if (!_names.emplace(alias).second)
-	{
-		// Skip fields which map to the same response name as a field we've already visited.
-		// Validation should handle merging multiple references to the same field or to
-		// compatible fields.
-		return;
-	}
-
 	ResponseField responseField;
 
 	responseField.name = alias;
@@ -1040,7 +1032,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 	if (name == R"gql(__typename)gql"sv)
 	{
 		responseField.type = _schema->LookupType("String"sv);
-		_fields.push_back(std::move(responseField));
+		addField(std::move(responseField));
 		return;
 	}
 
@@ -1114,7 +1106,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_fields.push_back(std::move(responseField));
+	addField(std::move(responseField));
 }
 
 void RequestLoader::SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
@@ -1168,20 +1160,44 @@ void RequestLoader::SelectionVisitor::visitInlineFragment(const peg::ast_node& i
 void RequestLoader::SelectionVisitor::mergeFragmentFields(
 	ResponseFieldList&& fragmentFields) noexcept
 {
-	fragmentFields.erase(std::remove_if(fragmentFields.begin(),
-							 fragmentFields.end(),
-							 [this](const ResponseField& fragmentField) noexcept {
-								 return !_names.emplace(fragmentField.name).second;
-							 }),
-		fragmentFields.cend());
-
-	if (!fragmentFields.empty())
+	for (auto& fragmentField : fragmentFields)
 	{
-		_fields.reserve(_fields.size() + fragmentFields.size());
-		for (auto& fragmentField : fragmentFields)
-		{
-			_fields.push_back(std::move(fragmentField));
-		}
+		addField(std::move(fragmentField));
+	}
+}
+
+void RequestLoader::SelectionVisitor::addField(ResponseField&& responseField) noexcept
+{
+	if (_names.emplace(responseField.name).second)
+	{
+		_fields.push_back(std::move(responseField));
+	}
+	else
+	{
+		// Validation should handle merging multiple references to the same field or to compatible
+		// fields, but each of them can select different fields of its own.
+		mergeField(_fields, std::move(responseField));
+	}
+}
+
+void RequestLoader::SelectionVisitor::mergeField(
+	ResponseFieldList& fields, ResponseField&& responseField) noexcept
+{
+	const auto itr = std::find_if(fields.begin(),
+		fields.end(),
+		[&responseField](const ResponseField& field) noexcept {
+			return field.name == responseField.name;
+		});
+
+	if (itr == fields.end())
+	{
+		fields.push_back(std::move(responseField));
+		return;
+	}
+
+	for (auto& child : responseField.children)
+	{
+		mergeField(itr->children, std::move(child));
 	}
 }
 
-- 
2.43.0


From af47c3f433ba5ca865ced4845832d5593059dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 59/61] fix: leave the byte order mark of a request file out of
 the generated request text

---
 src/RequestLoader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index b711944..e7a2b13 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -113,7 +113,16 @@ std::string_view RequestLoader::getOperationType() const noexcept
 
 std::string_view RequestLoader::getRequestText() const noexcept
 {
-	return trimWhitespace(_requestText);
+	constexpr auto c_byteOrderMark = "\xEF\xBB\xBF"sv;
+	std::string_view requestText { _requestText };
+
+	// This is only allowed at the beginning of a document, but the generated code indents it.
+	if (requestText.substr(0, c_byteOrderMark.size()) == c_byteOrderMark)
+	{
+		requestText.remove_prefix(c_byteOrderMark.size());
+	}
+
+	return trimWhitespace(requestText);
 }
 
 const ResponseType& RequestLoader::getResponseType() const noexcept
-- 
2.43.0


From 98ebd2492b6649a04c8f124a8cc87c89892589e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 60/61] fix: nested response types of a client with the name of
 the type around them

---
 include/ClientGenerator.h |  5 +++--
 src/ClientGenerator.cpp   | 28 +++++++++++++++++-----------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 5fd5941..75693d6 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -43,13 +43,14 @@ private:
 	const std::string& getFullNamespace() const noexcept;
 	std::string getVariableCppType(const RequestSchemaType& type) const noexcept;
 	std::string getResponseFieldCppType(
-		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
+		const ResponseField& responseField, std::string_view currentScope = {},
+		bool qualified = true) const noexcept;
 
 	bool outputHeader() const noexcept;
 	void outputRequestComment(std::ostream& headerFile) const noexcept;
 	void outputGetRequestDeclaration(std::ostream& headerFile) const noexcept;
 	bool outputResponseFieldType(std::ostream& headerFile, const ResponseField& responseField,
-		size_t indent = 0) const noexcept;
+		size_t indent = 0, std::string_view outerType = {}) const noexcept;
 
 	bool outputSource() const noexcept;
 	void outputGetRequestImplementation(std::ostream& sourceFile) const noexcept;
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 96cab0d..deae00e 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -152,7 +152,8 @@ std::string Generator::getVariableCppType(const RequestSchemaType& type) const n
 }
 
 std::string Generator::getResponseFieldCppType(
-	const ResponseField& responseField, std::string_view currentScope /* = {} */) const noexcept
+	const ResponseField& responseField, std::string_view currentScope /* = {} */,
+	bool qualified /* = true */) const noexcept
 {
 	std::string result;
 
@@ -167,7 +168,13 @@ std::string Generator::getResponseFieldCppType(
 			oss << responseField.cppName << R"cpp(_)cpp" << responseField.type->name();
 			result = SchemaLoader::getSafeCppName(oss.str());
 
-			if (!currentScope.empty())
+			// A nested type can't have the same name as the type which it's declared in.
+			if (currentScope.substr(currentScope.rfind(':') + 1) == result)
+			{
+				result.push_back('_');
+			}
+
+			if (qualified && !currentScope.empty())
 			{
 				result = std::string { currentScope } + R"cpp(::)cpp" + result;
 			}
@@ -384,7 +391,8 @@ const peg::ast& GetRequestObject() noexcept;
 }
 
 bool Generator::outputResponseFieldType(std::ostream& headerFile,
-	const ResponseField& responseField, size_t indent /* = 0 */) const noexcept
+	const ResponseField& responseField, size_t indent /* = 0 */,
+	std::string_view outerType /* = {} */) const noexcept
 {
 	switch (responseField.type->kind())
 	{
@@ -400,10 +408,11 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 	}
 
 	const std::string indentTabs(indent, '\t');
+	const auto cppType = getResponseFieldCppType(responseField, outerType, false);
 	std::unordered_set<std::string_view> fieldNames;
 	PendingBlankLine pendingSeparator { headerFile };
 
-	headerFile << indentTabs << R"cpp(struct )cpp" << getResponseFieldCppType(responseField)
+	headerFile << indentTabs << R"cpp(struct )cpp" << cppType
 			   << R"cpp(
 )cpp" << indentTabs
 			   << R"cpp({)cpp";
@@ -419,7 +428,7 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 				pendingSeparator.reset();
 
 				if (fieldNames.emplace(field.name).second
-					&& outputResponseFieldType(headerFile, field, indent + 1))
+					&& outputResponseFieldType(headerFile, field, indent + 1, cppType))
 				{
 					pendingSeparator.add();
 				}
@@ -434,7 +443,8 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 				if (fieldNames.emplace(field.name).second)
 				{
 					headerFile << indentTabs << R"cpp(	)cpp"
-							   << RequestLoader::getOutputCppType(getResponseFieldCppType(field),
+							   << RequestLoader::getOutputCppType(
+									  getResponseFieldCppType(field, cppType, false),
 									  field.modifiers)
 							   << R"cpp( )cpp" << field.cppName << R"cpp( {};
 )cpp";
@@ -739,11 +749,7 @@ const peg::ast& GetRequestObject() noexcept
 bool Generator::outputModifiedResponseImplementation(std::ostream& sourceFile,
 	const std::string& outerScope, const ResponseField& responseField) const noexcept
 {
-	std::ostringstream oss;
-
-	oss << outerScope << R"cpp(::)cpp" << getResponseFieldCppType(responseField);
-
-	const auto cppType = oss.str();
+	const auto cppType = getResponseFieldCppType(responseField, outerScope);
 	std::unordered_set<std::string_view> fieldNames;
 
 	switch (responseField.type->kind())
-- 
2.43.0


From e784a9cd8a50e574308185a5a394ca9738949477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 61/61] fix: serialize lists of non-null booleans in the
 variables of a client

---
 include/graphqlservice/GraphQLClient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/GraphQLClient.h b/include/graphqlservice/GraphQLClient.h
index 4893381..190f190 100644
--- a/include/graphqlservice/GraphQLClient.h
+++ b/include/graphqlservice/GraphQLClient.h
@@ -129,7 +129,7 @@ struct ModifiedVariable
 		response::Value result { response::Type::List };
 
 		result.reserve(listValue.size());
-		std::for_each(listValue.begin(), listValue.end(), [&result](auto& value) {
+		std::for_each(listValue.begin(), listValue.end(), [&result](auto&& value) {
 			result.emplace_back(serialize<Other...>(std::move(value)));
 		});
 		listValue.clear();
-- 
2.43.0

