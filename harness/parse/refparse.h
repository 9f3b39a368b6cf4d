// A reference parser for executable documents: a lexer and a recursive descent parser written from
// the June 2018 specification, which produces a rendering of the tree with all positions.
#pragma once
#include "common/util.h"

namespace vh {

struct RefParse
{
	enum Verdict
	{
		Accepted,
		Refused,
		Unknown // something which the reference leaves open
	} verdict = Refused;
	std::string tree;   // if Accepted
	std::string reason; // otherwise
	size_t nodes = 0;
};

class RefParser
{
public:
	static RefParse parse(const std::string& text)
	{
		RefParse r;
		try
		{
			RefParser p(text);
			p.document();
			r.verdict = RefParse::Accepted;
			r.tree = p._tree;
			r.nodes = p._nodes;
		}
		catch (const Refuse& e)
		{
			r.verdict = RefParse::Refused;
			r.reason = e.what + " at " + std::to_string(e.line) + ":" + std::to_string(e.column);
		}
		catch (const Open& e)
		{
			r.verdict = RefParse::Unknown;
			r.reason = e.what;
		}
		return r;
	}

private:
	struct Refuse
	{
		std::string what;
		size_t line, column;
	};
	struct Open
	{
		std::string what;
	};
	enum Kind
	{
		Punct,
		Name,
		Int,
		Float,
		Str,
		End
	};
	struct Token
	{
		Kind kind = End;
		std::string text; // decoded for strings
		size_t line = 1, column = 1;
	};

	const std::string& _t;
	size_t _i = 0, _line = 1, _column = 1;
	Token _tok;
	std::string _tree;
	size_t _nodes = 0;

	explicit RefParser(const std::string& t)
		: _t(t)
	{
		// Left open: lone carriage returns, and code points which aren't whitespace in GraphQL.
		for (size_t i = 0; i < t.size(); ++i)
			if (t[i] == '\r' && (i + 1 == t.size() || t[i + 1] != '\n'))
				throw Open { "lone carriage return" };
		if (t.compare(0, 3, "\xef\xbb\xbf") == 0)
			bump(3);
		lex();
	}
	[[noreturn]] void refuse(const std::string& what)
	{
		throw Refuse { what, _tok.line, _tok.column };
	}
	[[noreturn]] void refuseHere(const std::string& what)
	{
		throw Refuse { what, _line, _column };
	}
	char at(size_t k = 0) const
	{
		return _i + k < _t.size() ? _t[_i + k] : '\0';
	}
	bool more(size_t k = 0) const
	{
		return _i + k < _t.size();
	}
	bool starts(const char* s) const
	{
		return _t.compare(_i, strlen(s), s) == 0;
	}
	void bump(size_t n = 1)
	{
		for (; n; --n, ++_i)
		{
			if (_t[_i] == '\n')
			{
				++_line;
				_column = 1;
			}
			else
				++_column;
		}
	}
	static bool nameStart(char c)
	{
		return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
	}
	static bool digit(char c)
	{
		return c >= '0' && c <= '9';
	}
	// The length of the source character here, or 0.
	size_t sourceCharacter() const
	{
		if (!more())
			return 0;
		auto b = [&](size_t k) { return (unsigned)(unsigned char)at(k); };
		unsigned c = b(0);
		if (c < 0x80)
			return c >= 0x20 || c == 9 || c == 10 || c == 13 ? 1 : 0;
		if (c >= 0xc2 && c < 0xe0)
			return more(1) && (b(1) & 0xc0) == 0x80 ? 2 : 0;
		if (c >= 0xe0 && c < 0xf0)
		{
			if (!more(2) || (b(1) & 0xc0) != 0x80 || (b(2) & 0xc0) != 0x80)
				return 0;
			unsigned v = (c & 15) << 12 | (b(1) & 63) << 6 | (b(2) & 63);
			return v >= 0x800 && (v < 0xd800 || v > 0xdfff) ? 3 : 0;
		}
		return 0;
	}
	void lex()
	{
		for (;;)
		{
			if (!more())
				break;
			char c = at();
			if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',')
				bump();
			else if (c == '#')
			{
				while (more() && !starts("\n") && !starts("\r\n"))
				{
					auto n = sourceCharacter();
					if (!n)
						throw Open { "a comment with other than source characters" };
					bump(n);
				}
			}
			else if (c == '\v' || c == '\f' || starts("\xef\xbb\xbf"))
				throw Open { "vertical tab, form feed, or byte order mark" };
			else
				break;
		}
		_tok = Token();
		_tok.line = _line;
		_tok.column = _column;
		if (!more())
			return;
		char c = at();
		if (nameStart(c))
		{
			_tok.kind = Name;
			while (more() && (nameStart(at()) || digit(at())))
			{
				_tok.text += at();
				bump();
			}
		}
		else if (c == '-' || digit(c))
			number();
		else if (c == '"')
			string();
		else if (starts("..."))
		{
			_tok.kind = Punct;
			_tok.text = "...";
			bump(3);
		}
		else if (std::string("!$():=@[]{}").find(c) != std::string::npos)
		{
			_tok.kind = Punct;
			_tok.text = c;
			bump();
		}
		else
			refuse("unexpected character");
	}
	void number()
	{
		auto take = [&] {
			_tok.text += at();
			bump();
		};
		auto digits = [&] {
			if (!digit(at()))
				refuse("expected a digit");
			while (digit(at()))
				take();
		};
		_tok.kind = Int;
		if (at() == '-')
			take();
		if (at() == '0')
			take();
		else
			digits();
		if (digit(at()))
			refuse("leading zero");
		if (at() == '.')
		{
			_tok.kind = Float;
			take();
			digits();
		}
		if (at() == 'e' || at() == 'E')
		{
			_tok.kind = Float;
			take();
			if (at() == '+' || at() == '-')
				take();
			digits();
		}
		if (nameStart(at()) || at() == '.')
			refuse("a number which is followed by a name or a dot");
	}
	void string()
	{
		_tok.kind = Str;
		if (starts("\"\"\""))
		{
			bump(3);
			std::string raw;
			for (;;)
			{
				if (starts("\\\"\"\""))
				{
					raw += "\"\"\"";
					bump(4);
				}
				else if (starts("\"\"\""))
				{
					bump(3);
					break;
				}
				else
				{
					auto n = sourceCharacter();
					if (!n)
						refuseHere(more() ? "unexpected character in a block string" : "unterminated block string");
					raw += _t.substr(_i, n);
					bump(n);
				}
			}
			_tok.text = block(raw);
			return;
		}
		bump();
		while (!starts("\""))
		{
			if (starts("\\"))
			{
				bump();
				char c = at();
				static const std::map<char, char> simple { { '"', '"' }, { '\\', '\\' }, { '/', '/' }, { 'b', '\b' }, { 'f', '\f' }, { 'n', '\n' }, { 'r', '\r' }, { 't', '\t' } };
				if (more() && c == 'u')
				{
					bump();
					auto v = hex();
					if (v >= 0xd800 && v < 0xdc00)
					{
						if (!starts("\\u"))
							refuseHere("lone surrogate");
						bump(2);
						auto w = hex();
						if (w < 0xdc00 || w > 0xdfff)
							refuseHere("lone surrogate");
						v = 0x10000 + ((v & 0x3ff) << 10 | (w & 0x3ff));
					}
					else if (v >= 0xdc00 && v <= 0xdfff)
						refuseHere("lone surrogate");
					appendUtf8(_tok.text, v);
				}
				else
				{
					auto s = more() ? simple.find(c) : simple.end();
					if (s == simple.end())
						refuseHere("unknown escape sequence");
					_tok.text += s->second;
					bump();
				}
				continue;
			}
			auto n = sourceCharacter();
			if (!n || starts("\n") || starts("\r"))
				refuseHere("unterminated string, or an unexpected character in it");
			_tok.text += _t.substr(_i, n);
			bump(n);
		}
		bump();
	}
	uint32_t hex()
	{
		uint32_t v = 0;
		for (int k = 0; k < 4; ++k)
		{
			if (!more() || !isxdigit((unsigned char)at()))
				refuseHere("expected a hexadecimal digit");
			char c = at();
			v = v << 4 | (uint32_t)(digit(c) ? c - '0' : (c | 32) - 'a' + 10);
			bump();
		}
		return v;
	}
	static std::string block(const std::string& raw)
	{
		std::vector<std::string> lines { "" };
		for (size_t i = 0; i < raw.size(); ++i)
		{
			if (raw[i] == '\r')
				continue; // always followed by a line feed here
			if (raw[i] == '\n')
				lines.emplace_back();
			else
				lines.back() += raw[i];
		}
		auto indent = [](const std::string& l) {
			size_t n = 0;
			while (n < l.size() && (l[n] == ' ' || l[n] == '\t'))
				++n;
			return n;
		};
		long common = -1;
		for (size_t k = 1; k < lines.size(); ++k)
		{
			auto n = indent(lines[k]);
			if (n < lines[k].size() && (common < 0 || (long)n < common))
				common = (long)n;
		}
		if (common > 0)
			for (size_t k = 1; k < lines.size(); ++k)
				lines[k].erase(0, (size_t)common);
		while (!lines.empty() && indent(lines.front()) == lines.front().size())
			lines.erase(lines.begin());
		while (!lines.empty() && indent(lines.back()) == lines.back().size())
			lines.pop_back();
		std::string o;
		for (size_t k = 0; k < lines.size(); ++k)
			o += (k ? "\n" : "") + lines[k];
		return o;
	}

	// ---------------------------------------------------------------------------------------------
	bool is(const char* p) const
	{
		return _tok.kind == Punct && _tok.text == p;
	}
	bool isName(const char* n) const
	{
		return _tok.kind == Name && _tok.text == n;
	}
	void expect(const char* p)
	{
		if (!is(p))
			refuse(std::string("expected ") + p);
		lex();
	}
	void open(const char* kind, bool position = true)
	{
		++_nodes;
		_tree += "(" + std::string(kind);
		if (position)
			_tree += "@" + std::to_string(_tok.line) + ":" + std::to_string(_tok.column);
	}
	void close()
	{
		_tree += ")";
	}
	void leaf(const char* kind)
	{
		open(kind);
		_tree += " " + quote(_tok.text) + ")";
		lex();
	}
	void name(const char* kind)
	{
		if (_tok.kind != Name)
			refuse("expected a name");
		leaf(kind);
	}
	void document()
	{
		do
			definition();
		while (_tok.kind != End);
	}
	void definition()
	{
		if (_tok.kind == Str)
			throw Open { "description" };
		if (_tok.kind == Name)
			for (auto k : { "schema", "scalar", "type", "interface", "union", "enum", "input", "directive", "extend" })
				if (_tok.text == k)
					throw Open { "type definition" };
		if (is("{"))
		{
			open("operation_definition");
			selectionSet();
			close();
		}
		else if (isName("query") || isName("mutation") || isName("subscription"))
		{
			open("operation_definition");
			leaf("operation_type");
			if (_tok.kind == Name)
				leaf("operation_name");
			if (is("("))
			{
				lex();
				do
					variable();
				while (!is(")"));
				lex();
			}
			directives();
			selectionSet();
			close();
		}
		else if (isName("fragment"))
		{
			open("fragment_definition");
			lex();
			if (isName("on"))
				refuse("a fragment named on");
			name("fragment_name");
			if (!isName("on"))
				refuse("expected on");
			condition();
			directives();
			selectionSet();
			close();
		}
		else
			refuse("expected a definition");
	}
	void condition()
	{
		open("type_condition");
		lex();
		name("named_type");
		close();
	}
	void variable()
	{
		if (!is("$"))
			refuse("expected a variable");
		open("variable");
		variableName("variable_name");
		expect(":");
		type();
		if (is("="))
		{
			open("default_value");
			lex();
			value();
			close();
		}
		close();
	}
	void variableName(const char* kind)
	{
		open(kind);
		lex();
		if (_tok.kind != Name)
			refuse("expected a name");
		_tree += " " + quote(_tok.text) + ")";
		lex();
	}
	void type()
	{
		auto start = _tree.size();
		auto t = _tok;
		if (is("["))
		{
			open("list_type");
			lex();
			type();
			expect("]");
			close();
		}
		else
			name("named_type");
		if (is("!"))
		{
			++_nodes;
			_tree.insert(start, "(nonnull_type@" + std::to_string(t.line) + ":" + std::to_string(t.column));
			close();
			lex();
		}
	}
	void directives()
	{
		if (!is("@"))
			return;
		open("directives");
		while (is("@"))
		{
			open("directive");
			lex();
			name("directive_name");
			arguments();
			close();
		}
		close();
	}
	void arguments()
	{
		if (!is("("))
			return;
		open("arguments");
		lex();
		do
		{
			open("argument");
			name("argument_name");
			expect(":");
			value();
			close();
		} while (!is(")"));
		lex();
		close();
	}
	void value()
	{
		switch (_tok.kind)
		{
			case Int: leaf("integer_value"); return;
			case Float: leaf("float_value"); return;
			case Str: leaf("string_value"); return;
			case Name:
				leaf(isName("true") ? "true_keyword"
						: isName("false") ? "false_keyword"
						: isName("null")  ? "null_keyword"
										  : "enum_value");
				return;
			default: break;
		}
		if (is("$"))
			variableName("variable_value");
		else if (is("["))
		{
			open("list_value");
			lex();
			while (!is("]"))
				value();
			lex();
			close();
		}
		else if (is("{"))
		{
			open("object_value");
			lex();
			while (!is("}"))
			{
				open("object_field");
				name("object_field_name");
				expect(":");
				value();
				close();
			}
			lex();
			close();
		}
		else
			refuse("expected a value");
	}
	void selectionSet()
	{
		if (!is("{"))
			refuse("expected a selection set");
		open("selection_set");
		lex();
		do
			selection();
		while (!is("}"));
		lex();
		close();
	}
	void selection()
	{
		if (is("..."))
		{
			lex();
			if (_tok.kind == Name && !isName("on"))
			{
				open("fragment_spread", false);
				leaf("fragment_name");
				directives();
			}
			else
			{
				open("inline_fragment", false);
				if (isName("on"))
					condition();
				directives();
				selectionSet();
			}
			close();
			return;
		}
		if (_tok.kind != Name)
			refuse("expected a selection");
		open("field");
		auto first = _tok;
		lex();
		auto emit = [&](const char* kind, const Token& t) {
			++_nodes;
			_tree += "(" + std::string(kind) + "@" + std::to_string(t.line) + ":" + std::to_string(t.column) + " " + quote(t.text) + ")";
		};
		if (is(":"))
		{
			emit("alias_name", first);
			lex();
			name("field_name");
		}
		else
			emit("field_name", first);
		arguments();
		directives();
		if (is("{"))
			selectionSet();
		close();
	}
};

} // namespace vh
