// Reference lexer: table-driven longest match, written from the documented lexical grammar.
#pragma once
#include <optional>
#include <string_view>
#include <vector>

#include "bms/tokenization/token_type.hpp"
#include "bms/tokenization/tokenize_error.hpp"

namespace ref {

using bit_manipulation::bms::Token_Type;
using bit_manipulation::bms::Tokenize_Error_Code;
struct Spelling { std::string_view text; Token_Type type; };
using enum bit_manipulation::bms::Token_Type;
inline const Spelling operators[] = {
    {"(", left_parenthesis}, {")", right_parenthesis}, {"{", left_brace}, {"}", right_brace},
    {"=", assign}, {"==", equals}, {"!=", not_equals}, {"+", plus}, {"-", minus},
    {"*", multiplication}, {"/", division}, {"%", remainder}, {"<", less_than},
    {">", greater_than}, {"<=", less_or_equal}, {">=", greater_or_equal}, {"<<", shift_left},
    {">>", shift_right}, {"&", bitwise_and}, {"|", bitwise_or}, {"~", bitwise_not},
    {"^", bitwise_xor}, {"&&", logical_and}, {"||", logical_or}, {"!", logical_not},
    {"->", right_arrow}, {"=>", double_right_arrow}, {".", dot}, {":", colon}, {",", comma},
    {"@", at}, {";", semicolon},
};
inline const Spelling keywords[] = {
    {"as", keyword_as}, {"let", keyword_let}, {"const", keyword_const},
    {"function", keyword_function}, {"while", keyword_while}, {"if", keyword_if},
    {"else", keyword_else}, {"Uint", keyword_uint}, {"Int", keyword_int}, {"Bool", keyword_bool},
    {"Void", keyword_void}, {"requires", keyword_requires}, {"return", keyword_return},
    {"break", keyword_break}, {"continue", keyword_continue}, {"true", keyword_true},
    {"false", keyword_false}, {"static_assert", keyword_static_assert},
};

inline bool digit_of(char c, int base)
{
    int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10
        : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
    return v < base;
}
inline bool ident_start(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool ident_char(char c) { return ident_start(c) || (c >= '0' && c <= '9'); }

struct Ref_Token { size_t begin, length, line, column; Token_Type type; };

// Lines end at line feeds; a carriage return goes back to column zero, a tab is four columns wide.
inline std::pair<size_t, size_t> line_and_column(std::string_view s, size_t i)
{
    size_t line = 0, column = 0;
    for (size_t k = 0; k < i; ++k) {
        if (s[k] == '\n') { ++line; column = 0; }
        else if (s[k] == '\r') column = 0;
        else column += s[k] == '\t' ? 4 : 1;
    }
    return { line, column };
}

struct Ref_Result {
    std::vector<Ref_Token> tokens;
    std::optional<Tokenize_Error_Code> error;
    size_t error_begin = 0;
};

inline Ref_Result ref_lex(std::string_view s)
{
    Ref_Result r;
    size_t i = 0, at = 0, line = 0, column = 0; // line and column of at
    auto push = [&](size_t len, Token_Type t) {
        for (; at < i; ++at) {
            if (s[at] == '\n') { ++line; column = 0; }
            else if (s[at] == '\r') column = 0;
            else column += s[at] == '\t' ? 4 : 1;
        }
        r.tokens.push_back({ i, len, line, column, t });
        i += len;
    };
    auto err = [&](Tokenize_Error_Code c, size_t at) { r.error = c; r.error_begin = at; };
    while (i < s.size()) {
        char c = s[i];
        if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { ++i; continue; }
        auto rest = s.substr(i);
        if (rest.starts_with("//")) {
            size_t n = 0;
            while (n < rest.size() && rest[n] != '\n') ++n;
            push(n, line_comment);
            continue;
        }
        if (rest.starts_with("/*")) {
            size_t n = 2;
            while (n < rest.size() && !rest.substr(n).starts_with("*/")) ++n;
            if (n >= rest.size()) { err(Tokenize_Error_Code::unterminated_comment, i); return r; }
            push(n + 2, block_comment);
            continue;
        }
        if (c == '"') {
            size_t n = 1;
            while (n < rest.size() && rest[n] != '"') n += rest[n] == '\\' ? 2 : 1;
            if (n >= rest.size()) { err(Tokenize_Error_Code::unterminated_string, i); return r; }
            push(n + 1, string_literal);
            continue;
        }
        if (c >= '0' && c <= '9') {
            int base = 10;
            size_t n = 0;
            Token_Type t = decimal_literal;
            if (rest.starts_with("0b")) { base = 2; n = 2; t = binary_literal; }
            else if (rest.starts_with("0x")) { base = 16; n = 2; t = hexadecimal_literal; }
            else if (c == '0') { base = 8; t = octal_literal; }
            size_t prefix = n;
            while (n < rest.size() && digit_of(rest[n], base)) ++n;
            if (n == prefix) {
                err(Tokenize_Error_Code::no_digits_following_integer_prefix, i + prefix);
                return r;
            }
            if (t == octal_literal && n == 1) t = decimal_literal; // plain "0"
            if (n < rest.size() && ident_char(rest[n])) {
                err(Tokenize_Error_Code::integer_suffix, i + n);
                return r;
            }
            push(n, t);
            continue;
        }
        if (ident_start(c)) {
            size_t n = 0;
            while (n < rest.size() && ident_char(rest[n])) ++n;
            Token_Type t = identifier;
            for (auto& k : keywords) if (k.text == rest.substr(0, n)) t = k.type;
            push(n, t);
            continue;
        }
        const Spelling* best = nullptr;
        for (auto& o : operators)
            if (rest.starts_with(o.text) && (!best || o.text.size() > best->text.size())) best = &o;
        if (!best) { err(Tokenize_Error_Code::illegal_character, i); return r; }
        push(best->text.size(), best->type);
    }
    return r;
}

} // namespace ref
