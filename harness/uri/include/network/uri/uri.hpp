// Minimal stand-in for cpp-netlib/uri, covering what language_server/src/feature.cpp uses.
// Semantics follow RFC 3986 and the behaviour of cpp-netlib/uri 1.1 for: scheme, authority, path, percent-encoding.
#ifndef VERIF_NETWORK_URI_HPP
#define VERIF_NETWORK_URI_HPP
#include <algorithm>
#include <cstring>
#include <iterator>
#include <string>
#include <string_view>
#include <system_error>

namespace network {
class uri_syntax_error : public std::system_error
{
public:
    uri_syntax_error()
        : std::system_error(std::make_error_code(std::errc::invalid_argument), "Unable to parse URI string.")
    {}
};
class percent_decoding_error : public std::system_error
{
public:
    percent_decoding_error()
        : std::system_error(std::make_error_code(std::errc::invalid_argument), "percent decoding error")
    {}
};

class string_view : public std::string_view
{
public:
    using std::string_view::string_view;
    string_view(std::string_view v)
        : std::string_view(v)
    {}
    std::string to_string() const { return std::string(data(), size()); }
};

class uri
{
    std::string s_;
    std::string_view scheme_, authority_, path_;
    bool has_authority_ = false;

    static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    static bool digit(char c) { return c >= '0' && c <= '9'; }
    static bool hex(char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    static bool one_of(char c, const char* set) { return c != 0 && std::strchr(set, c) != nullptr; }
    static bool uchar(char c) { return alpha(c) || digit(c) || one_of(c, "-._~!$&'()*+,;="); }

    static void check(std::string_view v, const char* extra)
    {
        for (size_t i = 0; i < v.size(); ++i)
        {
            if (v[i] == '%')
            {
                if (i + 2 >= v.size() || !hex(v[i + 1]) || !hex(v[i + 2]))
                    throw uri_syntax_error();
                i += 2;
            }
            else if (!uchar(v[i]) && !one_of(v[i], extra))
                throw uri_syntax_error();
        }
    }

public:
    explicit uri(const std::string& s)
        : s_(s)
    {
        std::string_view v = s_;
        auto colon = v.find(':');
        if (colon == std::string_view::npos || colon == 0 || !alpha(v[0]))
            throw uri_syntax_error();
        for (char c : v.substr(0, colon))
            if (!alpha(c) && !digit(c) && !one_of(c, "+-."))
                throw uri_syntax_error();
        scheme_ = v.substr(0, colon);
        v.remove_prefix(colon + 1);
        if (auto f = v.find('#'); f != std::string_view::npos)
        {
            check(v.substr(f + 1), ":@/?");
            v = v.substr(0, f);
        }
        if (auto q = v.find('?'); q != std::string_view::npos)
        {
            check(v.substr(q + 1), ":@/?");
            v = v.substr(0, q);
        }
        if (v.substr(0, 2) == "//")
        {
            has_authority_ = true;
            v.remove_prefix(2);
            auto e = std::min(v.find('/'), v.size());
            authority_ = v.substr(0, e);
            check(authority_, ":@[]");
            v.remove_prefix(e);
        }
        check(v, ":@/");
        path_ = v;
    }
    uri(const uri&) = delete;
    uri& operator=(const uri&) = delete;

    string_view scheme() const { return scheme_; }
    bool has_path() const { return true; }
    string_view path() const { return path_; }
    bool has_authority() const { return has_authority_; }
    string_view authority() const { return authority_; }
};

namespace detail {
inline std::string decode(const std::string& in)
{
    auto val = [](char c) -> int {
        if (c >= '0' && c <= '9')
            return c - '0';
        if (c >= 'a' && c <= 'f')
            return c - 'a' + 10;
        if (c >= 'A' && c <= 'F')
            return c - 'A' + 10;
        throw percent_decoding_error();
    };
    std::string out;
    for (size_t i = 0; i < in.size(); ++i)
    {
        if (in[i] != '%')
        {
            out.push_back(in[i]);
            continue;
        }
        if (i + 2 >= in.size())
            throw percent_decoding_error();
        out.push_back((char)(val(in[i + 1]) * 16 + val(in[i + 2])));
        i += 2;
    }
    return out;
}

template<typename OutputIterator>
void encode_char(char in, OutputIterator& out, const char* ignore = "")
{
    const bool unreserved = (in >= 'a' && in <= 'z') || (in >= 'A' && in <= 'Z') || (in >= '0' && in <= '9') || in == '-'
        || in == '.' || in == '_' || in == '~';
    if (unreserved || (in != 0 && std::strchr(ignore, in)))
    {
        *out++ = in;
        return;
    }
    const char* digits = "0123456789ABCDEF";
    *out++ = '%';
    *out++ = digits[((unsigned char)in >> 4) & 0xf];
    *out++ = digits[(unsigned char)in & 0xf];
}
} // namespace detail
} // namespace network
#endif
