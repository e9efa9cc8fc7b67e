#include <cctype>
#include <charconv>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include "score/json/json_parser.h"
#include "score/json/json_writer.h"
#include "verif_seam.h"
namespace score::json
{
Any::Any(Object o) : v_{std::make_unique<Object>(std::move(o))} {}
Any::Any(List l) : v_{std::make_unique<List>(std::move(l))} {}
Any& Any::operator=(Object o)
{
    v_ = std::make_unique<Object>(std::move(o));
    return *this;
}
Any& Any::operator=(List o)
{
    v_ = std::make_unique<List>(std::move(o));
    return *this;
}
Any Any::CloneByValue() const
{
    Any r;
    if (const auto* b = std::get_if<bool>(&v_)) r.v_ = *b;
    if (const auto* b = std::get_if<Number>(&v_)) r.v_ = *b;
    if (const auto* b = std::get_if<std::string>(&v_)) r.v_ = *b;
    if (const auto* b = std::get_if<std::unique_ptr<Object>>(&v_))
    {
        Object o;
        for (const auto& e : **b) o.emplace(e.first, e.second.CloneByValue());
        r.v_ = std::make_unique<Object>(std::move(o));
    }
    if (const auto* b = std::get_if<std::unique_ptr<List>>(&v_))
    {
        List o;
        for (const auto& e : **b) o.push_back(e.CloneByValue());
        r.v_ = std::make_unique<List>(std::move(o));
    }
    return r;
}
bool operator==(const Any& a, const Any& b)
{
    std::ostringstream x, y;
    a.write(x, 0);
    b.write(y, 0);
    return x.str() == y.str();
}
namespace
{
void str(std::ostream& o, std::string_view s)
{
    o << '"';
    for (const char c : s)
    {
        const auto u = static_cast<unsigned char>(c);
        if (c == '"' || c == '\\')
            o << '\\' << c;
        else if (c == '\n')
            o << "\\n";
        else if (u < 0x20)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", u);
            o << b;
        }
        else
            o << c;
    }
    o << '"';
}
void obj(std::ostream& o, const Object& m, int ind)
{
    o << "{";
    bool first{true};
    for (const auto& e : m)
    {
        o << (first ? "\n" : ",\n") << std::string(static_cast<std::size_t>(ind + 4), ' ');
        first = false;
        str(o, e.first.GetAsStringView());
        o << ": ";
        e.second.write(o, ind + 4);
    }
    o << "\n" << std::string(static_cast<std::size_t>(ind), ' ') << "}";
}
void list(std::ostream& o, const List& m, int ind)
{
    o << "[";
    bool first{true};
    for (const auto& e : m)
    {
        o << (first ? "" : ", ");
        first = false;
        e.write(o, ind + 4);
    }
    o << "]";
}
struct Parser
{
    const char* p;
    const char* e;
    int depth{0};
    bool fail{false};
    void ws()
    {
        while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p;
    }
    bool lit(const char* s)
    {
        const std::size_t n = std::char_traits<char>::length(s);
        if (static_cast<std::size_t>(e - p) >= n && std::string_view(p, n) == s)
        {
            p += n;
            return true;
        }
        return false;
    }
    static void utf8(std::string& r, unsigned c)
    {
        if (c < 0x80)
            r += static_cast<char>(c);
        else if (c < 0x800)
        {
            r += static_cast<char>(0xC0 | (c >> 6));
            r += static_cast<char>(0x80 | (c & 63));
        }
        else
        {
            r += static_cast<char>(0xE0 | (c >> 12));
            r += static_cast<char>(0x80 | ((c >> 6) & 63));
            r += static_cast<char>(0x80 | (c & 63));
        }
    }
    bool string(std::string& r)
    {
        if (p >= e || *p != '"') return false;
        ++p;
        while (p < e && *p != '"')
        {
            if (static_cast<unsigned char>(*p) < 0x20) return false;
            if (*p == '\\')
            {
                if (++p >= e) return false;
                switch (*p)
                {
                    case '"': r += '"'; break;
                    case '\\': r += '\\'; break;
                    case '/': r += '/'; break;
                    case 'b': r += '\b'; break;
                    case 'f': r += '\f'; break;
                    case 'n': r += '\n'; break;
                    case 'r': r += '\r'; break;
                    case 't': r += '\t'; break;
                    case 'u':
                    {
                        if (e - p < 5) return false;
                        unsigned c{0};
                        for (int i = 1; i <= 4; ++i)
                        {
                            const char h = p[i];
                            if (!std::isxdigit(static_cast<unsigned char>(h))) return false;
                            c = c * 16 + static_cast<unsigned>(std::isdigit(static_cast<unsigned char>(h)) ? h - '0' : (h | 32) - 'a' + 10);
                        }
                        utf8(r, c);
                        p += 4;
                        break;
                    }
                    default: return false;
                }
                ++p;
            }
            else
                r += *p++;
        }
        if (p >= e) return false;
        ++p;
        return true;
    }
    bool value(Any& out)
    {
        if (++depth > 200) return false;
        ws();
        if (p >= e) return false;
        bool ok{true};
        if (*p == '{')
        {
            ++p;
            Object o;
            ws();
            if (p < e && *p == '}')
                ++p;
            else
                for (;;)
                {
                    ws();
                    std::string k;
                    if (!string(k)) return false;
                    ws();
                    if (p >= e || *p != ':') return false;
                    ++p;
                    Any v;
                    if (!value(v)) return false;
                    o.emplace(std::move(k), std::move(v));
                    ws();
                    if (p >= e) return false;
                    if (*p == ',')
                    {
                        ++p;
                        continue;
                    }
                    if (*p == '}')
                    {
                        ++p;
                        break;
                    }
                    return false;
                }
            out = std::move(o);
        }
        else if (*p == '[')
        {
            ++p;
            List o;
            ws();
            if (p < e && *p == ']')
                ++p;
            else
                for (;;)
                {
                    Any v;
                    if (!value(v)) return false;
                    o.push_back(std::move(v));
                    ws();
                    if (p >= e) return false;
                    if (*p == ',')
                    {
                        ++p;
                        continue;
                    }
                    if (*p == ']')
                    {
                        ++p;
                        break;
                    }
                    return false;
                }
            out = std::move(o);
        }
        else if (*p == '"')
        {
            std::string s;
            ok = string(s);
            out = std::move(s);
        }
        else if (lit("true"))
            out = true;
        else if (lit("false"))
            out = false;
        else if (lit("null"))
            out = Any{Null{}};
        else
        {
            const char* q = p;
            if (q < e && *q == '-') ++q;
            const char* d = q;
            while (q < e && std::isdigit(static_cast<unsigned char>(*q))) ++q;
            if (q == d || (*d == '0' && q - d > 1)) return false;
            bool integral{true};
            if (q < e && *q == '.')
            {
                integral = false;
                ++q;
                while (q < e && std::isdigit(static_cast<unsigned char>(*q))) ++q;
            }
            if (q < e && (*q == 'e' || *q == 'E'))
            {
                integral = false;
                ++q;
                if (q < e && (*q == '+' || *q == '-')) ++q;
                while (q < e && std::isdigit(static_cast<unsigned char>(*q))) ++q;
            }
            if (integral && *p == '-')
            {
                std::int64_t v{};
                integral = std::from_chars(p, q, v).ec == std::errc{};
                if (integral) out = v;
            }
            else if (integral)
            {
                std::uint64_t v{};
                integral = std::from_chars(p, q, v).ec == std::errc{};
                if (integral) out = v;
            }
            if (!integral)
            {
                out = std::strtod(std::string(p, q).c_str(), nullptr);
            }
            p = q;
        }
        --depth;
        return ok;
    }
};
}  // namespace
void Any::write(std::ostream& o, int ind) const
{
    if (std::holds_alternative<Null>(v_)) o << "null";
    if (const auto* b = std::get_if<bool>(&v_)) o << (*b ? "true" : "false");
    if (const auto* n = std::get_if<Number>(&v_))
    {
        if (n->kind == Number::kU)
            o << n->u;
        else if (n->kind == Number::kS)
            o << n->s;
        else
        {
            char b[40];
            std::snprintf(b, sizeof b, "%.17g", n->d);
            o << b;
        }
    }
    if (const auto* s = std::get_if<std::string>(&v_)) str(o, *s);
    if (const auto* s = std::get_if<std::unique_ptr<Object>>(&v_)) obj(o, **s, ind);
    if (const auto* s = std::get_if<std::unique_ptr<List>>(&v_)) list(o, **s, ind);
}
Result<Any> JsonParser::FromBuffer(std::string_view b) const noexcept
{
    Parser q{b.data(), b.data() + b.size()};
    Any r;
    if (!q.value(r)) return MakeUnexpected(Error::kParsingError);
    q.ws();
    if (q.p != q.e) return MakeUnexpected(Error::kParsingError);
    return r;
}
Result<Any> JsonParser::FromFile(std::string_view path) const noexcept
{
    std::ifstream f{verif::map_path(std::string{path}.c_str())};
    if (!f) return MakeUnexpected(Error::kInvalidFilePath);
    std::stringstream s;
    s << f.rdbuf();
    return FromBuffer(s.str());
}
Result<std::string> JsonWriter::ToBuffer(const Object& m) const
{
    std::ostringstream o;
    obj(o, m, 0);
    return o.str();
}
Result<std::string> JsonWriter::ToBuffer(const List& m) const
{
    std::ostringstream o;
    list(o, m, 0);
    return o.str();
}
Result<std::string> JsonWriter::ToBuffer(const Any& m) const
{
    std::ostringstream o;
    m.write(o, 0);
    return o.str();
}
}  // namespace score::json
