#ifndef VERIF_SHIM_JSON_PARSER_H
#define VERIF_SHIM_JSON_PARSER_H
#include <string>
#include <string_view>
#include "score/json/internal/model/any.h"
namespace score::json
{
class JsonParser
{
  public:
    Result<Any> FromFile(std::string_view path) const noexcept;
    Result<Any> FromBuffer(std::string_view buffer) const noexcept;
};
inline namespace literals
{
inline Any operator""_json(const char* s, std::size_t n)
{
    return std::move(JsonParser{}.FromBuffer({s, n})).value();
}
}  // namespace literals
}  // namespace score::json
#endif
