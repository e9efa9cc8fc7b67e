#ifndef VERIF_SHIM_JSON_WRITER_H
#define VERIF_SHIM_JSON_WRITER_H
#include <string>
#include "score/json/json_parser.h"
namespace score::json
{
class JsonWriter
{
  public:
    Result<std::string> ToBuffer(const Object& o) const;
    Result<std::string> ToBuffer(const List& o) const;
    Result<std::string> ToBuffer(const Any& o) const;
};
}  // namespace score::json
#endif
