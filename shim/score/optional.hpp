#ifndef VERIF_SHIM_OPTIONAL_HPP
#define VERIF_SHIM_OPTIONAL_HPP
#include <optional>
namespace score::cpp
{
template <class T>
using optional = std::optional<T>;
using std::make_optional;
using std::nullopt;
using std::nullopt_t;
}  // namespace score::cpp
#endif
