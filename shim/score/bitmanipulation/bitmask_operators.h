#ifndef VERIF_SHIM_BITMASK_H
#define VERIF_SHIM_BITMASK_H
#include <type_traits>
namespace score::enable_bitmask
{
}
namespace score
{
template <class E>
struct enable_bitmask_operators : std::false_type
{
};
}  // namespace score
#endif
