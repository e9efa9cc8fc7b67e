#ifndef VERIF_SHIM_CTW_H
#define VERIF_SHIM_CTW_H
#include <string>
namespace score::safecpp
{
template <class C>
struct char_traits_wrapper
{
    using traits_type = std::char_traits<C>;
};
}  // namespace score::safecpp
#endif
