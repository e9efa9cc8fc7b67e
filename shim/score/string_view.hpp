#ifndef VERIF_SHIM_STRING_VIEW_HPP
#define VERIF_SHIM_STRING_VIEW_HPP
#include <string_view>
namespace score::cpp
{
using string_view = std::string_view;
}
#endif
