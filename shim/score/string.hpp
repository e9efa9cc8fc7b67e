#ifndef VERIF_SHIM_STRING_HPP
#define VERIF_SHIM_STRING_HPP
#include <string>
#include "score/memory_resource.hpp"
namespace score::cpp::pmr
{
using std::pmr::string;
}
#endif
