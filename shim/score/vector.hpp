#ifndef VERIF_SHIM_VECTOR_HPP
#define VERIF_SHIM_VECTOR_HPP
#include <vector>
#include "score/memory_resource.hpp"
namespace score::cpp::pmr
{
using std::pmr::vector;
}
#endif
