#ifndef VERIF_SHIM_MEMORY_RESOURCE_HPP
#define VERIF_SHIM_MEMORY_RESOURCE_HPP
#include <memory_resource>
namespace score::cpp::pmr
{
using std::pmr::get_default_resource;
using std::pmr::memory_resource;
using std::pmr::monotonic_buffer_resource;
using std::pmr::new_delete_resource;
using std::pmr::null_memory_resource;
template <class T = std::byte>
using polymorphic_allocator = std::pmr::polymorphic_allocator<T>;
using std::pmr::set_default_resource;
}  // namespace score::cpp::pmr
#endif
