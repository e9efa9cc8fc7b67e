#ifndef VERIF_SHIM_OBJECTSEAM_H
#define VERIF_SHIM_OBJECTSEAM_H
namespace score::os
{
template <class T>
class ObjectSeam
{
  public:
    static void set_testing_instance(T& t) noexcept { slot() = &t; }
    static void restore_instance() noexcept { slot() = nullptr; }

  protected:
    static T& select_instance(T& d) noexcept { return slot() != nullptr ? *slot() : d; }

  private:
    static T*& slot() noexcept
    {
        static T* p{nullptr};
        return p;
    }
};
}  // namespace score::os
#endif
