#ifndef VERIF_SHIM_DTSI_H
#define VERIF_SHIM_DTSI_H
#include <cstddef>
#include <ostream>
#include "score/assert.hpp"
namespace score::memory
{
class DataTypeSizeInfo
{
  public:
    constexpr DataTypeSizeInfo() noexcept = default;
    constexpr DataTypeSizeInfo(std::size_t s, std::size_t a) noexcept : size_{s}, alignment_{a}
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(a != 0U && (a & (a - 1U)) == 0U, "alignment is no power of two");
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(s % a == 0U, "size is no multiple of the alignment");
    }
    constexpr std::size_t Size() const noexcept { return size_; }
    constexpr std::size_t Alignment() const noexcept { return alignment_; }
    friend constexpr bool operator==(const DataTypeSizeInfo& a, const DataTypeSizeInfo& b) noexcept
    {
        return a.size_ == b.size_ && a.alignment_ == b.alignment_;
    }
    friend constexpr bool operator!=(const DataTypeSizeInfo& a, const DataTypeSizeInfo& b) noexcept { return !(a == b); }

  private:
    std::size_t size_{0U};
    std::size_t alignment_{1U};
};
}  // namespace score::memory
#endif
