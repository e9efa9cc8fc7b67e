#ifndef VERIF_SHIM_STATIC_VECTOR_HPP
#define VERIF_SHIM_STATIC_VECTOR_HPP
#include <vector>
#include "score/assert.hpp"
namespace score::cpp
{
template <class T, std::size_t N>
class static_vector
{
  public:
    using value_type = T;
    static_vector() { v_.reserve(N); }
    template <class... A>
    T& emplace_back(A&&... a)
    {
        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(v_.size() < N);
        return v_.emplace_back(std::forward<A>(a)...);
    }
    void push_back(T t) { emplace_back(std::move(t)); }
    auto begin() noexcept { return v_.begin(); }
    auto end() noexcept { return v_.end(); }
    auto begin() const noexcept { return v_.begin(); }
    auto end() const noexcept { return v_.end(); }
    std::size_t size() const noexcept { return v_.size(); }
    static constexpr std::size_t capacity() noexcept { return N; }
    bool empty() const noexcept { return v_.empty(); }
    T& operator[](std::size_t i) { return v_.at(i); }
    const T& operator[](std::size_t i) const { return v_.at(i); }

  private:
    std::vector<T> v_;
};
}  // namespace score::cpp
#endif
