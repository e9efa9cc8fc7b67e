// Stand-in for score_baselibs (see /verif/DESIGN.md, "The stand-in for score_baselibs").
#ifndef VERIF_SHIM_ASSERT_HPP
#define VERIF_SHIM_ASSERT_HPP
#include <cstdint>
namespace score::cpp
{
struct handler_parameters
{
    const char* file{nullptr};
    int line{0};
    const char* function{nullptr};
    const char* condition{nullptr};
    const char* message{nullptr};
};
using assertion_handler = void (*)(const handler_parameters&);
void set_assertion_handler(assertion_handler h) noexcept;
namespace detail
{
[[noreturn]] void contract_violation(const char* file, int line, const char* fn, const char* cond, const char* msg);
}
}  // namespace score::cpp
#define VERIF_SHIM_CHECK(cond, msg)                                                                        \
    (static_cast<bool>(cond)                                                                               \
         ? static_cast<void>(0)                                                                            \
         : ::score::cpp::detail::contract_violation(__FILE__, __LINE__, __func__, #cond, msg))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(...) VERIF_SHIM_CHECK((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(c, m) VERIF_SHIM_CHECK(c, m)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT(...) VERIF_SHIM_CHECK((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_MESSAGE(c, m) VERIF_SHIM_CHECK(c, m)
#ifdef NDEBUG
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(...) static_cast<void>(0)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(c, m) static_cast<void>(0)
#else
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(...) VERIF_SHIM_CHECK((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(c, m) VERIF_SHIM_CHECK(c, m)
#endif
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION(...) VERIF_SHIM_CHECK((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_MESSAGE(c, m) VERIF_SHIM_CHECK(c, m)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(...) VERIF_SHIM_CHECK((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(c, m) VERIF_SHIM_CHECK(c, m)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG(...) VERIF_SHIM_CHECK((__VA_ARGS__), "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG_MESSAGE(c, m) VERIF_SHIM_CHECK(c, m)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE() \
    ::score::cpp::detail::contract_violation(__FILE__, __LINE__, __func__, "unreachable", "")
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(m) \
    ::score::cpp::detail::contract_violation(__FILE__, __LINE__, __func__, "unreachable", m)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_PRD() SCORE_LANGUAGE_FUTURECPP_UNREACHABLE()
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_PRD_MESSAGE(m) SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(m)
#endif
