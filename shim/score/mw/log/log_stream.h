#ifndef VERIF_SHIM_LOG_STREAM_H
#define VERIF_SHIM_LOG_STREAM_H
#include <cstdint>
#include <iostream>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include "score/mw/log/log_types.h"
#include "verif_seam.h"
namespace score::mw::log
{
namespace detail
{
template <class S, class T, class = void>
struct ostreamable : std::false_type
{
};
template <class S, class T>
struct ostreamable<S, T, std::void_t<decltype(std::declval<S&>() << std::declval<const T&>())>> : std::true_type
{
};
}  // namespace detail
// The text is built (so that the sanitizers see the reads) and dropped, unless VERIF_LOG is set.
class LogStream
{
  public:
    explicit LogStream(LogLevel l, std::string_view ctx = "") : l_{l}, s_{std::make_unique<std::ostringstream>()}
    {
        verif::g_log_lines.fetch_add(1, std::memory_order_relaxed);
        if (l == LogLevel::kFatal)
        {
            verif::g_log_fatal.fetch_add(1, std::memory_order_relaxed);
        }
        *s_ << "[" << ctx << "] ";
    }
    LogStream(LogStream&&) noexcept = default;
    LogStream& operator=(LogStream&&) noexcept = default;
    LogStream(const LogStream&) = delete;
    ~LogStream() { verif_sink(); }
    LogStream& operator<<(bool v) { return put(v ? "true" : "false"); }
    LogStream& operator<<(char v) { return put(v); }
    LogStream& operator<<(std::int8_t v) { return put(static_cast<int>(v)); }
    LogStream& operator<<(std::uint8_t v) { return put(static_cast<int>(v)); }
    LogStream& operator<<(std::int16_t v) { return put(v); }
    LogStream& operator<<(std::uint16_t v) { return put(v); }
    LogStream& operator<<(std::int32_t v) { return put(v); }
    LogStream& operator<<(std::uint32_t v) { return put(v); }
    LogStream& operator<<(std::int64_t v) { return put(v); }
    LogStream& operator<<(std::uint64_t v) { return put(v); }
    LogStream& operator<<(long long v) { return put(v); }
    LogStream& operator<<(unsigned long long v) { return put(v); }
    LogStream& operator<<(float v) { return put(v); }
    LogStream& operator<<(double v) { return put(v); }
    LogStream& operator<<(std::string_view v) { return put(v); }
    LogStream& operator<<(const std::string& v) { return put(std::string_view{v}); }
    LogStream& operator<<(const char* v) { return put(v != nullptr ? v : "(null)"); }
    LogStream& operator<<(const void* v) { return put(v); }
    template <class T>
    LogStream& operator<<(const LogHex<T>& v)
    {
        return put(v.value);
    }
    std::ostream& raw() { return *s_; }

  private:
    template <class T>
    LogStream& put(const T& v)
    {
        if (s_)
        {
            *s_ << v;
        }
        return *this;
    }
    void verif_sink();
    LogLevel l_;
    std::unique_ptr<std::ostringstream> s_;
};
template <class T,
          std::enable_if_t<std::is_same_v<std::decay_t<T>, LogStream>, int> = 0,
          class U,
          std::enable_if_t<!detail::ostreamable<LogStream, U>::value && detail::ostreamable<std::ostream, U>::value, int> = 0>
LogStream& operator<<(T&& s, const U& v)
{
    s.raw() << v;
    return s;
}
template <class U, std::enable_if_t<detail::ostreamable<LogStream, U>::value, int> = 0>
LogStream& operator<<(LogStream&& s, const U& v)
{
    return s << v;
}
class LogRecorderStub
{
};
inline LogRecorderStub& GetDefaultLogRecorder() noexcept
{
    static LogRecorderStub r;
    return r;
}
inline LogRecorderStub& GetFallbackLogRecorder() noexcept
{
    return GetDefaultLogRecorder();
}
}  // namespace score::mw::log
#endif
