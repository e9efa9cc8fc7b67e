#ifndef VERIF_SHIM_LOG_TYPES_H
#define VERIF_SHIM_LOG_TYPES_H
#include <cstdint>
#include <string_view>
namespace score::mw::log
{
enum class LogLevel : std::uint8_t
{
    kOff = 0,
    kFatal = 1,
    kError = 2,
    kWarn = 3,
    kInfo = 4,
    kDebug = 5,
    kVerbose = 6
};
template <class T>
struct LogHex
{
    T value;
};
template <class T>
LogHex(T) -> LogHex<T>;
template <class T>
struct LogBin
{
    T value;
};
template <class T>
LogBin(T) -> LogBin<T>;
using LogHex8 = LogHex<std::uint8_t>;
using LogHex16 = LogHex<std::uint16_t>;
using LogHex32 = LogHex<std::uint32_t>;
using LogHex64 = LogHex<std::uint64_t>;
class Recorder;
}  // namespace score::mw::log
#endif
