#ifndef VERIF_SHIM_LOGGING_H
#define VERIF_SHIM_LOGGING_H
#include "score/mw/log/log_stream.h"
namespace score::mw::log
{
inline LogStream LogFatal(std::string_view c = "") noexcept { return LogStream{LogLevel::kFatal, c}; }
inline LogStream LogError(std::string_view c = "") noexcept { return LogStream{LogLevel::kError, c}; }
inline LogStream LogWarn(std::string_view c = "") noexcept { return LogStream{LogLevel::kWarn, c}; }
inline LogStream LogInfo(std::string_view c = "") noexcept { return LogStream{LogLevel::kInfo, c}; }
inline LogStream LogDebug(std::string_view c = "") noexcept { return LogStream{LogLevel::kDebug, c}; }
inline LogStream LogVerbose(std::string_view c = "") noexcept { return LogStream{LogLevel::kVerbose, c}; }
}  // namespace score::mw::log
#endif
