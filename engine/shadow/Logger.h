// Model of the repository's Logger used while lowering to IR for the abstract
// interpreter: messages below ERROR have no effect, ERROR/FATAL and failed
// assertions end the analysed path.
#ifndef HPGEM_KERNEL_LOGGER_H
#define HPGEM_KERNEL_LOGGER_H
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <cstdlib>
#ifndef HPGEM_ASSERTS
#define HPGEM_ASSERTS true
#endif
#ifndef HPGEM_LOGLEVEL
#define HPGEM_LOGLEVEL Log::DEFAULT
#endif
extern "C" void vt_abort() __attribute__((noreturn));
namespace hpgem {
enum class Log : signed char {
    FATAL = -20,
    ERROR = -15,
    WARN = -10,
    INFO = -5,
    DEFAULT = 0,
    VERBOSE = 5,
    DEBUG = 10
};
constexpr bool operator<=(const Log lhs, const Log rhs) {
    return ((static_cast<signed char>(lhs)) <= (static_cast<signed char>(rhs)));
}
class LoggerOutput {
   public:
    std::function<void(std::string, std::string)> onFatal, onError, onWarn,
        onInfo, onVerbose, onDebug, onFail;
};
inline LoggerOutput theLoggerOutput;
inline LoggerOutput* loggerOutput = &theLoggerOutput;
template <Log L = Log::DEFAULT, bool ASSERTS = HPGEM_ASSERTS>
class Logger;
template <Log Level>
class LL {
   public:
};
extern LL<Log::FATAL> FATAL;
extern LL<Log::ERROR> ERROR;
extern LL<Log::WARN> WARN;
extern LL<Log::INFO> INFO;
extern LL<Log::DEFAULT> DEFAULT;
extern LL<Log::VERBOSE> VERBOSE;
extern LL<Log::DEBUG> DEBUG;
template <Log L, bool ASSERTS>
class Logger {
   public:
    Logger() {}
    Logger(const char*) {}
    Logger(const std::string&) {}
    template <Log LOGLEVEL, typename F, typename... Args>
    void operator()(const LL<LOGLEVEL>, F&&, Args&&...) {
        if (LOGLEVEL <= Log::ERROR) vt_abort();
    }
    template <typename F, typename... Args>
    void assert_debug(bool assertion, F&&, Args&&...) {
        if (!assertion) vt_abort();
    }
    template <typename F, typename... Args>
    void assert_always(bool assertion, F&&, Args&&...) {
        if (!assertion) vt_abort();
    }
    template <typename F, typename... Args>
    void fail [[noreturn]] (F&&, Args&&...) {
        vt_abort();
    }
    template <typename... Args>
    void log(const Log loglevel, const std::string&, Args&&...) {
        if (loglevel <= Log::ERROR) vt_abort();
    }
    template <typename T>
    void suppressWarnings(T body) {
        body();
    }
};
extern Logger<HPGEM_LOGLEVEL> logger;
inline void loggerStackTrace() {}
}  // namespace hpgem
#endif
