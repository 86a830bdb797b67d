// Minimal stand-in for FairLogger (not installed here): enough of its interface for FairMQ's
// sources to parse and compile. Output is discarded.
#ifndef VERIF_STUB_FAIRLOGGER_H
#define VERIF_STUB_FAIRLOGGER_H
#include <array>
#include <chrono>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <ctime>
#include <cstdio>

namespace fair {
enum class Verbosity : int { verylow, low, medium, high, veryhigh, user1, user2, user3, user4 };
enum class Severity : int { nolog, fatal, error, alarm, important, warn, state, info, detail, debug, debug1, debug2, debug3, debug4, trace, warning = warn };
struct VerbositySpec
{
    enum class Info : int { process_name, timestamp, timestamp_us, severity, file_line_function, file, line };
    template<typename... T>
    static VerbositySpec Make(T...) { return {}; }
};
struct Logger
{
    template<typename T>
    Logger& operator<<(const T&) { return *this; }
    Logger& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
    static void SetConsoleColor(bool = true) {}
    static void SetConsoleSeverity(const std::string&) {}
    static void SetConsoleSeverity(Severity) {}
    static void SetFileSeverity(const std::string&) {}
    static void SetFileSeverity(Severity) {}
    static void SetVerbosity(const std::string&) {}
    static void SetVerbosity(Verbosity) {}
    static std::string InitFileSink(const std::string&, const std::string& f, bool = true) { return f; }
    static std::string InitFileSink(Severity, const std::string& f, bool = true) { return f; }
    static void CycleConsoleSeverityUp() {}
    static void CycleConsoleSeverityDown() {}
    static void CycleVerbosityUp() {}
    static void CycleVerbosityDown() {}
    static void DefineVerbosity(const std::string&, VerbositySpec) {}
    static void DefineVerbosity(Verbosity, VerbositySpec) {}
    static bool Logging(Severity) { return true; }
    static bool Logging(const std::string&) { return true; }
    static Severity GetConsoleSeverity() { return Severity::info; }
    static Verbosity GetVerbosity() { return Verbosity::low; }
    static std::string SeverityName(Severity) { return ""; }
    static std::string VerbosityName(Verbosity) { return ""; }
    static void OnFatal(std::function<void()>) {}
};
}   // namespace fair
using FairLogger = fair::Logger;
#define LOG(severity) fair::Logger()
#define LOGV(severity, verbosity) fair::Logger()
#define LOGD(severity, file, line, f) fair::Logger()
#define LOGP(severity, ...) fair::Logger()
#define LOGF(severity, ...) fair::Logger()
#define LOG_IF(severity, condition) if (!(condition)) ; else fair::Logger()
#endif
