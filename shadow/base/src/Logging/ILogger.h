#pragma once
// Shadow of Logging/ILogger.h: log formatting has an empty body in the encoded build.
#include <string>
#include <array>
#include <iostream>
#undef ERROR
namespace logging {
enum Level { FATAL = 0, ERROR = 1, WARNING = 2, INFO = 3, DEBUGGING = 4, TRACE = 5 };
struct NoColor { operator std::string() const { return std::string(); } };
static const NoColor BLUE = {}, GREEN = {}, RED = {}, YELLOW = {}, WHITE = {}, CYAN = {}, MAGENTA = {}, BRIGHT_BLUE = {}, BRIGHT_GREEN = {}, BRIGHT_RED = {}, BRIGHT_YELLOW = {}, BRIGHT_WHITE = {}, BRIGHT_CYAN = {}, BRIGHT_MAGENTA = {}, DEFAULT = {};
class ILogger { public: void *dummy; };
#ifndef ENDL
#define ENDL std::endl
#endif
}
