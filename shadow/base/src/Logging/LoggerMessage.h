#pragma once
#include "ILogger.h"
namespace logging {
class LoggerMessage {
public:
  template <class T> LoggerMessage &operator<<(const T &) { return *this; }
  LoggerMessage &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
  LoggerMessage &operator<<(std::ios_base &(*)(std::ios_base &)) { return *this; }
  LoggerMessage &flush() { return *this; }
};
}
