#pragma once
#include "ILogger.h"
#include "LoggerMessage.h"
namespace logging {
class LoggerRef {
public:
  LoggerRef(ILogger &l, const std::string &) : logger(&l) {}
  template <class C> LoggerMessage operator()(Level, const C &) const { return LoggerMessage(); }
  LoggerMessage operator()(Level = INFO) const { return LoggerMessage(); }
  ILogger &getLogger() const { return *logger; }
private:
  ILogger *logger;
};
}
