// No-op stand-in for log4cplus: the checks drive the real code millions of times
// and its console logging is not a subject of any property.
#ifndef VERIF_LOG4CPLUS
#define VERIF_LOG4CPLUS
#include <string>
#include <memory>
namespace log4cplus {
typedef std::string tstring;
enum { OFF_LOG_LEVEL, ERROR_LOG_LEVEL, WARN_LOG_LEVEL, DEBUG_LOG_LEVEL, INFO_LOG_LEVEL, TRACE_LOG_LEVEL, ALL_LOG_LEVEL };
struct Layout { virtual ~Layout() {} };
struct PatternLayout : Layout { template<class T> PatternLayout(const T&) {} };
struct Appender { virtual ~Appender() {} template<class T> void setName(const T&) {} template<class T> void setLayout(T) {} };
struct ConsoleAppender : Appender { ConsoleAppender(bool = false, bool = false) {} };
struct FileAppender : Appender { template<class... A> FileAppender(A...) {} };
namespace helpers {
template<class T> struct SharedObjectPtr { T *p; SharedObjectPtr(T *q = 0) : p(q) {} SharedObjectPtr(const SharedObjectPtr&o) : p(o.p) {} T *operator->() const { return p; } };
}
typedef helpers::SharedObjectPtr<Appender> SharedAppenderPtr;
struct Logger {
    template<class T> static Logger getInstance(const T&) { return Logger(); }
    static Logger getRoot() { return Logger(); }
    template<class T> void addAppender(const T&) {}
    void setLogLevel(int) {}
};
struct BasicConfigurator { void configure() {} static void doConfigure() {} };
}
#define LOG4CPLUS_TEXT(x) x
#define LOG4CPLUS_ERROR(l, m) do { (void)(l); } while (0)
#define LOG4CPLUS_WARN(l, m) do { (void)(l); } while (0)
#define LOG4CPLUS_INFO(l, m) do { (void)(l); } while (0)
#define LOG4CPLUS_DEBUG(l, m) do { (void)(l); } while (0)
#define LOG4CPLUS_FATAL(l, m) do { (void)(l); } while (0)
#define LOG4CPLUS_TRACE(l, m) do { (void)(l); } while (0)
#endif
