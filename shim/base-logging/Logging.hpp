#ifndef SHIM_BASE_LOGGING_HPP
#define SHIM_BASE_LOGGING_HPP
#include <ostream>
namespace shim { struct NullLog { template<class T> NullLog& operator<<( const T& ) { return *this; } NullLog& operator<<( std::ostream& (*)(std::ostream&) ) { return *this; } }; }
#define LOG_DEBUG_S shim::NullLog()
#define LOG_INFO_S shim::NullLog()
#define LOG_WARN_S shim::NullLog()
#define LOG_ERROR_S shim::NullLog()
#define LOG_FATAL_S shim::NullLog()
#define LOG_DEBUG( ... )
#define LOG_INFO( ... )
#define LOG_WARN( ... )
#define LOG_ERROR( ... )
#define LOG_FATAL( ... )
#endif
