#ifndef SHIM_BASE_FLOAT_HPP
#define SHIM_BASE_FLOAT_HPP
#include <limits>
#include <cmath>
namespace base
{
    template<typename T> T unset() { return std::numeric_limits<T>::quiet_NaN(); }
    template<typename T> bool isUnset( T v ) { return std::isnan( v ); }
    template<typename T> T unknown() { return std::numeric_limits<T>::quiet_NaN(); }
    template<typename T> bool isUnknown( T v ) { return std::isnan( v ); }
    template<typename T> T infinity() { return std::numeric_limits<T>::infinity(); }
    template<typename T> bool isInfinity( T v ) { return std::isinf( v ); }
    template<typename T> bool isNaN( T v ) { return std::isnan( v ); }
}
#endif
