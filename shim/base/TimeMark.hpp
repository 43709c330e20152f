#ifndef SHIM_BASE_TIMEMARK_HPP
#define SHIM_BASE_TIMEMARK_HPP
#include <base/Time.hpp>
#include <string>
namespace base
{
    struct TimeMark
    {
	std::string label; Time mark;
	explicit TimeMark( const std::string& l ) : label( l ), mark( Time::now() ) {}
	Time passed() const { return Time::now() - mark; }
    };
    inline std::ostream& operator<<( std::ostream& os, TimeMark const& t ) { return os << t.label << t.passed(); }
}
#endif
