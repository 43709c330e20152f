// Stand-in for base::Time. now() reads the simulated clock, never a real one.
#ifndef SHIM_BASE_TIME_HPP
#define SHIM_BASE_TIME_HPP
#include <stdint.h>
#include <ostream>
extern "C" int64_t sim_clock_us();
namespace base
{
    struct Time
    {
	int64_t microseconds;
	Time() : microseconds( 0 ) {}
	explicit Time( int64_t us ) : microseconds( us ) {}
	static Time now() { return Time( sim_clock_us() ); }
	static Time fromMicroseconds( int64_t v ) { return Time( v ); }
	static Time fromMilliseconds( int64_t v ) { return Time( v * 1000 ); }
	static Time fromSeconds( double v ) { return Time( (int64_t)(v * 1e6) ); }
	int64_t toMicroseconds() const { return microseconds; }
	int64_t toMilliseconds() const { return microseconds / 1000; }
	double toSeconds() const { return microseconds / 1e6; }
	bool isNull() const { return microseconds == 0; }
	bool operator<( Time const& o ) const { return microseconds < o.microseconds; }
	bool operator>( Time const& o ) const { return microseconds > o.microseconds; }
	bool operator<=( Time const& o ) const { return microseconds <= o.microseconds; }
	bool operator>=( Time const& o ) const { return microseconds >= o.microseconds; }
	bool operator==( Time const& o ) const { return microseconds == o.microseconds; }
	bool operator!=( Time const& o ) const { return microseconds != o.microseconds; }
	Time operator-( Time const& o ) const { return Time( microseconds - o.microseconds ); }
	Time operator+( Time const& o ) const { return Time( microseconds + o.microseconds ); }
    };
    inline std::ostream& operator<<( std::ostream& os, Time const& t ) { return os << t.microseconds; }
}
#endif
