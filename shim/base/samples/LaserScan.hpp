#ifndef SHIM_BASE_LASERSCAN_HPP
#define SHIM_BASE_LASERSCAN_HPP
#include <vector>
#include <stdint.h>
#include <base/Time.hpp>
namespace base { namespace samples {
    struct LaserScan
    {
	Time time;
	double start_angle, angular_resolution, speed;
	std::vector<uint32_t> ranges;
	uint32_t minRange, maxRange;
	std::vector<float> remission;
	LaserScan() : start_angle( 0 ), angular_resolution( 0 ), speed( 0 ), minRange( 0 ), maxRange( 0 ) {}
    };
}}
#endif
