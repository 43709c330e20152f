#ifndef SHIM_BASE_DISTANCEIMAGE_HPP
#define SHIM_BASE_DISTANCEIMAGE_HPP
#include <vector>
#include <stdint.h>
#include <base/Time.hpp>
#include <base/Eigen.hpp>
namespace base { namespace samples {
    struct DistanceImage
    {
	Time time;
	uint16_t width, height;
	float scale_x, scale_y, center_x, center_y;
	std::vector<float> data;
	DistanceImage() : width( 0 ), height( 0 ), scale_x( 0 ), scale_y( 0 ), center_x( 0 ), center_y( 0 ) {}
	bool getScenePoint( size_t x, size_t y, Eigen::Vector3d& p ) const
	{
	    float d = data[y * width + x];
	    p = Eigen::Vector3d( x * scale_x + center_x, y * scale_y + center_y, 1 ) * d;
	    return d == d;
	}
    };
}}
#endif
