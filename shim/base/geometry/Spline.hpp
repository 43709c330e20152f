#ifndef SHIM_BASE_SPLINE_HPP
#define SHIM_BASE_SPLINE_HPP
#include <vector>
#include <base/Eigen.hpp>
#include <base/Float.hpp>
namespace base { namespace geometry {
    template<int DIM> struct Spline
    {
	typedef Eigen::Matrix<double, DIM, 1, Eigen::DontAlign> vector_t;
	std::vector<vector_t> points;
	std::vector<vector_t> sample( double ) const { return points; }
	void interpolate( std::vector<vector_t> const& p ) { points = p; }
    };
    typedef Spline<3> Spline3;
}}
#endif
