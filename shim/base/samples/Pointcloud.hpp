#ifndef SHIM_BASE_POINTCLOUD_HPP
#define SHIM_BASE_POINTCLOUD_HPP
#include <vector>
#include <base/Eigen.hpp>
#include <base/Time.hpp>
namespace base { namespace samples {
    struct Pointcloud { Time time; std::vector<Vector3d> points; std::vector<Vector4d> colors; };
}}
#endif
