#ifndef SHIM_BASE_RBS_HPP
#define SHIM_BASE_RBS_HPP
#include <base/Eigen.hpp>
#include <base/Pose.hpp>
#include <base/Time.hpp>
namespace base { namespace samples {
    struct RigidBodyState
    {
	Time time;
	Position position;
	Matrix3d cov_position;
	Orientation orientation;
	Matrix3d cov_orientation;
	RigidBodyState() : position( Position::Zero() ), cov_position( Matrix3d::Zero() ),
	    orientation( Orientation::Identity() ), cov_orientation( Matrix3d::Zero() ) {}
	operator Eigen::Affine3d() const
	{
	    Eigen::Affine3d t( Eigen::Quaterniond( orientation ).toRotationMatrix() );
	    t.pretranslate( Eigen::Vector3d( position ) );
	    return t;
	}
    };
}}
#endif
