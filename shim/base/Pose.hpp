// Stand-in for base/Pose.hpp (stub).
#ifndef SHIM_BASE_POSE_HPP
#define SHIM_BASE_POSE_HPP
#include <base/Eigen.hpp>
#include <base/Float.hpp>
#include <cmath>
namespace base
{
    typedef Vector3d Position;
    typedef Vector2d Position2D;
    typedef Quaterniond Orientation;
    typedef double Orientation2D;
    struct Pose
    {
	Position position;
	Orientation orientation;
	Pose() : position( Position::Zero() ), orientation( Orientation::Identity() ) {}
	Pose( Position const& p, Orientation const& o ) : position( p ), orientation( o ) {}
	template<int M, int O> explicit Pose( const Eigen::Transform<double,3,M,O>& t )
	    : position( t.translation() ), orientation( Eigen::Quaterniond( Eigen::Matrix3d( t.linear() ) ) ) {}
	template<class D> explicit Pose( const Eigen::MatrixBase<D>& v )
	    : position( v.template tail<3>() )
	{
	    Eigen::Vector3d r( v.template head<3>() );
	    double n = r.norm();
	    orientation = n > 1e-12 ? Eigen::Quaterniond( Eigen::AngleAxisd( n, r / n ) ) : Eigen::Quaterniond::Identity();
	}
	double getYaw() const
	{
	    Eigen::Matrix3d m = Eigen::Quaterniond( orientation ).toRotationMatrix();
	    return std::atan2( m(1,0), m(0,0) );
	}
	Affine3d toTransform() const
	{
	    Affine3d t( orientation );
	    t.pretranslate( position );
	    return t;
	}
	Vector6d toVector6d() const
	{
	    Eigen::AngleAxisd aa( (Eigen::Quaterniond( orientation )) );
	    Vector6d r;
	    r.head<3>() = aa.axis() * aa.angle();
	    r.tail<3>() = position;
	    return r;
	}
    };
    struct Pose2D
    {
	Position2D position;
	Orientation2D orientation;
	Pose2D() : position( Position2D::Zero() ), orientation( 0 ) {}
	Pose2D( Position2D const& p, Orientation2D o ) : position( p ), orientation( o ) {}
	Pose2D( Pose const& p ) : position( p.position.head<2>() ), orientation( p.getYaw() ) {}
    };
}
#endif
