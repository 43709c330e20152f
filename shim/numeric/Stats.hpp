#ifndef SHIM_NUMERIC_STATS_HPP
#define SHIM_NUMERIC_STATS_HPP
#include <Eigen/Core>
namespace numeric
{
    template<class V> struct Stats
    {
	enum { D = V::RowsAtCompileTime };
	typedef Eigen::Matrix<double, D, D> M;
	V m; M s; double w; size_t c;
	Stats() : m( V::Zero() ), s( M::Zero() ), w( 0 ), c( 0 ) {}
	void update( const V& v, double weight = 1.0 )
	{
	    w += weight; c++;
	    V d = v - m;
	    m += d * ( weight / w );
	    s += weight * d * ( v - m ).transpose();
	}
	V mean() const { return m; }
	M var() const { return w > 0 ? M( s / w ) : M( M::Zero() ); }
	double sumWeights() const { return w; }
	size_t n() const { return c; }
    };
}
#endif
