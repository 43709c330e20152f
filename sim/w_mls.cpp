// C13: multi-level surface grids and list grids against an executable model of lists of patches.
#include "world.hpp"
#include <functional>
#include <sstream>
#include <math.h>

using namespace sim;
typedef envire::SurfacePatch P;
typedef std::pair<long,long> XY;

namespace
{
typedef std::vector<P> Cell;
typedef std::map<XY,Cell> Cells;              // only occupied cells
struct GridM
{
    long w, h; double sx, sy, ox, oy; Cells cells; std::set<XY> touched; bool index, color; double gap, thick; int model;
    GridM() : w( 0 ), h( 0 ), sx( 1 ), sy( 1 ), ox( 0 ), oy( 0 ), index( false ), color( false ), gap( 1.0f ), thick( 0.05f ), model( 0 ) {}
    size_t size() const { size_t n = 0; for( Cells::const_iterator i = cells.begin(); i != cells.end(); ++i ) n += i->second.size(); return n; }
    void touchAll() { for( long x=0;x<w;x++ ) for( long y=0;y<h;y++ ) touched.insert( XY( x, y ) ); }
};
// ---------------------------------------------------------------- reference for merging two patches
double g_margin;                               // how close any decision was to its threshold
bool less( double a, double b ) { double d = fabs( a - b ) / ( 1 + fabs( a ) + fabs( b ) ); if( a != b && d < g_margin ) g_margin = d; return a < b; }
bool lap( float a1, float a2, float b1, float b2 )
{
    bool c = less( a1, b2 ), d = less( b2, a2 ), e = less( a1, b1 ), f = less( b1, a2 );
    return ( c && d ) || ( e && f );
}
void setType( P& p, int t ) { if( t == 0 ) p.setVertical(); else if( t == 1 ) p.setHorizontal(); else p.setNegative(); }
int type( const P& p ) { return p.isVertical() ? 0 : p.isHorizontal() ? 1 : p.isNegative() ? 2 : 9; }
void fitMean( P& p )
{
    p.mean = p.plane.z / p.plane.n;
    if( p.n > 1 )
    {
	float norm = p.plane.n / ( (double)p.plane.n * p.plane.n - p.normsq );
	float var = ( p.plane.zz - (double)p.mean * p.mean * ( p.plane.n - 2.0 ) ) * norm - p.n / p.plane.n;
	p.stdev = sqrt( std::max( 1e-6f, var ) );
    }
    else p.stdev = sqrt( 1.0 / p.plane.n );
}
void fitPlane( P& p )
{
    if( p.n <= 3 ) { fitMean( p ); return; }
    numeric::PlaneFitting<float>::Result r = p.plane.solve();
    p.mean = r.coeffs[2];
    float norm = p.plane.n / ( (double)p.plane.n * p.plane.n - 3.0 * p.normsq );
    p.stdev = sqrt( std::max( 1e-6f, (float)( r.residuals * norm ) ) );
}
bool joinKalman( P& p, P& o, double thick, double gap )
{
    const double dev = sqrt( p.stdev * p.stdev + o.stdev * o.stdev );
    bool near1 = less( p.mean - p.height - gap - dev, o.mean ), near2 = less( o.mean - o.height, p.mean + gap + dev );
    if( !near1 || !near2 ) return false;
    if( type( p ) == 1 && type( o ) == 1 )
    {
	bool a = less( p.mean - p.height - thick - dev, o.mean ), b = less( o.mean, p.mean + thick + dev );
	if( a && b )
	{
	    double v = p.stdev * p.stdev, mv = o.stdev * o.stdev, g = v / ( v + mv ); if( g != g ) g = 0.5;
	    p.mean = p.mean + g * ( o.mean - p.mean ); p.stdev = sqrt( ( 1 - g ) * v );
	    p.n += o.n; return true;
	}
	p.setVertical();
    }
    if( type( p ) == 1 && type( o ) == 0 ) p.setVertical();
    else if( ( type( p ) == 2 ) != ( type( o ) == 2 ) )
    {
	if( p.update_idx == o.update_idx ) return false;
	P& older( p.update_idx < o.update_idx ? p : o ); P& newer( p.update_idx < o.update_idx ? o : p );
	bool top = less( older.mean, newer.mean ), bottom = less( newer.mean - newer.height, older.mean - older.height );
	if( top && bottom ) { p = newer; return true; }
	bool below = less( newer.mean, older.mean ), inside = less( newer.mean - newer.height, older.mean );
	if( below ) older.height = older.mean - newer.mean;
	else if( inside ) { double m = newer.mean - newer.height; older.height -= older.mean - m; older.mean = m; }
	return false;
    }
    if( less( p.mean, o.mean ) ) { p.height += o.mean - p.mean; p.mean = o.mean; p.stdev = o.stdev; }
    const double omin = o.mean - o.height, pmin = p.mean - p.height;
    if( less( omin, pmin ) ) p.height = p.mean - omin;
    p.n += o.n;
    return true;
}
bool join( P& p, P& o, const GridM& g )
{
    if( g.model == MLSConfiguration::KALMAN ) { if( !joinKalman( p, o, (float)g.thick, (float)g.gap ) ) return false; }
    else
    {
	if( !lap( p.min - (float)g.gap, p.max + (float)g.gap, o.min, o.max ) ) return false;
	p.n += o.n; p.normsq += o.normsq; p.min = std::min( p.min, o.min ); p.max = std::max( p.max, o.max );
	if( g.model == MLSConfiguration::SUM ) { p.plane.z += o.plane.z; p.plane.zz += o.plane.zz; p.plane.n += o.plane.n; fitMean( p ); }
	else { p.plane.update( o.plane ); fitPlane( p ); }
    }
    p.update_idx = std::max( p.update_idx, o.update_idx );
    for( int i=0;i<3;i++ ) p.color[i] = ( p.color[i] + o.color[i] ) / 2;
    return true;
}
void touch( GridM& g, const XY& c ) { g.touched.insert( c ); }
void modelUpdate( GridM& g, const XY& c, P o )
{
    Cell& l = g.cells[c];
    std::vector<size_t> hit;
    for( size_t i=0;i<l.size();i++ ) if( join( l[i], o, g ) ) hit.push_back( i );
    if( hit.empty() ) { l.insert( l.begin(), o ); touch( g, c ); return; }
    std::vector<bool> gone( l.size(), false );
    while( !hit.empty() )
    {
	size_t first = hit[0]; std::vector<size_t> rest;
	for( size_t k=1;k<hit.size();k++ ) if( join( l[first], l[hit[k]], g ) ) gone[hit[k]] = true; else rest.push_back( hit[k] );
	hit = rest;
    }
    Cell keep; for( size_t i=0;i<l.size();i++ ) if( !gone[i] ) keep.push_back( l[i] );
    l = keep;
}
// ---------------------------------------------------------------- comparison
bool closeTo( double a, double b, double tol ) { if( a == b || ( a != a && b != b ) ) return true; return fabs( a - b ) <= tol * ( 1 + fabs( a ) + fabs( b ) ); }
bool similar( const P& a, const P& b, int model )
{
    double fit = model == MLSConfiguration::KALMAN ? 1e-4 : 5e-3;
    if( type( a ) != type( b ) || a.update_idx != b.update_idx ) return false;
    for( int i=0;i<3;i++ ) if( abs( (int)a.color[i] - (int)b.color[i] ) > 2 ) return false;
    if( !( model == MLSConfiguration::SLOPE && a.n > 3 ) )      // an ill-conditioned plane has no reliable mean
	if( !closeTo( a.mean, b.mean, fit ) || !closeTo( a.stdev, b.stdev, fit ) ) return false;
    double u[] = { a.height, a.min, a.max, a.n, a.normsq, a.plane.x, a.plane.y, a.plane.z, a.plane.xx, a.plane.yy, a.plane.xy, a.plane.xz, a.plane.yz, a.plane.zz, a.plane.n };
    double v[] = { b.height, b.min, b.max, b.n, b.normsq, b.plane.x, b.plane.y, b.plane.z, b.plane.xx, b.plane.yy, b.plane.xy, b.plane.xz, b.plane.yz, b.plane.zz, b.plane.n };
    for( int i=0;i<15;i++ ) if( !closeTo( u[i], v[i], 1e-4 ) ) return false;
    return true;
}
struct Obj { MLSGrid* g; MLSGrid::Ptr hold; GridM m; Obj() : g( 0 ) {} };
struct LObj { ListGrid<P>* g; long w, h; Cells cells; LObj() : g( 0 ), w( 0 ), h( 0 ) {} };

std::string show( const P& p ) { return fmt( "%c mean %.6g stdev %.6g height %.6g n %.4g idx %zu colour %d,%d,%d sums %.5g %.5g", "VHN?"[std::min( type( p ), 3 )], p.mean, p.stdev, p.height, p.n, p.update_idx, p.color[0], p.color[1], p.color[2], p.plane.z, p.plane.n ); }
template<class G> void readCells( const G* g, long w, long h, Cells& out, size_t limit )
{
    size_t n = 0;
    for( long x=0;x<w;x++ ) for( long y=0;y<h;y++ )
    {
	Cell c;
	for( typename G::const_iterator it = g->beginCell( x, y ); it != g->endCell(); it++ )
	{ if( ++n > limit ) violation( "endless-cell", fmt( "cell %ld,%ld holds more patches than were ever inserted", x, y ) ); c.push_back( *it ); }
	if( !c.empty() ) out[XY( x, y )] = c;
    }
}
void compareCells( const Cells& got, const Cells& want, const std::string& who, int model )
{
    for( int pass=0;pass<2;pass++ )
    {
	const Cells& a = pass ? want : got; const Cells& b = pass ? got : want;
	for( Cells::const_iterator i = a.begin(); i != a.end(); ++i )
	{
	    if( i->second.empty() ) continue;
	    Cells::const_iterator j = b.find( i->first );
	    size_t n = j == b.end() ? 0 : j->second.size();
	    if( i->second.size() != n )
		violation( "wrong-patches", fmt( "%s cell %ld,%ld holds %zu patches instead of %zu", who.c_str(), i->first.first, i->first.second, pass ? n : i->second.size(), pass ? i->second.size() : n ) );
	    for( size_t k=0;k<n;k++ )
		if( model < 0 ? patchHash( i->second[k] ) != patchHash( j->second[k] ) : !similar( i->second[k], j->second[k], model ) )
		    violation( "wrong-patches", fmt( "%s cell %ld,%ld patch %zu is (%s) instead of (%s)", who.c_str(), i->first.first, i->first.second, k, show( pass ? j->second[k] : i->second[k] ).c_str(), show( pass ? i->second[k] : j->second[k] ).c_str() ) );
	}
    }
}
class Run
{
    const Plan& plan; Obj o[4]; LObj l[2]; size_t inserted;
    bool threw; std::string err;
public:
    explicit Run( const Plan& p ) : plan( p ), inserted( 0 ), threw( false ) {}
    bool call( const Op& op, std::function<void()> f )
    {
	err.clear(); bool ok = false;
	if( op.a[4] ) memFailAt( op.a[4], op.a[5] );
	try { LibScope ls; f(); ok = true; } catch( std::exception& e ) { HarnessScope hs; err = e.what(); }
	threw = !ok;
	bool fired = memFailFired();
	memFailOff();
	if( fired ) count( "fault.alloc_failure" );
	if( fired && ok ) count( "oracle.failure_survived" );
	if( threw && !fired ) violation( "refused-valid-operation", op.kind + " was refused: " + err );
	return ok;
    }
    void checkMls( size_t i, int model, const char* when )
    {
	Obj& ob = o[i]; GridM& m = ob.m; std::string who = fmt( "%s: grid %zu", when, i );
	Cells got; readCells( ob.g, m.w, m.h, got, inserted + 8 );
	compareCells( got, m.cells, who, model );
	m.cells = got;
	audit( i, when );
    }
    void audit( size_t i, const char* when )
    {
	Obj& ob = o[i]; GridM& m = ob.m; std::string who = fmt( "%s: grid %zu", when, i );
	if( (long)ob.g->getCellSizeX() != m.w || (long)ob.g->getCellSizeY() != m.h || ob.g->getScaleX() != m.sx || ob.g->getScaleY() != m.sy || ob.g->getOffsetX() != m.ox || ob.g->getOffsetY() != m.oy )
	    violation( "wrong-geometry", who + " reports another size, scale or offset" );
	if( ob.g->getConfig().gapSize != (float)m.gap || ob.g->getConfig().thickness != (float)m.thick || ob.g->getConfig().useColor != m.color || (int)ob.g->getConfig().updateModel != m.model )
	    violation( "wrong-config", who + " reports another configuration" );
	if( ob.g->getCellCount() != m.size() ) violation( "wrong-count", fmt( "%s reports %zu patches but holds %zu", who.c_str(), ob.g->getCellCount(), m.size() ) );
	if( ob.g->empty() != ( m.size() == 0 ) ) violation( "wrong-count", who + " reports the wrong emptiness" );
	const MLSGrid::Index* ix = ob.g->getIndex();
	if( m.index && !ix ) violation( "wrong-index", who + " lost its index" );
	std::set<XY> in;
	if( ix ) for( std::set<GridBase::Position>::const_iterator k = ix->cells.begin(); k != ix->cells.end(); ++k ) in.insert( XY( k->x, k->y ) );
	GridBase::CellExtents ex = ob.g->getCellExtents();
	long bx0 = 1 << 20, by0 = 1 << 20, bx1 = -1, by1 = -1;
	for( std::set<XY>::iterator k = m.touched.begin(); k != m.touched.end(); ++k ) { bx0 = std::min( bx0, k->first ); bx1 = std::max( bx1, k->first ); by0 = std::min( by0, k->second ); by1 = std::max( by1, k->second ); }
	for( Cells::iterator k = m.cells.begin(); k != m.cells.end(); ++k )
	{
	    if( k->second.empty() ) continue;
	    if( ix && !in.count( k->first ) ) violation( "wrong-index", fmt( "%s: occupied cell %ld,%ld is missing from the index", who.c_str(), k->first.first, k->first.second ) );
	    if( !ex.contains( Eigen::Vector2i( k->first.first, k->first.second ) ) ) violation( "wrong-extents", fmt( "%s: occupied cell %ld,%ld is outside of the extents", who.c_str(), k->first.first, k->first.second ) );
	}
	for( std::set<XY>::iterator k = in.begin(); k != in.end(); ++k )
	    if( !m.touched.count( *k ) ) violation( "wrong-index", fmt( "%s: cell %ld,%ld is in the index but never held a patch", who.c_str(), k->first, k->second ) );
	if( bx1 < 0 ) { if( ex.min() != Eigen::Vector2i( 0, 0 ) || ex.max() != Eigen::Vector2i( 0, 0 ) ) violation( "wrong-extents", who + " is empty but reports extents" ); }
	else if( !m.cells.empty() && ( ex.min().x() < bx0 || ex.min().y() < by0 || ex.max().x() > bx1 || ex.max().y() > by1 ) )
	    violation( "wrong-extents", fmt( "%s: extents reach outside of the cells that were ever used", who.c_str() ) );
    }
    void checkList( size_t i, const char* when )
    {
	Cells got; readCells( l[i].g, l[i].w, l[i].h, got, inserted + 8 );
	compareCells( got, l[i].cells, fmt( "%s: list grid %zu", when, i ), -1 );
	l[i].cells = got;
    }
    // after an injected failure: whatever is there has to be valid
    void adoptMls( size_t i )
    {
	Obj& ob = o[i]; GridM& m = ob.m;
	ob.m.w = ob.g->getCellSizeX(); ob.m.h = ob.g->getCellSizeY();
	m.cells.clear(); readCells( ob.g, m.w, m.h, m.cells, inserted + 8 );
	m.sx = ob.g->getScaleX(); m.sy = ob.g->getScaleY(); m.ox = ob.g->getOffsetX(); m.oy = ob.g->getOffsetY();
	m.index = ob.g->getIndex() != 0;
	m.gap = ob.g->getConfig().gapSize; m.thick = ob.g->getConfig().thickness; m.color = ob.g->getConfig().useColor; m.model = ob.g->getConfig().updateModel;
	m.touchAll();
	audit( i, "after running out of memory" );
    }
    void dropMls( size_t i ) { if( o[i].hold ) { LibScope ls; o[i].hold.reset(); } o[i].g = 0; o[i].m = GridM(); }
    void put( size_t i, MLSGrid* g ) { o[i].g = g; LibScope ls; o[i].hold.reset( g ); }
    static P patch( long seed ) { Rng r( seed ); P p = randPatch( r ); 
	p.mean = (float)( ( r.unit() - 0.5 ) * ( r.chance( 1, 2 ) ? 4 : 12 ) ); p.stdev = 0.05f + (float)r.unit() * 0.5f; p.min = p.mean - (float)r.unit() * 0.5f; p.max = p.mean + (float)r.unit() * 0.5f;
	p.normsq = 1.0 / pow( p.stdev, 4 ); p.plane.n = 1.0 / pow( p.stdev, 2 ); p.plane.z = p.mean * p.plane.n; p.plane.zz = p.mean * p.mean * p.plane.n; p.update_idx = r.below( 5 ); return p; }
    // a numerical tie makes both outcomes right: take what the grid did
    void settle( size_t i, const char* when )
    {
	if( g_margin < 1e-5 ) { count( "oracle.tie" ); GridM& m = o[i].m; m.cells.clear(); readCells( o[i].g, m.w, m.h, m.cells, inserted + 8 ); m.touchAll(); audit( i, when ); }
	else checkMls( i, o[i].m.model, when );
    }
    bool step( const Op& op );
    void all();
};
bool Run::step( const Op& op )
{
    const std::string& k = op.kind; size_t i = op.a[0] & 3, j = op.a[1] & 3; g_margin = 1;
    if( k[0] == 'l' && k[1] == '_' )
    {
	i &= 1; LObj& a = l[i];
	if( k == "l_new" )
	{
	    if( a.g ) { LibScope ls; delete a.g; } a = LObj();
	    Rng r( op.a[2] ); long w = 1 + r.below( 5 ), h = 1 + r.below( 5 ); ListGrid<P>* g = 0;
	    if( call( op, [&]{ g = new ListGrid<P>( w, h ); } ) ) { a.g = g; a.w = w; a.h = h; }
	    return true;
	}
	if( !a.g ) return false;
	Rng r( op.a[2] ); long x = r.below( a.w ), y = r.below( a.h ); P p = patch( op.a[3] );
	if( k == "l_head" || k == "l_tail" )
	{
	    bool head = k == "l_head"; inserted++;
	    if( call( op, [&]{ if( head ) a.g->insertHead( x, y, p ); else a.g->insertTail( x, y, p ); } ) )
	    { Cell& c = a.cells[XY( x, y )]; c.insert( head ? c.begin() : c.end(), p ); }
	}
	else if( k == "l_erase" )
	{
	    if( a.cells.empty() ) return false;
	    Cells::iterator c = a.cells.begin(); std::advance( c, r.below( a.cells.size() ) ); size_t n = r.below( c->second.size() );
	    call( op, [&]{ ListGrid<P>::iterator it = a.g->beginCell( c->first.first, c->first.second ); for( size_t q=0;q<n;q++ ) it++; it = a.g->erase( it );
		if( ( it == a.g->endCell() ) != ( n + 1 == c->second.size() ) ) violation( "wrong-iterator", "erase returns an iterator to the wrong place" ); } );
	    c->second.erase( c->second.begin() + n ); if( c->second.empty() ) a.cells.erase( c );
	}
	else if( k == "l_clear" ) { if( call( op, [&]{ a.g->clear(); } ) ) a.cells.clear(); }
	else if( k == "l_resize" )
	{ long w = 1 + r.below( 6 ), h = 1 + r.below( 6 ); if( call( op, [&]{ a.g->resize( w, h ); } ) ) { a.w = w; a.h = h; a.cells.clear(); } }
	else if( k == "l_move" )
	{
	    int dx = (int)r.below( 2 * a.w + 3 ) - a.w - 1, dy = (int)r.below( 2 * a.h + 3 ) - a.h - 1;
	    if( r.chance( 2, 3 ) ) { dx = (int)r.below( 3 ) - 1; dy = (int)r.below( 3 ) - 1; }
	    if( call( op, [&]{ a.g->move( dx, dy ); } ) )
	    { Cells n; for( Cells::iterator c = a.cells.begin(); c != a.cells.end(); ++c ) { XY q( c->first.first + dx, c->first.second + dy ); if( q.first >= 0 && q.first < a.w && q.second >= 0 && q.second < a.h ) n[q] = c->second; } a.cells = n; }
	}
	else if( k == "l_copy" )
	{
	    LObj& b = l[1-i]; if( b.g ) { LibScope ls; delete b.g; } b = LObj();
	    ListGrid<P>* g = 0; if( call( op, [&]{ g = new ListGrid<P>( *a.g ); } ) ) { b = a; b.g = g; inserted += inserted; }
	}
	else if( k == "l_assign" )
	{
	    LObj& b = l[op.a[1]&1]; if( !b.g ) return false;
	    if( call( op, [&]{ *b.g = *a.g; } ) ) { ListGrid<P>* g = b.g; b = a; b.g = g; inserted += inserted; }
	    else { Cells got; readCells( b.g, b.w, b.h, got, inserted + 8 ); b.cells = got; }
	}
	else if( k == "l_swap" ) { if( !l[1-i].g ) return false; call( op, [&]{ a.g->swap( *l[1-i].g ); } ); ListGrid<P>* g0 = l[0].g; ListGrid<P>* g1 = l[1].g; std::swap( l[0], l[1] ); l[0].g = g0; l[1].g = g1; }
	else return false;
	if( inserted > 4000 ) inserted = 4000;
	for( size_t q=0;q<2;q++ ) if( l[q].g ) checkList( q, k.c_str() );
	return true;
    }
    if( k == "new" )
    {
	dropMls( i ); Rng r( op.a[2] );
	GridM m; m.w = 1 + r.below( 6 ); m.h = 1 + r.below( 6 ); m.sx = r.chance( 1, 2 ) ? 1 : 0.25; m.sy = r.chance( 1, 2 ) ? 1 : 0.5; if( r.chance( 1, 2 ) ) { m.ox = -m.sx * (double)r.below( 4 ); m.oy = -m.sy * (double)r.below( 4 ); }
	MLSGrid* g = 0;
	if( call( op, [&]{ g = new MLSGrid( m.w, m.h, m.sx, m.sy, m.ox, m.oy ); } ) ) { put( i, g ); o[i].m = m; }
    }
    else
    {
	Obj& a = o[i]; if( !a.g ) return false;
	GridM& m = a.m; Rng r( op.a[2] ); long x = r.below( m.w ), y = r.below( m.h ); XY c( x, y ); P p = patch( op.a[3] );
	if( k == "head" || k == "tail" )
	{
	    bool head = k == "head"; inserted++; Cells before = m.cells;
	    if( call( op, [&]{ if( head ) a.g->insertHead( x, y, p ); else a.g->insertTail( x, y, p ); } ) ) { Cell& l = m.cells[c]; l.insert( head ? l.begin() : l.end(), p ); touch( m, c ); }
	    else { touch( m, c ); checkMls( i, -1, "failed insertion" ); }
	}
	else if( k == "erase" )
	{
	    if( m.cells.empty() ) return false;
	    Cells::iterator q = m.cells.begin(); std::advance( q, r.below( m.cells.size() ) ); size_t n = r.below( q->second.size() );
	    call( op, [&]{ MLSGrid::iterator it = a.g->beginCell( q->first.first, q->first.second ); for( size_t z=0;z<n;z++ ) it++; it = a.g->erase( it );
		if( ( it == a.g->endCell() ) != ( n + 1 == q->second.size() ) ) violation( "wrong-iterator", "erase returns an iterator to the wrong place" ); } );
	    q->second.erase( q->second.begin() + n ); if( q->second.empty() ) m.cells.erase( q );
	}
	else if( k == "updcell" || k == "updpos" || k == "updmean" )
	{
	    inserted++; bool inGrid = true, got = true; Eigen::Vector2d pos( 0, 0 );
	    if( k == "updpos" )
	    {
		// positions up to two cells outside of the grid; keep off the borders between cells
		long px = (long)r.below( m.w + 4 ) - 2, py = (long)r.below( m.h + 4 ) - 2; double fx = 0.1 + 0.8 * r.unit(), fy = 0.1 + 0.8 * r.unit();
		pos = Eigen::Vector2d( m.ox + ( px + fx ) * m.sx, m.oy + ( py + fy ) * m.sy );
		inGrid = px >= 0 && px < m.w && py >= 0 && py < m.h; c = XY( px, py );
		if( m.model == MLSConfiguration::SLOPE ) { p = P( Eigen::Vector3f( fx * m.sx, fy * m.sy, p.mean ), p.stdev ); memset( p.color, 0, 3 ); }
	    }
	    P given = patch( op.a[3] );
	    if( k == "updmean" ) { p = P( given.mean, given.stdev ); memset( p.color, 0, 3 ); }
	    bool ok = call( op, [&]{
		if( k == "updpos" ) got = a.g->update( pos, given );
		else if( k == "updmean" ) a.g->updateCell( c.first, c.second, given.mean, given.stdev );
		else if( op.a[3] & 1 ) a.g->updateCell( c.first, c.second, given );
		else a.g->updateCell( GridBase::Position( c.first, c.second ), given ); } );
	    if( ok && got != inGrid ) violation( "wrong-result", "update reports wrongly whether the position is in the grid" );
	    if( ok )
	    {
		if( inGrid ) modelUpdate( m, c, p );
		settle( i, k.c_str() );
	    }
	    else
	    {
		Cells before = m.cells; adoptMls( i ); Cells after = m.cells; before.erase( c ); after.erase( c );
		compareCells( after, before, "failed update: other", -1 );
	    }
	}
	else if( k == "move" )
	{
	    int dx = (int)r.below( 2 * m.w + 3 ) - m.w - 1, dy = (int)r.below( 2 * m.h + 3 ) - m.h - 1;
	    if( r.chance( 2, 3 ) ) { dx = (int)r.below( 3 ) - 1; dy = (int)r.below( 3 ) - 1; }
	    if( call( op, [&]{ a.g->move( dx, dy ); } ) )
	    {
		Cells n; std::set<XY> t;
		for( Cells::iterator q = m.cells.begin(); q != m.cells.end(); ++q ) { XY z( q->first.first + dx, q->first.second + dy ); if( z.first >= 0 && z.first < m.w && z.second >= 0 && z.second < m.h ) n[z] = q->second; }
		for( std::set<XY>::iterator q = m.touched.begin(); q != m.touched.end(); ++q ) { XY z( q->first + dx, q->second + dy ); if( z.first >= 0 && z.first < m.w && z.second >= 0 && z.second < m.h ) t.insert( z ); }
		m.cells = n; m.touched = t;
	    }
	    else adoptMls( i );
	}
	else if( k == "clear" ) { if( call( op, [&]{ a.g->clear(); } ) ) { m.cells.clear(); m.touched.clear(); m.color = false; } else adoptMls( i ); }
	else if( k == "copy" || k == "shallow" || k == "clone" )
	{
	    if( i == j ) return false;
	    dropMls( j ); MLSGrid* g = 0;
	    if( call( op, [&]{ g = k == "copy" ? new MLSGrid( *a.g ) : k == "clone" ? a.g->clone() : a.g->cloneShallow(); } ) )
	    {
		put( j, g ); o[j].m = m; o[j].m.index = false; inserted += inserted;
		if( k == "shallow" ) { o[j].m.cells.clear(); o[j].m.touched.clear(); }
	    }
	}
	else if( k == "assign" || k == "set" )
	{
	    Obj& b = o[j]; if( !b.g ) return false;
	    if( k == "set" && i == j ) return false;
	    if( call( op, [&]{ if( k == "set" ) b.g->set( a.g ); else *b.g = *a.g; } ) )
	    { bool ix = b.m.index; GridM s = m; if( i != j ) { b.m = s; b.m.index = ix; } inserted += inserted; }
	    else adoptMls( j );
	}
	else if( k == "merge" || k == "match" )
	{
	    Obj& b = o[j]; if( !b.g || i == j ) return false;
	    // cell centres of the source have to fall well inside of cells of the target
	    int turn = r.below( 4 ); Eigen::Affine3d t( Eigen::AngleAxisd( turn * M_PI / 2, Eigen::Vector3d::UnitZ() ) );
	    double tx = ( (long)r.below( 7 ) - 3 ) * m.sx + ( r.unit() - 0.5 ) * 0.2 * m.sx, ty = ( (long)r.below( 7 ) - 3 ) * m.sy + ( r.unit() - 0.5 ) * 0.2 * m.sy, tz = ( r.unit() - 0.5 ) * 3;
	    t.pretranslate( Eigen::Vector3d( tx, ty, tz ) );
	    P off = p; double closest = 1;
	    std::vector< std::pair<XY,XY> > pairs;
	    for( Cells::iterator q = b.m.cells.begin(); q != b.m.cells.end(); ++q )
	    {
		Eigen::Vector3d v( ( q->first.first + 0.5 ) * b.m.sx + b.m.ox, ( q->first.second + 0.5 ) * b.m.sy + b.m.oy, 0 ); v = t * v;
		double gx = ( v.x() - m.ox ) / m.sx, gy = ( v.y() - m.oy ) / m.sy; long cx = floor( gx ), cy = floor( gy );
		closest = std::min( closest, std::min( std::min( gx - cx, cx + 1 - gx ), std::min( gy - cy, cy + 1 - gy ) ) );
		if( cx >= 0 && cx < m.w && cy >= 0 && cy < m.h ) pairs.push_back( std::make_pair( q->first, XY( cx, cy ) ) );
	    }
	    if( closest < 1e-6 ) return false;
	    if( k == "match" )
	    {
		if( !b.g->getIndex() ) return false;
		float got = -1; size_t cnt = 0, hit = 0; float sigma = 0.5f + (float)r.unit() * 3;
		call( op, [&]{ got = a.g->match( *b.g, t, off, 1, sigma ); } );
		if( threw ) return true;
		for( size_t q=0;q<pairs.size();q++ )
		{
		    const Cell& src = b.m.cells[pairs[q].first]; Cells::iterator d = m.cells.find( pairs[q].second ); bool h = false; cnt++;
		    for( size_t z=0;z<src.size() && !h;z++ )
		    {
			P s = src[z]; s.mean += off.mean; s.stdev = sqrt( s.stdev * s.stdev + off.stdev * off.stdev );
			if( d != m.cells.end() ) for( size_t u=0;u<d->second.size();u++ ) { const P& e = d->second[u]; if( less( e.distance( s ), sqrt( s.stdev * s.stdev + e.stdev * e.stdev ) * sigma ) && !e.isNegative() ) { h = true; break; } }
		    }
		    hit += h;
		}
		float want = cnt ? (float)hit / cnt : 1.0f; count( "oracle.match" );
		if( g_margin > 1e-5 && fabs( want - got ) > 1e-5 ) violation( "wrong-result", fmt( "match gives %g instead of %g", got, want ) );
	    }
	    else
	    {
		inserted += b.m.size();
		if( call( op, [&]{ a.g->merge( *b.g, t, off ); } ) )
		{
		    for( size_t q=0;q<pairs.size();q++ )
		    {
			const Cell& src = b.m.cells[pairs[q].first];
			for( size_t z=0;z<src.size();z++ )
			{ P s = src[z]; s.mean += off.mean + tz; s.stdev = sqrt( pow( s.stdev, 2 ) + pow( off.stdev, 2 ) ); s.update_idx = off.update_idx; modelUpdate( m, pairs[q].second, s ); }
		    }
		    m.color = m.color || b.m.color; count( "oracle.merge" );
		    settle( i, "merge" );
		}
		else adoptMls( i );
	    }
	}
	else if( k == "index" ) { if( call( op, [&]{ a.g->initIndex(); } ) ) m.index = true; }
	else if( k == "scale" )
	{
	    double f = 0.25 + r.unit();
	    call( op, [&]{ a.g->scalePatchWeights( f ); } );
	    for( Cells::iterator q = m.cells.begin(); q != m.cells.end(); ++q ) for( size_t z=0;z<q->second.size();z++ ) { P& s = q->second[z]; s.plane.scale( f ); s.normsq *= (float)f * (float)f; }
	    checkMls( i, m.model, "scale" );
	}
	else if( k == "config" )
	{
	    m.gap = (float)( r.unit() * ( r.chance( 1, 4 ) ? 0 : 1.5 ) ); m.thick = (float)( r.unit() * 0.3 ); m.model = r.chance( 1, 2 ) ? 0 : r.below( 3 ); m.color = r.chance( 1, 2 );
	    call( Op( "config" ), [&]{ a.g->getConfig().gapSize = m.gap; a.g->getConfig().thickness = m.thick; a.g->getConfig().updateModel = (MLSConfiguration::update_model)m.model; a.g->getConfig().useColor = m.color; } );
	}
	else if( k == "get" )
	{
	    float sigma = 0.3f + (float)r.unit() * 4; bool neg = r.chance( 1, 2 ); P* got = 0; const P* at = 0; size_t want = 0; Cells::iterator q = m.cells.find( c );
	    call( op, [&]{ got = a.g->get( GridBase::Position( x, y ), p, sigma, neg ); } );
	    if( threw ) return true;
	    bool found = false;
	    if( q != m.cells.end() ) for( size_t z=0;z<q->second.size() && !found;z++ )
	    { const P& e = q->second[z]; if( less( e.distance( p ), sqrt( p.stdev * p.stdev + e.stdev * e.stdev ) * (double)sigma ) && !( neg && e.isNegative() ) ) { found = true; want = z; } }
	    if( g_margin > 1e-5 )
	    {
		if( found ) { MLSGrid::const_iterator it = const_cast<const MLSGrid*>( a.g )->beginCell( x, y ); for( size_t z=0;z<want;z++ ) it++; at = &*it; }
		if( got != at ) violation( "wrong-result", "get returns the wrong patch" );
		count( "oracle.get" );
	    }
	}
	else if( k == "project" )
	{
	    std::vector<GridBase::Position> way; int n = 1 + r.below( 5 ); for( int z=0;z<n;z++ ) { long wx = r.below( m.w ), wy = r.below( m.h ); way.push_back( GridBase::Position( wx, wy ) ); }
	    double h = ( r.unit() - 0.5 ) * 6, off = r.unit(); std::vector<Eigen::Vector3d> got;
	    if( !call( op, [&]{ std::vector<Eigen::Vector3d> res = a.g->projectPointsOnSurface( h, way, off ); HarnessScope hs; got.assign( res.begin(), res.end() ); } ) ) return true;
	    if( got.size() != way.size() ) violation( "wrong-result", "projecting points returns the wrong number of points" );
	    for( int z=0;z<n;z++ )
	    {
		Cells::iterator q = m.cells.find( XY( way[z].x, way[z].y ) ); double best = 1e300, top = h;
		if( q != m.cells.end() ) for( size_t u=0;u<q->second.size();u++ ) { double mz = q->second[u].mean + 2.0 * q->second[u].stdev, d = fabs( h - mz ); if( less( d, best ) ) { best = d; top = mz; } }
		h = top;
		if( g_margin < 1e-5 ) break;
		if( (long)got[z].x() != (long)way[z].x || (long)got[z].y() != (long)way[z].y || !closeTo( got[z].z(), h + off, 1e-5 ) ) violation( "wrong-result", "projecting points gives the wrong height" );
		count( "oracle.project" );
	    }
	}
	else if( k == "stream" )
	{
	    Obj& b = o[j]; if( !b.g || i == j || b.m.w < m.w || b.m.h < m.h ) return false;
	    Op plain( op ); plain.a[4] = 0; inserted += m.size(); std::string text;
	    call( plain, [&]{ std::ostringstream os; a.g->writeMap( os ); HarnessScope hs; text = os.str(); } );
	    if( call( op, [&]{ std::istringstream is( text ); b.g->readMap( is ); } ) )
		for( Cells::iterator q = m.cells.begin(); q != m.cells.end(); ++q ) { if( q->second.empty() ) continue; Cell& d = b.m.cells[q->first]; d.insert( d.end(), q->second.begin(), q->second.end() ); touch( b.m, q->first ); }
	    else adoptMls( j );
	}
	else if( k == "drop" ) { dropMls( i ); return true; }
	else return false;
    }
    if( inserted > 4000 ) inserted = 4000;
    for( size_t q=0;q<4;q++ ) if( o[q].g ) checkMls( q, -1, k.c_str() );
    return true;
}
void Run::all()
{
    for( size_t n=0;n<plan.ops.size();n++ )
    {
	curOp( n, plan.ops[n].kind );
	size_t total = 0; for( int q=0;q<4;q++ ) if( o[q].g ) total += o[q].m.size();
	if( total > 1500 ) break;
	if( step( plan.ops[n] ) ) count( "ops" );
	uint64_t h = 7;
	for( int q=0;q<4;q++ )
	{
	    h = mix( h, q ); if( !o[q].g ) continue; GridM& m = o[q].m; h = mix( mix( h, m.w * 100 + m.h ), m.index * 8 + m.model * 2 + m.color );
	    for( Cells::iterator c = m.cells.begin(); c != m.cells.end(); ++c ) { h = mix( h, c->first.first * 64 + c->first.second ); for( size_t z=0;z<c->second.size();z++ ) h = mix( h, type( c->second[z] ) ); }
	}
	state( h );
	for( int q=0;q<4;q++ ) if( o[q].g ) for( Cells::iterator c = o[q].m.cells.begin(); c != o[q].m.cells.end(); ++c ) for( size_t z=0;z<c->second.size();z++ ) note( patchHash( c->second[z] ) );
    }
    setStage( "end" );
    for( int q=0;q<4;q++ ) dropMls( q );
    for( int q=0;q<2;q++ ) if( l[q].g ) { LibScope ls; delete l[q].g; l[q].g = 0; }
}
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 );
    static const char* kinds[] = { "head", "tail", "erase", "updcell", "updpos", "updmean", "move", "clear", "copy", "clone", "shallow", "assign", "set", "merge", "match", "index", "scale", "config", "get", "project", "stream", "drop", "new",
	"l_new", "l_head", "l_tail", "l_erase", "l_clear", "l_resize", "l_move", "l_copy", "l_assign", "l_swap" };
    static const int w[] = { 14, 14, 10, 16, 10, 3, 8, 1, 4, 2, 1, 6, 2, 8, 3, 3, 2, 3, 4, 3, 3, 1, 2,   1, 6, 6, 5, 1, 1, 4, 2, 3, 1 };
    int tot = 0, weights[33]; for( int i=0;i<33;i++ ) { weights[i] = w[i]; if( r.chance( 1, 5 ) ) weights[i] = 0; if( r.chance( 1, 8 ) ) weights[i] *= 3; tot += weights[i]; }
    bool lists = r.chance( 1, 3 ), fails = r.chance( 1, 2 ), few = r.chance( 1, 2 );
    int n = 6 + r.below( th ? 250 : 90 ), grids = 1 + r.below( few ? 2 : 4 );
    for( int i=0;i<grids;i++ ) p.add( "new", i, 0, r.next() & 0xffffff );
    if( r.chance( 2, 3 ) ) p.add( "config", 0, 0, r.next() & 0xffffff );
    if( lists ) { p.add( "l_new", 0, 0, r.next() & 0xffffff ); p.add( "l_new", 1, 0, r.next() & 0xffffff ); }
    for( int i=0;i<n;i++ )
    {
	long t = r.below( tot ? tot : 1 ); int q = 0; while( q < 32 && t >= weights[q] ) t -= weights[q++];
	if( kinds[q][0] == 'l' && !lists ) continue;
	long f = 0, pers = 0; if( fails && r.chance( 1, 5 ) ) { f = 1 + r.below( r.chance( 1, 2 ) ? 4 : 30 ); pers = r.chance( 1, 3 ); }
	p.add( kinds[q], r.below( grids ), r.below( few ? grids : 4 ), r.next() & 0xffffff, r.next() & 0xffffff, f, pers );
    }
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); leakBegin();
    { Run u( p ); u.all(); }
    std::string leak = leakCheck();
    if( !leak.empty() ) violation( "leak", leak );
}
WorkloadReg reg( "grids", gen, run );
}
