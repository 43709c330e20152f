// C19: map operators compute from the current contents of their inputs alone.
#include "wire.hpp"
#include <algorithm>
#include <set>
#include <envire/operators/CutPointcloud.hpp>
#include <envire/operators/DistanceGridToPointcloud.hpp>
#include <envire/operators/Fold.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/MLSSlope.hpp>
#undef __ENVIRE__MLS_SLOPE_HPP__     // both headers use this guard
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MLSToPointCloud.hpp>
#include <envire/operators/MergeMLS.hpp>
#include <envire/maps/MLSMap.hpp>
#include <envire/operators/MergePointcloud.hpp>
#include <envire/operators/ScanMeshing.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/operators/TraversabilityGrassfire.hpp>
#include <envire/operators/TraversabilityGrowClasses.hpp>

using namespace sim;

namespace
{
typedef Eigen::Vector3d V3;
enum OKind { O_CUT, O_D2P, O_FOLD, O_G2MLS, O_ILLUM, O_PROJ, O_SLOPE, O_M2G, O_M2PC, O_MERGEPC, O_SCAN, O_SIMPLE, O_FIRE, O_GROW, O_MERGEMLS, O_COUNT };
const char* oname[O_COUNT] = { "CutPointcloud", "DistanceGridToPointcloud", "DoubleFoldOperator", "GridFloatToMLS", "GridIllumination", "MLSProjection", "MLSSlope", "MLSToGrid", "MLSToPointCloud", "MergePointcloud", "ScanMeshing", "SimpleTraversability", "TraversabilityGrassfire", "TraversabilityGrowClasses", "MergeMLS" };
// grids of one shape fit together
struct Geo { size_t w, h; double sx, sy, ox, oy; };
const Geo geos[] = { { 6, 5, 0.5, 0.5, -1.5, -1.2 }, { 6, 7, 0.5, 0.5, -1.5, -1.2 }, { 4, 5, 0.5, 0.4, 0, 0 }, { 1, 3, 1, 0.7, 0, 0 }, { 9, 9, 0.25, 0.25, -1, -1 } };
const char* fbands[] = { "mean_slope", "max_step", "corrected_max_step", "height", 0 };

struct MapM { int kind, geo; CartesianMap* map; FrameNode* frame; };
struct OpM { int kind; uint64_t conf, born; Operator* op; bool wired; };

template<class T> void fillF( Grid<T>* g, const char* band, Rng& r, double unknown )
{
    typename Grid<T>::ArrayType& a = g->getGridData( band );
    for( size_t i=0;i<a.num_elements();i++ ) a.data()[i] = r.chance( 1, 6 ) ? (T)unknown : (T)( r.unit() - ( r.chance( 1, 4 ) ? 1 : 0 ) );
}
void fillMap( int kind, CartesianMap* m, Rng& r )
{
    switch( kind )
    {
	case K_CLOUD: case K_MESH:
	{
	    Pointcloud* p = static_cast<Pointcloud*>( m ); size_t n = r.below( 25 );
	    p->vertices.clear(); for( size_t i=0;i<n;i++ ) p->vertices.push_back( V3( ( r.unit() - 0.5 ) * 5, ( r.unit() - 0.5 ) * 5, ( r.unit() - 0.5 ) * 2 ) );
	    p->removeData( Pointcloud::VERTEX_NORMAL ); p->removeData( Pointcloud::VERTEX_COLOR ); p->removeData( Pointcloud::VERTEX_VARIANCE ); p->removeData( Pointcloud::VERTEX_ATTRIBUTES );
	    if( r.chance( 1, 2 ) ) { std::vector<V3>& v = p->getVertexData<V3>( Pointcloud::VERTEX_NORMAL ); for( size_t i=0;i<n;i++ ) v.push_back( V3( r.unit(), r.unit() - 0.5, r.unit() - 0.5 ).normalized() ); }
	    if( r.chance( 1, 2 ) ) { std::vector<V3>& v = p->getVertexData<V3>( Pointcloud::VERTEX_COLOR ); for( size_t i=0;i<n;i++ ) v.push_back( V3( r.below( 256 ) / 255.0, r.below( 256 ) / 255.0, r.below( 256 ) / 255.0 ) ); }
	    if( r.chance( 1, 2 ) ) { std::vector<double>& v = p->getVertexData<double>( Pointcloud::VERTEX_VARIANCE ); for( size_t i=0;i<n;i++ ) v.push_back( 0.001 + r.unit() * 0.1 ); }
	    if( r.chance( 1, 3 ) ) { std::vector<Pointcloud::vertex_attr>& v = p->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES ); for( size_t i=0;i<n;i++ ) v.push_back( (Pointcloud::vertex_attr)r.below( 3 ) ); }
	    if( kind == K_MESH ) { TriMesh* t = static_cast<TriMesh*>( m ); t->faces.clear(); if( n > 2 ) for( size_t i=0;i<n / 2;i++ ) t->faces.push_back( TriMesh::triangle_t( (int)r.below( n ), (int)r.below( n ), (int)r.below( n ) ) ); }
	    break;
	}
	case K_SCAN:
	{
	    LaserScan* s = static_cast<LaserScan*>( m );
	    s->delta_psi = (float)( 0.01 + r.unit() * 0.1 ); s->origin_psi = (float)( r.unit() - 0.5 ); s->origin_phi = (float)( r.unit() - 0.5 ); s->center_offset = V3( r.unit() * 0.1, 0, r.unit() * 0.1 );
	    if( r.chance( 1, 2 ) ) s->setXForward(); else s->setYForward();
	    size_t nl = r.below( 6 ), np = 1 + r.below( 15 ); bool rem = r.chance( 1, 2 ); s->lines.clear(); s->points_per_line = (int)np;
	    for( size_t i=0;i<nl;i++ )
	    {
		LaserScan::scanline_t l; l.delta_phi = (float)( i * 0.05 );
		for( size_t k=0;k<np;k++ ) { l.ranges.push_back( r.chance( 1, 8 ) ? (unsigned)r.below( 100 ) : 1000u + (unsigned)r.below( 300 ) ); if( rem ) l.remissions.push_back( (unsigned)r.below( 20000 ) ); }
		s->lines.push_back( l );
	    }
	    break;
	}
	case K_ELEV: { ElevationGrid* g = static_cast<ElevationGrid*>( m ); fillF<double>( g, ElevationGrid::ELEVATION_MAX.c_str(), r, 0 ); if( r.chance( 1, 2 ) ) fillF<double>( g, ElevationGrid::ILLUMINATION.c_str(), r, 0 ); break; }
	case K_DIST: { DistanceGrid* g = static_cast<DistanceGrid*>( m ); fillF<float>( g, DistanceGrid::DISTANCE.c_str(), r, r.chance( 1, 2 ) ? NAN : INFINITY ); break; }
	case K_IMG: { ImageRGB24* g = static_cast<ImageRGB24*>( m ); const char* b[] = { ImageRGB24::R.c_str(), ImageRGB24::G.c_str(), ImageRGB24::B.c_str() }; for( int k=0;k<3;k++ ) { ImageRGB24::ArrayType& a = g->getGridData( b[k] ); for( size_t i=0;i<a.num_elements();i++ ) a.data()[i] = (uint8_t)r.below( 256 ); } break; }
	case K_TRAV:
	{
	    TraversabilityGrid* g = static_cast<TraversabilityGrid*>( m ); int n = 3 + r.below( 8 );
	    for( int i=0;i<n;i++ ) g->setTraversabilityClass( (uint8_t)i, TraversabilityClass( r.below( 11 ) / 10.0 ) );
	    n = (int)g->getTraversabilityClasses().size();
	    TraversabilityGrid::ArrayType& a = g->getGridData( TraversabilityGrid::TRAVERSABILITY ); for( size_t i=0;i<a.num_elements();i++ ) a.data()[i] = (uint8_t)r.below( n );
	    TraversabilityGrid::ArrayType& b = g->getGridData( TraversabilityGrid::PROBABILITY ); for( size_t i=0;i<b.num_elements();i++ ) b.data()[i] = r.chance( 1, 3 ) ? 0 : (uint8_t)r.below( 256 );
	    break;
	}
	case K_MLS:
	{
	    MLSGrid* g = static_cast<MLSGrid*>( m ); g->clear(); size_t W = g->getCellSizeX(), H = g->getCellSizeY(); bool dense = r.chance( 1, 2 );
	    size_t n = dense ? W * H : r.below( 2 * W * H );
	    for( size_t i=0;i<n;i++ )
	    {
		SurfacePatch p = randPatch( r ); p.mean = (float)( r.unit() - 0.5 ); p.stdev = 0.01f + (float)r.unit() * 0.1f; p.min = p.mean - 0.1f; p.max = p.mean + 0.1f;
		size_t x = dense ? i % W : r.below( W ), y = dense ? i / W : r.below( H );
		if( dense ) p = SurfacePatch( p.mean, p.stdev, 0.f, SurfacePatch::HORIZONTAL ), p.n = 1 + r.below( 5 );
		g->insertTail( x, y, p );
	    }
	    break;
	}
	case K_GD: fillF( static_cast< Grid<double>* >( m ), Grid<double>::GRID_DATA.c_str(), r, 0 ); if( r.chance( 1, 2 ) ) fillF( static_cast< Grid<double>* >( m ), "height", r, 0 ); break;
	case K_GF:
	{
	    Grid<float>* g = static_cast< Grid<float>* >( m ); double unk = r.chance( 1, 2 ) ? -std::numeric_limits<float>::infinity() : 7;
	    fillF( g, Grid<float>::GRID_DATA.c_str(), r, 0 );
	    fillF( g, "mean_slope", r, unk ); fillF( g, "max_step", r, unk ); if( unk == 7 ) { g->setNoData( "mean_slope", 7.f ); g->setNoData( "max_step", 7.f ); }
	    break;
	}
    }
}
template<class G> G* mk( const Geo& q ) { return new G( q.w, q.h, q.sx, q.sy, q.ox, q.oy ); }
CartesianMap* makeMap( int kind, int geo, Rng& r )
{
    const Geo& q = geos[geo]; CartesianMap* m = 0;
    switch( kind )
    {
	case K_CLOUD: m = new Pointcloud(); break;
	case K_MESH: m = new TriMesh(); break;
	case K_SCAN: m = new LaserScan(); break;
	case K_ELEV: m = mk<ElevationGrid>( q ); break;
	case K_DIST: m = mk<DistanceGrid>( q ); break;
	case K_IMG: m = mk<ImageRGB24>( q ); break;
	case K_TRAV: m = mk<TraversabilityGrid>( q ); break;
	case K_MLS:
	{
	    MLSGrid* g = mk<MLSGrid>( q ); m = g; static const MLSConfiguration::update_model um[] = { MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE };
	    g->getConfig().updateModel = um[ r.below( 3 ) ]; g->getConfig().gapSize = 0.1f + (float)r.unit(); g->getConfig().thickness = 0.01f + (float)r.unit() * 0.2f; g->getConfig().useColor = r.chance( 1, 2 ); if( r.chance( 1, 4 ) ) g->initIndex();
	    break;
	}
	case K_GD: m = mk< Grid<double> >( q ); break;
	case K_GF: m = mk< Grid<float> >( q ); break;
	default: simError( "makeMap" );
    }
    fillMap( kind, m, r );
    return m;
}
Facts digMap( CartesianMap* m )
{
    Facts f; digestItem( m, f, "", F_PERSIST | F_META );
    if( Pointcloud* p = dynamic_cast<Pointcloud*>( m ) )
    {
	if( p->hasData( Pointcloud::VERTEX_VARIANCE ) ) { std::vector<double>& v = p->getVertexData<double>( Pointcloud::VERTEX_VARIANCE ); f["variance"] = fmt( "%zu:%016llx", v.size(), (unsigned long long)hashBytes( v.data(), v.size() * 8 ) ); }
	if( p->hasData( Pointcloud::VERTEX_ATTRIBUTES ) ) { std::vector<Pointcloud::vertex_attr>& v = p->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES ); uint64_t h = mix( 1, v.size() ); for( size_t i=0;i<v.size();i++ ) h = mix( h, v[i] ); f["attributes"] = fmt( "%zu:%016llx", v.size(), (unsigned long long)h ); }
    }
    if( Grid<float>* g = dynamic_cast< Grid<float>* >( m ) )
	for( int i=0;fbands[i];i++ ) if( g->hasBand( fbands[i] ) ) { Grid<float>::ArrayType& a = g->getGridData( fbands[i] ); f[std::string( "band:" ) + fbands[i]] = fmt( "%016llx", (unsigned long long)hashBytes( a.data(), a.num_elements() * 4 ) ); std::pair<float,bool> nd = g->getNoData( fbands[i] ); if( nd.second ) f[std::string( "nodata:" ) + fbands[i]] = fmt( "%g", nd.first ); }
    if( Grid<double>* g = dynamic_cast< Grid<double>* >( m ) )
	for( int i=0;fbands[i];i++ ) if( g->hasBand( fbands[i] ) ) { Grid<double>::ArrayType& a = g->getGridData( fbands[i] ); f[std::string( "band:" ) + fbands[i]] = fmt( "%016llx", (unsigned long long)hashBytes( a.data(), a.num_elements() * 8 ) ); }
    return f;
}
// settings of an operator; those that are given when it is created and those that can be set later
struct Conf
{
    Rng r; ExclusionBox boxes[3]; int nboxes; bool boxOn[3]; double d[8]; bool b[6]; int n[4];
    explicit Conf( uint64_t seed ) : r( seed )
    {
	for( int i=0;i<8;i++ ) d[i] = r.unit(); for( int i=0;i<6;i++ ) b[i] = r.chance( 1, 2 ); for( int i=0;i<4;i++ ) n[i] = r.below( 1000 );
	nboxes = n[0] % 4;
	for( int i=0;i<3;i++ ) { boxes[i].box.setEmpty(); boxes[i].box.extend( V3( ( r.unit() - 0.5 ) * 4, ( r.unit() - 0.5 ) * 4, -2 ) ); boxes[i].box.extend( V3( ( r.unit() - 0.5 ) * 4, ( r.unit() - 0.5 ) * 4, 2 ) ); boxes[i].exclude = r.chance( 2, 3 ); }
    }
};
class World
{
public:
    const Plan& plan; Environment* env; Environment* rep; Channel* ch; std::string err; bool threw; bool queued, exact;
    std::vector<FrameNode*> frames; std::map<FrameNode*,FrameNode*> up; std::vector<MapM> maps; std::vector<OpM> ops; int gen;
    std::map<Operator*,Conf*> boxesOf; std::vector<Conf*> confs;
    World( const Plan& p ) : plan( p ), env( 0 ), rep( 0 ), ch( 0 ), threw( false ), queued( p.get( "queued" ) ), exact( true ), gen( 0 ) {}

    bool lib( std::function<void()> f )
    {
	err.clear(); threw = false;
	try { LibScope ls; f(); return true; } catch( std::exception& e ) { HarnessScope hs; err = e.what(); threw = true; }
	return false;
    }
    void must( const char* what, std::function<void()> f ) { if( !lib( f ) ) violation( "refused", std::string( what ) + " failed: " + err ); }
    static TransformWithUncertainty pose( Rng& r )
    {
	Transform t( Transform::Identity() ); if( r.chance( 1, 6 ) ) return TransformWithUncertainty( t );
	t.translate( V3( ( r.unit() - 0.5 ) * 2, ( r.unit() - 0.5 ) * 2, ( r.unit() - 0.5 ) ) );
	if( r.chance( 2, 3 ) ) t.rotate( Eigen::AngleAxisd( ( r.unit() - 0.5 ) * 6, V3::UnitZ() ) );
	if( r.chance( 1, 4 ) ) t.rotate( Eigen::AngleAxisd( ( r.unit() - 0.5 ) * 0.5, V3::UnitX() ) );
	if( r.chance( 1, 2 ) ) return TransformWithUncertainty( t );
	TransformWithUncertainty::Covariance c; c.setZero(); for( int i=0;i<6;i++ ) c( i, i ) = r.unit() * 0.01;
	return TransformWithUncertainty( t, c );
    }
    FrameNode* pickFrame( long a ) { return frames[ a % frames.size() ]; }
    MapM* find( int kind, long a, int geo = -1 )
    {
	std::vector<MapM*> v; for( size_t i=0;i<maps.size();i++ ) if( maps[i].kind == kind && ( geo < 0 || maps[i].geo == geo ) ) v.push_back( &maps[i] );
	return v.empty() ? 0 : v[ a % v.size() ];
    }
    MapM* need( int kind, long a, int geo )      // one of the maps, or a new one
    {
	MapM* m = a % 3 ? find( kind, a / 3, geo ) : 0; if( m ) return m;
	return addMap( kind, geo < 0 ? a % 5 : geo, a * 77 + 5, a );
    }
    MapM* addMap( int kind, int geo, uint64_t seed, long frame )
    {
	Rng r( seed ); MapM m; m.kind = kind; m.geo = geo; m.frame = pickFrame( frame ); CartesianMap* c = 0;
	must( "creating a map", [&]{ c = makeMap( kind, geo, r ); env->setFrameNode( c, m.frame ); } );
	m.map = c; maps.push_back( m ); return &maps.back();
    }
    void open()
    {
	must( "creating environments", [&]{ env = new Environment(); rep = new Environment(); } );
	frames.push_back( env->getRootNode() ); up[ frames[0] ] = 0;
	must( "registering", [&]{ ch = new Channel; ch->useEventQueue( queued ); env->addEventHandler( ch ); } );
	maps.reserve( 200 );
    }
    // ---------------------------------------------------------------- operators
    Operator* create( int kind, Conf& c )
    {
	switch( kind )
	{
	    case O_CUT: return new CutPointcloud();
	    case O_D2P: return new DistanceGridToPointcloud();
	    case O_FOLD: return new DoubleFoldOperator();
	    case O_G2MLS: return new GridFloatToMLS();
	    case O_ILLUM: return new GridIllumination();
	    case O_PROJ: return new MLSProjection();
	    case O_SLOPE: return c.n[1] % 3 == 0 ? new MLSSlope() : c.n[1] % 3 == 1 ? new MLSSlope( 0.1 + c.d[0], c.b[0] ) : new MLSSlope( 0.1 + c.d[0], c.b[0], (uint32_t)( c.n[2] % 4 ) );
	    case O_M2G: return new MLSToGrid();
	    case O_M2PC: return new MLSToPointCloud();
	    case O_MERGEPC: return new MergePointcloud();
	    case O_SCAN: return new ScanMeshing();
	    case O_SIMPLE:
	    {
		if( c.n[1] % 2 ) return new SimpleTraversability( c.b[0] ? 0.2 + c.d[0] : 0, 1 + c.n[2] % 8, c.b[1] ? c.d[1] * 1.5 : 0, c.b[2] ? c.d[2] : 0 );
		SimpleTraversabilityConfig f; f.maximum_slope = c.b[0] ? 0.2 + c.d[0] : 0; f.class_count = 1 + c.n[2] % 8; f.min_width = c.b[1] ? c.d[1] * 1.5 : 0; f.ground_clearance = c.b[2] ? c.d[2] : 0; f.obstacle_clearance = c.b[3] ? c.d[3] * 1.5 : 0;
		return new SimpleTraversability( f );
	    }
	    case O_FIRE: return new TraversabilityGrassfire();
	    case O_GROW: return new TraversabilityGrowClasses();
	    case O_MERGEMLS: return new MergeMLS();
	}
	simError( "create" );
    }
    void configure( int kind, Operator* op, Conf& c, Conf* oldBoxes )
    {
	switch( kind )
	{
	    case O_CUT:
	    {
		CutPointcloud* o = static_cast<CutPointcloud*>( op );
		if( oldBoxes ) for( int i=0;i<3;i++ ) o->removeBox( &oldBoxes->boxes[i] );
		for( int i=0;i<c.nboxes;i++ ) o->addBox( &c.boxes[ ( i + c.n[1] ) % 3 ] );
		break;
	    }
	    case O_D2P: static_cast<DistanceGridToPointcloud*>( op )->setUncertaintyFactor( c.d[0] ); static_cast<DistanceGridToPointcloud*>( op )->setMaxDistance( 0.3 + c.d[1] ); break;
	    case O_FOLD: static_cast<DoubleFoldOperator*>( op )->setNeightbourHoodSize( c.n[0] % 5 ); break;
	    case O_ILLUM: static_cast<GridIllumination*>( op )->setLightSource( V3( ( c.d[0] - 0.5 ) * 6, ( c.d[1] - 0.5 ) * 6, c.d[2] * 4 ), c.d[3] + 0.01 ); break;
	    case O_PROJ:
	    {
		MLSProjection* o = static_cast<MLSProjection*>( op ); o->useUncertainty( c.b[0] ); o->useNegativeInformation( c.n[0] % 5 == 0 ); o->setDefaultUncertainty( 0.001 + c.d[0] * 0.1 );
		if( c.b[1] ) o->setAreaOfInterest( -c.d[1] * 2, c.d[2] * 2, -c.d[3] * 2, c.d[4] * 2, -c.d[5] * 2, c.d[6] * 2 ); else o->unsetAreaOfInterest();
		break;
	    }
	    case O_SLOPE: if( c.b[1] ) { static_cast<MLSSlope*>( op )->setRequiredMeasurementsPerPatch( c.n[0] % 3 ); static_cast<MLSSlope*>( op )->setWindowSize( c.n[3] % 3 ); } break;
	    case O_MERGEPC: static_cast<MergePointcloud*>( op )->setClearOutput( c.n[0] % 4 ); break;
	    case O_SCAN:
	    {
		ScanMeshing* o = static_cast<ScanMeshing*>( op ); o->setMaxEdgeLength( 0.05 + c.d[0] * 0.4 ); o->useRemission( c.b[0] ); o->setRemissionScaleFactor( 1000 + c.d[1] * 20000 );
		o->setMinRange( c.d[2] * 1.1 ); o->setMaxRange( c.b[1] ? 1e9 : 1.0 + c.d[3] ); break;
	    }
	    case O_FIRE:
	    {
		TraversabilityGrassfire* o = static_cast<TraversabilityGrassfire*>( op ); TraversabilityGrassfire::Config f;
		f.maxStepHeight = c.d[0] * 1.5; f.maxSlope = 0.1 + c.d[1]; f.robotHeight = c.d[2]; f.numTraversabilityClasses = 1 + c.n[0] % 6; f.numNominalMeasurements = 1 + c.n[1] % 5; f.outliertFilterMinMeasurements = c.n[2] % 3; f.outliertFilterMaxStdDev = c.d[3] * 0.1;
		o->setConfig( f ); o->setStartPosition( V3( ( c.d[4] - 0.5 ) * 3, ( c.d[5] - 0.5 ) * 3, c.d[6] - 0.5 ) ); break;
	    }
	    case O_GROW: static_cast<TraversabilityGrowClasses*>( op )->setRadius( c.d[0] * 1.5 ); break;
	    case O_MERGEMLS: static_cast<MergeMLS*>( op )->setReverse( c.b[0] ); break;
	    default: break;
	}
    }
    static bool accumulates( int kind, Conf& c ) { return kind == O_G2MLS || kind == O_PROJ || kind == O_MERGEMLS || kind == O_M2G || ( kind == O_MERGEPC && c.n[0] % 4 == 0 ); }
    const char* outBand( Conf& c ) { return c.n[3] % 2 ? "height" : "other"; }
    // connects op to maps of its environment
    void wire( int kind, Operator* op, Conf& c, const std::vector<Layer*>& in, Layer* out )
    {
	switch( kind )
	{
	    case O_CUT: static_cast<CutPointcloud*>( op )->addInput( (Pointcloud*)in[0] ); static_cast<CutPointcloud*>( op )->addOutput( (Pointcloud*)out ); break;
	    case O_G2MLS:
	    {
		GridFloatToMLS* o = static_cast<GridFloatToMLS*>( op ); std::string band = c.n[3] % 2 ? "" : dynamic_cast< Grid<float>* >( in[0] ) ? Grid<float>::GRID_DATA : Grid<double>::GRID_DATA;
		if( dynamic_cast< Grid<float>* >( in[0] ) ) o->setInput( dynamic_cast< Grid<float>* >( in[0] ), band ); else o->setInput( dynamic_cast< Grid<double>* >( in[0] ), band );
		o->setOutput( (MLSGrid*)out ); break;
	    }
	    case O_PROJ: for( size_t i=0;i<in.size();i++ ) static_cast<MLSProjection*>( op )->addInput( (Pointcloud*)in[i] ); static_cast<MLSProjection*>( op )->addOutput( (MLSGrid*)out ); break;
	    case O_M2G: static_cast<Operator*>( op )->setInput( in[0] ); static_cast<MLSToGrid*>( op )->setOutput( (Grid<double>*)out, outBand( c ) ); break;
	    case O_M2PC: static_cast<MLSToPointCloud*>( op )->setInput( (MLSGrid*)in[0] ); static_cast<MLSToPointCloud*>( op )->setOutput( (Pointcloud*)out ); break;
	    case O_MERGEPC: for( size_t i=0;i<in.size();i++ ) static_cast<MergePointcloud*>( op )->addInput( (Pointcloud*)in[i] ); static_cast<MergePointcloud*>( op )->addOutput( (Pointcloud*)out ); break;
	    case O_SCAN: static_cast<ScanMeshing*>( op )->addInput( (LaserScan*)in[0] ); static_cast<ScanMeshing*>( op )->addOutput( (TriMesh*)out ); break;
	    case O_SIMPLE:
	    {
		SimpleTraversability* o = static_cast<SimpleTraversability*>( op ); int k = c.n[3] % 3;
		if( k != 1 ) o->setSlope( (Grid<float>*)in[0], "mean_slope" ); if( k != 0 ) o->setMaxStep( (Grid<float>*)in.back(), "max_step" );
		o->setOutput( (TraversabilityGrid*)out, c.n[1] % 3 ? TraversabilityGrid::TRAVERSABILITY : "" ); break;
	    }
	    default: for( size_t i=0;i<in.size();i++ ) op->addInput( in[i] ); op->addOutput( out );
	}
    }
    void newOp( const Op& op )
    {
	if( ops.size() >= 10 || maps.size() > 60 ) return;
	OpM o; o.kind = op.a[0] % O_COUNT; o.conf = o.born = (uint64_t)op.a[1]; o.wired = true; Rng r( op.a[1] + 1 );
	int geo = r.below( 5 ), g2 = r.chance( 1, 10 ) ? (int)r.below( 5 ) : geo; std::vector<MapM*> in; MapM* out = 0; long a = op.a[2], b = op.a[3];
	switch( o.kind )
	{
	    case O_CUT: in.push_back( need( K_CLOUD, a, -1 ) ); out = need( K_CLOUD, b, -1 ); break;
	    case O_D2P: in.push_back( need( K_DIST, a, geo ) ); if( r.chance( 1, 2 ) ) in.push_back( need( K_IMG, a / 5, g2 ) ); out = need( K_CLOUD, b, -1 ); break;
	    case O_FOLD: in.push_back( need( K_GD, a, geo ) ); out = need( K_GD, b, g2 ); break;
	    case O_G2MLS: in.push_back( need( r.chance( 1, 2 ) ? K_GD : K_GF, a, -1 ) ); out = need( K_MLS, b, -1 ); break;
	    case O_ILLUM: out = need( K_ELEV, b, -1 ); break;
	    case O_PROJ: { int n = 1 + r.below( 2 ); for( int i=0;i<n;i++ ) in.push_back( need( K_CLOUD, a + i, -1 ) ); out = need( K_MLS, b, -1 ); break; }
	    case O_SLOPE: in.push_back( need( K_MLS, a, geo ) ); out = need( K_GF, b, g2 ); break;
	    case O_M2G: in.push_back( need( K_MLS, a, geo ) ); out = need( K_GD, b, g2 ); break;
	    case O_M2PC: in.push_back( need( K_MLS, a, -1 ) ); out = need( K_CLOUD, b, -1 ); break;
	    case O_MERGEPC: { int n = 1 + r.below( 3 ); for( int i=0;i<n;i++ ) in.push_back( need( K_CLOUD, a + i, -1 ) ); out = need( K_CLOUD, b, -1 ); break; }
	    case O_SCAN: in.push_back( need( K_SCAN, a, -1 ) ); out = need( K_MESH, b, -1 ); break;
	    case O_SIMPLE: in.push_back( need( K_GF, a, geo ) ); if( r.chance( 1, 3 ) ) in.push_back( need( K_GF, a / 7, geo ) ); out = need( K_TRAV, b, g2 ); break;
	    case O_FIRE: in.push_back( need( K_MLS, a, geo ) ); out = need( K_TRAV, b, g2 ); break;
	    case O_GROW: in.push_back( need( K_TRAV, a, geo ) ); out = need( K_TRAV, b, g2 ); break;
	    case O_MERGEMLS: { int n = 1 + r.below( 2 ); for( int i=0;i<n;i++ ) in.push_back( need( K_MLS, a + i, -1 ) ); out = need( K_MLS, b, -1 ); break; }
	}
	std::vector<Layer*> ins; for( size_t i=0;i<in.size();i++ ) { if( in[i]->map == out->map ) return; if( std::find( ins.begin(), ins.end(), in[i]->map ) == ins.end() ) ins.push_back( in[i]->map ); }
	for( size_t i=0;i<ops.size();i++ ) { std::list<Layer*> l; { LibScope ls; l = env->getOutputs( ops[i].op ); } if( std::find( l.begin(), l.end(), out->map ) != l.end() ) return; }
	Conf* c = new Conf( o.conf ); confs.push_back( c ); Operator* p = 0; Layer* ol = out->map;
	if( o.kind == O_MERGEMLS && r.chance( 1, 2 ) )
	{
	    // some of the grids come as parts of a map
	    std::vector<Layer*> kids( 1, ins.back() ); ins.pop_back(); MapM* m = need( K_MLS, a / 3, -1 ); if( m->map != ol && m->map != kids[0] ) kids.push_back( m->map );
	    MLSMap* g = 0; must( "creating a map of grids", [&]{ g = new MLSMap(); env->attachItem( g ); for( size_t i=0;i<kids.size();i++ ) g->addGrid( static_cast<MLSGrid*>( kids[i] ) ); } );
	    ins.insert( ins.begin() + r.below( ins.size() + 1 ), g ); count( "op.new.MLSMap" );
	}
	must( "creating an operator", [&]{ p = create( o.kind, *c ); configure( o.kind, p, *c, 0 ); env->attachItem( p ); wire( o.kind, p, *c, ins, ol ); } );
	boxesOf[p] = c; o.op = p; ops.push_back( o ); count( ( std::string( "op.new." ) + oname[o.kind] ).c_str() );
    }
    OpM* pickOp( long a ) { return ops.empty() ? 0 : &ops[ a % ops.size() ]; }
    void reconf( const Op& op )
    {
	OpM* o = pickOp( op.a[0] ); if( !o || o->kind == O_SIMPLE || o->kind == O_M2G || o->kind == O_G2MLS ) return;
	if( o->kind == O_SLOPE ) return;
	Conf* c = new Conf( op.a[1] ); confs.push_back( c );
	must( "configuring an operator", [&]{ configure( o->kind, o->op, *c, boxesOf[o->op] ); } ); boxesOf[o->op] = c; o->conf = op.a[1]; count( "op.configure" );
    }
    // in the order in which they were added, or after loading in that of their ids
    std::vector<Layer*> gridsOf( MLSMap* g )
    {
	LibScope ls; std::vector<Layer*> v; std::map<std::string,Layer*> rest; std::list<Layer*> k = env->getChildren( g );
	for( std::list<Layer*>::iterator it = k.begin(); it != k.end(); ++it ) rest[ (*it)->getUniqueId() ] = *it;
	for( size_t i=0;i<g->getGrids().size();i++ ) { Layer* l = g->getGrids()[i].get(); if( std::find( k.begin(), k.end(), l ) == k.end() ) continue; v.push_back( l ); rest.erase( l->getUniqueId() ); }
	for( std::map<std::string,Layer*>::iterator it = rest.begin(); it != rest.end(); ++it ) v.push_back( it->second );
	return v;
    }
    // an environment that was made just now, with copies of all maps in the same places and an operator of its own
    struct Twin { Environment* env; std::map<Layer*,CartesianMap*> of; Operator* op; Conf* conf; Conf* conf2; };
    void twin( Twin& t, OpM& o )
    {
	t.op = 0; t.conf = new Conf( o.born ); t.conf2 = new Conf( o.conf );
	must( "making a fresh environment", [&]{
	    t.env = new Environment(); std::map<FrameNode*,FrameNode*> f; f[ frames[0] ] = t.env->getRootNode(); t.env->getRootNode()->setTransform( frames[0]->getTransformWithUncertainty() );
	    std::vector<FrameNode*> todo( frames.begin() + 1, frames.end() );
	    while( !todo.empty() ) { std::vector<FrameNode*> rest; for( size_t i=0;i<todo.size();i++ ) if( f.count( up[ todo[i] ] ) ) { FrameNode* n = new FrameNode( todo[i]->getTransformWithUncertainty() ); t.env->addChild( f[ up[ todo[i] ] ], n ); f[ todo[i] ] = n; } else rest.push_back( todo[i] ); todo.swap( rest ); }
	    for( size_t i=0;i<maps.size();i++ ) { CartesianMap* c = dynamic_cast<CartesianMap*>( maps[i].map->clone() ); t.env->setFrameNode( c, f[ maps[i].frame ] ); t.of[ maps[i].map ] = c; }
	    t.op = create( o.kind, *t.conf ); configure( o.kind, t.op, *t.conf2, 0 ); t.env->attachItem( t.op );
	} );
	std::list<Layer*> in, out; { LibScope ls; in = env->getInputs( o.op ); out = env->getOutputs( o.op ); }
	std::vector<Layer*> ins;
	for( std::list<Layer*>::iterator it = in.begin(); it != in.end(); ++it ) if( MLSMap* g = dynamic_cast<MLSMap*>( *it ) )
	{
	    std::vector<Layer*> k = gridsOf( g );
	    MLSMap* n = 0; must( "making a map of grids", [&]{ n = new MLSMap(); t.env->attachItem( n ); for( size_t i=0;i<k.size();i++ ) n->addGrid( static_cast<MLSGrid*>( t.of[ k[i] ] ) ); } ); ins.push_back( n );
	}
	else ins.push_back( t.of[*it] );
	if( out.size() != 1 || !t.of.count( out.front() ) ) violation( "wiring-differs", "an operator lost its output" );
	must( "wiring an operator", [&]{ wire( o.kind, t.op, *t.conf, ins, t.of[ out.front() ] ); } );
    }
    void drop( Twin& t ) { must( "destroying an environment", [&]{ delete t.env; } ); delete t.conf; delete t.conf2; }
    // other content in what the operator computes anew
    void scramble( OpM& o, Layer* l, Rng& r )
    {
	switch( o.kind )
	{
	    case O_CUT: case O_D2P: case O_M2PC: case O_MERGEPC: case O_SCAN:
	    {
		Pointcloud* p = static_cast<Pointcloud*>( l ); size_t n = r.below( 9 ); p->vertices.assign( n, V3( 1, 2, 3 ) );
		if( p->hasData( Pointcloud::VERTEX_NORMAL ) ) p->getVertexData<V3>( Pointcloud::VERTEX_NORMAL ).assign( n, V3( 0, 0, 1 ) );
		if( p->hasData( Pointcloud::VERTEX_COLOR ) && o.kind != O_SCAN ) p->getVertexData<V3>( Pointcloud::VERTEX_COLOR ).assign( n, V3( 1, 0, 0 ) );
		if( p->hasData( Pointcloud::VERTEX_VARIANCE ) ) p->getVertexData<double>( Pointcloud::VERTEX_VARIANCE ).assign( n, 3 );
		if( p->hasData( Pointcloud::VERTEX_ATTRIBUTES ) ) p->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES ).assign( n, 5 );
		if( o.kind == O_SCAN ) static_cast<TriMesh*>( l )->faces.assign( n / 3, TriMesh::triangle_t( 0, 1, 2 ) );
		break;
	    }
	    case O_FOLD: fillF( static_cast< Grid<double>* >( l ), Grid<double>::GRID_DATA.c_str(), r, 3 ); break;
	    case O_ILLUM: fillF<double>( static_cast<ElevationGrid*>( l ), ElevationGrid::ILLUMINATION.c_str(), r, 3 ); break;
	    case O_SLOPE: for( int i=0;i<3;i++ ) fillF( static_cast< Grid<float>* >( l ), fbands[i], r, 3 ); break;
	    case O_SIMPLE: case O_FIRE: case O_GROW:
	    {
		TraversabilityGrid* g = static_cast<TraversabilityGrid*>( l ); const char* b[] = { TraversabilityGrid::TRAVERSABILITY.c_str(), TraversabilityGrid::PROBABILITY.c_str() };
		for( int k=0;k<2;k++ ) { TraversabilityGrid::ArrayType& a = g->getGridData( b[k] ); for( size_t i=0;i<a.num_elements();i++ ) a.data()[i] = (uint8_t)r.below( 256 ); }
		break;
	    }
	}
    }
    bool computes( OpM& o, Conf& c )     // does it write all of its output?
    {
	if( accumulates( o.kind, c ) ) return false;
	if( o.kind == O_FIRE )
	{
	    std::list<Layer*> in; { LibScope ls; in = env->getInputs( o.op ); } MLSGrid* g = static_cast<MLSGrid*>( in.front() ); size_t x, y; bool ok;
	    { LibScope ls; ok = g->toGrid( V3( ( c.d[4] - 0.5 ) * 3, ( c.d[5] - 0.5 ) * 3, c.d[6] - 0.5 ), x, y, env->getRootNode() ); } return ok;
	}
	return true;
    }
    // clouds have to carry the same vertex data where an operator combines them, and its output none that the operator does not know
    static unsigned has( Pointcloud* p ) { return ( p->hasData( Pointcloud::VERTEX_NORMAL ) ? 1 : 0 ) | ( p->hasData( Pointcloud::VERTEX_COLOR ) ? 2 : 0 ) | ( p->hasData( Pointcloud::VERTEX_ATTRIBUTES ) ? 4 : 0 ) | ( p->hasData( Pointcloud::VERTEX_VARIANCE ) ? 8 : 0 ); }
    static void strip( Pointcloud* p, unsigned keep )
    {
	if( !( keep & 1 ) ) p->removeData( Pointcloud::VERTEX_NORMAL ); if( !( keep & 2 ) ) p->removeData( Pointcloud::VERTEX_COLOR );
	if( !( keep & 4 ) ) p->removeData( Pointcloud::VERTEX_ATTRIBUTES ); if( !( keep & 8 ) ) p->removeData( Pointcloud::VERTEX_VARIANCE );
    }
    static size_t sizeOf( Pointcloud* p, unsigned what )
    {
	switch( what ) { case 1: return p->getVertexData<V3>( Pointcloud::VERTEX_NORMAL ).size(); case 2: return p->getVertexData<V3>( Pointcloud::VERTEX_COLOR ).size(); case 4: return p->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES ).size(); }
	return p->getVertexData<double>( Pointcloud::VERTEX_VARIANCE ).size();
    }
    static unsigned odd( Pointcloud* p ) { unsigned h = has( p ), r = 0; for( unsigned b=1;b<16;b*=2 ) if( ( h & b ) && sizeOf( p, b ) != p->vertices.size() ) r |= b; return r; }
    void keep( Layer* l, unsigned k )
    {
	Pointcloud* p = static_cast<Pointcloud*>( l ); if( !( has( p ) & ~k ) ) return;
	must( "removing vertex data", [&]{ strip( p, k ); env->itemModified( p ); } );
    }
    void prepare( OpM& o )
    {
	if( o.kind != O_CUT && o.kind != O_D2P && o.kind != O_M2PC && o.kind != O_MERGEPC && o.kind != O_SCAN ) return;
	std::list<Layer*> in, out; { LibScope ls; in = env->getInputs( o.op ); out = env->getOutputs( o.op ); }
	Pointcloud* t = static_cast<Pointcloud*>( out.front() ); unsigned k = 0;
	// what an operator left behind when it was interrupted
	if( odd( t ) ) { must( "clearing a cloud", [&]{ t->vertices.clear(); strip( t, 0 ); if( TriMesh* m = dynamic_cast<TriMesh*>( t ) ) m->faces.clear(); env->itemModified( t ); } ); }
	switch( o.kind )
	{
	    case O_D2P: k = 8 | ( in.size() > 1 ? 2 : 0 ); break;
	    case O_SCAN: k = 15; break;
	    case O_CUT: case O_MERGEPC:
		k = o.kind == O_CUT ? 15 : 3; for( std::list<Layer*>::iterator it = in.begin(); it != in.end(); ++it ) k &= has( static_cast<Pointcloud*>( *it ) );
		if( o.kind == O_MERGEPC && !t->vertices.empty() ) k &= has( t );
		if( o.kind == O_MERGEPC ) for( std::list<Layer*>::iterator it = in.begin(); it != in.end(); ++it ) keep( *it, k | 12 );
		break;
	}
	keep( t, k );
    }
    void heal( const char* what )      // an interrupted operator leaves its output incomplete
    {
	for( size_t i=0;i<maps.size();i++ ) if( maps[i].kind == K_CLOUD || maps[i].kind == K_MESH )
	{
	    Pointcloud* p = static_cast<Pointcloud*>( maps[i].map ); unsigned k = odd( p ); if( !k ) continue;
	    if( !what ) violation( "result-inconsistent", fmt( "%s has not as many normals, colors, attributes or variances (%x) as points", name( i ).c_str(), k ) );
	    must( "clearing a cloud", [&]{ p->vertices.clear(); strip( p, 0 ); if( TriMesh* m = dynamic_cast<TriMesh*>( p ) ) m->faces.clear(); env->itemModified( p ); } );
	}
    }
    // ---------------------------------------------------------------- what the result has to be
    struct Pt { V3 p, n, c; double var; int attr; };
    struct Ref { bool cloud; unsigned data; std::vector<Pt> pts; MLSGrid* mls; std::set< std::pair<size_t,size_t> > vague; bool cells; std::vector<double> val; std::string band; std::vector<int> cls; bool drive, mesh; std::vector< std::vector<int> > faces; std::vector<double> dr; Ref() : cloud( false ), data( 0 ), mls( 0 ), cells( false ), drive( false ), mesh( false ) {} ~Ref() { LibScope ls; delete mls; } };
    Transform toRoot( FrameNode* f ) { Transform t( Transform::Identity() ); for( ; f; f = up[f] ) if( up[f] ) { LibScope ls; t = f->getTransform() * t; } return t; }
    static void points( Pointcloud* p, unsigned d, const Transform& t, std::vector<Pt>& out )
    {
	unsigned h = has( p ); Eigen::Matrix3d rot = t.linear();
	for( size_t i=0;i<p->vertices.size();i++ )
	{
	    Pt q; q.p = t * p->vertices[i]; q.n = q.c = V3::Zero(); q.var = 0; q.attr = 0;
	    if( d & h & 1 ) q.n = rot * p->getVertexData<V3>( Pointcloud::VERTEX_NORMAL )[i];
	    if( d & h & 2 ) q.c = p->getVertexData<V3>( Pointcloud::VERTEX_COLOR )[i];
	    if( d & h & 4 ) q.attr = p->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES )[i];
	    if( d & h & 8 ) q.var = p->getVertexData<double>( Pointcloud::VERTEX_VARIANCE )[i];
	    out.push_back( q );
	}
    }
    // cells that a position close to the border of a cell might be in
    static bool onBorder( const GridBase* g, double x, double y )
    {
	double a = ( x - g->getOffsetX() ) / g->getScaleX(), b = ( y - g->getOffsetY() ) / g->getScaleY();
	return fabs( a - rint( a ) ) < 1e-6 || fabs( b - rint( b ) ) < 1e-6;
    }
    static void vagueCells( const GridBase* g, double x, double y, std::set< std::pair<size_t,size_t> >& v )
    {
	double a = ( x - g->getOffsetX() ) / g->getScaleX(), b = ( y - g->getOffsetY() ) / g->getScaleY();
	if( fabs( a ) > 1e6 || fabs( b ) > 1e6 || !onBorder( g, x, y ) ) return;
	for( int i=-1;i<2;i++ ) for( int k=-1;k<2;k++ ) { double m = floor( a + i * 1e-6 ), n = floor( b + k * 1e-6 ); if( m >= 0 && n >= 0 ) v.insert( std::make_pair( (size_t)m, (size_t)n ) ); }
    }
    void buildRef( OpM& o, Ref& f )
    {
	LibScope ls; Conf c( o.conf ), born( o.born ); std::list<Layer*> il = env->getInputs( o.op ), ol = env->getOutputs( o.op ); Layer* out = ol.front();
	std::vector<Layer*> in; CartesianMap* om = static_cast<CartesianMap*>( out );
	for( std::list<Layer*>::iterator it = il.begin(); it != il.end(); ++it ) if( MLSMap* g = dynamic_cast<MLSMap*>( *it ) ) { std::vector<Layer*> k = gridsOf( g ); in.insert( in.end(), k.begin(), k.end() ); } else in.push_back( *it );
	 std::vector<Transform> T; FrameNode* of = 0; std::vector<FrameNode*> inf( in.size(), (FrameNode*)0 );
	for( size_t i=0;i<maps.size();i++ ) { if( maps[i].map == out ) of = maps[i].frame; for( size_t k=0;k<in.size();k++ ) if( maps[i].map == in[k] ) inf[k] = maps[i].frame; }
	for( size_t k=0;k<in.size();k++ ) T.push_back( toRoot( of ).inverse( Eigen::Isometry ) * toRoot( inf[k] ) );
	switch( o.kind )
	{
	    case O_CUT:
	    {
		Pointcloud* p = static_cast<Pointcloud*>( in[0] ); std::vector<Pt> l, g; f.cloud = true; f.data = has( p ); points( p, f.data, T[0], l );
		for( size_t i=0;i<l.size();i++ )
		{
		    bool take = true; for( int k=0;k<c.nboxes;k++ ) { ExclusionBox& b = c.boxes[ ( k + c.n[1] ) % 3 ]; if( b.box.contains( p->vertices[i] ) == b.exclude ) take = false; }
		    if( take ) f.pts.push_back( l[i] );
		}
		break;
	    }
	    case O_D2P:
	    {
		DistanceGrid* g = dynamic_cast<DistanceGrid*>( in[0] ); ImageRGB24* im = 0; for( size_t k=0;k<in.size();k++ ) { if( dynamic_cast<ImageRGB24*>( in[k] ) ) im = dynamic_cast<ImageRGB24*>( in[k] ); else g = dynamic_cast<DistanceGrid*>( in[k] ), T[0] = T[k]; }
		if( im && ( im->getCellSizeX() != g->getCellSizeX() || im->getCellSizeY() != g->getCellSizeY() ) ) break;
		f.cloud = true; f.data = 8 | ( im ? 2 : 0 ); DistanceGrid::ArrayType& d = g->getGridData( DistanceGrid::DISTANCE );
		for( size_t x=0;x<g->getCellSizeX();x++ ) for( size_t y=0;y<g->getCellSizeY();y++ )
		{
		    float v = d[y][x]; if( !std::isnormal( v ) || !( v < 0.3 + c.d[1] ) ) continue;
		    Pt q; q.p = T[0] * ( V3( ( x + 0.5 ) * g->getScaleX() + g->getOffsetX(), ( y + 0.5 ) * g->getScaleY() + g->getOffsetY(), 1 ) * v ); q.n = q.c = V3::Zero(); q.attr = 0; q.var = v * c.d[0];
		    if( im ) q.c = V3( im->getGridData( ImageRGB24::R )[y][x] / 255.0, im->getGridData( ImageRGB24::G )[y][x] / 255.0, im->getGridData( ImageRGB24::B )[y][x] / 255.0 );
		    f.pts.push_back( q );
		}
		break;
	    }
	    case O_SCAN:
	    {
		LaserScan* s = static_cast<LaserScan*>( in[0] ); double len = 0.05 + c.d[0] * 0.4, scale = 1000 + c.d[1] * 20000, lo = c.d[2] * 1.1, hi = c.b[1] ? 1e9 : 1.0 + c.d[3], maxAngle = 85.0 / 180.0 * M_PI; f.cloud = f.mesh = true; f.data = 8 | 4;
		std::vector<int> prev;
		for( size_t i=0;i<s->lines.size();i++ )
		{
		    const LaserScan::scanline_t& l = s->lines[i]; size_t n = l.ranges.size(); float phi = s->origin_phi + l.delta_phi, psi = s->origin_psi, was = M_PI * 0.5; std::vector<int> cur( n, -1 ); bool rem = c.b[0] && l.remissions.size() == n;
		    for( size_t k=0;k<n;k++ )
		    {
			float r = l.ranges[k] / 1000.0, angle = M_PI * 0.5;
			if( k + 1 < n ) { float q = l.ranges[k + 1] / 1000.0, d = sqrt( pow( r, 2 ) + pow( q, 2 ) - 2 * r * q * cos( 2 * s->delta_psi ) ); angle = acos( ( pow( r, 2 ) - pow( q, 2 ) + pow( d, 2 ) ) / ( 2 * r * d ) ); }
			bool pass = fabs( angle - M_PI * 0.5 ) < maxAngle && fabs( was - M_PI * 0.5 ) < maxAngle; was = angle;
			if( r > lo && r < hi && pass )
			{
			    Pt p; float h = std::cos( psi ) * r; p.n = p.c = V3::Zero();
			    p.p = s->x_forward ? V3( std::cos( phi ) * h, std::sin( psi ) * r, std::sin( phi ) * h ) : V3( -std::sin( psi ) * r, std::cos( phi ) * h, std::sin( phi ) * h );
			    p.p += Eigen::AngleAxisd( phi, V3::UnitX() ) * s->center_offset; double sigma = std::min( 0.01 * r, 0.02 ); p.var = sigma * sigma;
			    if( rem ) { p.c = V3::Ones() * (double)(float)std::min( 1.0, std::max( 0.0, l.remissions[k] / scale ) ); f.data |= 2; }
			    p.attr = ( k == 0 || k + 1 == n || i == 0 || i + 1 == s->lines.size() ) ? 1 << Pointcloud::SCAN_EDGE : 0;
			    cur[k] = (int)f.pts.size(); f.pts.push_back( p );
			}
			if( i && k )
			{
			    // a square is split where the first triangle fits
			    int q[4] = { prev[k - 1], prev[k], cur[k], cur[k - 1] }, first = -1;
			    for( int m=0;m<4;m++ )
			    {
				int t[3], z = 0; for( int a=0;a<4;a++ ) if( a != m ) t[z++] = q[a];
				if( t[0] < 0 || t[1] < 0 || t[2] < 0 || ( first >= 0 && ( first + m ) % 2 ) ) continue;
				if( !( (float)( f.pts[t[0]].p - f.pts[t[1]].p ).norm() < len && (float)( f.pts[t[0]].p - f.pts[t[2]].p ).norm() < len && (float)( f.pts[t[1]].p - f.pts[t[2]].p ).norm() < len ) ) continue;
				first = m; if( fabs( psi ) > M_PI / 2 ) std::swap( t[1], t[2] ); f.faces.push_back( std::vector<int>( t, t + 3 ) );
			    }
			}
			psi += s->delta_psi;
		    }
		    prev.swap( cur );
		}
		break;
	    }
	    case O_M2PC:
	    {
		MLSGrid* g = static_cast<MLSGrid*>( in[0] ); f.cloud = true; float step = ( g->getScaleX() + g->getScaleY() ) * 0.5;
		for( size_t x=0;x<g->getCellSizeX();x++ ) for( size_t y=0;y<g->getCellSizeY();y++ ) for( MLSGrid::iterator it = g->beginCell( x, y ); it != g->endCell(); it++ )
		{
		    Pt q; q.n = q.c = V3::Zero(); q.attr = 0; q.var = 0; V3 l( ( x + 0.5 ) * g->getScaleX() + g->getOffsetX(), ( y + 0.5 ) * g->getScaleY() + g->getOffsetY(), it->mean );
		    if( it->isHorizontal() ) { q.p = T[0] * l; f.pts.push_back( q ); }
		    else if( it->isVertical() ) for( float z = it->mean - it->height; z <= it->mean; z += step ) { l.z() = z; q.p = T[0] * l; f.pts.push_back( q ); }
		}
		break;
	    }
	    case O_MERGEPC:
	    {
		Pointcloud* p = static_cast<Pointcloud*>( out ); f.cloud = true; f.data = 3; for( size_t k=0;k<in.size();k++ ) f.data &= has( static_cast<Pointcloud*>( in[k] ) );
		if( c.n[0] % 4 == 0 ) points( p, f.data, Transform( Transform::Identity() ), f.pts );
		for( size_t k=0;k<in.size();k++ ) points( static_cast<Pointcloud*>( in[k] ), f.data, T[k], f.pts );
		break;
	    }
	    case O_FOLD:
	    {
		Grid<double>* g = static_cast< Grid<double>* >( in[0] ); long W = g->getCellSizeX(), H = g->getCellSizeY(), h = ( c.n[0] % 5 + 1 ) / 2; f.cells = true; f.band = Grid<double>::GRID_DATA;
		for( long y=0;y<H;y++ ) for( long x=0;x<W;x++ )
		{ double sum = 0; int n = 0; for( long b=y - h;b<y + h;b++ ) for( long a=x - h;a<x + h;a++ ) if( a >= 0 && b >= 0 && a < W && b < H ) { sum += g->getGridData()[b][a]; n++; } f.val.push_back( n ? sum / n : 0 ); }
		break;
	    }
	    case O_M2G:
	    {
		MLSGrid* g = static_cast<MLSGrid*>( in[0] ); Grid<double>* q = static_cast< Grid<double>* >( out ); f.band = outBand( o.born ? born : c ); bool had = q->hasBand( f.band ); f.cells = true;
		for( size_t y=0;y<g->getCellSizeY();y++ ) for( size_t x=0;x<g->getCellSizeX();x++ )
		{
		    double v = 0; bool any = false; for( MLSGrid::iterator it = g->beginCell( x, y ); it != g->endCell(); it++ ) { if( !any || it->mean > v ) v = it->mean; any = true; }
		    if( !any ) { if( !had || y >= q->getCellSizeY() || x >= q->getCellSizeX() ) v = 0; else v = q->getGridData( f.band )[y][x]; }
		    f.val.push_back( v );
		}
		break;
	    }
	    case O_G2MLS:
	    {
		MLSGrid* g = static_cast<MLSGrid*>( out ); f.mls = new MLSGrid( *g ); Grid<double>* d = dynamic_cast< Grid<double>* >( in[0] ); Grid<float>* e = dynamic_cast< Grid<float>* >( in[0] ); GridBase* q = static_cast<GridBase*>( in[0] );
		Transform t = T[0].inverse( Eigen::Isometry );
		for( size_t y=0;y<g->getCellSizeY();y++ ) for( size_t x=0;x<g->getCellSizeX();x++ )
		{
		    V3 p = t * V3( ( x + 0.5 ) * g->getScaleX() + g->getOffsetX(), ( y + 0.5 ) * g->getScaleY() + g->getOffsetY(), 0 ); long a = (long)floor( ( p.x() - q->getOffsetX() ) / q->getScaleX() ), b = (long)floor( ( p.y() - q->getOffsetY() ) / q->getScaleY() );
		    if( onBorder( q, p.x(), p.y() ) ) f.vague.insert( std::make_pair( x, y ) );
		    if( a < 0 || b < 0 || a >= (long)q->getCellSizeX() || b >= (long)q->getCellSizeY() ) continue;
		    if( d ) f.mls->updateCell( x, y, d->getGridData()[b][a], 0 ); else f.mls->updateCell( x, y, e->getGridData()[b][a], 0 );
		}
		break;
	    }
	    case O_MERGEMLS:
	    {
		MLSGrid* g = static_cast<MLSGrid*>( out ); f.mls = new MLSGrid( *g );
		if( !c.b[0] ) for( size_t k=0;k<in.size();k++ )
		{
		    MLSGrid* q = static_cast<MLSGrid*>( in[k] ); Transform t = env->relativeTransform( q, g );
		    for( size_t x=0;x<q->getCellSizeX();x++ ) for( size_t y=0;y<q->getCellSizeY();y++ ) for( MLSGrid::iterator it = q->beginCell( x, y ); it != q->endCell(); it++ )
		    {
			SurfacePatch s( *it ); V3 l( ( x + 0.5 ) * q->getScaleX() + q->getOffsetX(), ( y + 0.5 ) * q->getScaleY() + q->getOffsetY(), s.mean ), p = t * l; 
			if( ( T[k] * l - p ).norm() > 1e-6 ) violation( "wrong-transform", "relativeTransform is wrong" );
			vagueCells( g, p.x(), p.y(), f.vague ); size_t a, b; if( !g->toGrid( p.x(), p.y(), a, b ) ) continue; s.mean = p.z(); f.mls->updateCell( a, b, s );
		    }
		}
		else for( size_t x=0;x<g->getCellSizeX();x++ ) for( size_t y=0;y<g->getCellSizeY();y++ ) for( size_t k=0;k<in.size();k++ )
		{
		    MLSGrid* q = static_cast<MLSGrid*>( in[k] ); Transform t = env->relativeTransform( g, q ); V3 l( ( x + 0.5 ) * g->getScaleX() + g->getOffsetX(), ( y + 0.5 ) * g->getScaleY() + g->getOffsetY(), 0 ), p = t * l;
		    if( onBorder( q, p.x(), p.y() ) ) f.vague.insert( std::make_pair( x, y ) );
		    size_t a, b; if( !q->toGrid( p.x(), p.y(), a, b ) ) continue;
		    for( MLSGrid::iterator it = q->beginCell( a, b ); it != q->endCell(); it++ ) { SurfacePatch s( *it ); s.mean += p.z(); f.mls->updateCell( x, y, s ); }
		}
		break;
	    }
	    case O_PROJ:
	    {
		// negative information is left to the other oracles
		if( c.n[0] % 5 == 0 ) break;
		MLSGrid* g = static_cast<MLSGrid*>( out ); f.mls = new MLSGrid( *g );
		for( size_t k=0;k<in.size();k++ )
		{
		    Pointcloud* q = static_cast<Pointcloud*>( in[k] ); TransformWithUncertainty u = env->relativeTransformWithUncertainty( inf[k], of ); Transform t = u.getTransform(); bool var = ( has( q ) & 8 ) && sizeOf( q, 8 ) == q->vertices.size(); if( has( q ) & 2 ) f.mls->setHasCellColor( true );
		    // points are collected in a grid of their own; then each patch gets the uncertainty of the pose
		    MLSGrid* m = f.mls; bool own = c.b[0] && f.mls->getCellCount(); std::set< std::pair<size_t,size_t> > cells;
		    if( own ) { m = new MLSGrid( g->getWidth(), g->getHeight(), g->getScaleX(), g->getScaleY(), g->getOffsetX(), g->getOffsetY() ); m->getConfig() = g->getConfig(); }
		    for( size_t i=0;i<q->vertices.size();i++ )
		    {
			V3 p = t * q->vertices[i]; if( ( T[k] * q->vertices[i] - p ).norm() > 1e-6 ) violation( "wrong-transform", "relativeTransform is wrong" );
			if( c.b[1] && !( p.x() >= -c.d[1] * 2 && p.x() <= c.d[2] * 2 && p.y() >= -c.d[3] * 2 && p.y() <= c.d[4] * 2 && p.z() >= -c.d[5] * 2 && p.z() <= c.d[6] * 2 ) ) continue;
			vagueCells( g, p.x(), p.y(), f.vague ); SurfacePatch s( p.z(), sqrt( var ? q->getVertexData<double>( Pointcloud::VERTEX_VARIANCE )[i] : 0.001 + c.d[0] * 0.1 ) ); if( has( q ) & 2 ) s.setColor( q->getVertexData<V3>( Pointcloud::VERTEX_COLOR )[i] );
			m->update( p.head<2>(), s ); size_t x, y; if( m->toGrid( p.x(), p.y(), x, y ) ) cells.insert( std::make_pair( x, y ) );
		    }
		    if( c.b[0] ) for( std::set< std::pair<size_t,size_t> >::iterator e = cells.begin(); e != cells.end(); e++ ) for( MLSGrid::iterator it = m->beginCell( e->first, e->second ); it != m->endCell(); it++ )
		    {
			V3 at( ( e->first + 0.5 ) * g->getScaleX() + g->getOffsetX(), ( e->second + 0.5 ) * g->getScaleY() + g->getOffsetY(), it->mean ); double v = it->stdev * it->stdev;
			it->stdev = sqrt( v + ( u * PointWithUncertainty( t.inverse( Eigen::Isometry ) * at ) ).getCovariance()( 2, 2 ) );
			if( own ) f.mls->updateCell( e->first, e->second, *it );
		    }
		    if( own ) delete m;
		}
		break;
	    }
	    case O_GROW:
	    {
		TraversabilityGrid* g = static_cast<TraversabilityGrid*>( in[0] ); double r = c.d[0] * 1.5; long W = g->getCellSizeX(), H = g->getCellSizeY(); const std::vector<TraversabilityClass>& k = g->getTraversabilityClasses(); f.drive = true;
		TraversabilityGrid::ArrayType& a = g->getGridData( TraversabilityGrid::TRAVERSABILITY ); TraversabilityGrid::ArrayType& b = g->getGridData( TraversabilityGrid::PROBABILITY );
		for( long y=0;y<H;y++ ) for( long x=0;x<W;x++ )
		{
		    double best = 2; 
		    for( long v=0;v<H;v++ ) for( long u=0;u<W;u++ ) if( b[v][u] && ( ( u == x && v == y ) || pow( ( u - x ) * g->getScaleX(), 2 ) + pow( ( v - y ) * g->getScaleY(), 2 ) < r * r ) ) best = std::min( best, (double)k[ a[v][u] ].getDrivability() );
		    f.dr.push_back( best > 1.5 ? -1 : best );
		}
		break;
	    }
	    case O_SIMPLE:
	    {
		TraversabilityGrid* g = static_cast<TraversabilityGrid*>( out ); long W = g->getCellSizeX(), H = g->getCellSizeY(); double slope = born.b[0] ? 0.2 + born.d[0] : 0, width = born.b[1] ? born.d[1] * 1.5 : 0, clear = born.b[2] ? born.d[2] : 0, grow = born.n[1] % 2 == 0 && born.b[3] ? born.d[3] * 1.5 : 0; int n = 1 + born.n[2] % 8, what = born.n[3] % 3;
		Grid<float>* s = what != 1 ? static_cast< Grid<float>* >( in[0] ) : 0; Grid<float>* m = what != 0 ? static_cast< Grid<float>* >( in.back() ) : 0;
		if( ( s && ( (long)s->getCellSizeX() != W || (long)s->getCellSizeY() != H ) ) || ( m && ( (long)m->getCellSizeX() != W || (long)m->getCellSizeY() != H ) ) ) break;
		float us = -std::numeric_limits<float>::infinity(), um = us; if( s && s->getNoData( "mean_slope" ).second ) us = s->getNoData( "mean_slope" ).first; if( m && m->getNoData( "max_step" ).second ) um = m->getNoData( "max_step" ).first;
		std::vector<int> r;
		for( long y=0;y<H;y++ ) for( long x=0;x<W;x++ )
		{
		    float a = s ? s->getGridData( "mean_slope" )[y][x] : us, b = m ? m->getGridData( "max_step" )[y][x] : um; int k = 0;
		    if( b != um && clear && b > clear ) k = 1;
		    else if( s && a != us && slope ) k = fabs( a ) > slope ? 1 : 2 + n - (int)rint( fabs( a ) / slope * n );
		    r.push_back( k );
		}
		if( width > 0 )
		{
		    // what lies on the line between two obstacles that are closer
		    std::vector<int> q( r );
		    for( long y=0;y<H;y++ ) for( long x=0;x<W;x++ ) for( long v=0;v<H;v++ ) for( long u=0;u<W;u++ ) if( r[ y * W + x ] == 1 && r[ v * W + u ] == 1 && ( u - x ) * ( u - x ) * g->getScaleX() * g->getScaleX() + ( v - y ) * ( v - y ) * g->getScaleY() * g->getScaleY() < width * width )
		    {
			long a = u, b = v;
			while( a != x || b != y )
			{
			    long dx = x - a, dy = y - b;
			    if( labs( dx ) > labs( dy ) ) { b += lrint( (double)dy / labs( dx ) ); a += dx > 0 ? 1 : -1; } else { a += lrint( (double)dx / labs( dy ) ); b += dy > 0 ? 1 : -1; }
			    q[ b * W + a ] = 1;
			}
		    }
		    r.swap( q );
		}
		f.cls = r;
		if( grow > 0 ) for( long y=0;y<H;y++ ) for( long x=0;x<W;x++ ) for( long v=0;v<H;v++ ) for( long u=0;u<W;u++ ) if( r[ v * W + u ] == 1 && pow( ( u - x ) * g->getScaleX(), 2 ) + pow( ( v - y ) * g->getScaleY(), 2 ) < grow * grow ) f.cls[ y * W + x ] = 1;
		f.band = born.n[1] % 3 ? TraversabilityGrid::TRAVERSABILITY : "";
		break;
	    }
	}
	(void)om;
    }
    void checkRef( OpM& o, Ref& f, Layer* out )
    {
	const char* n = oname[o.kind]; std::string bad; bool any = true;
	{
	    LibScope ls;
	    if( f.cloud )
	    {
		Pointcloud* p = static_cast<Pointcloud*>( out ); std::vector<Pt> l; points( p, f.data, Transform( Transform::Identity() ), l ); std::vector<char> used( l.size(), 0 );
		if( ( has( p ) & f.data ) != f.data && !f.pts.empty() ) bad = fmt( "vertex data %x instead of %x", has( p ), f.data );
		else if( l.size() != f.pts.size() ) bad = fmt( "%zu points instead of %zu", l.size(), f.pts.size() );
		else for( size_t i=0, from=0;i<f.pts.size() && bad.empty();i++ )
		{
		    const Pt& w = f.pts[i]; bool ok = false;
		    for( size_t z=0;z<l.size() && !ok;z++ ) { size_t k = ( from + z ) % l.size(); const Pt& q = l[k]; if( used[k] || ( q.p - w.p ).norm() > 1e-6 || ( q.n - w.n ).norm() > 1e-6 || ( q.c - w.c ).norm() > 1e-6 || fabs( q.var - w.var ) > 1e-6 || q.attr != w.attr ) continue; used[k] = 1; ok = true; from = k + 1; }
		    if( !ok ) bad = fmt( "no point like point %zu (%g %g %g)", i, w.p.x(), w.p.y(), w.p.z() );
		}
		if( f.mesh && bad.empty() )
		{
		    TriMesh* t = static_cast<TriMesh*>( out ); std::vector< std::vector<int> > q;
		    for( size_t i=0;i<t->faces.size();i++ ) { int x[3] = { t->faces[i].get<0>(), t->faces[i].get<1>(), t->faces[i].get<2>() }; q.push_back( std::vector<int>( x, x + 3 ) ); }
		    std::sort( q.begin(), q.end() ); std::sort( f.faces.begin(), f.faces.end() ); if( q != f.faces ) bad = fmt( "the %zu triangles are not the %zu expected ones", q.size(), f.faces.size() );
		}
	    }
	    else if( f.mls )
	    {
		MLSGrid* g = static_cast<MLSGrid*>( out );
		for( size_t x=0;x<g->getCellSizeX() && bad.empty();x++ ) for( size_t y=0;y<g->getCellSizeY() && bad.empty();y++ ) if( !f.vague.count( std::make_pair( x, y ) ) )
		{
		    std::vector<SurfacePatch> a, b; for( MLSGrid::iterator it = f.mls->beginCell( x, y ); it != f.mls->endCell(); it++ ) a.push_back( *it ); for( MLSGrid::iterator it = g->beginCell( x, y ); it != g->endCell(); it++ ) b.push_back( *it );
		    if( a.size() != b.size() ) bad = fmt( "%zu patches instead of %zu in cell %zu,%zu", b.size(), a.size(), x, y );
		    else for( size_t i=0;i<a.size();i++ ) if( !near( a[i].mean, b[i].mean ) || !near( a[i].stdev, b[i].stdev ) || !near( a[i].height, b[i].height ) || !near( a[i].n, b[i].n ) || memcmp( a[i].color, b[i].color, 3 ) ) bad = fmt( "patch %zu of cell %zu,%zu is at %g +- %g instead of %g +- %g", i, x, y, b[i].mean, b[i].stdev, a[i].mean, a[i].stdev );
		}
		if( bad.empty() && f.vague.empty() && f.mls->getCellCount() != g->getCellCount() ) bad = "another number of patches";
	    }
	    else if( f.cells )
	    {
		Grid<double>* g = static_cast< Grid<double>* >( out ); Grid<double>::ArrayType& a = g->getGridData( f.band );
		if( a.num_elements() != f.val.size() ) bad = "another number of cells"; else for( size_t i=0;i<f.val.size() && bad.empty();i++ ) if( !( fabs( a.data()[i] - f.val[i] ) <= 1e-9 ) && !( a.data()[i] != a.data()[i] && f.val[i] != f.val[i] ) ) bad = fmt( "cell %zu is %g instead of %g", i, a.data()[i], f.val[i] );
	    }
	    else if( f.drive )
	    {
		TraversabilityGrid* g = static_cast<TraversabilityGrid*>( out ); const std::vector<TraversabilityClass>& k = g->getTraversabilityClasses(); TraversabilityGrid::ArrayType& a = g->getGridData( TraversabilityGrid::TRAVERSABILITY ); TraversabilityGrid::ArrayType& b = g->getGridData( TraversabilityGrid::PROBABILITY );
		for( size_t i=0;i<f.dr.size() && bad.empty();i++ )
		    if( ( f.dr[i] < 0 ) != ( b.data()[i] == 0 ) ) bad = fmt( "cell %zu is %sknown", i, b.data()[i] ? "" : "un" ); else if( f.dr[i] >= 0 && ( a.data()[i] >= k.size() || fabs( k[ a.data()[i] ].getDrivability() - f.dr[i] ) > 1e-6 ) ) bad = fmt( "cell %zu is in class %d, but the drivability has to be %g", i, a.data()[i], f.dr[i] );
	    }
	    else if( !f.cls.empty() )
	    {
		TraversabilityGrid* g = static_cast<TraversabilityGrid*>( out ); TraversabilityGrid::ArrayType& a = f.band.empty() ? g->getGridData() : g->getGridData( f.band );
		TraversabilityGrid::ArrayType& b = g->getGridData( TraversabilityGrid::PROBABILITY );
		for( size_t i=0;i<f.cls.size() && bad.empty();i++ ) if( a.data()[i] != f.cls[i] ) bad = fmt( "cell %zu is in class %d instead of %d", i, a.data()[i], f.cls[i] ); else if( ( b.data()[i] != 0 ) != ( f.cls[i] != 0 ) ) bad = fmt( "cell %zu of class %d has the probability %d", i, a.data()[i], b.data()[i] );
	    }
	    else any = false;
	}
	if( !bad.empty() ) violation( "wrong-result", std::string( n ) + ": " + bad );
	if( any ) count( "oracle.reference" );
    }
    static bool near( double a, double b ) { return ( a != a && b != b ) || a == b || fabs( a - b ) <= 1e-4 * std::max( 1.0, std::max( fabs( a ), fabs( b ) ) ); }
    std::string name( size_t i ) { return fmt( "%s (map %zu)", kindName[ maps[i].kind ], i ); }
    // 1: the sizes do not fit together, 0: nothing keeps the operator from running, -1: other reasons are possible
    int refuses( OpM& o )
    {
	LibScope ls; Conf c( o.conf ), born( o.born ); std::list<Layer*> il = env->getInputs( o.op ), ol = env->getOutputs( o.op ); GridBase* out = dynamic_cast<GridBase*>( ol.front() ); std::vector<Layer*> in( il.begin(), il.end() ), use;
	switch( o.kind )
	{
	    case O_PROJ: return c.n[0] % 5 == 0 ? -1 : 0;
	    case O_FOLD: case O_M2G: case O_SLOPE: case O_FIRE: case O_GROW: use.push_back( in[0] ); break;
	    case O_D2P:
	    {
		GridBase *d = 0, *i = 0; for( size_t k=0;k<in.size();k++ ) { if( dynamic_cast<ImageRGB24*>( in[k] ) ) i = dynamic_cast<GridBase*>( in[k] ); else d = dynamic_cast<GridBase*>( in[k] ); }
		return i && ( i->getCellSizeX() != d->getCellSizeX() || i->getCellSizeY() != d->getCellSizeY() );
	    }
	    case O_SIMPLE: if( born.n[3] % 3 != 1 ) use.push_back( in[0] ); if( born.n[3] % 3 != 0 ) use.push_back( in.back() ); break;
	    default: return 0;
	}
	for( size_t i=0;i<use.size();i++ ) { GridBase* g = dynamic_cast<GridBase*>( use[i] ); if( g->getCellSizeX() != out->getCellSizeX() || g->getCellSizeY() != out->getCellSizeY() ) return 1; }
	return 0;
    }
    void runOp( const Op& op )
    {
	OpM* o = pickOp( op.a[0] ); if( !o ) return; Rng r( op.a[1] );
	std::list<Layer*> out; { LibScope ls; out = env->getOutputs( o->op ); } if( out.size() != 1 ) violation( "wiring-differs", "an operator lost its output" );
	prepare( *o );
	std::vector<Facts> before; for( size_t i=0;i<maps.size();i++ ) before.push_back( digMap( maps[i].map ) );
	static const unsigned char junk[] = { 0x00, 0x3F, 0xCD, 0xFF, 0x01 };
	if( op.a[2] % 4 == 0 )
	{
	    // out of memory somewhere in the middle
	    memFailAt( 1 + op.a[3] % ( op.a[2] % 8 ? 12 : 120 ), op.a[4] % 2 ); lib( [&]{ o->op->updateAll(); } ); bool fired = memFailFired(); memFailOff();
	    if( fired ) count( "fault.alloc_failure" );
	    for( size_t i=0;i<maps.size();i++ ) if( maps[i].map != out.front() )
	    { Facts f = digMap( maps[i].map ); if( f != before[i] ) violation( "input-changed", std::string( oname[o->kind] ) + " changed " + name( i ) + " while it ran out of memory: " + diffFacts( before[i], f, "before", "after" ) ); }
	    if( threw && !fired ) { /* the same error comes again below */ }
	    lib( [&]{ env->itemModified( out.front() ); } );
	}
	heal( "x" );
	Twin a, b; bool two = false; memJunk( junk[ r.below( 5 ) ] ); twin( a, *o ); Conf c( o->conf );
	if( computes( *o, c ) ) { two = true; twin( b, *o ); LibScope ls; scramble( *o, b.of[ out.front() ], r ); }
	bool ret = false, ret2 = false; std::string e1, e2;
	for( size_t i=0;i<maps.size();i++ ) { Facts f = digMap( maps[i].map ), g = digMap( a.of[ maps[i].map ] ); if( f != g ) violation( "copy-differs", "a copy of " + name( i ) + " differs: " + diffFacts( f, g, "original", "copy" ) ); }
	Ref ref; buildRef( *o, ref );
	unsigned char j = junk[ r.below( 5 ) ]; memJunk( j );
	lib( [&]{ ret = o->op->updateAll(); } ); e1 = err; heal( e1.empty() ? 0 : "x" ); if( threw ) count( "op.refused" ); else count( ( std::string( "op.run." ) + oname[o->kind] ).c_str() );
	for( size_t i=0;i<maps.size();i++ ) if( maps[i].map != out.front() )
	{ Facts f = digMap( maps[i].map ); if( f != before[i] ) violation( "input-changed", std::string( oname[o->kind] ) + " changed " + name( i ) + ", which is not its output: " + diffFacts( before[i], f, "before", "after" ) ); }
	if( e1.empty() ) checkRef( *o, ref, out.front() );
	int ref2 = refuses( *o ); if( e1.empty() && ref2 == 1 ) violation( "not-refused", std::string( oname[o->kind] ) + " works with grids of different sizes" ); if( !e1.empty() && ref2 == 0 ) violation( "refused", std::string( oname[o->kind] ) + " refuses maps that fit together: " + e1 );
	for( int k=0;k<( two ? 2 : 1 );k++ )
	{
	    Twin& t = k ? b : a; memJunk( junk[ r.below( 5 ) ] );
	    lib( [&]{ ret2 = t.op->updateAll(); } ); e2 = err;
	    const char* why = k ? "depends on what its output held before" : "depends on something else than its inputs";
	    if( e1 != e2 ) violation( "result-differs", std::string( oname[o->kind] ) + ": failing " + why + ": '" + e1 + "' and '" + e2 + "'" );
	    if( !e1.empty() ) continue;
	    if( ret != ret2 ) violation( "result-differs", std::string( oname[o->kind] ) + ": what it returns " + why );
	    for( size_t i=0;i<maps.size();i++ )
	    {
		Facts f = digMap( maps[i].map ), g = digMap( t.of[ maps[i].map ] );
		if( f != g ) violation( "result-differs", std::string( oname[o->kind] ) + ": the result " + why + " (" + name( i ) + "): " + diffFacts( g, f, "fresh environment", "environment" ) );
	    }
	    count( k ? "oracle.other-output" : "oracle.fresh" );
	}
	drop( a ); if( two ) drop( b );
	for( size_t i=0;i<maps.size();i++ ) if( maps[i].map == out.front() ) state( hashFacts( digMap( maps[i].map ) ) );
	// these report their output themselves, the others leave it to who calls them
	bool own = o->kind == O_CUT || o->kind == O_D2P || o->kind == O_G2MLS || o->kind == O_PROJ || o->kind == O_M2PC || o->kind == O_MERGEPC || o->kind == O_SCAN;
	if( own && e1.empty() && ret ) count( "oracle.reports-itself" ); else lib( [&]{ env->itemModified( out.front() ); } );
    }
    void updateAll( const Op& )
    {
	for( size_t i=0;i<ops.size();i++ ) prepare( ops[i] );
	bool ok = lib( [&]{ env->updateOperators(); } ); heal( "x" ); count( "op.updateOperators" );
	if( !ok ) for( size_t i=0;i<maps.size();i++ ) lib( [&]{ env->itemModified( maps[i].map ); } );    // those that ran before the one that failed
	else sync();
    }
    void sync()
    {
	if( queued ) must( "flushing events", [&]{ ch->flush(); } );
	Batch b; b.swap( ch->got ); Batch t = transport( b, b.size() % 2 );
	must( "applying events", [&]{ rep->applyEvents( t ); } );
	// colors travel as 8 bit values
	for( size_t i=0;i<maps.size();i++ ) if( Pointcloud* p = dynamic_cast<Pointcloud*>( maps[i].map ) ) if( p->hasData( Pointcloud::VERTEX_COLOR ) )
	{ std::vector<V3>& v = p->getVertexData<V3>( Pointcloud::VERTEX_COLOR ); for( size_t k=0;k<v.size();k++ ) for( int d=0;d<3;d++ ) v[k][d] = (unsigned char)( v[k][d] * 255 ) / 255.0; }
	Facts want = wireFacts( env ), got = wireFacts( rep );
	for( size_t i=0;i<maps.size();i++ )
	{
	    EnvironmentItem* x = 0; { LibScope ls; x = rep->getItem<EnvironmentItem>( maps[i].map->getUniqueId() ).get(); } if( !x || kindOf( x ) != maps[i].kind ) violation( "replica-differs", "a map is missing in a replica" );
	}
	if( want != got ) violation( "replica-differs", "a replica differs after operators ran: " + diffFacts( want, got, "source", "replica" ) );
	count( "oracle.replica" );
    }
    void touch( const Op& op )
    {
	if( maps.empty() ) return; MapM& m = maps[ op.a[0] % maps.size() ]; Rng r( op.a[1] );
	must( "changing a map", [&]{ fillMap( m.kind, m.map, r ); env->itemModified( m.map ); } ); count( "op.touch" );
    }
    void move( const Op& op )
    {
	FrameNode* f = pickFrame( op.a[0] ); Rng r( op.a[1] );
	if( op.a[2] % 4 == 0 && f != frames[0] )
	{
	    FrameNode* p = pickFrame( op.a[3] ); for( FrameNode* x = p; x; x = up[x] ) if( x == f ) return;
	    must( "moving a frame", [&]{ env->addChild( p, f ); } ); up[f] = p; count( "op.reparent" ); return;
	}
	if( op.a[2] % 4 == 1 && !maps.empty() ) { MapM& m = maps[ op.a[3] % maps.size() ]; must( "moving a map", [&]{ env->setFrameNode( m.map, f ); } ); m.frame = f; count( "op.place" ); return; }
	TransformWithUncertainty t = pose( r ); must( "setting a transform", [&]{ f->setTransform( t ); } ); count( "op.move" );
    }
    void dropOp( const Op& op )
    {
	OpM* o = pickOp( op.a[0] ); if( !o ) return;
	must( "removing an operator", [&]{ EnvironmentItem::Ptr p = env->detachItem( o->op ); } );
	ops.erase( ops.begin() + ( o - &ops[0] ) ); count( "op.drop" );
    }
    void reload()
    {
	if( gen >= 3 ) return; gen++;
	std::string dir = fmt( "d/scene%d", gen ); std::vector<std::string> mi, oi, fi; Environment* old = env;
	for( size_t i=0;i<maps.size();i++ ) mi.push_back( maps[i].map->getUniqueId() ); for( size_t i=0;i<ops.size();i++ ) oi.push_back( ops[i].op->getUniqueId() ); for( size_t i=0;i<frames.size();i++ ) fi.push_back( frames[i]->getUniqueId() );
	must( "saving", [&]{ env->serialize( dir ); } ); must( "removing a handler", [&]{ env->removeEventHandler( ch ); } );
	must( "loading", [&]{ env = Environment::unserialize( dir ); } );
	std::map<FrameNode*,FrameNode*> nu; std::vector<FrameNode*> nf;
	for( size_t i=0;i<frames.size();i++ ) { FrameNode* f = 0; { LibScope ls; f = i ? env->getItem<FrameNode>( fi[i] ).get() : env->getRootNode(); } if( !f ) violation( "load-differs", "a frame is missing" ); nu[ frames[i] ] = f; nf.push_back( f ); }
	std::map<FrameNode*,FrameNode*> nup; for( size_t i=0;i<frames.size();i++ ) nup[ nf[i] ] = up[ frames[i] ] ? nu[ up[ frames[i] ] ] : 0; up.swap( nup ); frames = nf;
	for( size_t i=0;i<maps.size();i++ ) { CartesianMap* m = 0; { LibScope ls; EnvironmentItem::Ptr p = env->getItem<EnvironmentItem>( mi[i] ); m = dynamic_cast<CartesianMap*>( p.get() ); } if( !m || kindOf( m ) != maps[i].kind ) violation( "load-differs", "a map is missing" ); maps[i].map = m; maps[i].frame = nu[ maps[i].frame ]; }
	std::map<Operator*,Conf*> nb;
	for( size_t i=0;i<ops.size();i++ )
	{
	    Operator* p = 0; { LibScope ls; EnvironmentItem::Ptr x = env->getItem<EnvironmentItem>( oi[i] ); p = dynamic_cast<Operator*>( x.get() ); }
	    if( !p || p->getClassName() != ops[i].op->getClassName() ) violation( "load-differs", std::string( "operator " ) + oname[ops[i].kind] + " is missing or has become another class" );
	    Conf* c = new Conf( ops[i].conf ); confs.push_back( c ); Conf born( ops[i].born );
	    // what is not part of the scene is set again
	    if( ops[i].kind == O_SCAN ) { ScanMeshing* s = static_cast<ScanMeshing*>( p ); s->useRemission( c->b[0] ); s->setMaxRange( c->b[1] ? 1e9 : 1.0 + c->d[3] ); }
	    else if( ops[i].kind == O_SLOPE ) { ops[i].born = ops[i].conf = 0; uint64_t s = 1; for( ;; s++ ) { Conf q( s ); if( q.n[1] % 3 == 0 && !q.b[1] ) break; } ops[i].born = ops[i].conf = s; }
	    else must( "configuring an operator", [&]{ configure( ops[i].kind, p, *c, 0 ); } );
	    nb[p] = c; ops[i].op = p;
	}
	boxesOf.swap( nb ); must( "destroying an environment", [&]{ delete old; delete rep; rep = new Environment(); ch->got.clear(); env->addEventHandler( ch ); } );
	count( "op.reload" );
    }
    void all()
    {
	open();
	for( size_t i=0;i<plan.ops.size();i++ )
	{
	    const Op& op = plan.ops[i]; curOp( i, op.kind ); clockAdvance( 1000 );
	    if( g_trace ) tracef( "%zu %s", i, op.kind.c_str() );
	    const std::string& k = op.kind;
	    if( k == "frame" ) { Rng r( op.a[1] ); FrameNode* p = pickFrame( op.a[0] ); FrameNode* f = 0; must( "adding a frame", [&]{ f = new FrameNode( pose( r ) ); env->addChild( p, f ); } ); frames.push_back( f ); up[f] = p; }
	    else if( k == "map" ) { static const int ks[] = { K_CLOUD, K_CLOUD, K_MESH, K_SCAN, K_ELEV, K_DIST, K_IMG, K_TRAV, K_MLS, K_MLS, K_GD, K_GF }; if( maps.size() < 60 ) addMap( ks[ op.a[2] % 12 ], op.a[3] % 5, op.a[1], op.a[0] ); }
	    else if( k == "new" ) newOp( op ); else if( k == "conf" ) reconf( op ); else if( k == "run" ) runOp( op ); else if( k == "all" ) updateAll( op ); else if( k == "touch" ) touch( op );
	    else if( k == "move" ) move( op ); else if( k == "drop" ) dropOp( op ); else if( k == "reload" ) reload(); else if( k == "sync" ) sync();
	}
	setStage( "end" ); sync();
	must( "removing a handler", [&]{ env->removeEventHandler( ch ); delete ch; } );
	must( "destroying the environments", [&]{ delete rep; delete env; } );
	for( size_t i=0;i<confs.size();i++ ) delete confs[i];
    }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 ); p.cfg["queued"] = r.chance( 1, 3 );
    static const char* ks[] = { "frame", "move", "map", "new", "conf", "run", "all", "touch", "drop", "reload", "sync" };
    static const int w[] =    {   3,       8,     3,     10,    5,      30,    3,     10,      2,      1,        3 };
    int tot = 0, ws[11]; for( int i=0;i<11;i++ ) { ws[i] = w[i]; if( i != 5 && i != 3 && r.chance( 1, 6 ) ) ws[i] = 0; tot += ws[i]; }
    p.add( "frame", 0, r.below( 1u << 30 ) ); int only = r.chance( 1, 3 ) ? (int)r.below( O_COUNT ) : -1;
    for( int i=0;i<3;i++ ) p.add( "new", only < 0 ? (long)r.below( O_COUNT ) : only, r.below( 1u << 30 ), r.below( 4096 ), r.below( 4096 ) );
    int n = 8 + r.below( th ? 120 : 50 );
    for( int i=0;i<n;i++ )
    {
	long t = r.below( tot ); int q = 0; while( q < 10 && t >= ws[q] ) t -= ws[q++];
	long a = r.below( 4096 ); if( q == 3 ) a = only < 0 || r.chance( 1, 3 ) ? (long)r.below( O_COUNT ) : only;
	p.add( ks[q], a, r.below( 1u << 30 ), r.below( 4096 ), r.below( 4096 ), r.below( 4096 ) );
    }
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); leakBegin(); diskScratch();
    { World w( p ); w.all(); }
    std::string l = leakCheck(); if( !l.empty() ) violation( "item-leaked", "still alive after everything was released: " + l );
}
WorkloadReg r19( "mapops", gen, run );
}
