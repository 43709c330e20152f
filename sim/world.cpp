#include "world.hpp"
#include <typeinfo>
#include <string.h>

namespace envire
{
long Probe::live = 0;
long OpRun::total = 0;
ENVIRONMENT_ITEM_DEF( SimLayer )
ENVIRONMENT_ITEM_DEF( SimMap )
ENVIRONMENT_ITEM_DEF( SimOp )
ENVIRONMENT_ITEM_DEF( SimOp1 )
ENVIRONMENT_ITEM_DEF( SimOp2 )
static void putPayload( Serialization& so, const std::string& name, const std::string& data )
{
    std::ostream& os = so.getBinaryOutputStream( name );
    os << data.size() << "\n";
    os.write( data.data(), data.size() );
}
static std::string getPayload( Serialization& so, const std::string& name )
{
    std::istream& is = so.getBinaryInputStream( name );
    std::string line; size_t n = 0;
    if( !std::getline( is, line ) ) throw std::runtime_error( "payload header missing in " + name );
    n = boost::lexical_cast<size_t>( line );
    if( n > ( 4u << 20 ) ) throw std::runtime_error( "payload too large in " + name );
    std::string r( n, 0 );
    if( n ) is.read( &r[0], n );
    if( (size_t)( n ? is.gcount() : 0 ) != n ) throw std::runtime_error( "payload too short in " + name );
    return r;
}
void SimLayer::serialize( Serialization& so )
{
    Layer::serialize( so );
    so.write( "prop", prop ); so.write( "num", num );
    putPayload( so, getMapFileName() + ".bin", payload );
}
void SimLayer::unserialize( Serialization& so )
{
    Layer::unserialize( so );
    so.read( "prop", prop ); so.read( "num", num );
    payload = getPayload( so, getMapFileName() + ".bin" );
}
void SimMap::serialize( Serialization& so )
{
    CartesianMap::serialize( so );
    so.write( "prop", prop );
    putPayload( so, getMapFileName() + ".bin", payload );
}
void SimMap::unserialize( Serialization& so )
{
    CartesianMap::unserialize( so );
    so.read( "prop", prop );
    payload = getPayload( so, getMapFileName() + ".bin" );
}
}

namespace sim
{
const char* kindName[K_COUNT] = { "FrameNode", "Pointcloud", "TriMesh", "LaserScan", "ElevationGrid", "DistanceGrid", "OccupancyGrid", "ConfidenceGrid",
    "ImageRGB24", "TraversabilityGrid", "MLSGrid", "Grid_s", "Grid_t", "Grid_i", "Grid_j", "Grid_d", "Grid_f", "Grid_h",
    "SimLayer", "SimMap", "SimOp", "SimOp1", "SimOp2", "Featurecloud", "MLSMap", "MapSegment" };
int opArityIn( int k ) { return k == K_OP1 ? 1 : k == K_OP2 ? 2 : 0; }
int opArityOut( int k ) { return k == K_OP1 || k == K_OP2 ? 1 : 0; }
int kindOf( const EnvironmentItem* item )
{
    std::string c = item->getClassName();
    if( c.compare( 0, 8, "envire::" ) == 0 ) c = c.substr( 8 );
    for( int i=0;i<K_COUNT;i++ ) if( c == kindName[i] ) return i;
    return -1;
}
std::string randText( Rng& rng, size_t n )
{
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -:#'\",.[]{}&*!|>%@`~?\\=+";
    std::string s; s.reserve( n );
    for( size_t i=0;i<n;i++ ) s += cs[ rng.below( sizeof cs - 1 ) ];
    return s;
}
double randNum( Rng& rng )
{
    switch( rng.below( 8 ) )
    {
	case 0: return (double)( (long)rng.below( 21 ) - 10 );
	case 1: return -0.0;
	case 2: return ( rng.unit() - 0.5 ) * 1e300;
	case 3: return ( rng.unit() - 0.5 ) * 1e-300;
	case 4: return 1.0 / 3.0 * (double)rng.below( 1000 );
	default: return ( rng.unit() - 0.5 ) * 200;
    }
}
Transform randTransform( Rng& rng )
{
    Eigen::Vector3d ax( rng.unit() - 0.5, rng.unit() - 0.5, rng.unit() - 0.5 );
    if( ax.norm() < 1e-3 ) ax = Eigen::Vector3d::UnitX();
    ax.normalize();
    Transform t( Transform::Identity() );
    if( rng.chance( 1, 6 ) )
    {
	// special ones: identity, nearly identity, half turns, far away, permuted axes
	switch( rng.below( 6 ) )
	{
	    case 0: return t;
	    case 1: t.translation()[rng.below( 3 )] = ( rng.unit() - 0.5 ) * 1e-3; return t;
	    case 2: t.rotate( Eigen::AngleAxisd( ( rng.unit() - 0.5 ) * 1e-3, ax ) ); return t;
	    case 3: t.translation()[rng.below( 3 )] = ( rng.unit() - 0.5 ) * 1e6; return t;
	    case 4: t.rotate( Eigen::AngleAxisd( M_PI, Eigen::Vector3d::Unit( rng.below( 3 ) ) ) ); break;
	    default: t.rotate( Eigen::AngleAxisd( M_PI / 2, Eigen::Vector3d::Unit( rng.below( 3 ) ) ) ); break;
	}
    }
    t.translate( Eigen::Vector3d( ( rng.unit() - 0.5 ) * 20, ( rng.unit() - 0.5 ) * 20, ( rng.unit() - 0.5 ) * 20 ) );
    if( !rng.chance( 1, 5 ) ) t.rotate( Eigen::AngleAxisd( ( rng.unit() - 0.5 ) * 6, ax ) );
    return t;
}
static TransformWithUncertainty randTwu( Rng& rng )
{
    Transform t = randTransform( rng );
    if( rng.chance( 1, 2 ) ) return TransformWithUncertainty( t );
    Eigen::Matrix<double,6,6> a;
    for( int i=0;i<36;i++ ) a( i / 6, i % 6 ) = rng.unit() - 0.5;
    TransformWithUncertainty::Covariance c = a * a.transpose();
    if( rng.chance( 1, 5 ) ) c *= rng.chance( 1, 3 ) ? 0 : 1e-14;
    else if( rng.chance( 1, 5 ) ) { a.setZero(); a( 0, 0 ) = rng.unit(); a( 5, 5 ) = 1e-200; c = a * a.transpose(); }
    return TransformWithUncertainty( t, c );
}
SurfacePatch randPatch( Rng& rng )
{
    SurfacePatch::TYPE ty = (SurfacePatch::TYPE)rng.below( 3 );
    SurfacePatch p( (float)( ( rng.unit() - 0.5 ) * 20 ), 0.01f + (float)rng.unit(), ty == SurfacePatch::HORIZONTAL ? 0.f : (float)( rng.unit() * 2 ), ty );
    p.update_idx = rng.below( 1000 );
    for( int i=0;i<3;i++ ) p.color[i] = rng.below( 256 );
    p.min = p.mean - (float)rng.unit(); p.max = p.mean + (float)rng.unit(); p.n = 1 + rng.below( 5 );
    p.plane.x = (float)rng.unit(); p.plane.xy = (float)rng.unit();
    return p;
}
static Eigen::Vector3d randVec( Rng& rng ) { double a = randNum( rng ), b = randNum( rng ), c = randNum( rng ); return Eigen::Vector3d( a, b, c ); }
static double exactColor( Rng& rng )
{
    for( ;; ) { int k = rng.below( 256 ); double c = k / 255.0; if( (int)(unsigned char)( c * 255.0 ) == k && (int)(unsigned char)( c * 255 ) == k ) return c; }
}
static size_t sizeFor( Rng& rng, const Content& c )
{
    switch( c.size ) { case 0: return rng.below( 3 ); case 1: return rng.below( 12 ); case 2: return rng.below( 200 ); case 4: return 65530 + rng.below( 12 ) + rng.below( 3 ) * 30000; default: return 2000 + rng.below( 4000 ); }
}
static const char* extraBands[] = { "extra", "b2", "zz", 0 };
template<class T> static T randCell( Rng& rng )
{ T v; uint64_t r = rng.next(); memcpy( &v, &r, sizeof v ); return v; }
template<> float randCell<float>( Rng& rng ) { return (float)( ( rng.unit() - 0.5 ) * 1e6 ); }
template<> double randCell<double>( Rng& rng ) { return randNum( rng ); }
template<class T> static void fillBand( Grid<T>* g, const std::string& b, Rng& rng )
{
    typename Grid<T>::ArrayType& a = g->getGridData( b );
    for( size_t i=0;i<a.num_elements();i++ ) a.data()[i] = randCell<T>( rng );
}
template<class T> static void fillGrid( Grid<T>* g, Rng& rng )
{
    const std::vector<std::string>& bs = g->getBands();
    bool any = false;
    for( size_t i=0;i<bs.size();i++ ) if( rng.chance( 4, 5 ) ) { fillBand( g, bs[i], rng ); any = true; }
    for( int i=0;extraBands[i];i++ ) if( rng.chance( 1, 5 ) ) { fillBand( g, extraBands[i], rng ); any = true; }
    if( !any ) fillBand( g, bs[0], rng );
    if( rng.chance( 1, 3 ) )
    {
	std::string b = bs[ rng.below( bs.size() ) ];
	if( g->hasBand( b ) ) g->setNoData( b, (T)(long)rng.below( 100 ) );
    }
}
template<class T> static void mutGrid( Grid<T>* g, Rng& rng )
{
    const std::vector<std::string>& bs = g->getBands();
    switch( rng.below( 6 ) )
    {
	case 0: { int k = rng.below( 3 ); fillBand( g, extraBands[k], rng ); break; }
	case 1: { std::string b = bs[ rng.below( bs.size() ) ]; if( g->hasBand( b ) ) { g->setNoData( b, (T)(long)rng.below( 100 ) ); break; } }
	// fall through
	case 2: { int k = rng.below( 3 ); if( g->hasBand( extraBands[k] ) && g->hasBand( bs[0] ) && !g->getNoData( extraBands[k] ).second ) { g->removeData( extraBands[k] ); break; } }
	// fall through
	default:
	{
	    std::string b = bs[ rng.below( bs.size() ) ];
	    typename Grid<T>::ArrayType& a = g->getGridData( b );
	    if( a.num_elements() ) a.data()[ rng.below( a.num_elements() ) ] = randCell<T>( rng );
	}
    }
}
static void metaSet( Layer* l, Rng& rng )
{
    switch( rng.below( 6 ) )
    {
	case 0: l->getData<Probe>( "probe" ).v = (int)rng.below( 1000 ); break;
	case 1: l->getData< std::vector<double> >( "dvec" ).assign( rng.below( 5 ), randNum( rng ) ); break;
	case 2: l->getData<std::string>( "text" ) = randText( rng, rng.below( 40 ) ); break;
	case 3: l->getData< std::map<int,std::string> >( "map" )[ (int)rng.below( 5 ) ] = randText( rng, 20 ); break;
	case 4: l->getData<int>( "int" ) = (int)rng.below( 1000 ); break;
	default: { static const char* k[] = { "probe", "dvec", "text", "map", "int" }; l->removeData( k[ rng.below( 5 ) ] ); }
    }
}
template<class G> static G* newGrid( Rng& rng, const Content& c )
{
    size_t m = c.size == 0 ? 2 : c.size == 1 ? 5 : c.size == 2 ? 12 : c.size == 4 ? 300 : 60;
    size_t w = 1 + rng.below( m ), h = 1 + rng.below( m );
    double sx = 0.05 + rng.unit(), sy = 0.05 + rng.unit();
    return new G( w, h, sx, sy );
}
template<class G> static G* newGridOff( Rng& rng, const Content& c )
{
    size_t m = c.size == 0 ? 2 : c.size == 1 ? 5 : c.size == 2 ? 12 : c.size == 4 ? 300 : 60;
    size_t w = 1 + rng.below( m ), h = 1 + rng.below( m );
    double sx = 0.05 + rng.unit(), sy = 0.05 + rng.unit(), ox = ( rng.unit() - 0.5 ) * 10, oy = ( rng.unit() - 0.5 ) * 10;
    return new G( w, h, sx, sy, ox, oy );
}
static void fillCloud( Pointcloud* p, Rng& rng, const Content& c )
{
    size_t n = sizeFor( rng, c );
    p->vertices.clear();
    for( size_t i=0;i<n;i++ ) p->vertices.push_back( randVec( rng ) );
    p->removeData( Pointcloud::VERTEX_NORMAL ); p->removeData( Pointcloud::VERTEX_COLOR );
    if( rng.chance( 1, 2 ) ) { std::vector<Eigen::Vector3d>& v = p->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ); for( size_t i=0;i<n;i++ ) v.push_back( randVec( rng ) ); }
    if( rng.chance( 1, 2 ) )
    {
	std::vector<Eigen::Vector3d>& v = p->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR );
	for( size_t i=0;i<n;i++ ) { double r = exactColor( rng ), g = exactColor( rng ), b = exactColor( rng ); v.push_back( Eigen::Vector3d( r, g, b ) ); }
    }
    if( rng.chance( 1, 2 ) ) p->setSensorOrigin( randTransform( rng ) );
}
static void fillMesh( TriMesh* m, Rng& rng )
{
    m->faces.clear();
    size_t n = m->vertices.size(); if( n < 3 ) return;
    size_t f = rng.below( n + 2 );
    for( size_t i=0;i<f;i++ ) m->faces.push_back( TriMesh::triangle_t( (int)rng.below( n ), (int)rng.below( n ), (int)rng.below( n ) ) );
}
static void fillScan( LaserScan* s, Rng& rng, const Content& c )
{
    s->delta_psi = (float)( rng.unit() * 0.1 ); s->origin_psi = (float)( rng.unit() - 0.5 ); s->origin_phi = (float)( rng.unit() - 0.5 );
    s->center_offset = Eigen::Vector3d( rng.unit(), rng.unit(), rng.unit() / 3 );
    if( rng.chance( 1, 2 ) ) s->setXForward(); else s->setYForward();
    size_t nl = rng.below( c.size >= 2 ? 12 : 4 ), np = rng.below( c.size >= 2 ? 60 : 6 );
    if( c.size == 4 ) { if( rng.chance( 1, 2 ) ) { nl = 1 + rng.below( 2 ); np = 65530 + rng.below( 3000 ); } else { nl = 300 + rng.below( 3 ) * 32700; np = rng.below( 3 ); } }
    bool rem = rng.chance( 1, 2 );
    s->lines.clear();
    for( size_t i=0;i<nl;i++ )
    {
	LaserScan::scanline_t l; l.delta_phi = (float)( ( rng.unit() - 0.5 ) * 3 );
	for( size_t k=0;k<np;k++ )
	{
	    l.ranges.push_back( rng.chance( 1, 10 ) ? 0xFFFFFFFFu - (unsigned)rng.below( 5 ) : (unsigned)rng.below( 100000 ) );
	    if( rem ) l.remissions.push_back( rng.chance( 1, 10 ) ? 100000001u + (unsigned)rng.below( 100 ) : (unsigned)rng.below( 5000 ) );
	}
	s->lines.push_back( l );
    }
    s->points_per_line = nl ? (int)np : 0;
}
static void fillMls( MLSGrid* m, Rng& rng, const Content& c )
{
    static const MLSConfiguration::update_model um[] = { MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE };
    m->getConfig().updateModel = um[ rng.below( 3 ) ]; m->getConfig().useColor = rng.chance( 1, 2 );
    m->getConfig().gapSize = 0.25f + (float)rng.unit(); m->getConfig().thickness = 0.01f + (float)rng.unit();
    if( rng.chance( 1, 4 ) ) m->initIndex();
    size_t n = sizeFor( rng, c ); if( n > 300 && c.size != 4 ) n = 300;
    for( size_t i=0;i<n;i++ )
    {
	SurfacePatch p = randPatch( rng ); size_t x = rng.below( m->getCellSizeX() ), y = rng.below( m->getCellSizeY() );
	if( rng.chance( 1, 2 ) ) m->insertHead( x, y, p ); else m->insertTail( x, y, p );
    }
}
static void fillTrav( TraversabilityGrid* t, Rng& rng )
{
    fillGrid( t, rng );
    size_t n = rng.below( 5 );
    for( size_t i=0;i<n;i++ ) { uint8_t id; t->registerNewTraversabilityClass( id, TraversabilityClass( rng.below( 11 ) / 10.0 ) ); }
}
static void fillFeat( Featurecloud* f, Rng& rng, const Content& c )
{
    fillCloud( f, rng, c );
    f->descriptorType = rng.chance( 1, 2 ) ? DESCRIPTOR_SURF : DESCRIPTOR_PSURF;
    size_t n = sizeFor( rng, c ); f->descriptorSize = rng.below( 3 ) * 32; f->keypoints.clear(); f->descriptors.clear();
    for( size_t i=0;i<n;i++ )
    {
	KeyPoint k; k.point = Eigen::Vector2d( randNum( rng ), randNum( rng ) ); k.size = (float)rng.unit(); k.angle = (float)( rng.unit() - 0.5 ); k.response = rng.chance( 1, 5 ) ? 0.f : (float)rng.unit();
	f->keypoints.push_back( k );
    }
    n = rng.chance( 1, 2 ) ? n * f->descriptorSize : sizeFor( rng, c ); if( n > 70000 ) n = 70000;
    for( size_t i=0;i<n;i++ ) f->descriptors.push_back( (float)( rng.unit() - 0.5 ) );
}
static void fillSeg( MapSegment* m, Rng& rng )
{
    int n = 1 + rng.below( 3 );
    for( int i=0;i<n;i++ )
    {
	Eigen::Affine3d t( Eigen::Affine3d::Identity() ); t.translate( Eigen::Vector3d( rng.unit(), rng.unit(), rng.unit() ) );
	double w = 0.1 + rng.unit(), z = rng.unit(); m->addPart( t, 0, w, z );
    }
    m->update();
    m->trajectories.push_back( std::vector<base::Vector3d>( rng.below( 4 ), base::Vector3d( randVec( rng ) ) ) );
}
EnvironmentItem* makeItem( int kind, Rng& rng, const Content& c )
{
    EnvironmentItem* r = 0;
    switch( kind )
    {
	case K_FRAME: { TransformWithUncertainty t = randTwu( rng ); r = new FrameNode( t ); break; }
	case K_CLOUD: { Pointcloud* p = new Pointcloud(); fillCloud( p, rng, c ); r = p; break; }
	case K_MESH: { TriMesh* p = new TriMesh(); fillCloud( p, rng, c ); fillMesh( p, rng ); r = p; break; }
	case K_SCAN: { LaserScan* p = new LaserScan(); fillScan( p, rng, c ); r = p; break; }
	case K_ELEV: { ElevationGrid* g = newGridOff<ElevationGrid>( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_DIST: { DistanceGrid* g = newGridOff<DistanceGrid>( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_OCC: { OccupancyGrid* g = newGrid<OccupancyGrid>( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_CONF: { ConfidenceGrid* g = newGrid<ConfidenceGrid>( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_IMG: { ImageRGB24* g = newGridOff<ImageRGB24>( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_TRAV: { TraversabilityGrid* g = newGridOff<TraversabilityGrid>( rng, c ); fillTrav( g, rng ); r = g; break; }
	case K_MLS: { MLSGrid* g = newGridOff<MLSGrid>( rng, c ); fillMls( g, rng, c ); r = g; break; }
	case K_GS: { Grid<int16_t>* g = newGridOff< Grid<int16_t> >( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_GT: { Grid<uint16_t>* g = newGridOff< Grid<uint16_t> >( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_GI: { Grid<int32_t>* g = newGridOff< Grid<int32_t> >( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_GJ: { Grid<uint32_t>* g = newGridOff< Grid<uint32_t> >( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_GD: { Grid<double>* g = newGridOff< Grid<double> >( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_GF: { Grid<float>* g = newGridOff< Grid<float> >( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_GH: { Grid<uint8_t>* g = newGridOff< Grid<uint8_t> >( rng, c ); fillGrid( g, rng ); r = g; break; }
	case K_LAYER: { SimLayer* l = new SimLayer(); r = l; break; }
	case K_MAP: { SimMap* l = new SimMap(); r = l; break; }
	case K_OP: r = new SimOp(); break;
	case K_OP1: r = new SimOp1(); break;
	case K_OP2: r = new SimOp2(); break;
	case K_FEAT: { Featurecloud* f = new Featurecloud(); fillFeat( f, rng, c ); r = f; break; }
	case K_MLSMAP: r = new MLSMap(); break;
	case K_SEG: { MapSegment* m = new MapSegment(); fillSeg( m, rng ); r = m; break; }
	default: simError( "makeItem: bad kind" );
    }
    if( kind == K_LAYER || kind == K_MAP ) mutateItem( r, rng, c );
    if( c.meta && isLayerKind( kind ) ) { int n = rng.below( 4 ); for( int i=0;i<n;i++ ) metaSet( static_cast<Layer*>( r ), rng ); }
    return r;
}
void mutateItem( EnvironmentItem* item, Rng& rng, const Content& c )
{
    int kind = kindOf( item );
    if( c.meta && isLayerKind( kind ) && rng.chance( 1, 2 ) ) metaSet( static_cast<Layer*>( item ), rng );
    size_t tn = c.bigText ? rng.below( c.size == 4 ? 140000 : 30000 ) : rng.below( 30 );
    switch( kind )
    {
	case K_FRAME: break;      // frames change through setTransform only
	case K_CLOUD: fillCloud( static_cast<Pointcloud*>( item ), rng, c ); break;
	case K_MESH: fillCloud( static_cast<TriMesh*>( item ), rng, c ); fillMesh( static_cast<TriMesh*>( item ), rng ); break;
	case K_FEAT: fillFeat( static_cast<Featurecloud*>( item ), rng, c ); break;
	case K_SEG: fillSeg( static_cast<MapSegment*>( item ), rng ); break;
	case K_SCAN: fillScan( static_cast<LaserScan*>( item ), rng, c ); break;
	case K_ELEV: case K_GD: mutGrid( static_cast< Grid<double>* >( item ), rng ); break;
	case K_DIST: case K_GF: mutGrid( static_cast< Grid<float>* >( item ), rng ); break;
	case K_OCC: case K_CONF: case K_IMG: case K_GH: mutGrid( static_cast< Grid<uint8_t>* >( item ), rng ); break;
	case K_TRAV:
	{
	    TraversabilityGrid* t = static_cast<TraversabilityGrid*>( item );
	    size_t x = rng.below( t->getCellSizeX() ), y = rng.below( t->getCellSizeY() );
	    switch( rng.below( 4 ) )
	    {
		case 0: t->setTraversability( (uint8_t)rng.below( 5 ), x, y ); break;
		case 1: t->setProbability( rng.below( 256 ) / 255.0, x, y ); break;
		case 2: t->setTraversabilityClass( (uint8_t)rng.below( 8 ), TraversabilityClass( rng.below( 11 ) / 10.0 ) ); break;
		default: t->setTraversabilityAndProbability( (uint8_t)rng.below( 5 ), rng.unit(), x, y );
	    }
	    break;
	}
	case K_MLS:
	{
	    MLSGrid* m = static_cast<MLSGrid*>( item );
	    size_t x = rng.below( m->getCellSizeX() ), y = rng.below( m->getCellSizeY() );
	    switch( rng.below( 4 ) )
	    {
		case 0: { MLSGrid::iterator it = m->beginCell( x, y ); if( it != m->endCell() ) { m->erase( it ); break; } }
		// fall through
		case 1: m->insertHead( x, y, randPatch( rng ) ); break;
		case 2: m->insertTail( x, y, randPatch( rng ) ); break;
		default: m->getConfig().gapSize = 0.25f + (float)rng.unit();
	    }
	    break;
	}
	case K_GS: mutGrid( static_cast< Grid<int16_t>* >( item ), rng ); break;
	case K_GT: mutGrid( static_cast< Grid<uint16_t>* >( item ), rng ); break;
	case K_GI: mutGrid( static_cast< Grid<int32_t>* >( item ), rng ); break;
	case K_GJ: mutGrid( static_cast< Grid<uint32_t>* >( item ), rng ); break;
	case K_LAYER: { SimLayer* l = static_cast<SimLayer*>( item ); l->prop = randText( rng, tn ); l->num = randNum( rng ); l->payload = randText( rng, sizeFor( rng, c ) ); break; }
	case K_MAP: { SimMap* l = static_cast<SimMap*>( item ); l->prop = randText( rng, tn ); l->payload = randText( rng, sizeFor( rng, c ) ); break; }
	default: break;
    }
    if( isLayerKind( kind ) && rng.chance( 1, 12 ) ) static_cast<Layer*>( item )->setImmutable();
}

// ------------------------------------------------------------------ digests
static std::string hx( uint64_t h ) { return fmt( "%016llx", (unsigned long long)h ); }
struct Put
{
    Facts& f; const std::string& pre;
    Put( Facts& f, const std::string& p ) : f( f ), pre( p ) {}
    void h( const char* n, uint64_t v ) { f[pre + n] = hx( v ); }
    void s( const std::string& n, const std::string& v ) { f[pre + n] = v; }
    void d( const char* n, double v ) { f[pre + n] = fmt( "%a", v ); }
};
static uint64_t hv( const std::vector<Eigen::Vector3d>& v )
{
    uint64_t h = mix( 5, v.size() );
    for( size_t i=0;i<v.size();i++ ) for( int k=0;k<3;k++ ) { double d = v[i][k]; h = hashBytes( &d, 8, h ); }
    return h;
}
static uint64_t ht( const Transform& t )
{
    uint64_t h = 9;
    for( int r=0;r<4;r++ ) for( int c=0;c<4;c++ ) { double d = t.matrix()( r, c ); h = hashBytes( &d, 8, h ); }
    return h;
}
uint64_t patchHash( const SurfacePatch& p )
{
    float f[] = { p.mean, p.stdev, p.height, p.min, p.max, p.n, p.normsq, p.plane.x, p.plane.y, p.plane.z, p.plane.xx, p.plane.yy, p.plane.xy, p.plane.xz, p.plane.yz, p.plane.zz, p.plane.n };
    uint64_t h = hashBytes( f, sizeof f, 3 );
    h = mix( h, p.update_idx ); h = hashBytes( p.color, 3, h );
    h = mix( h, p.isHorizontal() ? 1 : p.isVertical() ? 2 : p.isNegative() ? 3 : 4 );
    return h;
}
template<class T> static void digGrid( const Grid<T>* g, Put& o )
{
    std::set<std::string> names( g->getBands().begin(), g->getBands().end() );
    names.insert( Grid<T>::GRID_DATA );
    for( int i=0;extraBands[i];i++ ) names.insert( extraBands[i] );
    for( std::set<std::string>::iterator it = names.begin(); it != names.end(); ++it )
    {
	if( g->hasBand( *it ) )
	{
	    const typename Grid<T>::ArrayType& a = g->getGridData( *it );
	    uint64_t h = mix( mix( 1, a.shape()[0] ), a.shape()[1] );
	    h = hashBytes( a.data(), a.num_elements() * sizeof( T ), h );
	    o.s( "band:" + *it, hx( h ) );
	}
	std::pair<T,bool> nd = g->getNoData( *it );
	if( nd.second && g->hasBand( *it ) ) o.s( "nodata:" + *it, fmt( "%.17g", (double)nd.first ) );
    }
}
static void digGridBase( const GridBase* g, Put& o )
{
    o.s( "cells", fmt( "%zux%zu", g->getCellSizeX(), g->getCellSizeY() ) );
    o.s( "geo", fmt( "%a %a %a %a", g->getScaleX(), g->getScaleY(), g->getOffsetX(), g->getOffsetY() ) );
}
static void digMls( const MLSGrid* m, Put& o, int mode )
{
    digGridBase( m, o );
    uint64_t h = 1, n = 0; size_t x0 = 1e9, x1 = 0, y0 = 1e9, y1 = 0;
    for( size_t x=0;x<m->getCellSizeX();x++ ) for( size_t y=0;y<m->getCellSizeY();y++ )
	for( MLSGrid::const_iterator it = m->beginCell( x, y ); it != m->endCell(); it++ )
	{
	    h = mix( mix( mix( h, x ), y ), patchHash( *it ) ); 
	    if( ++n > 1000000 ) violation( "mls-list-corrupt", "patch list of a cell never ends" );
	    if( x < x0 ) x0 = x; if( x > x1 ) x1 = x; if( y < y0 ) y0 = y; if( y > y1 ) y1 = y;
	}
    o.h( "patches", h ); o.s( "count", fmt( "%zu", m->getCellCount() ) );
    o.s( "conf", fmt( "%a %a %d %d", m->getConfig().gapSize, m->getConfig().thickness, (int)m->getConfig().useColor, (int)m->getConfig().updateModel ) );
}
static void digCloud( const Pointcloud* p, Put& o )
{
    o.s( "vertices", fmt( "%zu:%016llx", p->vertices.size(), (unsigned long long)hv( p->vertices ) ) );
    if( p->hasData( Pointcloud::VERTEX_NORMAL ) ) o.h( "normals", hv( p->getData< std::vector<Eigen::Vector3d> >( Pointcloud::VERTEX_NORMAL ) ) );
    if( p->hasData( Pointcloud::VERTEX_COLOR ) ) o.h( "colors", hv( p->getData< std::vector<Eigen::Vector3d> >( Pointcloud::VERTEX_COLOR ) ) );
    o.h( "origin", ht( p->getSensorOrigin() ) );
}
void digestItem( const EnvironmentItem* item, Facts& f, const std::string& pre, int mode )
{
    Put o( f, pre );
    int kind = kindOf( item );
    if( kind < 0 ) { o.s( "unknown", item->getClassName() ); return; }
    if( isLayerKind( kind ) )
    {
	const Layer* l = static_cast<const Layer*>( item );
	o.s( "immutable", l->isImmutable() ? "1" : "0" );
	if( mode & F_FULL ) o.s( "dirty", l->isDirty() ? "1" : "0" );
	if( mode & F_META )
	{
	    if( l->hasData<Probe>( "probe" ) ) o.s( "m:probe", fmt( "%d", l->getData<Probe>( "probe" ).v ) ); else if( l->hasData( "probe" ) ) o.s( "m:probe", "wrong type" );
	    if( l->hasData< std::vector<double> >( "dvec" ) ) { const std::vector<double>& v = l->getData< std::vector<double> >( "dvec" ); o.h( "m:dvec", hashBytes( v.data(), v.size() * 8 ) ); }
	    if( l->hasData<std::string>( "text" ) ) o.s( "m:text", l->getData<std::string>( "text" ) );
	    if( l->hasData<int>( "int" ) ) o.s( "m:int", fmt( "%d", l->getData<int>( "int" ) ) );
	    if( l->hasData< std::map<int,std::string> >( "map" ) )
	    {
		const std::map<int,std::string>& m = l->getData< std::map<int,std::string> >( "map" ); std::string s;
		for( std::map<int,std::string>::const_iterator it = m.begin(); it != m.end(); ++it ) s += fmt( "%d=", it->first ) + it->second + ";";
		o.s( "m:map", s );
	    }
	}
    }
    switch( kind )
    {
	case K_FRAME:
	{
	    const FrameNode* fn = static_cast<const FrameNode*>( item );
	    o.h( "transform", ht( fn->getTransform() ) );
	    const TransformWithUncertainty& t = fn->getTransformWithUncertainty();
	    if( t.hasUncertainty() ) { uint64_t h = 3; for( int i=0;i<36;i++ ) { double d = t.getCovariance()( i/6, i%6 ); h = hashBytes( &d, 8, h ); } o.h( "cov", h ); }
	    break;
	}
	case K_CLOUD: digCloud( static_cast<const Pointcloud*>( item ), o ); break;
	case K_FEAT:
	{
	    const Featurecloud* c = static_cast<const Featurecloud*>( item ); digCloud( c, o );
	    o.s( "desc", fmt( "%d %d %zu:%016llx", (int)c->descriptorType, c->descriptorSize, c->descriptors.size(), (unsigned long long)hashBytes( c->descriptors.data(), c->descriptors.size() * sizeof( float ) ) ) );
	    uint64_t h = mix( 1, c->keypoints.size() );
	    for( size_t i=0;i<c->keypoints.size();i++ ) { const KeyPoint& k = c->keypoints[i]; double d[2] = { k.point.x(), k.point.y() }; float fl[3] = { k.size, k.angle, k.response }; h = hashBytes( fl, sizeof fl, hashBytes( d, sizeof d, h ) ); }
	    o.h( "keypoints", h );
	    break;
	}
	case K_SEG:
	    // the hypotheses are not part of what is stored
	    if( mode & F_META )
	    {
		const MapSegment* m = static_cast<const MapSegment*>( item ); uint64_t h = mix( 1, m->trajectories.size() );
		for( size_t i=0;i<m->trajectories.size();i++ ) { h = mix( h, m->trajectories[i].size() ); for( size_t k=0;k<m->trajectories[i].size();k++ ) for( int d=0;d<3;d++ ) { double v = m->trajectories[i][k][d]; h = hashBytes( &v, 8, h ); } }
		o.h( "trajectories", h );
		try { o.h( "pose", ht( m->getTransform().getTransform() ) ); } catch( std::exception& ) { o.s( "pose", "none" ); }
	    }
	    break;
	case K_MESH:
	{
	    const TriMesh* m = static_cast<const TriMesh*>( item );
	    digCloud( m, o );
	    uint64_t h = mix( 1, m->faces.size() );
	    for( size_t i=0;i<m->faces.size();i++ ) h = mix( mix( mix( h, m->faces[i].get<0>() ), m->faces[i].get<1>() ), m->faces[i].get<2>() );
	    o.h( "faces", h );
	    break;
	}
	case K_SCAN:
	{
	    const LaserScan* s = static_cast<const LaserScan*>( item );
	    o.s( "angles", fmt( "%a %a %a", s->delta_psi, s->origin_psi, s->origin_phi ) );
	    o.s( "center", fmt( "%a %a %a", s->center_offset.x(), s->center_offset.y(), s->center_offset.z() ) );
	    o.s( "xfwd", s->x_forward ? "1" : "0" );
	    o.s( "ppl", fmt( "%d", s->points_per_line ) );
	    uint64_t h = mix( 1, s->lines.size() );
	    for( size_t i=0;i<s->lines.size();i++ )
	    {
		const LaserScan::scanline_t& l = s->lines[i];
		h = hashBytes( &l.delta_phi, 4, h );
		h = hashBytes( l.ranges.data(), l.ranges.size() * sizeof( unsigned ), h );
		h = hashBytes( l.remissions.data(), l.remissions.size() * sizeof( unsigned ), h );
	    }
	    o.s( "lines", fmt( "%zu:%016llx", s->lines.size(), (unsigned long long)h ) );
	    break;
	}
	case K_ELEV: case K_GD: { const Grid<double>* g = static_cast<const Grid<double>*>( item ); digGridBase( g, o ); digGrid( g, o ); break; }
	case K_DIST: case K_GF: { const Grid<float>* g = static_cast<const Grid<float>*>( item ); digGridBase( g, o ); digGrid( g, o ); break; }
	case K_OCC: case K_CONF: case K_IMG: case K_GH: { const Grid<uint8_t>* g = static_cast<const Grid<uint8_t>*>( item ); digGridBase( g, o ); digGrid( g, o ); break; }
	case K_TRAV:
	{
	    const TraversabilityGrid* g = static_cast<const TraversabilityGrid*>( item ); digGridBase( g, o ); digGrid<uint8_t>( g, o );
	    const std::vector<TraversabilityClass>& c = g->getTraversabilityClasses(); std::string s = fmt( "%zu", c.size() );
	    for( size_t i=0;i<c.size();i++ ) s += fmt( " %a", c[i].getDrivability() );
	    o.s( "classes", s );
	    break;
	}
	case K_MLS: digMls( static_cast<const MLSGrid*>( item ), o, mode ); break;
	case K_GS: { const Grid<int16_t>* g = static_cast<const Grid<int16_t>*>( item ); digGridBase( g, o ); digGrid( g, o ); break; }
	case K_GT: { const Grid<uint16_t>* g = static_cast<const Grid<uint16_t>*>( item ); digGridBase( g, o ); digGrid( g, o ); break; }
	case K_GI: { const Grid<int32_t>* g = static_cast<const Grid<int32_t>*>( item ); digGridBase( g, o ); digGrid( g, o ); break; }
	case K_GJ: { const Grid<uint32_t>* g = static_cast<const Grid<uint32_t>*>( item ); digGridBase( g, o ); digGrid( g, o ); break; }
	case K_LAYER: { const SimLayer* l = static_cast<const SimLayer*>( item ); o.s( "prop", hx( hashStr( l->prop ) ) + fmt( ":%zu", l->prop.size() ) ); o.d( "num", l->num ); o.h( "payload", hashStr( l->payload ) ); break; }
	case K_MAP: { const SimMap* l = static_cast<const SimMap*>( item ); o.s( "prop", hx( hashStr( l->prop ) ) + fmt( ":%zu", l->prop.size() ) ); o.h( "payload", hashStr( l->payload ) ); break; }
	default: break;
    }
}
uint64_t hashFacts( const Facts& f )
{
    uint64_t h = 1;
    for( Facts::const_iterator it = f.begin(); it != f.end(); ++it ) h = hashStr( it->second, hashStr( it->first, h ) );
    return h;
}
uint64_t digestHash( const EnvironmentItem* item, int mode ) { Facts f; digestItem( item, f, "", mode ); return hashFacts( f ); }

// ------------------------------------------------------------------ observation
static void bad( const std::string& what ) { violation( "inconsistent-query", what ); }
template<class L> static std::set<const EnvironmentItem*> asSet( const L& l, const std::map<const EnvironmentItem*,std::string>& ids, const std::string& what )
{
    std::set<const EnvironmentItem*> s;
    for( typename L::const_iterator it = l.begin(); it != l.end(); ++it )
    {
	const EnvironmentItem* p = *it;
	if( !p || !ids.count( p ) ) bad( what + " returns something that is not attached to the environment" );
	if( !s.insert( p ).second ) bad( what + " lists " + ids.find( p )->second + " twice" );
    }
    return s;
}
void observe( Environment* env, Facts& out, const Obs& o )
{
    out.clear();
    std::vector<EnvironmentItem*> all;
    std::map<const EnvironmentItem*,std::string> ids;
    std::vector<FrameNode*> frames; std::vector<Layer*> layers; std::vector<CartesianMap*> maps; std::vector<Operator*> ops;
    {
	LibScope ls;
	all = env->getItems<EnvironmentItem>();
	frames = env->getItems<FrameNode>(); layers = env->getItems<Layer>(); maps = env->getItems<CartesianMap>(); ops = env->getItems<Operator>();
    }
    std::set<std::string> seen;
    for( size_t i=0;i<all.size();i++ )
    {
	EnvironmentItem* it = all[i];
	if( !it ) bad( "the environment lists a null item" );
	if( !memIsLive( it ) ) bad( "the environment lists an item that has been destroyed" );
	std::string id = it->getUniqueId();
	if( ids.count( it ) ) bad( "item " + id + " is listed twice" );
	if( !seen.insert( id ).second ) bad( "two attached items share the id " + id );
	ids[it] = id;
	if( !it->isAttached() || it->getEnvironment() != env ) bad( "listed item " + id + " does not know it is attached to this environment" );
	EnvironmentItem::Ptr p = env->getItem( id );
	if( p.get() != it ) bad( "getItem(\"" + id + "\") does not return the item listed under that id" );
	if( it->getRefCount() < 2 ) bad( "item " + id + " has a reference count too low for an owned item" );
	out["item " + id] = it->getClassName();
	if( o.labels ) out["label " + id] = it->getLabel();
	if( o.content ) digestItem( it, out, "data " + id + " ", o.content );
    }
    FrameNode* root = env->getRootNode();
    if( !root || !ids.count( root ) ) bad( "the root node is not an attached item" );
    out["root"] = ids[root];
    size_t nf = 0, nl = 0, nm = 0, no = 0;
    for( size_t i=0;i<all.size();i++ )
    {
	if( dynamic_cast<FrameNode*>( all[i] ) ) nf++;
	if( dynamic_cast<Layer*>( all[i] ) ) nl++;
	if( dynamic_cast<CartesianMap*>( all[i] ) ) nm++;
	if( dynamic_cast<Operator*>( all[i] ) ) no++;
    }
    if( nf != frames.size() || nl != layers.size() || nm != maps.size() || no != ops.size() ) bad( "items by type disagree with the list of all items" );
    for( size_t i=0;i<frames.size();i++ )
    {
	FrameNode* f = frames[i]; const std::string& id = ids[f];
	FrameNode* p; std::list<FrameNode*> ch, ch2; std::list<CartesianMap*> ms, ms2;
	{ LibScope ls; p = env->getParent( f ); ch = env->getChildren( f ); ms = env->getMaps( f ); if( o.deep ) { ch2 = f->getChildren(); ms2 = f->getMaps(); } }
	if( p )
	{
	    if( !ids.count( p ) ) bad( "the parent of frame " + id + " is not attached" );
	    out["parent " + id] = ids[p];
	}
	if( o.deep )
	{
	    if( f->getParent() != p || static_cast<const FrameNode*>( f )->getParent() != p ) bad( "frame " + id + " and the environment disagree on its parent" );
	    if( f->isRoot() != !p ) bad( "isRoot() of frame " + id + " is wrong" );
	    if( ch2 != ch || ms2 != ms ) bad( "frame " + id + " and the environment disagree on its children or maps" );
	}
	std::set<const EnvironmentItem*> s = asSet( ch, ids, "getChildren(" + id + ")" );
	for( std::set<const EnvironmentItem*>::iterator c = s.begin(); c != s.end(); ++c ) out["child " + id + ">" + ids[*c]] = "1";
	s = asSet( ms, ids, "getMaps(" + id + ")" );
	for( std::set<const EnvironmentItem*>::iterator c = s.begin(); c != s.end(); ++c ) out["mapof " + id + ">" + ids[*c]] = "1";
    }
    for( size_t i=0;i<maps.size();i++ )
    {
	CartesianMap* m = maps[i]; FrameNode* f;
	{ LibScope ls; f = env->getFrameNode( m ); }
	if( f ) { if( !ids.count( f ) ) bad( "the frame of map " + ids[m] + " is not attached" ); out["frame " + ids[m]] = ids[f]; }
	if( o.deep && ( m->getFrameNode() != f || static_cast<const CartesianMap*>( m )->getFrameNode() != f ) ) bad( "map " + ids[m] + " and the environment disagree on its frame" );
    }
    for( size_t i=0;i<layers.size();i++ )
    {
	Layer* l = layers[i]; const std::string& id = ids[l];
	std::list<Layer*> par, ch, gen; std::list<const Layer*> cch; Operator* g;
	{ LibScope ls; par = env->getParents( l ); ch = env->getChildren( l ); cch = static_cast<const Environment*>( env )->getChildren( static_cast<const Layer*>( l ) ); gen = env->getLayersGeneratedFrom( l ); g = env->getGenerator( l ); }
	std::set<const EnvironmentItem*> s = asSet( par, ids, "getParents(" + id + ")" );
	for( std::set<const EnvironmentItem*>::iterator c = s.begin(); c != s.end(); ++c ) out["layer " + ids[*c] + ">" + id] = "1";
	s = asSet( ch, ids, "getChildren(" + id + ")" );
	if( s != asSet( cch, ids, "const getChildren(" + id + ")" ) ) bad( "the two getChildren(" + id + ") disagree" );
	for( std::set<const EnvironmentItem*>::iterator c = s.begin(); c != s.end(); ++c ) out["layerchild " + id + ">" + ids[*c]] = "1";
	if( o.ops )
	{
	    if( g && !ids.count( g ) ) bad( "the generator of " + id + " is not attached" );
	    if( g ) out["generated " + id] = "1";
	    std::set<std::string> gs;
	    for( std::list<Layer*>::iterator c = gen.begin(); c != gen.end(); ++c )
	    {
		if( !ids.count( *c ) ) bad( "getLayersGeneratedFrom(" + id + ") returns something that is not attached" );
		gs.insert( ids[*c] );
	    }
	    for( std::set<std::string>::iterator c = gs.begin(); c != gs.end(); ++c ) out["genfrom " + id + ">" + *c] = "1";
	    if( g )
	    {
		std::list<Layer*> outs; { LibScope ls; outs = env->getOutputs( g ); }
		bool in = false; for( std::list<Layer*>::iterator c = outs.begin(); c != outs.end(); ++c ) if( *c == l ) in = true;
		if( !in ) bad( "the generator reported for " + id + " does not have it as output" );
	    }
	    if( o.deep && ( l->isGenerated() != ( g != 0 ) || l->getGenerator() != g ) ) bad( "layer " + id + " and the environment disagree on its generator" );
	}
    }
    if( o.ops )
	for( size_t i=0;i<ops.size();i++ )
	{
	    const std::string& id = ids[ops[i]]; std::list<Layer*> in, ou;
	    { LibScope ls; in = env->getInputs( ops[i] ); ou = env->getOutputs( ops[i] ); }
	    std::set<const EnvironmentItem*> s = asSet( in, ids, "getInputs(" + id + ")" );
	    for( std::set<const EnvironmentItem*>::iterator c = s.begin(); c != s.end(); ++c ) out["in " + id + ">" + ids[*c]] = "1";
	    s = asSet( ou, ids, "getOutputs(" + id + ")" );
	    for( std::set<const EnvironmentItem*>::iterator c = s.begin(); c != s.end(); ++c ) out["out " + id + ">" + ids[*c]] = "1";
	}
    // the two directions of each relation must agree; keep one of them
    Facts red;
    std::set<std::string> a, b, la, lb, ma, mb;
    for( Facts::iterator it = out.begin(); it != out.end(); ++it )
    {
	const std::string& k = it->first;
	if( k.compare( 0, 7, "parent " ) == 0 ) a.insert( it->second + ">" + k.substr( 7 ) ), red.insert( *it );
	else if( k.compare( 0, 6, "child " ) == 0 ) b.insert( k.substr( 6 ) );
	else if( k.compare( 0, 6, "frame " ) == 0 ) ma.insert( it->second + ">" + k.substr( 6 ) ), red.insert( *it );
	else if( k.compare( 0, 6, "mapof " ) == 0 ) mb.insert( k.substr( 6 ) );
	else if( k.compare( 0, 6, "layer " ) == 0 ) la.insert( k.substr( 6 ) ), red.insert( *it );
	else if( k.compare( 0, 11, "layerchild " ) == 0 ) lb.insert( k.substr( 11 ) );
	else red.insert( *it );
    }
    if( a != b ) bad( "parents and children of frames disagree" );
    if( ma != mb ) bad( "frames of maps and maps of frames disagree" );
    if( la != lb ) bad( "parents and children of layers disagree" );
    // what is generated from a layer follows from the operator connections
    if( o.ops )
    {
	std::set<std::string> gf, gf2, ge, ge2;
	for( Facts::iterator i = red.begin(); i != red.end(); ++i )
	    if( i->first.compare( 0, 3, "in " ) == 0 )
	    {
		size_t p = i->first.find( '>' ); std::string op = i->first.substr( 3, p - 3 ), l = i->first.substr( p + 1 ), pre = "out " + op + ">";
		for( Facts::iterator k = red.lower_bound( pre ); k != red.end() && k->first.compare( 0, pre.size(), pre ) == 0; ++k ) gf.insert( l + ">" + k->first.substr( pre.size() ) );
	    }
	    else if( i->first.compare( 0, 4, "out " ) == 0 ) ge.insert( i->first.substr( i->first.find( '>' ) + 1 ) );
	for( Facts::iterator i = red.begin(); i != red.end(); )
	{
	    if( i->first.compare( 0, 8, "genfrom " ) == 0 ) { gf2.insert( i->first.substr( 8 ) ); red.erase( i++ ); }
	    else if( i->first.compare( 0, 10, "generated " ) == 0 ) { ge2.insert( i->first.substr( 10 ) ); red.erase( i++ ); }
	    else ++i;
	}
	if( gf != gf2 ) bad( "layers generated from a layer disagree with the operator connections" );
	if( ge != ge2 ) bad( "generated layers disagree with the operator outputs" );
    }
    out.swap( red );
}
std::string diffFacts( const Facts& a, const Facts& b, const char* an, const char* bn )
{
    std::string r; int n = 0;
    Facts::const_iterator i = a.begin(), k = b.begin();
    while( i != a.end() || k != b.end() )
    {
	if( n >= 6 ) { r += " ..."; break; }
	if( k == b.end() || ( i != a.end() && i->first < k->first ) ) { r += fmt( "[%s=%s only in %s] ", i->first.c_str(), i->second.substr( 0, 60 ).c_str(), an ); ++i; n++; }
	else if( i == a.end() || k->first < i->first ) { r += fmt( "[%s=%s only in %s] ", k->first.c_str(), k->second.substr( 0, 60 ).c_str(), bn ); ++k; n++; }
	else
	{
	    if( i->second != k->second ) { r += fmt( "[%s: %s in %s, %s in %s] ", i->first.c_str(), i->second.substr( 0, 60 ).c_str(), an, k->second.substr( 0, 60 ).c_str(), bn ); n++; }
	    ++i; ++k;
	}
    }
    return r;
}
Facts onlyKeys( const Facts& f, const char* const* pre )
{
    Facts r;
    for( Facts::const_iterator it = f.begin(); it != f.end(); ++it )
    {
	std::string w = it->first.substr( 0, it->first.find( ' ' ) );
	for( int i=0;pre[i];i++ ) if( w == pre[i] ) { r.insert( *it ); break; }
    }
    return r;
}
bool structuralKey( const std::string& k )
{
    std::string w = k.substr( 0, k.find( ' ' ) );
    return w == "item" || w == "root" || w == "parent" || w == "frame" || w == "layer";
}

// ------------------------------------------------------------------ leaks
static std::map<void*,std::string>& vptrs() { static std::map<void*,std::string>* m = new std::map<void*,std::string>; return *m; }
template<class T> static void addHolder( const char* n ) { Holder<T>* h = new Holder<T>(); vptrs()[ *(void**)h ] = std::string( "metadata of type " ) + n; delete h; }
void leakBegin()
{
    Rng r( 1 ); Content c; c.size = 0;
    for( int k=0;k<K_COUNT;k++ ) { EnvironmentItem* i = makeItem( k, r, c ); vptrs()[ *(void**)i ] = kindName[k]; delete i; }
    addHolder<Probe>( "Probe" ); addHolder< std::vector<double> >( "vector<double>" ); addHolder<std::string>( "string" );
    addHolder<int>( "int" ); addHolder< std::map<int,std::string> >( "map" ); addHolder< std::vector<Eigen::Vector3d> >( "vector<Vector3d>" );
    addHolder< boost::multi_array<double,2> >( "array<double>" ); addHolder< boost::multi_array<float,2> >( "array<float>" ); addHolder< boost::multi_array<uint8_t,2> >( "array<uint8>" );
    addHolder< boost::multi_array<int16_t,2> >( "array<int16>" ); addHolder< boost::multi_array<uint16_t,2> >( "array<uint16>" );
    addHolder< boost::multi_array<int32_t,2> >( "array<int32>" ); addHolder< boost::multi_array<uint32_t,2> >( "array<uint32>" );
    Environment* e = new Environment(); vptrs()[ *(void**)e ] = "Environment"; delete e;
}
static void scan( std::map<std::string,int>& n )
{
    std::vector<LiveBlock> live; memLive( live, false );
    for( size_t i=0;i<live.size();i++ )
	if( live[i].size >= 16 )
	{
	    std::map<void*,std::string>::iterator it = vptrs().find( *(void**)live[i].ptr );
	    if( it != vptrs().end() ) n[it->second]++;
	}
}
std::string leakCheck()
{
    std::map<std::string,int> n; scan( n );
    std::string s;
    for( std::map<std::string,int>::iterator it = n.begin(); it != n.end(); ++it ) s += fmt( "%d %s, ", it->second, it->first.c_str() );
    return s;
}
size_t liveObjects() { std::map<std::string,int> n; scan( n ); size_t t = 0; for( std::map<std::string,int>::iterator it = n.begin(); it != n.end(); ++it ) t += it->second; return t; }
}
