// C18: a map made of several surface grids answers from its current grids.
#include "wire.hpp"
#include <algorithm>

using namespace sim;

namespace
{
typedef Eigen::Affine3d Aff;
struct MapM
{
    MLSMap::Ptr map; std::vector<MLSGrid*> grids; MLSGrid* active; std::set<MLSGrid*> kids; FrameNode* frame;
    MapM() : active( 0 ), frame( 0 ) {}
};
struct GridM { MLSGrid* grid; FrameNode* frame; Facts facts; };
class World
{
public:
    const Plan& plan; Environment* env; Environment* rep; std::string err; bool threw;
    std::vector<FrameNode*> frames; std::map<FrameNode*,FrameNode*> up;
    std::map<MLSGrid*,GridM> grids; std::vector<MapM> maps; Channel* ch; bool queued;
    World( const Plan& p ) : plan( p ), env( 0 ), rep( 0 ), threw( false ), ch( 0 ), queued( p.get( "queued" ) ) {}

    bool lib( std::function<void()> f )
    {
	err.clear(); threw = false;
	try { LibScope ls; f(); return true; } catch( std::exception& e ) { HarnessScope hs; err = e.what(); threw = true; }
	return false;
    }
    void must( const char* what, std::function<void()> f ) { if( !lib( f ) ) violation( "refused", std::string( what ) + " failed: " + err ); }
    Facts dig( MLSGrid* g ) { Facts f; digestItem( g, f, "", F_PERSIST | F_META ); return f; }
    Aff top( FrameNode* f )
    {
	Aff t( Aff::Identity() );
	for( int n=0;f;n++ ) { t = f->getTransform() * t; f = up[f]; if( n > 10000 ) simError( "frame cycle" ); }
	return t;
    }
    Aff rel( FrameNode* from, FrameNode* to ) { return top( to ).inverse() * top( from ); }
    static Aff pose( Rng& r, bool rot )
    {
	Aff t( Aff::Identity() ); if( r.chance( 1, 8 ) ) return t;
	t.translate( Eigen::Vector3d( ( r.unit() - 0.5 ) * 6, ( r.unit() - 0.5 ) * 6, ( r.unit() - 0.5 ) * 4 ) );
	if( rot && r.chance( 1, 2 ) ) t.rotate( Eigen::AngleAxisd( ( r.unit() - 0.5 ) * 6, Eigen::Vector3d::UnitZ() ) );
	return t;
    }
    FrameNode* pickFrame( long a ) { return frames[ a % frames.size() ]; }
    MapM* pickMap( long a ) { return maps.empty() ? 0 : &maps[ a % maps.size() ]; }
    MLSGrid* pickGrid( long a )
    {
	if( grids.empty() ) return 0;
	// in order of ids: independent of addresses
	std::vector< std::pair<std::string,MLSGrid*> > v; for( std::map<MLSGrid*,GridM>::iterator it = grids.begin(); it != grids.end(); ++it ) v.push_back( std::make_pair( it->first->getUniqueId(), it->first ) );
	std::sort( v.begin(), v.end() ); return v[ a % v.size() ].second;
    }
    void open()
    {
	must( "creating environments", [&]{ env = new Environment(); rep = new Environment(); if( plan.get( "prefix" ) ) env->setEnvironmentPrefix( "/robot" ); } );
	frames.push_back( env->getRootNode() ); up[ frames[0] ] = 0;
	must( "registering", [&]{ ch = new Channel; ch->useEventQueue( queued ); env->addEventHandler( ch ); } );
    }
    void know( MLSGrid* g, FrameNode* f ) { GridM m; m.grid = g; m.frame = f; m.facts = dig( g ); grids[g] = m; }
    void addFrame( const Op& op )
    {
	Rng r( op.a[1] ); FrameNode* p = pickFrame( op.a[0] ); FrameNode* f = 0;
	must( "adding a frame", [&]{ f = new FrameNode( pose( r, plan.get( "rot" ) ) ); env->addChild( p, f ); } );
	frames.push_back( f ); up[f] = p;
    }
    void moveFrame( const Op& op )
    {
	FrameNode* f = pickFrame( op.a[0] ); Rng r( op.a[1] );
	if( op.a[2] % 3 == 0 && f != frames[0] )
	{
	    FrameNode* p = pickFrame( op.a[3] ); for( FrameNode* x = p; x; x = up[x] ) if( x == f ) return;
	    must( "moving a frame", [&]{ env->addChild( p, f ); } ); up[f] = p; count( "op.reparent" );
	    return;
	}
	Aff t = pose( r, plan.get( "rot" ) );
	must( "setting a transform", [&]{ f->setTransform( t ); } ); count( "op.move" );
    }
    void newMap( const Op& op )
    {
	if( maps.size() >= 5 ) return;
	MapM m; FrameNode* f = pickFrame( op.a[0] ); MLSMap* raw = 0;
	must( "creating a map", [&]{ raw = new MLSMap(); env->setFrameNode( raw, f ); } );
	m.map = raw; m.frame = f; maps.push_back( m ); count( "op.map" );
    }
    MLSGrid* randGrid( Rng& r )
    {
	size_t w = 1 + r.below( 6 ), h = 1 + r.below( 6 ); double sx = 0.3 + r.unit(), sy = 0.3 + r.unit(), ox = ( r.unit() - 0.5 ) * 4, oy = ( r.unit() - 0.5 ) * 4;
	MLSGrid* g = new MLSGrid( w, h, sx, sy, ox, oy );
	static const MLSConfiguration::update_model um[] = { MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE };
	g->getConfig().updateModel = um[ r.below( 3 ) ]; g->getConfig().gapSize = 0.25f + (float)r.unit(); g->getConfig().useColor = r.chance( 1, 2 );
	if( r.chance( 1, 4 ) ) g->initIndex();
	int n = r.below( 12 ); for( int i=0;i<n;i++ ) { size_t x = r.below( w ), y = r.below( h ); g->insertTail( x, y, patch( r ) ); }
	return g;
    }
    static SurfacePatch patch( Rng& r ) { SurfacePatch p = randPatch( r ); p.stdev = 0.05f + (float)r.unit() * 0.2f; return p; }
    void addGrid( const Op& op )
    {
	MapM* m = pickMap( op.a[0] ); if( !m ) return; Rng r( op.a[1] ); MLSGrid* g = 0;
	if( op.a[2] % 4 == 0 && ( g = pickGrid( op.a[3] ) ) )
	{
	    // a grid that is in the environment already
	    if( std::find( m->grids.begin(), m->grids.end(), g ) != m->grids.end() ) return;
	    if( !grids[g].frame ) return;
	    count( "op.shared-grid" );
	}
	else
	{
	    if( grids.size() > 14 ) return;
	    FrameNode* f = pickFrame( op.a[3] );
	    must( "creating a grid", [&]{ g = randGrid( r ); env->setFrameNode( g, f ); } ); know( g, f );
	}
	must( "adding a grid", [&]{ m->map->addGrid( g ); } );
	m->grids.push_back( g ); m->active = g; m->kids.insert( g ); count( "op.addGrid" );
    }
    // the library made a grid from the active one of m
    void created( MapM* m, MLSGrid* tmpl, FrameNode* parent, const Aff& want, const char* how )
    {
	std::vector<MLSGrid::Ptr>& gs = m->map->getGrids();
	if( gs.size() != m->grids.size() + 1 ) violation( "grids-differ", fmt( "%s left %zu grids, %zu expected", how, gs.size(), m->grids.size() + 1 ) );
	MLSGrid* g = gs.back().get(); if( !g || grids.count( g ) ) violation( "grids-differ", std::string( how ) + " did not make a new grid" );
	if( !g->isAttached() || g->getEnvironment() != env ) violation( "grids-differ", std::string( how ) + ": the new grid is not in the environment" );
	FrameNode* f = g->getFrameNode(); if( !f || up.count( f ) ) violation( "placement-differs", std::string( how ) + ": the new grid has no frame of its own" );
	if( env->getParent( f ) != parent ) violation( "placement-differs", std::string( how ) + ": the frame of the new grid hangs below the wrong frame" );
	Aff is = f->getTransform();
	if( !( is.matrix() - want.matrix() ).isZero( 1e-9 ) ) violation( "placement-differs", std::string( how ) + fmt( ": the new grid was placed at %g %g %g instead of %g %g %g", is.translation().x(), is.translation().y(), is.translation().z(), want.translation().x(), want.translation().y(), want.translation().z() ) );
	if( g->getCellSizeX() != tmpl->getCellSizeX() || g->getCellSizeY() != tmpl->getCellSizeY() || g->getScaleX() != tmpl->getScaleX() || g->getScaleY() != tmpl->getScaleY() || g->getOffsetX() != tmpl->getOffsetX() || g->getOffsetY() != tmpl->getOffsetY() )
	    violation( "grids-differ", std::string( how ) + ": the new grid does not have the geometry of its template" );
	Facts a = dig( g ), b = dig( tmpl ); if( a["conf"] != b["conf"] ) violation( "grids-differ", std::string( how ) + ": the new grid does not have the configuration of its template" );
	if( g->getCellCount() ) violation( "grids-differ", std::string( how ) + ": the new grid is not empty" );
	up[f] = parent; frames.push_back( f ); know( g, f );
	m->grids.push_back( g ); m->active = g; m->kids.insert( g );
    }
    static Aff align( Aff t, MLSGrid* g, bool& edge )
    {
	double x = t.translation().x() / g->getScaleX(), y = t.translation().y() / g->getScaleY();
	edge = fabs( x - round( x ) ) < 1e-9 || fabs( y - round( y ) ) < 1e-9;
	Aff r( Aff::Identity() ); r.translation() = Eigen::Vector3d( floor( x ) * g->getScaleX(), floor( y ) * g->getScaleY(), t.translation().z() );
	return r;
    }
    void create( const Op& op )
    {
	MapM* m = pickMap( op.a[0] ); if( !m || grids.size() > 14 ) return; Rng r( op.a[1] );
	Aff t = pose( r, true ); bool relative = op.a[2] % 2, aligned = op.a[3] % 2, edge = false;
	Aff want = t; if( aligned && m->active ) want = align( t, m->active, edge ); if( edge ) { t = Aff::Identity(); want = t; }
	MLSGrid* tmpl = m->active; FrameNode* parent = relative ? ( tmpl ? grids[tmpl].frame : 0 ) : m->frame;
	must( "creating a grid", [&]{ m->map->createGrid( t, relative, aligned ); } );
	if( !tmpl ) return;         // nothing to take as template
	created( m, tmpl, parent, want, "createGrid" ); count( "op.createGrid" );
    }
    void select( const Op& op )
    {
	MapM* m = pickMap( op.a[0] ); if( !m || m->grids.empty() || !m->active || grids.size() > 14 ) return;
	FrameNode* f = pickFrame( op.a[1] ); double limit = ( op.a[2] % 12 ) * 0.7 + 0.2; bool aligned = op.a[3] % 2;
	double best = limit; bool unclear = false; MLSGrid* win = 0; std::vector<double> ds;
	for( size_t i=0;i<m->grids.size();i++ )
	{
	    Aff t = rel( f, grids[ m->grids[i] ].frame ); double d = std::max( fabs( t.translation().x() ), fabs( t.translation().y() ) ); ds.push_back( d );
	    if( fabs( d - limit ) < 1e-9 ) unclear = true;
	    if( d < best ) { best = d; win = m->grids[i]; }
	}
	for( size_t i=0;i<ds.size();i++ ) if( win && m->grids[i] != win && fabs( ds[i] - best ) < 1e-9 ) unclear = true;
	MLSGrid* tmpl = m->active; Aff t = rel( f, grids[tmpl].frame ), want = t; bool edge = false; if( aligned ) want = align( t, tmpl, edge );
	if( unclear || ( !win && edge ) ) { count( "skip.unclear" ); return; }
	must( "selecting a grid", [&]{ m->map->selectActiveGrid( f, limit, aligned ); } );
	if( win ) { m->active = win; count( "op.select" ); } else { created( m, tmpl, grids[tmpl].frame, want, "selectActiveGrid" ); count( "op.select-new" ); }
    }
    void touch( const Op& op )
    {
	MLSGrid* g = pickGrid( op.a[0] ); if( !g ) return; Rng r( op.a[1] );
	size_t x = r.below( g->getCellSizeX() ), y = r.below( g->getCellSizeY() );
	must( "changing a grid", [&]{
	    MLSGrid::iterator it = g->beginCell( x, y );
	    if( op.a[2] % 4 == 0 ) { for( size_t i=0;i<g->getCellSizeX() && it == g->endCell();i++ ) it = g->beginCell( i, y ); if( it != g->endCell() ) { g->erase( it ); count( "op.erase" ); } }
	    else if( op.a[2] % 17 == 1 ) g->clear();
	    else { g->insertTail( x, y, patch( r ) ); count( "op.patch" ); }
	    if( op.a[2] % 2 ) g->itemModified(); } );
	grids[g].facts = dig( g );
	if( op.a[2] % 2 == 0 ) must( "modified", [&]{ g->itemModified(); } );
    }
    void place( const Op& op )
    {
	FrameNode* f = pickFrame( op.a[1] );
	if( op.a[2] % 2 ) { MapM* m = pickMap( op.a[0] ); if( !m ) return; must( "placing a map", [&]{ env->setFrameNode( m->map.get(), f ); } ); m->frame = f; }
	else { MLSGrid* g = pickGrid( op.a[0] ); if( !g ) return; must( "placing a grid", [&]{ env->setFrameNode( g, f ); } ); grids[g].frame = f; }
	count( "op.place" );
    }
    void drop( const Op& op )
    {
	// a user takes a grid out of all maps and out of the environment, where it is destroyed
	MLSGrid* g = pickGrid( op.a[0] ); if( !g ) return; std::string id = g->getUniqueId(); uint64_t seq = memBlockSeq( g );
	must( "removing a grid", [&]{
	    for( size_t i=0;i<maps.size();i++ )
	    {
		MLSMap* m = maps[i].map.get(); std::vector<MLSGrid::Ptr>& v = m->getGrids();
		for( size_t k=v.size();k-->0; ) if( v[k].get() == g ) v.erase( v.begin() + k );
		if( m->active.get() == g ) m->active = v.empty() ? 0 : v.back();
		if( op.a[1] % 2 && maps[i].kids.count( g ) ) env->removeChild( m, g );
	    }
	    env->detachItem( g ); } );
	for( size_t i=0;i<maps.size();i++ )
	{
	    MapM& m = maps[i]; std::vector<MLSGrid*>::iterator it = std::find( m.grids.begin(), m.grids.end(), g );
	    if( it != m.grids.end() ) m.grids.erase( it );
	    m.kids.erase( g ); if( m.active == g ) m.active = m.grids.empty() ? 0 : m.grids.back();
	}
	grids.erase( g ); count( "op.drop" );
	if( !queued && memIsLive( g ) && memBlockSeq( g ) == seq ) violation( "item-leaked", "grid " + id + " is not destroyed although no map refers to it any more" );
    }
    void assign( const Op& op )
    {
	MapM *a = pickMap( op.a[0] ), *b = pickMap( op.a[1] ); if( !a ) return;
	std::string id = b->map->getUniqueId();
	if( op.a[2] % 2 ) must( "assigning", [&]{ *b->map = *a->map; } ); else must( "assigning", [&]{ b->map->set( a->map.get() ); } );
	if( b->map->getUniqueId() != id || b->map->getEnvironment() != env ) violation( "copy-differs", "assigning a map changed its id or environment" );
	if( a != b )
	{
	    for( size_t i=0;i<b->grids.size();i++ ) b->kids.erase( b->grids[i] );
	    b->grids = a->grids; b->active = a->active; for( size_t i=0;i<b->grids.size();i++ ) b->kids.insert( b->grids[i] );
	}
	count( "op.assign" );
	must( "modified", [&]{ b->map->itemModified(); } );
    }
    void copy( const Op& op )
    {
	MapM* a = pickMap( op.a[0] ); if( !a ) return; MLSMap* c = 0;
	must( "cloning", [&]{ if( op.a[2] % 3 == 0 ) a->map->getData<int>( "note" ) = (int)op.a[1]; c = a->map->clone(); } );
	MLSMap::Ptr hold( c );
	bool same = c->getGrids().size() == a->grids.size(); for( size_t i=0;same && i<a->grids.size();i++ ) same = c->getGrids()[i].get() == a->grids[i];
	if( !same || c->getActiveGrid().get() != a->active ) violation( "copy-differs", "a copied map does not refer to the same grids" );
	if( c->isAttached() || !c->getUniqueId().empty() ) violation( "copy-differs", "a copied map is attached or has an id" );
	if( a->map->hasData<int>( "note" ) && ( !c->hasData<int>( "note" ) || c->getData<int>( "note" ) != a->map->getData<int>( "note" ) ) ) violation( "copy-differs", "a copied map lost its metadata" );
	count( "op.copy" );
    }
    void deep( const Op& op )
    {
	MapM* a = pickMap( op.a[0] ); if( !a || !a->active || maps.size() >= 5 || grids.size() > 14 ) return; MLSMap* c = 0;
	must( "deep cloning", [&]{ c = a->map->cloneDeep(); } );
	if( !c || c->getEnvironment() != env ) violation( "copy-differs", "a deep clone is not attached" );
	if( c->getGrids().size() != a->grids.size() ) violation( "copy-differs", "a deep clone has another number of grids" );
	MapM n; n.map = c; n.frame = a->frame; MLSGrid* mine = c->getActiveGrid().get();
	if( !mine || mine == a->active || grids.count( mine ) ) violation( "copy-differs", "a deep clone has no active grid of its own" );
	if( mine->getEnvironment() != env ) violation( "copy-differs", "the active grid of a deep clone is not attached" );
	Facts f = dig( mine ); if( f != grids[a->active].facts ) violation( "copy-differs", "the active grid of a deep clone differs from the original: " + diffFacts( grids[a->active].facts, f, "original", "clone" ) );
	know( mine, grids[a->active].frame );
	for( size_t i=0;i<a->grids.size();i++ ) n.grids.push_back( a->grids[i] == a->active ? mine : a->grids[i] );
	n.active = mine; n.kids.insert( n.grids.begin(), n.grids.end() );
	maps.push_back( n ); count( "op.deep" );
    }
    void removeMap( const Op& op )
    {
	MapM* m = pickMap( op.a[0] ); if( !m ) return; size_t k = m - &maps[0];
	must( "detaching a map", [&]{ env->detachItem( m->map.get() ); } );
	MLSMap* raw = m->map.get(); uint64_t seq = memBlockSeq( raw ); { LibScope ls; maps.erase( maps.begin() + k ); }
	if( !queued && memIsLive( raw ) && memBlockSeq( raw ) == seq ) violation( "item-leaked", "a detached map is not destroyed" );
	count( "op.remove-map" );
    }
    void query( const Op& op )
    {
	MapM* m = pickMap( op.a[0] ); if( !m ) return; Rng r( op.a[1] );
	for( int q=0;q<4;q++ )
	{
	    Eigen::Vector3d p( ( r.unit() - 0.5 ) * 16, ( r.unit() - 0.5 ) * 16, ( r.unit() - 0.5 ) * 4 ); SurfacePatch probe = patch( r ); double sigma = 0.5 + r.unit() * 4;
	    if( m->grids.size() && !r.chance( 1, 5 ) )
	    {
		// somewhere in a cell of one of the grids, near one of its patches
		MLSGrid* g = m->grids[ r.below( m->grids.size() ) ]; size_t x = r.below( g->getCellSizeX() ), y = r.below( g->getCellSizeY() );
		for( int k=0;k<20 && g->beginCell( x, y ) == g->endCell();k++ ) { x = r.below( g->getCellSizeX() ); y = r.below( g->getCellSizeY() ); }
		Aff c = rel( m->frame, grids[g].frame );
		p = c.inverse() * Eigen::Vector3d( g->getOffsetX() + ( x + 0.05 + 0.9 * r.unit() ) * g->getScaleX(), g->getOffsetY() + ( y + 0.05 + 0.9 * r.unit() ) * g->getScaleY(), 0 );
		MLSGrid::iterator it = g->beginCell( x, y ); for( int k=r.below( 3 );k>0 && it != g->endCell();k-- ) { MLSGrid::iterator nx = it; ++nx; if( nx == g->endCell() ) break; it = nx; }
		if( it != g->endCell() ) { probe = *it; probe.mean += (float)( -c.translation().z() + ( r.unit() - 0.5 ) * ( r.chance( 1, 2 ) ? 0.1 : 2 ) ); }
	    }
	    ask( *m, p, probe, sigma );
	}
    }
    void ask( MapM& m, const Eigen::Vector3d& p, const SurfacePatch& probe, double sigma )
    {
	std::vector< std::pair<SurfacePatch,float> > sure, may;
	for( size_t i=0;i<m.grids.size();i++ )
	{
	    MLSGrid* g = m.grids[i]; Aff c = rel( m.frame, grids[g].frame ); Eigen::Vector3d q = c * p;
	    double x = ( q.x() - g->getOffsetX() ) / g->getScaleX(), y = ( q.y() - g->getOffsetY() ) / g->getScaleY();
	    if( fabs( x - round( x ) ) < 1e-7 || fabs( y - round( y ) ) < 1e-7 ) { count( "skip.unclear" ); return; }
	    if( x < 0 || y < 0 || x >= g->getCellSizeX() || y >= g->getCellSizeY() ) continue;
	    SurfacePatch at = probe; at.mean += (float)c.translation().z();
	    for( MLSGrid::iterator it = g->beginCell( (size_t)x, (size_t)y ); it != g->endCell(); it++ )
	    {
		if( it->isNegative() ) continue;
		double lim = sqrt( sq( at.stdev ) + sq( it->stdev ) ) * sigma, d = it->distance( at );
		if( d < lim + 1e-4 ) ( d < lim - 1e-4 ? sure : may ).push_back( std::make_pair( *it, (float)( it->mean - c.translation().z() ) ) );
	    }
	}
	SurfacePatch res = probe; bool got = false; MLSMap* map = m.map.get();
	must( "looking up a patch", [&]{ got = map->getPatch( p, res, sigma ); } );
	count( got ? "query.hit" : "query.miss" );
	if( !got )
	{
	    if( sure.size() ) violation( "patch-missed", fmt( "a patch stored at %g %g was not found", p.x(), p.y() ) );
	    if( patchHash( res ) != patchHash( probe ) ) violation( "patch-invented", "a look-up that found nothing changed the patch" );
	    return;
	}
	sure.insert( sure.end(), may.begin(), may.end() );
	for( size_t i=0;i<sure.size();i++ )
	{
	    SurfacePatch s = sure[i].first; float want = sure[i].second; SurfacePatch t = res; t.mean = s.mean;
	    if( patchHash( s ) == patchHash( t ) && fabs( res.mean - want ) < 1e-4 * ( 1 + fabs( want ) ) ) { state( mix( patchHash( s ), i ) ); return; }
	}
	violation( "patch-invented", fmt( "the patch found at %g %g (height %g) is in none of the grids there", p.x(), p.y(), res.mean ) );
    }
    void check()
    {
	for( size_t i=0;i<maps.size();i++ )
	{
	    MapM& m = maps[i]; std::vector<MLSGrid::Ptr>& v = m.map->getGrids(); std::string id = m.map->getUniqueId();
	    bool same = v.size() == m.grids.size(); for( size_t k=0;same && k<v.size();k++ ) same = v[k].get() == m.grids[k];
	    if( !same ) violation( "grids-differ", "map " + id + " does not refer to the grids it was given" );
	    if( m.map->getActiveGrid().get() != m.active ) violation( "grids-differ", "map " + id + " has another active grid" );
	    std::list<Layer*> kids; { LibScope ls; kids = env->getChildren( m.map.get() ); }
	    std::set<Layer*> ks( kids.begin(), kids.end() ), want( m.kids.begin(), m.kids.end() );
	    if( kids.size() != ks.size() || ks != want ) violation( "grids-differ", "the child layers of map " + id + fmt( " are not its grids (%zu instead of %zu)", kids.size(), want.size() ) );
	    if( m.map->getFrameNode() != m.frame ) violation( "placement-differs", "map " + id + " is at another frame" );
	    // extents
	    bool plain = !m.kids.empty(); Eigen::AlignedBox<double,2> ex;
	    for( std::set<MLSGrid*>::iterator it = m.kids.begin(); plain && it != m.kids.end(); ++it )
	    {
		Aff c = rel( grids[*it].frame, m.frame ); if( !c.linear().isIdentity( 1e-9 ) ) plain = false;
		Eigen::AlignedBox<double,2> e; { LibScope ls; e = (*it)->getExtents(); } if( e.isEmpty() ) { plain = false; continue; }
		e.translate( Eigen::Vector2d( c.translation().head<2>() ) ); ex.extend( e );
	    }
	    if( plain )
	    {
		Eigen::AlignedBox<double,2> is; must( "asking for the extents", [&]{ is = m.map->getExtents(); } ); count( "oracle.extents" );
		if( !( is.min() - ex.min() ).isZero( 1e-6 ) || !( is.max() - ex.max() ).isZero( 1e-6 ) ) violation( "extents-differ", fmt( "the extents of map %s do not cover its grids: %g %g %g %g instead of %g %g %g %g", id.c_str(), is.min().x(), is.min().y(), is.max().x(), is.max().y(), ex.min().x(), ex.min().y(), ex.max().x(), ex.max().y() ) );
	    }
	}
	std::set<std::string> ids;
	for( std::map<MLSGrid*,GridM>::iterator it = grids.begin(); it != grids.end(); ++it )
	{
	    if( !ids.insert( it->first->getUniqueId() ).second ) violation( "grids-differ", "two grids have the same id" );
	    if( it->first->getEnvironment() != env ) violation( "grids-differ", "a grid is not attached any more" );
	    if( it->first->getFrameNode() != it->second.frame ) violation( "placement-differs", "grid " + it->first->getUniqueId() + " is at another frame" );
	    Facts f = dig( it->first ); if( f != it->second.facts ) violation( "content-differs", "grid " + it->first->getUniqueId() + " was changed by something else: " + diffFacts( it->second.facts, f, "before", "after" ) );
	}
    }
    void sync()
    {
	if( queued ) must( "flushing events", [&]{ ch->flush(); } );
	Batch b; b.swap( ch->got ); Batch t = transport( b, b.size() % 2 );
	must( "applying events", [&]{ rep->applyEvents( t ); } );
	Facts want = wireFacts( env ), got = wireFacts( rep );
	if( want != got ) violation( "replica-differs", "a replica differs: " + diffFacts( want, got, "source", "replica" ) );
	count( "oracle.replica" );
    }
    void all()
    {
	open();
	for( size_t i=0;i<plan.ops.size();i++ )
	{
	    const Op& op = plan.ops[i]; curOp( i, op.kind ); clockAdvance( 1000 );
	    if( g_trace ) tracef( "%zu %s", i, op.kind.c_str() );
	    const std::string& k = op.kind;
	    if( k == "frame" ) addFrame( op ); else if( k == "move" ) moveFrame( op ); else if( k == "map" ) newMap( op ); else if( k == "add" ) addGrid( op );
	    else if( k == "create" ) create( op ); else if( k == "select" ) select( op ); else if( k == "touch" ) touch( op ); else if( k == "place" ) place( op );
	    else if( k == "drop" ) drop( op ); else if( k == "assign" ) assign( op ); else if( k == "copy" ) copy( op ); else if( k == "deep" ) deep( op );
	    else if( k == "remove" ) removeMap( op ); else if( k == "query" ) query( op ); else if( k == "sync" ) sync();
	    check();
	}
	setStage( "end" ); sync();
	must( "removing a handler", [&]{ env->removeEventHandler( ch ); delete ch; } );
	if( plan.get( "mapsfirst" ) ) { LibScope ls; maps.clear(); }
	must( "destroying the environments", [&]{ delete rep; delete env; } );
	{ LibScope ls; maps.clear(); }
    }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 );
    p.cfg["rot"] = r.chance( 1, 2 ); p.cfg["queued"] = r.chance( 1, 3 ); p.cfg["prefix"] = r.chance( 1, 3 ); p.cfg["mapsfirst"] = r.chance( 1, 2 );
    static const char* ks[] = { "frame", "move", "map", "add", "create", "select", "touch", "place", "drop", "assign", "copy", "deep", "remove", "query", "sync" };
    static const int w[] =    {   6,       12,     4,     14,    8,        8,        14,      6,       6,      4,        3,      3,      2,        30,      4 };
    int tot = 0, ws[15]; for( int i=0;i<15;i++ ) { ws[i] = w[i]; if( i != 13 && r.chance( 1, 6 ) ) ws[i] = 0; if( r.chance( 1, 8 ) ) ws[i] *= 3; tot += ws[i]; }
    p.add( "frame", 0, r.below( 1u << 30 ) ); p.add( "map", r.below( 8 ) ); p.add( "add", 0, r.below( 1u << 30 ), 1, r.below( 8 ) );
    int n = 8 + r.below( th ? 200 : 80 );
    for( int i=0;i<n;i++ )
    {
	long t = r.below( tot ); int q = 0; while( q < 14 && t >= ws[q] ) t -= ws[q++];
	p.add( ks[q], r.below( 4096 ), r.below( 1u << 30 ), r.below( 4096 ), r.below( 4096 ) );
    }
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); leakBegin();
    { World w( p ); w.all(); }
    std::string l = leakCheck(); if( !l.empty() ) violation( "item-leaked", "still alive after everything was released: " + l );
}
WorkloadReg r18( "gridmaps", gen, run );
}
