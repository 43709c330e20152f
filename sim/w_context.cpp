// C17: with context updates the events of one change are enough to rebuild a map.
#include "wire.hpp"

using namespace sim;

namespace
{
// the map, its frames up to the top and their links, as facts
bool chainFacts( Environment* env, const std::string& id, Facts& f, bool& hasFrame, bool& reachesRoot )
{
    hasFrame = reachesRoot = false;
    CartesianMap* m = dynamic_cast<CartesianMap*>( env->getItem( id ).get() );
    if( !m ) return false;
    f["item " + id] = m->getClassName(); digestItem( m, f, "data " + id + " ", F_PERSIST );
    FrameNode* n = env->getFrameNode( m ); if( !n ) return true;
    hasFrame = true; f["frame " + id] = n->getUniqueId();
    for( int i=0;n && i<1000;i++ )
    {
	std::string fid = n->getUniqueId();
	f["item " + fid] = n->getClassName(); digestItem( n, f, "data " + fid + " ", F_PERSIST );
	if( n == env->getRootNode() ) { f["root"] = fid; reachesRoot = true; }
	FrameNode* up = env->getParent( n );
	if( up ) f["parent " + fid] = up->getUniqueId();
	n = up;
    }
    return true;
}
class CtxEngine : public Engine
{
public:
    struct Emission { Batch b; Facts want; std::string id; bool frame, root; };
    Channel* ch; bool queued; std::vector<Emission> em; std::vector<Environment*> stale;
    CtxEngine( const Plan& p ) : Engine( p ), ch( 0 ), queued( false ) { keepPending = true; }
    void open()
    {
	Environment* s = envs[0].env; queued = plan.get( "queued" );
	call( [&]{ ch = new Channel; ch->useEventQueue( queued ); ch->allowMultithreading( plan.get( "async" ) ); ch->useContextUpdates( s ); } );
	ch->tap = [this]( const Batch& b ) { tapped( b ); };
	call( [&]{ s->addEventHandler( ch ); } );
	if( lastThrew ) unexpected( "registering a handler with context updates" );
    }
    void tapped( const Batch& b )
    {
	if( !envs[0].env ) return;
	std::set<std::string> ids;
	for( size_t i=0;i<b.size();i++ ) if( b[i].type == event::ITEM && b[i].operation != event::REMOVE ) ids.insert( b[i].id_a );
	for( std::set<std::string>::iterator it = ids.begin(); it != ids.end(); ++it )
	{
	    Emission e; e.id = *it; e.b = b;
	    if( !chainFacts( envs[0].env, *it, e.want, e.frame, e.root ) ) continue;
	    em.push_back( e );
	}
    }
    void verify( Environment* target, const Emission& e, const char* who )
    {
	Batch b = transport( e.b, false );
	for( size_t i=0;i<b.size();i++ )
	{
	    Batch one( 1, b[i] );
	    call( [&]{ target->applyEvents( one ); } );
	    if( lastThrew ) violation( "event-refused", std::string( "a receiver " ) + who + " refused an event with context: " + lastErr + ", " + showEv( b[i] ) );
	}
	Facts got; bool hf, rr;
	if( !chainFacts( target, e.id, got, hf, rr ) ) violation( "map-missing", std::string( "a receiver " ) + who + " does not have map " + e.id + " after its update" );
	if( got != e.want ) violation( "context-incomplete", std::string( "the events of one change do not rebuild the map in a receiver " ) + who + ": " + diffFacts( e.want, got, "source", "receiver" ) );
	Facts f; observe( target, f );
	state( hashFacts( f ) );
    }
    void process( long sel )
    {
	std::vector<Emission> todo; todo.swap( em );
	for( size_t i=0;i<todo.size();i++ )
	{
	    const Emission& e = todo[i];
	    Environment* fresh = 0; call( [&]{ fresh = new Environment(); } );
	    verify( fresh, e, "that has nothing" ); count( "oracle.fresh" );
	    call( [&]{ delete fresh; } );
	    // receivers that got only some of the emissions
	    if( !e.root ) continue;
	    for( size_t k=0;k<stale.size();k++ )
		if( ( ( sel >> k ) ^ i ) & 1 ) { verify( stale[k], e, "that missed events" ); count( "oracle.stale" ); } else count( "fault.lost-emission" );
	}
    }
    bool extraOp( const Op& op )
    {
	if( op.kind == "flush" ) { if( queued ) { call( [&]{ ch->flush(); } ); if( lastThrew ) unexpected( "flushing events" ); } return true; }
	return false;
    }
    void afterStep( const Op& op ) { process( labs( op.a[0] ) + labs( op.a[1] ) * 3 ); }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 );
    p.cfg["queued"] = r.chance( 1, 2 ); p.cfg["async"] = r.chance( 1, 2 ); p.cfg["late"] = r.chance( 1, 4 ); p.cfg["stale"] = r.below( 3 );
    Weights w; w.mod = 24; w.trans = 12; w.frame = 24; w.layer = 3; w.place = 24; w.detach = 7; w.assign = 6; w.attach = 16; w.label = 0;
    std::vector<int> k; for( int i=0;i<6;i++ ) { k.push_back( K_FRAME ); k.push_back( K_MAP ); } k.push_back( K_LAYER ); k.push_back( K_CLOUD ); k.push_back( K_ELEV );
    genOps( p, r, runLength( r, th, 80 ), w, k );
    int every = 1 + r.below( 8 );
    if( p.cfg["queued"] ) { std::vector<Op> out; for( size_t i=0;i<p.ops.size();i++ ) { out.push_back( p.ops[i] ); if( r.chance( 1, every ) ) out.push_back( Op( "flush", r.below( 8 ), r.below( 8 ) ) ); } p.ops = out; }
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); leakBegin();
    CtxEngine e( p ); e.newEnv();
    for( long i=0;i<p.get( "stale" );i++ ) { LibScope ls; e.stale.push_back( new Environment() ); }
    if( p.get( "late" ) )
    {
	// registration in the middle: the first half runs without handler
	size_t half = p.ops.size() / 2;
	for( size_t i=0;i<p.ops.size();i++ )
	{
	    if( i == half ) { e.open(); e.process( 0 ); }
	    curOp( i, p.ops[i].kind ); clockAdvance( 1000 );
	    if( !e.ch && p.ops[i].kind == "flush" ) continue;
	    if( !e.extraOp( p.ops[i] ) ) e.step( p.ops[i] );
	    if( e.ch ) e.afterStep( p.ops[i] );
	    e.check();
	}
	if( !e.ch ) e.open();
    }
    else { e.open(); e.process( 0 ); e.runAll(); }
    setStage( "end" );
    if( e.queued ) { e.extraOp( Op( "flush" ) ); e.process( 1 ); }
    Environment* s = e.envs[0].env; { LibScope ls; s->removeEventHandler( e.ch ); delete e.ch; }
    e.em.clear();
    for( size_t i=0;i<e.stale.size();i++ ) { LibScope ls; delete e.stale[i]; }
    e.finish();
}
WorkloadReg r17( "context", gen, run );
}
