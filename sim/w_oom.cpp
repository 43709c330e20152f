// C14: running out of memory at any allocation inside any operation on environments.
#include "wire.hpp"

using namespace sim;

namespace
{
Facts sceneFacts( Environment* env ) { Facts f; Obs o; observe( env, f, o ); return f; }
class OomEngine : public Engine
{
public:
    long nth, persist; bool armed; int sceneOf; Facts sceneWant; bool haveScene;
    std::vector<Channel*> chans; std::vector<int> chanEnv;
    OomEngine( const Plan& p ) : Engine( p ), nth( 0 ), persist( 0 ), armed( false ), sceneOf( -1 ), haveScene( false ) { keepPending = true; }

    bool faulty( std::function<void()> f )
    {
	if( armed ) memFailAt( nth, persist );
	call( f );
	bool fired = armed && memFailFired(); memFailOff(); armed = false;
	if( fired ) count( "fault.alloc_failure" );
	if( lastThrew && !fired ) fail( "refused-valid-operation", "an operation was refused although there is memory: " + lastErr );
	if( fired && !lastThrew ) count( "oracle.failure_survived" );
	return !lastThrew;
    }
    struct Before { std::map<int,int> env; std::map<int,Facts> content; std::map<int,std::string> id; std::vector<EnvM> envs; };
    void snapshot( Before& b )
    {
	for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead ) { b.env[i] = slots[i].env; b.content[i] = slots[i].content; b.id[i] = slots[i].id; }
	b.envs = envs;
    }
    // what may differ after an operation that failed half-way
    void compare( const Op& op, const Before& b )
    {
	const std::string& k = op.kind;
	int lost = 0, changed = 0;
	bool removes = k == "detach" || k == "move";
	for( std::map<int,int>::const_iterator it = b.env.begin(); it != b.env.end(); ++it )
	{
	    const Slot& s = slots[it->first];
	    if( it->second >= 0 && ( s.dead || s.env != it->second ) )
	    { lost++; if( !removes ) fail( "item-lost", "item " + b.id.find( it->first )->second + " is no longer attached after " + k + " ran out of memory" ); }
	    if( s.dead ) continue;
	    if( it->second >= 0 && s.env == it->second && s.id != b.id.find( it->first )->second ) fail( "id-changed", "id of an attached item changed to " + s.id + " when " + k + " ran out of memory" );
	    if( s.content != b.content.find( it->first )->second && !( k == "mod" || k == "trans" || k == "assign" ) )
		fail( "content-differs", "content of " + s.id + " changed when " + k + " ran out of memory: " + diffFacts( b.content.find( it->first )->second, s.content, "before", "after" ) );
	    if( s.content != b.content.find( it->first )->second ) changed++;
	}
	if( changed > 1 ) fail( "content-differs", "several items changed when " + k + " ran out of memory" );
	// links between items that are still attached disappear or appear only where the operation works
	int gone = 0, fresh = 0;
	for( size_t e=0;e<b.envs.size();e++ )
	{
	    if( !envs[e].env ) continue;
	    for( int pass=0;pass<2;pass++ )
	    {
		const EnvM& x = pass ? envs[e] : b.envs[e]; const EnvM& y = pass ? b.envs[e] : envs[e]; int& n = pass ? fresh : gone;
		auto still = [&]( int s ) { return !slots[s].dead && slots[s].env == (int)e && b.env.count( s ) && b.env.find( s )->second == (int)e; };
		for( std::map<int,int>::const_iterator it = x.parent.begin(); it != x.parent.end(); ++it ) if( still( it->first ) && still( it->second ) && ( !y.parent.count( it->first ) || y.parent.find( it->first )->second != it->second ) ) n++;
		for( std::map<int,int>::const_iterator it = x.frameOf.begin(); it != x.frameOf.end(); ++it ) if( still( it->first ) && still( it->second ) && ( !y.frameOf.count( it->first ) || y.frameOf.find( it->first )->second != it->second ) ) n++;
		for( std::set<Link>::const_iterator it = x.layer.begin(); it != x.layer.end(); ++it ) if( still( it->first ) && still( it->second ) && !y.layer.count( *it ) ) n++;
		for( std::set<Link>::const_iterator it = x.in.begin(); it != x.in.end(); ++it ) if( still( it->first ) && still( it->second ) && !y.in.count( *it ) ) n++;
		for( std::set<Link>::const_iterator it = x.out.begin(); it != x.out.end(); ++it ) if( still( it->first ) && still( it->second ) && !y.out.count( *it ) ) n++;
	    }
	}
	int maxGone = 0, maxFresh = 0;
	if( removes ) maxGone = 1 << 20;                                              // links of the item being removed
	else if( k == "frameadd" || k == "setframe" ) maxGone = maxFresh = 1;
	else if( k == "framerem" || k == "unframe" || k == "layerrem" || k == "opinrem" || k == "opoutrem" ) maxGone = 1;
	else if( k == "layeradd" || k == "opin" || k == "opout" || k == "attach" ) maxFresh = 1;
	else if( k == "opset" || k == "opclr" || k == "ldetach" ) { maxGone = 1 << 20; maxFresh = 1; }
	if( gone > maxGone ) fail( "link-lost", fmt( "%d links are gone after %s ran out of memory", gone, k.c_str() ) );
	if( fresh > maxFresh ) fail( "link-appeared", fmt( "%d links appeared when %s ran out of memory", fresh, k.c_str() ) );
	count( "oracle.after-failure" );
    }
    void audit( Environment* env, const char* what ) { setStage( what ); sceneFacts( env ); }
    // a new replica that asks for everything
    void freshReplica( int e )
    {
	Environment* env = envs[e].env; Batch b; Environment* rep = 0;
	call( [&]{ env->pullEvents( b, true ); } ); if( lastThrew ) { fail( "refused-valid-operation", "pulling all events fails although there is memory again: " + lastErr ); }
	call( [&]{ rep = new Environment(); } );
	Batch t = transport( b, false );
	call( [&]{ rep->applyEvents( t ); } ); if( lastThrew ) fail( "refused-valid-operation", "a fresh replica can not be filled although there is memory again: " + lastErr );
	Facts want = wireFacts( env ), got = wireFacts( rep );
	if( want != got ) fail( "replica-differs", "a fresh replica differs: " + diffFacts( want, got, "source", "replica" ) );
	call( [&]{ delete rep; } ); count( "oracle.fresh-replica" );
    }
    bool opSync( const Op& op )
    {
	int e = envOfIndex( op.a[0] ); if( e < 0 ) return true;
	Environment* env = envs[e].env; int how = op.a[1] % 3;
	if( how == 0 ) { Batch b; bool all = op.a[2] % 2; faulty( [&]{ env->pullEvents( b, all ); } ); }
	else if( how == 1 )
	{
	    Batch b; call( [&]{ env->pullEvents( b, true ); } ); if( lastThrew ) fail( "refused-valid-operation", "pulling events failed: " + lastErr );
	    Environment* rep = 0; call( [&]{ rep = new Environment(); } );
	    Batch t = transport( b, false );
	    if( !faulty( [&]{ rep->applyEvents( t ); } ) )
	    {
		audit( rep, "replica after running out of memory" );
		if( op.a[3] % 2 )
		{
		    Batch again = transport( b, false );
		    call( [&]{ rep->applyEvents( again ); } );
		    if( lastThrew ) fail( "refused-valid-operation", "a replica that ran out of memory refuses the same events later: " + lastErr );
		    Facts want = wireFacts( env ), got = wireFacts( rep );
		    if( want != got ) fail( "replica-differs", "a replica that ran out of memory differs after receiving everything again: " + diffFacts( want, got, "source", "replica" ) );
		    count( "oracle.resent" );
		}
	    }
	    call( [&]{ delete rep; } ); if( lastThrew ) fail( "refused-valid-operation", "destroying a replica failed" );
	}
	else if( !chans.empty() )
	{
	    size_t c = op.a[2] % chans.size(); Channel* ch = chans[c];
	    if( ch && envs[chanEnv[c]].env ) { faulty( [&]{ ch->flush(); } ); ch->got.clear(); }
	}
	armed = false;
	if( op.a[4] % 2 ) freshReplica( e );
	return true;
    }
    bool opChan( const Op& op )
    {
	int e = envOfIndex( op.a[0] ); if( e < 0 || chans.size() >= 3 ) return true;
	Environment* env = envs[e].env; Channel* ch = 0; bool q = op.a[1] % 2, as = op.a[1] / 2 % 2;
	call( [&]{ ch = new Channel; ch->useEventQueue( q ); ch->allowMultithreading( as ); } );
	if( faulty( [&]{ env->addEventHandler( ch ); } ) ) { chans.push_back( ch ); chanEnv.push_back( e ); count( "op.channel" ); }
	else { call( [&]{ env->removeEventHandler( ch ); } ); call( [&]{ delete ch; } ); }
	return true;
    }
    void closeChans() { for( size_t i=0;i<chans.size();i++ ) if( chans[i] ) { Channel* c = chans[i]; Environment* env = envs[chanEnv[i]].env; if( env ) call( [&]{ env->removeEventHandler( c ); } ); if( lastThrew ) fail( "refused-valid-operation", "removing a handler failed: " + lastErr ); call( [&]{ delete c; } ); chans[i] = 0; } }
    bool collision( int e )
    {
	std::set<std::string> seen;
	for( size_t i=0;i<slots.size();i++ )
	{
	    if( slots[i].dead || slots[i].env != e || !dynamic_cast<Layer*>( slots[i].raw ) ) continue;
	    std::string id = slots[i].id; for( size_t c=0;c<id.size();c++ ) if( id[c] == '/' ) id[c] = '_';
	    if( !seen.insert( slots[i].raw->getClassName() + id ).second ) return true;
	}
	return false;
    }
    void closed( const char* when ) { if( diskOpenFiles() ) fail( "file-left-open", std::string( "files are still open after " ) + when ); }
    bool opSave( const Op& op )
    {
	int e = envOfIndex( op.a[0] ); if( e < 0 || collision( e ) ) return true;
	Environment* env = envs[e].env; Facts f = sceneFacts( env );
	bool ok = faulty( [&]{ env->serialize( "d/a" ); } );
	closed( "saving" );
	if( sceneFacts( env ) != f ) fail( "save-changes-scene", "a save that ran out of memory changed the environment: " + diffFacts( f, sceneFacts( env ), "before", "after" ) );
	if( !ok ) { call( [&]{ env->serialize( "d/a" ); } ); if( lastThrew ) fail( "refused-valid-operation", "saving fails although there is memory again: " + lastErr ); }
	haveScene = true; sceneWant = f;
	Environment* l = 0; call( [&]{ l = Environment::unserialize( "d/a" ); } );
	if( lastThrew || !l ) fail( "load-refused", ( ok ? "a save without error can not be loaded: " : "the scene saved after a failed save can not be loaded: " ) + lastErr );
	Facts got = sceneFacts( l ); if( got != f ) fail( "scene-differs", "the saved scene differs: " + diffFacts( f, got, "saved", "loaded" ) );
	call( [&]{ delete l; } ); count( "oracle.save" );
	return true;
    }
    bool opLoad( const Op& op )
    {
	if( !haveScene ) return true;
	Environment* l = 0; size_t before = liveObjects();
	bool ok = faulty( [&]{ l = Environment::unserialize( "d/a" ); } );
	closed( "loading" );
	if( !ok )
	{
	    if( liveObjects() != before ) fail( "item-leaked", fmt( "a load that ran out of memory leaves %ld objects behind", (long)( liveObjects() - before ) ) );
	    call( [&]{ l = Environment::unserialize( "d/a" ); } );
	    if( lastThrew ) fail( "load-refused", "loading fails although there is memory again: " + lastErr );
	}
	if( !l ) fail( "load-refused", "loading returned nothing" );
	Facts got = sceneFacts( l ); if( got != sceneWant ) fail( "scene-differs", std::string( ok ? "a load that did not report the lack of memory gives another scene: " : "the loaded scene differs: " ) + diffFacts( sceneWant, got, "saved", "loaded" ) );
	call( [&]{ delete l; } ); count( "oracle.load" );
	return true;
    }
    bool extraOp( const Op& op )
    {
	const std::string& k = op.kind;
	if( k == "oom" ) { nth = op.a[0]; persist = op.a[1]; armed = true; return true; }
	if( k == "sync" ) { opSync( op ); armed = false; return true; }
	if( k == "chan" ) { opChan( op ); armed = false; return true; }
	if( k == "save" ) { opSave( op ); armed = false; return true; }
	if( k == "load" ) { opLoad( op ); armed = false; return true; }
	if( k == "envdel" ) { closeChans(); chans.clear(); chanEnv.clear(); }
	bool was = armed; armed = false;
	if( !was || k == "envdel" || k == "envnew" || k == "query" ) return false;
	Before b; snapshot( b );
	memFailAt( nth, persist );
	step( op );
	bool fired = memFailFired(); memFailOff();
	if( fired ) { count( "fault.alloc_failure" ); count( ( "fault.in-" + k ).c_str() ); }
	// what a failed assignment left in the target is unspecified until it is assigned again
	if( fired && lastThrew ) { resync(); compare( op, b ); for( size_t e=0;e<envs.size();e++ ) if( envs[e].env ) publishAudit( e ); if( k == "assign" ) step( op ); }
	else if( fired ) count( "oracle.failure_survived" );
	return true;
    }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 ); p.cfg["envs"] = 1 + r.chance( 1, 3 );
    Weights w; w.move = r.chance( 1, 3 ) ? 4 : 0; w.op = r.chance( 1, 2 ) ? 8 : 0; w.cloneto = r.chance( 1, 3 ) ? 4 : 0; w.update = r.chance( 1, 3 ) ? 2 : 0; w.assign = 3; w.clone = 4; w.envdel = r.chance( 1, 6 ); w.envnew = r.chance( 1, 6 );
    w.query = 0;
    std::vector<int> k; for( int i=0;i<4;i++ ) { k.push_back( K_FRAME ); k.push_back( K_MAP ); if( i < 3 ) k.push_back( K_LAYER ); }
    if( w.op ) { k.push_back( K_OP ); k.push_back( K_OP1 ); }
    k.push_back( K_CLOUD ); if( r.chance( 1, 2 ) ) for( int i=0;i<3;i++ ) k.push_back( K_CLOUD + r.below( K_GH - K_CLOUD + 1 ) );
    Plan q; genOps( q, r, runLength( r, th, 70 ), w, k ); p.cfg["every"] = q.get( "every", 1 );
    bool wire = r.chance( 1, 2 ), disk = r.chance( 1, 3 ); unsigned rate = 2 + r.below( 4 ); unsigned deep = r.chance( 1, 3 ) ? 200 : 25;
    auto oom = [&]{ p.add( "oom", 1 + r.below( r.chance( 1, 3 ) ? 3 : deep ), r.chance( 1, 3 ) ); };
    for( size_t i=0;i<q.ops.size();i++ )
    {
	if( r.chance( 1, rate ) ) oom();
	p.ops.push_back( q.ops[i] );
	if( wire && r.chance( 1, 6 ) ) { if( r.chance( 2, 3 ) ) { if( r.chance( 1, 2 ) ) deep *= 3; oom(); deep = deep > 50 ? 200 : 25; } p.add( r.chance( 1, 4 ) ? "chan" : "sync", r.below( 4096 ), r.below( 4096 ), r.below( 4096 ), r.below( 4096 ), r.below( 4096 ) ); }
	if( disk && r.chance( 1, 12 ) ) { if( r.chance( 3, 4 ) ) p.add( "oom", 1 + r.below( r.chance( 1, 2 ) ? 40 : 600 ), r.chance( 1, 3 ) ); p.add( r.chance( 1, 2 ) ? "save" : "load", r.below( 4096 ) ); }
    }
    p.cfg["disk"] = disk;
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); if( p.get( "disk" ) ) diskScratch(); leakBegin();
    OomEngine e( p );
    for( long i=0;i<p.get( "envs", 1 );i++ ) e.newEnv();
    e.check(); e.runAll();
    setStage( "final synchronisation" );
    for( size_t i=0;i<e.envs.size();i++ ) if( e.envs[i].env ) e.freshReplica( i );
    e.closeChans();
    e.finish();
}
WorkloadReg reg( "oom", gen, run );
}
