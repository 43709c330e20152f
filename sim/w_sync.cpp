// C01: replicas fed by binary events converge to the source.
#include "wire.hpp"

using namespace sim;

namespace
{
class SyncEngine : public Engine
{
public:
    struct Flight { Batch b; Facts want; };
    struct Rep
    {
	int from;                    // -1: the source, else a replica
	int link;                    // 0: pulled from the environment, 1: own handler
	Environment* env; Channel* ch; bool queued, async, mixed;
	std::vector<Flight> flight; size_t taken; Batch last; Facts lastWant; bool synced;
	Rep() : from( -1 ), link( 0 ), env( 0 ), ch( 0 ), queued( false ), async( false ), mixed( false ), taken( 0 ), synced( false ) {}
    };
    std::vector<Rep> reps; bool pulled;
    SyncEngine( const Plan& p ) : Engine( p ), pulled( false ) { keepPending = true; }

    Environment* sourceOf( const Rep& r ) { return r.from < 0 ? envs[0].env : reps[r.from].env; }
    void newTarget( Rep& r, long pre )
    {
	LibScope ls; r.env = new Environment();
	if( pre % 3 == 1 ) r.env->setEnvironmentPrefix( "/replica/" );
    }
    void openChannel( Rep& r )
    {
	Environment* s = sourceOf( r );
	call( [&]{ r.ch = new Channel; r.ch->useEventQueue( r.queued ); r.ch->allowMultithreading( r.async ); s->addEventHandler( r.ch ); } );
	if( lastThrew ) unexpected( "registering a synchronisation handler" );
    }
    void closeChannel( Rep& r )
    {
	if( !r.ch ) return;
	Environment* s = sourceOf( r );
	if( s ) { call( [&]{ s->removeEventHandler( r.ch ); } ); if( lastThrew ) unexpected( "removing a synchronisation handler" ); }
	call( [&]{ delete r.ch; } ); r.ch = 0;
    }
    void addReplica( long a, long b )
    {
	if( reps.size() >= 4 ) return;
	Rep r; r.from = reps.empty() || a % 3 ? -1 : (int)( b % reps.size() );
	bool busy = r.from < 0 && pulled; for( size_t i=0;i<reps.size();i++ ) if( reps[i].link == 0 && reps[i].from == r.from ) busy = true;
	r.link = busy ? 1 : ( a / 3 ) % 3 == 0; r.queued = ( a / 9 ) % 3 != 0; r.async = ( a / 27 ) % 2;
	if( r.from < 0 && r.link == 0 ) pulled = true;
	newTarget( r, a / 54 );
	if( r.link == 1 ) openChannel( r );
	reps.push_back( r );
	count( r.from < 0 ? "op.replica" : "op.relay" );
    }
    void take( size_t k, bool all )
    {
	Rep& r = reps[k]; Flight f; Environment* s = sourceOf( r );
	if( r.link == 0 )
	{
	    Batch out;
	    if( all ) { BinaryEvent junk; out.push_back( junk ); }            // previous content of the argument is replaced
	    call( [&]{ s->pullEvents( out, all ); } );
	    if( lastThrew ) { unexpected( "pulling events" ); return; }
	    f.b = out;
	}
	else
	{
	    if( r.queued || r.mixed ) { call( [&]{ r.ch->flush(); } ); if( lastThrew ) { unexpected( "flushing events" ); return; } }
	    f.b.swap( r.ch->got );
	}
	f.want = wireFacts( s );
	r.flight.push_back( f );
	count( "batches" ); count( "batch.events", f.b.size() );
    }
    void apply( Rep& r, const Batch& b, long how )
    {
	Batch t = transport( b, how % 2 );
	size_t pos = 0; Rng g( how );
	while( pos < t.size() )
	{
	    size_t n = how % 3 ? t.size() - pos : 1 + g.below( 4 ); if( n > t.size() - pos ) n = t.size() - pos;
	    Batch part( t.begin() + pos, t.begin() + pos + n ); Environment* e = r.env;
	    call( [&]{ e->applyEvents( part ); } );
	    if( lastThrew ) violation( "event-refused", "a replica refused events of its source: " + lastErr );
	    pos += n;
	}
    }
    void compare( Rep& r, const Facts& want, const char* when )
    {
	Facts got = wireFacts( r.env );
	if( got != want ) violation( "replica-differs", std::string( "replica differs from its source " ) + when + ": " + diffFacts( want, got, "source", "replica" ) );
	state( hashFacts( got ) ); count( "oracle.compare" );
    }
    void deliver( size_t k, long n, long how )
    {
	Rep& r = reps[k];
	while( n-- > 0 && !r.flight.empty() )
	{
	    Flight f = r.flight.front(); r.flight.erase( r.flight.begin() );
	    apply( r, f.b, how );
	    r.synced = true; r.last = f.b; r.lastWant = f.want;
	    compare( r, f.want, "after a batch" );
	}
    }
    void lose( size_t k, long a )
    {
	// the replica is lost, a new empty one asks for the full content
	Rep& r = reps[k];
	for( size_t i=0;i<reps.size();i++ ) if( reps[i].from == (int)k ) return;       // relays keep their source
	Environment* old = r.env; call( [&]{ delete old; } ); r.env = 0;
	r.flight.clear(); r.synced = false;
	newTarget( r, a );
	if( r.link == 0 ) take( k, true );
	else { closeChannel( r ); openChannel( r ); take( k, false ); }
	deliver( k, 1, a );
	count( "fault.replica-lost" );
    }
    bool extraOp( const Op& op )
    {
	const std::string& k = op.kind;
	if( k == "replica" ) { addReplica( op.a[0], op.a[1] ); return true; }
	if( k == "pull" || k == "deliver" || k == "again" || k == "lose" || k == "sync" || k == "mode" )
	{
	    if( reps.empty() ) return true;
	    size_t i = op.a[0] % reps.size();
	    if( k == "pull" ) { take( i, false ); if( op.a[1] % 8 ) count( "fault.delayed-batch" ); }
	    else if( k == "deliver" ) deliver( i, 1 + op.a[1] % 3, op.a[2] );
	    else if( k == "sync" ) { take( i, false ); deliver( i, 1000, op.a[2] ); }
	    else if( k == "lose" ) lose( i, op.a[1] );
	    else if( k == "mode" )
	    {
		// a handler changes between queued and immediate
		Rep& r = reps[i]; if( !r.ch ) return true;
		r.queued = !r.queued; r.mixed = true; call( [&]{ r.ch->useEventQueue( r.queued ); } ); count( "op.mode" );
	    }
	    else if( reps[i].synced && reps[i].last.size() ) { apply( reps[i], reps[i].last, op.a[2] ); compare( reps[i], reps[i].lastWant, "after receiving a batch twice" ); count( "fault.duplicate-batch" ); }
	    return true;
	}
	return false;
    }
    void drain()
    {
	// replicas in order of creation: relays come after their source
	for( size_t k=0;k<reps.size();k++ ) { deliver( k, 1000, k ); take( k, false ); deliver( k, 1000, k + 1 ); }
	Facts want = wireFacts( envs[0].env );
	for( size_t k=0;k<reps.size();k++ ) compare( reps[k], want, "at the end" );
    }
    void close()
    {
	for( size_t k=reps.size();k-->0; )
	{
	    Rep& r = reps[k]; closeChannel( r );
	    Environment* e = r.env; call( [&]{ delete e; } ); r.env = 0;
	}
    }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 );
    Weights w; w.mod = 10; w.trans = 8; w.frame = 20; w.layer = 12; w.place = 16; w.detach = 12; w.attach = 20; w.assign = 3; w.clone = 1; w.hold = 6; w.envnew = 0; w.cloneto = 1; w.move = 0; w.label = 0;
    std::vector<int> k; for( int i=0;i<5;i++ ) k.push_back( K_FRAME ); for( int i=0;i<4;i++ ) k.push_back( K_MAP ); for( int i=0;i<3;i++ ) k.push_back( K_LAYER );
    if( r.chance( 1, 3 ) ) { for( int i=0;i<3;i++ ) k.push_back( K_CLOUD + r.below( K_GH - K_CLOUD + 1 ) ); k.push_back( K_OP ); k.push_back( K_FEAT ); k.push_back( r.chance( 2, 3 ) ? K_MLSMAP : K_SEG ); }
    if( r.chance( 1, 4 ) ) p.cfg["few"] = 1;
    genOps( p, r, runLength( r, th, 100 ), w, k );
    size_t n = p.ops.size();
    std::vector<Op> out; int every = r.chance( 1, 6 ) ? 80 : 2 + r.below( 12 );
    out.push_back( Op( "replica", r.below( 1000 ), r.below( 1000 ) ) );
    for( size_t i=0;i<n;i++ )
    {
	out.push_back( p.ops[i] );
	if( r.chance( 1, 30 ) ) out.push_back( Op( "replica", r.below( 1000 ), r.below( 1000 ) ) );
	if( r.chance( 1, every ) )
	{
	    static const char* ks[] = { "sync", "sync", "sync", "pull", "pull", "deliver", "again", "again", "lose", "mode" };
	    out.push_back( Op( ks[r.below( 10 )], r.below( 1000 ), r.below( 1000 ), r.below( 1000 ) ) );
	}
    }
    p.ops = out;
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); leakBegin();
    SyncEngine e( p ); e.newEnv(); e.check();
    e.runAll();
    setStage( "drain" );
    e.drain();
    e.close();
    e.finish();
}
WorkloadReg r01( "sync", gen, run );
}
