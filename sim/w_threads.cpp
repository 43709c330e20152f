// C02: event queues hand over changes intact under any thread schedule.
#include "wire.hpp"
#include <envire/core/EventHandler.hpp>

using namespace sim;

namespace
{
uint64_t el( const std::string& k, const std::string& v ) { return mix( hashStr( k ), hashStr( v, 0x99 ) ); }
// state of an environment as a set of elements
struct StateSet
{
    Facts f; uint64_t h;
    StateSet() : h( 0 ) {}
    void set( const std::string& k, const std::string& v )
    {
	Facts::iterator it = f.find( k );
	if( it != f.end() ) { h ^= el( k, it->second ); it->second = v; } else f[k] = v;
	h ^= el( k, v );
    }
    void del( const std::string& k ) { Facts::iterator it = f.find( k ); if( it == f.end() ) return; h ^= el( k, it->second ); f.erase( it ); }
};
std::string itemData( const EnvironmentItem* it )
{
    Facts d; digestItem( it, d, "", F_PERSIST );
    return it->getClassName() + fmt( " %016llx", (unsigned long long)hashFacts( d ) );
}
StateSet stateOf( Environment* env )
{
    Facts f = wireFacts( env ); StateSet s;
    std::map<std::string,Facts> data;
    for( Facts::iterator it = f.begin(); it != f.end(); ++it )
    {
	if( structuralKey( it->first ) ) { if( it->first.compare( 0, 5, "item " ) ) s.set( it->first, it->second ); }
    }
    std::vector<EnvironmentItem*> all = env->getItems<EnvironmentItem>();
    for( size_t i=0;i<all.size();i++ ) s.set( "item " + all[i]->getUniqueId(), itemData( all[i] ) );
    return s;
}
// follows the events of the source as a queue receives them: states[i] is the state after i events
struct Recorder
{
    StateSet cur; std::vector<uint64_t> states;
    void record( const Event& e )
    {
	HarnessScope hs; PreemptScope np( false );
	std::string a = e.a ? e.a->getUniqueId() : "", b = e.b ? e.b->getUniqueId() : "";
	bool add = e.operation == event::ADD;
	switch( e.type )
	{
	    case event::ITEM: if( e.operation == event::REMOVE ) cur.del( "item " + a ); else cur.set( "item " + a, itemData( e.a.get() ) ); break;
	    case event::ROOT: if( add ) cur.set( "root", a ); break;
	    case event::FRAMENODE_TREE: if( add ) cur.set( "parent " + b, a ); else cur.del( "parent " + b ); break;
	    case event::FRAMENODE: if( add ) cur.set( "frame " + a, b ); else cur.del( "frame " + a ); break;
	    case event::LAYER_TREE: if( add ) cur.set( "layer " + a + ">" + b, "1" ); else cur.del( "layer " + a + ">" + b ); break;
	}
	states.push_back( cur.h );
    }
};
class ThreadEngine;
struct Target
{
    int idx; Environment* env; EventQueue* q; int inside; size_t last; size_t handled; bool wire; size_t flushes; Recorder rec;
    Target() : idx( 0 ), env( 0 ), q( 0 ), inside( 0 ), last( 0 ), handled( 0 ), wire( false ), flushes( 0 ) {}
};
struct Proc : public EventProcessor
{
    Target* t;
    Proc( Target* t ) : EventProcessor( t->env ), t( t ) {}
    void handle( const Event& e ) { t->rec.record( e ); EventProcessor::handle( e ); PreemptScope np( false ); t->handled++; }
};
struct WireProc : public SynchronizationEventHandler
{
    Target* t;
    WireProc( Target* t ) : t( t ) { useEventQueue( true ); }
    void handle( std::vector<BinaryEvent>& msgs ) { std::vector<BinaryEvent> m( msgs ); t->env->applyEvents( m ); }
    void handle( const Event& e ) { t->rec.record( e ); SynchronizationEventHandler::handle( e ); PreemptScope np( false ); t->handled++; }
};
struct Job { ThreadEngine* eng; Target* t; int n; };
class ThreadEngine : public Engine
{
public:
    std::vector<Target*> targets; std::vector<Job> jobs;
    ThreadEngine( const Plan& p ) : Engine( p ) { keepPending = true; }
    static void modifier( void* p ) { static_cast<ThreadEngine*>( p )->modify(); }
    static void flusher( void* p ) { Job* j = static_cast<Job*>( p ); for( int i=0;i<j->n;i++ ) { j->eng->flush( *j->t ); schedYield(); } }
    void modify()
    {
	bool on = plan.get( "threads" ) == 0;
	for( size_t i=0;i<plan.ops.size();i++ )
	{
	    const Op& op = plan.ops[i];
	    if( op.kind == "go" ) { on = true; continue; }
	    if( !on || op.kind == "pre" || op.kind == "flusher" || op.kind == "target" ) continue;
	    curOp( i, op.kind );
	    if( op.kind == "rest" ) { schedYield(); continue; }
	    step( op ); check();
	}
    }
    void open( Target& t )
    {
	{ LibScope ls; t.env = new Environment(); if( t.wire ) t.q = new WireProc( &t ); else t.q = new Proc( &t ); t.q->allowMultithreading( true ); }
	t.rec.cur = stateOf( t.env ); t.rec.states.push_back( t.rec.cur.h );
	Environment* s = envs[0].env; EventQueue* q = t.q;
	call( [&]{ s->addEventHandler( q ); } );
	if( lastThrew ) unexpected( "registering an event queue" );
    }
    // one flush: afterwards the target is in a state the source went through
    void flush( Target& t )
    {
	size_t must = t.handled;
	t.inside++;
	std::string err; bool threw = false;
	try { LibScope ls; PreemptScope ps( true ); if( t.wire ) static_cast<WireProc*>( t.q )->flush(); else t.q->flush(); } catch( std::exception& e ) { HarnessScope hs; threw = true; err = e.what(); }
	t.inside--; t.flushes++;
	if( threw ) violation( "flush-failed", "a flush failed: " + err );
	count( "flushes" );
	if( t.inside ) { count( "flush.concurrent" ); return; }     // another thread may still be working on the target
	verify( t, must );
    }
    void verify( Target& t, size_t must )
    {
	StateSet s = stateOf( t.env ); const std::vector<uint64_t>& states = t.rec.states;
	size_t from = must < t.last ? t.last : must; bool ok = false;
	for( size_t i=from;i<states.size();i++ ) if( states[i] == s.h ) { t.last = i; ok = true; break; }
	count( "oracle.flush-state" ); state( s.h );
	if( ok ) return;
	std::string old; for( size_t i=0;i<from && i<states.size();i++ ) if( states[i] == s.h ) old = fmt( " (it is the state after event %zu, at least %zu were due)", i, from );
	violation( "state-never-existed", fmt( "after a flush the target is in a state that its source was not in%s: ", old.c_str() ) + diffFacts( t.rec.cur.f, s.f, "source now", "target" ) );
    }
    void main()
    {
	// before the threads start
	if( plan.get( "threads" ) )
	    for( size_t i=0;i<plan.ops.size();i++ )
	    {
		if( plan.ops[i].kind == "go" ) break;
		if( plan.ops[i].kind == "pre" || plan.ops[i].kind == "flusher" || plan.ops[i].kind == "target" || plan.ops[i].kind == "rest" ) continue;
		curOp( i, plan.ops[i].kind ); step( plan.ops[i] ); check();
	    }
	setStage( "threads" );
	Environment* s = envs[0].env;
	for( size_t i=0;i<plan.ops.size();i++ ) if( plan.ops[i].kind == "target" && targets.size() < 3 )
	{ Target* t = new Target; t->idx = targets.size(); t->wire = plan.ops[i].a[0]; targets.push_back( t ); open( *t ); }
	schedBegin( plan );
	schedSpawn( &ThreadEngine::modifier, this );
	for( size_t i=0;i<plan.ops.size();i++ ) if( plan.ops[i].kind == "flusher" && targets.size() && jobs.size() < 4 )
	{
	    Job j; j.eng = this; j.t = targets[plan.ops[i].a[0] % targets.size()]; j.n = 1 + plan.ops[i].a[1] % 20;
	    bool taken = false; for( size_t k=0;k<jobs.size();k++ ) if( jobs[k].t == j.t && j.t->wire ) taken = true;
	    if( !taken ) jobs.push_back( j );
	}
	for( size_t k=0;k<jobs.size();k++ ) schedSpawn( &ThreadEngine::flusher, &jobs[k] );
	schedRun();
	state( schedTrace() );
	setStage( "final flush" );
	StateSet src = stateOf( s );
	for( size_t k=0;k<targets.size();k++ )
	{
	    Target& t = *targets[k]; flush( t );
	    if( src.h != t.rec.cur.h ) violation( "events-incomplete", "the events do not describe the source: " + diffFacts( src.f, t.rec.cur.f, "source", "events" ) );
	    StateSet got = stateOf( t.env );
	    if( got.h != src.h ) violation( "not-converged", "after the last flush the target differs: " + diffFacts( src.f, got.f, "source", "target" ) );
	    count( "oracle.converged" );
	}
	setStage( "close" );
	for( size_t k=0;k<targets.size();k++ )
	{
	    Target* t = targets[k];
	    call( [&]{ s->removeEventHandler( t->q ); } ); if( lastThrew ) unexpected( "removing an event queue" );
	    call( [&]{ delete t->q; delete t->env; } ); if( lastThrew ) unexpected( "destroying a target" );
	    delete t;
	}
    }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 );
    Weights w; w.mod = 12; w.trans = 10; w.frame = 18; w.layer = 10; w.place = 14; w.detach = 12; w.attach = 24; w.assign = 3; w.clone = 0; w.hold = 6; w.envnew = 0; w.cloneto = 0; w.move = 0; w.label = 0;
    bool wires = r.chance( 1, 4 );
    std::vector<int> k; for( int i=0;i<5;i++ ) k.push_back( K_FRAME ); for( int i=0;i<4;i++ ) k.push_back( K_MAP ); for( int i=0;i<3;i++ ) k.push_back( K_LAYER );
    if( r.chance( wires ? 2 : 1, 3 ) ) { k.push_back( K_CLOUD ); k.push_back( K_MESH ); for( int i=0;i<2;i++ ) k.push_back( K_CLOUD + r.below( K_GH - K_CLOUD + 1 ) ); }
    if( r.chance( 1, 3 ) ) p.cfg["few"] = 1;
    genOps( p, r, runLength( r, th, 70 ), w, k );
    std::vector<Op> out; int nt = r.chance( wires ? 2 : 1, 3 ) ? 2 : 1;
    for( int i=0;i<nt;i++ ) out.push_back( Op( "target", wires || r.chance( 1, 5 ) ) );
    int nf = 1 + r.below( 3 ), f0 = r.below( nt ); for( int i=0;i<nf;i++ ) out.push_back( Op( "flusher", f0 + i, r.below( 20 ) ) );
    size_t go = 0;
    if( r.chance( 1, 2 ) ) { p.cfg["threads"] = 1; go = r.below( p.ops.size() + 1 ); }
    int rest = 2 + r.below( 8 );
    for( size_t i=0;i<p.ops.size();i++ )
    {
	if( p.get( "threads" ) && i == go ) out.push_back( Op( "go" ) );
	out.push_back( p.ops[i] );
	if( i >= go && r.chance( 1, rest ) ) out.push_back( Op( "rest" ) );
    }
    // preemptions: bursts of close ones and wide gaps
    static const int scale[] = { 3, 20, 100, 500, 3000 };
    int np = r.below( th ? 120 : 50 ); uint64_t at = 0; int sc = scale[r.below( 5 )];
    for( int i=0;i<np;i++ )
    {
	if( r.chance( 1, 6 ) ) sc = scale[r.below( 5 )];
	at += 1 + r.below( sc ); out.push_back( Op( "pre", at, r.below( nf + 1 ) ) );
    }
    p.ops = out;
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); leakBegin();
    ThreadEngine e( p ); e.newEnv(); e.check();
    e.main();
    e.finish();
}
WorkloadReg r02( "threads", gen, run );
}
