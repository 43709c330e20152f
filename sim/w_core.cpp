// Workloads over histories of environment operations: ids, ownership, structure, transforms, operators, copies.
#include "wire.hpp"

using namespace sim;

namespace
{
// kinds used most of the time: cheap ones; the others appear with lower frequency
std::vector<int> someKinds( Rng& r, bool ops, bool heavy )
{
    std::vector<int> k;
    for( int i=0;i<5;i++ ) k.push_back( K_FRAME );
    for( int i=0;i<4;i++ ) k.push_back( K_MAP );
    for( int i=0;i<3;i++ ) k.push_back( K_LAYER );
    k.push_back( K_CLOUD );
    if( ops ) { k.push_back( K_OP ); k.push_back( K_OP1 ); k.push_back( K_OP2 ); }
    else if( r.chance( 1, 4 ) ) k.push_back( K_OP );
    if( heavy || r.chance( 1, 4 ) ) { k.push_back( K_CLOUD + r.below( K_GH - K_CLOUD + 1 ) ); k.push_back( K_CLOUD + r.below( K_GH - K_CLOUD + 1 ) ); k.push_back( K_FEAT ); k.push_back( r.chance( 2, 3 ) ? K_MLSMAP : K_SEG ); }
    return k;
}
Plan base( uint64_t seed, Rng& r )
{
    Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff;
    p.cfg["reuse"] = r.chance( 1, 2 );
    p.cfg["envs"] = 1 + r.below( 2 );
    return p;
}
int length( Rng& r, bool thorough )
{
    return runLength( r, thorough );
}
void common( const Plan& p, Engine& e )
{
    e.content.size = p.get( "size", 1 ); e.content.meta = p.get( "meta" );
    for( long i=0;i<p.get( "envs", 1 );i++ ) e.newEnv();
    e.check();
    e.runAll();
    if( !e.checkOn ) e.check();
    e.finish();
}
void begin( const Plan& p ) { memBegin( p.aseed, p.get( "reuse" ) ); leakBegin(); }

// ------------------------------------------------------------------ C09
Plan genStruct( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p = base( seed, r ); Weights w;
    w.op = r.chance( 1, 3 ) ? 6 : 0; w.envnew = 1; w.envdel = r.chance( 1, 4 ); w.move = r.chance( 1, 3 ) ? 3 : 0; w.frame = 22; w.layer = 18; w.place = 16; w.detach = 12; w.cloneto = 1;
    genOps( p, r, length( r, th ), w, someKinds( r, w.op, false ) );
    return p;
}
void runPlain( const Plan& p ) { begin( p ); Engine e( p ); common( p, e ); }
WorkloadReg r09( "structure", genStruct, runPlain );

// ------------------------------------------------------------------ C07
Plan genIds( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p = base( seed, r ); Weights w;
    p.cfg["envs"] = 1 + r.below( 3 );
    w.nw = 30; w.attach = 34; w.detach = 22; w.move = 14; w.hold = 4; w.frame = 10; w.layer = 6; w.place = 8; w.prefix = 6; w.query = 5; w.envnew = 2; w.envdel = 1; w.clone = 3; w.cloneto = 3; w.mod = w.trans = w.label = 1;
    genOps( p, r, length( r, th ), w, someKinds( r, r.chance( 1, 2 ), false ) );
    return p;
}
WorkloadReg r07( "ids", genIds, runPlain );

// ------------------------------------------------------------------ C08
// Pending events are owners too: pulled queues, queued channels and event processors at random places in the history.
class OwnEngine : public Engine
{
public:
    struct Tap { Channel* ch; EventProcessor* pr; Environment* target; int env; bool on; };
    std::vector<Tap> taps; std::set<int> pulled; Environment* scratch;
    OwnEngine( const Plan& p ) : Engine( p ), scratch( 0 ) {}
    void must( const char* what ) { if( lastThrew ) unexpected( what ); }
    void pull( int e, bool all, bool apply )
    {
	Batch b; Environment* env = envs[e].env; call( [&]{ env->pullEvents( b, all ); } ); must( "pulling events" );
	pulled.insert( e ); keepPending = true; count( "op.pull" );
	if( !apply ) return;
	if( !scratch ) { LibScope ls; scratch = new Environment(); }
	// whatever the scratch environment makes of them (it sees the events of several sources)
	Batch t = transport( b, false );
	for( size_t i=0;i<t.size();i++ ) { Batch one( 1, t[i] ); call( [&]{ scratch->applyEvents( one ); } ); }
	Facts f; observe( scratch, f ); count( "op.apply" );
    }
    void open( int e, long a )
    {
	if( taps.size() > 3 ) return;
	Tap t; t.ch = 0; t.pr = 0; t.target = 0; t.env = e; t.on = true; Environment* env = envs[e].env; EventHandler* h;
	LibScope ls;
	if( a % 3 == 0 ) { t.target = new Environment(); t.pr = new EventProcessor( t.target ); t.pr->allowMultithreading( true ); h = t.pr; }
	else { t.ch = new Channel; t.ch->useEventQueue( a % 3 == 1 ); t.ch->allowMultithreading( a / 3 % 2 ); h = t.ch; }
	env->addEventHandler( h );
	taps.push_back( t ); keepPending = true; count( t.pr ? "op.processor" : "op.channel" );
    }
    void flush( Tap& t )
    {
	if( t.pr ) { call( [&]{ t.pr->flush(); } ); if( lastThrew ) unexpected( "flushing events" ); Facts f; observe( t.target, f ); }
	else { call( [&]{ t.ch->flush(); } ); if( lastThrew ) unexpected( "flushing events" ); t.ch->got.clear(); }
	count( "op.flush" );
    }
    void closeTap( size_t i, bool remove, bool flushLast )
    {
	Tap& t = taps[i]; Environment* env = envs[t.env].env; EventHandler* h = t.ch ? static_cast<EventHandler*>( t.ch ) : t.pr;
	if( env && remove ) { call( [&]{ env->removeEventHandler( h ); } ); must( "removing an event handler" ); t.on = false; }
	if( env && t.on ) return;
	if( flushLast ) flush( t );
	Environment* target = t.target;
	call( [&]{ delete h; delete target; } ); must( "destroying an event handler" );
	taps.erase( taps.begin() + i ); count( "op.untap" );
    }
    void drain()
    {
	for( size_t i=0;i<taps.size();i++ ) flush( taps[i] );
	for( std::set<int>::iterator it = pulled.begin(); it != pulled.end(); ++it ) if( envs[*it].env ) pull( *it, false, false );
	for( size_t i=0;i<slots.size();i++ )
	    if( slots[i].dead && memIsLive( slots[i].raw ) && memBlockSeq( slots[i].raw ) == slots[i].seq )
		fail( "item-leaked", fmt( "item %s (%s) that nobody refers to any more was not destroyed when the last event was processed", slots[i].id.c_str(), kindName[slots[i].kind] ) );
	count( "oracle.drained" );
    }
    bool extraOp( const Op& op )
    {
	const std::string& k = op.kind; int e = envOfIndex( op.a[0] );
	lastThrew = false;
	if( k == "pull" ) { if( e >= 0 ) pull( e, op.a[1] % 4 == 0, op.a[2] % 3 == 0 ); return true; }
	if( k == "tap" ) { if( e >= 0 ) open( e, op.a[1] ); return true; }
	if( k == "flush" ) { if( !taps.empty() ) flush( taps[op.a[0] % taps.size()] ); return true; }
	if( k == "untap" ) { if( !taps.empty() ) closeTap( op.a[0] % taps.size(), true, op.a[1] % 2 ); return true; }
	if( k == "drain" ) { drain(); return true; }
	if( k == "scratch" ) { if( scratch ) { Environment* s = scratch; scratch = 0; call( [&]{ delete s; } ); must( "destroying an environment" ); } return true; }
	return false;
    }
    void closeAll()
    {
	setStage( "closing handlers" );
	if( plan.seed % 3 ) drain();
	// half of the runs destroy the environments while the handlers are registered
	if( plan.seed % 2 ) for( size_t e=0;e<envs.size();e++ ) destroyEnv( e );
	while( !taps.empty() ) closeTap( 0, true, plan.seed % 5 < 2 );
	extraOp( Op( "scratch" ) );
    }
};
Plan genOwn( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p = base( seed, r ); Weights w;
    p.cfg["envs"] = 1 + r.below( 3 ); p.cfg["meta"] = r.chance( 1, 2 );
    w.nw = 24; w.attach = 20; w.detach = 20; w.move = 16; w.hold = 16; w.frame = 14; w.layer = 10; w.place = 12; w.op = 8; w.envnew = 3; w.envdel = 4; w.clone = 4; w.assign = 3; w.cloneto = 4;
    genOps( p, r, length( r, th ), w, someKinds( r, true, r.chance( 1, 3 ) ) );
    if( r.chance( 1, 2 ) )
    {
	std::vector<Op> out; int every = 2 + r.below( 10 ); bool taps = r.chance( 2, 3 ), pulls = r.chance( 2, 3 );
	for( size_t i=0;i<p.ops.size();i++ )
	{
	    out.push_back( p.ops[i] );
	    if( !r.chance( 1, every ) ) continue;
	    static const char* ks[] = { "pull", "pull", "scratch", "tap", "tap", "flush", "flush", "untap", "drain" };
	    const char* k = ks[r.below( 9 )];
	    if( ( k[0] == 'p' && !pulls ) || ( ( k[0] == 't' || k[0] == 'f' || k[0] == 'u' ) && !taps ) ) continue;
	    out.push_back( Op( k, r.below( 4096 ), r.below( 4096 ), r.below( 4096 ) ) );
	}
	p.ops = out;
    }
    return p;
}
void runOwn( const Plan& p )
{
    begin( p ); OwnEngine e( p );
    e.content.size = p.get( "size", 1 ); e.content.meta = p.get( "meta" );
    for( long i=0;i<p.get( "envs", 1 );i++ ) e.newEnv();
    e.check(); e.runAll(); e.closeAll(); e.finish();
}
WorkloadReg r08( "ownership", genOwn, runOwn );

// ------------------------------------------------------------------ C16
Plan genCopy( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p = base( seed, r ); Weights w;
    p.cfg["meta"] = 1; p.cfg["size"] = r.chance( 1, 5 ) ? 2 : 1;
    w.nw = 24; w.attach = 8; w.detach = 6; w.hold = 14; w.frame = 4; w.layer = 2; w.place = 4; w.clone = 30; w.assign = 24; w.mod = 26; w.trans = 6; w.cloneto = 4; w.op = 0; w.query = 0;
    std::vector<int> k; for( int i=0;i<K_COUNT;i++ ) k.push_back( i );
    if( r.chance( 1, 2 ) ) { int a = r.below( K_COUNT ), b = r.below( K_COUNT ); k.clear(); k.push_back( a ); k.push_back( b ); k.push_back( K_FRAME ); }
    genOps( p, r, length( r, th ) / 2 + 4, w, k );
    return p;
}
WorkloadReg r16( "copies", genCopy, runPlain );

// ------------------------------------------------------------------ C15
class OperEngine : public Engine
{
public:
    // counts the modifications that are reported
    struct H : public EventHandler
    {
	std::map<EnvironmentItem*,int> upd;
	void handle( const Event& ev ) { HarnessScope hs; if( ev.type == event::ITEM && ev.operation == event::UPDATE ) upd[ev.a.get()]++; }
    };
    std::vector<H*> hs;
    OperEngine( const Plan& p ) : Engine( p ) {}
    void sync()
    {
	while( hs.size() < envs.size() )
	{
	    H* h = new H; Environment* env = envs[hs.size()].env; { LibScope ls; env->addEventHandler( h ); } hs.push_back( h );
	}
	for( size_t i=0;i<hs.size();i++ ) hs[i]->upd.clear();
    }
    bool extraOp( const Op& op ) { sync(); return false; }
    void afterStep( const Op& op )
    {
	if( op.kind != "update" || lastEnv < 0 || lastThrew ) return;
	std::map<EnvironmentItem*,int>& u = hs[lastEnv]->upd;
	const std::set<Link>& out = envs[lastEnv].out; std::set<int> outs;
	for( std::set<Link>::const_iterator it = out.begin(); it != out.end(); ++it ) outs.insert( it->second );
	for( std::set<int>::iterator it = outs.begin(); it != outs.end(); ++it ) if( !u.count( slots[*it].raw ) )
	    fail( "output-not-reported", "updating the operators did not report output " + slots[*it].id + " as modified" );
	for( std::map<EnvironmentItem*,int>::iterator it = u.begin(); it != u.end(); ++it )
	{
	    int s = slotOf( it->first );
	    if( s < 0 || !outs.count( s ) ) fail( "output-not-reported", "updating the operators reported an item as modified that is not an output" );
	    if( it->second != 1 ) fail( "output-not-reported", fmt( "updating the operators reported output %s %d times", slots[s].id.c_str(), it->second ) );
	}
	count( "oracle.outputs-reported" );
    }
};
Plan genOper( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p = base( seed, r ); Weights w;
    p.cfg["envs"] = 1;
    w.nw = 24; w.attach = 24; w.detach = 8; w.hold = 2; w.frame = 1; w.layer = 3; w.place = 3; w.op = 60; w.update = 10; w.label = w.prefix = w.query = 0; w.mod = w.trans = 1; w.clone = w.assign = 0;
    std::vector<int> k; for( int i=0;i<3;i++ ) { k.push_back( K_OP ); k.push_back( K_OP1 ); k.push_back( K_OP2 ); k.push_back( K_LAYER ); k.push_back( K_LAYER ); k.push_back( K_MAP ); }
    genOps( p, r, length( r, th ), w, k );
    return p;
}
void runOper( const Plan& p ) { begin( p ); OperEngine* e = new OperEngine( p ); e->idVariety = p.seed % 4 == 0; common( p, *e ); }
WorkloadReg r15( "operators", genOper, runOper );

// ------------------------------------------------------------------ C10
class XformEngine : public Engine
{
public:
    Rng qr;
    XformEngine( const Plan& p ) : Engine( p ), qr( p.seed * 31 + 7 ) {}
    static bool near( const Transform& a, const Transform& b )
    {
	double scale = 1 + a.matrix().cwiseAbs().maxCoeff() + b.matrix().cwiseAbs().maxCoeff();
	return ( a.matrix() - b.matrix() ).cwiseAbs().maxCoeff() <= 1e-10 * scale;
    }
    static std::string show( const Transform& t )
    {
	std::string s; for( int r=0;r<3;r++ ) for( int c=0;c<4;c++ ) s += fmt( " %.6g", t(r,c) ); return s;
    }
    void checkPair( int e, int a, int b )
    {
	Environment* env = envs[e].env; int ta, tb;
	Transform wa = rootTransform( e, a, &ta ), wb = rootTransform( e, b, &tb );
	const FrameNode* A = static_cast<FrameNode*>( slots[a].raw ); const FrameNode* B = static_cast<FrameNode*>( slots[b].raw );
	Transform got; bool ok = call( [&]{ got = env->relativeTransform( A, B ); } );
	TransformWithUncertainty gu; bool oku = call( [&]{ gu = env->relativeTransformWithUncertainty( A, B ); } );
	if( ta != tb )
	{
	    if( ok || oku ) fail( "unrelated-frames-accepted", "relative transform between frames without a common root was not refused" );
	    count( "oracle.unrelated" ); return;
	}
	if( !ok || !oku ) fail( "transform-refused", "relative transform between frames of one tree was refused: " + lastErr );
	Transform want( wb.inverse( Eigen::Isometry ) * wa );
	if( !near( want, got ) ) fail( "wrong-transform", "relative transform from " + slots[a].id + " to " + slots[b].id + " is" + show( got ) + " instead of" + show( want ) );
	if( !near( want, gu.getTransform() ) ) fail( "wrong-transform", "relative transform with uncertainty differs from the plain one" );
	if( a == b && !near( Transform( Transform::Identity() ), got ) ) fail( "wrong-transform", "a frame relative to itself is not identity" );
	std::map<int,int>::iterator it = envs[e].parent.find( a );
	if( it != envs[e].parent.end() && it->second == b && !near( A->getTransform(), got ) ) fail( "wrong-transform", "a frame relative to its parent is not its transform" );
	Transform back; call( [&]{ back = env->relativeTransform( B, A ); } );
	if( !near( Transform( back.inverse( Eigen::Isometry ) ), got ) ) fail( "wrong-transform", "inverse relation disagrees" );
	Transform viaFrame; call( [&]{ viaFrame = A->relativeTransform( B ); } );
	if( lastThrew || !near( viaFrame, got ) ) fail( "wrong-transform", "FrameNode::relativeTransform disagrees with the environment" );
	count( "oracle.pairs" );
    }
    void afterStep( const Op& )
    {
	for( size_t e=0;e<envs.size();e++ )
	{
	    if( !envs[e].env ) continue;
	    std::vector<int> fs = sel( [&]( const Slot& s, int ) { return s.env == (int)e && s.kind == K_FRAME; } );
	    for( int k=0;k<4;k++ ) checkPair( e, fs[qr.below( fs.size() )], fs[qr.below( fs.size() )] );
	    // chaining through a third
	    int a = fs[qr.below( fs.size() )], b = fs[qr.below( fs.size() )], c = fs[qr.below( fs.size() )], ta, tb, tc;
	    rootTransform( e, a, &ta ); rootTransform( e, b, &tb ); rootTransform( e, c, &tc );
	    if( ta == tb && tb == tc )
	    {
		Environment* env = envs[e].env; Transform ab, bc, ac; const FrameNode *A = static_cast<FrameNode*>( slots[a].raw ), *B = static_cast<FrameNode*>( slots[b].raw ), *C = static_cast<FrameNode*>( slots[c].raw );
		if( !call( [&]{ ab = env->relativeTransform( A, B ); bc = env->relativeTransform( B, C ); ac = env->relativeTransform( A, C ); } ) ) fail( "transform-refused", lastErr );
		if( !near( Transform( bc * ab ), ac ) ) fail( "wrong-transform", "chaining transforms through a third frame disagrees" );
	    }
	    std::vector<int> ms = sel( [&]( const Slot& s, int i ) { return s.env == (int)e && isMapKind( s.kind ) && envs[e].frameOf.count( i ); } );
	    if( !ms.empty() )
	    {
		int m1 = ms[qr.below( ms.size() )], m2 = ms[qr.below( ms.size() )]; int t1, t2;
		Transform w1 = rootTransform( e, envs[e].frameOf[m1], &t1 ), w2 = rootTransform( e, envs[e].frameOf[m2], &t2 );
		Environment* env = envs[e].env; const CartesianMap *M1 = static_cast<CartesianMap*>( slots[m1].raw ), *M2 = static_cast<CartesianMap*>( slots[m2].raw );
		Transform got; bool ok = call( [&]{ got = env->relativeTransform( M1, M2 ); } );
		if( t1 == t2 )
		{
		    if( !ok ) fail( "transform-refused", "relative transform of maps was refused: " + lastErr );
		    Transform want( w2.inverse( Eigen::Isometry ) * w1 );
		    if( !near( want, got ) ) fail( "wrong-transform", "relative transform of maps is" + show( got ) + " instead of" + show( want ) );
		    TransformWithUncertainty gu; if( !call( [&]{ gu = env->relativeTransformWithUncertainty( M1, M2 ); } ) || !near( gu.getTransform(), want ) ) fail( "wrong-transform", "relative transform of maps with uncertainty differs" );
		}
		else if( ok ) fail( "unrelated-frames-accepted", "relative transform between maps without a common root was not refused" );
		count( "oracle.maps" );
	    }
	}
    }
};
Plan genXform( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p = base( seed, r ); Weights w;
    p.cfg["envs"] = 1 + r.below( 2 );
    w.nw = 20; w.attach = 10; w.detach = 6; w.hold = 2; w.frame = 36; w.layer = 1; w.place = 12; w.trans = 20; w.mod = 1; w.cloneto = 6; w.clone = 0; w.assign = 6; w.prefix = w.label = 0; w.query = 0; w.move = 2;
    std::vector<int> k; for( int i=0;i<6;i++ ) k.push_back( K_FRAME ); k.push_back( K_MAP ); k.push_back( K_MAP ); k.push_back( K_CLOUD );
    genOps( p, r, length( r, th ), w, k );
    return p;
}
void runXform( const Plan& p ) { begin( p ); XformEngine e( p ); e.idVariety = false; common( p, e ); }
WorkloadReg r10( "transforms", genXform, runXform );
}
