// C03: event handlers mirror the environment.
#include "engine.hpp"
#include <envire/core/EventHandler.hpp>

using namespace sim;

namespace
{
struct Ev { int type, op; std::string a, b; const EnvironmentItem *pa, *pb; };
std::string show( const Ev& e ) { return fmt( "type %d op %d %s %s", e.type, e.op, e.a.c_str(), e.b.c_str() ); }
bool same( const Ev& x, const Ev& y ) { return x.type == y.type && x.op == y.op && x.pa == y.pa && x.pb == y.pb; }

struct Mirror
{
    std::map<const EnvironmentItem*,std::string> items;
    std::map<const EnvironmentItem*,const EnvironmentItem*> parent, frame;
    std::set<std::pair<const EnvironmentItem*,const EnvironmentItem*> > layer;
    const EnvironmentItem* root;
    Mirror() : root( 0 ) {}
    void bad( const std::string& m, const Ev& e ) { violation( "wrong-event", m + ": " + show( e ) ); }
    bool linked( const EnvironmentItem* i )
    {
	for( auto& x : parent ) if( x.first == i || x.second == i ) return true;
	for( auto& x : frame ) if( x.first == i || x.second == i ) return true;
	for( auto& x : layer ) if( x.first == i || x.second == i ) return true;
	return false;
    }
    void apply( const Ev& e )
    {
	if( e.type != event::ITEM && e.type != event::ROOT && ( !items.count( e.pa ) || !items.count( e.pb ) ) ) bad( "event about an item that was not announced", e );
	bool add = e.op == event::ADD;
	if( !add && e.op != event::REMOVE && e.type != event::ITEM ) bad( "unknown operation", e );
	switch( e.type )
	{
	    case event::ITEM:
		if( add ) { if( items.count( e.pa ) ) bad( "item announced twice", e ); items[e.pa] = e.a; }
		else
		{
		    if( !items.count( e.pa ) ) bad( "event about an item that was not announced", e );
		    if( items[e.pa] != e.a ) bad( "item has another id than announced", e );
		    if( e.op == event::REMOVE ) { if( linked( e.pa ) ) bad( "item removed before its links", e ); items.erase( e.pa ); }
		}
		break;
	    case event::ROOT:
		if( add ) { if( root ) bad( "root announced twice", e ); if( !items.count( e.pa ) ) bad( "root was not announced as item", e ); root = e.pa; }
		else { if( root != e.pa ) bad( "wrong root withdrawn", e ); root = 0; }
		break;
	    case event::FRAMENODE_TREE:
		if( add ) { if( parent.count( e.pb ) ) bad( "frame gets a second parent", e ); parent[e.pb] = e.pa; }
		else { if( !parent.count( e.pb ) || parent[e.pb] != e.pa ) bad( "removed frame link was not announced", e ); parent.erase( e.pb ); }
		break;
	    case event::FRAMENODE:
		if( add ) { if( frame.count( e.pa ) ) bad( "map gets a second frame", e ); frame[e.pa] = e.pb; }
		else { if( !frame.count( e.pa ) || frame[e.pa] != e.pb ) bad( "removed map placement was not announced", e ); frame.erase( e.pa ); }
		break;
	    case event::LAYER_TREE:
		if( add ) { if( !layer.insert( std::make_pair( e.pa, e.pb ) ).second ) bad( "layer link announced twice", e ); }
		else if( !layer.erase( std::make_pair( e.pa, e.pb ) ) ) bad( "removed layer link was not announced", e );
		break;
	    default: bad( "unknown event type", e );
	}
    }
    Facts facts() const
    {
	Facts f;
	for( auto& x : items ) f["item " + x.second] = "1";
	if( root ) f["root"] = items.find( root )->second;
	for( auto& x : parent ) f["parent " + items.find( x.first )->second] = items.find( x.second )->second;
	for( auto& x : frame ) f["frame " + items.find( x.first )->second] = items.find( x.second )->second;
	for( auto& x : layer ) f["layer " + items.find( x.first )->second + ">" + items.find( x.second )->second] = "1";
	return f;
    }
    bool empty() const { return items.empty() && parent.empty() && frame.empty() && layer.empty(); }
};

struct Rec;
struct Log { std::vector<std::pair<int,Ev> > all; } g_log;
struct Rec
{
    int id, env, reject; bool on, dead; Mirror m; std::vector<Ev> evs, offered;
    Rec() : id( 0 ), env( 0 ), reject( -1 ), on( false ), dead( false ) {}
    static bool rejects( int r, const Ev& e )
    {
	switch( r ) { case 0: return e.type == event::ITEM && e.op == event::UPDATE; case 1: return e.type == event::FRAMENODE_TREE; case 2: return e.type == event::LAYER_TREE || e.type == event::FRAMENODE;
	    case 3: return e.type == event::ITEM; case 4: return e.op == event::REMOVE; case 5: return hashStr( e.a ) % 2; case 6: return true; }
	return false;
    }
    void got( int type, int op, const EnvironmentItem* a, const EnvironmentItem* b )
    {
	HarnessScope hs;
	Ev e; e.type = type; e.op = op; e.pa = a; e.pb = b; if( a ) e.a = a->getUniqueId(); if( b ) e.b = b->getUniqueId();
	if( dead ) violation( "event-after-removal", "a removed handler received an event: " + show( e ) );
	evs.push_back( e ); g_log.all.push_back( std::make_pair( id, e ) );
	count( "events" );
	if( reject < 0 ) m.apply( e );
	else if( rejects( reject, e ) ) violation( "filter-ignored", "a filtered event reached the handler: " + show( e ) );
    }
};
struct PlainHandler : public EventHandler, public Rec
{
    void handle( const Event& ev ) { got( ev.type, ev.operation, ev.a.get(), ev.b.get() ); }
};
struct ListHandler : public EventListener, public Rec
{
    void itemAttached( EnvironmentItem* i ) { got( event::ITEM, event::ADD, i, 0 ); }
    void itemDetached( EnvironmentItem* i ) { got( event::ITEM, event::REMOVE, i, 0 ); }
    void itemModified( EnvironmentItem* i ) { got( event::ITEM, event::UPDATE, i, 0 ); }
    void childAdded( FrameNode* p, FrameNode* c ) { got( event::FRAMENODE_TREE, event::ADD, p, c ); }
    void childRemoved( FrameNode* p, FrameNode* c ) { got( event::FRAMENODE_TREE, event::REMOVE, p, c ); }
    void childAdded( Layer* p, Layer* c ) { got( event::LAYER_TREE, event::ADD, p, c ); }
    void childRemoved( Layer* p, Layer* c ) { got( event::LAYER_TREE, event::REMOVE, p, c ); }
    void frameNodeSet( CartesianMap* m, FrameNode* n ) { got( event::FRAMENODE, event::ADD, m, n ); }
    void frameNodeDetached( CartesianMap* m, FrameNode* n ) { got( event::FRAMENODE, event::REMOVE, m, n ); }
    void setRootNode( FrameNode* r ) { got( event::ROOT, event::ADD, r, 0 ); }
    void removeRootNode( FrameNode* r ) { got( event::ROOT, event::REMOVE, r, 0 ); }
};
struct Filter : public EventFilter
{
    Rec* r; Filter( Rec* r ) : r( r ) {}
    bool filter( Event const& ev )
    {
	HarnessScope hs;
	Ev e; e.type = ev.type; e.op = ev.operation; e.pa = ev.a.get(); e.pb = ev.b.get(); if( e.pa ) e.a = e.pa->getUniqueId(); if( e.pb ) e.b = e.pb->getUniqueId();
	if( r->dead ) violation( "event-after-removal", "the filter of a removed handler was asked" );
	r->offered.push_back( e );
	bool rej = Rec::rejects( r->reject, e );
	count( rej ? "events.filtered" : "events.passed" );
	return !rej;
    }
};
class EvEngine : public Engine
{
public:
    struct H { Rec* r; EventHandler* h; Filter* f; };
    std::vector<std::vector<H> > hs;         // per environment, in registration order
    std::vector<H> gone; std::vector<Facts> before; int next;
    EvEngine( const Plan& p ) : Engine( p ), next( 0 ) {}

    Facts structure( int e )
    {
	Facts f, r; expected( e, f, false, false, false );
	for( auto& x : f ) r[x.first] = x.first.compare( 0, 5, "item " ) == 0 ? "1" : x.second;
	return r;
    }
    void reg( int e, int style, int reject )
    {
	H h; h.f = 0;
	if( style % 2 ) { ListHandler* l = new ListHandler; h.r = l; h.h = l; } else { PlainHandler* l = new PlainHandler; h.r = l; h.h = l; }
	h.r->id = next++; h.r->env = e; h.r->reject = reject;
	if( reject >= 0 ) { h.f = new Filter( h.r ); h.h->setFilter( h.f ); }
	Environment* env = envs[e].env; EventHandler* eh = h.h;
	if( !call( [&]{ env->addEventHandler( eh ); } ) ) { unexpected( "registering an event handler" ); return; }
	Facts want = structure( e );
	if( reject < 0 )
	{
	    for( auto& x : h.r->evs ) if( x.op != event::ADD ) violation( "wrong-event", "registration reported something else than additions: " + show( x ) );
	    if( h.r->m.facts() != want ) violation( "incomplete-announcement", "registration did not announce the complete content: " + diffFacts( want, h.r->m.facts(), "environment", "announced" ) );
	}
	else if( h.r->offered.size() != want.size() ) violation( "incomplete-announcement", fmt( "registration offered %zu events for %zu facts to a filter", h.r->offered.size(), want.size() ) );
	hs[e].push_back( h );
	count( "op.hadd" );
    }
    void unreg( int e, size_t i )
    {
	H h = hs[e][i]; size_t n0 = h.r->evs.size(), o0 = h.r->offered.size();
	Environment* env = envs[e].env; EventHandler* eh = h.h; Facts want = structure( e );
	g_log.all.clear();
	if( !call( [&]{ env->removeEventHandler( eh ); } ) ) { unexpected( "removing an event handler" ); return; }
	for( auto& x : g_log.all ) if( x.first != h.r->id ) violation( "wrong-event", "removing a handler sent events to another handler" );
	if( h.r->reject < 0 )
	{
	    for( size_t k=n0;k<h.r->evs.size();k++ ) if( h.r->evs[k].op != event::REMOVE ) violation( "wrong-event", "removal reported something else than removals: " + show( h.r->evs[k] ) );
	    if( !h.r->m.empty() || h.r->m.root ) violation( "incomplete-withdrawal", "removal of a handler did not withdraw the complete content: " + diffFacts( Facts(), h.r->m.facts(), "nothing", "still announced" ) );
	}
	else if( h.r->offered.size() - o0 != want.size() ) violation( "incomplete-withdrawal", "removal of a filtered handler did not withdraw the complete content" );
	h.r->dead = true; gone.push_back( h ); hs[e].erase( hs[e].begin() + i );
	count( "op.hrem" );
    }
    void sync()
    {
	while( hs.size() < envs.size() ) { hs.push_back( std::vector<H>() ); if( envs[hs.size()-1].env ) reg( hs.size() - 1, hs.size(), -1 ); }
	before.clear(); for( size_t e=0;e<envs.size();e++ ) before.push_back( envs[e].env ? structure( e ) : Facts() );
	for( auto& v : hs ) for( auto& h : v ) { h.r->evs.clear(); h.r->offered.clear(); }
	g_log.all.clear();
    }
    bool extraOp( const Op& op )
    {
	sync();
	lastThrew = false; lastErr.clear(); lastChanged = false; lastEnv = -1; exactEvents = true; updIds.clear();
	if( op.kind == "hadd" )
	{
	    int e = envOfIndex( op.a[0] ); if( e < 0 || hs[e].size() > 4 ) return true;
	    reg( e, op.a[1], op.a[2] % 3 ? -1 : op.a[3] % 7 );
	    for( auto& x : g_log.all ) if( x.first != hs[e].back().r->id ) violation( "wrong-event", "registering a handler sent events to another handler" );
	    for( auto& v : hs ) for( auto& h : v ) { h.r->evs.clear(); h.r->offered.clear(); }
	    g_log.all.clear();
	    return true;
	}
	if( op.kind == "hrem" )
	{
	    int e = envOfIndex( op.a[0] ); if( e < 0 || hs[e].empty() ) return true;
	    size_t i = op.a[1] % hs[e].size();
	    // the last plain handler of an environment is replaced
	    unreg( e, i );
	    bool plain = false; for( auto& h : hs[e] ) plain |= h.r->reject < 0;
	    if( !plain ) reg( e, op.a[2], -1 );
	    for( auto& v : hs ) for( auto& h : v ) { h.r->evs.clear(); h.r->offered.clear(); }
	    g_log.all.clear();
	    return true;
	}
	return false;
    }
    void afterStep( const Op& op )
    {
	for( size_t e=0;e<hs.size();e++ )
	{
	    Facts now = envs[e].env ? structure( e ) : Facts();
	    // reference: first plain handler
	    const H* ref = 0; for( auto& h : hs[e] ) if( h.r->reject < 0 ) { ref = &h; break; }
	    if( !ref ) continue;
	    for( auto& h : hs[e] )
	    {
		if( h.r->reject < 0 && envs[e].env )
		{
		    Facts f = h.r->m.facts();
		    if( f != now ) violation( "mirror-differs", "events do not reproduce the environment: " + diffFacts( now, f, "environment", "events" ) );
		}
		if( h.r->reject < 0 && !envs[e].env && !h.r->m.empty() ) violation( "mirror-differs", "destroying the environment did not report the removal of everything: " + diffFacts( Facts(), h.r->m.facts(), "nothing", "events" ) );
		const std::vector<Ev>& offered = h.r->reject < 0 ? h.r->evs : h.r->offered;
		bool eq = offered.size() == ref->r->evs.size();
		for( size_t i=0;eq && i<offered.size();i++ ) eq = same( offered[i], ref->r->evs[i] );
		if( !eq ) violation( "handlers-differ", fmt( "handlers of one environment got different events (%zu and %zu)", offered.size(), ref->r->evs.size() ) );
		if( h.r->reject >= 0 )
		{
		    std::vector<Ev> want; for( auto& x : offered ) if( !Rec::rejects( h.r->reject, x ) ) want.push_back( x );
		    eq = want.size() == h.r->evs.size(); for( size_t i=0;eq && i<want.size();i++ ) eq = same( want[i], h.r->evs[i] );
		    if( !eq ) violation( "filter-ignored", fmt( "a filter passed %zu events, the handler got %zu", want.size(), h.r->evs.size() ) );
		}
	    }
	    // order over handlers
	    std::vector<std::pair<int,Ev> > want, got;
	    for( auto& x : ref->r->evs ) for( auto& h : hs[e] ) if( h.r->reject < 0 || !Rec::rejects( h.r->reject, x ) ) want.push_back( std::make_pair( h.r->id, x ) );
	    std::set<int> ids; for( auto& h : hs[e] ) ids.insert( h.r->id );
	    for( auto& x : g_log.all ) if( ids.count( x.first ) ) got.push_back( x );
	    bool eq = want.size() == got.size(); for( size_t i=0;eq && i<want.size();i++ ) eq = want[i].first == got[i].first && same( want[i].second, got[i].second );
	    if( !eq ) violation( "wrong-order", "events do not reach the handlers in registration order" );
	    // exactly the changes that happened
	    if( envs[e].env )
	    {
		size_t need = 0, got = 0; std::multiset<std::string> upd, wantUpd;
		for( auto& x : before[e] ) { auto it = now.find( x.first ); if( it == now.end() ) need++; else if( it->second != x.second ) need += 2; }
		for( auto& x : now ) if( !before[e].count( x.first ) ) need++;
		for( auto& x : ref->r->evs ) if( x.op == event::UPDATE ) upd.insert( x.a ); else got++;
		if( lastEnv == (int)e ) { std::set<std::string> d( updIds.begin(), updIds.end() ); if( op.kind == "update" ) wantUpd.insert( d.begin(), d.end() ); else wantUpd.insert( updIds.begin(), updIds.end() ); }
		if( ( exactEvents || lastEnv != (int)e ) && got != need ) violation( "wrong-event-count", fmt( "%zu structural events for %zu changes", got, need ) );
		if( upd != wantUpd ) violation( "wrong-event-count", fmt( "%zu modifications reported, %zu made", upd.size(), wantUpd.size() ) );
		count( "oracle.exact" );
	    }
	    else hs[e].clear();
	}
    }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 ); p.cfg["envs"] = 1 + r.below( 2 );
    Weights w; w.op = r.chance( 1, 3 ) ? 5 : 0; w.update = w.op ? 2 : 0; w.move = 4; w.mod = 8; w.trans = 8; w.frame = 20; w.layer = 16; w.place = 16; w.envnew = 1; w.envdel = 1; w.cloneto = 2; w.assign = 3;
    std::vector<int> k; for( int i=0;i<4;i++ ) k.push_back( K_FRAME ); for( int i=0;i<3;i++ ) { k.push_back( K_MAP ); k.push_back( K_LAYER ); } k.push_back( K_CLOUD ); if( w.op ) { k.push_back( K_OP ); k.push_back( K_OP1 ); }
    genOps( p, r, runLength( r, th, 100 ), w, k );
    // registrations and removals at random places
    int n = r.below( 6 ); for( int i=0;i<n;i++ )
    {
	Op o( r.chance( 3, 5 ) ? "hadd" : "hrem", r.below( 4096 ), r.below( 4096 ), r.below( 4096 ), r.below( 4096 ) );
	p.ops.insert( p.ops.begin() + r.below( p.ops.size() + 1 ), o );
    }
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); leakBegin();
    EvEngine* e = new EvEngine( p );
    for( long i=0;i<p.get( "envs", 1 );i++ ) e->newEnv();
    e->check(); e->runAll();
    // the rest of the handlers are removed
    e->sync();
    for( size_t k=0;k<e->hs.size();k++ ) if( e->envs[k].env ) while( !e->hs[k].empty() && p.seed % 2 ) e->unreg( k, e->hs[k].size() - 1 );
    e->finish();
    for( size_t k=0;k<e->hs.size();k++ ) for( auto& h : e->hs[k] ) if( h.r->reject < 0 && !h.r->m.empty() ) violation( "mirror-differs", "destroying the environment did not report the removal of everything" );
}
WorkloadReg r03( "events", gen, run );
}
