#include "engine.hpp"
#include <ctype.h>

namespace sim
{
static const char* relNames[] = { "alpha", "beta", "gamma", "1", "7", "d/e", "d_e", "0", "x/0" };
static const char* absNames[] = { "/abs/x", "/abs/y", "/2", "/5", "/alpha", "/pre/beta", "/9", "/abs_x", "/abs/0", "/00" };
static const char* grpNames[] = { "grp/", "/abs/", "/grp/", "/", "deep/er/" };
static const char* prefixes[] = { "pre", "/", "/robot/", "/robot", "other/", "/pre" };
template<class T,size_t N> static const T& pick( T (&a)[N], long n ) { return a[ (unsigned long)n % N ]; }
// negative: counted from the most recent one
static int pickI( const std::vector<int>& v, long n ) { return v.empty() ? -1 : n < 0 ? v[ v.size() - 1 - ( -n - 1 ) % v.size() ] : v[ (unsigned long)n % v.size() ]; }
static const long burstLengths[] = { 5, 10, 18, 34 };
// A row of similar operations: deep or wide structures, many changes of one item, items that come and go
static void burst( std::vector<Op>& out, Rng& r, const Weights& w, const std::vector<int>& kinds )
{
    int n = 3 + r.below( burstLengths[ r.below( 4 ) ] ), lay = K_LAYER, mp = K_MAP; bool chain = r.chance( 1, 2 ), away = r.chance( 1, 4 );
    std::vector<int> what; 
    if( w.frame > 3 ) { what.push_back( 0 ); what.push_back( 0 ); what.push_back( 0 ); }
    if( w.layer > 2 ) { what.push_back( 1 ); what.push_back( 2 ); }
    if( w.place > 3 ) { what.push_back( 3 ); what.push_back( 3 ); }
    if( w.op > 3 ) { what.push_back( 4 ); what.push_back( 4 ); }
    what.push_back( 5 ); if( w.mod > 4 ) what.push_back( 6 ); if( w.trans > 4 ) what.push_back( 7 ); if( w.detach ) what.push_back( 8 ); if( w.nw > 10 ) what.push_back( 9 ); if( w.detach ) what.push_back( 10 );
    int pat = what[ r.below( what.size() ) ]; long at = r.below( r.chance( 3, 4 ) ? 3 : 4096 ), kin = r.below( 2 ); int kind = kinds[ r.below( kinds.size() ) ];
    auto nw = [&]( int k ) { out.push_back( Op( "new", k, r.chance( 4, 5 ) ? 0 : r.below( 6 ), r.below( 1000 ), r.below( 1u << 30 ), 1 + r.below( 7 ) ) ); };
    auto rnd = [&]( const char* k, long a, long b ) { out.push_back( Op( k, a, b, r.below( 4096 ), r.below( 4096 ), 1 + 6 * r.below( 600 ) ) ); };
    if( pat == 4 ) { nw( K_OP ); rnd( "attach", -1, at ); if( !away ) away = true; }
    for( int i=0;i<n;i++ )
	switch( pat )
	{
	    case 0: nw( K_FRAME ); rnd( "frameadd", chain ? r.chance( 1, 8 ) ? -2 : -1 : at, -1 ); break;
	    case 1: nw( lay ); rnd( "layeradd", chain ? -1 : at, -1 ); break;
	    case 2: nw( lay ); rnd( "attach", -1, at ); rnd( "layeradd", -1, chain ? -2 : at ); break;     // fan in
	    case 3: nw( mp ); rnd( "setframe", -1, chain ? -1 : at ); break;
	    case 4: nw( lay ); out.push_back( Op( kin ? "opin" : "opout", -1, -1, r.below( 4096 ), r.below( 4096 ), 2 ) ); break;
	    case 5: nw( kind ); rnd( "attach", -1, at ); break;
	    case 9: out.push_back( Op( "new", kind, i < n / 2 || r.chance( 1, 3 ) ? 5 : 0, 1000 + ( at + i ) % 60, r.below( 1u << 30 ), 1 + r.below( 7 ) ) ); rnd( "attach", -1, kin ); break;   // consecutive numbers
	    case 10:      // an item is replaced by another one with the same id
		out.push_back( Op( "detach", r.chance( 1, 2 ) ? -1 - (long)r.below( 6 ) : (long)r.below( 4096 ), 1 + r.below( 4096 ), r.below( 4096 ), r.below( 4096 ), r.below( 4096 ) ) );
		out.push_back( Op( "new", kinds[ r.below( kinds.size() ) ], 6, 0, r.below( 1u << 30 ), 1 + r.below( 7 ) ) ); rnd( "attach", -1, kin );
		if( r.chance( 1, 2 ) ) rnd( "frameadd", -1 - (long)r.below( 4 ), r.below( 4096 ) );
		i++; break;
	    case 6: rnd( "mod", at, r.below( 4096 ) ); break;
	    case 7: rnd( "trans", at, r.below( 4096 ) ); break;
	    case 8: nw( kind ); rnd( "attach", -1, at ); out.push_back( Op( "detach", -1, r.below( 4096 ), r.below( 4096 ), r.below( 4096 ), r.below( 4096 ) ) ); break;
	}
    // and taken apart again
    if( away && pat < 6 )
    {
	int m = 1 + r.below( n );
	for( int i=0;i<m;i++ )
	{
	    const char* k = pat == 0 ? "framerem" : pat == 3 ? "unframe" : pat == 4 ? ( kin ? "opinrem" : "opoutrem" ) : pat == 5 ? "detach" : "layerrem";
	    if( pat != 5 && r.chance( 1, 3 ) ) k = "detach";
	    long x = r.chance( 1, 2 ) ? -1 - (long)r.below( 3 ) : (long)r.below( 4096 ), y = r.below( 4096 );
	    if( pat == 3 || k[0] == 'd' ) out.push_back( Op( k, x, y, 1 + r.below( 3 ), r.below( 4096 ), r.below( 4096 ) ) ); else out.push_back( Op( k, -1, y, 1 + r.below( 3 ), r.below( 4096 ), r.below( 4096 ) ) );
	}
    }
}
// number of operations of a run: mostly short ones, a few much longer
int runLength( Rng& r, bool thorough, int scale )
{
    static const int q[] = { 8, 8, 16, 16, 30, 30, 60, 60, 120, 240 }, t[] = { 12, 12, 40, 40, 40, 120, 120, 300, 300, 600 };
    return 4 + r.below( ( thorough ? t : q )[ r.below( 10 ) ] * scale / 100 + 1 );
}

void genOps( Plan& p, Rng& rng, int n, const Weights& w, const std::vector<int>& kinds )
{
    struct E { const char* k; int w; };
    E es[] = { {"new",w.nw},{"attach",w.attach},{"detach",w.detach},{"move",w.move},{"hold",w.hold},{"frameadd",w.frame},{"framerem",w.frame/4},
	{"layeradd",w.layer},{"layerrem",w.layer/2},{"setframe",w.place},{"unframe",w.place/3},{"trans",w.trans},{"mod",w.mod},
	{"opin",w.op},{"opout",w.op},{"opinrem",w.op/3},{"opoutrem",w.op/3},{"opset",w.op/3},{"opclr",w.op/4},{"ldetach",w.op/3},{"update",w.update},
	{"label",w.label},{"prefix",w.prefix},{"cloneto",w.cloneto},{"envnew",w.envnew},{"envdel",w.envdel},{"assign",w.assign},{"clone",w.clone},{"query",w.query} };
    int tot = 0; for( size_t i=0;i<sizeof es/sizeof *es;i++ ) tot += es[i].w;
    // swarm: some runs use only a subset of the operations
    if( rng.chance( 1, 3 ) )
	for( size_t i=3;i<sizeof es/sizeof *es;i++ ) if( rng.chance( 1, 3 ) ) { tot -= es[i].w; es[i].w = 0; }
    for( int i=0;i<n;i++ )
    {
	int r = rng.below( tot ); size_t k = 0;
	while( r >= es[k].w ) r -= es[k++].w;
	std::string kind = es[k].k;
	if( kind == "new" )
	{
	    int kd = kinds[ rng.below( kinds.size() ) ];
	    p.add( kind, kd, rng.chance( 1, 2 ) ? 0 : rng.below( 7 ), rng.below( 1000 ), rng.below( 1u << 30 ), rng.below( 8 ) );
	    // most new items are attached right away, by one of the possible ways
	}
	else p.add( kind, rng.below( 4096 ), rng.below( 4096 ), rng.below( 4096 ), rng.below( 4096 ), rng.below( 4096 ) );
    }
    if( rng.chance( 1, 5 ) )
    {
	int b = 1 + rng.below( 3 );
	for( int i=0;i<b;i++ )
	{
	    std::vector<Op> row; burst( row, rng, w, kinds );
	    if( rng.chance( 1, 3 ) ) for( size_t j=0;j<row.size();j++ ) { size_t at = rng.below( p.ops.size() + 1 ); if( row[j].a[0] >= 0 && row[j].kind != "new" ) p.ops.insert( p.ops.begin() + at, row[j] ); else p.ops.push_back( row[j] ); }
	    else p.ops.insert( p.ops.begin() + rng.below( p.ops.size() + 1 ), row.begin(), row.end() );
	}
    }
    // a complete comparison after each operation is quadratic
    if( p.ops.size() > 60 ) p.cfg["every"] = 1 + rng.below( p.ops.size() / 20 );
}

Engine::Engine( const Plan& p ) : plan( p ), checkOn( true ), idVariety( true ), keepPending( false ), lastThrew( false ), lastChanged( false ), lastEnv( -1 ), exactEvents( true ), updates( 0 ) {}

int Engine::addSlot( EnvironmentItem* it, int kind )
{
    Slot s; s.raw = it; s.kind = kind; s.seq = memBlockSeq( it );
    slots.push_back( s );
    refreshContent( slots.size() - 1 );
    return slots.size() - 1;
}
void Engine::refreshContent( int s ) { slots[s].content.clear(); digestItem( slots[s].raw, slots[s].content, "", F_PERSIST | F_META ); }
int Engine::newEnv()
{
    EnvM m;
    { LibScope ls; m.env = new Environment(); }
    m.prefix = m.env->getEnvironmentPrefix();
    envs.push_back( m );
    int e = envs.size() - 1;
    FrameNode* r = m.env->getRootNode();
    if( !r ) fail( "no-root", "a new environment has no root node" );
    int s = addSlot( r, K_FRAME ); slots[s].env = e; slots[s].id = r->getUniqueId(); slots[s].label = r->getLabel();
    envs[e].root = s;
    return e;
}
int Engine::adopt( Environment* env, bool )
{
    EnvM m; m.env = env; m.prefix = env->getEnvironmentPrefix();
    envs.push_back( m ); int e = envs.size() - 1;
    std::vector<EnvironmentItem*> all = env->getItems<EnvironmentItem>();
    std::map<const EnvironmentItem*,int> idx;
    for( size_t i=0;i<all.size();i++ )
    {
	int k = kindOf( all[i] ); if( k < 0 ) simError( "adopt: unknown class " + all[i]->getClassName() );
	int s = addSlot( all[i], k ); slots[s].env = e; slots[s].id = all[i]->getUniqueId(); slots[s].label = all[i]->getLabel();
	idx[all[i]] = s;
    }
    envs[e].root = idx[env->getRootNode()];
    std::vector<FrameNode*> fs = env->getItems<FrameNode>();
    for( size_t i=0;i<fs.size();i++ ) if( env->getParent( fs[i] ) ) envs[e].parent[idx[fs[i]]] = idx[env->getParent( fs[i] )];
    std::vector<CartesianMap*> ms = env->getItems<CartesianMap>();
    for( size_t i=0;i<ms.size();i++ ) if( env->getFrameNode( ms[i] ) ) envs[e].frameOf[idx[ms[i]]] = idx[env->getFrameNode( ms[i] )];
    std::vector<Layer*> ls = env->getItems<Layer>();
    for( size_t i=0;i<ls.size();i++ ) { std::list<Layer*> c = env->getChildren( ls[i] ); for( std::list<Layer*>::iterator it = c.begin(); it != c.end(); ++it ) envs[e].layer.insert( Link( idx[ls[i]], idx[*it] ) ); }
    std::vector<Operator*> os = env->getItems<Operator>();
    for( size_t i=0;i<os.size();i++ )
    {
	std::list<Layer*> c = env->getInputs( os[i] ); for( std::list<Layer*>::iterator it = c.begin(); it != c.end(); ++it ) envs[e].in.insert( Link( idx[os[i]], idx[*it] ) );
	c = env->getOutputs( os[i] ); for( std::list<Layer*>::iterator it = c.begin(); it != c.end(); ++it ) envs[e].out.insert( Link( idx[os[i]], idx[*it] ) );
    }
    return e;
}
std::vector<int> Engine::sel( std::function<bool(const Slot&,int)> f ) const
{
    std::vector<int> r;
    for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead && f( slots[i], i ) ) r.push_back( i );
    return r;
}
int Engine::slotOf( const EnvironmentItem* p ) const
{
    for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead && slots[i].raw == p ) return i;
    return -1;
}
int Engine::envOfIndex( long n ) const
{
    std::vector<int> v; for( size_t i=0;i<envs.size();i++ ) if( envs[i].env ) v.push_back( i );
    return pickI( v, n );
}
bool Engine::isAncestor( int e, int a, int of ) const
{
    const std::map<int,int>& p = envs[e].parent; int n = 0;
    for( int x = of; ; )
    {
	if( x == a ) return true;
	std::map<int,int>::const_iterator it = p.find( x );
	if( it == p.end() || ++n > 10000 ) return false;
	x = it->second;
    }
}
bool Engine::connectedToRoot( int e, int f ) const { return isAncestor( e, envs[e].root, f ); }
Transform Engine::rootTransform( int e, int f, int* top ) const
{
    Transform t( Transform::Identity() );
    for( ;; )
    {
	std::map<int,int>::const_iterator it = envs[e].parent.find( f );
	if( it == envs[e].parent.end() ) break;
	t = static_cast<const FrameNode*>( slots[f].raw )->getTransform() * t;
	f = it->second;
    }
    if( top ) *top = f;
    return t;
}
bool Engine::call( std::function<void()> f )
{
    lastErr.clear();
    bool ok = false;
    try { LibScope ls; PreemptScope ps( true ); f(); ok = true; }
    catch( std::exception& e ) { HarnessScope hs; lastErr = e.what(); }
    lastThrew = !ok;
    return ok;
}
void Engine::unexpected( const char* what )
{
    if( memFailFired() ) return;
    fail( "refused-valid-operation", std::string( what ) + " was refused: " + lastErr );
}
std::string Engine::wantId( const Slot& s, int e, bool& autoId ) const
{
    std::string id = s.id;
    if( id.empty() ) id = envs[e].prefix;
    if( id[0] != '/' ) id = envs[e].prefix + id;
    autoId = id[id.size()-1] == '/';
    return id;
}
bool Engine::willCollide( const Slot& s, int e ) const
{
    bool a; std::string id = wantId( s, e, a );
    if( a ) return false;
    for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead && slots[i].env == e && slots[i].id == id ) return true;
    return false;
}
void Engine::attached( int si, int e, const std::string& want, bool autoId )
{
    Slot& s = slots[si];
    std::string id = s.raw->getUniqueId();
    if( !s.raw->isAttached() || s.raw->getEnvironment() != envs[e].env ) fail( "attach-not-done", "an item that was attached without error is not attached to the environment" );
    if( autoId )
    {
	bool ok = id.size() > want.size() && id.compare( 0, want.size(), want ) == 0;
	for( size_t i=want.size();ok && i<id.size();i++ ) if( !isdigit( (unsigned char)id[i] ) ) ok = false;
	if( !ok ) fail( "wrong-auto-id", "automatic id " + id + " is not a number under " + want );
	for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead && (int)i != si && slots[i].env == e && slots[i].id == id ) fail( "id-not-unique", "automatic id " + id + " was already taken" );
	if( !envs[e].issued.insert( id ).second ) fail( "auto-id-reused", "automatic id " + id + " had been given to another item before" );
    }
    else if( id != want ) fail( "wrong-id", "requested id " + want + " became " + id );
    s.env = e; s.id = id;
    count( "attached" );
}
void Engine::modelDetach( int si )
{
    Slot& s = slots[si]; EnvM& m = envs[s.env];
    m.parent.erase( si ); m.frameOf.erase( si );
    for( std::map<int,int>::iterator it = m.parent.begin(); it != m.parent.end(); ) if( it->second == si ) m.parent.erase( it++ ); else ++it;
    for( std::map<int,int>::iterator it = m.frameOf.begin(); it != m.frameOf.end(); ) if( it->second == si ) m.frameOf.erase( it++ ); else ++it;
    std::set<Link>* ss[] = { &m.layer, &m.in, &m.out };
    for( int k=0;k<3;k++ ) for( std::set<Link>::iterator it = ss[k]->begin(); it != ss[k]->end(); ) if( it->first == si || it->second == si ) ss[k]->erase( it++ ); else ++it;
    s.env = -1; lastGone = s.id; lastGoneKind = s.kind;
}
void Engine::released( int si )
{
    Slot& s = slots[si];
    if( s.dead || s.hold || s.env >= 0 ) return;
    if( !keepPending && memIsLive( s.raw ) && memBlockSeq( s.raw ) == s.seq ) fail( "item-leaked", fmt( "item %s (%s) that nobody refers to any more was not destroyed", s.id.c_str(), kindName[s.kind] ) );
    s.dead = true;
}
void Engine::checkAlive()
{
    for( size_t i=0;i<slots.size();i++ )
    {
	Slot& s = slots[i];
	if( s.dead ) continue;
	if( !memIsLive( s.raw ) || memBlockSeq( s.raw ) != s.seq ) fail( "item-destroyed", fmt( "item %s (%s) was destroyed while %s", s.id.c_str(), kindName[s.kind], s.hold ? "a reference is held" : "attached" ) );
	bool at = s.raw->isAttached(); Environment* en = s.raw->getEnvironment();
	if( at != ( s.env >= 0 ) || ( s.env >= 0 && en != envs[s.env].env ) ) fail( "wrong-attachment", fmt( "item %s (%s) is %sattached, expected the contrary or another environment", s.id.c_str(), kindName[s.kind], at ? "" : "not " ) );
	if( s.raw->getUniqueId() != s.id ) fail( "id-changed", fmt( "id of %s item changed from %s to %s", s.env >= 0 ? "attached" : "detached", s.id.c_str(), s.raw->getUniqueId().c_str() ) );
	if( s.env < 0 && !s.hold ) simError( "slot without owner" );
    }
}
void Engine::expected( int e, Facts& f, bool contents, bool labels, bool ops ) const
{
    const EnvM& m = envs[e];
    for( size_t i=0;i<slots.size();i++ )
    {
	const Slot& s = slots[i];
	if( s.dead || s.env != e ) continue;
	f["item " + s.id] = std::string( "envire::" ) + kindName[s.kind];
	if( labels ) f["label " + s.id] = s.label;
	if( contents ) for( Facts::const_iterator c = s.content.begin(); c != s.content.end(); ++c ) f["data " + s.id + " " + c->first] = c->second;
    }
    f["root"] = slots[m.root].id;
    for( std::map<int,int>::const_iterator it = m.parent.begin(); it != m.parent.end(); ++it ) f["parent " + slots[it->first].id] = slots[it->second].id;
    for( std::map<int,int>::const_iterator it = m.frameOf.begin(); it != m.frameOf.end(); ++it ) f["frame " + slots[it->first].id] = slots[it->second].id;
    for( std::set<Link>::const_iterator it = m.layer.begin(); it != m.layer.end(); ++it ) f["layer " + slots[it->first].id + ">" + slots[it->second].id] = "1";
    if( !ops ) return;
    for( std::set<Link>::const_iterator it = m.in.begin(); it != m.in.end(); ++it ) f["in " + slots[it->first].id + ">" + slots[it->second].id] = "1";
    for( std::set<Link>::const_iterator it = m.out.begin(); it != m.out.end(); ++it ) f["out " + slots[it->first].id + ">" + slots[it->second].id] = "1";
}
void Engine::checkEnv( int e, bool deep )
{
    Facts got, want; Obs o; o.deep = deep; o.content = F_PERSIST | F_META;
    observe( envs[e].env, got, o );
    expected( e, want );
    if( got != want ) 
    {
	std::string d = diffFacts( want, got, "expected", "environment" );
	std::string kl = "structure-differs";
	if( d.find( "[data " ) == 0 ) kl = "content-differs"; else if( d.find( "[in " ) == 0 || d.find( "[out " ) == 0 ) kl = "operator-links-differ";
	fail( kl, "environment differs from what its history implies: " + d );
    }
    if( envs[e].env->getEnvironmentPrefix() != envs[e].prefix ) fail( "prefix-changed", "environment prefix changed to " + envs[e].env->getEnvironmentPrefix() );
    state( hashFacts( got ) );
}
void Engine::check()
{
    checkAlive();
    for( size_t e=0;e<envs.size();e++ ) if( envs[e].env ) checkEnv( e );
    for( size_t i=0;i<slots.size();i++ )
	if( !slots[i].dead && slots[i].env < 0 )
	{
	    Facts f; digestItem( slots[i].raw, f, "", F_PERSIST | F_META );
	    if( f != slots[i].content ) fail( "content-differs", "content of detached item " + slots[i].id + " changed: " + diffFacts( slots[i].content, f, "expected", "item" ) );
	    if( slots[i].raw->getLabel() != slots[i].label ) fail( "content-differs", "label of detached item changed" );
	}
}
namespace
{
struct AuditHandler : public EventHandler
{
    Facts f; std::string bad; size_t added, removed;
    AuditHandler() : added( 0 ), removed( 0 ) {}
    void handle( const Event& ev )
    {
	HarnessScope hs;
	EnvironmentItem *a = ev.a.get(), *b = ev.b.get();
	bool two = ev.type != event::ITEM && ev.type != event::ROOT;
	if( !a || ( two && !b ) ) { bad = fmt( "event of type %d without a subject", (int)ev.type ); return; }
	if( !memIsLive( a ) || ( two && !memIsLive( b ) ) ) { bad = fmt( "event of type %d about an item that is gone", (int)ev.type ); return; }
	if( ev.operation == event::REMOVE ) { removed++; return; }
	added++;
	std::string ia = a->getUniqueId(), ib = two ? b->getUniqueId() : "";
	switch( ev.type )
	{
	    case event::ITEM: f["item " + ia] = a->getClassName(); break;
	    case event::ROOT: f["root"] = ia; break;
	    case event::FRAMENODE_TREE: f["parent " + ib] = ia; break;
	    case event::FRAMENODE: f["frame " + ia] = ib; break;
	    case event::LAYER_TREE: f["layer " + ia + ">" + ib] = "1"; break;
	}
    }
};
}
void Engine::publishAudit( int e )
{
    Environment* env = envs[e].env; AuditHandler h, *hp = &h;
    if( !call( [&]{ env->addEventHandler( hp ); } ) ) { unexpected( "registering an event handler" ); return; }
    size_t n = h.added;
    if( h.bad.empty() && !call( [&]{ env->removeEventHandler( hp ); } ) ) { unexpected( "removing an event handler" ); return; }
    if( !h.bad.empty() ) fail( "wrong-event", "a new handler is told nonsense: " + h.bad );
    Facts want; expected( e, want, false, false, false );
    if( h.f != want ) fail( "incomplete-announcement", "a new handler is not told the content: " + diffFacts( want, h.f, "environment", "announced" ) );
    if( n != want.size() || h.removed != n ) fail( "wrong-event", fmt( "%zu facts, %zu announced, %zu withdrawn", want.size(), n, h.removed ) );
    count( "oracle.published" );
}
void Engine::destroyEnv( int e )
{
    EnvM& m = envs[e]; if( !m.env ) return;
    std::vector<int> in = sel( [&]( const Slot& s, int ) { return s.env == e; } );
    Environment* env = m.env;
    call( [&]{ delete env; } );
    m.env = 0;
    for( size_t i=0;i<in.size();i++ ) modelDetach( in[i] );
    for( size_t i=0;i<in.size();i++ ) released( in[i] );
}
void Engine::finish()
{
    setStage( "teardown" );
    for( size_t e=0;e<envs.size();e++ ) destroyEnv( e );
    checkAlive();
    for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead ) { { LibScope ls; slots[i].hold = 0; } released( i ); }
    setStage( "leakcheck" );
    std::string l = leakCheck();
    if( !l.empty() ) fail( "item-leaked", "still alive after everything was released: " + l );
    if( Probe::live ) fail( "item-leaked", fmt( "%ld metadata values were never destroyed", Probe::live ) );
}
// ------------------------------------------------------------------ operations
// An operation that takes an unattached item attaches it implicitly. Returns whether it is attached now.
bool Engine::opAttach( const Op& op )
{
    if( op.kind == "new" )
    {
	if( slots.size() > 400 ) return true;
	Rng r( op.a[3] ); int kind = op.a[0] % K_COUNT;
	Content c = content; if( c.size == 1 && ( op.a[4] % 8 ) == 0 ) c.size = 2;
	EnvironmentItem* it = makeItem( kind, r, c );
	int s = addSlot( it, kind ); slots[s].hold = it;
	int mode = idVariety ? op.a[1] % 7 : 0; std::string id;
	switch( mode )
	{
	    case 1: id = pick( relNames, op.a[2] ); break;
	    case 2: id = pick( absNames, op.a[2] ); break;
	    case 3: id = pick( grpNames, op.a[2] ); break;
	    case 4: { std::vector<int> v = sel( [&]( const Slot& x, int ) { return x.env >= 0; } ); int k = pickI( v, op.a[2] ); if( k >= 0 ) id = slots[k].id; break; }
	    case 5: id = fmt( "/%ld", op.a[2] < 1000 ? op.a[2] % 12 + 1 : ( op.a[2] - 1000 ) % 60 + 1 ); break;
	    case 6: id = lastGone; break;      // takes the place of an item that was removed
	}
	if( !id.empty() ) { it->setUniqueId( id ); slots[s].id = id; }
	if( it->getUniqueId() != id ) fail( "wrong-id", "id set before attaching is not kept" );
	if( it->isAttached() || it->getEnvironment() ) fail( "wrong-attachment", "new item claims to be attached" );
	count( "op.new" );
	return true;
    }
    // attach or move
    bool move = op.kind == "move";
    std::vector<int> v = move ? sel( [&]( const Slot& s, int i ) { return s.env >= 0 && envs[s.env].root != i; } ) : sel( []( const Slot& s, int ) { return s.env < 0; } );
    if( !move && v.size() > 3 && op.a[4] % 3 ) v.erase( v.begin(), v.end() - 3 );   // favour recent items
    int si = pickI( v, op.a[0] ), e = envOfIndex( op.a[1] );
    if( si < 0 || e < 0 ) return true;
    Slot& s = slots[si]; int from = s.env; EnvironmentItem* raw = s.raw; Environment* env = envs[e].env;
    bool asMap = isMapKind( s.kind ) && op.a[2] % 3; int node = -1;
    if( asMap && op.a[2] % 3 == 2 ) { std::vector<int> f = sel( [&]( const Slot& x, int i ) { return x.env == e && x.kind == K_FRAME; } ); node = pickI( f, op.a[3] ); }
    lastEnv = e;
    if( from == e )
    {
	// already there: refused or without effect
	call( [&]{ env->attachItem( raw ); } );
	lastChanged = false; count( "op.attach-again" );
	return true;
    }
    bool autoId = false, coll = willCollide( s, e ); std::string want = from >= 0 ? s.id : wantId( s, e, autoId );
    FrameNode* fn = node >= 0 ? static_cast<FrameNode*>( slots[node].raw ) : 0;
    call( [&]{ if( asMap ) env->attachItem( static_cast<CartesianMap*>( raw ), fn ); else env->attachItem( raw ); } );
    if( coll )
    {
	if( !lastThrew ) fail( "id-collision-accepted", "an item with the id " + want + " was attached although that id is taken" );
	lastChanged = false; count( "op.attach-collision" );
	return true;
    }
    if( lastThrew ) { unexpected( "attaching an item" ); return true; }
    if( from >= 0 ) { modelDetach( si ); count( "op.move" ); }
    attached( si, e, want, autoId );
    if( asMap ) envs[e].frameOf[si] = node >= 0 ? node : envs[e].root;
    lastChanged = true;
    if( slots[si].hold && op.a[4] % 4 != 0 ) { LibScope ls; slots[si].hold = 0; }
    count( "op.attach" );
    return true;
}
// helper for operations with implicit attachment. refused: a collision is expected.
bool Engine::implicitAttach( int si, int e, bool threw, bool& refused ) { return true; }

bool Engine::opDetach( const Op& op )
{
    if( op.kind == "hold" )
    {
	std::vector<int> v = sel( []( const Slot&, int ) { return true; } );
	int si = pickI( v, op.a[0] ); if( si < 0 ) return true;
	LibScope ls;
	if( slots[si].hold ) { slots[si].hold = 0; released( si ); count( "op.drop" ); }
	else { slots[si].hold = slots[si].raw; count( "op.hold" ); }
	lastChanged = false;
	return true;
    }
    std::vector<int> v = sel( [&]( const Slot& s, int i ) { return s.env >= 0 && envs[s.env].root != i; } );
    int si = pickI( v, op.a[0] ); if( si < 0 ) return true;
    int e = slots[si].env; EnvironmentItem* raw = slots[si].raw; Environment* env = envs[e].env;
    bool deep = op.a[1] % 3 == 0, viaItem = !deep && op.a[3] % 2, keep = op.a[2] % 3 != 0;
    lastEnv = e;
    std::vector<int> gone;
    if( deep && slots[si].kind == K_FRAME )
    {
	for( size_t i=0;i<slots.size();i++ )
	{
	    if( slots[i].dead || slots[i].env != e || (int)i == si ) continue;
	    if( slots[i].kind == K_FRAME && isAncestor( e, si, i ) ) gone.push_back( i );
	    std::map<int,int>::iterator f = envs[e].frameOf.find( i );
	    if( f != envs[e].frameOf.end() && isAncestor( e, si, f->second ) ) gone.push_back( i );
	}
    }
    EnvironmentItem::Ptr ret;
    call( [&]{ if( viaItem ) ret = raw->detach(); else ret = env->detachItem( raw, deep ); } );
    if( lastThrew ) { unexpected( "detaching an item" ); return true; }
    if( ret.get() != raw ) fail( "detach-wrong-item", "detachItem did not return the detached item" );
    for( size_t i=0;i<gone.size();i++ ) modelDetach( gone[i] );
    modelDetach( si );
    { LibScope ls; if( keep ) slots[si].hold = ret; ret = 0; }
    for( size_t i=0;i<gone.size();i++ ) released( gone[i] );
    released( si );
    lastChanged = true;
    count( deep ? "op.detach-deep" : "op.detach" );
    return true;
}
bool Engine::opFrame( const Op& op )
{
    std::vector<int> fr = sel( []( const Slot& s, int ) { return s.env >= 0 && s.kind == K_FRAME; } );
    int p = pickI( fr, op.a[0] ); if( p < 0 ) return true;
    int e = slots[p].env; Environment* env = envs[e].env; lastEnv = e;
    FrameNode* P = static_cast<FrameNode*>( slots[p].raw );
    if( op.kind == "framerem" )
    {
	std::vector<int> cs; 
	if( op.a[2] % 4 ) { for( std::map<int,int>::iterator it = envs[e].parent.begin(); it != envs[e].parent.end(); ++it ) cs.push_back( it->first ); int c = pickI( cs, op.a[1] ); if( c < 0 ) return true; p = envs[e].parent[c]; cs.assign( 1, c ); P = static_cast<FrameNode*>( slots[p].raw ); }
	else cs = sel( [&]( const Slot& s, int i ) { return s.env == e && s.kind == K_FRAME && i != p; } );
	int c = pickI( cs, op.a[1] ); if( c < 0 ) return true;
	FrameNode* C = static_cast<FrameNode*>( slots[c].raw );
	call( [&]{ env->removeChild( P, C ); } );
	if( lastThrew ) { unexpected( "removing a child frame" ); return true; }
	lastChanged = envs[e].parent.count( c ) && envs[e].parent[c] == p;
	if( lastChanged ) envs[e].parent.erase( c );
	count( "op.framerem" );
	return true;
    }
    std::vector<int> cs = sel( [&]( const Slot& s, int i ) { return s.kind == K_FRAME && i != p && ( s.env < 0 || ( s.env == e && i != envs[e].root && !isAncestor( e, i, p ) ) ); } );
    int c = pickI( cs, op.a[1] ); if( c < 0 ) return true;
    FrameNode* C = static_cast<FrameNode*>( slots[c].raw );
    bool un = slots[c].env < 0, autoId = false, coll = un && willCollide( slots[c], e ); std::string want = wantId( slots[c], e, autoId );
    call( [&]{ if( op.a[2] % 2 ) env->addChild( P, C ); else P->addChild( C ); } );
    if( coll ) { if( !lastThrew ) fail( "id-collision-accepted", "a frame with a taken id was accepted as child" ); lastChanged = false; count( "op.attach-collision" ); return true; }
    if( lastThrew ) { unexpected( "adding a child frame" ); return true; }
    if( un ) attached( c, e, want, autoId );
    lastChanged = un || !envs[e].parent.count( c ) || envs[e].parent[c] != p;
    envs[e].parent[c] = p;
    if( un && op.a[3] % 4 ) { LibScope ls; slots[c].hold = 0; }
    count( "op.frameadd" );
    return true;
}
bool Engine::opLayer( const Op& op )
{
    std::vector<int> ls = sel( []( const Slot& s, int ) { return s.env >= 0 && isLayerKind( s.kind ); } );
    int p = pickI( ls, op.a[0] ); if( p < 0 ) return true;
    int e = slots[p].env; Environment* env = envs[e].env; lastEnv = e;
    if( op.kind == "layerrem" )
    {
	int c = -1;
	if( op.a[2] % 4 && !envs[e].layer.empty() ) { std::set<Link>::iterator it = envs[e].layer.begin(); std::advance( it, op.a[1] % envs[e].layer.size() ); p = it->first; c = it->second; }
	else { std::vector<int> cs = sel( [&]( const Slot& s, int i ) { return s.env == e && isLayerKind( s.kind ) && i != p; } ); c = pickI( cs, op.a[1] ); }
	if( c < 0 ) return true;
	Layer* P = static_cast<Layer*>( slots[p].raw ); Layer* C = static_cast<Layer*>( slots[c].raw );
	call( [&]{ env->removeChild( P, C ); } );
	if( lastThrew ) { unexpected( "removing a child layer" ); return true; }
	lastChanged = envs[e].layer.erase( Link( p, c ) ) > 0;
	count( "op.layerrem" );
	return true;
    }
    std::vector<int> cs = sel( [&]( const Slot& s, int i ) { return isLayerKind( s.kind ) && i != p && ( s.env < 0 || s.env == e ) && !envs[e].layer.count( Link( i, p ) ); } );
    int c = pickI( cs, op.a[1] );
    if( op.a[4] % 5 == 0 && !envs[e].layer.empty() ) { std::set<Link>::iterator it = envs[e].layer.begin(); std::advance( it, op.a[1] % envs[e].layer.size() ); p = it->first; c = it->second; }   // repeat an existing link
    if( c < 0 ) return true;
    Layer* P = static_cast<Layer*>( slots[p].raw ); Layer* C = static_cast<Layer*>( slots[c].raw );
    bool un = slots[c].env < 0, autoId = false, coll = un && willCollide( slots[c], e ); std::string want = wantId( slots[c], e, autoId );
    call( [&]{ if( op.a[2] % 2 ) env->addChild( P, C ); else P->addChild( C ); } );
    if( coll ) { if( !lastThrew ) fail( "id-collision-accepted", "a layer with a taken id was accepted as child" ); lastChanged = false; count( "op.attach-collision" ); return true; }
    if( lastThrew ) { unexpected( "adding a child layer" ); return true; }
    if( un ) attached( c, e, want, autoId );
    lastChanged = envs[e].layer.insert( Link( p, c ) ).second;
    if( un && op.a[3] % 4 ) { LibScope l; slots[c].hold = 0; }
    count( "op.layeradd" );
    return true;
}
bool Engine::opPlace( const Op& op )
{
    if( op.kind == "unframe" )
    {
	std::vector<int> ms = sel( []( const Slot& s, int ) { return s.env >= 0 && isMapKind( s.kind ); } );
	int m = pickI( ms, op.a[0] ); if( m < 0 ) return true;
	int e = slots[m].env; lastEnv = e; Environment* env = envs[e].env; int f;
	if( op.a[2] % 4 && envs[e].frameOf.count( m ) ) f = envs[e].frameOf[m];
	else { std::vector<int> fs = sel( [&]( const Slot& s, int ) { return s.env == e && s.kind == K_FRAME; } ); f = pickI( fs, op.a[1] ); }
	if( f < 0 ) return true;
	CartesianMap* M = static_cast<CartesianMap*>( slots[m].raw ); FrameNode* F = static_cast<FrameNode*>( slots[f].raw );
	call( [&]{ env->detachFrameNode( M, F ); } );
	if( lastThrew ) { unexpected( "detaching a map from its frame" ); return true; }
	lastChanged = envs[e].frameOf.count( m ) && envs[e].frameOf[m] == f;
	if( lastChanged ) envs[e].frameOf.erase( m );
	count( "op.unframe" );
	return true;
    }
    int m, f, e;
    if( op.a[4] % 6 == 0 )
    {
	// map attached, frame not yet
	std::vector<int> ms = sel( []( const Slot& s, int ) { return s.env >= 0 && isMapKind( s.kind ); } ), fs = sel( []( const Slot& s, int ) { return s.env < 0 && s.kind == K_FRAME; } );
	m = pickI( ms, op.a[0] ); f = pickI( fs, op.a[1] ); if( m < 0 || f < 0 ) return true;
	e = slots[m].env;
    }
    else
    {
	std::vector<int> fs = sel( []( const Slot& s, int ) { return s.env >= 0 && s.kind == K_FRAME; } );
	f = pickI( fs, op.a[1] ); if( f < 0 ) return true;
	e = slots[f].env;
	std::vector<int> ms = sel( [&]( const Slot& s, int ) { return ( s.env < 0 || s.env == e ) && isMapKind( s.kind ); } );
	m = pickI( ms, op.a[0] ); if( m < 0 ) return true;
    }
    lastEnv = e; Environment* env = envs[e].env;
    CartesianMap* M = static_cast<CartesianMap*>( slots[m].raw ); FrameNode* F = static_cast<FrameNode*>( slots[f].raw );
    bool unM = slots[m].env < 0, unF = slots[f].env < 0, am = false, af = false;
    std::string wm = wantId( slots[m], e, am ), wf = wantId( slots[f], e, af );
    bool coll = ( unM && willCollide( slots[m], e ) ) || ( unF && willCollide( slots[f], e ) );
    bool viaMap = op.a[2] % 2 && !unM;
    call( [&]{ if( viaMap ) M->setFrameNode( F ); else env->setFrameNode( M, F ); } );
    if( coll ) { if( !lastThrew ) fail( "id-collision-accepted", "an item with a taken id was attached by setFrameNode" ); lastChanged = false; count( "op.attach-collision" ); return true; }
    if( lastThrew ) { unexpected( "setting the frame of a map" ); return true; }
    if( unM ) { attached( m, e, wm, am ); exactEvents = false; }
    if( unF ) attached( f, e, wf, af );
    lastChanged = unM || unF || !envs[e].frameOf.count( m ) || envs[e].frameOf[m] != f;
    envs[e].frameOf[m] = f;
    if( op.a[3] % 4 ) { LibScope l; if( unM ) slots[m].hold = 0; if( unF ) slots[f].hold = 0; }
    count( "op.setframe" );
    return true;
}
bool Engine::opOper( const Op& op )
{
    if( op.kind == "update" )
    {
	int e = envOfIndex( op.a[0] ); if( e < 0 ) return true;
	lastEnv = e; Environment* env = envs[e].env;
	std::vector<int> os = sel( [&]( const Slot& s, int ) { return s.env == e && isOpKind( s.kind ); } );
	std::vector<long> before;
	auto runs = [&]( int i ) { return slots[i].kind == K_OP ? static_cast<SimOp*>( slots[i].raw )->runs : slots[i].kind == K_OP1 ? static_cast<SimOp1*>( slots[i].raw )->runs : static_cast<SimOp2*>( slots[i].raw )->runs; };
	for( size_t i=0;i<os.size();i++ ) before.push_back( runs( os[i] ) );
	long t0 = OpRun::total;
	call( [&]{ env->updateOperators(); } );
	if( lastThrew ) { unexpected( "updating the operators" ); return true; }
	for( size_t i=0;i<os.size();i++ ) if( runs( os[i] ) != before[i] + 1 ) fail( "operator-runs", fmt( "updateOperators ran operator %s %ld times", slots[os[i]].id.c_str(), runs( os[i] ) - before[i] ) );
	if( OpRun::total - t0 != (long)os.size() ) fail( "operator-runs", "updateOperators ran an operator that is not attached" );
	for( std::set<Link>::iterator it = envs[e].out.begin(); it != envs[e].out.end(); ++it ) updIds.push_back( slots[it->second].id );
	lastChanged = false; count( "op.update" );
	return true;
    }
    if( op.kind == "ldetach" )
    {
	std::vector<int> ls = sel( []( const Slot& s, int ) { return s.env >= 0 && isLayerKind( s.kind ); } );
	if( op.a[2] % 5 ) { std::vector<int> g; for( size_t i=0;i<ls.size();i++ ) { const std::set<Link>& o = envs[slots[ls[i]].env].out; for( std::set<Link>::const_iterator it = o.begin(); it != o.end(); ++it ) if( it->second == ls[i] ) { g.push_back( ls[i] ); break; } } if( !g.empty() ) ls = g; }
	int l = pickI( ls, op.a[0] ); if( l < 0 ) return true;
	int e = slots[l].env; lastEnv = e; bool r = false; Layer* L = static_cast<Layer*>( slots[l].raw );
	call( [&]{ r = L->detachFromOperator(); } );
	if( lastThrew ) { unexpected( "detaching a layer from its generator" ); return true; }
	if( r && L->isGenerated() ) fail( "still-generated", "detachFromOperator reported success but the layer is still generated" );
	if( !r ) fail( "still-generated", "detachFromOperator of an attached layer reported failure" );
	std::set<Link>& o = envs[e].out; lastChanged = false;
	for( std::set<Link>::iterator it = o.begin(); it != o.end(); ) if( it->second == l ) o.erase( it++ ); else ++it;
	count( "op.ldetach" );
	return true;
    }
    bool in = op.kind == "opin" || op.kind == "opinrem" || ( ( op.kind == "opset" || op.kind == "opclr" ) && op.a[3] % 2 );
    std::vector<int> os = sel( []( const Slot& s, int ) { return s.env >= 0 && isOpKind( s.kind ); } );
    int o = pickI( os, op.a[0] ); 
    if( ( op.kind == "opin" || op.kind == "opout" ) && ( op.a[4] % 8 == 0 || o < 0 ) )
    {
	// operator not attached yet, free arity, layer attached
	std::vector<int> uo = sel( []( const Slot& s, int ) { return s.env < 0 && s.kind == K_OP; } ), al = sel( []( const Slot& s, int ) { return s.env >= 0 && isLayerKind( s.kind ); } );
	int u = pickI( uo, op.a[0] ), l = pickI( al, op.a[1] );
	if( u >= 0 && l >= 0 )
	{
	    int e = slots[l].env; lastEnv = e; Environment* env = envs[e].env; Operator* O = static_cast<Operator*>( slots[u].raw ); Layer* L = static_cast<Layer*>( slots[l].raw );
	    if( !in ) for( std::set<Link>::iterator it = envs[e].out.begin(); it != envs[e].out.end(); ++it ) if( it->second == l ) return true;
	    bool a = false, coll = willCollide( slots[u], e ); std::string want = wantId( slots[u], e, a );
	    call( [&]{ if( in ) env->addInput( O, L ); else env->addOutput( O, L ); } );
	    if( coll ) { if( !lastThrew ) fail( "id-collision-accepted", "an operator with a taken id was attached" ); lastChanged = false; return true; }
	    if( lastThrew ) { unexpected( "connecting an operator" ); return true; }
	    attached( u, e, want, a );
	    ( in ? envs[e].in : envs[e].out ).insert( Link( u, l ) );
	    lastChanged = true; count( "op.opconnect" );
	    if( op.a[3] % 4 ) { LibScope ls; slots[u].hold = 0; }
	}
	return true;
    }
    if( o < 0 ) return true;
    int e = slots[o].env; lastEnv = e; Environment* env = envs[e].env; Operator* O = static_cast<Operator*>( slots[o].raw );
    std::set<Link>& links = in ? envs[e].in : envs[e].out;
    std::vector<int> cur; for( std::set<Link>::iterator it = links.begin(); it != links.end(); ++it ) if( it->first == o ) cur.push_back( it->second );
    int arity = in ? opArityIn( slots[o].kind ) : opArityOut( slots[o].kind );
    lastChanged = false;
    if( op.kind == "opclr" )
    {
	call( [&]{ if( in ) O->removeInputs(); else O->removeOutputs(); } );
	if( lastThrew ) { unexpected( "removing the connections of an operator" ); return true; }
	for( size_t i=0;i<cur.size();i++ ) links.erase( Link( o, cur[i] ) );
	count( "op.opclr" );
	return true;
    }
    if( op.kind == "opinrem" || op.kind == "opoutrem" )
    {
	int l = op.a[2] % 4 ? pickI( cur, op.a[1] ) : pickI( sel( [&]( const Slot& s, int ) { return s.env == e && isLayerKind( s.kind ); } ), op.a[1] );
	if( l < 0 ) return true;
	Layer* L = static_cast<Layer*>( slots[l].raw );
	call( [&]{ if( op.a[3] % 2 ) { if( in ) O->removeInput( L ); else O->removeOutput( L ); } else { if( in ) env->removeInput( O, L ); else env->removeOutput( O, L ); } } );
	if( lastThrew ) { unexpected( "removing a connection of an operator" ); return true; }
	links.erase( Link( o, l ) );
	count( "op.oprem" );
	return true;
    }
    bool isSet = op.kind == "opset";
    std::vector<int> ls = sel( [&]( const Slot& s, int i ) {
	if( !isLayerKind( s.kind ) || !( s.env == e || ( s.env < 0 && !isSet ) ) ) return false;
	if( !in ) for( std::set<Link>::iterator it = envs[e].out.begin(); it != envs[e].out.end(); ++it ) if( it->second == i && it->first != o ) return false;
	return true; } );
    int l = op.a[4] % 4 == 1 && !cur.empty() ? pickI( cur, op.a[1] ) : pickI( ls, op.a[1] );
    if( l < 0 ) return true;
    Layer* L = static_cast<Layer*>( slots[l].raw );
    if( isSet )
    {
	call( [&]{ if( in ) O->setInput( L ); else O->setOutput( L ); } );
	if( lastThrew ) { unexpected( "setting the only connection of an operator" ); return true; }
	for( size_t i=0;i<cur.size();i++ ) links.erase( Link( o, cur[i] ) );
	links.insert( Link( o, l ) );
	count( "op.opset" );
	return true;
    }
    bool full = arity && (int)cur.size() >= arity, dup = links.count( Link( o, l ) ), un = slots[l].env < 0, a = false;
    bool viaEnv = !arity && op.a[3] % 2, coll = un && willCollide( slots[l], e ); std::string want = wantId( slots[l], e, a );
    call( [&]{ if( viaEnv ) { if( in ) env->addInput( O, L ); else env->addOutput( O, L ); } else { if( in ) O->addInput( L ); else O->addOutput( L ); } } );
    if( full )
    {
	if( !lastThrew && !dup ) fail( "arity-exceeded", fmt( "operator %s accepted more connections than it declares", slots[o].id.c_str() ) );
	count( "op.arity-refused" );
	return true;
    }
    if( coll ) { if( !lastThrew ) fail( "id-collision-accepted", "a layer with a taken id was attached" ); return true; }
    if( lastThrew ) { unexpected( "connecting a layer to an operator" ); return true; }
    if( un ) { attached( l, e, want, a ); lastChanged = true; if( op.a[2] % 4 ) { LibScope lsc; slots[l].hold = 0; } }
    links.insert( Link( o, l ) );
    count( dup ? "op.opconnect-again" : "op.opconnect" );
    return true;
}
bool Engine::opClone( const Op& op )
{
    if( op.kind == "clone" )
    {
	std::vector<int> v = sel( []( const Slot&, int ) { return true; } ); int s = pickI( v, op.a[0] ); if( s < 0 || slots.size() > 400 ) return true;
	EnvironmentItem* src = slots[s].raw; EnvironmentItem* c = 0;
	if( !call( [&]{ c = src->clone(); } ) ) { unexpected( "cloning an item" ); return true; }
	if( !c || c == src ) fail( "clone-wrong", "clone() returned no new item" );
	int n = addSlot( c, slots[s].kind ); slots[n].hold = c;
	if( c->isAttached() || c->getEnvironment() ) fail( "clone-attached", "a clone is attached to an environment" );
	if( c->getClassName() != src->getClassName() ) fail( "clone-wrong", "clone of " + src->getClassName() + " is a " + c->getClassName() );
	slots[n].id = c->getUniqueId(); slots[n].label = c->getLabel();
	if( !slots[n].id.empty() ) fail( "clone-wrong", "a clone carries the id of its origin" );
	if( slots[n].content != slots[s].content ) fail( "clone-differs", "clone differs from its origin: " + diffFacts( slots[s].content, slots[n].content, "origin", "clone" ) );
	lastChanged = false; count( "op.clone" );
	return true;
    }
    if( op.kind == "assign" )
    {
	std::vector<int> v = sel( []( const Slot& s, int ) { return !isOpKind( s.kind ); } ); int d = pickI( v, op.a[0] ); if( d < 0 ) return true;
	std::vector<int> u = sel( [&]( const Slot& s, int i ) { return s.kind == slots[d].kind && i != d; } ); int s = pickI( u, op.a[1] ); if( s < 0 ) return true;
	EnvironmentItem* D = slots[d].raw; EnvironmentItem* S = slots[s].raw;
	if( !call( [&]{ D->set( S ); } ) ) { unexpected( "assigning an item" ); return true; }
	slots[d].content = slots[s].content;
	lastChanged = false; count( "op.assign" );
	if( slots[d].env >= 0 ) { lastEnv = slots[d].env; call( [&]{ D->itemModified(); } ); updIds.push_back( slots[d].id ); updates++; }
	return true;
    }
    // cloneto
    std::vector<int> v = sel( [&]( const Slot& s, int i ) { return s.env >= 0 && isMapKind( s.kind ) && envs[s.env].frameOf.count( i ) && connectedToRoot( s.env, envs[s.env].frameOf.find( i )->second ); } );
    int s = pickI( v, op.a[0] ), e2 = envOfIndex( op.a[1] ); if( s < 0 || e2 < 0 || slots.size() > 400 ) return true;
    int e = slots[s].env; if( e2 == e && op.a[2] % 3 ) return true;
    lastEnv = e2; Environment* env2 = envs[e2].env;
    std::vector<int> chain; for( int f = envs[e].frameOf[s]; f != envs[e].root; f = envs[e].parent[f] ) chain.push_back( f );
    std::set<EnvironmentItem*> before; { std::vector<EnvironmentItem*> a = env2->getItems<EnvironmentItem>(); before.insert( a.begin(), a.end() ); }
    CartesianMap* M = static_cast<CartesianMap*>( slots[s].raw );
    if( !call( [&]{ M->cloneTo( *env2 ); } ) ) { unexpected( "copying a map to another environment" ); return true; }
    std::vector<EnvironmentItem*> now = env2->getItems<EnvironmentItem>(); std::vector<int> fresh; int m2 = -1;
    for( size_t i=0;i<now.size();i++ )
	if( !before.count( now[i] ) )
	{
	    int k = kindOf( now[i] ); if( k < 0 ) fail( "clone-wrong", "cloneTo created an item of unknown class" );
	    int n = addSlot( now[i], k ); slots[n].env = e2; slots[n].id = now[i]->getUniqueId(); slots[n].label = now[i]->getLabel(); fresh.push_back( n );
	    if( k != K_FRAME ) m2 = n;
	}
    if( fresh.size() != chain.size() + 1 || m2 < 0 ) fail( "clone-wrong", fmt( "cloneTo created %zu items, expected the map and %zu frames", fresh.size(), chain.size() ) );
    if( slots[m2].kind != slots[s].kind || slots[m2].content != slots[s].content ) fail( "clone-differs", "map copied to another environment differs: " + diffFacts( slots[s].content, slots[m2].content, "origin", "copy" ) );
    CartesianMap* M2 = static_cast<CartesianMap*>( slots[m2].raw );
    FrameNode* f = env2->getFrameNode( M2 );
    for( size_t i=0;i<=chain.size();i++ )
    {
	int n = f ? slotOf( f ) : -1;
	if( n < 0 ) fail( "clone-wrong", "the copied map is not placed in a frame of the target" );
	if( i == 0 ) envs[e2].frameOf[m2] = n;
	if( i == chain.size() ) { if( n != envs[e2].root ) fail( "clone-wrong", "the copied frames do not end at the root" ); break; }
	if( n == envs[e2].root || slots[n].content != slots[chain[i]].content ) fail( "clone-differs", "a frame copied with a map has another transform" );
	FrameNode* up = env2->getParent( f ); int un = up ? slotOf( up ) : -1;
	if( un >= 0 ) envs[e2].parent[n] = un;
	f = up;
    }
    lastChanged = true; exactEvents = false; count( "op.cloneto" );
    return true;
}
bool Engine::opMisc( const Op& op )
{
    if( op.kind == "trans" )
    {
	std::vector<int> v = sel( []( const Slot& s, int ) { return s.kind == K_FRAME; } ); int f = pickI( v, op.a[0] ); if( f < 0 ) return true;
	Rng r( op.a[1] * 7919 + op.a[2] ); FrameNode* F = static_cast<FrameNode*>( slots[f].raw );
	FrameNode* tmp = static_cast<FrameNode*>( makeItem( K_FRAME, r, content ) );
	TransformWithUncertainty t = tmp->getTransformWithUncertainty(); delete tmp;
	if( op.a[4] % 8 < 2 )
	{
	    // hardly different from the current one
	    t = F->getTransformWithUncertainty(); Transform x = t.getTransform();
	    int c = op.a[2] % 3; double v = x.translation()[c]; x.translation()[c] = op.a[4] % 8 ? nextafter( v, v + 1 ) : v + ( v ? v * 1e-13 : 1e-13 );
	    if( t.hasUncertainty() ) t = TransformWithUncertainty( x, t.getCovariance() ); else t = TransformWithUncertainty( x );
	}
	call( [&]{ if( op.a[3] % 2 ) F->setTransform( t ); else F->setTransform( t.getTransform() ); } );
	if( lastThrew ) { unexpected( "setting a transform" ); return true; }
	refreshContent( f );
	FrameNode ref( op.a[3] % 2 ? t : TransformWithUncertainty( t.getTransform() ) );
	Facts want; digestItem( &ref, want, "", F_PERSIST );
	if( want != slots[f].content ) fail( "content-differs", "setTransform did not set the transform: " + diffFacts( want, slots[f].content, "given", "frame" ) );
	if( slots[f].env >= 0 ) { lastEnv = slots[f].env; updIds.push_back( slots[f].id ); updates++; }
	lastChanged = false; count( "op.trans" );
	return true;
    }
    if( op.kind == "mod" )
    {
	std::vector<int> v = sel( []( const Slot& s, int ) { return s.kind != K_FRAME; } ); int s = pickI( v, op.a[0] ); if( s < 0 ) return true;
	Rng r( op.a[1] * 7919 + op.a[2] ); EnvironmentItem* it = slots[s].raw;
	mutateItem( it, r, content );
	refreshContent( s );
	call( [&]{ it->itemModified(); } );
	if( lastThrew ) { unexpected( "announcing a modification" ); return true; }
	if( slots[s].env >= 0 ) { lastEnv = slots[s].env; updIds.push_back( slots[s].id ); updates++; }
	lastChanged = false; count( "op.mod" );
	return true;
    }
    if( op.kind == "label" )
    {
	std::vector<int> v = sel( []( const Slot&, int ) { return true; } ); int s = pickI( v, op.a[0] ); if( s < 0 ) return true;
	Rng r( op.a[1] ); slots[s].label = randText( r, r.below( 25 ) ); slots[s].raw->setLabel( slots[s].label );
	lastChanged = false; count( "op.label" );
	return true;
    }
    if( op.kind == "prefix" )
    {
	int e = envOfIndex( op.a[0] ); if( e < 0 ) return true;
	std::string p = pick( prefixes, op.a[1] ); Environment* env = envs[e].env;
	call( [&]{ env->setEnvironmentPrefix( p ); } );
	if( lastThrew ) { unexpected( "setting the prefix" ); return true; }
	if( p[0] != '/' ) p = "/" + p; if( p[p.size()-1] != '/' ) p += "/";
	envs[e].prefix = p;
	if( env->getEnvironmentPrefix() != p ) fail( "prefix-changed", "environment prefix is " + env->getEnvironmentPrefix() + " instead of " + p );
	lastEnv = e; lastChanged = false; count( "op.prefix" );
	return true;
    }
    if( op.kind == "envnew" ) { int n = 0; for( size_t i=0;i<envs.size();i++ ) n += envs[i].env != 0; if( n < 3 ) { newEnv(); count( "op.envnew" ); } lastChanged = false; return true; }
    if( op.kind == "envdel" ) { int n = 0; for( size_t i=0;i<envs.size();i++ ) n += envs[i].env != 0; if( n > 1 ) { destroyEnv( envOfIndex( op.a[0] ) ); count( "op.envdel" ); } lastChanged = false; return true; }
    if( op.kind == "query" )
    {
	int e = envOfIndex( op.a[0] ); if( e < 0 ) return true;
	std::string id = op.a[1] % 2 ? std::string( "/no/such/" ) + fmt( "%ld", op.a[2] ) : pick( absNames, op.a[2] );
	int want = -1; for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead && slots[i].env == e && slots[i].id == id ) want = i;
	EnvironmentItem::Ptr p; Environment* env = envs[e].env;
	call( [&]{ p = env->getItem( id ); } );
	if( p.get() != ( want < 0 ? 0 : slots[want].raw ) ) fail( "wrong-lookup", "getItem(" + id + ") returned the wrong item" );
	FrameNode::Ptr f; call( [&]{ f = env->getItem<FrameNode>( id ); } );
	if( f.get() != ( want < 0 || slots[want].kind != K_FRAME ? 0 : slots[want].raw ) ) fail( "wrong-lookup", "getItem<FrameNode>(" + id + ") returned the wrong item" );
	int n = 0; for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead && slots[i].env == e && slots[i].kind == K_LAYER ) n++;
	boost::intrusive_ptr<SimLayer> sl;
	bool ok = call( [&]{ sl = env->getItem<SimLayer>(); } );
	if( ok != ( n == 1 ) ) fail( "wrong-lookup", fmt( "getItem of the only layer: %d present, %s", n, ok ? "accepted" : "refused" ) );
	// renaming an attached item is refused
	std::vector<int> v = sel( [&]( const Slot& s, int ) { return s.env == e; } ); int k = pickI( v, op.a[3] );
	EnvironmentItem* it = slots[k].raw;
	if( call( [&]{ it->setUniqueId( "/renamed" ); } ) ) fail( "id-changed", "setUniqueId of an attached item was accepted" );
	lastChanged = false; lastEnv = e; count( "op.query" );
	return true;
    }
    return false;
}
bool Engine::step( const Op& op )
{
    lastThrew = false; lastChanged = false; lastEnv = -1; lastKind = op.kind; exactEvents = true; updates = 0; updIds.clear();
    const std::string& k = op.kind;
    if( k == "new" || k == "attach" || k == "move" ) return opAttach( op );
    if( k == "detach" || k == "hold" ) return opDetach( op );
    if( k == "frameadd" || k == "framerem" ) return opFrame( op );
    if( k == "layeradd" || k == "layerrem" ) return opLayer( op );
    if( k == "setframe" || k == "unframe" ) return opPlace( op );
    if( k == "update" || k == "ldetach" || k.compare( 0, 2, "op" ) == 0 ) return opOper( op );
    if( k == "clone" || k == "assign" || k == "cloneto" ) return opClone( op );
    return opMisc( op );
}
void Engine::runAll()
{
    size_t every = plan.get( "every", 1 ) > 0 ? plan.get( "every", 1 ) : 1;
    for( size_t i=0;i<plan.ops.size();i++ )
    {
	const Op& op = plan.ops[i];
	curOp( i, op.kind ); clockAdvance( 1000 );
	if( !extraOp( op ) ) step( op );
	if( g_trace ) tracef( "    %s%s", lastThrew ? "threw " : "", lastThrew ? lastErr.c_str() : "" );
	afterStep( op );
	if( checkOn && ( i % every == 0 || i + 1 == plan.ops.size() ) ) check();
    }
}
void Engine::resync()
{
    for( size_t i=0;i<slots.size();i++ )
    {
	Slot& s = slots[i]; if( s.dead ) continue;
	bool live = memIsLive( s.raw ) && memBlockSeq( s.raw ) == s.seq;
	if( !live ) { if( s.hold ) fail( "item-destroyed", "item " + s.id + " was destroyed while a reference is held" ); s.dead = true; s.env = -1; continue; }
	Environment* en = s.raw->getEnvironment(); s.env = -1;
	if( en ) { for( size_t e=0;e<envs.size();e++ ) if( envs[e].env == en ) s.env = e; if( s.env < 0 ) fail( "wrong-attachment", "item " + s.id + " refers to an unknown environment" ); }
	else if( !s.hold ) fail( "item-leaked", "item " + s.id + " is neither attached nor destroyed" );
	s.id = s.raw->getUniqueId(); s.label = s.raw->getLabel();
	refreshContent( i );
    }
    for( size_t e=0;e<envs.size();e++ )
    {
	if( !envs[e].env ) continue;
	Environment* env = envs[e].env; EnvM& m = envs[e];
	Facts f; observe( env, f );           // audits the queries first
	m.parent.clear(); m.frameOf.clear(); m.layer.clear(); m.in.clear(); m.out.clear();
	m.prefix = env->getEnvironmentPrefix();
	std::vector<EnvironmentItem*> all = env->getItems<EnvironmentItem>();
	for( size_t i=0;i<all.size();i++ )
	    if( slotOf( all[i] ) < 0 )
	    { int k = kindOf( all[i] ); if( k < 0 ) simError( "resync: unknown class" ); int s = addSlot( all[i], k ); slots[s].env = e; slots[s].id = all[i]->getUniqueId(); slots[s].label = all[i]->getLabel(); }
	std::map<std::string,int> by; for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead && slots[i].env == (int)e ) by[slots[i].id] = i;
	m.root = by[f["root"]];
	for( Facts::iterator it = f.begin(); it != f.end(); ++it )
	{
	    const std::string& k = it->first; size_t sp = k.find( ' ' ), gt = k.find( '>' ); std::string w = k.substr( 0, sp );
	    if( w == "parent" ) m.parent[by[k.substr( 7 )]] = by[it->second];
	    else if( w == "frame" ) m.frameOf[by[k.substr( 6 )]] = by[it->second];
	    else if( w == "layer" || w == "in" || w == "out" ) ( w == "layer" ? m.layer : w == "in" ? m.in : m.out ).insert( Link( by[k.substr( sp + 1, gt - sp - 1 )], by[k.substr( gt + 1 )] ) );
	}
	if( by.size() != all.size() ) fail( "wrong-attachment", "items claim to be attached to an environment that does not list them" );
    }
}
}
