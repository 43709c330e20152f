// C11: damaged, lost and reordered binary events.
#include "wire.hpp"

using namespace sim;

namespace
{
typedef std::map<std::string,Facts> Items;
// reference model of a receiver: what undamaged events do to it
struct Model
{
    Items items;                                 // id -> facts with "class"
    std::map<std::string,std::string> parent, frame; std::set<std::pair<std::string,std::string> > layer; std::string root;
    static Model of( Environment* env )
    {
	Model m; Facts f = wireFacts( env );
	for( auto& x : f )
	{
	    const std::string& k = x.first; size_t sp = k.find( ' ' ); std::string w = k.substr( 0, sp ), r = sp == std::string::npos ? "" : k.substr( sp + 1 );
	    if( w == "item" ) m.items[r]["class"] = x.second;
	    else if( w == "data" ) { size_t q = r.find( ' ' ); m.items[r.substr( 0, q )][r.substr( q + 1 )] = x.second; }
	    else if( w == "parent" ) m.parent[r] = x.second;
	    else if( w == "frame" ) m.frame[r] = x.second;
	    else if( w == "layer" ) { size_t q = r.find( '>' ); m.layer.insert( std::make_pair( r.substr( 0, q ), r.substr( q + 1 ) ) ); }
	    else if( w == "root" ) m.root = x.second;
	}
	return m;
    }
    Facts facts( const std::string& exA = "\n", const std::string& exB = "\n", const Model* only = 0 ) const
    {
	// leaves out everything that mentions the excluded ids, and items that 'only' does not have
	auto skip = [&]( const std::string& i ) { return i == exA || i == exB || ( only && !only->items.count( i ) ); };
	Facts f; if( !root.empty() ) f["root"] = root;
	for( auto& x : items ) if( !skip( x.first ) ) for( auto& y : x.second ) f["item " + x.first + " " + y.first] = y.second;
	for( auto& x : parent ) if( !skip( x.first ) && !skip( x.second ) ) f["parent " + x.first] = x.second;
	for( auto& x : frame ) if( !skip( x.first ) && !skip( x.second ) ) f["frame " + x.first] = x.second;
	for( auto& x : layer ) if( !skip( x.first ) && !skip( x.second ) ) f["layer " + x.first + ">" + x.second] = "1";
	return f;
    }
    void unlink( const std::string& i )
    {
	parent.erase( i ); frame.erase( i );
	for( auto it = parent.begin(); it != parent.end(); ) if( it->second == i ) parent.erase( it++ ); else ++it;
	for( auto it = frame.begin(); it != frame.end(); ) if( it->second == i ) frame.erase( it++ ); else ++it;
	for( auto it = layer.begin(); it != layer.end(); ) if( it->first == i || it->second == i ) layer.erase( it++ ); else ++it;
    }
    bool below( std::string x, const std::string& top ) const { for( int n=0;n<10000;n++ ) { if( x == top ) return true; auto it = parent.find( x ); if( it == parent.end() ) return false; x = it->second; } return true; }
};
struct Sent { BinaryEvent ev; Facts content; };
bool isFrame( const Facts& f ) { return f.find( "class" )->second == "envire::FrameNode"; }
bool isOp( const Facts& f ) { return f.find( "class" )->second.find( "SimOp" ) != std::string::npos; }
bool isLayerItem( const Facts& f ) { return !isFrame( f ) && !isOp( f ); }
bool isMapItem( const Facts& f ) { return isLayerItem( f ) && f.find( "class" )->second != "envire::SimLayer"; }

class BadEngine : public Engine
{
public:
    Channel* ch; std::vector<Sent> sent; Environment* rx; Rng rng; std::vector<Sent> wire;
    BadEngine( const Plan& p ) : Engine( p ), ch( 0 ), rx( 0 ), rng( p.seed ) { keepPending = true; }
    void open()
    {
	Environment* s = envs[0].env; { LibScope ls; rx = new Environment(); ch = new Channel; }
	ch->tap = [this]( const Batch& b ) { for( size_t i=0;i<b.size();i++ ) record( b[i] ); };
	call( [&]{ s->addEventHandler( ch ); } );
    }
    void record( const BinaryEvent& e )
    {
	Sent s; s.ev = e;
	if( e.type == event::ITEM && e.operation != event::REMOVE )
	{
	    EnvironmentItem* it = envs[0].env ? envs[0].env->getItem( e.id_a ).get() : 0; if( !it ) simError( "event about an unknown item" );
	    digestItem( it, s.content, "", F_PERSIST ); s.content["class"] = it->getClassName();
	}
	wire.push_back( s );
    }
    // an undamaged event on any state of the receiver: exactly this happens, or an error and nothing
    void good( const Sent& s )
    {
	const BinaryEvent& e = s.ev; Model before = Model::of( rx ), want = before; bool mayRefuse = false, add = e.operation == event::ADD;
	bool a = want.items.count( e.id_a ), b = want.items.count( e.id_b );
	switch( e.type )
	{
	    case event::ITEM:
		if( e.operation == event::REMOVE ) { if( a && e.id_a != want.root ) { want.unlink( e.id_a ); want.items.erase( e.id_a ); } else mayRefuse = true; }
		else if( a && want.items[e.id_a]["class"] != s.content.find( "class" )->second )
		{
		    if( e.id_a == want.root ) mayRefuse = true; else { want.unlink( e.id_a ); want.items[e.id_a] = s.content; }
		}
		else want.items[e.id_a] = s.content;
		break;
	    case event::FRAMENODE_TREE:
		if( !a || !b || !isFrame( want.items[e.id_a] ) || !isFrame( want.items[e.id_b] ) || e.id_a == e.id_b ) { mayRefuse = true; break; }
		if( add )
		{
		    if( e.id_b == want.root ) { mayRefuse = true; break; }
		    if( want.below( e.id_a, e.id_b ) ) want.parent.erase( e.id_a );
		    want.parent[e.id_b] = e.id_a;
		}
		else { if( want.parent.count( e.id_b ) && want.parent[e.id_b] == e.id_a ) want.parent.erase( e.id_b ); else mayRefuse = true; }
		break;
	    case event::FRAMENODE:
		if( !a || !b || !isMapItem( want.items[e.id_a] ) || !isFrame( want.items[e.id_b] ) ) { mayRefuse = true; break; }
		if( add ) want.frame[e.id_a] = e.id_b; else if( want.frame.count( e.id_a ) && want.frame[e.id_a] == e.id_b ) want.frame.erase( e.id_a ); else mayRefuse = true;
		break;
	    case event::LAYER_TREE:
		if( !a || !b || !isLayerItem( want.items[e.id_a] ) || !isLayerItem( want.items[e.id_b] ) ) { mayRefuse = true; break; }
		if( add ) want.layer.insert( std::make_pair( e.id_a, e.id_b ) ); else if( !want.layer.erase( std::make_pair( e.id_a, e.id_b ) ) ) mayRefuse = true;
		break;
	    default: break;
	}
	Batch one( 1, e ); Environment* r = rx;
	call( [&]{ r->applyEvents( one ); } );
	if( lastThrew && !mayRefuse ) violation( "event-refused", "an undamaged event was refused: " + lastErr + ", " + showEv( e ) );
	Model after = Model::of( rx ); Facts f1 = want.facts(), f2 = after.facts();
	if( mayRefuse ) { f1 = before.facts(); if( !lastThrew ) count( "oracle.ignored" ); }
	if( f1 != f2 ) violation( "wrong-effect", "an undamaged event had another effect: " + showEv( e ) + ": " + diffFacts( f1, f2, "expected", "receiver" ) );
	count( "oracle.undamaged" ); state( hashFacts( f2 ) );
    }
    void damaged( const BinaryEvent& e, bool foreign )
    {
	Model before = Model::of( rx ); Batch one( 1, e ); Environment* r = rx;
	call( [&]{ r->applyEvents( one ); } );
	if( lastThrew ) count( "oracle.rejected" ); else count( "oracle.applied" );
	Model after = Model::of( rx );
	// whatever the event does, it does to its subjects
	Facts f1 = before.facts( e.id_a, e.id_b ), f2 = after.facts( e.id_a, e.id_b, &before );
	if( f1 != f2 ) violation( "wrong-effect", "a damaged event changed something else than its subjects: " + showEv( e ) + ": " + diffFacts( f1, f2, "before", "after" ) );
	state( hashFacts( f2 ) ); (void)foreign;
	// what is decoded depends on the event only
	if( e.type == event::ITEM && ( e.operation == event::ADD || e.operation == event::UPDATE ) && !lastThrew )
	{
	    static const unsigned char junk[] = { 0x00, 0x3F, 0xCD, 0xFF }; unsigned k = rng.below( 4 ); Facts f[2];
	    for( int i=0;i<2;i++ )
	    {
		Environment* t = 0; memJunk( junk[( k + i ) & 3] );
		call( [&]{ t = new Environment(); } ); call( [&]{ t->applyEvents( one ); } );
		f[i] = wireFacts( t ); if( lastThrew ) f[i]["refused"] = lastErr;
		call( [&]{ delete t; } );
	    }
	    if( f[0] != f[1] ) violation( "not-repeatable", "a damaged event is decoded differently the next time: " + showEv( e ) + ": " + diffFacts( f[0], f[1], "first", "second" ) );
	    count( "oracle.repeatable" );
	}
    }
    std::string someId() 
    {
	std::vector<std::string> ids; for( size_t i=0;i<slots.size();i++ ) if( !slots[i].dead && !slots[i].id.empty() ) ids.push_back( slots[i].id );
	ids.push_back( "" ); ids.push_back( "/" ); ids.push_back( "/nowhere" ); ids.push_back( "relative" ); ids.push_back( "/0" ); ids.push_back( "/group/" );
	return ids[rng.below( ids.size() )];
    }
    static void flip( std::vector<uint8_t>& v, Rng& r )
    {
	if( v.empty() ) { v.push_back( r.below( 256 ) ); return; }
	size_t i = r.below( v.size() );
	switch( r.below( 6 ) )
	{
	    case 0: v[i] ^= 1u << r.below( 8 ); break;
	    case 1: v[i] = r.below( 256 ); break;
	    case 2: v.resize( i ); break;
	    case 3: v.erase( v.begin() + i ); break;
	    case 4: v.insert( v.begin() + i, (uint8_t)r.below( 256 ) ); break;
	    default: { static const char* s[] = { "-1", "0", "99999999999", "nan", "1e308", "4294967295", "-2147483648", ":", "\n", "\"", "[", "{", "&a", "*a", "- " }; const char* t = s[r.below( 15 )]; size_t n = strlen( t ); for( size_t k=0;k<n && i+k<v.size();k++ ) v[i+k] = t[k]; }
	}
    }
    // replaces one number of the properties
    static void badNumber( std::vector<uint8_t>& v, Rng& r )
    {
	std::vector<size_t> pos; for( size_t i=1;i<v.size();i++ ) if( isdigit( v[i] ) && ( v[i-1] == ' ' ) ) pos.push_back( i );
	if( pos.empty() ) { flip( v, r ); return; }
	size_t i = pos[r.below( pos.size() )], j = i; while( j < v.size() && v[j] != '\n' && v[j] != ' ' && v[j] != ',' && v[j] != ']' ) j++;
	static const char* s[] = { "-1", "0", "1", "3", "255", "257", "65536", "1000000", "99999999999", "18446744073709551615", "4294967295", "nan", "-inf", "1e308", "x", "" };
	const char* t = s[r.below( 16 )];
	v.erase( v.begin() + i, v.begin() + j ); v.insert( v.begin() + i, t, t + strlen( t ) );
    }
    BinaryEvent damage( BinaryEvent e )
    {
	int n = 1 + rng.below( 2 );
	for( int k=0;k<n;k++ ) switch( rng.below( 16 ) )
	{
	    case 0: flip( e.yamlProperties, rng ); count( "fault.properties-damaged" ); break;
	    case 1: case 2: badNumber( e.yamlProperties, rng ); count( "fault.number-damaged" ); break;
	    case 3: case 4: case 5: if( !e.binaryStreams.empty() ) { flip( e.binaryStreams[rng.below( e.binaryStreams.size() )], rng ); count( "fault.payload-damaged" ); } break;
	    case 6: e.id_a = someId(); count( "fault.id-damaged" ); break;
	    case 7: e.id_b = someId(); count( "fault.id-damaged" ); break;
	    case 8: e.type = (event::Type)rng.below( 5 ); count( "fault.type-damaged" ); break;
	    case 9: e.operation = (event::Operation)rng.below( 3 ); count( "fault.operation-damaged" ); break;
	    case 10: e.type = (event::Type)( rng.below( 9 ) ); e.operation = (event::Operation)( rng.below( 5 ) ); count( "fault.type-damaged" ); break;
	    case 11: { static const char* c[] = { "", "envire::NoSuch", "envire::Layer", "envire::Map", "envire::Operator" }; e.className = rng.chance( 1, 2 ) ? c[rng.below( 5 )] : std::string( "envire::" ) + kindName[rng.below( K_COUNT )]; count( "fault.class-damaged" ); break; }
	    case 12: if( !e.binaryStreams.empty() ) e.binaryStreams.pop_back(); count( "fault.stream-lost" ); break;
	    case 13: if( !e.binaryStreamNames.empty() ) { e.binaryStreamNames[0] += "x"; count( "fault.stream-renamed" ); } break;
	    case 14: e.binaryStreamNames.clear(); count( "fault.stream-lost" ); break;
	    default: // properties of another event
		if( !sent.empty() ) { const BinaryEvent& o = sent[rng.below( sent.size() )].ev; if( rng.chance( 1, 2 ) ) e.yamlProperties = o.yamlProperties; else { e.binaryStreamNames = o.binaryStreamNames; e.binaryStreams = o.binaryStreams; } if( rng.chance( 1, 2 ) ) e.className = o.className; count( "fault.mixed-up" ); }
	}
	return e;
    }
    bool extraOp( const Op& op )
    {
	if( op.kind != "bad" ) return false;
	deliver( op.a[0], op.a[1] );
	return true;
    }
    void deliver( long mode, long seed )
    {
	std::vector<Sent> w; w.swap( wire ); rng = Rng( seed ); setStage( "deliver" );
	if( mode % 8 == 1 ) { for( size_t i=w.size();i>1;i-- ) std::swap( w[i-1], w[rng.below( i )] ); count( "fault.reordered" ); }
	for( size_t i=0;i<w.size();i++ )
	{
	    sent.push_back( w[i] ); if( sent.size() > 40 ) sent.erase( sent.begin() );
	    int f = mode % 8 < 2 ? 0 : (int)rng.below( 10 );
	    if( mode % 8 == 0 ) f = 9;
	    if( f == 1 ) { count( "fault.lost" ); continue; }
	    if( f == 2 ) { good( w[i] ); count( "fault.duplicated" ); }
	    if( f == 3 && w.size() > i + 1 ) { std::swap( w[i], w[i+1] ); count( "fault.reordered" ); }
	    if( f == 4 && !sent.empty() ) { good( sent[rng.below( sent.size() )] ); count( "fault.delayed" ); }
	    if( f >= 5 && f <= 7 ) { damaged( damage( w[i].ev ), false ); if( rng.chance( 1, 2 ) ) continue; }
	    good( w[i] );
	}
	setStage( "" );
    }
    void use()
    {
	// the receiver is fully usable: structure changes, synchronisation, saving
	setStage( "use" );
	int e = adopt( rx ); Environment* r = rx; rx = 0;
	Rng g( plan.seed ); Plan p; Weights w; std::vector<int> k( 1, K_FRAME ); k.push_back( K_MAP ); k.push_back( K_LAYER ); genOps( p, g, 10, w, k );
	destroyEnvSource();
	for( size_t i=0;i<p.ops.size();i++ ) { step( p.ops[i] ); check(); }
	Batch b; call( [&]{ r->pullEvents( b ); } ); if( lastThrew ) violation( "not-usable", "the receiver can not be synchronised: " + lastErr );
	Environment* t = 0; call( [&]{ t = new Environment(); t->applyEvents( b ); } ); if( lastThrew ) violation( "not-usable", "the receiver's own events are refused: " + lastErr );
	// (contents that got damaged on the way in need not be representable)
	Facts f1, f2; for( auto& x : wireFacts( r ) ) if( structuralKey( x.first ) ) f1.insert( x ); for( auto& x : wireFacts( t ) ) if( structuralKey( x.first ) ) f2.insert( x );
	if( f1 != f2 ) violation( "not-usable", "the receiver can not be synchronised: " + diffFacts( f1, f2, "receiver", "its replica" ) );
	call( [&]{ delete t; } ); (void)e;
    }
    void destroyEnvSource()
    {
	Environment* s = envs[0].env; { LibScope ls; s->removeEventHandler( ch ); delete ch; ch = 0; }
	destroyEnv( 0 );
    }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 );
    Weights w; w.mod = 12; w.trans = 6; w.frame = 18; w.layer = 12; w.place = 14; w.detach = 8; w.attach = 20; w.assign = 3; w.clone = 0; w.label = 0;
    std::vector<int> k; for( int i=0;i<4;i++ ) k.push_back( K_FRAME ); for( int i=0;i<2;i++ ) { k.push_back( K_MAP ); k.push_back( K_LAYER ); }
    for( int i=0;i<4;i++ ) k.push_back( K_CLOUD + r.below( K_GH - K_CLOUD + 1 ) ); k.push_back( K_FEAT ); k.push_back( r.chance( 2, 3 ) ? K_MLSMAP : K_SEG ); k.push_back( K_OP );
    genOps( p, r, runLength( r, th, 70 ), w, k );
    std::vector<Op> out; int every = 1 + r.below( 6 );
    for( size_t i=0;i<p.ops.size();i++ ) { out.push_back( p.ops[i] ); if( r.chance( 1, every ) ) out.push_back( Op( "bad", r.below( 8 ), r.below( 1u << 30 ) ) ); }
    out.push_back( Op( "bad", r.below( 8 ), r.below( 1u << 30 ) ) );
    p.ops = out;
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); leakBegin();
    memLimit = 256u << 20;
    BadEngine e( p ); e.newEnv(); e.open();
    e.runAll();
    e.use();
    e.finish();
}
WorkloadReg r11( "badevents", gen, run );
}
