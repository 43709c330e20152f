// C12: contents survive the wire and the disk.
#include "wire.hpp"

using namespace sim;

namespace
{
Facts digest( const EnvironmentItem* i, int mode ) { Facts f; digestItem( i, f, "", mode ); f["class"] = i->getClassName(); return f; }
std::string g_err;
bool lib( std::function<void()> f )
{
    g_err.clear();
    try { LibScope ls; f(); return true; }
    catch( std::exception& e ) { HarnessScope hs; g_err = e.what(); }
    return false;
}
struct Codec
{
    const Plan& plan; BinarySerialization *enc, *dec;
    Codec( const Plan& p ) : plan( p ) { LibScope ls; enc = new BinarySerialization; dec = new BinarySerialization; }
    ~Codec() { LibScope ls; delete enc; delete dec; }
    EnvironmentItem::Ptr make( const Op& op, Content& c, int& kind )
    {
	kind = op.a[0] % K_COUNT; Rng r( op.a[1] );
	c.size = op.a[2] % 5; c.bigText = op.a[3] % 5 == 0;
	EnvironmentItem::Ptr it = makeItem( kind, r, c );
	int n = op.a[4] % 5; for( int i=0;i<n;i++ ) mutateItem( it.get(), r, c );
	return it;
    }
    void encode( EnvironmentItem* it, BinaryEvent& ev )
    {
	Facts before = digest( it, F_FULL | F_META ); std::string id = it->getUniqueId(), label = it->getLabel(); bool ok = false;
	if( !lib( [&]{ ok = enc->serializeBinaryEvent( it, ev ); } ) || !ok ) violation( "encode-refused", "encoding " + it->getClassName() + " failed: " + g_err );
	Facts after = digest( it, F_FULL | F_META );
	if( before != after || it->getUniqueId() != id || it->getLabel() != label ) violation( "encode-changes-item", "encoding changed the item: " + diffFacts( before, after, "before", "after" ) );
	ev.id_a = id; ev.type = event::ITEM; ev.operation = event::ADD;
    }
    void wire( const Op& op )
    {
	Content c; int kind; EnvironmentItem::Ptr it = make( op, c, kind );
	it->setUniqueId( fmt( op.a[4] % 3 ? "/item/%ld" : "/%ld", op.a[4] ) );
	BinaryEvent ev;
	if( op.a[5] % 4 == 1 ) { ev.className = "used"; ev.yamlProperties.assign( 40, 'x' ); ev.binaryStreamNames.assign( 2, "old" ); ev.binaryStreams.assign( 2, std::vector<uint8_t>( 9, 7 ) ); count( "event-reused" ); }
	encode( it.get(), ev );
	Facts want = digest( it.get(), F_PERSIST );
	BinaryEvent got = transport( Batch( 1, ev ), op.a[5] % 2 )[0];
	EnvironmentItem* raw = 0;
	if( !lib( [&]{ raw = dec->unserializeBinaryEvent( got ); } ) || !raw ) violation( "decode-refused", "decoding " + ev.className + " failed: " + g_err );
	EnvironmentItem::Ptr copy( raw );
	Facts have = digest( raw, F_PERSIST );
	if( have != want ) violation( "content-differs", "item differs after encoding and decoding: " + diffFacts( want, have, "original", "decoded" ) );
	if( raw->getUniqueId() != it->getUniqueId() ) violation( "content-differs", "id differs after encoding and decoding" );
	state( hashFacts( have ) ); count( "oracle.wire" ); count( ( std::string( "wire." ) + kindName[kind] ).c_str() );
	// a second generation
	BinaryEvent ev2; encode( raw, ev2 ); EnvironmentItem* raw2 = 0;
	if( !lib( [&]{ raw2 = dec->unserializeBinaryEvent( ev2 ); } ) ) violation( "decode-refused", "decoding a decoded " + ev.className + " failed: " + g_err );
	EnvironmentItem::Ptr copy2( raw2 ); have = digest( raw2, F_PERSIST );
	if( have != want ) violation( "content-differs", "item differs after two generations: " + diffFacts( want, have, "original", "decoded" ) );
	// truncated payload
	if( op.a[5] % 3 == 0 ) return;
	Rng r( op.a[1] ^ op.a[5] );
	for( int k=0;k<3;k++ )
	{
	    BinaryEvent cut = ev; std::vector<size_t> ne; for( size_t i=0;i<cut.binaryStreams.size();i++ ) if( !cut.binaryStreams[i].empty() ) ne.push_back( i );
	    if( ne.empty() || kind == K_LAYER || kind == K_MAP ) return;
	    std::vector<uint8_t>& s = cut.binaryStreams[ ne[ r.below( ne.size() ) ] ];
	    size_t n = r.chance( 1, 4 ) ? s.size() - 1 - r.below( std::min<size_t>( s.size(), 4 ) ) : r.below( s.size() ); s.resize( n );
	    EnvironmentItem* t = 0; count( "fault.short-payload" );
	    if( !lib( [&]{ t = dec->unserializeBinaryEvent( cut ); } ) ) { count( "oracle.short-reported" ); continue; }
	    EnvironmentItem::Ptr tp( t ); Facts h = digest( t, F_PERSIST );
	    if( h != want ) violation( "short-payload-accepted", "a payload cut to " + fmt( "%zu", n ) + " bytes was accepted with other content: " + diffFacts( want, h, "original", "decoded" ) );
	    count( "oracle.short-harmless" );
	}
    }
    void disk( const Op& op, size_t idx )
    {
	Content c; int kind; EnvironmentItem::Ptr it = make( op, c, kind ); Environment* env = 0;
	std::string id; std::string dir = fmt( "d/s%zu", idx );
	if( !lib( [&]{ env = new Environment(); env->attachItem( it.get() ); } ) ) violation( "encode-refused", "attaching failed: " + g_err );
	if( isMapKind( kind ) && op.a[4] % 4 ) lib( [&]{ env->setFrameNode( static_cast<CartesianMap*>( it.get() ), env->getRootNode() ); } );
	id = it->getUniqueId();
	Facts before = digest( it.get(), F_FULL | F_META ), want = digest( it.get(), F_PERSIST );
	diskFaults.reset(); diskFaults.active = true; diskFaults.shortIo = op.a[5] % 2; diskFaults.eintr = op.a[5] % 4 >= 2; diskFaults.ioSeed = op.a[1]; diskResetCounters();
	if( !lib( [&]{ env->serialize( dir ); } ) ) violation( "encode-refused", "saving " + it->getClassName() + " failed: " + g_err );
	if( digest( it.get(), F_FULL | F_META ) != before ) violation( "encode-changes-item", "saving changed the item: " + diffFacts( before, digest( it.get(), F_FULL | F_META ), "before", "after" ) );
	lib( [&]{ delete env; } ); env = 0;
	Environment* e2 = 0;
	if( !lib( [&]{ e2 = Environment::unserialize( dir ); } ) ) violation( "decode-refused", "loading " + it->getClassName() + " failed: " + g_err );
	EnvironmentItem* got = e2->getItem( id ).get(); if( !got ) violation( "content-differs", "item is missing after loading" );
	Facts have = digest( got, F_PERSIST );
	if( have != want ) violation( "content-differs", "item differs after saving and loading: " + diffFacts( want, have, "original", "loaded" ) );
	lib( [&]{ delete e2; } ); count( "oracle.disk" ); count( ( std::string( "disk." ) + kindName[kind] ).c_str() );
	diskFaults.reset();
	// truncated payload file
	std::vector<std::string> files; listDir( dir, files ); std::vector<std::string> pay;
	for( size_t i=0;i<files.size();i++ ) if( files[i].find( ".yml" ) == std::string::npos && files[i].find( ".yaml" ) == std::string::npos && readFile( dir + "/" + files[i] ).size() ) pay.push_back( files[i] );
	Rng r( op.a[1] ^ op.a[5] );
	for( int k=0;k<2 && !pay.empty() && op.a[5] % 3 && kind != K_LAYER && kind != K_MAP;k++ )
	{
	    std::string f = dir + "/" + pay[ r.below( pay.size() ) ], full = readFile( f ); size_t n = r.below( full.size() );
	    writeFile( f, full.substr( 0, n ) ); count( "fault.short-file" );
	    Environment* e3 = 0;
	    if( lib( [&]{ e3 = Environment::unserialize( dir ); } ) )
	    {
		EnvironmentItem* g = e3->getItem( id ).get(); if( !g ) violation( "content-differs", "item is missing after loading" );
		Facts h = digest( g, F_PERSIST );
		if( h != want ) violation( "short-payload-accepted", "file " + pay[0] + fmt( " cut from %zu to %zu bytes", full.size(), n ) + " was accepted with other content: " + diffFacts( want, h, "original", "loaded" ) );
		lib( [&]{ delete e3; } );
	    }
	    else count( "oracle.short-reported" );
	    writeFile( f, full );
	}
	if( diskOpenFiles() ) violation( "files-left-open", "files are still open after saving and loading" );
	removeTree( dir );
    }
};
Plan gen( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 );
    // some runs have a single item with more than 65536 elements
    if( r.chance( 1, 30 ) ) { static const int big[] = { K_CLOUD, K_CLOUD, K_MESH, K_MESH, K_SCAN, K_MLS, K_FEAT }; p.add( r.chance( 3, 5 ) ? "wire" : "disk", r.chance( 2, 3 ) ? big[r.below( 7 )] : r.below( K_COUNT ), r.below( 1u << 30 ), 4, r.below( 50 ), r.below( 10 ), r.below( 4096 ) ); return p; }
    int n = 1 + r.below( th ? 12 : 6 );
    for( int i=0;i<n;i++ ) p.add( r.chance( 3, 5 ) ? "wire" : "disk", r.below( K_COUNT ), r.below( 1u << 30 ), r.chance( 1, th ? 5 : 12 ) ? 3 : r.below( 3 ), r.below( 50 ), r.below( 100 ), r.below( 4096 ) );
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); diskScratch(); leakBegin();
    {
	Codec c( p );
	for( size_t i=0;i<p.ops.size();i++ )
	{
	    curOp( i, p.ops[i].kind ); clockAdvance( 1000 );
	    if( p.ops[i].kind == "wire" ) c.wire( p.ops[i] ); else if( p.ops[i].kind == "disk" ) c.disk( p.ops[i], i );
	}
    }
    std::string l = leakCheck(); if( !l.empty() ) violation( "item-leaked", "still alive after everything was released: " + l );
}
WorkloadReg r12( "codec", gen, run );
}
