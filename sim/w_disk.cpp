// C04, C05, C06: saving and loading, with disk faults, crashes and damaged scenes.
#include "engine.hpp"
#include <string.h>
#include <algorithm>

using namespace sim;

namespace
{
const char* sceneDir[3] = { "d/a", "d/b/scene", "d/c/" };
Facts sceneFacts( Environment* env ) { Facts f; Obs o; observe( env, f, o ); return f; }
bool isNum( char c ) { return ( c >= '0' && c <= '9' ) || c == '-' || c == '.'; }

class DiskEngine : public Engine
{
public:
    struct Scene { bool any; Facts facts; Scene() : any( false ) {} };
    Scene scene[3]; int cur;
    DiskEngine( const Plan& p ) : Engine( p ), cur( 0 ) {}

    void faultsOff() { diskFaults.reset(); diskResetCounters(); }
    void io( long flags, long seed )
    {
	faultsOff();
	if( flags & 3 ) { diskFaults.active = true; diskFaults.shortIo = flags & 1; diskFaults.eintr = flags & 2; }
	diskFaults.ioSeed = seed; diskResetCounters();
    }
    void filesClosed( const char* when ) { if( diskOpenFiles() ) violation( "file-left-open", std::string( "files are still open after " ) + when ); }
    bool save( int e, const std::string& dir )
    {
	Environment* env = envs[e].env;
	call( [&]{ env->serialize( dir ); } );
	filesClosed( "saving" );
	return !lastThrew;
    }
    Environment* load( const std::string& dir )
    {
	Environment* r = 0; size_t before = liveObjects();
	call( [&]{ r = Environment::unserialize( dir ); } );
	filesClosed( "loading" );
	if( !lastThrew && !r ) violation( "nothing-loaded", "loading returned no environment and no error" );
	if( lastThrew && liveObjects() != before ) violation( "item-leaked", fmt( "a failed load leaves %ld objects behind: ", (long)( liveObjects() - before ) ) + lastErr );
	return lastThrew ? 0 : r;
    }
    void drop( Environment* env ) { call( [&]{ delete env; } ); if( lastThrew ) unexpected( "destroying a loaded environment" ); }
    void same( const Facts& want, Environment* env, const char* what )
    {
	Facts got = sceneFacts( env );
	if( got != want ) violation( "scene-differs", std::string( what ) + ": " + diffFacts( want, got, "saved", "loaded" ) );
	state( hashFacts( got ) ); count( "oracle.scene-equal" );
    }
    // different items whose files get the same name can not be saved together, which has to be reported
    bool collision( int e )
    {
	std::set<std::string> seen; std::vector<int> in = sel( [&]( const Slot& s, int ) { return s.env == e; } );
	for( size_t i=0;i<in.size();i++ )
	{
	    if( !dynamic_cast<Layer*>( slots[in[i]].raw ) ) continue;
	    std::string id = slots[in[i]].raw->getUniqueId(); std::replace( id.begin(), id.end(), '/', '_' );
	    if( !seen.insert( slots[in[i]].raw->getClassName() + id ).second ) { count( "save.same-file-name" ); return true; }
	}
	return false;
    }
    // ---------------------------------------------------------------- C04
    bool opSave( const Op& op )
    {
	int e = envOfIndex( op.a[3] ); if( e < 0 ) return true;
	int s = op.a[0] % 3; Facts f = sceneFacts( envs[e].env );
	io( op.a[1], op.a[2] );
	bool ok = save( e, sceneDir[s] );
	faultsOff();
	if( !ok && collision( e ) ) { scene[s].any = false; return true; }
	if( !ok ) violation( "save-refused", "saving failed on a working disk: " + lastErr );
	if( sceneFacts( envs[e].env ) != f ) violation( "save-changes-scene", "saving changed the environment: " + diffFacts( f, sceneFacts( envs[e].env ), "before", "after" ) );
	scene[s].any = true; scene[s].facts = f; count( "op.save" );
	return true;
    }
    bool opLoad( const Op& op )
    {
	int s = op.a[0] % 3; if( !scene[s].any ) return true;
	io( op.a[1], op.a[2] );
	Environment* env = load( sceneDir[s] );
	faultsOff();
	if( !env ) violation( "load-refused", "a saved scene can not be loaded: " + lastErr );
	same( scene[s].facts, env, "the loaded scene differs from what was saved" );
	count( "op.load" );
	int live = 0; for( size_t e=0;e<envs.size();e++ ) if( envs[e].env ) live++;
	if( op.a[3] % 3 == 0 || live >= 3 ) { drop( env ); return true; }
	if( op.a[3] % 3 == 1 ) { int e = envOfIndex( op.a[4] ); if( e >= 0 ) { destroyEnv( e ); count( "op.generation" ); } }
	adopt( env );
	return true;
    }
    // ---------------------------------------------------------------- C05
    bool opFaultySave( const Op& op )
    {
	int e = envOfIndex( op.a[3] ); if( e < 0 ) return true;
	int s = op.a[0] % 3; Facts f = sceneFacts( envs[e].env ); Environment* env = envs[e].env;
	// how much there is to do, to place the fault inside
	faultsOff();
	if( !save( e, "d/probe" ) && collision( e ) ) { removeTree( "d/probe" ); return true; }
	if( lastThrew ) violation( "save-refused", "saving failed on a working disk: " + lastErr );
	long writes = diskWrites, opens = diskOpens, closes = diskCloses, bytes = diskBytes;
	removeTree( "d/probe" );
	diskFaults.reset(); DiskFaults& df = diskFaults; df.active = true; long n = op.a[2];
	switch( op.a[1] % 7 )
	{
	    case 0: df.failOpenAt = 1 + n % ( opens + 1 ); break;
	    case 1: df.failWriteAt = 1 + n % ( writes + 1 ); break;
	    case 2: df.failWriteAt = 1 + n % ( writes + 1 ); df.stick = true; break;
	    case 3: df.byteBudget = n % ( bytes + 16 ); break;
	    case 4: df.failCloseAt = 1 + n % ( closes + 1 ); break;
	    case 5: df.lostWriteAt = 1 + n % ( writes + 1 ); break;
	    case 6: df.byteBudget = bytes > 40 ? bytes - n % 40 : n % ( bytes + 1 ); break;
	}
	df.shortIo = op.a[4] % 3 == 0; df.eintr = op.a[4] % 5 == 0; df.ioSeed = op.a[5];
	diskResetCounters();
	bool ok = save( e, sceneDir[s] ); bool fired = diskFaultFired(); std::string err = lastErr;
	count( ok ? "save.reported-ok" : "save.reported-error" );
	faultsOff();
	if( sceneFacts( env ) != f ) violation( "save-changes-scene", "a failed save changed the environment: " + diffFacts( f, sceneFacts( env ), "before", "after" ) );
	if( ok )
	{
	    Environment* l = load( sceneDir[s] );
	    if( !l ) violation( "silent-loss", "saving reported success, but the scene can not be loaded: " + lastErr );
	    Facts got = sceneFacts( l );
	    if( got != f ) violation( "silent-loss", "saving reported success, but the scene differs: " + diffFacts( f, got, "saved", "loaded" ) );
	    drop( l ); count( "oracle.not-silent" );
	}
	else if( !fired ) violation( "save-refused", "saving failed on a working disk: " + err );
	// the disk works again
	if( op.a[4] % 2 || !ok )
	{
	    if( !save( e, sceneDir[s] ) ) violation( "save-refused", "saving fails although the disk works again: " + lastErr );
	    Environment* l = load( sceneDir[s] );
	    if( !l ) violation( "load-refused", "the scene saved after a failed save can not be loaded: " + lastErr );
	    same( f, l, "the scene saved after a failed save differs" );
	    drop( l );
	}
	scene[s].any = true; scene[s].facts = f;
	return true;
    }
    // ---------------------------------------------------------------- C06
    void use( Environment* env, long seed )
    {
	setStage( "use" );
	Facts f = sceneFacts( env );          // audits all queries
	bool known = true; std::vector<EnvironmentItem*> all = env->getItems<EnvironmentItem>();
	for( size_t i=0;i<all.size();i++ ) if( kindOf( all[i] ) < 0 ) known = false;
	if( known )
	{
	    int e = adopt( env ); Rng g( seed ); Plan p; Weights w; w.envnew = w.envdel = w.cloneto = 0;
	    std::vector<int> k( 2, K_FRAME ); k.push_back( K_MAP ); k.push_back( K_LAYER ); genOps( p, g, 6, w, k );
	    for( size_t i=0;i<p.ops.size();i++ ) { step( p.ops[i] ); check(); }
	    if( !save( e, "d/use" ) && collision( e ) ) { removeTree( "d/use" ); destroyEnv( e ); setStage( "" ); return; }
	    if( lastThrew ) violation( "not-usable", "a loaded scene can not be saved: " + lastErr );
	    Facts a; Facts now = sceneFacts( envs[e].env ); for( auto& x : now ) if( structuralKey( x.first ) ) a.insert( x );
	    Environment* l = load( "d/use" ); if( !l ) violation( "not-usable", "a loaded scene can not be saved and loaded again: " + lastErr );
	    Facts b; for( auto& x : sceneFacts( l ) ) if( structuralKey( x.first ) ) b.insert( x );
	    if( a != b ) violation( "not-usable", "a loaded scene can not be saved and loaded again: " + diffFacts( a, b, "saved", "loaded" ) );
	    drop( l ); removeTree( "d/use" );
	    destroyEnv( e );
	    count( "oracle.usable" );
	}
	else { call( [&]{ env->serialize( "d/use" ); } ); drop( env ); removeTree( "d/use" ); }
	setStage( "" );
    }
    void noCycles( Environment* env, const char* what )
    {
	std::vector<FrameNode*> fs = env->getItems<FrameNode>();
	for( size_t i=0;i<fs.size();i++ ) { FrameNode* f = fs[i]; for( size_t n=0;f;n++ ) { f = env->getParent( f ); if( n > fs.size() ) violation( "inconsistent-query", std::string( what ) + ": the frames of the loaded scene form a cycle" ); } }
    }
    // loads an image; 'must' is what it has to contain, if that is known
    void tryImage( const std::string& dir, const Facts* must, long seed, const char* what, bool full = true )
    {
	Environment* env = load( dir );
	faultsOff();
	count( env ? "load.accepted" : "load.rejected" );
	if( g_trace ) tracef( "    image %s: %s", what, env ? "accepted" : lastErr.c_str() );
	if( must && !env ) violation( "load-refused", std::string( "a complete scene is refused " ) + what + ": " + lastErr );
	if( must ) same( *must, env, what );
	if( env )
	{
	    Facts f = sceneFacts( env ); note( hashFacts( f ) );
	    if( env->getParent( env->getRootNode() ) ) violation( "inconsistent-query", std::string( what ) + ": the root of the loaded scene is below another frame" );
	    // what was loaded depends on the files only
	    static const unsigned char junk[] = { 0x00, 0x3F, 0xCD, 0xFF }; memJunk( junk[seed & 3] );
	    Environment* again = load( dir ); memJunk( junk[( seed + 1 ) & 3] );
	    if( !again ) violation( "not-repeatable", std::string( what ) + " is accepted once and refused the next time: " + lastErr );
	    Facts g = sceneFacts( again ); drop( again );
	    if( f != g ) violation( "not-repeatable", std::string( what ) + " is loaded differently the next time: " + diffFacts( f, g, "first", "second" ) );
	    if( full ) use( env, seed ); else { noCycles( env, what ); drop( env ); }
	}
	else { note( lastErr ); count( "oracle.rejected-clean" ); }
    }
    bool opCrash( const Op& op )
    {
	int e = envOfIndex( op.a[3] ); if( e < 0 ) return true;
	int s = op.a[0] % 3; Facts f = sceneFacts( envs[e].env ); bool had = scene[s].any; Facts old = scene[s].facts;
	faultsOff();
	if( had ) copyTree( sceneDir[s], "d/old" );
	diskLog.clear(); diskRecord = true;
	bool ok = save( e, sceneDir[s] );
	diskRecord = false;
	if( !ok && collision( e ) ) { if( had ) removeTree( "d/old" ); scene[s].any = false; return true; }
	if( !ok ) violation( "save-refused", "saving failed on a working disk: " + lastErr );
	std::vector<DiskOp> log; log.swap( diskLog );
	scene[s].any = true; scene[s].facts = f;
	// what survives: a prefix of the operations, the last write torn; data of some files may not have been written back
	std::string img = "d/img", src = sceneDir[s]; Rng g( op.a[5] );
	size_t k = op.a[1] % 5 == 0 ? log.size() : g.below( log.size() + 1 ); bool lossy = op.a[2] % 2;
	std::map<std::string,std::string> files; std::vector<std::string> names;
	if( had ) { listDir( "d/old", names ); for( size_t i=0;i<names.size();i++ ) files[names[i]] = readFile( "d/old/" + names[i] ); removeTree( "d/old" ); }
	bool torn = false; std::map<std::string,size_t> keep;
	for( size_t i=0;i<k;i++ )
	{
	    const DiskOp& o = log[i]; std::string n = o.path.substr( o.path.rfind( '/' ) + 1 ), n2 = o.path2.substr( o.path2.rfind( '/' ) == std::string::npos ? 0 : o.path2.rfind( '/' ) + 1 );
	    switch( o.kind )
	    {
		case DiskOp::CREATE: files[n] = ""; keep[n] = 0; break;
		case DiskOp::WRITE:
		{
		    std::string d = o.data; if( i + 1 == k && k < log.size() && op.a[4] % 2 ) { d.resize( g.below( d.size() + 1 ) ); torn = true; }
		    std::string& c = files[n]; if( c.size() < o.off ) c.resize( o.off, '\0' );
		    c.replace( o.off, d.size(), d ); break;
		}
		case DiskOp::RENAME: files[n2] = files[n]; files.erase( n ); if( keep.count( n ) ) { keep[n2] = 0; keep.erase( n ); } break;
		case DiskOp::UNLINK: files.erase( n ); break;
		default: break;
	    }
	}
	bool lost = false;
	if( lossy ) for( auto& x : keep ) if( g.chance( 1, 3 ) )
	{
	    std::string& c = files[x.first]; size_t to = g.below( c.size() + 1 ); if( to == c.size() ) continue;
	    lost = true; count( "fault.lost-writeback" );
	    if( g.chance( 1, 3 ) ) memset( &c[to], 0, c.size() - to ); else c.resize( to );      // blocks that were allocated but not written are zero
	}
	if( torn ) count( "fault.torn-write" );
	count( "fault.crash" );
	makeDir( img ); for( auto& x : files ) writeFile( img + "/" + x.first, x.second );
	bool complete = k == log.size() && !lost && !torn, none = k == 0 && had;
	// a crash leaves the old scene, the new scene, an error or something sound
	tryImage( img, complete ? &f : none ? &old : 0, op.a[5], complete ? "after a complete save" : none ? "before the save began" : "after a crash" );
	removeTree( img );
	return true;
    }
    void damage( std::string& c, const std::string& name, long kind, Rng& g, const std::vector<std::string>& ids )
    {
	bool text = name.find( ".yml" ) != std::string::npos || name.find( ".ply" ) != std::string::npos || name.find( "scan" ) != std::string::npos;
	if( kind >= 5 && kind <= 10 && !text ) kind = kind % 4;
	std::vector<size_t> ln( 1, 0 ); if( kind >= 5 && kind <= 10 ) for( size_t i=0;i<c.size();i++ ) if( c[i] == '\n' ) ln.push_back( i + 1 );
	auto line = [&]( size_t i ) { size_t a = ln[i], b = i + 1 < ln.size() ? ln[i+1] : c.size(); return c.substr( a, b - a ); };
	if( c.empty() && kind != 4 ) { c = "x"; return; }
	switch( kind )
	{
	    case 0: c.resize( g.below( c.size() ) ); count( "fault.truncated" ); break;
	    case 1: for( int n = 1 + g.below( 3 ); n > 0; n-- ) c[g.below( c.size() )] ^= 1 << g.below( 8 ); count( "fault.bit-flip" ); break;
	    case 2: { size_t a = g.below( c.size() ), n = 1 + g.below( 512 ); for( size_t i=a;i<c.size() && i<a+n;i++ ) c[i] = 0; count( "fault.zeroed" ); break; }
	    case 3: { size_t n = 1 + g.below( 300 ); for( size_t i=0;i<n;i++ ) c.push_back( g.below( 256 ) ); count( "fault.appended" ); break; }
	    case 4: c.clear(); count( "fault.emptied" ); break;
	    case 5: { size_t i = g.below( ln.size() ); c.erase( ln[i], line( i ).size() ); count( "fault.line-lost" ); break; }
	    case 6: { size_t i = g.below( ln.size() ), j = g.below( ln.size() ); c.insert( ln[j], line( i ) ); count( "fault.line-copied" ); break; }
	    case 7: { size_t i = g.below( ln.size() ), j = g.below( ln.size() ); if( i > j ) std::swap( i, j ); std::string a = line( i ), b = line( j ); if( i != j ) { c.replace( ln[j], b.size(), a ); c.replace( ln[i], a.size(), b ); } count( "fault.lines-swapped" ); break; }
	    case 8:
	    {
		// another id or class in place of one
		if( ids.empty() ) break; std::vector<std::pair<size_t,size_t> > at;
		for( size_t k=0;k<ids.size();k++ ) for( size_t p = 0; ( p = c.find( ids[k], p ) ) != std::string::npos; p++ ) at.push_back( std::make_pair( p, ids[k].size() ) );
		if( at.empty() ) break;
		std::pair<size_t,size_t> q = at[g.below( at.size() )]; c.replace( q.first, q.second, ids[g.below( ids.size() )] ); count( "fault.id-damaged" ); break;
	    }
	    case 9:
	    {
		// another number
		std::vector<std::pair<size_t,size_t> > at;
		for( size_t i=0;i<c.size(); ) { if( isNum( c[i] ) ) { size_t b = i; while( i < c.size() && isNum( c[i] ) ) i++; at.push_back( std::make_pair( b, i - b ) ); } else i++; }
		if( at.empty() ) break;
		static const char* v[] = { "0", "-1", "1", "4294967296", "18446744073709551615", "1e300", "nan", "2", "", "7", "100000000", "-0.5" };
		std::pair<size_t,size_t> q = at[g.below( at.size() )]; c.replace( q.first, q.second, v[g.below( 12 )] ); count( "fault.number-damaged" ); break;
	    }
	    case 10: { size_t i = g.below( ln.size() ), n = 1 + g.below( ln.size() - i ); size_t b = i + n < ln.size() ? ln[i+n] : c.size(); c.erase( ln[i], b - ln[i] ); count( "fault.section-lost" ); break; }
	}
    }
    // another item in a link, some other links lost
    void rewire( std::string& c, Rng& g, const std::vector<std::string>& ids )
    {
	static const char* keys[] = { "child: ", "child: ", "parent: ", "node: ", "map: ", "layer: ", "operator: " };
	size_t start = c.find( "links:" ); if( start == std::string::npos || ids.empty() ) return;
	int lost = g.below( 4 );
	for( int i=0;i<lost;i++ )
	{
	    std::vector<size_t> at; for( size_t p = start; ( p = c.find( "\n- ", p ) ) != std::string::npos; p++ ) at.push_back( p );
	    if( at.size() < 2 ) break;
	    size_t k = g.below( at.size() - 1 ); c.erase( at[k], at[k+1] - at[k] );
	}
	std::string key = keys[g.below( 7 )]; std::vector<size_t> at; for( size_t p = start; ( p = c.find( key, p ) ) != std::string::npos; p++ ) at.push_back( p + key.size() );
	if( at.empty() ) return;
	size_t a = at[g.below( at.size() )], b = c.find( '\n', a ); if( b == std::string::npos ) b = c.size();
	c.replace( a, b - a, g.chance( 1, 3 ) ? "/0" : ids[g.below( ids.size() )] ); count( "fault.link-rewired" );
    }
    // elements of a list are lost
    bool shorten( std::string& c, Rng& g )
    {
	std::vector<size_t> at; for( size_t p = 0; ( p = c.find( '[', p ) ) != std::string::npos; p++ ) at.push_back( p );
	if( at.empty() ) return false;
	size_t a = at[g.below( at.size() )], b = c.find( ']', a ); if( b == std::string::npos ) return false;
	int n = 1 + g.below( g.chance( 1, 2 ) ? 4 : 20 );
	for( int i=0;i<n;i++ ) { size_t k = c.rfind( ',', b ); if( k == std::string::npos || k < a ) break; c.erase( k, b - k ); b = k; }
	count( "fault.list-shortened" ); return true;
    }
    bool opDamage( const Op& op )
    {
	int s = op.a[0] % 3; if( !scene[s].any ) return true;
	std::vector<std::string> ids; Rng w( op.a[1] );
	for( auto& x : scene[s].facts ) { if( x.first.compare( 0, 5, "item " ) == 0 ) { ids.push_back( x.first.substr( 5 ) ); if( w.chance( 1, 4 ) ) ids.push_back( x.second ); } }
	int variants = op.a[3] ? op.a[3] : 1;
	for( int v=0;v<variants;v++ ) damaged( s, op, w.next() & 0x3fffffff, ids, v == 0 );
	return true;
    }
    void damaged( int s, const Op& op, long seed, const std::vector<std::string>& ids, bool full )
    {
	Rng g( seed ); std::string img = "d/img";
	copyTree( sceneDir[s], img );
	std::vector<std::string> n; listDir( img, n );
	int rounds = g.chance( 1, 4 ) ? 2 + g.below( 3 ) : 1;
	for( int r=0;r<rounds && !n.empty();r++ )
	{
	    // the structure file decides most, so it is hit more often than its share
	    std::string name = n[g.below( n.size() )]; if( g.chance( 1, 3 ) ) for( size_t i=0;i<n.size();i++ ) if( n[i].find( ".yml" ) != std::string::npos ) name = n[i];
	    std::string path = img + "/" + name; long kind = g.below( name.find( ".yml" ) == std::string::npos ? 17 : 23 ); if( kind >= 17 ) kind = kind % 2 ? 15 : 16;
	    if( kind == 16 ) { std::string c = readFile( path ); if( name.find( ".yml" ) == std::string::npos || !shorten( c, g ) ) kind = 9; else { writeFile( path, c ); continue; } } if( kind == 15 ) { if( name.find( ".yml" ) == std::string::npos ) kind = 8; else { std::string c = readFile( path ); rewire( c, g, ids ); writeFile( path, c ); continue; } }
	    if( kind == 11 ) { if( op.a[2] % 2 ) makeDir( "d/none" ); unlinkFile( path ); count( "fault.file-lost" ); }
	    else if( kind == 12 )
	    {
		// a file of another scene or another save
		int o = ( s + 1 + g.below( 2 ) ) % 3; std::vector<std::string> m; listDir( sceneDir[o], m ); if( !scene[o].any || m.empty() ) continue;
		std::string from = m[g.below( m.size() )]; for( size_t i=0;i<m.size();i++ ) if( m[i] == name ) from = name;
		writeFile( path, readFile( std::string( sceneDir[o] ) + "/" + from ) ); count( "fault.mixed-generation" );
	    }
	    else if( kind == 13 ) { unlinkFile( path ); makeDir( path ); count( "fault.directory" ); n.erase( std::find( n.begin(), n.end(), name ) ); }
	    else if( kind == 14 ) { std::string o = n[g.below( n.size() )]; std::string a = readFile( path ), b = readFile( img + "/" + o ); writeFile( path, b ); writeFile( img + "/" + o, a ); count( "fault.files-swapped" ); }
	    else { std::string c = readFile( path ); damage( c, name, kind, g, ids ); writeFile( path, c ); }
	}
	tryImage( img, 0, seed, "a damaged scene", full );
	removeTree( img );
    }
    void unlinkFile( const std::string& p );
    bool opReadFault( const Op& op )
    {
	int s = op.a[0] % 3; if( !scene[s].any ) return true;
	faultsOff();
	Environment* env = load( sceneDir[s] ); if( !env ) violation( "load-refused", "a saved scene can not be loaded: " + lastErr );
	drop( env );
	long reads = diskReads, opens = diskReadOpens;
	diskFaults.active = true;
	if( op.a[1] % 2 ) diskFaults.failReadAt = 1 + op.a[2] % ( reads + 1 ); else diskFaults.failReadOpenAt = 1 + op.a[2] % ( opens + 1 );
	diskFaults.stick = op.a[3] % 2; diskFaults.shortIo = op.a[4] % 2; diskFaults.eintr = op.a[4] % 3 == 0; diskFaults.ioSeed = op.a[5]; diskResetCounters();
	Environment* l = load( sceneDir[s] ); bool fired = diskFaultFired();
	faultsOff();
	if( !l && !fired ) violation( "load-refused", "a saved scene can not be loaded: " + lastErr );
	count( l ? "load.accepted" : "load.rejected" );
	if( l && !fired ) same( scene[s].facts, l, "the loaded scene differs from what was saved" );
	if( l ) use( l, op.a[5] );
	return true;
    }
    bool extraOp( const Op& op )
    {
	if( op.kind == "save" ) return opSave( op );
	if( op.kind == "load" ) return opLoad( op );
	if( op.kind == "fsave" ) return opFaultySave( op );
	if( op.kind == "crash" ) return opCrash( op );
	if( op.kind == "damage" ) return opDamage( op );
	if( op.kind == "rfault" ) return opReadFault( op );
	return false;
    }
};
}
#include <unistd.h>
#include <sys/syscall.h>
namespace
{
void DiskEngine::unlinkFile( const std::string& p ) { syscall( SYS_unlink, p.c_str() ); }

void common( Plan& p, Rng& r, bool th, std::vector<Op>& base )
{
    p.aseed = r.next() & 0xffffffff; p.cfg["reuse"] = r.chance( 1, 2 );
    Weights w; w.mod = 8; w.trans = 6; w.frame = 18; w.layer = 10; w.place = 14; w.detach = 6; w.attach = 24; w.assign = 2; w.clone = 1; w.hold = 3; w.label = 6; w.op = 6; w.prefix = 2;
    std::vector<int> k; for( int i=0;i<4;i++ ) k.push_back( K_FRAME ); for( int i=0;i<2;i++ ) { k.push_back( K_MAP ); k.push_back( K_LAYER ); }
    int maps = r.below( 5 ); for( int i=0;i<maps;i++ ) k.push_back( K_CLOUD + r.below( K_GH - K_CLOUD + 1 ) );
    if( r.chance( 1, 2 ) ) { k.push_back( K_OP ); k.push_back( K_OP1 ); k.push_back( K_OP2 ); }
    if( r.chance( 1, 3 ) ) { k.push_back( K_FEAT ); k.push_back( r.chance( 2, 3 ) ? K_MLSMAP : K_SEG ); }
    genOps( p, r, runLength( r, th, 60 ), w, k );
    base = p.ops; p.ops.clear();
}
Plan genRound( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; std::vector<Op> b; common( p, r, th, b );
    int every = 2 + r.below( 10 );
    for( size_t i=0;i<b.size();i++ )
    {
	p.ops.push_back( b[i] );
	if( r.chance( 1, every ) ) p.add( "save", r.below( 3 ), r.below( 4 ), r.below( 1u << 30 ), r.below( 4 ) );
	if( r.chance( 1, every ) ) p.add( "load", r.below( 3 ), r.below( 4 ), r.below( 1u << 30 ), r.below( 6 ), r.below( 4 ) );
    }
    p.add( "save", 0, r.below( 4 ), r.below( 1u << 30 ) ); p.add( "load", 0, r.below( 4 ), r.below( 1u << 30 ), 1 );
    return p;
}
Plan genFaults( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; std::vector<Op> b; common( p, r, th, b );
    int every = 2 + r.below( 8 );
    for( size_t i=0;i<b.size();i++ )
    {
	p.ops.push_back( b[i] );
	if( r.chance( 1, every ) ) p.add( "fsave", r.below( 3 ), r.below( 7 ), r.below( 1u << 30 ), r.below( 4 ), r.below( 30 ), r.below( 1u << 30 ) );
    }
    for( int i=0;i<4;i++ ) p.add( "fsave", 0, r.below( 7 ), r.below( 1u << 30 ), 0, r.below( 30 ), r.below( 1u << 30 ) );
    return p;
}
Plan genCrash( uint64_t seed, bool th )
{
    Rng r( seed ); Plan p; p.seed = seed; std::vector<Op> b; common( p, r, th, b );
    int every = 2 + r.below( 8 ); bool crashes = r.chance( 1, 2 );
    for( size_t i=0;i<b.size();i++ )
    {
	p.ops.push_back( b[i] );
	if( !r.chance( 1, every ) ) continue;
	if( r.chance( 1, 3 ) ) p.add( "save", r.below( 3 ), 0, 1, r.below( 4 ) );
	if( crashes ) p.add( "crash", r.below( 3 ), r.below( 100 ), r.below( 4 ), r.below( 4 ), r.below( 4 ), r.below( 1u << 30 ) );
	else if( r.chance( 1, 4 ) ) p.add( "rfault", r.below( 3 ), r.below( 2 ), r.below( 1u << 30 ), r.below( 2 ), r.below( 6 ), r.below( 1u << 30 ) );
	else p.add( "damage", r.below( 3 ), r.below( 1u << 30 ), r.below( 2 ), 1 + r.below( 8 ) );
    }
    p.add( "save", 0, 0, 1 ); p.add( "save", 1, 0, 1 );
    for( int i=0;i<4;i++ )
    {
	if( crashes ) p.add( "crash", r.below( 2 ), r.below( 100 ), r.below( 4 ), 0, r.below( 4 ), r.below( 1u << 30 ) );
	else p.add( "damage", r.below( 2 ), r.below( 1u << 30 ), r.below( 2 ), 1 + r.below( 8 ) );
    }
    return p;
}
void run( const Plan& p )
{
    memBegin( p.aseed, p.get( "reuse" ) ); diskScratch(); leakBegin();
    DiskEngine e( p ); e.newEnv(); e.check();
    e.runAll();
    e.finish();
}
WorkloadReg r04( "roundtrip", genRound, run ); WorkloadReg r05( "diskfaults", genFaults, run ); WorkloadReg r06( "crash", genCrash, run );
}
