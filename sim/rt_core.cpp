// Plans, results, process-per-run execution, command line.
#include "rt.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <time.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_set>
#include <algorithm>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:symbolize=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:"
	"max_allocation_size_mb=512:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=1:"
	"quarantine_size_mb=8:malloc_context_size=8:handle_segv=1:detect_odr_violation=0:print_legend=0:print_full_thread_history=0";
}

namespace sim
{
uint64_t hashBytes( const void* p, size_t n, uint64_t h )
{
    const unsigned char* c = static_cast<const unsigned char*>( p );
    h = mix( h, n );
    while( n >= 8 ) { uint64_t v; memcpy( &v, c, 8 ); h = mix( h, v ); c += 8; n -= 8; }
    if( n ) { uint64_t v = 0; memcpy( &v, c, n ); h = mix( h, v ); }
    return h;
}
std::string fmt( const char* f, ... )
{
    char buf[4096]; va_list ap; va_start( ap, f ); vsnprintf( buf, sizeof buf, f, ap ); va_end( ap );
    return buf;
}
std::string Plan::text() const
{
    std::ostringstream o;
    o << "workload " << workload << "\nseed " << seed << "\naseed " << aseed << "\n";
    for( std::map<std::string,long>::const_iterator it = cfg.begin(); it != cfg.end(); ++it )
	o << "cfg " << it->first << " " << it->second << "\n";
    for( size_t i=0;i<ops.size();i++ )
    {
	o << "op " << ops[i].kind;
	int last = 5; while( last >= 0 && ops[i].a[last] == 0 ) last--;
	for( int k=0;k<=last;k++ ) o << " " << ops[i].a[k];
	o << "\n";
    }
    return o.str();
}
Plan Plan::parse( const std::string& text )
{
    Plan p; std::istringstream in( text ); std::string line;
    while( std::getline( in, line ) )
    {
	if( line.empty() || line[0] == '#' ) continue;
	std::istringstream l( line ); std::string w; l >> w;
	if( w == "workload" ) l >> p.workload;
	else if( w == "seed" ) l >> p.seed;
	else if( w == "aseed" ) l >> p.aseed;
	else if( w == "cfg" ) { std::string k; long v; l >> k >> v; p.cfg[k] = v; }
	else if( w == "op" ) { Op op; l >> op.kind; for( int i=0;i<6;i++ ) { long v; if( l >> v ) op.a[i] = v; } p.ops.push_back( op ); }
	else { fprintf( stderr, "bad plan line: %s\n", line.c_str() ); exit( 3 ); }
    }
    return p;
}
static std::vector<Workload>& workloads() { static std::vector<Workload> w; return w; }
void registerWorkload( const Workload& w ) { workloads().push_back( w ); }

// ---- result shared between run process and parent
enum { MAXC = 160, MAXS = 4096 };
struct Shared
{
    int done;            // 1 = run finished normally, 2 = violation, 3 = simulator error
    uint64_t hash;
    char klass[200];
    char msg[6000];
    char op[64]; uint64_t opIndex; char stage[64];
    int nc; char cname[MAXC][40]; uint64_t cval[MAXC];
    int ns; uint64_t st[MAXS];
    int64_t simUs;
};
static Shared* sh = 0;
bool g_trace = false;

void violation( const std::string& klass, const std::string& msg )
{
    if( sh )
    {
	snprintf( sh->klass, sizeof sh->klass, "%s", klass.c_str() );
	snprintf( sh->msg, sizeof sh->msg, "%s (at op %llu %s)", msg.c_str(), (unsigned long long)sh->opIndex, sh->op );
	sh->done = 2;
	sh->simUs = sim_clock_us();
    }
    _exit( 42 );
}
void simError( const std::string& msg )
{
    if( sh ) { snprintf( sh->msg, sizeof sh->msg, "%s", msg.c_str() ); sh->done = 3; }
    fprintf( stderr, "SIM ERROR: %s\n", msg.c_str() );
    _exit( 43 );
}
void count( const char* name, uint64_t n )
{
    for( int i=0;i<sh->nc;i++ )
	if( !strcmp( sh->cname[i], name ) ) { sh->cval[i] += n; return; }
    if( sh->nc < MAXC ) { snprintf( sh->cname[sh->nc], 40, "%s", name ); sh->cval[sh->nc++] = n; }
}
void note( uint64_t v ) { sh->hash = mix( sh->hash, v ); }
void note( const std::string& s ) { sh->hash = hashStr( s, sh->hash ); }
void state( uint64_t h ) { note( h ); if( sh->ns < MAXS ) sh->st[sh->ns++] = h; }
uint64_t traceHash() { return sh->hash; }
void tracef( const char* f, ... )
{
    if( !g_trace ) return;
    va_list ap; va_start( ap, f ); vfprintf( stderr, f, ap ); va_end( ap ); fputc( '\n', stderr );
}
void curOp( size_t index, const std::string& kind )
{
    sh->opIndex = index; snprintf( sh->op, sizeof sh->op, "%s", kind.c_str() ); sh->stage[0] = 0;
    if( g_trace ) fprintf( stderr, "--- op %zu %s\n", index, kind.c_str() );
}
void setStage( const char* w ) { snprintf( sh->stage, sizeof sh->stage, "%s", w ); if( g_trace ) fprintf( stderr, "    stage %s\n", w ); }

struct Outcome
{
    int kind;              // 0 ok, 1 violation, 2 simulator error
    std::string klass, msg, err;
    uint64_t hash;
};
static std::string firstMatch( const std::string& s, const std::string& key )
{
    size_t p = s.find( key ); if( p == std::string::npos ) return "";
    size_t e = s.find( '\n', p ); return s.substr( p, e == std::string::npos ? std::string::npos : e - p );
}
// removes the scratch directory of a finished run
static void rmScratch( const std::string& p, int depth = 0 )
{
    if( p.compare( 0, 14, "/dev/shm/vsim." ) || p.find( ".." ) != std::string::npos || depth > 8 ) return;
    DIR* d = opendir( p.c_str() ); if( !d ) return;
    while( struct dirent* e = readdir( d ) )
    {
	std::string n = e->d_name; if( n == "." || n == ".." ) continue;
	std::string q = p + "/" + n; struct stat st;
	if( lstat( q.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) ) rmScratch( q, depth + 1 ); else unlink( q.c_str() );
    }
    closedir( d ); rmdir( p.c_str() );
}
static int g_cpuLimit = 20;

static Outcome runOnce( const Plan& p )
{
    Outcome o; o.kind = 0; o.hash = 0;
    const Workload* w = 0;
    for( size_t i=0;i<workloads().size();i++ ) if( p.workload == workloads()[i].name ) w = &workloads()[i];
    if( !w ) { o.kind = 2; o.msg = "unknown workload " + p.workload; return o; }
    memset( sh, 0, sizeof( Shared ) );
    sh->hash = 0xABCDEF;
    static int errfd = -1;
    if( errfd < 0 ) errfd = memfd_create( "err", 0 );
    if( ftruncate( errfd, 0 ) ) {}
    lseek( errfd, 0, SEEK_SET );
    fflush( stdout ); fflush( stderr );
    pid_t pid = fork();
    if( pid == 0 )
    {
	if( !g_trace ) dup2( errfd, 2 ), dup2( errfd, 1 );
	struct rlimit rl; rl.rlim_cur = g_cpuLimit; rl.rlim_max = g_cpuLimit + 2; setrlimit( RLIMIT_CPU, &rl );
	rl.rlim_cur = rl.rlim_max = 0; setrlimit( RLIMIT_CORE, &rl );
	alarm( 240 );
	w->run( p );
	memEnd();
	sh->simUs = sim_clock_us();
	sh->done = 1;
	_exit( 0 );
    }
    if( pid < 0 ) { o.kind = 2; o.msg = "fork failed"; return o; }
    int st = 0;
    while( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
    rmScratch( fmt( "/dev/shm/vsim.%07d", (int)pid ) );
    o.hash = sh->hash;
    if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && sh->done == 1 ) return o;
    {
	off_t n = lseek( errfd, 0, SEEK_END ); size_t take = n > 60000 ? 60000 : n;
	o.err.resize( take ); if( take && pread( errfd, &o.err[0], take, n - take ) < 0 ) o.err.clear();
    }
    if( sh->done == 2 ) { o.kind = 1; o.klass = sh->klass; o.msg = sh->msg; return o; }
    if( sh->done == 3 ) { o.kind = 2; o.msg = sh->msg; return o; }
    o.kind = 1;
    std::string where = std::string( sh->op ) + ( sh->stage[0] ? std::string( "/" ) + sh->stage : "" );
    if( WIFEXITED( st ) && WEXITSTATUS( st ) == 99 )
    {
	std::string l = firstMatch( o.err, "ERROR: AddressSanitizer: " );
	std::istringstream ls( l.size() > 25 ? l.substr( 25 ) : "" ); std::string k; ls >> k;
	o.klass = "memory-error:" + k;
	o.msg = "invalid memory access (" + k + ") in " + where;
	if( k == "out-of-memory" || k == "allocation-size-too-big" ) o.klass = "memory-error:allocation";
    }
    else if( WIFSIGNALED( st ) )
    {
	int sg = WTERMSIG( st );
	if( sg == SIGXCPU || sg == SIGKILL || sg == SIGALRM ) { o.klass = "hang"; o.msg = "no progress within the step budget in " + where; }
	else if( sg == SIGABRT )
	{
	    std::string l = firstMatch( o.err, "Assertion `" ), t = firstMatch( o.err, "terminate called" );
	    o.klass = !l.empty() ? "assertion" : "terminate";
	    o.msg = ( !l.empty() ? l : t ) + " in " + where;
	}
	else { o.klass = fmt( "signal-%d", sg ); o.msg = fmt( "killed by signal %d in %s", sg, where.c_str() ); }
    }
    else { o.klass = "exit"; o.msg = fmt( "process exited with status %d in %s", WEXITSTATUS( st ), where.c_str() ); }
    o.hash = mix( hashStr( o.klass ), hashStr( where, o.hash ) );
    return o;
}
static std::string jesc( const std::string& s )
{
    std::string r;
    for( size_t i=0;i<s.size();i++ )
    {
	unsigned char c = s[i];
	if( c == '"' || c == '\\' ) { r += '\\'; r += c; }
	else if( c == '\n' ) r += "\\n";
	else if( c < 32 || c >= 127 ) r += fmt( "\\u%04x", c );
	else r += c;
    }
    return r;
}
static double now() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void report( const Outcome& o )
{
    printf( "{\"kind\":%d,\"klass\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"err\":\"%s\"}\n", o.kind,
	    jesc( o.klass ).c_str(), jesc( o.msg ).c_str(), (unsigned long long)o.hash, jesc( o.kind ? o.err.substr( 0, 20000 ) : "" ).c_str() );
}
}
using namespace sim;
int main( int argc, char** argv )
{
    // fixed address space layout: nothing may depend on addresses outside the arena anyway
    int pers = personality( 0xffffffff );
    if( pers != -1 && !( pers & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_REEXEC" ) )
    {
	if( personality( pers | ADDR_NO_RANDOMIZE ) != -1 ) { setenv( "SIM_REEXEC", "1", 1 ); execv( "/proc/self/exe", argv ); }
    }
    sh = static_cast<Shared*>( mmap( 0, sizeof( Shared ), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 ) );
    std::string wl, replay, statesOut; uint64_t start = 1, stride = 1; long maxRuns = 1000000000; double secs = 1e9; bool thorough = false, gen = false;
    long stopAfter = 1; bool detCheck = false; int every = 0;
    for( int i=1;i<argc;i++ )
    {
	std::string a = argv[i];
	#define NEXT ( i+1 < argc ? argv[++i] : "" )
	if( a == "--workload" ) wl = NEXT;
	else if( a == "--start" ) start = strtoull( NEXT, 0, 10 );
	else if( a == "--stride" ) stride = strtoull( NEXT, 0, 10 );
	else if( a == "--runs" ) maxRuns = atol( NEXT );
	else if( a == "--secs" ) secs = atof( NEXT );
	else if( a == "--thorough" ) thorough = true;
	else if( a == "--replay" ) replay = NEXT;
	else if( a == "--gen" ) gen = true;
	else if( a == "--trace" ) g_trace = true;
	else if( a == "--states" ) statesOut = NEXT;
	else if( a == "--stop" ) stopAfter = atol( NEXT );
	else if( a == "--det" ) every = atoi( NEXT );
	else if( a == "--list" ) { for( size_t k=0;k<workloads().size();k++ ) puts( workloads()[k].name ); return 0; }
	else { fprintf( stderr, "unknown argument %s\n", a.c_str() ); return 3; }
    }
    (void)detCheck;
    if( !replay.empty() )
    {
	std::ifstream f( replay.c_str() ); if( !f ) { fprintf( stderr, "cannot read %s\n", replay.c_str() ); return 3; }
	std::stringstream ss; ss << f.rdbuf();
	Plan p = Plan::parse( ss.str() );
	Outcome o = runOnce( p );
	report( o );
	return o.kind == 0 ? 0 : o.kind == 1 ? 1 : 2;
    }
    const Workload* w = 0;
    for( size_t i=0;i<workloads().size();i++ ) if( wl == workloads()[i].name ) w = &workloads()[i];
    if( !w ) { fprintf( stderr, "no workload %s\n", wl.c_str() ); return 3; }
    std::unordered_set<uint64_t> states, traces; std::map<std::string,uint64_t> counters;
    uint64_t runs = 0, simUs = 0, ops = 0, detOk = 0; long viol = 0; double t0 = now();
    for( uint64_t s = start; (long)runs < maxRuns && now() - t0 < secs; s += stride )
    {
	Plan p = w->gen( s, thorough );
	p.workload = wl; p.seed = s;
	if( gen ) { fputs( p.text().c_str(), stdout ); return 0; }
	Outcome o = runOnce( p );
	runs++; ops += p.ops.size(); simUs += sh->simUs;
	for( int i=0;i<sh->nc;i++ ) counters[sh->cname[i]] += sh->cval[i];
	for( int i=0;i<sh->ns;i++ ) states.insert( sh->st[i] );
	traces.insert( o.hash );
	if( every && o.kind == 0 && runs % every == 0 )
	{
	    Outcome o2 = runOnce( p );
	    if( o2.kind != o.kind || o2.hash != o.hash )
	    {
		printf( "{\"event\":\"nondeterminism\",\"seed\":%llu,\"h1\":\"%016llx\",\"h2\":\"%016llx\"}\n", (unsigned long long)s, (unsigned long long)o.hash, (unsigned long long)o2.hash );
		fflush( stdout ); return 2;
	    }
	    detOk++;
	}
	if( o.kind )
	{
	    printf( "{\"event\":\"%s\",\"seed\":%llu,\"klass\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"err\":\"%s\",\"plan\":\"%s\"}\n", o.kind == 1 ? "violation" : "error",
		    (unsigned long long)s, jesc( o.klass ).c_str(), jesc( o.msg ).c_str(), (unsigned long long)o.hash, jesc( o.err.substr( 0, 12000 ) ).c_str(), jesc( p.text() ).c_str() );
	    fflush( stdout );
	    if( o.kind == 2 ) return 2;
	    if( ++viol >= stopAfter ) break;
	}
    }
    if( !statesOut.empty() )
    {
	FILE* f = fopen( statesOut.c_str(), "wb" );
	if( f ) { for( std::unordered_set<uint64_t>::iterator it = states.begin(); it != states.end(); ++it ) { uint64_t v = *it; fwrite( &v, 8, 1, f ); } fclose( f ); }
    }
    printf( "{\"event\":\"summary\",\"runs\":%llu,\"ops\":%llu,\"secs\":%.3f,\"sim_us\":%llu,\"states\":%zu,\"traces\":%zu,\"violations\":%ld,\"det\":%llu,\"counters\":{",
	    (unsigned long long)runs, (unsigned long long)ops, now() - t0, (unsigned long long)simUs, states.size(), traces.size(), viol, (unsigned long long)detOk );
    bool first = true;
    for( std::map<std::string,uint64_t>::iterator it = counters.begin(); it != counters.end(); ++it )
    { printf( "%s\"%s\":%llu", first ? "" : ",", it->first.c_str(), (unsigned long long)it->second ); first = false; }
    printf( "}}\n" );
    return viol ? 1 : 0;
}
