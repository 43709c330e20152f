// Simulator runtime: PRNG, plans, memory, disk, clock, threads, results.
#ifndef SIM_RT_HPP
#define SIM_RT_HPP
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <set>

namespace sim
{
// ------------------------------------------------------------- randomness
struct Rng
{
    uint64_t s;
    explicit Rng( uint64_t seed = 1 ) : s( seed ^ 0x5DEECE66D1234567ull )
    {
	// neighbouring seeds must not give shifted copies of one sequence
	s = ( s ^ ( s >> 33 ) ) * 0xFF51AFD7ED558CCDull; s = ( s ^ ( s >> 33 ) ) * 0xC4CEB9FE1A85EC53ull; s ^= s >> 33;
    }
    uint64_t next()
    {
	uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
	z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
	z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
	return z ^ ( z >> 31 );
    }
    uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
    bool chance( unsigned num, unsigned den ) { return below( den ) < num; }
    double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
};
inline uint64_t mix( uint64_t h, uint64_t v )
{
    h ^= v + 0x9E3779B97F4A7C15ull + ( h << 6 ) + ( h >> 2 );
    h *= 0xFF51AFD7ED558CCDull; h ^= h >> 32;
    return h;
}
uint64_t hashBytes( const void* p, size_t n, uint64_t h = 0x1234 );
inline uint64_t hashStr( const std::string& s, uint64_t h = 0x77 ) { return hashBytes( s.data(), s.size(), h ); }

// ------------------------------------------------------------- plans
struct Op
{
    std::string kind;
    long a[6];
    Op() { for( int i=0;i<6;i++ ) a[i] = 0; }
    Op( const std::string& k, long a0=0, long a1=0, long a2=0, long a3=0, long a4=0, long a5=0 ) : kind( k )
    { a[0]=a0; a[1]=a1; a[2]=a2; a[3]=a3; a[4]=a4; a[5]=a5; }
};
struct Plan
{
    std::string workload;
    uint64_t seed, aseed;
    std::map<std::string,long> cfg;
    std::vector<Op> ops;
    Plan() : seed( 0 ), aseed( 0 ) {}
    long get( const std::string& k, long dflt = 0 ) const
    { std::map<std::string,long>::const_iterator it = cfg.find( k ); return it == cfg.end() ? dflt : it->second; }
    void add( const std::string& k, long a0=0, long a1=0, long a2=0, long a3=0, long a4=0, long a5=0 )
    { ops.push_back( Op( k, a0, a1, a2, a3, a4, a5 ) ); }
    std::string text() const;
    static Plan parse( const std::string& text );
};
struct Workload
{
    const char* name;
    Plan (*gen)( uint64_t seed, bool thorough );
    void (*run)( const Plan& );
};
void registerWorkload( const Workload& w );
struct WorkloadReg { WorkloadReg( const char* n, Plan(*g)(uint64_t,bool), void(*r)(const Plan&) ) { Workload w = { n, g, r }; registerWorkload( w ); } };

// ------------------------------------------------------------- results of a run (inside the run)
void violation( const std::string& klass, const std::string& msg ) __attribute__((noreturn));
void simError( const std::string& msg ) __attribute__((noreturn));   // harness defect, never a verdict
void count( const char* name, uint64_t n = 1 );     // counters (ops, faults that fired)
void state( uint64_t h );                          // a state reached; also enters the trace hash
void note( uint64_t v );                           // enters the trace hash
void note( const std::string& s );
void tracef( const char* fmt, ... ) __attribute__((format(printf,1,2)));
void curOp( size_t index, const std::string& kind );   // for crash classification
void setStage( const char* what );                     // sub-stage inside an op
std::string fmt( const char* f, ... ) __attribute__((format(printf,1,2)));
extern bool g_trace;
uint64_t traceHash();

// ------------------------------------------------------------- memory
void memBegin( uint64_t aseed, bool reuse );        // called once, in the run process
void memEnd();
void memLibrary( bool lib );                        // allocations from now on belong to the library?
struct LibScope { bool old; LibScope(); ~LibScope(); };
struct HarnessScope { bool old; HarnessScope(); ~HarnessScope(); };
void memJunk( unsigned char byte );                 // what new blocks and the unused stack contain
uint64_t memAllocCount();                           // library allocations so far
void memFailAt( uint64_t nth, bool persistent );    // nth library allocation from now fails (1 = next)
bool memFailFired();
void memFailOff();
struct LiveBlock { void* ptr; size_t size; uint64_t seq; };
void memLive( std::vector<LiveBlock>& out, bool libraryOnly );  // live arena blocks
bool memInArena( const void* p );
bool memIsLive( const void* p );                     // p is the start of a live block
uint64_t memBlockSeq( const void* p );               // allocation number of the block at p
extern unsigned char* covMap;                        // control-flow edges of the code under test
extern const unsigned covMask;
uint64_t schedTrace();
uint64_t memSeq();
extern size_t memLimit;                              // larger single allocations fail

// ------------------------------------------------------------- clock
void clockSet( int64_t us );
void clockAdvance( int64_t us );

// ------------------------------------------------------------- disk
struct DiskOp { enum Kind { CREATE, WRITE, RENAME, UNLINK, MKDIR, CLOSE } kind; std::string path, path2; uint64_t off; std::string data; };
struct DiskFaults
{
    bool active;
    long failOpenAt;        // n-th file creation/open for writing fails (0 = never)
    long failReadOpenAt;    // n-th open for reading fails
    long byteBudget;        // ENOSPC after so many bytes (-1 = unlimited)
    long failWriteAt;       // n-th write call fails with EIO
    long failCloseAt;       // n-th close of a written file fails
    long failReadAt;        // n-th read call fails with EIO
    long lostWriteAt;       // n-th write: error is only reported when the file is closed
    bool shortIo;           // reads and writes are split
    bool eintr;             // reads and writes are interrupted
    bool stick;             // a write error stays
    uint64_t ioSeed;
    DiskFaults() { reset(); }
    void reset();
};
extern DiskFaults diskFaults;
void diskBegin( const std::string& root );           // paths under root are simulated disk
void diskScratch();                                 // private scratch directory, simulated disk is "d/" in it
void diskResetCounters();
extern long diskOpens, diskReadOpens, diskWrites, diskReads, diskCloses, diskBytes;
bool diskFaultFired();
extern bool diskRecord; extern std::vector<DiskOp> diskLog;
long diskOpenFiles();                                // files of the simulated disk currently open
std::string diskRoot();
std::string readFile( const std::string& p );
void writeFile( const std::string& p, const std::string& data );
void listDir( const std::string& p, std::vector<std::string>& names );
void removeTree( const std::string& p );
void copyTree( const std::string& from, const std::string& to );
void makeDir( const std::string& p );

// ------------------------------------------------------------- threads
void schedBegin( const Plan& p );                   // takes preemptions from the plan
int  schedSpawn( void (*fn)( void* ), void* arg );   // returns thread index (1..)
void schedRun();                                     // run all spawned threads to completion
void schedPoint( const char* what );                 // explicit scheduling point
bool schedActive();
void schedYield();                                   // let another thread run
struct PreemptScope { bool old; explicit PreemptScope( bool on ); ~PreemptScope(); };   // preemption happens only where it is switched on
}
extern "C" int64_t sim_clock_us();
#endif
