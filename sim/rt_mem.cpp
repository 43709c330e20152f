// Simulated heap: block placement, reuse and allocation failure are decided by
// the run's allocation seed. This file is compiled without -fsanitize=address.
#include "rt.hpp"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <new>
#include <execinfo.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void __asan_poison_memory_region( void const volatile*, size_t );
extern "C" void __asan_unpoison_memory_region( void const volatile*, size_t );
extern "C" void* __real_malloc( size_t );
extern "C" void* __real_calloc( size_t, size_t );
extern "C" void* __real_realloc( void*, size_t );
extern "C" void __real_free( void* );
extern "C" char __executable_start;

namespace
{
__thread bool lib = false;
// addresses of a failing allocation, for addr2line
void where() { lib = false; void* a[24]; int n = backtrace( a, 24 ); fprintf( stderr, "alloc fails at" ); for( int i=1;i<n;i++ ) fprintf( stderr, " %p", (void*)( (char*)a[i] - &__executable_start ) ); fprintf( stderr, "\n" ); lib = true; }
enum { ZONES = 16, CLASSES = 40 };
const uintptr_t BASE = 0x300000000000ull;
const uintptr_t ZSIZE = 1ull << 31;                  // 2 GB of address space each, untouched until used
const size_t RZ = 32;
struct Blk { void* ptr; size_t size, cap; uint64_t seq; unsigned char live, lib, zone; };
struct Hdr { uint64_t magic; uint64_t idx; };
bool on = false, reuseOn = false;
uintptr_t bump[ZONES];
Blk* blks = 0; size_t nblk = 0; const size_t MAXBLK = 24u << 20;
sim::Rng rng( 1 );
uint64_t seqNo = 0, libAllocs = 0, failAt = 0; bool failPersist = false, failFired = false, failOn = false;
unsigned char fillByte = 0xCD;
static void __attribute__((noinline,no_sanitize("address"))) stackJunk( unsigned char b ) { volatile char a[65536]; for( size_t i=0;i<sizeof a;i++ ) a[i] = b; }
// per size class stack of free block indices (bounded)
enum { FREECAP = 64 };
size_t freeList[CLASSES][FREECAP]; int freeN[CLASSES];
int lockWord = 0;
inline bool inArena( const void* p ) { uintptr_t a = (uintptr_t)p; return a >= BASE && a < BASE + ZONES * ZSIZE; }
struct Spin { Spin() { while( __sync_lock_test_and_set( &lockWord, 1 ) ) {} } ~Spin() { __sync_lock_release( &lockWord ); } };

int classOf( size_t cap ) { int c = 0; size_t s = 16; while( s < cap && c < CLASSES-1 ) { s = s < 256 ? s + 16 : s + s / 4; s = ( s + 15 ) & ~(size_t)15; c++; } return c; }
size_t capOf( int c ) { size_t s = 16; for( int i=0;i<c;i++ ) { s = s < 256 ? s + 16 : s + s / 4; s = ( s + 15 ) & ~(size_t)15; } return s; }

void* arenaAlloc( size_t n, bool counted )
{
    if( lib && counted )
    {
	libAllocs++;
	if( n > sim::memLimit ) return 0;
	if( failOn && libAllocs >= failAt && ( failPersist || libAllocs == failAt ) ) { if( sim::g_trace && !failFired ) where(); failFired = true; return 0; }
    }
    if( n > ( 1ull << 30 ) ) return 0;
    Spin s;
    size_t cap = ( n + 15 ) & ~(size_t)15; if( !cap ) cap = 16;
    int c = classOf( cap ); if( capOf( c ) >= cap ) cap = capOf( c ); else c = -1;
    Blk* b = 0;
    if( reuseOn && c >= 0 && freeN[c] > 0 && rng.chance( 3, 4 ) )
    {
	int k = rng.chance( 1, 2 ) ? freeN[c] - 1 : (int)rng.below( freeN[c] );
	size_t bi = freeList[c][k]; freeList[c][k] = freeList[c][--freeN[c]];
	b = &blks[bi];
    }
    else
    {
	if( nblk >= MAXBLK ) return 0;
	int z = rng.below( ZONES );
	uintptr_t at = bump[z] + RZ + ( rng.chance( 1, 8 ) ? 16 * rng.below( 16 ) : 0 );
	if( at + cap + RZ > BASE + ( z + 1 ) * ZSIZE ) return 0;
	bump[z] = at + cap;
	b = &blks[nblk]; b->zone = z; b->cap = cap; b->ptr = (void*)at;
	Hdr* h = (Hdr*)( at - sizeof( Hdr ) ); h->magic = 0x5EED5EED5EED5EEDull; h->idx = nblk;
	nblk++;
	__asan_poison_memory_region( (void*)( at - RZ ), RZ + cap + RZ );
    }
    b->size = n; b->live = 1; b->lib = lib; b->seq = ++seqNo;
    __asan_unpoison_memory_region( b->ptr, n );
    memset( b->ptr, fillByte, n );
    return b->ptr;
}
void arenaFree( void* p, const char* how )
{
    Hdr* h = (Hdr*)( (char*)p - sizeof( Hdr ) );
    if( ( (uintptr_t)p & 15 ) || h->magic != 0x5EED5EED5EED5EEDull || h->idx >= nblk || blks[h->idx].ptr != p )
	sim::violation( "memory-error:invalid-free", std::string( "memory released that was never allocated, by " ) + how );
    Blk* b = &blks[h->idx];
    if( !b->live ) sim::violation( "memory-error:double-free", std::string( "the same memory was released twice, by " ) + how );
    Spin s;
    b->live = 0;
    memset( p, 0xDD, b->size );
    __asan_poison_memory_region( p, b->cap );
    if( reuseOn )
    {
	int c = classOf( b->cap );
	if( capOf( c ) == b->cap )
	{
	    if( freeN[c] < FREECAP ) freeList[c][freeN[c]++] = h->idx;
	}
    }
}
void* newImpl( size_t n )
{
    if( !on ) { void* p = __real_malloc( n ? n : 1 ); if( !p ) throw std::bad_alloc(); return p; }
    void* p = arenaAlloc( n, true );
    if( !p ) throw std::bad_alloc();
    return p;
}
void delImpl( void* p ) { if( !p ) return; if( inArena( p ) ) arenaFree( p, "delete" ); else __real_free( p ); }
}
namespace sim
{
size_t memLimit = 64u << 20;
void memBegin( uint64_t aseed, bool reuse )
{
    rng = Rng( aseed * 2654435761u + 17 ); reuseOn = reuse;
    void* p = mmap( (void*)BASE, ZONES * ZSIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0 );
    if( p != (void*)BASE ) { static const char m[] = "arena mmap failed\n"; if( write( 2, m, sizeof m ) ) {} _exit( 43 ); }
    blks = (Blk*)mmap( 0, MAXBLK * sizeof( Blk ), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0 );
    for( int i=0;i<ZONES;i++ ) bump[i] = BASE + i * ZSIZE + 4096;
    static const unsigned char fills[4] = { 0xCD, 0x00, 0x7B, 0xFF };
    fillByte = fills[ rng.below( 4 ) ];
    on = true; lib = false;
}
void memEnd() { failOn = false; }
void memLibrary( bool l ) { lib = l; }
LibScope::LibScope() : old( lib ) { lib = true; }
LibScope::~LibScope() { lib = old; }
HarnessScope::HarnessScope() : old( lib ) { lib = false; }
HarnessScope::~HarnessScope() { lib = old; }
void memJunk( unsigned char b ) { fillByte = b; stackJunk( b ); }
uint64_t memAllocCount() { return libAllocs; }
void memFailAt( uint64_t nth, bool persistent ) { failAt = libAllocs + nth; failPersist = persistent; failFired = false; failOn = nth > 0; }
bool memFailFired() { return failFired; }
void memFailOff() { failOn = false; }
void memLive( std::vector<LiveBlock>& out, bool libOnly )
{
    size_t n = nblk, cnt = 0;
    for( size_t i=0;i<n;i++ ) if( blks[i].live && ( !libOnly || blks[i].lib ) ) cnt++;
    out.clear(); out.reserve( cnt + 16 );
    for( size_t i=0;i<n;i++ )
	if( blks[i].live && ( !libOnly || blks[i].lib ) )
	{ LiveBlock b; b.ptr = blks[i].ptr; b.size = blks[i].size; b.seq = blks[i].seq; out.push_back( b ); }
}
bool memInArena( const void* p ) { return inArena( p ); }
bool memIsLive( const void* p )
{
    if( !inArena( p ) ) return true;
    Hdr* h = (Hdr*)( (char*)p - sizeof( Hdr ) );
    return h->magic == 0x5EED5EED5EED5EEDull && h->idx < nblk && blks[h->idx].ptr == p && blks[h->idx].live;
}
uint64_t memSeq() { return seqNo; }
uint64_t memBlockSeq( const void* p )
{
    Hdr* h = (Hdr*)( (char*)p - sizeof( Hdr ) );
    return inArena( p ) && h->magic == 0x5EED5EED5EED5EEDull ? blks[h->idx].seq : 0;
}
}
void* operator new( size_t n ) { return newImpl( n ); }
void* operator new[]( size_t n ) { return newImpl( n ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return on ? arenaAlloc( n, true ) : __real_malloc( n ? n : 1 ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return on ? arenaAlloc( n, true ) : __real_malloc( n ? n : 1 ); }
void operator delete( void* p ) noexcept { delImpl( p ); }
void operator delete[]( void* p ) noexcept { delImpl( p ); }
void operator delete( void* p, size_t ) noexcept { delImpl( p ); }
void operator delete[]( void* p, size_t ) noexcept { delImpl( p ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept { delImpl( p ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { delImpl( p ); }
extern "C"
{
void* __wrap_malloc( size_t n ) { if( !on ) return __real_malloc( n ); void* p = arenaAlloc( n, true ); if( !p ) errno = ENOMEM; return p; }
void* __wrap_calloc( size_t a, size_t b )
{
    if( !on ) return __real_calloc( a, b );
    if( b && a > (size_t)-1 / b ) return 0;
    void* p = arenaAlloc( a * b, true ); if( p ) memset( p, 0, a * b ); return p;
}
void* __wrap_realloc( void* q, size_t n )
{
    if( !on || ( q && !inArena( q ) ) ) return __real_realloc( q, n );
    if( !q ) return __wrap_malloc( n );
    if( !n ) { arenaFree( q, "realloc" ); return 0; }
    Hdr* h = (Hdr*)( (char*)q - sizeof( Hdr ) );
    void* p = arenaAlloc( n, true ); if( !p ) return 0;
    size_t m = blks[h->idx].size; memcpy( p, q, m < n ? m : n );
    arenaFree( q, "realloc" ); return p;
}
void __wrap_free( void* p ) { if( p && inArena( p ) ) arenaFree( p, "free" ); else __real_free( p ); }
}
