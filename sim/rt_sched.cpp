// Simulated scheduler: real threads, but exactly one runs at a time; who runs
// is decided at every lock operation and at every control-flow edge of the
// code under test from the plan's "pre" operations. Not ASAN-instrumented.
#include "rt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>

extern "C" int __real_pthread_mutex_lock( pthread_mutex_t* );
extern "C" int __real_pthread_mutex_trylock( pthread_mutex_t* );
extern "C" int __real_pthread_mutex_unlock( pthread_mutex_t* );
extern "C" int __real_pthread_cond_wait( pthread_cond_t*, pthread_mutex_t* );
extern "C" int __real_pthread_cond_signal( pthread_cond_t* );
extern "C" int __real_pthread_cond_broadcast( pthread_cond_t* );
extern "C" int __real_pthread_cond_timedwait( pthread_cond_t*, pthread_mutex_t*, const struct timespec* );
extern "C" int __real_pthread_rwlock_rdlock( pthread_rwlock_t* );
extern "C" int __real_pthread_rwlock_wrlock( pthread_rwlock_t* );
extern "C" int __real_pthread_rwlock_tryrdlock( pthread_rwlock_t* );
extern "C" int __real_pthread_rwlock_trywrlock( pthread_rwlock_t* );
extern "C" int __real_pthread_rwlock_unlock( pthread_rwlock_t* );
extern "C" int __real_pthread_spin_lock( pthread_spinlock_t* );
extern "C" int __real_pthread_spin_unlock( pthread_spinlock_t* );
extern "C" int __real___cxa_guard_acquire( void* );
extern "C" void __real___cxa_guard_release( void* );
extern "C" void __real___cxa_guard_abort( void* );
extern "C" int __real_sched_yield();

namespace sim { unsigned char* covMap = 0; extern const unsigned covMask = ( 1u << 16 ) - 1; }
namespace
{
enum { MAXT = 8 };
struct Thr { bool used, done; void* waitOn; void* timed; sem_t sem; pthread_t th; void (*fn)( void* ); void* arg; };
Thr thr[MAXT]; int nthr = 0, cur = -1; bool active = false;
uint64_t steps = 0, switches = 0, spin = 0; sem_t mainSem;
struct Pre { uint64_t at; int to; };
Pre pre[4096]; int npre = 0, ipre = 0;
uint64_t schedHash = 0;
__thread int self = -1; __thread bool preemptible = false; __thread int inGuard = 0;

void giveTo( int t )
{
    int me = self; cur = t; switches++; spin = 0;
    schedHash = sim::mix( schedHash, steps * 16 + t );
    sem_post( &thr[t].sem );
    if( me >= 0 && !thr[me].done ) { while( sem_wait( &thr[me].sem ) ) {} }
}
int pick( int from, int skip )
{
    for( int k=1;k<=nthr;k++ )
    {
	int t = ( from + k + nthr ) % nthr;
	if( t == skip ) continue;
	if( thr[t].used && !thr[t].done && !thr[t].waitOn ) return t;
    }
    return -1;
}
void blockOn( void* w )
{
    thr[self].waitOn = w;
    int t = pick( self, self );
    if( t < 0 ) sim::violation( "deadlock", "every thread waits for a lock that is never released" );
    sim::count( "sched.block" );
    giveTo( t );
}
void wake( void* w ) { for( int i=0;i<nthr;i++ ) if( thr[i].waitOn == w ) thr[i].waitOn = 0; }
inline void point()
{
    if( !active || self < 0 || cur != self || !preemptible || inGuard ) return;
    steps++;
    if( ipre < npre && steps >= pre[ipre].at )
    {
	int want = pre[ipre].to % nthr; ipre++;
	if( want != self && !thr[want].done && !thr[want].waitOn ) { sim::count( "sched.preempt" ); giveTo( want ); return; }
	int t = pick( want, self );
	if( t >= 0 ) { sim::count( "sched.preempt" ); giveTo( t ); }
	return;
    }
    if( ++spin > 3000000 ) { spin = 0; int t = pick( self, self ); if( t >= 0 ) giveTo( t ); }
}
void* body( void* p )
{
    self = (int)(long)p;
    while( sem_wait( &thr[self].sem ) ) {}
    thr[self].fn( thr[self].arg );
    thr[self].done = true;
    int t = pick( self, self );
    if( t < 0 )
    {
	for( int i=0;i<nthr;i++ ) if( !thr[i].done ) sim::violation( "deadlock", "a thread waits for a lock whose holder has finished" );
	cur = -1; sem_post( &mainSem );
    }
    else { cur = t; schedHash = sim::mix( schedHash, steps * 16 + t ); sem_post( &thr[t].sem ); }
    return 0;
}
}
namespace sim
{
void schedBegin( const Plan& p )
{
    nthr = 0; npre = ipre = 0; steps = 0; spin = 0; schedHash = 1; cur = -1; active = false;
    uint64_t at = 0;
    for( size_t i=0;i<p.ops.size() && npre < 4096;i++ )
	if( p.ops[i].kind == "pre" ) { at = p.ops[i].a[0]; pre[npre].at = at; pre[npre].to = p.ops[i].a[1]; npre++; }
    sem_init( &mainSem, 0, 0 );
}
int schedSpawn( void (*fn)( void* ), void* arg )
{
    Thr& t = thr[nthr]; t.used = true; t.done = false; t.waitOn = 0; t.timed = 0; t.fn = fn; t.arg = arg;
    sem_init( &t.sem, 0, 0 );
    pthread_attr_t at; pthread_attr_init( &at ); pthread_attr_setstacksize( &at, 4u << 20 );
    if( pthread_create( &t.th, &at, body, (void*)(long)nthr ) ) simError( "pthread_create failed" );
    return nthr++;
}
void schedRun()
{
    if( !nthr ) return;
    active = true; cur = 0; sem_post( &thr[0].sem );
    while( sem_wait( &mainSem ) ) {}
    active = false;
    for( int i=0;i<nthr;i++ ) pthread_join( thr[i].th, 0 );
    count( "sched.steps", steps ); count( "sched.switches", switches );
    note( schedHash );
}
void schedPoint( const char* ) { point(); }
bool schedActive() { return active; }
PreemptScope::PreemptScope( bool on ) : old( preemptible ) { preemptible = on; }
PreemptScope::~PreemptScope() { preemptible = old; }
void schedYield()
{
    if( !active || self < 0 ) return;
    steps++; int t = pick( self, self );
    if( t >= 0 ) giveTo( t );
}
uint64_t schedTrace() { return schedHash; }
}
extern "C"
{
void __sanitizer_cov_trace_pc()
{
    uintptr_t pc = (uintptr_t)__builtin_return_address( 0 );
    if( sim::covMap ) sim::covMap[ ( pc ^ ( pc >> 16 ) * 31 ) & sim::covMask ] = 1;
    if( active ) point();
}
int __wrap_pthread_mutex_lock( pthread_mutex_t* m )
{
    if( !active || self < 0 ) return __real_pthread_mutex_lock( m );
    point();
    for( ;; )
    {
	int r = __real_pthread_mutex_trylock( m );
	if( r != EBUSY ) return r;
	blockOn( m );
    }
}
int __wrap_pthread_mutex_trylock( pthread_mutex_t* m ) { if( active && self >= 0 ) point(); return __real_pthread_mutex_trylock( m ); }
int __wrap_pthread_mutex_unlock( pthread_mutex_t* m )
{
    int r = __real_pthread_mutex_unlock( m );
    if( active && self >= 0 ) { wake( m ); point(); }
    return r;
}
int __wrap_pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m )
{
    if( !active || self < 0 ) return __real_pthread_cond_wait( c, m );
    __real_pthread_mutex_unlock( m ); wake( m );
    blockOn( c );
    return __wrap_pthread_mutex_lock( m );
}
int __wrap_pthread_cond_signal( pthread_cond_t* c )
{
    if( !active || self < 0 ) return __real_pthread_cond_signal( c );
    for( int i=0;i<nthr;i++ ) if( thr[i].waitOn == c || thr[i].timed == c ) { if( thr[i].waitOn == c ) thr[i].waitOn = 0; thr[i].timed = 0; break; }
    point(); return 0;
}
int __wrap_pthread_cond_broadcast( pthread_cond_t* c )
{
    if( !active || self < 0 ) return __real_pthread_cond_broadcast( c );
    for( int i=0;i<nthr;i++ ) if( thr[i].timed == c ) thr[i].timed = 0;
    wake( c ); point(); return 0;
}
// a timed wait may end early at any time: one scheduling round without signal counts as the timeout
int __wrap_pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts )
{
    if( !active || self < 0 ) return __real_pthread_cond_timedwait( c, m, ts );
    __real_pthread_mutex_unlock( m ); wake( m );
    thr[self].timed = c;
    int t = pick( self, self ); if( t >= 0 ) giveTo( t );
    bool sig = !thr[self].timed; thr[self].timed = 0;
    __wrap_pthread_mutex_lock( m );
    return sig ? 0 : ETIMEDOUT;
}
int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t* l )
{
    if( !active || self < 0 ) return __real_pthread_rwlock_rdlock( l );
    point();
    for( ;; ) { int r = __real_pthread_rwlock_tryrdlock( l ); if( r != EBUSY ) return r; blockOn( l ); }
}
int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t* l )
{
    if( !active || self < 0 ) return __real_pthread_rwlock_wrlock( l );
    point();
    for( ;; ) { int r = __real_pthread_rwlock_trywrlock( l ); if( r != EBUSY ) return r; blockOn( l ); }
}
int __wrap_pthread_rwlock_tryrdlock( pthread_rwlock_t* l ) { if( active && self >= 0 ) point(); return __real_pthread_rwlock_tryrdlock( l ); }
int __wrap_pthread_rwlock_trywrlock( pthread_rwlock_t* l ) { if( active && self >= 0 ) point(); return __real_pthread_rwlock_trywrlock( l ); }
int __wrap_pthread_rwlock_unlock( pthread_rwlock_t* l )
{
    int r = __real_pthread_rwlock_unlock( l );
    if( active && self >= 0 ) { wake( (void*)l ); point(); }
    return r;
}
int __wrap_pthread_spin_lock( pthread_spinlock_t* l )
{
    if( !active || self < 0 ) return __real_pthread_spin_lock( l );
    point();
    for( ;; ) { int r = pthread_spin_trylock( l ); if( r != EBUSY ) return r; blockOn( (void*)l ); }
}
int __wrap_pthread_spin_unlock( pthread_spinlock_t* l )
{
    int r = __real_pthread_spin_unlock( l );
    if( active && self >= 0 ) { wake( (void*)l ); point(); }
    return r;
}
int __wrap_sched_yield() { if( active && self >= 0 ) { sim::schedYield(); return 0; } return __real_sched_yield(); }
// the initialisation of a function-local static is not interrupted
int __wrap___cxa_guard_acquire( void* g ) { int r = __real___cxa_guard_acquire( g ); if( r ) inGuard++; return r; }
void __wrap___cxa_guard_release( void* g ) { inGuard--; __real___cxa_guard_release( g ); }
void __wrap___cxa_guard_abort( void* g ) { inGuard--; __real___cxa_guard_abort( g ); }
}
// ---------------------------------------------------------------- clock
namespace { int64_t clk = 1000000000000ll; }
namespace sim
{
void clockSet( int64_t us ) { clk = us; }
void clockAdvance( int64_t us ) { clk += us; }
}
extern "C" int64_t sim_clock_us() { return clk; }
