// Simulated disk: every file below the scratch root is opened, read, written
// and closed through here; faults come from diskFaults. Not ASAN-instrumented.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>

namespace sim
{
DiskFaults diskFaults;
void DiskFaults::reset()
{
    active = false; failOpenAt = failReadOpenAt = failWriteAt = failCloseAt = failReadAt = lostWriteAt = 0; byteBudget = -1;
    shortIo = eintr = stick = false; ioSeed = 1;
}
long diskOpens = 0, diskReadOpens = 0, diskWrites = 0, diskReads = 0, diskCloses = 0, diskBytes = 0;
bool diskRecord = false; std::vector<DiskOp> diskLog;
static std::string root; static bool fired = false; static Rng ioRng( 1 ); static bool stuck = false;
struct FileState { bool used, written; bool writable; uint64_t off; bool lost; std::string path; FILE* f; };
static FileState files[1024];
void diskBegin( const std::string& r ) { root = r; diskResetCounters(); }
// the run gets a directory of its own and works with relative paths, so that no path depends on the process
void diskScratch()
{
    std::string d = fmt( "/dev/shm/vsim.%07d", (int)getpid() );
    syscall( SYS_mkdir, d.c_str(), 0700 );
    if( syscall( SYS_chdir, d.c_str() ) ) simError( "cannot use scratch directory" );
    if( syscall( SYS_mkdir, "d", 0700 ) ) simError( "scratch directory is not empty" );
    diskBegin( "d/" );
}
std::string diskRoot() { return root; }
void diskResetCounters() { diskOpens = diskReadOpens = diskWrites = diskReads = diskCloses = diskBytes = 0; fired = false; stuck = false; ioRng = Rng( diskFaults.ioSeed ); }
bool diskFaultFired() { return fired; }
long diskOpenFiles() { long n = 0; for( int i=0;i<1024;i++ ) if( files[i].used ) n++; return n; }
static bool ours( const char* p ) { return !root.empty() && strncmp( p, root.c_str(), root.size() ) == 0; }
static void rec( DiskOp::Kind k, const std::string& p, uint64_t off = 0, const char* d = 0, size_t n = 0, const std::string& p2 = "" )
{
    if( !diskRecord ) return;
    HarnessScope h;
    DiskOp o; o.kind = k; o.path = p; o.off = off; o.path2 = p2; if( d ) o.data.assign( d, n );
    diskLog.push_back( o );
}
static void hit( const char* what ) { fired = true; count( what ); }
static ssize_t doWrite( int fd, const char* buf, size_t n )
{
    FileState& s = files[fd];
    DiskFaults& df = diskFaults;
    diskWrites++;
    if( df.active )
    {
	if( df.stick && stuck ) { errno = EIO; return -1; }
	if( df.eintr && ioRng.chance( 1, 4 ) ) { count( "fault.eintr" ); errno = EINTR; return -1; }
	if( df.failWriteAt && diskWrites == df.failWriteAt ) { hit( "fault.write_eio" ); stuck = true; errno = EIO; return -1; }
	if( df.lostWriteAt && diskWrites == df.lostWriteAt ) { hit( "fault.lost_write" ); s.lost = true; return n; }
	if( s.lost ) return n;
	if( df.byteBudget >= 0 )
	{
	    if( diskBytes >= df.byteBudget ) { hit( "fault.enospc" ); errno = ENOSPC; return -1; }
	    if( diskBytes + (long)n > df.byteBudget ) { n = df.byteBudget - diskBytes; hit( "fault.enospc_short" ); }
	}
	if( df.shortIo && n > 1 && ioRng.chance( 1, 2 ) ) { n = 1 + ioRng.below( n - 1 ); count( "fault.short_write" ); }
    }
    uint64_t off = syscall( SYS_lseek, fd, 0, SEEK_CUR );
    ssize_t r = syscall( SYS_write, fd, buf, n );
    if( r > 0 ) { diskBytes += r; s.written = true; rec( DiskOp::WRITE, s.path, off, buf, r ); }
    return r;
}
static ssize_t doRead( int fd, char* buf, size_t n )
{
    DiskFaults& df = diskFaults;
    diskReads++;
    if( df.active )
    {
	if( df.eintr && ioRng.chance( 1, 4 ) ) { count( "fault.eintr" ); errno = EINTR; return -1; }
	if( df.failReadAt && ( diskReads == df.failReadAt || ( df.stick && diskReads > df.failReadAt ) ) ) { hit( "fault.read_eio" ); errno = EIO; return -1; }
	if( df.shortIo && n > 1 && ioRng.chance( 1, 2 ) ) { n = 1 + ioRng.below( n - 1 ); count( "fault.short_read" ); }
    }
    return syscall( SYS_read, fd, buf, n );
}
static int closeCheck( int fd )
{
    FileState& s = files[fd];
    int rc = 0;
    if( s.writable )
    {
	diskCloses++;
	rec( DiskOp::CLOSE, s.path );
	if( diskFaults.active && diskFaults.failCloseAt && diskCloses == diskFaults.failCloseAt )
	{
	    // delayed allocation: the data never reaches the disk, close tells
	    hit( "fault.close_eio" ); rc = -1; errno = EIO;
	    if( ftruncate( fd, ioRng.below( 2 ) ? 0 : s.off ) ) {}
	}
	if( s.lost ) { rc = -1; errno = EIO; }
    }
    s.used = false; s.lost = false; s.path.clear();
    return rc;
}
// cookie streams (used by everything that goes through stdio)
static ssize_t ckRead( void* c, char* b, size_t n )
{
    int fd = (int)(long)c;
    for( ;; ) { ssize_t r = doRead( fd, b, n ); if( r < 0 && errno == EINTR ) continue; return r; }
}
static ssize_t ckWrite( void* c, const char* b, size_t n )
{
    int fd = (int)(long)c; size_t done = 0;
    while( done < n )
    {
	ssize_t r = doWrite( fd, b + done, n - done );
	if( r < 0 ) { if( errno == EINTR ) continue; return done ? (ssize_t)done : 0; }   // cookie contract: 0 = error
	done += r;
    }
    return done;
}
static int ckSeek( void* c, off64_t* o, int wh ) { off_t r = syscall( SYS_lseek, (int)(long)c, (off_t)*o, wh ); if( r < 0 ) return -1; *o = r; return 0; }
static int ckClose( void* c ) { int fd = (int)(long)c; int rc = closeCheck( fd ); int e = errno; if( syscall( SYS_close, fd ) ) return -1; errno = e; return rc; }

static int openFile( const char* path, const char* mode )
{
    bool w = strchr( mode, 'w' ) || strchr( mode, 'a' ) || strchr( mode, '+' );
    int fl = 0; bool plus = strchr( mode, '+' );
    if( mode[0] == 'r' ) fl = plus ? O_RDWR : O_RDONLY;
    else if( mode[0] == 'w' ) fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_TRUNC;
    else fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_APPEND;
    if( w ) diskOpens++; else diskReadOpens++;
    if( diskFaults.active )
    {
	if( w && diskFaults.failOpenAt && diskOpens == diskFaults.failOpenAt ) { hit( "fault.open_write" ); errno = EACCES; return -1; }
	if( !w && diskFaults.failReadOpenAt && diskReadOpens == diskFaults.failReadOpenAt ) { hit( "fault.open_read" ); errno = EIO; return -1; }
    }
    int fd = syscall( SYS_openat, AT_FDCWD, path, fl, 0644 );
    if( fd < 0 ) return -1;
    if( fd >= 1024 ) { syscall( SYS_close, fd ); errno = EMFILE; return -1; }
    FileState& s = files[fd]; HarnessScope h;
    s.used = true; s.written = false; s.writable = w; s.lost = false; s.path = path; s.off = 0; s.f = 0;
    if( fl & O_TRUNC ) rec( DiskOp::CREATE, path );
    return fd;
}
static FILE* simOpen( const char* path, const char* mode, void* ret )
{
    typedef FILE* (*F)( const char*, const char* );
    static F real = (F)dlsym( RTLD_NEXT, "fopen64" );
    if( !ours( path ) ) return real( path, mode );
    int fd = openFile( path, mode );
    if( fd < 0 ) return 0;
    Dl_info di; bool cxx = dladdr( ret, &di ) && di.dli_fname && strstr( di.dli_fname, "libstdc++" );
    FILE* f;
    if( cxx )
	f = fdopen( fd, mode );
    else
    {
	cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
	f = fopencookie( (void*)(long)fd, mode, io );
    }
    if( !f ) { closeCheck( fd ); syscall( SYS_close, fd ); return 0; }
    files[fd].f = cxx ? f : 0;
    return f;
}
std::string readFile( const std::string& p )
{
    std::string r; int fd = syscall( SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0 ); if( fd < 0 ) return r;
    char buf[65536]; ssize_t n;
    while( ( n = syscall( SYS_read, fd, buf, sizeof buf ) ) > 0 ) r.append( buf, n );
    syscall( SYS_close, fd ); return r;
}
void writeFile( const std::string& p, const std::string& d )
{
    int fd = syscall( SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644 ); if( fd < 0 ) simError( "cannot write " + p );
    size_t o = 0; while( o < d.size() ) { ssize_t n = syscall( SYS_write, fd, d.data() + o, d.size() - o ); if( n <= 0 ) simError( "cannot write " + p ); o += n; }
    syscall( SYS_close, fd );
}
void listDir( const std::string& p, std::vector<std::string>& names )
{
    names.clear(); DIR* d = opendir( p.c_str() ); if( !d ) return;
    std::set<std::string> s;
    while( struct dirent* e = readdir( d ) ) { std::string n = e->d_name; if( n != "." && n != ".." ) s.insert( n ); }
    closedir( d ); names.assign( s.begin(), s.end() );
}
void removeTree( const std::string& p )
{
    if( !ours( p.c_str() ) || p.find( ".." ) != std::string::npos ) simError( "refusing to remove " + p );
    std::vector<std::string> n; listDir( p, n );
    for( size_t i=0;i<n.size();i++ )
    {
	std::string q = p + "/" + n[i]; struct stat st;
	if( lstat( q.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) ) removeTree( q ); else syscall( SYS_unlink, q.c_str() );
    }
    syscall( SYS_rmdir, p.c_str() );
}
void makeDir( const std::string& p ) { if( syscall( SYS_mkdir, p.c_str(), 0755 ) && errno != EEXIST ) simError( "cannot create " + p ); }
void copyTree( const std::string& from, const std::string& to )
{
    makeDir( to ); std::vector<std::string> n; listDir( from, n );
    for( size_t i=0;i<n.size();i++ )
    {
	std::string q = from + "/" + n[i]; struct stat st;
	if( lstat( q.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) ) copyTree( q, to + "/" + n[i] ); else writeFile( to + "/" + n[i], readFile( q ) );
    }
}
}
using namespace sim;
extern "C"
{
FILE* fopen64( const char* path, const char* mode ) { return simOpen( path, mode, __builtin_return_address( 0 ) ); }
FILE* fopen( const char* path, const char* mode ) { return simOpen( path, mode, __builtin_return_address( 0 ) ); }
ssize_t write( int fd, const void* b, size_t n )
{
    if( fd >= 0 && fd < 1024 && files[fd].used ) return doWrite( fd, (const char*)b, n );
    return syscall( SYS_write, fd, b, n );
}
ssize_t writev( int fd, const struct iovec* v, int c )
{
    if( fd >= 0 && fd < 1024 && files[fd].used )
    {
	ssize_t t = 0;
	for( int i=0;i<c;i++ )
	{
	    if( !v[i].iov_len ) continue;
	    ssize_t r = doWrite( fd, (const char*)v[i].iov_base, v[i].iov_len );
	    if( r < 0 ) return t ? t : -1;
	    t += r; if( (size_t)r < v[i].iov_len ) return t;
	}
	return t;
    }
    return syscall( SYS_writev, fd, v, c );
}
ssize_t read( int fd, void* b, size_t n )
{
    if( fd >= 0 && fd < 1024 && files[fd].used ) return doRead( fd, (char*)b, n );
    return syscall( SYS_read, fd, b, n );
}
int fclose( FILE* f )
{
    typedef int (*F)( FILE* );
    static F real = (F)dlsym( RTLD_NEXT, "fclose" );
    int rc = 0;
    for( int i=0;i<1024;i++ ) if( files[i].used && files[i].f && files[i].f == f ) { rc = closeCheck( i ); files[i].f = 0; break; }
    int e = errno; int r = real( f );
    if( rc ) { errno = e; return EOF; }
    return r;
}
int rename( const char* a, const char* b )
{
    if( ours( a ) )
    {
	rec( DiskOp::RENAME, a, 0, 0, 0, b );
    }
    return syscall( SYS_rename, a, b );
}
int unlink( const char* a ) { if( ours( a ) ) rec( DiskOp::UNLINK, a ); return syscall( SYS_unlink, a ); }
int mkdir( const char* a, mode_t m ) { if( ours( a ) ) rec( DiskOp::MKDIR, a ); return syscall( SYS_mkdir, a, m ); }
}
