// The seam: the system calls and library calls a simulated process makes. Each is answered by the kernel in kernel.cpp when a
// simulated process executes (g_cur), and by the real library otherwise.
#include "kernel.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <random>

#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <glob.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <spawn.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utime.h>

#define EXPORT extern "C" __attribute__(( visibility( "default"), used))
#define REAL( name) ( []{ static auto f = reinterpret_cast< decltype( &::name)>( dlsym( RTLD_NEXT, #name)); return f;}())

using namespace sim;

namespace
{
   int fail( int e) { errno = e; return -1;}

   File* get( int fd)
   {
      if( fd < 0 || fd >= static_cast< int>( g_cur->fds.size()) || ! g_cur->fds[ fd]) { errno = EBADF; return nullptr;}
      return g_cur->fds[ fd].get();
   }

   template< typename T> std::shared_ptr< T> get( int fd, File::Kind kind)
   {
      auto f = get( fd);
      if( ! f) return {};
      if( f->kind != kind) { errno = kind == File::k_stream || kind == File::k_dgram ? ENOTSOCK : EINVAL; return {};}
      return std::static_pointer_cast< T>( g_cur->fds[ fd]);
   }

   int install( FilePtr f, int lowest = 3)
   {
      auto& t = g_cur->fds;
      int fd = lowest;
      while( fd < static_cast< int>( t.size()) && t[ fd]) ++fd;
      if( fd >= static_cast< int>( t.size())) t.resize( fd + 1);
      ++f->nfd;
      t[ fd] = std::move( f);
      g_cur->cloexec.erase( fd);
      return fd;
   }

   int close_on_exec( int fd, bool on) { if( on && fd >= 0) g_cur->cloexec.insert( fd); return fd;}

   std::string where( const char* path) { return fs::absolute( g_cur->cwd, path);}

   std::uint64_t bits( const sigset_t* s)
   {
      std::uint64_t r = 0;
      if( s) for( int i = 1; i < 64; ++i) if( sigismember( s, i) == 1) r |= 1ull << ( i - 1);
      return r & ~( ( 1ull << ( SIGKILL - 1)) | ( 1ull << ( SIGSTOP - 1)));
   }

   void from_bits( std::uint64_t b, sigset_t* s)
   {
      sigemptyset( s);
      for( int i = 1; i < 64; ++i) if( b & ( 1ull << ( i - 1))) sigaddset( s, i);
   }

   // blocks until something that the caller waits for (it has registered itself) happens. -1/EINTR if a handler ran
   int wait_some( Time deadline = -1)
   {
      auto p = g_cur;
      auto woken = kernel->block( deadline, p->blocked_sig);
      if( ( p->pending_sig & ~p->blocked_sig) && kernel->deliver( p)) return fail( EINTR);
      return woken ? 1 : 0;
   }

   int do_open( const char* path, int flags, mode_t mode)
   {
      kernel->syscall( "open", false);
      auto full = where( path);
      if( full == "/dev/null")
      {
         auto f = std::make_shared< Std>( 3);
         f->flags = flags;
         return close_on_exec( install( f), flags & O_CLOEXEC);
      }
      auto m = g_cur->machine;
      auto inode = fs::lookup( m, full);
      if( inode && ( flags & O_CREAT) && ( flags & O_EXCL)) return fail( EEXIST);
      if( ! inode)
      {
         if( ! ( flags & O_CREAT)) return fail( ENOENT);
         std::string name;
         auto dir = fs::parent( m, full, name);
         if( ! dir) return fail( ENOENT);
         if( auto e = kernel->disk_fault( g_cur, "open", full)) return fail( e);
         inode = fs::make( Inode::regular);
         inode->mode = mode & 0777;
         dir->entries[ name] = inode;
      }
      if( inode->type == Inode::socket) return fail( ENXIO);
      if( inode->type == Inode::directory && ( flags & O_ACCMODE) != O_RDONLY) return fail( EISDIR);
      if( ( flags & O_TRUNC) && ! inode->data.empty()) fs::truncate( *inode, 0);
      auto f = std::make_shared< Regular>();
      f->inode = inode;
      f->flags = flags;
      f->path = full;
      return close_on_exec( install( f), flags & O_CLOEXEC);
   }

   bool is_log( const std::string& path) { static const std::string name = "casual.log"; return path.size() >= name.size() && path.compare( path.size() - name.size(), name.size(), name) == 0;}

   //! a write takes time, and others see (and crash) what is before it
   void disk_time()
   {
      if( kernel->disk_hi) g_cur->debt += kernel->disk.range( 0, kernel->disk_hi) * g_cur->slow;
      kernel->pause();
   }

   ssize_t regular_write( Regular& f, std::size_t offset, const char* data, std::size_t size)
   {
      if( auto e = kernel->disk_fault( g_cur, "write", f.path))
      {
         if( e == -1 && size > 1) size = 1 + kernel->disk.below( size - 1); // short
         else if( e > 0) return fail( e);
      }
      if( is_log( f.path))
      {
         // not part of the durable state of any component
         auto& d = f.inode->data;
         if( d.size() < offset + size) d.resize( offset + size);
         d.replace( offset, size, data, size);
         f.inode->durable = {};
         return size;
      }
      // what happened before this has happened when it is written
      disk_time();
      fs::write( *f.inode, offset, data, size);
      return size;
   }

   ssize_t do_write( int fd, const char* data, std::size_t size);
   ssize_t do_read( int fd, char* data, std::size_t size);
   ssize_t stream_send( const std::shared_ptr< Stream>& s, const std::string& data, bool nonblock);
   ssize_t stream_recv( const std::shared_ptr< Stream>& s, char* data, std::size_t size, bool nonblock);

   void fill( struct stat* st, Inode& i)
   {
      std::memset( st, 0, sizeof( *st));
      st->st_dev = 1;
      st->st_ino = i.ino;
      st->st_nlink = 1;
      st->st_uid = 1000;
      st->st_gid = 1000;
      st->st_size = i.data.size();
      st->st_blksize = 4096;
      st->st_blocks = ( i.data.size() + 511) / 512;
      st->st_mode = i.mode | ( i.type == Inode::directory ? S_IFDIR : i.type == Inode::socket ? S_IFSOCK : S_IFREG);
   }

   int do_stat( const char* path, struct stat* st)
   {
      kernel->syscall( "stat", false);
      if( std::string_view( path) == "/proc/self/exe")
      {
         std::memset( st, 0, sizeof( *st));
         st->st_mode = S_IFLNK | 0777;
         return 0;
      }
      auto full = where( path);
      auto i = fs::lookup( g_cur->machine, full);
      if( ! i) return fail( ENOENT);
      fill( st, *i);
      return 0;
   }

   int do_fstat( int fd, struct stat* st)
   {
      auto f = get( fd);
      if( ! f) return -1;
      if( f->kind == File::k_regular) { fill( st, *static_cast< Regular*>( f)->inode); return 0;}
      std::memset( st, 0, sizeof( *st));
      st->st_mode = f->kind == File::k_std ? S_IFCHR | 0666 : f->kind == File::k_pipe ? S_IFIFO | 0666 : S_IFSOCK | 0666;
      return 0;
   }

   Time wall() { return kernel->epoch + kernel->now + ( g_cur ? g_cur->debt + g_cur->machine->clock_offset : 0);}
   Time mono() { return 1000 * sec + kernel->now + ( g_cur ? g_cur->debt : 0);}

   struct FakeFile { std::uint64_t magic; int fd; bool eof; bool error; int back;};
   constexpr std::uint64_t magic = 0x53494d46494c4531ull;
   FakeFile* fake( FILE* f)
   {
      if( ! f || f == stdin || f == stdout || f == stderr) return nullptr;
      auto r = reinterpret_cast< FakeFile*>( f);
      return r->magic == magic ? r : nullptr;
   }
   struct FakeDir { std::uint64_t magic; std::vector< std::pair< std::string, int>> entries; std::size_t pos; struct dirent current; int fd; std::string path;};

   std::uint32_t message_type( const void* data) { std::int64_t t; std::memcpy( &t, data, sizeof( t)); return static_cast< std::uint32_t>( t);}
   std::int64_t message_offset( const void* data) { std::int64_t t; std::memcpy( &t, static_cast< const char*>( data) + 24, sizeof( t)); return t;}

   bool message_last( const void* data)
   {
      std::int64_t t[ 3];   // offset, count, size of the whole
      std::memcpy( t, static_cast< const char*>( data) + 24, sizeof( t));
      return t[ 0] + t[ 1] >= t[ 2];
   }

   void record_message( const char* what, std::uint32_t type, const std::string& peer, const char* data)
   {
      if( ! recorded_types.count( type)) return;
      std::string c;
      for( int i = 8; i < 24; ++i) c += format( "%02x", static_cast< unsigned char>( data[ i]));
      kernel->record( format( "\"e\":\"%s\",\"type\":%u,\"tag\":\"%s\",\"pid\":%d,\"peer\":\"%s\",\"c\":\"%s\"", what, type, escape( g_cur->tag).c_str(), g_cur->pid, escape( peer).c_str(), c.c_str()));
   }

   std::uint64_t hash_string( const std::string& s) { std::uint64_t h = 0xcbf29ce484222325ull; for( unsigned char c : s) h = ( h ^ c) * 0x100000001b3ull; return h;}
}

// ------------------------------------------------------------------ process
namespace sim
{
   [[noreturn]] static void leave( int status, const char* cause)
   {
      kernel->terminate( g_cur, status, cause);
      __builtin_unreachable();
   }
}

extern "C" __attribute__(( visibility( "default"), used, noreturn)) void sim_fault_exit( int sig)
{
   leave( sig, sig == SIGABRT ? "abort" : "segv");
}

EXPORT int __cxa_atexit( void (*f)( void*), void* arg, void* dso)
{
   if( ! g_cur) return reinterpret_cast< int(*)( void(*)( void*), void*, void*)>( dlsym( RTLD_NEXT, "__cxa_atexit"))( f, arg, dso);
   g_cur->atexits.push_back( { f, arg});
   return 0;
}

extern "C" __attribute__(( visibility( "default"), used, noreturn)) void exit( int status)
{
   if( ! g_cur)
   {
      auto real = reinterpret_cast< void(*)( int)>( dlsym( RTLD_NEXT, "exit"));
      real( status);
      __builtin_unreachable();
   }
   while( ! g_cur->atexits.empty())
   {
      auto e = g_cur->atexits.back();
      g_cur->atexits.pop_back();
      e.f( e.arg);
   }
   leave( ( status & 0xff) << 8, "exit");
}

extern "C" __attribute__(( visibility( "default"), used, noreturn)) void _exit( int status)
{
   if( ! g_cur)
   {
      auto real = reinterpret_cast< void(*)( int)>( dlsym( RTLD_NEXT, "_exit"));
      real( status);
      __builtin_unreachable();
   }
   leave( ( status & 0xff) << 8, "exit");
}

extern "C" __attribute__(( visibility( "default"), used, noreturn)) void abort() noexcept
{
   if( ! g_cur)
   {
      auto real = reinterpret_cast< void(*)()>( dlsym( RTLD_NEXT, "abort"));
      real();
      __builtin_unreachable();
   }
   leave( SIGABRT, "abort");
}

extern "C" __attribute__(( visibility( "default"), used, noreturn)) void __assert_fail( const char* expression, const char* file, unsigned int line, const char* function) noexcept
{
   if( ! g_cur)
   {
      fprintf( stderr, "%s:%u: %s: assertion %s\n", file, line, function, expression);
      abort();
   }
   kernel->record( format( "\"e\":\"assert\",\"tag\":\"%s\",\"file\":\"%s\",\"line\":%u,\"expr\":\"%s\"", escape( g_cur->tag).c_str(), escape( file).c_str(), line, escape( expression).c_str()));
   leave( SIGABRT, "abort");
}

EXPORT pid_t getpid() noexcept { return g_cur ? g_cur->pid : REAL( getpid)();}
EXPORT pid_t getppid() noexcept { return g_cur ? g_cur->ppid : REAL( getppid)();}
EXPORT uid_t getuid() noexcept { return g_cur ? 1000 : REAL( getuid)();}
EXPORT uid_t geteuid() noexcept { return g_cur ? 1000 : REAL( geteuid)();}

EXPORT int kill( pid_t pid, int sig) noexcept
{
   if( ! g_cur) return REAL( kill)( pid, sig);
   kernel->syscall( "kill", true);
   auto f = kernel->by_pid.find( pid);
   if( f == kernel->by_pid.end() || f->second->state == Proc::gone || f->second->machine != g_cur->machine) return fail( ESRCH);
   if( sig == 0) return 0;
   kernel->record( format( "\"e\":\"kill\",\"by\":\"%s\",\"tag\":\"%s\",\"sig\":%d", escape( g_cur->tag).c_str(), escape( f->second->tag).c_str(), sig));
   if( f->second->cause.empty() && sig != SIGTERM && sig != SIGINT && sig != SIGHUP) f->second->cause = "killed-by:" + g_cur->exe;
   kernel->signal( f->second, sig);
   if( g_cur->pending_sig & ~g_cur->blocked_sig) kernel->deliver( g_cur);
   return 0;
}

EXPORT int pthread_kill( pthread_t t, int sig) noexcept
{
   if( ! g_cur) return REAL( pthread_kill)( t, sig);
   kernel->signal( g_cur, sig);
   if( g_cur->pending_sig & ~g_cur->blocked_sig) kernel->deliver( g_cur);
   return 0;
}

EXPORT int raise( int sig) noexcept
{
   if( ! g_cur) return REAL( raise)( sig);
   return pthread_kill( 0, sig);
}

EXPORT int sigaction( int sig, const struct sigaction* act, struct sigaction* old) noexcept
{
   if( ! g_cur) return REAL( sigaction)( sig, act, old);
   auto& s = g_cur->sig[ sig];
   if( old) { std::memset( old, 0, sizeof( *old)); old->sa_handler = s.handler; old->sa_flags = s.flags; from_bits( s.mask, &old->sa_mask);}
   if( act) { s.handler = act->sa_handler; s.flags = act->sa_flags; s.mask = bits( &act->sa_mask);}
   return 0;
}

static int do_sigmask( int how, const sigset_t* set, sigset_t* old)
{
   auto p = g_cur;
   if( old) from_bits( p->blocked_sig, old);
   if( set)
   {
      auto b = bits( set);
      if( how == SIG_BLOCK) p->blocked_sig |= b;
      else if( how == SIG_UNBLOCK) p->blocked_sig &= ~b;
      else p->blocked_sig = b;
      if( p->pending_sig & ~p->blocked_sig) kernel->deliver( p);
   }
   return 0;
}

EXPORT int pthread_sigmask( int how, const sigset_t* set, sigset_t* old) noexcept
{
   if( ! g_cur) return REAL( pthread_sigmask)( how, set, old);
   return do_sigmask( how, set, old);
}

EXPORT int sigprocmask( int how, const sigset_t* set, sigset_t* old) noexcept
{
   if( ! g_cur) return REAL( sigprocmask)( how, set, old);
   return do_sigmask( how, set, old);
}

EXPORT int setitimer( __itimer_which_t which, const struct itimerval* value, struct itimerval* old) noexcept
{
   if( ! g_cur) return REAL( setitimer)( which, value, old);
   kernel->syscall( "setitimer", false);
   auto p = g_cur;
   auto now = kernel->now + p->debt;
   if( old)
   {
      std::memset( old, 0, sizeof( *old));
      if( p->timer_at > now) { auto d = p->timer_at - now; old->it_value.tv_sec = d / sec; old->it_value.tv_usec = d % sec / us;}
   }
   if( value)
   {
      if( value->it_value.tv_usec < 0 || value->it_value.tv_usec >= 1000000 || value->it_value.tv_sec < 0) return fail( EINVAL);
      auto d = value->it_value.tv_sec * sec + value->it_value.tv_usec * us;
      kernel->set_timer( p, d ? now + d : 0);
   }
   return 0;
}

EXPORT int getitimer( __itimer_which_t which, struct itimerval* value) noexcept
{
   if( ! g_cur) return REAL( getitimer)( which, value);
   return setitimer( which, nullptr, value);
}

EXPORT pid_t waitpid( pid_t pid, int* status, int flags)
{
   if( ! g_cur) return REAL( waitpid)( pid, status, flags);
   auto self = g_cur;
   kernel->syscall( "waitpid", ! ( flags & WNOHANG));
   while( true)
   {
      bool child = false;
      for( auto& p : kernel->procs)
      {
         if( p->ppid != self->pid || p->state == Proc::gone || ( pid > 0 && p->pid != pid)) continue;
         child = true;
         if( p->state == Proc::zombie)
         {
            p->state = Proc::gone;
            kernel->by_pid.erase( p->pid);
            if( status) *status = p->status;
            return p->pid;
         }
      }
      if( ! child) return fail( ECHILD);
      if( flags & WNOHANG) return 0;
      self->child_wait.add( self);
      if( wait_some() == -1) return -1;
   }
}

// spawn
namespace { struct Actions { std::vector< std::pair< int, int>> steps;};}
EXPORT int posix_spawn_file_actions_init( posix_spawn_file_actions_t* a) noexcept { if( ! g_cur) return REAL( posix_spawn_file_actions_init)( a); std::memset( a, 0, sizeof( *a)); auto p = new Actions; std::memcpy( a, &p, sizeof( p)); return 0;}
EXPORT int posix_spawn_file_actions_destroy( posix_spawn_file_actions_t* a) noexcept { if( ! g_cur) return REAL( posix_spawn_file_actions_destroy)( a); Actions* p; std::memcpy( &p, a, sizeof( p)); delete p; return 0;}
EXPORT int posix_spawn_file_actions_addclose( posix_spawn_file_actions_t* a, int fd) noexcept { if( ! g_cur) return REAL( posix_spawn_file_actions_addclose)( a, fd); Actions* p; std::memcpy( &p, a, sizeof( p)); p->steps.push_back( { fd, -1}); return 0;}
EXPORT int posix_spawn_file_actions_adddup2( posix_spawn_file_actions_t* a, int fd, int to) noexcept { if( ! g_cur) return REAL( posix_spawn_file_actions_adddup2)( a, fd, to); Actions* p; std::memcpy( &p, a, sizeof( p)); p->steps.push_back( { fd, to}); return 0;}
EXPORT int posix_spawnattr_init( posix_spawnattr_t* a) noexcept { if( ! g_cur) return REAL( posix_spawnattr_init)( a); std::memset( a, 0, sizeof( *a)); return 0;}
EXPORT int posix_spawnattr_destroy( posix_spawnattr_t* a) noexcept { if( ! g_cur) return REAL( posix_spawnattr_destroy)( a); return 0;}
EXPORT int posix_spawnattr_setflags( posix_spawnattr_t* a, short f) noexcept { if( ! g_cur) return REAL( posix_spawnattr_setflags)( a, f); return 0;}
EXPORT int posix_spawnattr_setsigmask( posix_spawnattr_t* a, const sigset_t* s) noexcept { if( ! g_cur) return REAL( posix_spawnattr_setsigmask)( a, s); return 0;}

EXPORT int posix_spawnp( pid_t* pid, const char* path, const posix_spawn_file_actions_t* actions, const posix_spawnattr_t* attr, char* const argv[], char* const envp[])
{
   if( ! g_cur) return REAL( posix_spawnp)( pid, path, actions, attr, argv, envp);
   kernel->syscall( "spawn", true);
   auto p = g_cur;
   if( p->spawn_failures > 0)
   {
      --p->spawn_failures;
      std::vector< std::string> environment;
      for( auto e = envp; *e; ++e) environment.push_back( *e);
      auto alias = alias_of( environment);
      kernel->record( format( "\"e\":\"spawn-failed\",\"by\":\"%s\",\"path\":\"%s\",\"alias\":\"%s\"", escape( p->tag).c_str(), escape( path).c_str(), escape( alias).c_str()));
      return EAGAIN;
   }
   std::string full = path;
   if( full.find( '/') == std::string::npos) full = "/opt/casual/bin/" + full;
   auto inode = fs::lookup( p->machine, where( full.c_str()));
   auto exe = full.substr( full.rfind( '/') + 1);
   if( ! inode || ! image::known( exe)) return ENOENT;
   std::vector< std::string> args, env;
   for( auto a = argv; *a; ++a) args.push_back( *a);
   for( auto e = envp; *e; ++e) env.push_back( *e);
   auto fds = p->fds;
   for( auto fd : p->cloexec) if( fd < static_cast< int>( fds.size())) fds[ fd] = nullptr;
   if( actions)
   {
      Actions* a; std::memcpy( &a, actions, sizeof( a));
      for( auto& s : a->steps)
      {
         if( s.second == -1) { if( s.first < static_cast< int>( fds.size())) fds[ s.first] = nullptr;}
         else fds[ s.second] = p->fds.at( s.first);
      }
   }
   auto child = kernel->spawn( p->machine, p, full, std::move( args), std::move( env), std::move( fds), p->cwd);
   for( auto& s : p->sig) if( s.second.handler == SIG_IGN) child->sig[ s.first] = s.second;
   if( pid) *pid = child->pid;
   return 0;
}

// ------------------------------------------------------------------ time
EXPORT time_t time( time_t* t) noexcept
{
   if( ! g_cur) { auto r = REAL( time)( t); return r;}
   auto r = wall() / sec;
   if( t) *t = r;
   return r;
}

EXPORT int gettimeofday( struct timeval* tv, void* tz) noexcept
{
   if( ! g_cur) return REAL( gettimeofday)( tv, tz);
   auto w = wall();
   tv->tv_sec = w / sec; tv->tv_usec = w % sec / us;
   return 0;
}

EXPORT int clock_gettime( clockid_t id, struct timespec* ts) noexcept
{
   if( ! g_cur) return REAL( clock_gettime)( id, ts);
   auto w = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wall() : mono();
   // time is not free: somebody that polls the clock makes progress
   g_cur->debt += 50;
   ts->tv_sec = w / sec; ts->tv_nsec = w % sec;
   return 0;
}

EXPORT struct tm* localtime_r( const time_t* t, struct tm* r) noexcept
{
   if( ! g_cur) return REAL( localtime_r)( t, r);
   return gmtime_r( t, r);
}

static int do_sleep( Time t)
{
   kernel->syscall( "sleep", true);
   auto until = kernel->now + t;
   while( kernel->now < until)
      if( wait_some( until) == -1) return -1;
   return 0;
}

EXPORT int nanosleep( const struct timespec* t, struct timespec* rem)
{
   if( ! g_cur) return REAL( nanosleep)( t, rem);
   return do_sleep( t->tv_sec * sec + t->tv_nsec);
}

EXPORT int clock_nanosleep( clockid_t id, int flags, const struct timespec* t, struct timespec* rem)
{
   if( ! g_cur) return REAL( clock_nanosleep)( id, flags, t, rem);
   auto d = t->tv_sec * sec + t->tv_nsec;
   if( flags & TIMER_ABSTIME) d -= id == CLOCK_REALTIME ? wall() : mono();
   return do_sleep( std::max< Time>( d, 0)) == 0 ? 0 : errno;
}

EXPORT int usleep( useconds_t t) { if( ! g_cur) return REAL( usleep)( t); return do_sleep( t * us);}
EXPORT unsigned sleep( unsigned t) { if( ! g_cur) return REAL( sleep)( t); do_sleep( t * sec); return 0;}
EXPORT int sched_yield() noexcept { if( ! g_cur) return REAL( sched_yield)(); kernel->syscall( "yield", true); return 0;}

// ------------------------------------------------------------------ randomness
static void random_bytes( void* p, std::size_t n) { auto c = static_cast< unsigned char*>( p); for( std::size_t i = 0; i < n; ++i) c[ i] = g_cur->rng.next() >> 13;}
EXPORT void uuid_generate( unsigned char* out)
{
   if( g_cur) random_bytes( out, 16);
   else { static Rng r; for( int i = 0; i < 16; ++i) out[ i] = r.next();}
   out[ 6] = ( out[ 6] & 0x0f) | 0x40;
   out[ 8] = ( out[ 8] & 0x3f) | 0x80;
}
EXPORT void uuid_generate_random( unsigned char* out) { uuid_generate( out);}
EXPORT void uuid_copy( unsigned char* to, const unsigned char* from) { std::memcpy( to, from, 16);}
EXPORT void uuid_clear( unsigned char* to) { std::memset( to, 0, 16);}
EXPORT int uuid_is_null( const unsigned char* u) { for( int i = 0; i < 16; ++i) if( u[ i]) return 0; return 1;}
EXPORT int uuid_compare( const unsigned char* a, const unsigned char* b) { return std::memcmp( a, b, 16);}
EXPORT uint32_t arc4random() noexcept { if( ! g_cur) return REAL( arc4random)(); return g_cur->rng.next() >> 17;}
EXPORT ssize_t getrandom( void* p, size_t n, unsigned flags)
{
   if( ! g_cur) return reinterpret_cast< ssize_t(*)( void*, size_t, unsigned)>( dlsym( RTLD_NEXT, "getrandom"))( p, n, flags);
   random_bytes( p, n); return n;
}
EXPORT int getentropy( void* p, size_t n) { if( ! g_cur) return REAL( getentropy)( p, n); random_bytes( p, n); return 0;}
EXPORT int rand() noexcept { if( ! g_cur) return REAL( rand)(); return g_cur->rng.next() & 0x7fffffff;}
EXPORT long random() noexcept { if( ! g_cur) return REAL( random)(); return g_cur->rng.next() & 0x7fffffff;}

EXPORT unsigned sim_rd_getval( void*) asm( "_ZNSt13random_device9_M_getvalEv");
unsigned sim_rd_getval( void*) { return g_cur ? g_cur->rng.next() >> 19 : 42;}
EXPORT void sim_rd_init( void*, const std::string&) asm( "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void sim_rd_init( void*, const std::string&) {}
EXPORT void sim_rd_fini( void*) asm( "_ZNSt13random_device7_M_finiEv");
void sim_rd_fini( void*) {}

// ------------------------------------------------------------------ files
EXPORT int open64( const char* path, int flags, ...)
{
   mode_t mode = 0;
   if( flags & ( O_CREAT | O_TMPFILE)) { va_list ap; va_start( ap, flags); mode = va_arg( ap, int); va_end( ap);}
   if( ! g_cur) return REAL( open64)( path, flags, mode);
   return do_open( path, flags, mode);
}
EXPORT int open( const char* path, int flags, ...)
{
   mode_t mode = 0;
   if( flags & ( O_CREAT | O_TMPFILE)) { va_list ap; va_start( ap, flags); mode = va_arg( ap, int); va_end( ap);}
   if( ! g_cur) return REAL( open)( path, flags, mode);
   return do_open( path, flags, mode);
}
EXPORT int openat( int dir, const char* path, int flags, ...)
{
   mode_t mode = 0;
   if( flags & ( O_CREAT | O_TMPFILE)) { va_list ap; va_start( ap, flags); mode = va_arg( ap, int); va_end( ap);}
   if( ! g_cur) return REAL( openat)( dir, path, flags, mode);
   if( dir != AT_FDCWD && path[ 0] != '/')
   {
      auto f = get( dir);
      if( ! f || f->kind != File::k_regular) return fail( EBADF);
      return do_open( ( static_cast< Regular*>( f)->path + "/" + path).c_str(), flags, mode);
   }
   return do_open( path, flags, mode);
}
EXPORT int __openat_2( int dir, const char* path, int flags) { return openat( dir, path, flags);}
EXPORT int __open64_2( const char* path, int flags) { return open64( path, flags);}
EXPORT int __open_2( const char* path, int flags) { return open( path, flags);}

EXPORT int close( int fd)
{
   if( ! g_cur) return REAL( close)( fd);
   auto f = get( fd);
   if( ! f) return -1;
   kernel->syscall( "close", false);
   auto file = std::move( g_cur->fds[ fd]);
   g_cur->fds[ fd] = nullptr;
   if( --file->nfd == 0) file->last_close();
   return 0;
}

namespace
{
   ssize_t regular_read( Regular& f, std::size_t offset, char* data, std::size_t size)
   {
      if( auto e = kernel->disk_fault( g_cur, "read", f.path)) return fail( e);
      auto& d = f.inode->data;
      if( offset >= d.size()) return 0;
      auto n = std::min( size, d.size() - offset);
      std::memcpy( data, d.data() + offset, n);
      return n;
   }

   ssize_t do_read( int fd, char* data, std::size_t size)
   {
      auto f = get( fd);
      if( ! f) return -1;
      auto hold = g_cur->fds[ fd];
      kernel->syscall( "read", f->kind != File::k_regular);
      switch( f->kind)
      {
         case File::k_std: return 0;
         case File::k_regular:
         {
            auto& r = static_cast< Regular&>( *f);
            auto n = regular_read( r, r.pos, data, size);
            if( n > 0) r.pos += n;
            return n;
         }
         case File::k_pipe:
         {
            auto& p = static_cast< Pipe&>( *f);
            while( p.buffer->data.empty())
            {
               if( p.buffer->writers == 0) return 0;
               p.buffer->waiters.add( g_cur);
               if( wait_some() == -1) return -1;
            }
            auto n = std::min( size, p.buffer->data.size());
            std::memcpy( data, p.buffer->data.data(), n);
            p.buffer->data.erase( 0, n);
            p.buffer->waiters.wake();
            return n;
         }
         case File::k_stream: return stream_recv( std::static_pointer_cast< Stream>( hold), data, size, static_cast< Stream&>( *f).nonblock);
         default: return fail( EINVAL);
      }
   }

   ssize_t do_write( int fd, const char* data, std::size_t size)
   {
      auto f = get( fd);
      if( ! f) return -1;
      auto hold = g_cur->fds[ fd];
      kernel->syscall( "write", f->kind != File::k_regular && f->kind != File::k_std);
      switch( f->kind)
      {
         case File::k_std:
         {
            if( static_cast< Std&>( *f).which < 3 && g_cur->out.size() < 65536) g_cur->out.append( data, size);
            return size;
         }
         case File::k_regular:
         {
            auto& r = static_cast< Regular&>( *f);
            if( r.flags & O_APPEND) r.pos = r.inode->data.size();
            auto n = regular_write( r, r.pos, data, size);
            if( n > 0) r.pos += n;
            return n;
         }
         case File::k_pipe:
         {
            auto& p = static_cast< Pipe&>( *f);
            p.buffer->data.append( data, size);
            p.buffer->waiters.wake();
            return size;
         }
         case File::k_stream: return stream_send( std::static_pointer_cast< Stream>( hold), std::string( data, size), static_cast< Stream&>( *f).nonblock);
         default: return fail( EINVAL);
      }
   }
}

EXPORT ssize_t read( int fd, void* data, size_t size) { if( ! g_cur) return REAL( read)( fd, data, size); return do_read( fd, static_cast< char*>( data), size);}
EXPORT ssize_t __read_chk( int fd, void* data, size_t size, size_t) { return read( fd, data, size);}
EXPORT ssize_t write( int fd, const void* data, size_t size) { if( ! g_cur) return REAL( write)( fd, data, size); return do_write( fd, static_cast< const char*>( data), size);}
EXPORT ssize_t writev( int fd, const struct iovec* v, int n)
{
   if( ! g_cur) return REAL( writev)( fd, v, n);
   std::string all;
   for( int i = 0; i < n; ++i) all.append( static_cast< const char*>( v[ i].iov_base), v[ i].iov_len);
   return do_write( fd, all.data(), all.size());
}
EXPORT ssize_t pread64( int fd, void* data, size_t size, off64_t offset)
{
   if( ! g_cur) return REAL( pread64)( fd, data, size, offset);
   auto f = get< Regular>( fd, File::k_regular);
   if( ! f) return -1;
   kernel->syscall( "read", false);
   return regular_read( *f, offset, static_cast< char*>( data), size);
}
EXPORT ssize_t pread( int fd, void* data, size_t size, off_t offset) { if( ! g_cur) return REAL( pread)( fd, data, size, offset); return pread64( fd, data, size, offset);}
EXPORT ssize_t __pread64_chk( int fd, void* data, size_t size, off64_t offset, size_t) { return pread64( fd, data, size, offset);}
EXPORT ssize_t pwrite64( int fd, const void* data, size_t size, off64_t offset)
{
   if( ! g_cur) return REAL( pwrite64)( fd, data, size, offset);
   auto f = get< Regular>( fd, File::k_regular);
   if( ! f) return -1;
   kernel->syscall( "write", false);
   return regular_write( *f, offset, static_cast< const char*>( data), size);
}
EXPORT ssize_t pwrite( int fd, const void* data, size_t size, off_t offset) { if( ! g_cur) return REAL( pwrite)( fd, data, size, offset); return pwrite64( fd, data, size, offset);}

EXPORT off64_t lseek64( int fd, off64_t offset, int whence) noexcept
{
   if( ! g_cur) return REAL( lseek64)( fd, offset, whence);
   auto f = get( fd);
   if( ! f) return -1;
   if( f->kind != File::k_regular) return fail( ESPIPE);
   auto& r = static_cast< Regular&>( *f);
   auto base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast< off64_t>( r.pos) : static_cast< off64_t>( r.inode->data.size());
   if( base + offset < 0) return fail( EINVAL);
   return r.pos = base + offset;
}
EXPORT off_t lseek( int fd, off_t offset, int whence) noexcept { if( ! g_cur) return REAL( lseek)( fd, offset, whence); return lseek64( fd, offset, whence);}

static int do_fsync( int fd)
{
   auto f = get( fd);
   if( ! f) return -1;
   kernel->syscall( "fsync", true);
   if( f->kind != File::k_regular) return 0;
   auto& r = static_cast< Regular&>( *f);
   if( auto e = kernel->disk_fault( g_cur, "fsync", r.path)) return fail( e);
   fs::sync( *r.inode);
   kernel->count( "fsync");
   g_cur->debt += kernel->disk.range( 20 * us, 400 * us);
   return 0;
}
EXPORT int fsync( int fd) { if( ! g_cur) return REAL( fsync)( fd); return do_fsync( fd);}
EXPORT int fdatasync( int fd) { if( ! g_cur) return REAL( fdatasync)( fd); return do_fsync( fd);}

EXPORT int ftruncate64( int fd, off64_t size) noexcept
{
   if( ! g_cur) return REAL( ftruncate64)( fd, size);
   auto f = get< Regular>( fd, File::k_regular);
   if( ! f) return -1;
   kernel->syscall( "ftruncate", false);
   if( auto e = kernel->disk_fault( g_cur, "write", f->path)) { if( e > 0) return fail( e);}
   disk_time();
   fs::truncate( *f->inode, size);
   return 0;
}
EXPORT int ftruncate( int fd, off_t size) noexcept { if( ! g_cur) return REAL( ftruncate)( fd, size); return ftruncate64( fd, size);}

EXPORT int stat64( const char* path, struct stat64* st) noexcept { if( ! g_cur) return REAL( stat64)( path, st); return do_stat( path, reinterpret_cast< struct stat*>( st));}
EXPORT int lstat64( const char* path, struct stat64* st) noexcept { if( ! g_cur) return REAL( lstat64)( path, st); return do_stat( path, reinterpret_cast< struct stat*>( st));}
EXPORT int stat( const char* path, struct stat* st) noexcept { if( ! g_cur) return REAL( stat)( path, st); return do_stat( path, st);}
EXPORT int lstat( const char* path, struct stat* st) noexcept { if( ! g_cur) return REAL( lstat)( path, st); return do_stat( path, st);}
EXPORT int fstat64( int fd, struct stat64* st) noexcept { if( ! g_cur) return REAL( fstat64)( fd, st); return do_fstat( fd, reinterpret_cast< struct stat*>( st));}
EXPORT int fstat( int fd, struct stat* st) noexcept { if( ! g_cur) return REAL( fstat)( fd, st); return do_fstat( fd, st);}

EXPORT int access( const char* path, int mode) noexcept
{
   if( ! g_cur) return REAL( access)( path, mode);
   kernel->syscall( "access", false);
   auto i = fs::lookup( g_cur->machine, where( path));
   if( ! i) return fail( ENOENT);
   if( ( mode & X_OK) && ! ( i->mode & 0111)) return fail( EACCES);
   return 0;
}

EXPORT int mkdir( const char* path, mode_t mode) noexcept
{
   if( ! g_cur) return REAL( mkdir)( path, mode);
   kernel->syscall( "mkdir", false);
   auto full = where( path);
   if( fs::lookup( g_cur->machine, full)) return fail( EEXIST);
   std::string name;
   auto dir = fs::parent( g_cur->machine, full, name);
   if( ! dir) return fail( ENOENT);
   dir->entries[ name] = fs::make( Inode::directory);
   return 0;
}

static int do_unlink( const char* path, bool directory)
{
   kernel->syscall( "unlink", false);
   auto full = where( path);
   std::string name;
   auto dir = fs::parent( g_cur->machine, full, name);
   if( ! dir) return fail( ENOENT);
   auto f = dir->entries.find( name);
   if( f == dir->entries.end()) return fail( ENOENT);
   if( directory != ( f->second->type == Inode::directory)) return fail( directory ? ENOTDIR : EISDIR);
   if( directory && ! f->second->entries.empty()) return fail( ENOTEMPTY);
   if( f->second->type == Inode::regular)
      if( auto e = kernel->disk_fault( g_cur, "unlink", full)) return fail( e);
   dir->entries.erase( f);
   return 0;
}

EXPORT int unlink( const char* path) noexcept { if( ! g_cur) return REAL( unlink)( path); return do_unlink( path, false);}
EXPORT int unlinkat( int dir, const char* path, int flags) noexcept { if( ! g_cur) return REAL( unlinkat)( dir, path, flags); return do_unlink( path, flags & AT_REMOVEDIR);}
EXPORT int rmdir( const char* path) noexcept { if( ! g_cur) return REAL( rmdir)( path); return do_unlink( path, true);}
EXPORT int remove( const char* path) noexcept
{
   if( ! g_cur) return REAL( remove)( path);
   auto i = fs::lookup( g_cur->machine, where( path));
   if( ! i) return fail( ENOENT);
   return do_unlink( path, i->type == Inode::directory);
}
EXPORT int rename( const char* from, const char* to) noexcept
{
   if( ! g_cur) return REAL( rename)( from, to);
   kernel->syscall( "rename", false);
   std::string a, b;
   auto da = fs::parent( g_cur->machine, where( from), a);
   auto db = fs::parent( g_cur->machine, where( to), b);
   if( ! da || ! db || ! da->entries.count( a)) return fail( ENOENT);
   db->entries[ b] = da->entries[ a];
   da->entries.erase( a);
   return 0;
}
EXPORT int chmod( const char* path, mode_t mode) noexcept { if( ! g_cur) return REAL( chmod)( path, mode); return 0;}
EXPORT int fchmod( int fd, mode_t mode) noexcept { if( ! g_cur) return REAL( fchmod)( fd, mode); return 0;}
EXPORT int fchmodat( int d, const char* path, mode_t mode, int f) noexcept { if( ! g_cur) return REAL( fchmodat)( d, path, mode, f); return 0;}
EXPORT int fchown( int fd, uid_t u, gid_t g) noexcept { if( ! g_cur) return REAL( fchown)( fd, u, g); return 0;}
EXPORT int utime( const char* p, const struct utimbuf* t) noexcept { if( ! g_cur) return REAL( utime)( p, t); return 0;}
EXPORT ssize_t readlink( const char* path, char* buffer, size_t size) noexcept
{
   if( ! g_cur) return REAL( readlink)( path, buffer, size);
   if( std::string( path) == "/proc/self/exe")
   {
      auto s = "/opt/casual/bin/" + g_cur->exe;
      auto n = std::min( s.size(), size);
      std::memcpy( buffer, s.data(), n);
      return n;
   }
   return fail( fs::lookup( g_cur->machine, where( path)) ? EINVAL : ENOENT);
}
EXPORT char* getcwd( char* buffer, size_t size) noexcept
{
   if( ! g_cur) return REAL( getcwd)( buffer, size);
   if( ! buffer) return strdup( g_cur->cwd.c_str());
   if( g_cur->cwd.size() + 1 > size) { errno = ERANGE; return nullptr;}
   return std::strcpy( buffer, g_cur->cwd.c_str());
}
EXPORT int chdir( const char* path) noexcept { if( ! g_cur) return REAL( chdir)( path); g_cur->cwd = where( path); return 0;}
EXPORT char* realpath( const char* path, char* resolved) noexcept
{
   if( ! g_cur) return REAL( realpath)( path, resolved);
   auto full = where( path);
   if( ! fs::lookup( g_cur->machine, full)) { errno = ENOENT; return nullptr;}
   return resolved ? std::strcpy( resolved, full.c_str()) : strdup( full.c_str());
}
EXPORT int isatty( int fd) noexcept { if( ! g_cur) return REAL( isatty)( fd); errno = ENOTTY; return 0;}
EXPORT int symlink( const char* a, const char* b) noexcept { if( ! g_cur) return REAL( symlink)( a, b); return fail( EPERM);}
EXPORT int link( const char* a, const char* b) noexcept { if( ! g_cur) return REAL( link)( a, b); return fail( EPERM);}
// sqlite maps the index of its write-ahead log; the memory belongs to the file, every process that maps it gets the same
static void* do_mmap( int fd, size_t n, int prot, int flags, off64_t offset)
{
   auto f = get< Regular>( fd, File::k_regular);
   if( ! f) return MAP_FAILED;
   kernel->syscall( "mmap", true);
   if( ! ( flags & MAP_SHARED)) { errno = ENODEV; return MAP_FAILED;}
   auto& region = f->inode->mapped[ offset];
   if( ! region.first)
   {
      region.first = static_cast< char*>( aligned_alloc( 4096, ( n + 4095) & ~4095ul));
      region.second = n;
      std::memset( region.first, 0, n);
   }
   if( region.second < n) { errno = ENODEV; return MAP_FAILED;}
   return region.first;
}
EXPORT void* mmap64( void* a, size_t n, int prot, int flags, int fd, off64_t o) noexcept
{
   if( g_cur && fd >= 0) return do_mmap( fd, n, prot, flags, o);
   return REAL( mmap64)( a, n, prot, flags, fd, o);
}
EXPORT void* mmap( void* a, size_t n, int prot, int flags, int fd, off_t o) noexcept
{
   if( g_cur && fd >= 0) return do_mmap( fd, n, prot, flags, o);
   return REAL( mmap64)( a, n, prot, flags, fd, o);
}
EXPORT int munmap( void* a, size_t n) noexcept
{
   if( g_cur) return 0;
   return reinterpret_cast< int(*)( void*, size_t)>( dlsym( RTLD_NEXT, "munmap"))( a, n);
}
EXPORT int pthread_create( pthread_t* t, const pthread_attr_t* a, void* (*f)( void*), void* arg) noexcept
{
   if( g_cur) return EAGAIN;
   return REAL( pthread_create)( t, a, f, arg);
}

static int do_fcntl( int fd, int cmd, long arg)
{
   auto f = get( fd);
   if( ! f) return -1;
   switch( cmd)
   {
      case F_GETFL: return f->flags;
      case F_SETFL:
         f->flags = arg;
         if( f->kind == File::k_stream) static_cast< Stream*>( f)->nonblock = arg & O_NONBLOCK;
         return 0;
      case F_GETFD: return g_cur->cloexec.count( fd) ? FD_CLOEXEC : 0;
      case F_SETFD: if( arg & FD_CLOEXEC) g_cur->cloexec.insert( fd); else g_cur->cloexec.erase( fd); return 0;
      case F_DUPFD: case F_DUPFD_CLOEXEC: return close_on_exec( install( g_cur->fds[ fd], arg), cmd == F_DUPFD_CLOEXEC);
      case F_GETLK: reinterpret_cast< struct flock*>( arg)->l_type = F_UNLCK; return 0;
      case F_SETLK: case F_SETLKW: return 0;
      default: return 0;
   }
}
EXPORT int fcntl( int fd, int cmd, ...) { va_list ap; va_start( ap, cmd); auto arg = va_arg( ap, long); va_end( ap); if( ! g_cur) return REAL( fcntl)( fd, cmd, arg); return do_fcntl( fd, cmd, arg);}
EXPORT int fcntl64( int fd, int cmd, ...) { va_list ap; va_start( ap, cmd); auto arg = va_arg( ap, long); va_end( ap); if( ! g_cur) return REAL( fcntl64)( fd, cmd, arg); return do_fcntl( fd, cmd, arg);}
EXPORT int ioctl( int fd, unsigned long request, ...) noexcept
{
   va_list ap; va_start( ap, request); auto arg = va_arg( ap, void*); va_end( ap);
   if( ! g_cur) return REAL( ioctl)( fd, request, arg);
   return fail( ENOTTY);
}
EXPORT int dup( int fd) noexcept { if( ! g_cur) return REAL( dup)( fd); if( ! get( fd)) return -1; return install( g_cur->fds[ fd], 0);}
EXPORT int pipe( int* fds) noexcept
{
   if( ! g_cur) return REAL( pipe)( fds);
   auto b = std::make_shared< Pipe::Buffer>();
   auto r = std::make_shared< Pipe>( false); r->buffer = b; b->readers = 1;
   auto w = std::make_shared< Pipe>( true); w->buffer = b; b->writers = 1;
   fds[ 0] = install( r); fds[ 1] = install( w);
   return 0;
}

EXPORT int glob( const char* pattern, int flags, int (*)( const char*, int), glob_t* g)
{
   kernel->syscall( "glob", false);
   auto r = fs::glob( g_cur->machine, where( pattern));
   std::size_t base = ( flags & GLOB_APPEND) ? g->gl_pathc : 0;
   if( ! base) { g->gl_pathc = 0; g->gl_pathv = nullptr;}
   if( r.empty() && ! ( flags & GLOB_NOCHECK)) { if( ! base) { g->gl_pathv = static_cast< char**>( calloc( 1, sizeof( char*)));} return GLOB_NOMATCH;}
   g->gl_pathv = static_cast< char**>( realloc( g->gl_pathv, sizeof( char*) * ( base + r.size() + 1)));
   for( auto& s : r) g->gl_pathv[ g->gl_pathc++] = strdup( s.c_str());
   g->gl_pathv[ g->gl_pathc] = nullptr;
   return 0;
}
EXPORT int glob64( const char* pattern, int flags, int (*e)( const char*, int), glob64_t* g) { return glob( pattern, flags, e, reinterpret_cast< glob_t*>( g));}
EXPORT void globfree( glob_t* g) noexcept { for( std::size_t i = 0; i < g->gl_pathc; ++i) free( g->gl_pathv[ i]); free( g->gl_pathv); g->gl_pathc = 0; g->gl_pathv = nullptr;}

EXPORT DIR* opendir( const char* path)
{
   if( ! g_cur) return REAL( opendir)( path);
   kernel->syscall( "opendir", false);
   auto full = where( path);
   auto i = fs::lookup( g_cur->machine, full);
   if( ! i) { errno = ENOENT; return nullptr;}
   if( i->type != Inode::directory) { errno = ENOTDIR; return nullptr;}
   auto d = new FakeDir{};
   d->path = full;
   d->fd = -1;
   for( auto& e : i->entries) d->entries.emplace_back( e.first, e.second->type == Inode::directory ? DT_DIR : e.second->type == Inode::socket ? DT_SOCK : DT_REG);
   return reinterpret_cast< DIR*>( d);
}
EXPORT DIR* fdopendir( int fd)
{
   if( ! g_cur) return REAL( fdopendir)( fd);
   auto f = get< Regular>( fd, File::k_regular);
   if( ! f) return nullptr;
   auto d = opendir( f->path.c_str());
   if( d) reinterpret_cast< FakeDir*>( d)->fd = fd;
   return d;
}
EXPORT int dirfd( DIR* d) noexcept { if( ! g_cur) return REAL( dirfd)( d); auto f = reinterpret_cast< FakeDir*>( d); if( f->fd < 0) { f->fd = do_open( f->path.c_str(), O_RDONLY | O_DIRECTORY, 0);} return f->fd;}
EXPORT struct dirent* readdir( DIR* d)
{
   if( ! g_cur) return REAL( readdir)( d);
   auto f = reinterpret_cast< FakeDir*>( d);
   if( f->pos >= f->entries.size()) return nullptr;
   std::memset( &f->current, 0, sizeof( f->current));
   auto& e = f->entries[ f->pos++];
   f->current.d_ino = f->pos + 1;
   f->current.d_type = e.second;
   std::strncpy( f->current.d_name, e.first.c_str(), sizeof( f->current.d_name) - 1);
   return &f->current;
}
EXPORT int closedir( DIR* d) { if( ! g_cur) return REAL( closedir)( d); auto f = reinterpret_cast< FakeDir*>( d); if( f->fd >= 0) close( f->fd); delete f; return 0;}

// ------------------------------------------------------------------ stdio
static FILE* do_fopen( const char* path, const char* mode)
{
   int flags = 0;
   bool plus = std::strchr( mode, '+');
   switch( mode[ 0])
   {
      case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
      case 'w': flags = ( plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
      case 'a': flags = ( plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
   }
   auto fd = do_open( path, flags, 0644);
   if( fd < 0) return nullptr;
   auto f = new FakeFile{ magic, fd, false, false, -1};
   return reinterpret_cast< FILE*>( f);
}
EXPORT FILE* fopen( const char* path, const char* mode) { if( ! g_cur) return REAL( fopen)( path, mode); return do_fopen( path, mode);}
EXPORT FILE* fopen64( const char* path, const char* mode) { if( ! g_cur) return REAL( fopen64)( path, mode); return do_fopen( path, mode);}
EXPORT int fclose( FILE* f)
{
   if( auto k = fake( f)) { if( g_cur) close( k->fd); delete k; return 0;}
   if( g_cur) return 0;
   return REAL( fclose)( f);
}
EXPORT int fflush( FILE* f) { if( g_cur) return 0; return REAL( fflush)( f);}
EXPORT int fileno( FILE* f) noexcept { if( auto k = fake( f)) return k->fd; if( g_cur) return f == stdin ? 0 : f == stdout ? 1 : 2; return REAL( fileno)( f);}
EXPORT int setvbuf( FILE* f, char* b, int m, size_t n) noexcept { if( g_cur) return 0; return REAL( setvbuf)( f, b, m, n);}
EXPORT int ferror( FILE* f) noexcept { if( auto k = fake( f)) return k->error; if( g_cur) return 0; return REAL( ferror)( f);}
EXPORT int feof( FILE* f) noexcept { if( auto k = fake( f)) return k->eof; if( g_cur) return 0; return REAL( feof)( f);}
EXPORT size_t fread( void* p, size_t n, size_t c, FILE* f)
{
   if( ! g_cur) return REAL( fread)( p, n, c, f);
   auto k = fake( f);
   if( ! k) return 0;
   auto r = do_read( k->fd, static_cast< char*>( p), n * c);
   if( r < 0) { k->error = true; return 0;}
   if( r < static_cast< ssize_t>( n * c)) k->eof = true;
   return r / n;
}
EXPORT size_t fwrite( const void* p, size_t n, size_t c, FILE* f)
{
   if( ! g_cur) return REAL( fwrite)( p, n, c, f);
   auto r = do_write( fileno( f), static_cast< const char*>( p), n * c);
   if( r < 0) { if( auto k = fake( f)) k->error = true; return 0;}
   return r / n;
}
EXPORT int putc( int c, FILE* f) { if( ! g_cur) return REAL( putc)( c, f); char b = c; return do_write( fileno( f), &b, 1) == 1 ? c : EOF;}
EXPORT int fputc( int c, FILE* f) { if( ! g_cur) return REAL( fputc)( c, f); return putc( c, f);}
EXPORT int fputs( const char* s, FILE* f) { if( ! g_cur) return REAL( fputs)( s, f); do_write( fileno( f), s, std::strlen( s)); return 1;}
EXPORT int getc( FILE* f) { if( ! g_cur) return REAL( getc)( f); return EOF;}

// ------------------------------------------------------------------ sockets
namespace
{
   std::string unix_path( const struct sockaddr* a) { return where( reinterpret_cast< const struct sockaddr_un*>( a)->sun_path);}

   Machine* target( const struct sockaddr* a, int& port)
   {
      auto in = reinterpret_cast< const struct sockaddr_in*>( a);
      port = ntohs( in->sin_port);
      auto ip = ntohl( in->sin_addr.s_addr);
      if( ip == 0 || ( ip >> 24) == 127) return g_cur->machine;
      auto index = static_cast< int>( ip & 0xff) - 1;
      if( index < 0 || index >= static_cast< int>( kernel->machines.size())) return nullptr;
      return kernel->machines[ index].get();
   }

   void address( Machine* m, int port, struct sockaddr* a, socklen_t* size)
   {
      struct sockaddr_in in{};
      in.sin_family = AF_INET;
      in.sin_port = htons( port);
      in.sin_addr.s_addr = htonl( m ? ( 10u << 24) + m->index + 1 : 0);
      std::memcpy( a, &in, std::min< std::size_t>( *size, sizeof( in)));
      *size = sizeof( in);
   }

   void attempt( std::shared_ptr< Stream> c, Machine* to, int port, int n)
   {
      if( c->closed || c->state != Stream::connecting) return;
      if( kernel->partitioned( c->machine, to) || ! to->up)
      {
         if( n >= 5) { kernel->kill_stream( c, ETIMEDOUT); return;}
         kernel->at( kernel->now + ( sec << n), true, [ c, to, port, n](){ attempt( c, to, port, n + 1);});
         return;
      }
      auto f = to->listeners.find( port);
      auto listener = f == to->listeners.end() ? std::shared_ptr< Stream>{} : f->second.lock();
      if( ! listener || listener->closed)
      {
         kernel->at( kernel->now + kernel->latency(), false, [ c](){ kernel->kill_stream( c, ECONNREFUSED);});
         return;
      }
      auto s = std::make_shared< Stream>();
      s->machine = to; s->peer_machine = c->machine; s->local_port = port; s->peer_port = c->local_port;
      s->state = Stream::connected;
      s->id = kernel->next_stream++;
      s->peer = c; c->peer = s;
      kernel->streams.push_back( s);
      listener->backlog.push_back( s);
      listener->waiters.wake();
      kernel->count( "tcp-connect");
      kernel->at( kernel->now + kernel->latency(), false, [ c]()
      {
         if( c->closed || c->state != Stream::connecting) return;
         c->state = Stream::connected;
         c->waiters.wake();
      });
   }

   ssize_t stream_send( const std::shared_ptr< Stream>& s, const std::string& data, bool nonblock)
   {
      auto self = g_cur;
      while( true)
      {
         if( s->reset || s->state == Stream::dead)
         {
            auto e = s->error ? s->error : EPIPE;
            s->error = 0;
            return fail( e);
         }
         if( s->state != Stream::connected) return fail( ENOTCONN);
         auto room = s->room();
         if( room > 0)
         {
            auto n = std::min( room, data.size());
            if( n > 1 && kernel->short_ppm && kernel->net.chance( kernel->short_ppm)) { n = 1 + kernel->net.below( n - 1); kernel->count( "fault:short-write");}
            auto p = s->peer.lock();
            if( ! p) return n;
            p->in_flight += n;
            // a segment might be split
            std::size_t split = n > 1 && kernel->short_ppm && kernel->net.chance( kernel->short_ppm) ? 1 + kernel->net.below( n - 1) : n;
            kernel->transmit( p, { data.substr( 0, split), false, false}, s->machine);
            if( split < n) kernel->transmit( p, { data.substr( split, n - split), false, false}, s->machine);
            kernel->tracef( "tcp %d -> %zu of %zu", s->id, n, data.size());
            return n;
         }
         if( nonblock) { kernel->count( "tcp-would-block"); return fail( EAGAIN);}
         s->waiters.add( self);
         if( wait_some() == -1) return -1;
      }
   }

   ssize_t stream_recv( const std::shared_ptr< Stream>& s, char* data, std::size_t size, bool nonblock)
   {
      auto self = g_cur;
      while( true)
      {
         if( ! s->rx.empty())
         {
            auto n = std::min( size, s->rx.size());
            if( n > 1 && kernel->short_ppm && kernel->net.chance( kernel->short_ppm)) { n = 1 + kernel->net.below( n - 1); kernel->count( "fault:short-read");}
            std::memcpy( data, s->rx.data(), n);
            s->rx.erase( 0, n);
            if( auto p = s->peer.lock()) p->waiters.wake();
            return n;
         }
         if( s->reset || s->state == Stream::dead)
         {
            if( ! s->error) return 0;
            auto e = s->error;
            s->error = 0;
            return fail( e);
         }
         if( s->eof) return 0;
         if( s->state != Stream::connected) return fail( ENOTCONN);
         if( nonblock) return fail( EAGAIN);
         s->waiters.add( self);
         if( wait_some() == -1) return -1;
      }
   }

   ssize_t dgram_send( const char* data, std::size_t size, int flags, const struct sockaddr* to)
   {
      auto p = g_cur;
      if( ! to) return fail( ENOTCONN);
      if( to->sa_family != AF_UNIX) return fail( EINVAL);
      auto type = message_type( data);
      auto first = message_offset( data) == 0;
      if( first && ! kernel->faults.empty()) kernel->on_message( p, Fault::t_send, type);
      auto path = unix_path( to);
      while( true)
      {
         auto i = fs::lookup( p->machine, path);
         if( ! i) return fail( ENOENT);
         if( i->type != Inode::socket || ! i->dgram) return fail( ECONNREFUSED);
         auto d = i->dgram;
         if( static_cast< std::int64_t>( d->queue.size()) < kernel->dgram_cap)
         {
            d->queue.push_back( { std::string( data, size), p->tag});
            p->fruitless = 0;
            kernel->mix( ( static_cast< std::uint64_t>( type) << 32) ^ size);
            kernel->count( "ipc-sent");
            kernel->tracef( "send %u -> %s (%zu)", type, d->owner.c_str(), size);
            d->readers.wake();
            if( first) record_message( "msg-sent", type, d->owner, data);
            if( message_last( data)) record_message( "msg-whole", type, d->owner, data);
            if( first && ! kernel->faults.empty()) kernel->on_message( p, Fault::t_sent, type);
            return size;
         }
         kernel->count( "ipc-would-block");
         if( flags & MSG_DONTWAIT)
         {
            // one that tries over and over again is descheduled for longer and longer
            if( ++p->fruitless > 64) p->debt += std::min< Time>( p->fruitless * us, 2 * ms);
            return fail( EAGAIN);
         }
         d->writers.add( p);
         if( wait_some() == -1) return -1;
      }
   }
}

EXPORT int socket( int domain, int type, int) noexcept
{
   if( ! g_cur) return REAL( socket)( domain, type, 0);
   kernel->syscall( "socket", false);
   if( domain == AF_UNIX)
   {
      auto d = std::make_shared< Dgram>();
      d->machine = g_cur->machine;
      return close_on_exec( install( d), type & SOCK_CLOEXEC);
   }
   auto s = std::make_shared< Stream>();
   s->machine = g_cur->machine;
   s->id = kernel->next_stream++;
   s->owner = g_cur->tag;
   kernel->streams.push_back( s);
   s->nonblock = type & SOCK_NONBLOCK;
   return close_on_exec( install( s), type & SOCK_CLOEXEC);
}

EXPORT int bind( int fd, const struct sockaddr* a, socklen_t size) noexcept
{
   if( ! g_cur) return REAL( bind)( fd, a, size);
   kernel->syscall( "bind", false);
   auto f = get( fd);
   if( ! f) return -1;
   if( f->kind == File::k_dgram)
   {
      auto path = unix_path( a);
      std::string name;
      auto dir = fs::parent( g_cur->machine, path, name);
      if( ! dir) return fail( ENOENT);
      if( dir->entries.count( name)) return fail( EADDRINUSE);
      auto i = fs::make( Inode::socket);
      auto d = static_cast< Dgram*>( f);
      i->dgram = d;
      d->inode = i;
      d->path = path;
      d->owner = g_cur->tag;
      kernel->tracef( "bind %d %s", fd, path.c_str());
      dir->entries[ name] = i;
      return 0;
   }
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   int port = 0;
   target( a, port);
   auto& l = g_cur->machine->listeners;
   if( auto x = l.find( port); x != l.end() && x->second.lock()) return fail( EADDRINUSE);
   s->local_port = port ? port : g_cur->machine->next_port++;
   return 0;
}

EXPORT int listen( int fd, int n) noexcept
{
   if( ! g_cur) return REAL( listen)( fd, n);
   kernel->syscall( "listen", true);
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   auto& l = g_cur->machine->listeners;
   if( auto x = l.find( s->local_port); x != l.end() && x->second.lock()) return fail( EADDRINUSE);
   s->state = Stream::listening;
   l[ s->local_port] = s;
   return 0;
}

EXPORT int accept( int fd, struct sockaddr* a, socklen_t* size)
{
   if( ! g_cur) return REAL( accept)( fd, a, size);
   kernel->syscall( "accept", true);
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   if( s->state != Stream::listening) return fail( EINVAL);
   while( s->backlog.empty())
   {
      if( s->nonblock) return fail( EAGAIN);
      s->waiters.add( g_cur);
      if( wait_some() == -1) return -1;
   }
   auto c = s->backlog.front();
   s->backlog.pop_front();
   c->owner = g_cur->tag;
   if( a) address( c->peer_machine, c->peer_port, a, size);
   return install( c);
}

EXPORT int connect( int fd, const struct sockaddr* a, socklen_t size)
{
   if( ! g_cur) return REAL( connect)( fd, a, size);
   kernel->syscall( "connect", true);
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   if( s->state == Stream::connecting) return fail( EALREADY);
   if( s->state == Stream::connected) return fail( EISCONN);
   int port = 0;
   auto m = target( a, port);
   if( ! m) return fail( EHOSTUNREACH);
   s->state = Stream::connecting;
   s->peer_machine = m;
   s->peer_port = port;
   if( ! s->local_port) s->local_port = g_cur->machine->next_port++;
   kernel->at( kernel->now + kernel->latency(), false, [ s, m, port](){ attempt( s, m, port, 0);});
   if( s->nonblock) return fail( EINPROGRESS);
   while( s->state == Stream::connecting)
   {
      s->waiters.add( g_cur);
      if( wait_some() == -1) return -1;
   }
   if( s->state != Stream::connected) { auto e = s->error; s->error = 0; return fail( e);}
   return 0;
}

EXPORT int shutdown( int fd, int how) noexcept
{
   if( ! g_cur) return REAL( shutdown)( fd, how);
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   if( s->state == Stream::connected)
      if( auto p = s->peer.lock()) kernel->transmit( p, { {}, true, false}, s->machine);
   return 0;
}

EXPORT int getsockopt( int fd, int level, int name, void* value, socklen_t* size) noexcept
{
   if( ! g_cur) return REAL( getsockopt)( fd, level, name, value, size);
   auto f = get( fd);
   if( ! f) return -1;
   int v = 0;
   if( level == SOL_SOCKET && name == SO_ERROR && f->kind == File::k_stream) { auto s = static_cast< Stream*>( f); v = s->error; s->error = 0;}
   std::memset( value, 0, *size);
   std::memcpy( value, &v, std::min< std::size_t>( *size, sizeof( v)));
   return 0;
}
EXPORT int setsockopt( int fd, int level, int name, const void* value, socklen_t size) noexcept
{
   if( ! g_cur) return REAL( setsockopt)( fd, level, name, value, size);
   return get( fd) ? 0 : -1;
}
EXPORT int getsockname( int fd, struct sockaddr* a, socklen_t* size) noexcept
{
   if( ! g_cur) return REAL( getsockname)( fd, a, size);
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   address( s->state == Stream::listening ? nullptr : s->machine, s->local_port, a, size);
   return 0;
}
EXPORT int getpeername( int fd, struct sockaddr* a, socklen_t* size) noexcept
{
   if( ! g_cur) return REAL( getpeername)( fd, a, size);
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   if( s->state != Stream::connected) return fail( ENOTCONN);
   address( s->peer_machine, s->peer_port, a, size);
   return 0;
}

EXPORT ssize_t sendto( int fd, const void* data, size_t size, int flags, const struct sockaddr* to, socklen_t n)
{
   if( ! g_cur) return REAL( sendto)( fd, data, size, flags, to, n);
   kernel->syscall( "send", true);
   auto f = get( fd);
   if( ! f) return -1;
   auto hold = g_cur->fds[ fd];
   if( f->kind == File::k_dgram) return dgram_send( static_cast< const char*>( data), size, flags, to);
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   return stream_send( s, std::string( static_cast< const char*>( data), size), s->nonblock || ( flags & MSG_DONTWAIT));
}
EXPORT ssize_t send( int fd, const void* data, size_t size, int flags) { if( ! g_cur) return REAL( send)( fd, data, size, flags); return sendto( fd, data, size, flags, nullptr, 0);}

EXPORT ssize_t sendmsg( int fd, const struct msghdr* m, int flags)
{
   if( ! g_cur) return REAL( sendmsg)( fd, m, flags);
   kernel->syscall( "sendmsg", true);
   auto s = get< Stream>( fd, File::k_stream);
   if( ! s) return -1;
   std::string all;
   for( std::size_t i = 0; i < m->msg_iovlen; ++i) all.append( static_cast< const char*>( m->msg_iov[ i].iov_base), m->msg_iov[ i].iov_len);
   return stream_send( s, all, s->nonblock || ( flags & MSG_DONTWAIT));
}

EXPORT ssize_t recv( int fd, void* data, size_t size, int flags)
{
   if( ! g_cur) return REAL( recv)( fd, data, size, flags);
   kernel->syscall( "recv", true);
   auto f = get( fd);
   if( ! f) return -1;
   auto hold = g_cur->fds[ fd];
   if( f->kind == File::k_stream)
   {
      auto s = get< Stream>( fd, File::k_stream);
      return stream_recv( s, static_cast< char*>( data), size, s->nonblock || ( flags & MSG_DONTWAIT));
   }
   if( f->kind != File::k_dgram) return fail( ENOTSOCK);
   auto d = static_cast< Dgram*>( f);
   while( d->queue.empty())
   {
      if( flags & MSG_DONTWAIT) return fail( EAGAIN);
      d->readers.add( g_cur);
      if( wait_some() == -1) return -1;
   }
   auto packet = std::move( d->queue.front());
   d->queue.pop_front();
   d->writers.wake();
   auto n = std::min( size, packet.data.size());
   std::memcpy( data, packet.data.data(), n);
   auto type = message_type( data);
   if( message_offset( data) == 0)
   {
      auto p = g_cur;
      auto h = hash_string( p->exe);
      kernel->bigrams.insert( h ^ ( static_cast< std::uint64_t>( p->last_message) << 20) ^ type * 0x9e3779b97f4a7c15ull);
      p->last_message = type;
      kernel->order_hash = ( kernel->order_hash ^ ( hash_string( p->tag) + type * 31 + hash_string( packet.from) * 7)) * 0x100000001b3ull;
      kernel->count( "ipc-received");
      kernel->tracef( "recv %u <- %s", type, packet.from.c_str());
      record_message( "msg-received", type, packet.from, static_cast< const char*>( data));
      if( ! kernel->faults.empty()) kernel->on_message( p, Fault::t_recv, type);
   }
   return n;
}

EXPORT int pselect( int nfds, fd_set* read, fd_set* write, fd_set* except, const struct timespec* timeout, const sigset_t* mask)
{
   if( ! g_cur) return REAL( pselect)( nfds, read, write, except, timeout, mask);
   kernel->syscall( "select", true);
   auto p = g_cur;
   auto deadline = timeout ? kernel->now + timeout->tv_sec * sec + timeout->tv_nsec : -1;
   auto effective = mask ? bits( mask) : p->blocked_sig;
   std::vector< std::pair< int, FilePtr>> r, w;
   for( int i = 0; i < nfds; ++i)
   {
      bool ir = read && FD_ISSET( i, read), iw = write && FD_ISSET( i, write);
      if( ! ir && ! iw) continue;
      if( ! get( i)) return -1;
      if( ir) r.emplace_back( i, p->fds[ i]);
      if( iw) w.emplace_back( i, p->fds[ i]);
   }
   while( true)
   {
      int n = 0;
      for( auto& e : r) if( e.second->readable()) ++n;
      for( auto& e : w) if( e.second->writable()) ++n;
      if( n)
      {
         if( read) FD_ZERO( read);
         if( write) FD_ZERO( write);
         if( except) FD_ZERO( except);
         for( auto& e : r) if( e.second->readable()) FD_SET( e.first, read);
         for( auto& e : w) if( e.second->writable()) FD_SET( e.first, write);
         return n;
      }
      if( p->pending_sig & ~effective)
      {
         auto saved = p->blocked_sig;
         p->blocked_sig = effective;
         auto ran = kernel->deliver( p);
         p->blocked_sig = saved;
         if( ran) return fail( EINTR);
      }
      if( deadline >= 0 && kernel->now >= deadline)
      {
         if( read) FD_ZERO( read);
         if( write) FD_ZERO( write);
         return 0;
      }
      for( auto& e : r) e.second->wait( p);
      for( auto& e : w) e.second->wait( p);
      kernel->block( deadline, effective);
   }
}

EXPORT int select( int nfds, fd_set* read, fd_set* write, fd_set* except, struct timeval* timeout)
{
   if( ! g_cur) return REAL( select)( nfds, read, write, except, timeout);
   struct timespec ts{};
   if( timeout) { ts.tv_sec = timeout->tv_sec; ts.tv_nsec = timeout->tv_usec * 1000;}
   return pselect( nfds, read, write, except, timeout ? &ts : nullptr, nullptr);
}

EXPORT int poll( struct pollfd* fds, nfds_t n, int timeout)
{
   if( ! g_cur) return REAL( poll)( fds, n, timeout);
   int r = 0;
   for( nfds_t i = 0; i < n; ++i)
   {
      fds[ i].revents = 0;
      auto f = get( fds[ i].fd);
      if( f && ( fds[ i].events & POLLIN) && f->readable()) fds[ i].revents |= POLLIN;
      if( f && ( fds[ i].events & POLLOUT) && f->writable()) fds[ i].revents |= POLLOUT;
      if( fds[ i].revents) ++r;
   }
   return r;
}

EXPORT int getaddrinfo( const char* host, const char* port, const struct addrinfo* hints, struct addrinfo** result)
{
   if( ! g_cur) return REAL( getaddrinfo)( host, port, hints, result);
   kernel->syscall( "getaddrinfo", false);
   std::string h = host ? host : "";
   std::uint32_t ip = 0;
   if( h.empty() || h == "0.0.0.0") ip = 0;
   else if( h == "localhost" || h == "127.0.0.1") ip = ( 10u << 24) + g_cur->machine->index + 1;
   else
   {
      auto m = kernel->machine( h);
      if( ! m) return EAI_NONAME;
      ip = ( 10u << 24) + m->index + 1;
   }
   auto info = static_cast< struct addrinfo*>( calloc( 1, sizeof( struct addrinfo)));
   auto in = static_cast< struct sockaddr_in*>( calloc( 1, sizeof( struct sockaddr_in)));
   in->sin_family = AF_INET;
   in->sin_port = htons( port ? std::atoi( port) : 0);
   in->sin_addr.s_addr = htonl( ip);
   info->ai_family = AF_INET;
   info->ai_socktype = SOCK_STREAM;
   info->ai_protocol = IPPROTO_TCP;
   info->ai_addrlen = sizeof( *in);
   info->ai_addr = reinterpret_cast< struct sockaddr*>( in);
   info->ai_canonname = strdup( h.c_str());
   *result = info;
   return 0;
}
EXPORT void freeaddrinfo( struct addrinfo* i) noexcept
{
   if( ! g_cur) return REAL( freeaddrinfo)( i);
   while( i) { auto n = i->ai_next; free( i->ai_addr); free( i->ai_canonname); free( i); i = n;}
}
EXPORT int getnameinfo( const struct sockaddr* a, socklen_t n, char* host, socklen_t hn, char* serv, socklen_t sn, int flags)
{
   if( ! g_cur) return REAL( getnameinfo)( a, n, host, hn, serv, sn, flags);
   auto in = reinterpret_cast< const struct sockaddr_in*>( a);
   auto ip = ntohl( in->sin_addr.s_addr);
   if( host) snprintf( host, hn, "%u.%u.%u.%u", ip >> 24, ( ip >> 16) & 255, ( ip >> 8) & 255, ip & 255);
   if( serv) snprintf( serv, sn, "%u", ntohs( in->sin_port));
   return 0;
}
EXPORT int gethostname( char* name, size_t n) noexcept { if( ! g_cur) return REAL( gethostname)( name, n); snprintf( name, n, "%s", g_cur->machine->name.c_str()); return 0;}
