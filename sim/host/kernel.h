// A small deterministic operating system: processes as fibers, virtual time, unix datagram and tcp sockets, pipes,
// files with a volatile and a durable half, signals, timers - all driven by one event queue and seeded PRNGs.
#pragma once

#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#include <sys/types.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <signal.h>

namespace sim
{
   using Time = std::int64_t; // nanoseconds
   constexpr Time us = 1000;
   constexpr Time ms = 1000 * us;
   constexpr Time sec = 1000 * ms;

   struct Rng
   {
      std::uint64_t a = 1, b = 2;
      void seed( std::uint64_t s);
      std::uint64_t next();
      std::uint64_t below( std::uint64_t n) { return n ? next() % n : 0;}
      bool chance( std::uint64_t ppm) { return ppm && below( 1000000) < ppm;}
      Time range( Time lo, Time hi) { return lo >= hi ? lo : lo + static_cast< Time>( below( hi - lo + 1));}
   };

   struct Proc;
   struct Machine;
   struct Dgram;

   struct WaitList
   {
      struct Entry { Proc* p; std::uint64_t gen;};
      std::vector< Entry> entries;
      void add( Proc* p);
      void wake();
   };

   struct Inode
   {
      enum Type { regular, directory, socket} type = regular;
      std::uint64_t ino = 0;
      mode_t mode = 0644;
      std::string data;                 // what processes see
      std::string durable;              // what is on stable storage
      struct Write { std::size_t offset; std::string bytes; bool truncate;};
      std::vector< Write> pending;      // since last successful sync
      std::map< std::string, std::shared_ptr< Inode>> entries;
      Dgram* dgram = nullptr;
      std::map< std::int64_t, std::pair< char*, std::size_t>> mapped;   // shared mappings
   };
   using InodePtr = std::shared_ptr< Inode>;

   struct File
   {
      enum Kind { k_regular, k_dgram, k_stream, k_pipe, k_std} kind;
      int flags = 0;
      int nfd = 0;
      explicit File( Kind k) : kind( k) {}
      virtual ~File() = default;
      virtual bool readable() { return true;}
      virtual bool writable() { return true;}
      virtual void wait( Proc*) {}
      virtual void last_close() {}
   };
   using FilePtr = std::shared_ptr< File>;

   struct Regular : File
   {
      InodePtr inode;
      std::size_t pos = 0;
      std::string path;
      Regular() : File( k_regular) {}
   };

   struct Std : File { int which; explicit Std( int w) : File( k_std), which( w) {} };

   struct Dgram : File
   {
      Machine* machine = nullptr;
      InodePtr inode;
      std::string path;
      std::string owner;          // tag of the process that bound
      struct Packet { std::string data; std::string from;};
      std::deque< Packet> queue;
      bool closed = false;
      WaitList readers, writers;
      Dgram() : File( k_dgram) {}
      bool readable() override { return ! queue.empty();}
      void wait( Proc* p) override { readers.add( p);}
      void last_close() override;
   };

   struct Stream : File, std::enable_shared_from_this< Stream>
   {
      enum State { fresh, listening, connecting, connected, dead} state = fresh;
      Machine* machine = nullptr;
      Machine* peer_machine = nullptr;
      int local_port = 0, peer_port = 0;
      bool nonblock = false;
      int error = 0;               // SO_ERROR
      std::deque< std::shared_ptr< Stream>> backlog;
      std::weak_ptr< Stream> peer;
      std::string rx;
      std::size_t in_flight = 0;   // sent by the peer, not yet in rx
      bool eof = false;
      bool reset = false;
      bool closed = false;
      Time last_arrival = 0;
      struct Segment { std::string bytes; bool fin = false; bool rst = false;};
      std::deque< Segment> held;   // towards this end, that a partition holds back
      std::uint64_t hold_gen = 0;
      int id = 0;
      std::string owner;
      WaitList waiters;
      Stream() : File( k_stream) {}
      bool readable() override { return state == listening ? ! backlog.empty() : state != connecting && ( ! rx.empty() || eof || reset || state == dead || state == fresh);}
      bool writable() override;
      void wait( Proc* p) override { waiters.add( p);}
      void last_close() override;
      std::size_t room();
   };

   struct Pipe : File
   {
      struct Buffer { std::string data; int readers = 0, writers = 0; WaitList waiters;};
      std::shared_ptr< Buffer> buffer;
      bool write_end;
      explicit Pipe( bool w) : File( k_pipe), write_end( w) {}
      bool readable() override { return write_end ? false : ! buffer->data.empty() || buffer->writers == 0;}
      bool writable() override { return write_end && buffer->data.size() < 65536;}
      void wait( Proc* p) override { buffer->waiters.add( p);}
      void last_close() override;
   };

   struct Machine
   {
      std::string name;
      std::string ip;
      int index = 0;
      bool up = true;
      int boots = 0;
      Time clock_offset = 0;
      InodePtr root;
      std::map< int, std::weak_ptr< Stream>> listeners; // by port
      int next_port = 40000;
      std::vector< std::string> boot_args;
      std::vector< std::string> boot_env;
      int manager_pid = 0;
   };

   struct SigAction { void (*handler)( int) = nullptr; int flags = 0; std::uint64_t mask = 0; };

   struct Proc
   {
      int pid = 0, ppid = 0;
      Machine* machine = nullptr;
      std::string exe;       // basename
      std::string tag;       // machine/exe[:alias]#n
      std::vector< std::string> args;
      std::vector< std::string> environment;
      std::vector< char*> argv_c;
      char** environ_ptr = nullptr;
      std::string cwd = "/";
      enum State { ready, running, blocked, zombie, gone} state = ready;
      int status = 0;        // wait status
      std::string cause;     // why it ended: exit, or the fault
      Time stall_until = 0;
      std::vector< FilePtr> fds;
      std::set< int> cloexec;
      std::map< int, SigAction> sig;
      std::uint64_t pending_sig = 0;
      std::uint64_t blocked_sig = 0;
      std::uint64_t wait_mask = 0; // effective while blocked
      Time timer_at = 0;
      std::uint64_t timer_gen = 0;
      std::uint64_t gen = 0; // of the current block
      std::uint64_t run_gen = 0;
      bool timed_out = false;
      WaitList child_wait;
      Time debt = 0;
      std::int64_t fruitless = 0, paused = 0;      // sends in a row that would have blocked
      // fiber
      void* sp = nullptr;
      char* stack = nullptr;
      char* data = nullptr;  // private copy of the image's writable segment
      void* eh_globals[ 2] = {};
      int saved_errno = 0;
      struct AtExit { void (*f)( void*); void* arg;};
      std::vector< AtExit> atexits;
      std::string out;       // stdout/stderr
      // schedule
      std::uint32_t slow = 1;
      std::uint64_t syscalls = 0;
      Rng rng;
      std::uint32_t last_message = 0;
      // spawn attributes given by the plan
      bool client = false;
      std::string script;
      int spawn_failures = 0;
   };

   struct Options
   {
      std::map< std::string, std::string> p;
      std::int64_t i( const std::string& k, std::int64_t d) const { auto f = p.find( k); return f == p.end() ? d : std::strtoll( f->second.c_str(), nullptr, 10);}
   };

   struct Fault
   {
      int id = 0;
      std::string kind;
      std::map< std::string, std::string> a;
      std::string get( const std::string& k, const std::string& d = {}) const { auto f = a.find( k); return f == a.end() ? d : f->second;}
      std::int64_t num( const std::string& k, std::int64_t d = 0) const { auto f = a.find( k); return f == a.end() ? d : std::strtoll( f->second.c_str(), nullptr, 10);}
      // trigger
      enum Trigger { t_time, t_send, t_sent, t_recv, t_syscall, t_call} trigger = t_time;
      std::string on_selector;
      std::string on_call;
      std::uint32_t on_type = 0;
      std::int64_t on_count = 1;
      bool armed = false, fired = false;
      std::int64_t seen = 0;
   };

   // an active disk fault
   struct DiskFault { Machine* machine; std::string op; std::string path; int error; std::int64_t left; Time until; int id;};

   std::string alias_of( const std::vector< std::string>& environment);

   struct Kernel
   {
      Time now = 0;
      Time epoch = 1700000000ll * sec;
      std::uint64_t seq = 0;
      std::uint64_t hseq = 0;
      struct Event { Time at; std::uint64_t seq; bool timer; std::function< void()> run;};
      std::vector< Event> heap;
      std::uint64_t active = 0;     // events that are not timers
      std::uint64_t steps = 0;
      std::uint64_t switches = 0;
      std::uint64_t syscalls = 0;
      std::uint64_t hash = 0xcbf29ce484222325ull;
      std::uint64_t order_hash = 0xcbf29ce484222325ull;
      Rng sched, net, disk, misc;
      Options opt;
      // cached options
      Time cost_lo = 1 * us, cost_hi = 15 * us, stall_max = 0, wake_lo = 1 * us, wake_hi = 30 * us, net_lo = 100 * us, net_hi = 500 * us, net_slow_max = 0, disk_hi = 0, tcp_timeout = 20 * sec;
      std::int64_t stall_ppm = 0, net_slow_ppm = 0, short_ppm = 0, dgram_cap = 64, tcp_buf = 65536, slow_ppm = 0, eintr_ppm = 0;
      int cost_mode = 0;
      std::vector< std::unique_ptr< Proc>> procs;
      std::map< int, Proc*> by_pid;
      std::map< std::string, int> spawn_count;
      std::vector< std::unique_ptr< Machine>> machines;
      int next_pid = 1000;
      int next_stream = 1;
      std::vector< std::string> history;
      std::map< std::string, std::uint64_t> counters;
      std::set< std::uint64_t> bigrams;
      std::map< std::string, std::string> scripts;
      bool go = false;             // the clients of the scenario may start
      std::set<std::string> started;   // and those that did
      bool faults_on = false;
      int tracing = 0;
      std::vector< std::string> trace;
      std::set< std::pair< Machine*, Machine*>> partitions;
      std::vector< std::weak_ptr< Stream>> streams;
      std::vector< std::unique_ptr< Fault>> faults;
      std::vector< DiskFault> disk_faults;
      std::string limit_reason;
      std::uint64_t max_steps = 20000000;

      // --- events
      void at( Time t, bool timer, std::function< void()> f);
      bool quiet() const { return active == 0;}
      bool step();
      bool run_until( const std::function< bool()>& done, Time limit); // true if done

      // --- tracing
      void mix( std::uint64_t v) { hash = ( hash ^ v) * 0x100000001b3ull; hash ^= hash >> 29;}
      void mix( std::string_view s);
      void tracef( const char* fmt, ...) __attribute__(( format( printf, 2, 3)));
      void record( const std::string& fields);   // adds seq and time
      void count( const std::string& k, std::uint64_t n = 1) { counters[ k] += n;}

      // --- processes
      Machine* machine( const std::string& name);
      Machine* add_machine( const std::string& name);
      Proc* spawn( Machine* m, Proc* parent, const std::string& path, std::vector< std::string> args, std::vector< std::string> env, std::vector< FilePtr> fds, const std::string& cwd);
      void schedule( Proc* p, Time delay);
      void wake( Proc* p);
      void resume( Proc* p);
      void pause();                   // current yields its accumulated cost
      void syscall( const char* name, bool shared);
      bool block( Time deadline, std::uint64_t mask);   // false if the deadline passed
      bool deliver( Proc* p);         // runs handlers, true if some did
      void signal( Proc* p, int sig, const std::string& cause = {});
      void terminate( Proc* p, int status, const std::string& cause); // does not return if p is current
      void crash_machine( Machine* m, const std::string& mode, Time restart, const std::string& dump = {});
      void boot( Machine* m);
      void set_timer( Proc* p, Time at);
      std::vector< Proc*> match( const std::string& selector);

      // --- faults
      void add_fault( int id, const std::string& text);
      void arm();
      void disarm();
      void fire( Fault& f, Proc* context);
      void on_syscall( Proc* p, const char* name);
      void on_message( Proc* p, Fault::Trigger when, std::uint32_t type);
      int disk_fault( Proc* p, const char* op, const std::string& path);

      // --- network
      bool partitioned( Machine* a, Machine* b) { return partitions.count( a < b ? std::make_pair( a, b) : std::make_pair( b, a)) > 0;}
      void partition( Machine* a, Machine* b, bool on);
      void heal();
      Time latency();
      void transmit( std::shared_ptr< Stream> to, Stream::Segment s, Machine* from);
      void hold( std::shared_ptr< Stream> to);
      void arrive( std::shared_ptr< Stream> to, Stream::Segment s, Machine* from);
      void kill_stream( const std::shared_ptr< Stream>& s, int error);
      void reset_between( Machine* a, Machine* b);
   };

   // message types that go into the history
   extern std::set< std::uint32_t> recorded_types;
   extern Kernel* kernel;
   extern Proc* g_cur; // process that executes right now, or null

   bool matches( const std::string& selector, const Proc* p);

   namespace fs
   {
      std::string absolute( const std::string& cwd, const std::string& path);
      InodePtr lookup( Machine* m, const std::string& absolute);
      InodePtr parent( Machine* m, const std::string& absolute, std::string& name);
      InodePtr make( Inode::Type type);
      InodePtr mkdirs( Machine* m, const std::string& absolute);
      InodePtr write_file( Machine* m, const std::string& absolute, std::string data);
      std::vector< std::string> glob( Machine* m, const std::string& pattern);
      void write( Inode& inode, std::size_t offset, const char* data, std::size_t size);
      void truncate( Inode& inode, std::size_t size);
      void sync( Inode& inode);
      void crash( Machine* m, Rng& rng, const std::string& mode);
      void dump( Machine* m, const std::string& pattern);   // to files beside the output
   }

   namespace image
   {
      void load( const char* path);
      extern std::uintptr_t text_base, text_lo, text_hi;
      void run( Proc* p); // inside the fiber: constructors, main, destructors
      void swap_in( Proc* p);
      void forget( Proc* p);
      bool known( const std::string& exe);
      std::size_t size();
   }

   namespace fiber
   {
      void create( Proc* p);
      void switch_to( Proc* p);     // from scheduler
      void switch_back( Proc* p);   // from fiber to scheduler
      void release( Proc* p);
   }

   namespace rm
   {
      void process_gone( Proc* p);
      void machine_gone( Machine* m);
      void dump();
   }

   std::string escape( std::string_view s);
   std::string format( const char* fmt, ...) __attribute__(( format( printf, 1, 2)));
}
