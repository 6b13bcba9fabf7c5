// sim <node.so> plan out       executes one plan
// sim <node.so> --server       reads lines 'plan out' and executes each in a fork
#include "kernel.h"

#include <sys/syscall.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>

using namespace sim;

extern "C" void sim_fault_exit( int sig);

namespace
{
   std::string out_path;

   void write_all( const std::string& path, const std::string& text)
   {
      // not the functions of that name, they belong to the simulated system when a process runs
      int fd = ::syscall( SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if( fd < 0) { fprintf( stderr, "cannot write %s: %s\n", path.c_str(), strerror( errno)); ::syscall( SYS_exit_group, 4);}
      for( std::size_t pos = 0; pos < text.size();)
      {
         auto n = ::syscall( SYS_write, fd, text.data() + pos, text.size() - pos);
         if( n <= 0) ::syscall( SYS_exit_group, 4);
         pos += n;
      }
      ::syscall( SYS_close, fd);
   }

   int dumped = 0;
}
void sim::fs::dump( Machine* m, const std::string& pattern)
{
   for( auto& path : fs::glob( m, pattern))
   {
      auto i = fs::lookup( m, path);
      if( i->type != Inode::regular) continue;
      write_all( out_path + format( ".dump%d", dumped), i->data);
      kernel->record( format( "\"e\":\"dump\",\"m\":\"%s\",\"path\":\"%s\",\"n\":%d", m->name.c_str(), escape( path).c_str(), dumped));
      ++dumped;
   }
}
namespace
{
   void finish( const std::string& outcome)
   {
      g_cur = nullptr;
      rm::dump();
      std::string text;
      for( auto& h : kernel->history) { text += h; text += '\n';}
      text += format( "{\"e\":\"summary\",\"outcome\":\"%s\",\"hash\":\"%016llx\",\"order\":\"%016llx\",\"t\":%lld,\"steps\":%llu,\"switches\":%llu,\"syscalls\":%llu,\"epoch\":%lld", outcome.c_str(), (unsigned long long)kernel->hash, (unsigned long long)kernel->order_hash,
         (long long)kernel->now, (unsigned long long)kernel->steps, (unsigned long long)kernel->switches, (unsigned long long)kernel->syscalls, (long long)kernel->epoch);
      text += ",\"counters\":{";
      bool first = true;
      for( auto& c : kernel->counters) { text += format( "%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false;}
      text += "},\"bigrams\":[";
      first = true;
      for( auto b : kernel->bigrams) { text += format( "%s%llu", first ? "" : ",", (unsigned long long)( b & 0xffffffffffffull)); first = false;}
      text += "]}\n";
      write_all( out_path, text);
      if( kernel->tracing)
      {
         std::string t;
         for( auto& l : kernel->trace) { t += l; t += '\n';}
         for( auto& p : kernel->procs) if( ! p->out.empty()) t += "==== output of " + p->tag + "\n" + p->out + "\n";
         for( auto& m : kernel->machines)
            for( auto& pattern : { "/*.log", "/*/*.log", "/*/*/*.log"})
               for( auto& path : fs::glob( m.get(), pattern)) t += "==== " + m->name + ":" + path + "\n" + fs::lookup( m.get(), path)->data + "\n";
         write_all( out_path + ".trace", t);
      }
   }

   // a real fault in the code under test: the simulated process dies of it
   void on_fault( int sig, siginfo_t*, void* context)
   {
      if( ! g_cur)
      {
         const char t[] = "simulator: fatal signal outside a simulated process\n";
         auto r = ::write( 2, t, sizeof( t) - 1); (void)r;
         ::_exit( 5);
      }
      auto& r = static_cast< ucontext_t*>( context)->uc_mcontext.gregs;
      auto sp = static_cast< std::uintptr_t>( r[ REG_RSP]);
      auto lo = reinterpret_cast< std::uintptr_t>( g_cur->stack);
      if( kernel->tracing)
      {
         auto text = format( "fatal signal %d at %lx", sig, static_cast< unsigned long>( r[ REG_RIP] - image::text_base));
         auto word = reinterpret_cast< std::uintptr_t*>( sp & ~7ull);
         if( sp >= lo && sp < lo + 1024 * 1024)
            for( int n = 0; n < 40 && reinterpret_cast< std::uintptr_t>( word) < lo + 1024 * 1024 - 8; ++word)
               if( *word >= image::text_lo && *word < image::text_hi) { text += format( " %lx", static_cast< unsigned long>( *word - image::text_base)); ++n;}
         kernel->tracef( "%s", text.c_str());
      }
      if( sp < lo + 16384 || sp > lo + 1024 * 1024) sp = lo + 1024 * 1024 - 4096;
      r[ REG_RSP] = ( ( sp - 1024) & ~15ull) - 8;
      r[ REG_RDI] = sig;
      r[ REG_RIP] = reinterpret_cast< greg_t>( &sim_fault_exit);
   }

   void on_spin( int)
   {
      if( g_cur)
      {
         kernel->record( format( "\"e\":\"spin\",\"tag\":\"%s\"", escape( g_cur->tag).c_str()));
         finish( "spin");
      }
      ::_exit( 6);
   }

   void install_handlers()
   {
      stack_t ss{};
      ss.ss_size = 65536;
      ss.ss_sp = malloc( ss.ss_size);
      sigaltstack( &ss, nullptr);
      struct sigaction sa{};
      sa.sa_sigaction = &on_fault;
      sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
      for( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction( s, &sa, nullptr);
      struct sigaction spin{};
      spin.sa_handler = &on_spin;
      spin.sa_flags = SA_ONSTACK;
      sigaction( SIGVTALRM, &spin, nullptr);
   }

      void execute( const std::string& plan_path)
   {
      std::ifstream in( plan_path);
      if( ! in) { fprintf( stderr, "no plan %s\n", plan_path.c_str()); ::_exit( 4);}
      Kernel k;
      kernel = &k;
      struct itimerval tv{};
      tv.it_value.tv_sec = 60;
      setitimer( ITIMER_VIRTUAL, &tv, nullptr);

      auto& scripts = k.scripts;
      std::string line;
      std::uint64_t seed = 1;
      int fault_id = 0;
      auto lines = [&]( int n){ std::string r, l; for( int i = 0; i < n && std::getline( in, l); ++i) { r += l; r += '\n';} return r;};
      auto options = [&]()
      {
         auto& o = k.opt;
         k.cost_lo = o.i( "cost_lo", 1 * us); k.cost_hi = o.i( "cost_hi", 15 * us); k.disk_hi = o.i( "disk_hi", 0); k.cost_mode = o.i( "cost_mode", 0);
         k.stall_ppm = o.i( "stall_ppm", 0); k.stall_max = o.i( "stall_max", 5 * ms);
         k.wake_lo = o.i( "wake_lo", 1 * us); k.wake_hi = o.i( "wake_hi", 30 * us);
         k.net_lo = o.i( "net_lo", 100 * us); k.net_hi = o.i( "net_hi", 500 * us);
         k.net_slow_ppm = o.i( "net_slow_ppm", 0); k.net_slow_max = o.i( "net_slow_max", 50 * ms);
         k.short_ppm = o.i( "short_ppm", 0); k.dgram_cap = o.i( "dgram_cap", 64); k.tcp_buf = o.i( "tcp_buf", 65536);
         k.slow_ppm = o.i( "slow_ppm", 0); k.tcp_timeout = o.i( "tcp_timeout", 20 * sec);
         k.tracing = o.i( "trace", k.tracing);
         recorded_types.clear();
         std::istringstream types( o.p[ "msgs"]);
         for( std::string t; std::getline( types, t, ',');) recorded_types.insert( std::atoi( t.c_str()));
      };
      auto limit = [&]( std::istringstream& s){ std::int64_t v = 1000; s >> v; return k.now + v * ms;};
      auto phase = [&]( const char* name, bool done){ k.record( format( "\"e\":\"phase\",\"name\":\"%s\",\"done\":%s", name, done ? "true" : "false"));};
      auto clients = [&](){ std::vector< Proc*> r; for( auto& p : k.procs) if( p->client && p->state != Proc::gone) r.push_back( p.get()); return r;};
      auto clients_done = [&](){ return std::none_of( k.procs.begin(), k.procs.end(), []( auto& p){ return p->client && p->state != Proc::gone;});};

      if( auto t = getenv( "SIM_TRACE")) k.tracing = std::atoi( t);

      while( std::getline( in, line))
      {
         if( line.empty() || line[ 0] == '#') continue;
         std::istringstream s( line);
         std::string word;
         s >> word;
         if( word == "seed")
         {
            s >> seed;
            k.sched.seed( seed * 4 + 1); k.net.seed( seed * 4 + 2); k.disk.seed( seed * 4 + 3); k.misc.seed( seed * 4 + 4);
            Rng r; r.seed( seed);
            k.epoch += r.below( 100000000) * 1000003ll;
         }
         else if( word == "opt") { std::string key, v; s >> key >> v; k.opt.p[ key] = v; options();}
         else if( word == "machine") { std::string name; s >> name; k.add_machine( name);}
         else if( word == "file") { std::string m, path; int n; s >> m >> path >> n; fs::write_file( k.machine( m), path, lines( n));}
         else if( word == "exe") { std::string m, path; s >> m >> path; fs::write_file( k.machine( m), path, "x")->mode = 0755;}
         else if( word == "dir") { std::string m, path; s >> m >> path; fs::mkdirs( k.machine( m), path);}
         else if( word == "script") { std::string name; int n; s >> name >> n; scripts[ name] = lines( n);}
         else if( word == "bootcmd")
         {
            std::string m, a; s >> m;
            auto mm = k.machine( m);
            while( s >> a) { if( a.find( '=') != std::string::npos && a[ 0] != '-' && a[ 0] != '/') mm->boot_env.push_back( a); else mm->boot_args.push_back( a);}
         }
         else if( word == "boot") { std::string m; s >> m; k.boot( k.machine( m));}
         else if( word == "ensure-up")
         {
            // restarts what is down, or whose domain manager is gone
            for( auto& m : k.machines)
               if( ! m->boot_args.empty() && ( ! m->up || ! k.by_pid.count( m->manager_pid)))
               {
                  if( m->up) k.crash_machine( m.get(), "all", 0);
                  k.boot( m.get());
               }
         }
         else if( word == "quiet")
         {
            auto l = limit( s);
            auto done = k.run_until( [&](){ return k.quiet();}, l);
            phase( "quiet", done);
         }
         else if( word == "advance") { auto l = limit( s); k.run_until( []{ return false;}, l); if( k.heap.empty()) k.now = std::max( k.now, l); phase( "advance", true);}
         else if( word == "fault") { std::string rest; std::getline( s, rest); k.add_fault( fault_id++, rest.substr( rest.find_first_not_of( ' ')));}
         else if( word == "arm") { phase( "arm", true); k.arm();}
         else if( word == "go") k.go = true;
         else if( word == "disarm") { k.disarm(); phase( "disarm", true);}
         else if( word == "client")
         {
            std::string m, name, script; std::int64_t delay = 0;
            s >> m >> name >> script >> delay;
            auto mm = k.machine( m);
            std::vector< std::string> args{ "sim-client", name};
            for( std::string a; s >> a;) args.push_back( a);
            auto start = [ &k, mm, name, args, text = scripts[ script]]()
            {
               if( ! mm->up) return static_cast< Proc*>( nullptr);
               auto env = mm->boot_env;
               env.push_back( "SIM_ALIAS=" + name);
               auto p = k.spawn( mm, nullptr, "/opt/casual/bin/sim-client", args, env, {}, "/");
               p->client = true;
               p->script = text;
               return p;
            };
            start();
         }
         else if( word == "wait-clients")
         {
            auto l = limit( s);
            auto done = k.run_until( clients_done, l);
            phase( "clients", done);
            for( auto p : clients())
               k.record( format( "\"e\":\"client-stuck\",\"pid\":%d,\"tag\":\"%s\"", p->pid, escape( p->tag).c_str()));
         }
         else if( word == "kill-clients")
         {
            for( auto p : clients()) k.signal( p, SIGKILL, "fault");
         }
         else if( word == "shutdown")
         {
            std::string m; s >> m;
            auto mm = k.machine( m);
            auto f = k.by_pid.find( mm->manager_pid);
            if( f != k.by_pid.end()) k.signal( f->second, SIGTERM);
            k.record( format( "\"e\":\"shutdown\",\"m\":\"%s\"", m.c_str()));
         }
         else if( word == "gone")
         {
            // waits for every process of a machine to end
            // A-domain: not those that were started from outside of the domain
            std::string m; s >> m;
            bool domain = m.ends_with( "-domain");
            auto mm = k.machine( domain ? m.substr( 0, m.size() - 7) : m);
            auto l = limit( s);
            auto done = k.run_until( [&](){ return std::none_of( k.procs.begin(), k.procs.end(), [&]( auto& p){ return p->machine == mm && p->state != Proc::gone && ! ( domain && p->client && p->ppid == 1);});}, l);
            phase( "gone", done);
         }
         else if( word == "signal")
         {
            std::string sel; int sig; s >> sel >> sig;
            for( auto p : k.match( sel)) k.signal( p, sig, "fault");
         }
         else if( word == "ps")
         {
            for( auto& p : k.procs)
               if( p->state != Proc::gone)
               {
                  static const char* names[] = { "ready", "running", "blocked", "zombie", "gone"};
                  k.record( format( "\"e\":\"ps\",\"pid\":%d,\"tag\":\"%s\",\"state\":\"%s\"", p->pid, escape( p->tag).c_str(), names[ p->state]));
               }
         }
         else if( word == "sockets")
         {
            // ipc sockets that are left in the file system
            for( auto& m : k.machines)
            {
               int alive = 0, dead = 0;
               for( auto& path : fs::glob( m.get(), "/tmp/.casual/ipc/*"))
                  if( fs::lookup( m.get(), path)->dgram) ++alive; else ++dead;
               k.record( format( "\"e\":\"sockets\",\"m\":\"%s\",\"alive\":%d,\"dead\":%d", m->name.c_str(), alive, dead));
            }
         }
         else if( word == "dump")
         {
            std::string m, pattern; s >> m >> pattern;
            fs::dump( k.machine( m), pattern);
         }
         else if( word == "mark") { std::string rest; std::getline( s, rest); k.record( format( "\"e\":\"mark\",\"name\":\"%s\"", escape( rest.substr( rest.find_first_not_of( ' '))).c_str()));}
         else { fprintf( stderr, "unknown directive: %s\n", line.c_str()); ::_exit( 4);}

         if( ! k.limit_reason.empty()) { k.record( "\"e\":\"limit\",\"what\":\"" + k.limit_reason + "\""); break;}
      }
      finish( k.limit_reason.empty() ? "done" : "limit");
      ::_exit( 0);
   }
}

// ------------------------------------------------------------------ what the node code may ask for
extern "C" __attribute__(( visibility( "default"), used)) void sim_log( const char* fields)
{
   kernel->record( format( "\"tag\":\"%s\",\"pid\":%d,", escape( g_cur->tag).c_str(), g_cur->pid) + fields);
}
extern "C" __attribute__(( visibility( "default"), used)) const char* sim_script() { return g_cur->script.c_str();}
extern "C" __attribute__(( visibility( "default"), used)) int sim_go( const char* who)
{
   if( ! kernel->go) return 1;
   return kernel->started.insert( who).second ? 0 : 2;
}
extern "C" __attribute__(( visibility( "default"), used)) const char* sim_tag() { return g_cur->tag.c_str();}
extern "C" __attribute__(( visibility( "default"), used)) long long sim_now() { return kernel->now + g_cur->debt;}

int main( int argc, char** argv)
{
   if( argc < 3) { fprintf( stderr, "usage: sim node.so (plan out | --server)\n"); return 4;}
   auto current = personality( 0xffffffff);
   if( ! ( current & ADDR_NO_RANDOMIZE) && ! getenv( "SIM_ASLR") && personality( current | ADDR_NO_RANDOMIZE) != -1)
   {
      setenv( "SIM_ASLR", "tried", 1);
      execv( "/proc/self/exe", argv);
   }
   setlocale( LC_ALL, "C");
   install_handlers();
   image::load( argv[ 1]);
   if( std::string( argv[ 2]) == "--server")
   {
      std::string plan, out;
      while( std::cin >> plan >> out)
      {
         auto pid = fork();
         if( pid == 0)
         {
            prctl( PR_SET_PDEATHSIG, SIGKILL);
            out_path = out;
            execute( plan);
         }
         int status = 0;
         waitpid( pid, &status, 0);
         printf( "%d %s\n", status, out.c_str());
         fflush( stdout);
      }
      return 0;
   }
   if( argc < 4) return 4;
   out_path = argv[ 3];
   execute( argv[ 2]);
}
