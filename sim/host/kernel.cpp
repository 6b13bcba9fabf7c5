#include "kernel.h"

#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <fnmatch.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <cxxabi.h>
#include <sys/syscall.h>
#include <unistd.h>

extern char** environ;

namespace sim
{
   Kernel* kernel = nullptr;
   Proc* g_cur = nullptr;

   // ---------------------------------------------------------------- helpers
   void Rng::seed( std::uint64_t s)
   {
      auto mix = [&s](){ s += 0x9e3779b97f4a7c15ull; auto z = s; z = ( z ^ ( z >> 30)) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27)) * 0x94d049bb133111ebull; return z ^ ( z >> 31);};
      a = mix(); b = mix() | 1;
   }

   std::uint64_t Rng::next()
   {
      auto s1 = a; auto s0 = b; auto result = s0 + s1;
      a = s0; s1 ^= s1 << 23;
      b = s1 ^ s0 ^ ( s1 >> 18) ^ ( s0 >> 5);
      return result;
   }

   std::string format( const char* fmt, ...)
   {
      char buffer[ 2048];
      va_list ap; va_start( ap, fmt);
      auto n = vsnprintf( buffer, sizeof( buffer), fmt, ap);
      va_end( ap);
      if( n < 0) return {};
      return std::string( buffer, std::min< std::size_t>( n, sizeof( buffer) - 1));
   }

   std::string escape( std::string_view s)
   {
      std::string r;
      for( unsigned char c : s)
      {
         if( c == '"' || c == '\\') { r += '\\'; r += c;}
         else if( c == '\n') r += "\\n";
         else if( c < 32 || c > 126) r += format( "\\u%04x", c);
         else r += c;
      }
      return r;
   }

   void WaitList::add( Proc* p) { entries.push_back( { p, p->gen});}
   void WaitList::wake()
   {
      if( entries.empty()) return;
      std::vector< Entry> current;
      current.swap( entries);
      for( auto& e : current)
         if( e.p->gen == e.gen && e.p->state == Proc::blocked)
            kernel->wake( e.p);
   }

   // ---------------------------------------------------------------- fibers
   extern "C" void sim_switch( void** save, void* load);
   asm( R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

   namespace fiber
   {
      constexpr std::size_t stack_size = 1024 * 1024;
      static std::vector< char*> pool;
      static void* scheduler_sp = nullptr;
      static void* scheduler_eh[ 2] = {};
      static char** scheduler_environ = nullptr;

      static void entry() noexcept
      {
         image::run( g_cur);
         abort();
      }

      void create( Proc* p)
      {
         if( pool.empty())
         {
            auto m = mmap( nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            mprotect( m, 4096, PROT_NONE);
            p->stack = static_cast< char*>( m);
         }
         else
         {
            p->stack = pool.back(); pool.pop_back();
         }
         auto top = reinterpret_cast< void**>( p->stack + stack_size);
         *--top = nullptr;                 // return address of entry
         *--top = reinterpret_cast< void*>( &entry);
         for( int i = 0; i < 6; ++i) *--top = nullptr;
         --top;
         std::uint32_t mxcsr = 0x1f80; std::uint16_t cw = 0x37f;
         std::memset( top, 0, 8);
         std::memcpy( top, &mxcsr, 4); std::memcpy( reinterpret_cast< char*>( top) + 4, &cw, 2);
         p->sp = top;
      }

      void switch_to( Proc* p)
      {
         auto eh = reinterpret_cast< void**>( abi::__cxa_get_globals());
         std::memcpy( scheduler_eh, eh, sizeof( scheduler_eh));
         std::memcpy( eh, p->eh_globals, sizeof( scheduler_eh));
         scheduler_environ = environ;
         environ = p->environ_ptr;
         errno = p->saved_errno;
         g_cur = p;
         sim_switch( &scheduler_sp, p->sp);
         g_cur = nullptr;
         p->saved_errno = errno;
         p->environ_ptr = environ;
         environ = scheduler_environ;
         std::memcpy( p->eh_globals, eh, sizeof( scheduler_eh));
         std::memcpy( eh, scheduler_eh, sizeof( scheduler_eh));
      }

      void switch_back( Proc* p)
      {
         sim_switch( &p->sp, scheduler_sp);
      }

      void release( Proc* p)
      {
         if( p->stack)
         {
            // pages are not given back: a fiber that is created on this stack sees the same memory in every run
            pool.push_back( p->stack);
            p->stack = nullptr;
         }
      }
   } // fiber

   // ---------------------------------------------------------------- events
   static bool later( const Kernel::Event& l, const Kernel::Event& r) { return l.at != r.at ? l.at > r.at : l.seq > r.seq;}

   void Kernel::at( Time t, bool timer, std::function< void()> f)
   {
      heap.push_back( Event{ std::max( t, now), ++seq, timer, std::move( f)});
      std::push_heap( heap.begin(), heap.end(), later);
      if( ! timer) ++active;
   }

   bool Kernel::step()
   {
      if( heap.empty()) return false;
      std::pop_heap( heap.begin(), heap.end(), later);
      auto e = std::move( heap.back());
      heap.pop_back();
      if( ! e.timer) --active;
      now = std::max( now, e.at);
      ++steps;
      e.run();
      return true;
   }

   bool Kernel::run_until( const std::function< bool()>& done, Time limit)
   {
      while( true)
      {
         if( done()) return true;
         if( steps > max_steps) { limit_reason = "steps"; return false;}
         if( heap.empty()) return false;
         if( heap.front().at > limit) { now = std::max( now, limit); return done();}
         step();
      }
   }

   void Kernel::mix( std::string_view s)
   {
      for( unsigned char c : s) hash = ( hash ^ c) * 0x100000001b3ull;
      mix( s.size());
   }

   void Kernel::tracef( const char* fmt, ...)
   {
      if( ! tracing) return;
      char buffer[ 1024];
      va_list ap; va_start( ap, fmt);
      vsnprintf( buffer, sizeof( buffer), fmt, ap);
      va_end( ap);
      trace.push_back( format( "%12.6f %s ", now / 1e9, g_cur ? g_cur->tag.c_str() : "-") + buffer);
      if( tracing > 1) { auto l = trace.back() + "\n"; ::syscall( SYS_write, 2, l.data(), l.size());}
   }

   std::set< std::uint32_t> recorded_types;

   void Kernel::record( const std::string& fields)
   {
      history.push_back( format( "{\"i\":%llu,\"t\":%lld,", (unsigned long long)++hseq, (long long)now) + fields + "}");
      mix( fields);
      mix( now);
   }

   // ---------------------------------------------------------------- machines
   Machine* Kernel::machine( const std::string& name)
   {
      for( auto& m : machines) if( m->name == name || m->ip == name) return m.get();
      return nullptr;
   }

   Machine* Kernel::add_machine( const std::string& name)
   {
      auto m = std::make_unique< Machine>();
      m->name = name;
      m->index = machines.size();
      m->ip = format( "10.0.0.%d", m->index + 1);
      m->root = fs::make( Inode::directory);
      machines.push_back( std::move( m));
      return machines.back().get();
   }

   void Kernel::boot( Machine* m)
   {
      m->up = true;
      // a domain manager that did not end by itself leaves its mark behind, the operator removes it
      for( auto& v : m->boot_env)
         if( v.rfind( "CASUAL_DOMAIN_HOME=", 0) == 0)
         {
            std::string name;
            if( auto dir = fs::parent( m, v.substr( 19) + "/.casual/singleton", name)) dir->entries.erase( name);
         }
      ++m->boots;
      auto p = spawn( m, nullptr, m->boot_args.at( 0), m->boot_args, m->boot_env, {}, "/");
      m->manager_pid = p ? p->pid : 0;
      record( format( "\"e\":\"boot\",\"m\":\"%s\",\"boots\":%d,\"pid\":%d", m->name.c_str(), m->boots, m->manager_pid));
   }

   // ---------------------------------------------------------------- processes
   std::string alias_of( const std::vector< std::string>& environment)
   {
      std::string alias;
      for( auto& v : environment)
         if( v.rfind( "SIM_ALIAS=", 0) == 0) alias = v.substr( 10);
         else if( v.rfind( "CASUAL_INSTANCE_INFORMATION=", 0) == 0)
         {
            auto key = v.find( "\"alias\"");
            if( key != std::string::npos && ( key = v.find( '"', key + 7)) != std::string::npos) alias = v.substr( key + 1, v.find( '"', key + 1) - key - 1);
         }
      return alias;
   }

   Proc* Kernel::spawn( Machine* m, Proc* parent, const std::string& path, std::vector< std::string> args, std::vector< std::string> env, std::vector< FilePtr> fds, const std::string& cwd)
   {
      auto slash = path.rfind( '/');
      auto exe = slash == std::string::npos ? path : path.substr( slash + 1);
      auto owned = std::make_unique< Proc>();
      auto p = owned.get();
      p->pid = next_pid++;
      p->ppid = parent ? parent->pid : 1;
      p->machine = m;
      p->exe = exe;
      p->args = std::move( args);
      p->environment = std::move( env);
      p->cwd = cwd;
      auto alias = alias_of( p->environment);
      auto base = m->name + "/" + exe + ( alias.empty() ? "" : ":" + alias);
      p->tag = base + "#" + std::to_string( spawn_count[ base]++);
      p->fds = std::move( fds);
      if( p->fds.empty())
         for( int i = 0; i < 3; ++i) p->fds.push_back( std::make_shared< Std>( i));
      for( auto& f : p->fds) if( f) ++f->nfd;
      p->rng.seed( misc.next());
      if( sched.chance( slow_ppm)) p->slow = 1u << ( 1 + sched.below( 6));

      for( auto& a : p->args) p->argv_c.push_back( strdup( a.c_str()));
      p->argv_c.push_back( nullptr);
      auto e = static_cast< char**>( malloc( sizeof( char*) * ( p->environment.size() + 1)));
      for( std::size_t i = 0; i < p->environment.size(); ++i) e[ i] = strdup( p->environment[ i].c_str());
      e[ p->environment.size()] = nullptr;
      p->environ_ptr = e;

      if( exe == "sim-client" && parent)
      {
         p->client = true;
         if( p->args.size() > 1) p->script = scripts[ p->args[ 1]];
      }

      fiber::create( p);
      by_pid[ p->pid] = p;
      procs.push_back( std::move( owned));
      count( "spawn");
      record( format( "\"e\":\"spawn\",\"pid\":%d,\"ppid\":%d,\"tag\":\"%s\"", p->pid, p->ppid, escape( p->tag).c_str()));
      tracef( "spawn %s pid %d", p->tag.c_str(), p->pid);
      schedule( p, sched.range( 200 * us, 2 * ms));
      return p;
   }

   void Kernel::schedule( Proc* p, Time delay)
   {
      p->state = Proc::ready;
      auto g = ++p->run_gen;
      at( now + delay, false, [ this, p, g]()
      {
         if( p->run_gen == g && p->state == Proc::ready) resume( p);
      });
   }

   void Kernel::wake( Proc* p)
   {
      if( p->state == Proc::blocked) schedule( p, sched.range( wake_lo, wake_hi) * p->slow);
   }

   void Kernel::resume( Proc* p)
   {
      if( p->stall_until > now)
      {
         schedule( p, p->stall_until - now);
         return;
      }
      p->state = Proc::running;
      image::swap_in( p);
      ++switches;
      hash = ( hash ^ p->pid) * 0x100000001b3ull;
      fiber::switch_to( p);
      if( p->state == Proc::zombie || p->state == Proc::gone)
      {
         fiber::release( p);
         image::forget( p);
      }
   }

   void Kernel::pause()
   {
      auto p = g_cur;
      auto debt = p->debt;
      p->debt = 0;
      // (now and then it is left, for the plan to see that its time is over)
      if( ++p->paused % 512 && p->stall_until <= now && ( heap.empty() || heap.front().at > now + debt))
      {
         now += debt;
         return;
      }
      schedule( p, debt);
      fiber::switch_back( p);
   }

   void Kernel::syscall( const char* name, bool shared)
   {
      auto p = g_cur;
      ++p->syscalls;
      ++syscalls;
      Time cost = 0;
      switch( cost_mode)
      {
         case 0: cost = sched.range( cost_lo, cost_hi); break;
         case 1: cost = cost_lo + ( sched.below( 16) == 0 ? sched.range( 0, cost_hi * 40) : sched.range( 0, cost_hi / 4)); break;
         default: cost = cost_lo; break;
      }
      p->debt += cost * p->slow;
      if( stall_ppm && sched.chance( stall_ppm)) { p->debt += sched.range( 0, stall_max); count( "fault:stall");}
      hash = ( hash ^ p->syscalls) * 0x100000001b3ull;
      if( ! faults.empty()) on_syscall( p, name);
      // the process might spin; time must pass for others
      if( shared || p->debt > 5 * ms) pause();
      if( p->pending_sig & ~p->blocked_sig) deliver( p);
   }

   bool Kernel::block( Time deadline, std::uint64_t mask)
   {
      auto p = g_cur;
      p->wait_mask = mask;
      p->timed_out = false;
      p->state = Proc::blocked;
      auto gen = p->gen;
      if( deadline >= 0)
         at( deadline, deadline - now >= 10 * ms, [ this, p, gen]()
         {
            if( p->gen == gen && p->state == Proc::blocked) { p->timed_out = true; schedule( p, 0);}
         });
      // a signal might be pending already
      if( p->pending_sig & ~mask) wake( p);
      fiber::switch_back( p);
      ++p->gen;
      return ! p->timed_out;
   }

   bool Kernel::deliver( Proc* p)
   {
      bool some = false;
      while( auto ready = p->pending_sig & ~p->blocked_sig)
      {
         int sig = __builtin_ctzll( ready) + 1;
         p->pending_sig &= ~( 1ull << ( sig - 1));
         auto found = p->sig.find( sig);
         auto handler = found == p->sig.end() ? SIG_DFL : found->second.handler;
         if( handler == SIG_IGN) continue;
         if( handler == SIG_DFL)
         {
            if( sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH) continue;
            terminate( p, sig, "signal");
         }
         some = true;
         auto saved = p->blocked_sig;
         p->blocked_sig |= ( 1ull << ( sig - 1)) | found->second.mask;
         auto e = errno;
         tracef( "signal %d handled", sig);
         handler( sig);
         errno = e;
         p->blocked_sig = saved;
      }
      return some;
   }

   void Kernel::signal( Proc* p, int sig, const std::string& cause)
   {
      if( p->state == Proc::zombie || p->state == Proc::gone) return;
      count( "signal");
      tracef( "signal %d to %s", sig, p->tag.c_str());
      if( sig == SIGKILL)
      {
         terminate( p, SIGKILL, cause.empty() ? "kill" : cause);
         return;
      }
      auto found = p->sig.find( sig);
      if( found != p->sig.end() && found->second.handler == SIG_IGN) return;
      if( ( found == p->sig.end() || found->second.handler == SIG_DFL) && ( sig == SIGCHLD || sig == SIGCONT)) return;
      p->pending_sig |= 1ull << ( sig - 1);
      if( ! cause.empty()) p->cause = cause;
      if( p->state == Proc::blocked && ( p->pending_sig & ~p->wait_mask)) wake( p);
   }

   void Kernel::set_timer( Proc* p, Time when)
   {
      p->timer_at = when;
      auto g = ++p->timer_gen;
      if( when > 0)
         at( when, true, [ this, p, g]()
         {
            if( p->timer_gen != g) return;
            p->timer_at = 0;
            count( "alarm");
            signal( p, SIGALRM);
         });
   }

   void Kernel::terminate( Proc* p, int status, const std::string& cause)
   {
      if( p->state == Proc::zombie || p->state == Proc::gone) return;
      if( cause == "kill" || cause == "fault" || cause == "machine") p->cause = cause;
      else if( p->cause.empty() || cause == "segv" || cause == "abort") p->cause = cause;
      p->status = status;
      p->state = Proc::zombie;
      ++p->timer_gen;
      ++p->run_gen;
      ++p->gen;
      p->pending_sig = 0;
      record( format( "\"e\":\"exit\",\"pid\":%d,\"tag\":\"%s\",\"status\":%d,\"signal\":%d,\"cause\":\"%s\"", p->pid, escape( p->tag).c_str(),
         WIFEXITED( status) ? WEXITSTATUS( status) : -1, WIFSIGNALED( status) ? WTERMSIG( status) : 0, p->cause.c_str()));
      tracef( "exit %s status %x cause %s", p->tag.c_str(), status, p->cause.c_str());

      bool machine = cause == "machine";
      for( auto& f : p->fds)
      {
         if( ! f) continue;
         if( --f->nfd == 0)
         {
            if( machine && f->kind == File::k_stream)
            {
               auto s = std::static_pointer_cast< Stream>( f);
               s->closed = true;
               s->state = Stream::dead;
               if( auto peer = s->peer.lock(); peer && ! peer->closed)
                  at( now + net.range( 10 * ms, 5 * sec), true, [ this, peer](){ if( ! peer->closed && ! peer->reset) kill_stream( peer, ECONNRESET);});
            }
            else
               f->last_close();
         }
      }
      p->fds.clear();
      rm::process_gone( p);

      for( auto& c : procs)
         if( c->ppid == p->pid)
         {
            c->ppid = 1;
            if( c->state == Proc::zombie) { c->state = Proc::gone; by_pid.erase( c->pid);}
         }

      if( machine)
      {
         p->state = Proc::gone;
         by_pid.erase( p->pid);
      }
      else
      {
         auto parent = by_pid.find( p->ppid);
         if( p->ppid != 1 && parent != by_pid.end() && parent->second->state != Proc::zombie)
         {
            signal( parent->second, SIGCHLD);
            parent->second->child_wait.wake();
         }
         else
         {
            p->state = Proc::gone;
            by_pid.erase( p->pid);
         }
      }

      if( g_cur == p)
      {
         fiber::switch_back( p);
         abort();
      }
      fiber::release( p);
      image::forget( p);
   }

   void Kernel::crash_machine( Machine* m, const std::string& mode, Time restart, const std::string& dump)
   {
      record( format( "\"e\":\"machine-crash\",\"m\":\"%s\",\"mode\":\"%s\"", m->name.c_str(), mode.c_str()));
      tracef( "machine crash %s", m->name.c_str());
      m->up = false;
      m->manager_pid = 0;
      auto self = g_cur;
      // take the list first, terminate changes states only
      for( std::size_t i = 0; i < procs.size(); ++i)
      {
         auto p = procs[ i].get();
         if( p->machine == m && p != self && p->state != Proc::gone)
         {
            if( p->state == Proc::zombie) { p->state = Proc::gone; by_pid.erase( p->pid);}
            else terminate( p, SIGKILL, "machine");
         }
      }
      m->listeners.clear();
      fs::crash( m, disk, mode);
      disk_faults.erase( std::remove_if( disk_faults.begin(), disk_faults.end(), [m]( auto& d){ return d.machine == m;}), disk_faults.end());
      rm::machine_gone( m);
      if( ! dump.empty()) fs::dump( m, dump);
      if( restart > 0)
         at( now + restart, false, [ this, m](){ if( ! m->up) boot( m);});
      if( self && self->machine == m)
         terminate( self, SIGKILL, "machine");
   }

   bool matches( const std::string& selector, const Proc* p) { return fnmatch( selector.c_str(), p->tag.c_str(), 0) == 0;}

   std::vector< Proc*> Kernel::match( const std::string& selector)
   {
      std::vector< Proc*> r;
      for( auto& p : procs)
         if( p->state != Proc::zombie && p->state != Proc::gone && matches( selector, p.get())) r.push_back( p.get());
      return r;
   }

   // ---------------------------------------------------------------- faults
   void Kernel::add_fault( int id, const std::string& text)
   {
      auto f = std::make_unique< Fault>();
      f->id = id;
      std::size_t pos = 0;
      while( pos < text.size())
      {
         auto end = text.find( ' ', pos);
         if( end == std::string::npos) end = text.size();
         auto word = text.substr( pos, end - pos);
         pos = end + 1;
         auto eq = word.find( '=');
         if( eq != std::string::npos) f->a[ word.substr( 0, eq)] = word.substr( eq + 1);
      }
      f->kind = f->get( "kind");
      auto on = f->get( "on", "time");
      auto colon = on.find( ':');
      auto what = on.substr( 0, colon);
      auto rest = colon == std::string::npos ? std::string{} : on.substr( colon + 1);
      f->on_selector = f->get( "by", "*");
      f->on_count = f->num( "n", 1);
      if( what == "send") { f->trigger = Fault::t_send; f->on_type = std::atoi( rest.c_str());}
      else if( what == "sent") { f->trigger = Fault::t_sent; f->on_type = std::atoi( rest.c_str());}
      else if( what == "recv") { f->trigger = Fault::t_recv; f->on_type = std::atoi( rest.c_str());}
      else if( what == "syscall") f->trigger = Fault::t_syscall;
      else if( what == "call") { f->trigger = Fault::t_call; f->on_call = rest;}
      else f->trigger = Fault::t_time;
      faults.push_back( std::move( f));
   }

   void Kernel::arm()
   {
      faults_on = true;
      for( auto& f : faults)
      {
         if( f->armed || f->fired) continue;
         f->armed = true;
         if( f->trigger == Fault::t_time)
         {
            auto raw = f.get();
            at( now + f->num( "at"), false, [ this, raw](){ if( faults_on && ! raw->fired) fire( *raw, nullptr);});
         }
      }
   }

   void Kernel::disarm()
   {
      faults_on = false;
      for( auto& f : faults) f->armed = false;
      disk_faults.clear();
      for( auto& p : procs) { p->spawn_failures = 0; p->stall_until = std::min( p->stall_until, now); if( p->slow > 4) p->slow = 4;}
      stall_ppm = 0;
      eintr_ppm = 0;
      heal();
   }

   void Kernel::fire( Fault& f, Proc* context)
   {
      f.fired = true;
      auto delay = f.num( "delay");
      auto apply = [ this, &f]( Proc* self)
      {
         if( ! faults_on) return;
         std::vector< Proc*> targets;
         auto target = f.get( "target", "self");
         if( target == "self") { if( self && self->state != Proc::zombie && self->state != Proc::gone) targets.push_back( self);}
         else targets = match( target);
         if( targets.size() > 1 && f.get( "all").empty())
         {
            auto t = targets[ f.num( "pick") % targets.size()];
            targets.assign( 1, t);
         }
         auto mach = machine( f.get( "m"));
         if( ! mach && self) mach = self->machine;
         auto log = [&]( const std::string& what){ count( "fault:" + f.kind); record( format( "\"e\":\"fault\",\"id\":%d,\"kind\":\"%s\",\"what\":\"%s\"", f.id, f.kind.c_str(), escape( what).c_str()));};

         if( f.kind == "kill" || f.kind == "signal")
         {
            auto sig = f.kind == "kill" ? SIGKILL : static_cast< int>( f.num( "sig", SIGHUP));
            Proc* last = nullptr;
            for( auto p : targets)
            {
               log( p->tag);
               if( p == g_cur) last = p;
               else signal( p, sig, sig == SIGHUP || sig == SIGCHLD ? "" : "fault");
            }
            if( last) signal( last, sig, sig == SIGHUP || sig == SIGCHLD ? "" : "fault");
         }
         else if( f.kind == "stall")
         {
            for( auto p : targets) { log( p->tag); p->stall_until = now + f.num( "dur", 10 * ms);}
         }
         else if( f.kind == "slow")
         {
            for( auto p : targets) { log( p->tag); p->slow = f.num( "factor", 8);}
         }
         else if( f.kind == "spawnfail")
         {
            for( auto p : targets) { log( p->tag); p->spawn_failures = f.num( "times", 1);}
         }
         else if( f.kind == "crash")
         {
            if( mach && mach->up) { log( mach->name); crash_machine( mach, f.get( "mode", "random"), f.num( "restart", sec), f.get( "dump"));}
         }
         else if( f.kind == "partition" || f.kind == "reset")
         {
            auto a = machine( f.get( "a")), b = machine( f.get( "b"));
            if( ! a || ! b) return;
            log( a->name + "-" + b->name);
            if( f.kind == "reset") reset_between( a, b);
            else
            {
               partition( a, b, true);
               auto dur = f.num( "dur", 0);
               if( dur > 0) at( now + dur, false, [ this, a, b](){ partition( a, b, false);});
            }
         }
         else if( f.kind == "clock")
         {
            if( mach) { log( mach->name); mach->clock_offset += f.num( "delta");}
         }
         else if( f.kind == "disk")
         {
            if( mach)
            {
               log( mach->name + " " + f.get( "op"));
               disk_faults.push_back( { mach, f.get( "op", "write"), f.get( "path", "*"), static_cast< int>( f.num( "errno", ENOSPC)), f.num( "times", 1), now + f.num( "dur", 3600 * sec), f.id});
            }
         }
         else if( f.kind == "cap")
         {
            log( f.get( "value"));
            dgram_cap = f.num( "value", 4);
         }
         else if( f.kind == "eintr")
         {
            log( f.get( "ppm"));
            eintr_ppm = f.num( "ppm", 10000);
         }
      };
      if( delay > 0)
         at( now + delay, false, [ apply, context](){ apply( context);});
      else
         apply( context);
   }

   void Kernel::on_syscall( Proc* p, const char* name)
   {
      if( ! faults_on) return;
      if( eintr_ppm && misc.chance( eintr_ppm)) { count( "fault:eintr"); signal( p, SIGHUP);}
      for( auto& f : faults)
      {
         if( ! f->armed || f->fired) continue;
         if( f->trigger == Fault::t_syscall || ( f->trigger == Fault::t_call && f->on_call == name))
            if( matches( f->on_selector, p) && ++f->seen >= f->on_count) fire( *f, p);
      }
   }

   void Kernel::on_message( Proc* p, Fault::Trigger when, std::uint32_t type)
   {
      if( ! faults_on) return;
      for( auto& f : faults)
         if( f->armed && ! f->fired && f->trigger == when && ( f->on_type == type || f->on_type == 0) && matches( f->on_selector, p) && ++f->seen >= f->on_count)
            fire( *f, p);
   }

   int Kernel::disk_fault( Proc* p, const char* op, const std::string& path)
   {
      if( disk_faults.empty()) return 0;
      for( auto& d : disk_faults)
         if( d.machine == p->machine && d.left > 0 && now < d.until && d.op == op && fnmatch( d.path.c_str(), path.c_str(), 0) == 0)
         {
            --d.left;
            count( std::string( "disk-error:") + op);
            record( format( "\"e\":\"disk-error\",\"tag\":\"%s\",\"op\":\"%s\",\"path\":\"%s\",\"errno\":%d", escape( p->tag).c_str(), op, escape( path).c_str(), d.error));
            return d.error;
         }
      return 0;
   }

   // ---------------------------------------------------------------- sockets
   void Dgram::last_close()
   {
      closed = true;
      if( inode && inode->dgram == this) inode->dgram = nullptr;
      queue.clear();
      writers.wake();
      readers.wake();
   }

   void Pipe::last_close()
   {
      if( write_end) --buffer->writers; else --buffer->readers;
      buffer->waiters.wake();
   }

   Time Kernel::latency()
   {
      auto l = net.range( net_lo, net_hi);
      if( net_slow_ppm && net.chance( net_slow_ppm)) { l += net.range( 0, net_slow_max); count( "fault:net-delay");}
      return l;
   }

   std::size_t Stream::room()
   {
      auto p = peer.lock();
      if( ! p || p->closed) return kernel->tcp_buf;
      auto used = p->in_flight + p->rx.size();
      return used >= static_cast< std::size_t>( kernel->tcp_buf) ? 0 : kernel->tcp_buf - used;
   }

   bool Stream::writable()
   {
      if( state == connecting || state == listening) return false;
      if( state == connected && ! reset) return room() > 0;
      return true;
   }

   void Stream::last_close()
   {
      if( closed) return;
      auto self = shared_from_this();
      closed = true;
      if( state == listening)
      {
         if( machine)
         {
            auto f = machine->listeners.find( local_port);
            if( f != machine->listeners.end() && f->second.lock().get() == this) machine->listeners.erase( f);
         }
         for( auto& s : backlog)
         {
            s->closed = true;
            if( auto p = s->peer.lock()) kernel->transmit( p, { {}, false, true}, machine);
         }
         backlog.clear();
         state = dead;
         return;
      }
      if( state == connected && ! reset)
         if( auto p = peer.lock())
            kernel->transmit( p, { {}, rx.empty(), ! rx.empty()}, machine);
      state = dead;
      rx.clear();
   }

   void Kernel::transmit( std::shared_ptr< Stream> to, Stream::Segment s, Machine* from)
   {
      auto when = std::max( to->last_arrival + 1, now + latency());
      to->last_arrival = when;
      at( when, false, [ this, to, s = std::move( s), from]() mutable { arrive( std::move( to), std::move( s), from);});
   }

   void Kernel::hold( std::shared_ptr< Stream> to)
   {
      auto g = ++to->hold_gen;
      at( now + tcp_timeout, true, [ this, to, g]()
      {
         if( to->held.empty() || to->hold_gen != g) return;
         to->held.clear();
         count( "tcp-timeout");
         record( format( "\"e\":\"tcp-timeout\",\"id\":%d", to->id));
         kill_stream( to, ETIMEDOUT);
         if( auto p = to->peer.lock()) kill_stream( p, ETIMEDOUT);
      });
   }

   void Kernel::arrive( std::shared_ptr< Stream> to, Stream::Segment s, Machine* from)
   {
      if( to->machine != from && ( ! to->held.empty() || partitioned( to->machine, from)))
      {
         if( to->held.empty())
            hold( to);
         count( "held-segments");
         to->held.push_back( std::move( s));
         return;
      }
      if( ! to->machine->up)
      {
         // nobody answers
         if( auto p = to->peer.lock(); p && ! p->closed)
            at( now + tcp_timeout, true, [ this, p](){ if( ! p->closed && ! p->reset) kill_stream( p, ETIMEDOUT);});
         return;
      }
      to->in_flight -= std::min( to->in_flight, s.bytes.size());
      if( to->closed || to->state == Stream::dead)
      {
         if( ! s.rst)
            if( auto p = to->peer.lock(); p && ! p->closed && ! p->reset)
               transmit( p, { {}, false, true}, to->machine);
         return;
      }
      if( s.rst) { kill_stream( to, ECONNRESET); return;}
      to->rx += s.bytes;
      if( s.fin) to->eof = true;
      tracef( "tcp %d <- %zu bytes%s", to->id, s.bytes.size(), s.fin ? " fin" : "");
      to->waiters.wake();
   }

   void Kernel::kill_stream( const std::shared_ptr< Stream>& s, int error)
   {
      if( s->closed || s->reset) return;
      s->reset = true;
      s->error = error;
      if( s->state == Stream::connected) s->state = Stream::dead;
      if( s->state == Stream::connecting) s->state = Stream::dead;
      tracef( "tcp %d reset", s->id);
      record( format( "\"e\":\"tcp-reset\",\"id\":%d,\"owner\":\"%s\"", s->id, escape( s->owner).c_str()));
      s->waiters.wake();
   }

   void Kernel::partition( Machine* a, Machine* b, bool on)
   {
      if( a == b) return;
      auto key = a < b ? std::make_pair( a, b) : std::make_pair( b, a);
      if( on) partitions.insert( key);
      else if( partitions.erase( key))
      {
         for( auto& w : streams)
         {
            auto s = w.lock();
            if( ! s || s->held.empty() || ! s->peer_machine || partitioned( s->machine, s->peer_machine)) continue;
            // what's held is sent again, and it's in order: what is sent meanwhile is held, too
            ++s->hold_gen;
            at( now + latency(), false, [ this, s]()
            {
               if( s->held.empty()) return;
               if( partitioned( s->machine, s->peer_machine))
               {
                  hold( s);
                  return;
               }
               auto held = std::move( s->held);
               s->held.clear();
               for( auto& h : held) arrive( s, std::move( h), s->peer_machine);
            });
         }
      }
      record( format( "\"e\":\"partition\",\"a\":\"%s\",\"b\":\"%s\",\"on\":%d", a->name.c_str(), b->name.c_str(), on ? 1 : 0));
   }

   void Kernel::heal()
   {
      auto all = std::vector< std::pair< Machine*, Machine*>>( partitions.begin(), partitions.end());
      std::sort( all.begin(), all.end(), []( auto& l, auto& r){ return std::make_pair( l.first->index, l.second->index) < std::make_pair( r.first->index, r.second->index);});
      for( auto& p : all) partition( p.first, p.second, false);
   }

   void Kernel::reset_between( Machine* a, Machine* b)
   {
      for( std::size_t i = 0; i < streams.size(); ++i)
      {
         auto s = streams[ i].lock();
         if( ! s || s->closed || ! s->peer_machine) continue;
         if( ( s->machine == a && s->peer_machine == b) || ( s->machine == b && s->peer_machine == a))
         {
            auto t = now + net.range( 0, 2 * ms);
            at( t, false, [ this, s](){ kill_stream( s, ECONNRESET);});
         }
      }
   }

   // ---------------------------------------------------------------- files
   namespace fs
   {
      InodePtr make( Inode::Type type)
      {
         static std::uint64_t next = 100;
         auto i = std::make_shared< Inode>();
         i->type = type;
         i->ino = ++next;
         i->mode = type == Inode::directory ? 0755 : 0644;
         return i;
      }

      std::string absolute( const std::string& cwd, const std::string& path)
      {
         std::string full = ! path.empty() && path[ 0] == '/' ? path : cwd + "/" + path;
         std::vector< std::string> parts;
         std::size_t pos = 0;
         while( pos <= full.size())
         {
            auto end = full.find( '/', pos);
            if( end == std::string::npos) end = full.size();
            auto part = full.substr( pos, end - pos);
            pos = end + 1;
            if( part.empty() || part == ".") continue;
            if( part == "..") { if( ! parts.empty()) parts.pop_back(); continue;}
            parts.push_back( part);
         }
         std::string r;
         for( auto& p : parts) r += "/" + p;
         return r.empty() ? "/" : r;
      }

      static std::vector< std::string> split( const std::string& absolute)
      {
         std::vector< std::string> parts;
         std::size_t pos = 1;
         while( pos < absolute.size())
         {
            auto end = absolute.find( '/', pos);
            if( end == std::string::npos) end = absolute.size();
            if( end > pos) parts.push_back( absolute.substr( pos, end - pos));
            pos = end + 1;
         }
         return parts;
      }

      InodePtr lookup( Machine* m, const std::string& absolute)
      {
         auto node = m->root;
         for( auto& part : split( absolute))
         {
            if( node->type != Inode::directory) return {};
            auto f = node->entries.find( part);
            if( f == node->entries.end()) return {};
            node = f->second;
         }
         return node;
      }

      InodePtr parent( Machine* m, const std::string& absolute, std::string& name)
      {
         auto slash = absolute.rfind( '/');
         name = absolute.substr( slash + 1);
         if( name.empty()) return {};
         auto p = lookup( m, slash == 0 ? "/" : absolute.substr( 0, slash));
         return p && p->type == Inode::directory ? p : InodePtr{};
      }

      InodePtr mkdirs( Machine* m, const std::string& absolute)
      {
         auto node = m->root;
         for( auto& part : split( absolute))
         {
            auto& next = node->entries[ part];
            if( ! next) next = make( Inode::directory);
            node = next;
         }
         return node;
      }

      InodePtr write_file( Machine* m, const std::string& absolute, std::string data)
      {
         auto slash = absolute.rfind( '/');
         auto dir = mkdirs( m, slash == 0 ? "/" : absolute.substr( 0, slash));
         auto& n = dir->entries[ absolute.substr( slash + 1)];
         n = make( Inode::regular);
         n->data = data;
         n->durable = std::move( data);
         return n;
      }

      static void glob_into( const InodePtr& node, const std::string& prefix, const std::vector< std::string>& parts, std::size_t index, std::vector< std::string>& result)
      {
         if( index == parts.size()) { result.push_back( prefix.empty() ? "/" : prefix); return;}
         if( node->type != Inode::directory) return;
         for( auto& e : node->entries)
            if( fnmatch( parts[ index].c_str(), e.first.c_str(), FNM_PERIOD) == 0)
               glob_into( e.second, prefix + "/" + e.first, parts, index + 1, result);
      }

      std::vector< std::string> glob( Machine* m, const std::string& pattern)
      {
         std::vector< std::string> r;
         glob_into( m->root, "", split( pattern), 0, r);
         return r;
      }

      void write( Inode& i, std::size_t offset, const char* data, std::size_t size)
      {
         if( i.data.size() < offset + size) i.data.resize( offset + size);
         i.data.replace( offset, size, data, size);
         i.pending.push_back( { offset, std::string( data, size), false});
      }

      void truncate( Inode& i, std::size_t size)
      {
         i.data.resize( size);
         i.pending.push_back( { size, {}, true});
         for( auto& m : i.mapped)
            for( auto at = std::max< std::int64_t>( size, m.first) - m.first; at < static_cast< std::int64_t>( m.second.second); ++at) m.second.first[ at] = 0;
      }

      static void apply_write( std::string& image, const Inode::Write& w)
      {
         if( w.truncate) image.resize( w.offset);
         else
         {
            if( image.size() < w.offset + w.bytes.size()) image.resize( w.offset + w.bytes.size());
            image.replace( w.offset, w.bytes.size(), w.bytes);
         }
      }

      void sync( Inode& i)
      {
         for( auto& w : i.pending) apply_write( i.durable, w);
         i.pending.clear();
      }

      static void crash( Inode& i, Rng& rng, const std::string& mode, std::size_t& lost)
      {
         if( i.type == Inode::directory)
         {
            for( auto e = i.entries.begin(); e != i.entries.end();)
            {
               auto& name = e->first;
               if( name != "casual.log") crash( *e->second, rng, mode, lost);
               ++e;
            }
            return;
         }
         if( i.type != Inode::regular) { i.dgram = nullptr; return;}
         auto m = mode == "random" ? rng.below( 3) : mode == "none" ? 0 : mode == "all" ? 1 : 2;
         for( auto& w : i.pending)
         {
            if( m == 0) { ++lost; continue;}
            if( m == 1) { apply_write( i.durable, w); continue;}
            if( w.truncate) { if( rng.below( 2)) apply_write( i.durable, w); else ++lost; continue;}
            // sector by sector
            for( std::size_t pos = 0; pos < w.bytes.size();)
            {
               auto sector = 512 - ( w.offset + pos) % 512;
               auto n = std::min( sector, w.bytes.size() - pos);
               if( rng.below( 2)) apply_write( i.durable, Inode::Write{ w.offset + pos, w.bytes.substr( pos, n), false});
               else ++lost;
               pos += n;
            }
         }
         i.pending.clear();
         i.data = i.durable;
      }

      void crash( Machine* m, Rng& rng, const std::string& mode)
      {
         std::size_t lost = 0;
         crash( *m->root, rng, mode, lost);
         kernel->count( "lost-writes", lost);
      }
   } // fs
}
