// A resource manager: the databases that xa switches of simulated processes talk to. One database per machine and open-info.
// State that is prepared is durable, everything else dies with the process that holds it.
#include "kernel.h"

#include <algorithm>

namespace sim::rm
{
   // from xa.h
   constexpr int XA_OK = 0, XA_RDONLY = 3, XA_RBROLLBACK = 100, XAER_RMERR = -3, XAER_NOTA = -4, XAER_INVAL = -5, XAER_PROTO = -6, XAER_RMFAIL = -7, XAER_DUPID = -8;
   constexpr long TMJOIN = 0x00200000L, TMRESUME = 0x08000000L, TMSUSPEND = 0x02000000L, TMFAIL = 0x20000000L, TMONEPHASE = 0x40000000L;

   struct Branch
   {
      enum State { active, ended, prepared} state = active;
      std::set< int> assoc;       // pids
      std::set< int> suspended;
      std::set< int> workers;
      bool doomed = false;        // rollback only
      std::vector< std::string> items;
   };

   struct Database
   {
      Machine* machine;
      std::string name;
      std::map< std::string, Branch> branches;
   };

   static std::map< std::string, Database> databases;                     // by machine/name
   static std::map< std::pair< int, int>, std::string> opened;            // pid, rmid -> database

   static std::string items( const Branch& b)
   {
      std::string r = "[";
      for( auto& i : b.items) r += ( r.size() > 1 ? ",\"" : "\"") + escape( i) + "\"";
      return r + "]";
   }

   static void log( const char* op, const Database& d, const std::string& xid, long flags, int rc, const Branch* b)
   {
      auto colon = xid.find( ':');
      kernel->record( format( "\"e\":\"xa\",\"op\":\"%s\",\"rm\":\"%s/%s\",\"pid\":%d,\"g\":\"%s\",\"b\":\"%s\",\"flags\":%ld,\"rc\":%d", op, d.machine->name.c_str(), escape( d.name).c_str(),
         g_cur ? g_cur->pid : 0, xid.substr( 0, colon).c_str(), xid.substr( colon + 1).c_str(), flags, rc) + ( b && ! b->items.empty() ? ",\"items\":" + items( *b) : std::string{}));
   }

   static void lost( Database& d, std::map< std::string, Branch>::iterator i)
   {
      log( "lost", d, i->first, 0, 0, &i->second);
      d.branches.erase( i);
   }

   void process_gone( Proc* p)
   {
      for( auto& entry : databases)
      {
         auto& d = entry.second;
         if( d.machine != p->machine) continue;
         for( auto i = d.branches.begin(); i != d.branches.end();)
         {
            auto current = i++;
            auto& b = current->second;
            if( b.state == Branch::prepared || ! b.workers.count( p->pid)) continue;
            if( b.assoc.count( p->pid) || b.suspended.count( p->pid) || kernel->misc.below( 4) == 0) lost( d, current);
         }
      }
   }

   void machine_gone( Machine* m)
   {
      for( auto& entry : databases)
      {
         auto& d = entry.second;
         if( d.machine != m) continue;
         for( auto i = d.branches.begin(); i != d.branches.end();)
         {
            auto current = i++;
            if( current->second.state != Branch::prepared) lost( d, current);
         }
      }
   }

   // what is left, at the end of a run
   void dump()
   {
      for( auto& entry : databases)
         for( auto& b : entry.second.branches)
         {
            static const char* names[] = { "active", "ended", "prepared"};
            auto colon = b.first.find( ':');
            kernel->record( format( "\"e\":\"branch-left\",\"rm\":\"%s/%s\",\"g\":\"%s\",\"b\":\"%s\",\"state\":\"%s\",\"items\":", entry.second.machine->name.c_str(), escape( entry.second.name).c_str(),
               b.first.substr( 0, colon).c_str(), b.first.substr( colon + 1).c_str(), names[ b.second.state]) + items( b.second));
         }
   }

   static int call( const std::string& op, int rmid, const std::string& xid, long flags, const char* info)
   {
      auto p = g_cur;
      kernel->syscall( "xa", true);
      // the database takes its time
      p->debt += kernel->misc.range( 20 * us, 300 * us);
      kernel->syscall( "xa", true);

      if( op == "open")
      {
         std::string name = info ? info : "";
         auto key = p->machine->name + "/" + name;
         if( ! databases.count( key)) databases[ key] = Database{ p->machine, name, {}};
         opened[ { p->pid, rmid}] = key;
         return XA_OK;
      }
      auto found = opened.find( { p->pid, rmid});
      if( found == opened.end()) return XAER_PROTO;
      auto& d = databases.at( found->second);
      if( op == "close") { opened.erase( found); return XA_OK;}

      auto i = d.branches.find( xid);
      auto done = [&]( int rc, const Branch* b = nullptr){ log( op.c_str(), d, xid, flags, rc, b); return rc;};

      if( op == "start")
      {
         // one association at a time, per thread of control and resource manager instance
         for( auto& b : d.branches) if( b.second.assoc.count( p->pid)) return done( XAER_PROTO);
         if( flags & TMRESUME)
         {
            if( i == d.branches.end()) return done( XAER_NOTA);
            if( ! i->second.suspended.erase( p->pid)) return done( XAER_PROTO);
            i->second.assoc.insert( p->pid);
            i->second.state = Branch::active;
            return done( i->second.doomed ? XA_RBROLLBACK : XA_OK);
         }
         if( flags & TMJOIN)
         {
            if( i == d.branches.end()) return done( XAER_NOTA);
            if( i->second.state == Branch::prepared) return done( XAER_PROTO);
         }
         else
         {
            if( i != d.branches.end()) return done( XAER_DUPID);
            if( kernel->faults_on && kernel->misc.chance( kernel->opt.i( "rm_start_fail", 0))) { kernel->count( "fault:xa-start"); return done( XAER_RMERR);}
            i = d.branches.emplace( xid, Branch{}).first;
         }
         i->second.state = Branch::active;
         i->second.assoc.insert( p->pid);
         i->second.workers.insert( p->pid);
         return done( XA_OK);
      }
      if( i == d.branches.end()) return done( XAER_NOTA);
      auto& b = i->second;

      if( op == "end")
      {
         if( ! b.assoc.erase( p->pid) && ! b.suspended.erase( p->pid)) return done( XAER_PROTO);
         if( flags & TMSUSPEND) b.suspended.insert( p->pid);
         if( flags & TMFAIL) b.doomed = true;
         if( b.assoc.empty() && b.suspended.empty()) b.state = Branch::ended;
         return done( b.doomed ? XA_RBROLLBACK : XA_OK);
      }
      if( op == "prepare")
      {
         if( b.state == Branch::active || b.state == Branch::prepared) return done( XAER_PROTO);
         if( kernel->faults_on && kernel->misc.chance( kernel->opt.i( "rm_fail", 0))) { kernel->count( "fault:xa-rmfail"); return done( XAER_RMFAIL);}
         if( b.doomed || ( kernel->faults_on && kernel->misc.chance( kernel->opt.i( "rm_prepare_fail", 0))))
         {
            if( ! b.doomed) kernel->count( "fault:xa-prepare");
            auto rc = done( XA_RBROLLBACK, &b);
            d.branches.erase( i);
            return rc;
         }
         if( b.items.empty() && kernel->opt.i( "rm_rdonly", 0))
         {
            auto rc = done( XA_RDONLY);
            d.branches.erase( i);
            return rc;
         }
         b.state = Branch::prepared;
         return done( XA_OK, &b);
      }
      if( op == "commit")
      {
         if( flags & TMONEPHASE)
         {
            if( b.state != Branch::ended) return done( XAER_PROTO);
            if( b.doomed || ( kernel->faults_on && kernel->misc.chance( kernel->opt.i( "rm_prepare_fail", 0))))
            {
               if( ! b.doomed) kernel->count( "fault:xa-prepare");
               auto rc = done( XA_RBROLLBACK, &b);
               d.branches.erase( i);
               return rc;
            }
         }
         else if( b.state != Branch::prepared) return done( XAER_PROTO);
         auto rc = done( XA_OK, &b);
         d.branches.erase( i);
         return rc;
      }
      if( op == "rollback")
      {
         auto rc = done( XA_OK, &b);
         d.branches.erase( i);
         return rc;
      }
      return XAER_INVAL;
   }
}

extern "C" __attribute__(( visibility( "default"), used)) int sim_xa( const char* op, int rmid, const void* xid, long flags, const char* info)
{
   std::string x;
   if( xid)
   {
      auto longs = static_cast< const long*>( xid);
      auto data = reinterpret_cast< const unsigned char*>( longs + 3);
      for( long i = 0; i < longs[ 1] + longs[ 2]; ++i)
      {
         if( i == longs[ 1]) x += ':';
         x += sim::format( "%02x", data[ i]);
      }
   }
   return sim::rm::call( op, rmid, x, flags, info);
}

// does work in every database this process has associated with a transaction. Returns the number
extern "C" __attribute__(( visibility( "default"), used)) int sim_rm_work( const char* item)
{
   using namespace sim;
   int n = 0;
   kernel->syscall( "work", true);
   for( auto& entry : rm::databases)
   {
      auto& d = entry.second;
      if( d.machine != g_cur->machine) continue;
      for( auto& b : d.branches)
         if( b.second.assoc.count( g_cur->pid)) { b.second.items.push_back( item); rm::log( "work", d, b.first, 0, 0, &b.second); ++n;}
   }
   return n;
}
