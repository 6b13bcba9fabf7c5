// What a user of casual would write: servers, clients and a resource manager proxy, on the public C api. What they do is a small program,
// which the client gets from the plan, and a service from its request.
#include "casual/xatmi.h"
#include "casual/xatmi/server.h"
#include "casual/xatmi/executable.h"
#include "casual/tx.h"
#include "casual/xa.h"
#include "casual/queue/c/queue.h"
#include "queue/api/queue.h"
#include <signal.h>
#include <system_error>
#include "casual/transaction/resource/proxy/server.h"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <map>
#include <string>
#include <string_view>
#include <vector>
#include <unistd.h>
#include <uuid/uuid.h>

// in admin.cpp
long admin( const std::string& op, const std::string& name, long count, long& ids, std::string& text);

extern "C"
{
   void sim_log( const char* fields);
   const char* sim_script();
   const char* sim_tag();
   long long sim_now();
   int sim_xa( const char* op, int rmid, const void* xid, long flags, const char* info);
   int sim_rm_work( const char* item);
   int sim_go( const char*);
}

namespace
{
   std::string format( const char* fmt, ...)
   {
      char buffer[ 1024];
      va_list ap; va_start( ap, fmt);
      vsnprintf( buffer, sizeof( buffer), fmt, ap);
      va_end( ap);
      return buffer;
   }

   std::string quote( std::string_view s)
   {
      std::string r = "\"";
      for( unsigned char c : s)
      {
         if( c == '"' || c == '\\') { r += '\\'; r += c;}
         else if( c < 32 || c > 126) r += format( "\\u%04x", c);
         else r += c;
      }
      return r + "\"";
   }

   void log( const std::string& s) { sim_log( s.c_str());}

   // --- xa
   int xa_open( const char* info, int rmid, long flags) { return sim_xa( "open", rmid, nullptr, flags, info);}
   int xa_close( const char* info, int rmid, long flags) { return sim_xa( "close", rmid, nullptr, flags, info);}
   int xa_start( XID* xid, int rmid, long flags) { return sim_xa( "start", rmid, xid, flags, nullptr);}
   int xa_end( XID* xid, int rmid, long flags) { return sim_xa( "end", rmid, xid, flags, nullptr);}
   int xa_rollback( XID* xid, int rmid, long flags) { return sim_xa( "rollback", rmid, xid, flags, nullptr);}
   int xa_prepare( XID* xid, int rmid, long flags) { return sim_xa( "prepare", rmid, xid, flags, nullptr);}
   int xa_commit( XID* xid, int rmid, long flags) { return sim_xa( "commit", rmid, xid, flags, nullptr);}
   int xa_recover( XID*, long, int, long) { return 0;}
   int xa_forget( XID*, int, long) { return 0;}
   int xa_complete( int*, int*, int, long) { return 0;}

   struct xa_switch_t xa_switch = { "sim", 0, 0, &xa_open, &xa_close, &xa_start, &xa_end, &xa_rollback, &xa_prepare, &xa_commit, &xa_recover, &xa_forget, &xa_complete};

   // --- the language
   struct Cursor
   {
      std::string_view text;
      std::size_t pos = 0;
      void skip() { while( pos < text.size() && ( text[ pos] == ' ' || text[ pos] == '\n')) ++pos;}
      bool done() { skip(); return pos >= text.size();}
      // a word, or the content of { }
      std::string next()
      {
         skip();
         if( pos >= text.size()) return {};
         if( text[ pos] == '{')
         {
            int depth = 0;
            auto start = pos + 1;
            for( ; pos < text.size(); ++pos)
            {
               if( text[ pos] == '{') ++depth;
               if( text[ pos] == '}' && --depth == 0) { auto r = std::string( text.substr( start, pos - start)); ++pos; return r;}
            }
            return std::string( text.substr( start));
         }
         auto start = pos;
         while( pos < text.size() && text[ pos] != ' ' && text[ pos] != '\n' && text[ pos] != '{' && text[ pos] != '}') ++pos;
         return std::string( text.substr( start, pos - start));
      }
      bool peek( std::string_view prefix) { skip(); return text.substr( pos, prefix.size()) == prefix;}
      long number() { return std::strtol( next().c_str(), nullptr, 0);}
   };

   std::string pattern( const std::string& id, std::size_t size)
   {
      std::uint64_t h = 1469598103934665603ull;
      for( unsigned char c : id) h = ( h ^ c) * 1099511628211ull;
      std::string r( size, 'x');
      for( auto& c : r) { h = h * 6364136223846793005ull + 1442695040888963407ull; c = 'a' + ( h >> 60);}
      return r;
   }

   std::string gtrid()
   {
      TXINFO info{};
      if( tx_info( &info) != 1 || info.xid.formatID == -1) return {};
      std::string r;
      for( long i = 0; i < info.xid.gtrid_length; ++i) r += format( "%02x", static_cast< unsigned char>( info.xid.data[ i]));
      return r;
   }

   struct Buffer
   {
      char* data = nullptr;
      explicit Buffer( const std::string& s)
      {
         data = tpalloc( X_OCTET, nullptr, s.size() + 1);
         if( data) std::memcpy( data, s.data(), s.size());
      }
      explicit Buffer( long size) { data = tpalloc( X_OCTET, nullptr, size);}
      ~Buffer() { if( data) tpfree( data);}
   };

   struct Outcome { bool leave = false; bool fail = false; long code = 0; std::string reply; std::size_t reply_pad = 0; bool replied = false; std::string forward_to;};

   struct Uuid { uuid_t data{};};

   struct Machine
   {
      std::map< std::string, Uuid> uuids;    // of what was enqueued
      std::string who;                       // id of the client, or of the request a service executes
      int cd = -1;                           // the conversation a service is part of
      std::map< int, std::pair< std::string, std::string>> pending; // call descriptor -> id, expected
      int sequence = 0;
      std::vector< XID> suspended;
      int lost = 0;                          // calls that ended with an error for any, among the pending

      void ended( int cd)
      {
         log( format( "\"e\":\"ended\",\"id\":\"%s\",\"cd\":%d", pending[ cd].first.c_str(), cd));
         pending.erase( cd);
      }

      std::string fresh() { return who + "." + std::to_string( ++sequence);}

      static std::string request( const std::string& id, std::size_t pad, const std::string& program)
      {
         return "id " + id + " pad " + std::to_string( pad) + " { " + program + " } " + pattern( id, pad);
      }

      // checks a reply. What is expected is: id|text|padding
      static std::string check( const std::string& id, std::string_view data)
      {
         auto bar = data.find( '|');
         if( bar == std::string_view::npos) return "malformed";
         if( data.substr( 0, bar) != id) return "foreign";
         auto rest = data.substr( bar + 1);
         bar = rest.find( '|');
         if( bar == std::string_view::npos) return "malformed";
         auto pad = rest.substr( bar + 1);
         if( pad != pattern( id, pad.size())) return "corrupt";
         return {};
      }

      static std::string text( std::string_view data)
      {
         auto a = data.find( '|');
         auto b = data.find( '|', a + 1);
         if( a == std::string_view::npos || b == std::string_view::npos) return {};
         return std::string( data.substr( a + 1, b - a - 1));
      }

      Outcome run( std::string_view program)
      {
         Outcome out;
         Cursor c{ program};
         while( ! c.done() && ! out.leave)
            step( c, out);
         return out;
      }

      void step( Cursor& c, Outcome& out)
      {
         auto op = c.next();
         if( op == "work")
         {
            auto item = c.next();
            auto n = sim_rm_work( item.c_str());
            log( format( "\"e\":\"work\",\"item\":%s,\"n\":%d,\"g\":\"%s\"", quote( item).c_str(), n, gtrid().c_str()));
         }
         else if( op == "sleep")
         {
            auto ms = c.number();
            struct timespec t{ ms / 1000, ( ms % 1000) * 1000000};
            while( nanosleep( &t, nullptr) == -1) { break;}
         }
         else if( op == "await")
         {
            // until the clients of the scenario are to start
            // (only once: not when the domain starts them again)
            while( auto state = sim_go( who.c_str()))
            {
               struct timespec t{ state == 2 ? 1000000 : 0, 10000000};
               nanosleep( &t, nullptr);
            }
         }
         else if( op == "suspend") { auto g = gtrid(); XID xid; auto rc = tx_suspend( &xid); log( format( "\"e\":\"tx\",\"op\":\"suspend\",\"rc\":%d,\"g\":\"%s\",\"who\":\"%s\"", rc, g.c_str(), who.c_str())); if( rc == TX_OK) suspended.push_back( xid);}
         else if( op == "resume")
         {
            if( suspended.empty()) return;
            auto xid = suspended.back();
            auto rc = tx_resume( &xid);
            if( rc == TX_OK) suspended.pop_back();
            log( format( "\"e\":\"tx\",\"op\":\"resume\",\"rc\":%d,\"g\":\"%s\",\"who\":\"%s\"", rc, gtrid().c_str(), who.c_str()));
         }
         else if( op == "control") { auto v = c.number(); auto rc = tx_set_transaction_control( v); log( format( "\"e\":\"tx\",\"op\":\"control\",\"rc\":%d,\"value\":%ld", rc, v));}
         else if( op == "begin") { log( format( "\"e\":\"tx-start\",\"op\":\"begin\",\"g\":\"%s\",\"who\":\"%s\"", gtrid().c_str(), who.c_str())); auto rc = tx_begin(); log( format( "\"e\":\"tx\",\"op\":\"begin\",\"rc\":%d,\"g\":\"%s\",\"who\":\"%s\"", rc, gtrid().c_str(), who.c_str()));}
         else if( op == "commit" || op == "rollback")
         {
            auto g = gtrid();
            log( format( "\"e\":\"tx-start\",\"op\":\"%s\",\"g\":\"%s\",\"who\":\"%s\"", op.c_str(), g.c_str(), who.c_str()));
            auto rc = op == "commit" ? tx_commit() : tx_rollback();
            log( format( "\"e\":\"tx\",\"op\":\"%s\",\"rc\":%d,\"g\":\"%s\",\"who\":\"%s\"", op.c_str(), rc, g.c_str(), who.c_str()));
         }
         else if( op == "commit-return") { auto v = c.number(); auto rc = tx_set_commit_return( v); log( format( "\"e\":\"tx\",\"op\":\"commit-return\",\"rc\":%d,\"value\":%ld", rc, v));}
         else if( op == "tx-timeout") { auto v = c.number(); auto rc = tx_set_transaction_timeout( v); log( format( "\"e\":\"tx\",\"op\":\"timeout\",\"rc\":%d,\"value\":%d", rc, ( int) v));}
         else if( op == "txinfo")
         {
            TXINFO info{};
            auto rc = tx_info( &info);
            log( format( "\"e\":\"txinfo\",\"rc\":%d,\"state\":%ld,\"g\":\"%s\",\"who\":\"%s\"", rc, info.transaction_state, gtrid().c_str(), who.c_str()));
         }
         else if( op == "call")
         {
            auto service = c.next();
            auto flags = c.number();
            auto pad = c.number();
            auto body = c.next();
            auto id = fresh();
            Buffer in{ request( id, pad, body)};
            Buffer reply{ 128l};
            long length = 0;
            auto request_size = static_cast< long>( request( id, pad, body).size());
            log( format( "\"e\":\"call\",\"id\":\"%s\",\"svc\":\"%s\",\"flags\":%ld,\"g\":\"%s\"", id.c_str(), service.c_str(), flags, gtrid().c_str()));
            auto rc = tpcall( service.c_str(), in.data, request_size, &reply.data, &length, flags);
            result( "result", id, rc == -1, reply.data, length);
         }
         else if( op == "acall")
         {
            auto service = c.next();
            auto flags = c.number();
            auto pad = c.number();
            auto body = c.next();
            auto id = fresh();
            auto text = request( id, pad, body);
            Buffer in{ text};
            log( format( "\"e\":\"acall\",\"id\":\"%s\",\"svc\":\"%s\",\"flags\":%ld,\"g\":\"%s\"", id.c_str(), service.c_str(), flags, gtrid().c_str()));
            auto cd = tpacall( service.c_str(), in.data, text.size(), flags);
            log( format( "\"e\":\"acalled\",\"id\":\"%s\",\"cd\":%d,\"err\":%d", id.c_str(), cd, cd == -1 ? tperrno : 0));
            if( cd > 0)
            {
               if( pending.count( cd) && lost > 0) { --lost; ended( cd);}
               else if( pending.count( cd)) log( format( "\"e\":\"cd-reused\",\"id\":\"%s\",\"cd\":%d", id.c_str(), cd));
               pending[ cd] = { id, {}};
            }
         }
         else if( op == "getrply" || op == "getany")
         {
            auto flags = c.number();
            if( pending.empty()) return;
            int cd = pending.begin()->first;
            // when the failed one is not known, it has to be found out
            bool any = op == "getany" && lost == 0;
            if( any) { flags |= TPGETANY; cd = 0;}
            Buffer reply{ 128l};
            long length = 0;
            log( format( "\"e\":\"getrply\",\"cd\":%d,\"who\":\"%s\",\"flags\":%ld", cd, who.c_str(), flags));
            auto rc = tpgetrply( &cd, &reply.data, &length, flags);
            auto error = rc == -1 ? tperrno : 0;
            if( error == TPEBLOCK) { log( format( "\"e\":\"noreply\",\"cd\":%d,\"who\":\"%s\"", cd, who.c_str())); return;}
            if( any && rc == -1 && ! pending.count( cd))
            {
               log( format( "\"e\":\"getany-failed\",\"err\":%d,\"cd\":%d,\"pending\":%zu,\"who\":\"%s\"", error, cd, pending.size(), who.c_str()));
               if( pending.size() == 1) ended( cd = pending.begin()->first);
               else ++lost;
               return;
            }
            if( lost > 0 && rc == -1 && error == TPEBADDESC) { --lost; ended( cd); return;}
            if( ! pending.count( cd)) { log( format( "\"e\":\"unexpected-reply\",\"cd\":%d,\"who\":\"%s\",\"rc\":%d", cd, who.c_str(), rc)); return;}
            auto id = pending[ cd].first;
            pending.erase( cd);
            result( "areply", id, rc == -1, reply.data, length);
         }
         else if( op == "cancel")
         {
            if( pending.empty()) return;
            auto cd = pending.begin()->first;
            auto rc = tpcancel( cd);
            log( format( "\"e\":\"cancel\",\"id\":\"%s\",\"rc\":%d,\"err\":%d", pending[ cd].first.c_str(), rc, rc == -1 ? tperrno : 0));
            if( rc != -1) pending.erase( cd);
            else if( lost > 0 && tperrno == TPEBADDESC) { --lost; ended( cd);}
         }
         else if( op == "enq" || op == "enqs")
         {
            // enq Q pad avail reply [prop=P] - enqs Q avail reply { program}: for a service, that a forward calls
            auto queue = c.next();
            auto pad = op == "enq" ? c.number() : 0;
            auto available = c.number();   // ms from now
            auto reply = c.next();
            auto id = fresh();
            std::string payload;
            if( op == "enq") payload = id + "|" + pattern( id, pad);
            else payload = request( id, 50, c.next());
            auto property = "p" + id;
            if( c.peek( "prop=")) property = c.next().substr( 5);
            Buffer b{ payload};
            auto m = casual_queue_message_create( { b.data, static_cast< long>( payload.size())});
            casual_queue_message_attribute_set_properties( m, property.c_str());
            if( reply != "-") casual_queue_message_attribute_set_reply( m, reply.c_str());
            long at = 0;
            if( available)
            {
               struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts);
               at = ts.tv_sec * 1000 + ts.tv_nsec / 1000000 + available;
               casual_queue_message_attribute_set_available( m, at);
            }
            log( format( "\"e\":\"enq\",\"id\":\"%s\",\"q\":\"%s\",\"g\":\"%s\",\"available\":%ld,\"prop\":\"%s\"", id.c_str(), queue.c_str(), gtrid().c_str(), available, property.c_str()));
            auto rc = casual_queue_enqueue( queue.c_str(), m);
            auto error = rc == -1 ? casual_qerrno : 0;
            if( rc != -1)
            {
               uuid_t uuid;
               casual_queue_message_get_id( m, &uuid);
               uuid_copy( uuids[ id].data, uuid);
            }
            log( format( "\"e\":\"enqd\",\"id\":\"%s\",\"q\":\"%s\",\"rc\":%d,\"err\":%d", id.c_str(), queue.c_str(), rc, error));
            casual_queue_message_delete( m);
         }
         else if( op == "deq" || op == "peek")
         {
            // selector: - none, =P by property, #id by the id of a message this process enqueued
            auto queue = c.next();
            auto which = c.next();
            casual_selector_descriptor_t selector = CASUAL_QUEUE_NO_SELECTOR;
            if( which[ 0] == '#' && ! uuids.count( which.substr( 1))) which = "-";
            if( which != "-")
            {
               selector = casual_queue_selector_create();
               if( which[ 0] == '=') casual_queue_selector_set_properties( selector, which.substr( 1).c_str());
               else casual_queue_selector_set_id( selector, &uuids[ which.substr( 1)].data);
            }
            auto id = fresh();
            log( format( "\"e\":\"%s\",\"id\":\"%s\",\"q\":\"%s\",\"g\":\"%s\",\"sel\":\"%s\"", op.c_str(), id.c_str(), queue.c_str(), gtrid().c_str(), which.c_str()));
            auto m = op == "deq" ? casual_queue_dequeue( queue.c_str(), selector) : casual_queue_peek( queue.c_str(), selector);
            if( m == -1)
               log( format( "\"e\":\"%sd\",\"id\":\"%s\",\"q\":\"%s\",\"rc\":-1,\"err\":%d", op.c_str(), id.c_str(), queue.c_str(), casual_qerrno));
            else
               got( op + "d", id, queue, m);
            if( selector != CASUAL_QUEUE_NO_SELECTOR) casual_queue_selector_delete( selector);
         }
         else if( op == "bdeq" || op == "wdeq")
         {
            // waits for a message, and the latter for the queue also
            auto queue = c.next();
            auto which = c.next();
            casual::queue::Selector selector;
            if( which[ 0] == '=') selector.properties = which.substr( 1);
            auto id = fresh();
            log( format( "\"e\":\"%s\",\"id\":\"%s\",\"q\":\"%s\",\"g\":\"%s\",\"sel\":\"%s\"", op.c_str(), id.c_str(), queue.c_str(), gtrid().c_str(), which.c_str()));
            try
            {
               auto m = op == "bdeq" ? casual::queue::blocking::dequeue( queue, selector) : casual::queue::blocking::available::dequeue( queue, selector);
               got( op + "d", id, queue, { reinterpret_cast< const char*>( m.payload.data.data()), m.payload.data.size()}, m.attributes.properties);
            }
            catch( const std::system_error& error)
            {
               log( format( "\"e\":\"%sd\",\"id\":\"%s\",\"q\":\"%s\",\"rc\":-1,\"err\":%d", op.c_str(), id.c_str(), queue.c_str(), error.code().value()));
            }
         }
         else if( op == "browse")
         {
            auto queue = c.next();
            auto id = fresh();
            log( format( "\"e\":\"browse\",\"id\":\"%s\",\"q\":\"%s\"", id.c_str(), queue.c_str()));
            long n = 0, error = 0;
            try
            {
               casual::queue::browse::peek( queue, [&]( casual::queue::Message&& m)
               {
                  ++n;
                  got( "browsed", id, queue, { reinterpret_cast< const char*>( m.payload.data.data()), m.payload.data.size()}, m.attributes.properties);
                  return n < 200;
               });
            }
            catch( const std::system_error& e) { error = e.code().value();}
            log( format( "\"e\":\"browse-end\",\"id\":\"%s\",\"q\":\"%s\",\"n\":%ld,\"err\":%ld", id.c_str(), queue.c_str(), n, error));
         }
         else if( op == "drain")
         {
            // dequeues, each on its own, until there is no more
            auto queue = c.next();
            auto limit = c.number();
            for( long i = 0; i < limit; ++i)
            {
               log( format( "\"e\":\"draining\",\"q\":\"%s\"", queue.c_str()));
               auto m = casual_queue_dequeue( queue.c_str(), CASUAL_QUEUE_NO_SELECTOR);
               if( m == -1)
               {
                  log( format( "\"e\":\"drained\",\"q\":\"%s\",\"n\":%ld,\"err\":%d", queue.c_str(), i, casual_qerrno));
                  return;
               }
               got( "drain", "", queue, m);
            }
            log( format( "\"e\":\"drained\",\"q\":\"%s\",\"n\":%ld,\"err\":-1", queue.c_str(), limit));
         }
         else if( op == "converse")
         {
            // a conversation the initiator drives: { turns }
            auto service = c.next();
            auto flags = c.number();
            auto body = c.next();     // what the service does
            auto mine = c.next();     // what we do
            auto id = fresh();
            auto text = request( id, 0, body);
            Buffer in{ text};
            log( format( "\"e\":\"connect\",\"id\":\"%s\",\"svc\":\"%s\",\"flags\":%ld,\"g\":\"%s\"", id.c_str(), service.c_str(), flags, gtrid().c_str()));
            auto descriptor = tpconnect( service.c_str(), in.data, text.size(), flags);
            log( format( "\"e\":\"connected\",\"id\":\"%s\",\"cd\":%d,\"err\":%d", id.c_str(), descriptor, descriptor == -1 ? tperrno : 0));
            if( descriptor == -1) return;
            Machine inner; inner.who = id; inner.cd = descriptor;
            inner.run( mine);
         }
         else if( op == "send")
         {
            auto flags = c.number();
            auto pad = c.number();
            auto id = fresh();
            auto payload = id + "||" + pattern( id, pad);
            Buffer b{ payload};
            long event = 0;
            auto rc = tpsend( cd, b.data, payload.size(), flags, &event);
            log( format( "\"e\":\"sent\",\"id\":\"%s\",\"conv\":\"%s\",\"rc\":%d,\"err\":%d,\"event\":%ld", id.c_str(), who.c_str(), rc, rc == -1 ? tperrno : 0, event));
         }
         else if( op == "recv")
         {
            auto flags = c.number();
            Buffer b{ 128l};
            long length = 0, event = 0;
            log( format( "\"e\":\"recv\",\"conv\":\"%s\"", who.c_str()));
            auto rc = tprecv( cd, &b.data, &length, flags, &event);
            auto error = rc == -1 ? tperrno : 0;
            std::string_view data{ b.data, static_cast< std::size_t>( length)};
            auto mid = std::string( data.substr( 0, std::min( data.find( '|'), std::size_t( 100))));
            log( format( "\"e\":\"received\",\"conv\":\"%s\",\"rc\":%d,\"err\":%d,\"event\":%ld,\"msg\":%s,\"bad\":\"%s\"", who.c_str(), rc, error, event, quote( mid).c_str(), length > 0 ? check( mid, data).c_str() : ""));
         }
         else if( op == "discon") { auto rc = tpdiscon( cd); log( format( "\"e\":\"discon\",\"conv\":\"%s\",\"rc\":%d,\"err\":%d", who.c_str(), rc, rc == -1 ? tperrno : 0));}
         else if( op == "advertise" || op == "unadvertise")
         {
            auto name = c.next();
            auto rc = op == "advertise" ? tpadvertise( name.c_str(), &service_entry) : tpunadvertise( name.c_str());
            log( format( "\"e\":\"%s\",\"svc\":\"%s\",\"rc\":%d,\"err\":%d", op.c_str(), name.c_str(), rc, rc == -1 ? tperrno : 0));
         }
         else if( op == "repeat")
         {
            auto n = c.number();
            auto body = c.next();
            for( long i = 0; i < n && ! out.leave; ++i)
            {
               Cursor inner{ body};
               while( ! inner.done() && ! out.leave) step( inner, out);
            }
         }
         // --- what an operator asks of the domain
         else if( op == "scale" || op == "restart" || op == "restart-group" || op == "domain-shutdown" || op == "domain-state" || op == "service-state")
         {
            std::string name; long count = 0;
            if( op != "domain-shutdown" && op != "domain-state" && op != "service-state") name = c.next();
            if( op == "scale") count = c.number();
            log( format( "\"e\":\"admin\",\"op\":\"%s\",\"name\":\"%s\",\"count\":%ld,\"who\":\"%s\"", op.c_str(), name.c_str(), count, who.c_str()));
            long ids = 0; std::string text;
            auto rc = admin( op, name, count, ids, text);
            log( format( "\"e\":\"admind\",\"op\":\"%s\",\"name\":\"%s\",\"count\":%ld,\"rc\":%ld,\"ids\":%ld,\"text\":\"%s\",\"who\":\"%s\"", op.c_str(), name.c_str(), count, rc, ids, text.substr( 0, 2000).c_str(), who.c_str()));
         }
         else if( op == "mark") { auto m = c.next(); log( format( "\"e\":\"mark\",\"name\":\"%s\",\"who\":\"%s\"", m.c_str(), who.c_str()));}
         // --- how a service ends
         else if( op == "reply") { out.reply = c.next(); out.reply_pad = c.number();}
         else if( op == "fail") { out.fail = true; out.code = c.number(); out.leave = true;}
         else if( op == "return") { out.code = c.number(); out.leave = true;}
         else if( op == "exit") { auto code = c.number(); log( format( "\"e\":\"app-exit\",\"code\":%ld", code)); _exit( code);}
         else if( op == "crash") { log( "\"e\":\"app-exit\",\"code\":-1"); abort();}
         else
            log( format( "\"e\":\"bad-op\",\"op\":%s", quote( op).c_str()));
      }

      void got( const std::string& kind, const std::string& id, const std::string& queue, std::string_view data, const std::string& property)
      {
         // what was enqueued is id|padding, or a request, what a service replied is id|text|padding
         std::string mid, type = "message", pad;
         if( data.substr( 0, 3) == "id ")
         {
            Cursor c{ data};
            c.next();
            mid = c.next();
            c.next(); c.next(); c.next(); c.skip();
            pad = data.substr( std::min( c.pos, data.size()));
            type = "request";
         }
         else
         {
            auto bar = std::min( data.find( '|'), data.size());
            mid = data.substr( 0, bar);
            auto rest = data.substr( std::min( bar + 1, data.size()));
            auto other = rest.find( '|');
            if( other != std::string_view::npos) { type = "reply"; rest = rest.substr( other + 1);}
            if( bar == data.size()) type = "malformed";
            pad = rest;
         }
         bool good = type != "malformed" && pad == pattern( mid, pad.size());
         log( format( "\"e\":\"%s\",\"id\":\"%s\",\"q\":\"%s\",\"rc\":0,\"err\":0,\"msg\":%s,\"good\":%s,\"prop\":%s,\"size\":%zu,\"type\":\"%s\"", kind.c_str(), id.c_str(), queue.c_str(), quote( mid.substr( 0, 100)).c_str(), good ? "true" : "false", quote( property.substr( 0, 100)).c_str(), data.size(), type.c_str()));
      }

      void got( const std::string& kind, const std::string& id, const std::string& queue, casual_message_descriptor_t m)
      {
         casual_buffer_t b{};
         casual_queue_message_get_buffer( m, &b);
         auto properties = casual_queue_message_attribute_get_properties( m);
         got( kind, id, queue, { b.data, static_cast< std::size_t>( b.size)}, properties ? properties : "");
         if( b.data) tpfree( b.data);
         casual_queue_message_delete( m);
      }

      void result( const char* kind, const std::string& id, bool failed, const char* data, long length)
      {
         auto error = failed ? tperrno : 0;
         bool carries = ( ! failed || error == TPESVCFAIL) && data;
         std::string_view view{ data ? data : "", carries ? static_cast< std::size_t>( length) : 0};
         auto bad = carries && length > 0 ? check( id, view) : std::string{};
         log( format( "\"e\":\"%s\",\"id\":\"%s\",\"err\":%d,\"urcode\":%ld,\"bad\":\"%s\",\"text\":%s,\"size\":%zu", kind, id.c_str(), error, carries ? tpurcode : 0l, bad.c_str(), quote( carries ? text( view) : "").c_str(), view.size()));
      }

      static void service_entry( TPSVCINFO* info);
   };

   void Machine::service_entry( TPSVCINFO* info)
   {
      Cursor c{ std::string_view( info->data ? info->data : "", info->data ? info->len : 0)};
      c.next();
      Machine m;
      auto id = c.next();
      m.who = id;
      c.next();
      auto pad = c.number();
      auto program = c.next();
      c.skip();
      bool intact = c.text.substr( c.pos) == pattern( id, pad);
      if( info->flags & TPCONV) m.cd = info->cd;
      log( format( "\"e\":\"svc\",\"id\":%s,\"svc\":\"%s\",\"flags\":%ld,\"intact\":%s,\"g\":\"%s\"", quote( id.substr( 0, 100)).c_str(), info->name, info->flags, intact ? "true" : "false", gtrid().c_str()));
      auto out = m.run( program);
      auto reply = id + "|" + out.reply + "|" + pattern( id, out.reply_pad);
      log( format( "\"e\":\"svc-end\",\"id\":%s,\"svc\":\"%s\",\"ok\":%s,\"code\":%ld,\"text\":%s,\"size\":%zu,\"g\":\"%s\"", quote( id.substr( 0, 100)).c_str(), info->name, out.fail ? "false" : "true", out.code, quote( out.reply).c_str(), reply.size(), gtrid().c_str()));
      auto data = tpalloc( X_OCTET, nullptr, reply.size() + 1);
      std::memcpy( data, reply.data(), reply.size());
      auto size = static_cast< long>( reply.size());
      auto fail = out.fail;
      auto code = out.code;
      // tpreturn does not come back, what is left here is not destroyed
      m = Machine{};
      out = Outcome{};
      reply = std::string{}; program = std::string{}; id = std::string{};
      tpreturn( fail ? TPFAIL : TPSUCCESS, code, data, size, 0);
   }

   std::vector< std::string> split( const std::string& s, char by)
   {
      std::vector< std::string> r;
      std::size_t pos = 0;
      while( pos <= s.size())
      {
         auto end = std::min( s.find( by, pos), s.size());
         if( end > pos) r.push_back( s.substr( pos, end - pos));
         pos = end + 1;
      }
      return r;
   }

   std::vector< std::string>& names() { static std::vector< std::string> singleton; return singleton;}

   std::vector< casual_xa_switch_map> resources( int argc, char** argv)
   {
      std::vector< casual_xa_switch_map> result;
      for( int i = 1; i < argc; ++i)
      {
         std::string a = argv[ i];
         if( a.rfind( "rm=", 0) == 0)
            for( auto& n : split( a.substr( 3), ','))
            {
               names().push_back( n);
               result.push_back( { "sim-rm", strdup( n.c_str()), &xa_switch});
            }
      }
      result.push_back( { nullptr, nullptr, nullptr});
      return result;
   }

   std::string g_init;
   int initialize( int argc, char** argv)
   {
      for( int i = 1; i < argc; ++i)
      {
         std::string a = argv[ i];
         if( a.rfind( "init=", 0) != 0) continue;
         auto program = a.substr( 5);
         for( auto& ch : program) if( ch == '_') ch = ' ';
         Machine m; m.who = std::string( "init:") + sim_tag();
         auto out = m.run( program);
         if( out.fail) return -1;
      }
      log( "\"e\":\"server-up\"");
      return 0;
   }
   void done() { log( "\"e\":\"server-done\"");}
}

extern "C" int sim_main_server( int argc, char** argv)
{
   // svc=name:transaction:visibility,...
   std::vector< casual_service_definition> services;
   for( int i = 1; i < argc; ++i)
   {
      std::string a = argv[ i];
      if( a.rfind( "svc=", 0) != 0) continue;
      for( auto& s : split( a.substr( 4), ','))
      {
         auto parts = split( s, ':');
         services.push_back( { &Machine::service_entry, strdup( parts[ 0].c_str()), "", parts.size() > 1 ? std::strtoull( parts[ 1].c_str(), nullptr, 10) : 0, parts.size() > 2 ? std::strtoull( parts[ 2].c_str(), nullptr, 10) : 1});
      }
   }
   services.push_back( { nullptr, nullptr, nullptr, 0, 0});
   auto rms = resources( argc, argv);
   casual_server_arguments_v2 arguments{ services.data(), &initialize, &done, argc, argv, rms.data()};
   return casual_run_server_v2( &arguments);
}

namespace
{
   int client_entry( int argc, char** argv)
   {
      Machine m;
      m.who = argc > 1 ? argv[ 1] : "c";
      log( "\"e\":\"client-up\"");
      m.run( sim_script());
      log( "\"e\":\"client-done\"");
      return 0;
   }
}

extern "C" int sim_main_client( int argc, char** argv)
{
   auto rms = resources( argc, argv);
   casual_executable_arguments arguments{ &client_entry, argc, argv, rms.data()};
   return casual_run_executable( &arguments);
}

extern "C" int sim_main_script( int argc, char** argv)
{
   // an executable of the domain that is not a casual server: sleep=ms exit=code
   struct sigaction standard{};
   standard.sa_handler = SIG_DFL;
   sigaction( SIGTERM, &standard, nullptr);
   sigset_t none;
   sigemptyset( &none);
   sigprocmask( SIG_SETMASK, &none, nullptr);
   for( int i = 1; i < argc; ++i)
   {
      std::string a = argv[ i];
      if( a.rfind( "sleep=", 0) == 0)
      {
         auto ms = std::strtol( a.c_str() + 6, nullptr, 10);
         struct timespec t{ ms / 1000, ( ms % 1000) * 1000000};
         nanosleep( &t, nullptr);
      }
      if( a.rfind( "exit=", 0) == 0) return std::strtol( a.c_str() + 5, nullptr, 10);
   }
   return 0;
}

extern "C" int sim_main_rm_proxy( int argc, char** argv)
{
   struct casual_xa_switch_mapping mapping[] = { { "sim-rm", &xa_switch}, { nullptr, nullptr}};
   struct casual_resource_proxy_service_argument arguments = { argc, argv, mapping};
   return casual_start_resource_proxy( &arguments);
}
