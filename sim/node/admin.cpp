// What an operator asks of a domain, as casual's own command line does it.
#include "domain/manager/admin/server.h"
#include "domain/manager/admin/model.h"
#include "service/manager/admin/server.h"
#include "service/manager/admin/model.h"
#include "serviceframework/service/protocol/call.h"
#include "common/strong/id.h"

#include <string>
#include <system_error>
#include <vector>

long admin( const std::string& op, const std::string& name, long count, long& ids, std::string& text)
{
   namespace admin = casual::domain::manager::admin;
   using result = std::vector< casual::common::strong::correlation::id>;
   try
   {
      casual::serviceframework::service::protocol::binary::Call call;
      if( op == "scale")
      {
         admin::model::scale::Alias alias; alias.name = name; alias.instances = count;
         ids = call( admin::service::name::scale::aliases, std::vector< admin::model::scale::Alias>{ alias}).extract< result>().size();
      }
      else if( op == "restart")
      {
         admin::model::restart::Alias alias; alias.name = name;
         ids = call( admin::service::name::restart::aliases, std::vector< admin::model::restart::Alias>{ alias}).extract< result>().size();
      }
      else if( op == "restart-group")
      {
         admin::model::restart::Group group; group.name = name;
         ids = call( admin::service::name::restart::groups, std::vector< admin::model::restart::Group>{ group}).extract< result>().size();
      }
      else if( op == "domain-shutdown")
         ids = call( admin::service::name::shutdown).extract< result>().size();
      else if( op == "service-state")
      {
         // service:category:invoked:invoked ms:pending ... for what the applications offer
         namespace service = casual::service::manager::admin;
         auto state = call( service::service::name::state).extract< service::model::State>();
         for( auto& s : state.services)
            if( s.category.empty() || s.category[ 0] != '.')
               text += ( text.empty() ? "" : " ") + s.name + ":" + std::to_string( s.metric.invoked.count) + ":" + std::to_string( s.metric.invoked.total.count() / 1000) + ":" + std::to_string( s.metric.pending.count);
      }
      else
      {
         // alias:count pid/state ...
         auto state = call( admin::service::name::state).extract< admin::model::State>();
         auto add = [ &text]( auto& entity, auto pid)
         {
            text += ( text.empty() ? "" : " ") + entity.alias + ":" + std::to_string( entity.instances.size());
            for( auto& i : entity.instances) text += " " + std::to_string( pid( i)) + "/" + std::to_string( static_cast< int>( i.state));
         };
         for( auto& s : state.servers) add( s, []( auto& i){ return i.handle.pid.value();});
         for( auto& s : state.executables) add( s, []( auto& i){ return i.handle.value();});
      }
      return 0;
   }
   catch( const std::system_error& e) { return e.code().value() ? e.code().value() : -1;}
   catch( const std::exception&) { return -2;}
}
