// The executables that simulated processes can run.
#include <cstring>
#include <csignal>
#include <unistd.h>

// The static initialisers of a main function's file are run only in the processes of that executable (see build.py).
#define INITIALIZERS( name) \
   extern void (*__start_init_##name[])( int, char**, char**) __attribute__(( weak, visibility( "hidden"))); \
   extern void (*__stop_init_##name[])( int, char**, char**) __attribute__(( weak, visibility( "hidden")));

extern "C"
{
   INITIALIZERS( casual_main_domain_manager)
   INITIALIZERS( casual_main_domain_discovery)
   INITIALIZERS( casual_main_service_manager)
   INITIALIZERS( casual_main_service_forward)
   INITIALIZERS( casual_main_transaction_manager)
   INITIALIZERS( casual_main_queue_manager)
   INITIALIZERS( casual_main_queue_group)
   INITIALIZERS( casual_main_queue_forward_group)
   INITIALIZERS( casual_main_gateway_manager)
   INITIALIZERS( casual_main_gateway_inbound_group)
   INITIALIZERS( casual_main_gateway_inbound_reverse_group)
   INITIALIZERS( casual_main_gateway_outbound_group)
   INITIALIZERS( casual_main_gateway_outbound_reverse_group)
   INITIALIZERS( casual_main_gateway_group_tcp_logical_connect)
   INITIALIZERS( casual_main_event_service_log)
   int casual_main_domain_manager( int, char**);
   int casual_main_domain_discovery( int, char**);
   int casual_main_service_manager( int, char**);
   int casual_main_service_forward( int, char**);
   int casual_main_transaction_manager( int, char**);
   int casual_main_queue_manager( int, char**);
   int casual_main_queue_group( int, char**);
   int casual_main_queue_forward_group( int, char**);
   int casual_main_gateway_manager( int, char**);
   int casual_main_gateway_inbound_group( int, char**);
   int casual_main_gateway_inbound_reverse_group( int, char**);
   int casual_main_gateway_outbound_group( int, char**);
   int casual_main_gateway_outbound_reverse_group( int, char**);
   int casual_main_gateway_group_tcp_logical_connect( int, char**);
   int casual_main_event_service_log( int, char**);
   int sim_main_server( int, char**);
   int sim_main_client( int, char**);
   int sim_main_rm_proxy( int, char**);
   int sim_main_script( int, char**);
}

namespace
{
   using initializer = void (*)( int, char**, char**);
   struct Entry { const char* name; int (*main)( int, char**); initializer* begin = nullptr; initializer* end = nullptr;};
   const Entry entries[] = {
      { "casual-domain-manager", &casual_main_domain_manager, __start_init_casual_main_domain_manager, __stop_init_casual_main_domain_manager},
      { "casual-domain-discovery", &casual_main_domain_discovery, __start_init_casual_main_domain_discovery, __stop_init_casual_main_domain_discovery},
      { "casual-service-manager", &casual_main_service_manager, __start_init_casual_main_service_manager, __stop_init_casual_main_service_manager},
      { "casual-service-forward", &casual_main_service_forward, __start_init_casual_main_service_forward, __stop_init_casual_main_service_forward},
      { "casual-transaction-manager", &casual_main_transaction_manager, __start_init_casual_main_transaction_manager, __stop_init_casual_main_transaction_manager},
      { "casual-queue-manager", &casual_main_queue_manager, __start_init_casual_main_queue_manager, __stop_init_casual_main_queue_manager},
      { "casual-queue-group", &casual_main_queue_group, __start_init_casual_main_queue_group, __stop_init_casual_main_queue_group},
      { "casual-queue-forward-group", &casual_main_queue_forward_group, __start_init_casual_main_queue_forward_group, __stop_init_casual_main_queue_forward_group},
      { "casual-gateway-manager", &casual_main_gateway_manager, __start_init_casual_main_gateway_manager, __stop_init_casual_main_gateway_manager},
      { "casual-gateway-inbound-group", &casual_main_gateway_inbound_group, __start_init_casual_main_gateway_inbound_group, __stop_init_casual_main_gateway_inbound_group},
      { "casual-gateway-inbound-reverse-group", &casual_main_gateway_inbound_reverse_group, __start_init_casual_main_gateway_inbound_reverse_group, __stop_init_casual_main_gateway_inbound_reverse_group},
      { "casual-gateway-outbound-group", &casual_main_gateway_outbound_group, __start_init_casual_main_gateway_outbound_group, __stop_init_casual_main_gateway_outbound_group},
      { "casual-gateway-outbound-reverse-group", &casual_main_gateway_outbound_reverse_group, __start_init_casual_main_gateway_outbound_reverse_group, __stop_init_casual_main_gateway_outbound_reverse_group},
      { "casual-gateway-group-tcp-logical-connect", &casual_main_gateway_group_tcp_logical_connect, __start_init_casual_main_gateway_group_tcp_logical_connect, __stop_init_casual_main_gateway_group_tcp_logical_connect},
      { "casual-event-service-log", &casual_main_event_service_log, __start_init_casual_main_event_service_log, __stop_init_casual_main_event_service_log},
      { "sim-server", &sim_main_server},
      { "sim-client", &sim_main_client},
      { "sim-rm-proxy", &sim_main_rm_proxy},
      { "sim-script", &sim_main_script},
   };
}

extern "C" const char* const sim_node_executables[] = {
   "casual-domain-manager", "casual-domain-discovery", "casual-service-manager", "casual-service-forward", "casual-transaction-manager", "casual-queue-manager", "casual-queue-group",
   "casual-queue-forward-group", "casual-gateway-manager", "casual-gateway-inbound-group", "casual-gateway-inbound-reverse-group", "casual-gateway-outbound-group",
   "casual-gateway-outbound-reverse-group", "casual-gateway-group-tcp-logical-connect", "casual-event-service-log", "sim-server", "sim-client", "sim-rm-proxy", "sim-script", nullptr};

extern "C" int sim_node_run( const char* exe, int argc, char** argv)
{
   for( auto& e : entries)
      if( std::strcmp( e.name, exe) == 0)
      {
         // it is not linked with casual, so casual can't handle its signals before main
         if( std::strcmp( exe, "sim-script") == 0)
         {
            sigset_t all;
            sigfillset( &all);
            sigprocmask( SIG_SETMASK, &all, nullptr);
         }
         for( auto i = e.begin; i != e.end; ++i) ( *i)( argc, argv, environ);
         return e.main( argc, argv);
      }
   return 127;
}
