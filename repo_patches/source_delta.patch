From b03a14cdbd73135a3c044dccef5fe0263713ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 01/45] fix: the sql error category is one object in a program

'inline static' gave every translation unit a category of its own, and the second to be used terminated the process with 'error code is already registered'. A queue group that is built with optimisation has two (queuebase.cpp and statement.cpp).
---
 thirdparty/database/include/sql/database.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thirdparty/database/include/sql/database.h b/thirdparty/database/include/sql/database.h
index e8658a7..e1caba5 100755
--- a/thirdparty/database/include/sql/database.h
+++ b/thirdparty/database/include/sql/database.h
@@ -57,7 +57,7 @@ namespace sql
                   return sqlite3_errstr( code);
                }
             };
-            inline static const Category& category()
+            inline const Category& category()
             {
                static auto& category = casual::common::code::serialize::registration< Category>( 0xa5fb63c2e7f343c3a8b0147f3f0a667a_uuid);
                return category;
-- 
2.43.0


From b3b8db55f2ce3d2f870c4adafaadc3d29affbee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 02/45] fix: a late reply does not fail a tpgetrply that
 fetches any

After a call has got its timeout from service-manager, the callee still replies.
That reply made the next tpgetrply with TPGETANY fail with TPEBADDESC, while the
replies that the caller really waited for were still to come.
---
 .../common/include/common/service/call/state.h   |  1 +
 .../common/source/service/call/context.cpp       | 16 ++++++++++------
 middleware/common/source/service/call/state.cpp  | 12 ++++++++++--
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/middleware/common/include/common/service/call/state.h b/middleware/common/include/common/service/call/state.h
index 9a8b130..dcef575 100644
--- a/middleware/common/include/common/service/call/state.h
+++ b/middleware/common/include/common/service/call/state.h
@@ -51,6 +51,7 @@ namespace casual
             void unreserve( descriptor_type descriptor);
 
             bool active( descriptor_type descriptor) const;
+            bool active( const correlation_type& correlation) const;
 
             const pending::Descriptor& get( descriptor_type descriptor) const;
             const pending::Descriptor& get( const correlation_type& correlation) const;
diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index ce6e43b..55164d8 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -229,13 +229,17 @@ namespace casual
 
             if( flag::contains( flags, reply::Flag::any))
             {
-               // We fetch any
-               if( ! local::receive( reply, flags))
-                  code::raise::error( code::xatmi::no_message);
+               // We fetch any. There might be replies to calls that we're not waiting for any more (the 
+               // call has got a timeout from service-manager, and the callee replied later), we discard these.
+               do
+               {
+                  if( ! local::receive( reply, flags))
+                     code::raise::error( code::xatmi::no_message);
+               }
+               while( ! m_state.pending.active( reply.correlation));
 
-               return std::make_pair(
-                  std::move( reply),
-                  m_state.pending.get( reply.correlation).descriptor);
+               auto descriptor = m_state.pending.get( reply.correlation).descriptor;
+               return std::make_pair( std::move( reply), descriptor);
             }
             else
             {
diff --git a/middleware/common/source/service/call/state.cpp b/middleware/common/source/service/call/state.cpp
index 37696b8..52d010f 100644
--- a/middleware/common/source/service/call/state.cpp
+++ b/middleware/common/source/service/call/state.cpp
@@ -72,6 +72,14 @@ namespace casual
             return false;
          }
 
+         bool Pending::active( const correlation_type& correlation) const
+         {
+            return algorithm::any_of( m_descriptors, [ &correlation]( auto& descriptor)
+            {
+               return descriptor.active && descriptor.correlation == correlation;
+            });
+         }
+
          const pending::Descriptor& Pending::get( descriptor_type descriptor) const
          {
             auto found = algorithm::find( m_descriptors, descriptor);
@@ -92,8 +100,8 @@ namespace casual
 
          const pending::Descriptor& Pending::get( const correlation_type& correlation) const
          {
-            auto found = algorithm::find_if( m_descriptors, [&]( const auto& d){ return d.correlation == correlation;});
-            if( ! ( found && found->active))
+            auto found = algorithm::find_if( m_descriptors, [&]( const auto& d){ return d.active && d.correlation == correlation;});
+            if( ! found)
                code::raise::error( code::xatmi::descriptor, "failed to locate pending from correlation: ", correlation);
                
             return *found;
-- 
2.43.0


From 7a957a3692c68f9a789be45df53624f303446149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 03/45] fix: a message whose sender died half way does not
 swallow the next one

If a server dies when some, but not all, parts of its reply are sent, service-manager
sends an error reply to the caller, with the same type and correlation. The caller
took that for a part of the incomplete reply, discarded it, and waited for ever.
---
 middleware/common/source/communication/ipc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/communication/ipc.cpp b/middleware/common/source/communication/ipc.cpp
index b38b408..212d69d 100644
--- a/middleware/common/source/communication/ipc.cpp
+++ b/middleware/common/source/communication/ipc.cpp
@@ -295,7 +295,8 @@ namespace casual
                         {
                            return ! complete.complete() 
                               && transport.type() == complete.type()
-                              && transport.message.header.correlation == complete.correlation();
+                              && transport.message.header.correlation == complete.correlation()
+                              && transport.complete_size() == complete.size();
                         });
 
                   if( found)
@@ -359,7 +360,8 @@ namespace casual
                            {
                               return ! complete.complete()
                                  && transport.type() == complete.type()
-                                 && transport.message.header.correlation == complete.correlation();
+                                 && transport.message.header.correlation == complete.correlation()
+                                 && transport.complete_size() == complete.size();
                            });
 
                      if( found)
-- 
2.43.0


From 38973c1f41780e91ce07913ab77efce96185fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 04/45] fix: a lost lookup reply discards the reservation that
 was made for it

When the caller of a lookup was gone, service-manager looked up the instance to
discard by the ipc of the caller. If the caller was a server, the caller's own
instance was reset, and the one that waited for it never got the error reply.
The instance that was reserved for the lookup stayed reserved for ever.
---
 middleware/service/source/manager/handle.cpp | 44 ++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index e743331..6e0bfcb 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -406,6 +406,9 @@ namespace casual
                      }
                   }
 
+                  // defined after lookup, below
+                  void unreserve( State& state, state::instance::sequential::id::type instance_id, const strong::correlation::id& correlation);
+
                   namespace dispatch::lookup
                   {
                      void no_entry( State& state, common::message::service::lookup::Request& message)
@@ -484,10 +487,10 @@ namespace casual
                         }
 
                         // send reply, if caller gone, we discard the reservation.
-                        state.multiplex.send( message.process.ipc, reply, [ &state]( auto& destination, auto& complete)
+                        state.multiplex.send( message.process.ipc, reply, [ &state, instance_id, correlation = message.correlation]( auto& destination, auto& complete)
                         {
-                           if( auto instance_id = state.instances.sequential.lookup( destination))
-                              state.instances.sequential[ instance_id].discard();
+                           if constexpr( ! is_concurrent)
+                              detail::unreserve( state, instance_id, correlation);
                         });
                      }
 
@@ -646,6 +649,41 @@ namespace casual
                      }
                   }
 
+                  //! the caller is gone, and will never use the reservation.
+                  void unreserve( State& state, state::instance::sequential::id::type instance_id, const strong::correlation::id& correlation)
+                  {
+                     Trace trace{ "service::manager::handle::local::service::detail::unreserve"};
+
+                     if( ! state.instances.sequential.contains( instance_id))
+                        return;
+
+                     auto& instance = state.instances.sequential[ instance_id];
+
+                     // make sure the reservation is still for the lost lookup
+                     if( instance.idle() || instance.caller().correlation != correlation)
+                        return;
+
+                     instance.discard();
+
+                     if( auto deadline = state.pending.deadline.remove( correlation))
+                        signal::timer::set( deadline.value());
+
+                     if( algorithm::find( state.disabled, instance_id))
+                        return;
+
+                     // the instance is available for others
+                     auto has_pending = [ &state, &instance]( auto& pending)
+                     {
+                        return instance.service( state.services.lookup( pending.request.requested));
+                     };
+
+                     if( auto found = algorithm::find_if( state.pending.lookups, has_pending))
+                     {
+                        auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
+                        detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
+                     }
+                  }
+
                } // detail
 
                auto lookup( State& state)
-- 
2.43.0


From cfbf6919eacaf3a0877efc230d5aec8632697a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 05/45] fix: a deadline of a pending lookup sets the timer

A lookup that has to wait for an instance got its deadline registered, but
the timer was left as it was. If the new deadline was the earliest one (or the
only one) nothing woke the service manager, and the caller of a service with
an execution timeout waited for whatever message that came next.
---
 middleware/service/source/manager/handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 6e0bfcb..d7e9aab 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -525,7 +525,8 @@ namespace casual
 
                               if( auto deadline = detail::calculate_deadline( state.services[ service_id], now, message.deadline))
                                  if( state.services[ service_id].has_sequential())
-                                    state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation});
+                                    if( auto next = state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation}))
+                                       signal::timer::set( next.value() - now);
 
                               state.pending.lookups.emplace_back( std::move( message), now);
 
-- 
2.43.0


From f41e61a35c717537663a7ce7c56218079c6afbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 06/45] fix: an instance that is about to be killed is not
 reserved

An instance whose call has timed out, with a contract that ends the instance,
is 'disabled' until it dies. ack() did not hand it out to pending lookups, but
a new lookup could still reserve it, and the new call was lost when the
instance was killed for the timeout of the other call.
---
 middleware/service/source/manager/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 51675a1..5d223b5 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -594,7 +594,8 @@ namespace casual
 
          auto is_idle = [ &]( auto instance_id)
          {
-            return instances.sequential[ instance_id].idle();
+            // a disabled instance is about to exit, or to be killed. We can't hand it out, even if it's idle.
+            return instances.sequential[ instance_id].idle() && ! algorithm::find( disabled, instance_id);
          };
 
          auto& service = services[ service_id];
-- 
2.43.0


From 32b070f54d0ade5fbc246badc5e98b68893ff610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 07/45] fix: replies that a service did not fetch are not seen
 by the next invocation

A service that returned with outstanding calls left the descriptors active.
The replies were then delivered to the next invocation in the same instance,
if it fetched any (TPGETANY): a reply to somebody else's call.
---
 .../common/include/common/server/handle/service.h     |  3 +++
 middleware/common/include/common/service/call/state.h |  3 +++
 middleware/common/source/service/call/context.cpp     |  3 ++-
 middleware/common/source/service/call/state.cpp       | 11 +++++++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/middleware/common/include/common/server/handle/service.h b/middleware/common/include/common/server/handle/service.h
index 1ba578f..7b37056 100644
--- a/middleware/common/include/common/server/handle/service.h
+++ b/middleware/common/include/common/server/handle/service.h
@@ -93,6 +93,9 @@ namespace casual
             ack.metric.pending = message.pending;
             ack.metric.code = reply.code;
 
+            // replies that the service never fetched must not be seen by the next invocation
+            common::service::call::context().clean();
+
             policy.ack( ack);
             server::context().finalize();
          });
diff --git a/middleware/common/include/common/service/call/state.h b/middleware/common/include/common/service/call/state.h
index dcef575..cd65a9a 100644
--- a/middleware/common/include/common/service/call/state.h
+++ b/middleware/common/include/common/service/call/state.h
@@ -60,6 +60,9 @@ namespace casual
             //! Tries to discard descriptor, throws if fail.
             void discard( descriptor_type descriptor);
 
+            //! Discards all active descriptors, replies to these will never be seen.
+            void discard();
+
             //! @returns true if there are no pending replies or associated transactions.
             //!  Thus, it's ok to do a service-forward
             bool empty() const;
diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index 55164d8..f028735 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -359,7 +359,8 @@ namespace casual
 
       void Context::clean()
       {
-         // TODO: Do some cleaning on buffers, pending replies and such...
+         // TODO: Do some cleaning on buffers and such...
+         m_state.pending.discard();
       }
 
       Context::Context() = default;
diff --git a/middleware/common/source/service/call/state.cpp b/middleware/common/source/service/call/state.cpp
index 52d010f..17dd1b1 100644
--- a/middleware/common/source/service/call/state.cpp
+++ b/middleware/common/source/service/call/state.cpp
@@ -121,6 +121,17 @@ namespace casual
             unreserve( descriptor);
          }
 
+         void Pending::discard()
+         {
+            for( auto& descriptor : m_descriptors)
+            {
+               if( ! std::exchange( descriptor.active, false))
+                  continue;
+
+               communication::ipc::inbound::device().discard( descriptor.correlation);
+            }
+         }
+
          bool Pending::empty() const
          {
             return algorithm::all_of( m_descriptors, predicate::negate( std::mem_fn( &pending::Descriptor::active)));
-- 
2.43.0


From d79964f014138c742fc4133f3586dac68a6ec992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 08/45] fix: a lookup that is interrupted is discarded

The lookup was consumed before its reply was received. If a signal interrupted
the receive, the lookup was not discarded, and the instance that the
service-manager reserved for it stayed reserved for ever.
---
 middleware/common/source/service/lookup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/service/lookup.cpp b/middleware/common/source/service/lookup.cpp
index 2aed20c..0dae649 100644
--- a/middleware/common/source/service/lookup.cpp
+++ b/middleware/common/source/service/lookup.cpp
@@ -66,7 +66,9 @@ namespace casual
             if( ! lookup.m_correlation)
                code::raise::error( code::casual::invalid_argument, "lookup is already consumed: ", lookup);
 
-            auto reply = communication::ipc::receive< lookup::Reply>( std::exchange( lookup.m_correlation, {}));
+            // if this is interrupted the lookup is still pending, and it's discarded when lookup goes out of scope
+            auto reply = communication::ipc::receive< lookup::Reply>( lookup.m_correlation);
+            lookup.m_correlation = {};
 
             local::validate( reply, lookup.m_service);
             return reply;
-- 
2.43.0


From 7660bd4689a2239efd0fc95229ac2aa172f80cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 09/45] fix: a timed out instance can be discarded, and can be
 waited for at shutdown

consume() forgot the correlation of the call that timed out. A caller that
discarded its lookup after that did not release the instance, which was then
reserved for ever, and a prepare-shutdown of the instance waited for an ack
with a null correlation. A discarded reservation also hands over the instance
to pending lookups, if any.
---
 middleware/service/include/service/manager/state.h |  8 +++++---
 middleware/service/source/manager/handle.cpp       | 11 ++---------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 26e3818..4b74d73 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -150,9 +150,11 @@ namespace casual
                //! @returns and consumes associated caller to the correlation. 'empty' caller if not found.
                inline instance::Caller consume( const common::strong::correlation::id& correlation)
                {
-                  if( m_caller == correlation)
-                     return std::exchange( m_caller, {});
-                  return {};
+                  if( m_caller != correlation)
+                     return {};
+
+                  // we keep the correlation, the instance is reserved for it until it's ack:ed or discarded
+                  return { std::exchange( m_caller.process, {}), m_caller.correlation};
                }
 
                //! caller of last reserve
diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index d7e9aab..8845183 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -719,15 +719,8 @@ namespace casual
                            log::line( log, "failed to find pending to discard - check if we have reserved the service already");
 
                            // we need to go through all sequential instances.
-
-                           state.instances.sequential.for_each( [ correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
-                           {
-                              if( ! instance.idle() && instance.caller().correlation == correlation)
-                              {
-                                 log::line( verbose::log, "found reserved instance: ", instance);
-                                 instance.discard();
-                              }
-                           });
+                           for( auto instance_id : state.instances.sequential.indexes())
+                              detail::unreserve( state, instance_id, message.correlation);
 
                            // regardless, we assume we've already replied.
                            reply.state = decltype( reply.state)::replied;
-- 
2.43.0


From 9864d965735e9747a2fff74b46f185684fc28f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 10/45] fix: a transaction that is being completed is not
 rolled back when its owner dies

---
 middleware/transaction/source/manager/handle.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 84afb22..37a2a5d 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -677,6 +677,16 @@ namespace casual
                      auto transaction = detail::branch::involved( state, message);
                      common::log::line( verbose::log, "transaction: ", *transaction);
 
+                     if( transaction->stage > state::transaction::Stage::involved)
+                     {
+                        // the transaction is already prepared, committed or rolled back
+                        detail::send::reply( state, message, []( auto& reply)
+                        {
+                           reply.state = decltype( reply.state)::protocol;
+                        });
+                        return;
+                     }
+
                      // start the rollback phase, directly
                      transaction->stage = state::transaction::Stage::rollback;
                      transaction->owner = message.process;
@@ -1153,6 +1163,10 @@ namespace casual
 
                      auto trids = common::algorithm::accumulate( state.transactions, std::vector< common::transaction::ID>{}, [ pid = message.state.pid]( auto result, auto& transaction)
                      {
+                        // if the owner has asked for commit or rollback, the transaction is completed without it.
+                        if( transaction.stage > state::transaction::Stage::involved)
+                           return result;
+
                         if( ! transaction.branches.empty() && transaction.branches.back().trid.owner().pid == pid)
                            result.push_back( transaction.branches.back().trid);
 
-- 
2.43.0


From 4cad639ea5bffe9f648e4de757641028634c297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 11/45] fix: resources are told to commit after the prepare is
 persistent

---
 .../include/transaction/manager/state.h        |  3 +++
 .../transaction/source/manager/handle.cpp      | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/middleware/transaction/include/transaction/manager/state.h b/middleware/transaction/include/transaction/manager/state.h
index a216a02..9d2fa5a 100644
--- a/middleware/transaction/include/transaction/manager/state.h
+++ b/middleware/transaction/include/transaction/manager/state.h
@@ -366,6 +366,9 @@ namespace casual
             //! Replies that will be sent after an atomic write to the log
             common::communication::ipc::pending::Holder replies;
 
+            //! Actions that will be invoked after an atomic write to the log
+            std::vector< common::unique_function< void()>> actions;
+
             //! the persistent transaction log
             Log log;
 
diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 37a2a5d..c24cb69 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -106,6 +106,9 @@ namespace casual
                      state.persistent.log.persist();
 
                      state.persistent.replies.send( state.multiplex);
+
+                     for( auto& action : std::exchange( state.persistent.actions, {}))
+                        action();
                   }
 
 
@@ -549,11 +552,14 @@ namespace casual
                            // we start the commit stage
                            transaction->stage = state::transaction::Stage::commit;
 
-                           // we try to commit all active resources.
-                           auto pending = detail::coordinate::pending::replies< common::message::transaction::resource::commit::Request>( 
-                              state, active, state.coordinate.commit.empty_pendings());
+                           // we try to commit all active resources, when the prepare is persistent.
+                           state.persistent.actions.emplace_back( [ &state, origin, destination, code, active = std::vector< std::decay_t< decltype( *std::begin( active))>>( std::begin( active), std::end( active))]()
+                           {
+                              auto pending = detail::coordinate::pending::replies< common::message::transaction::resource::commit::Request>( 
+                                 state, active, state.coordinate.commit.empty_pendings());
 
-                           detail::coordinate::commit< Reply>( state, std::move( pending), origin, destination, code);
+                              detail::coordinate::commit< Reply>( state, std::move( pending), origin, destination, code);
+                           });
                         }
                         else
                         {
@@ -1364,8 +1370,8 @@ namespace casual
          {
             Trace trace{ "transaction::manager::handle::persist:send"};
 
-            // if we don't have any persistent replies, we don't need to persist
-            if( ! state.persistent.replies.empty())
+            // if we don't have any persistent replies or actions, we don't need to persist
+            if( ! state.persistent.replies.empty() || ! state.persistent.actions.empty())
                local::detail::persist::send( state);
          }
             
-- 
2.43.0


From 065eba7ede06632175ed2216eeeb3a48f02245d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 12/45] fix: a resource that voted rollback is not asked to
 roll back again

---
 middleware/transaction/source/manager/handle.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index c24cb69..a984b25 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -574,9 +574,15 @@ namespace casual
                            // we start the rollback stage
                            transaction->stage = state::transaction::Stage::rollback;
 
+                           // a resource that voted rollback has already rolled back, and does not know the branch any more
+                           auto prepared = std::get< 0>( common::algorithm::partition( active, []( auto& reply)
+                           { 
+                              return reply.state < common::code::xa::rollback_unspecified || reply.state > common::code::xa::rollback_transient;
+                           }));
+
                            // we try to rollback all active resources, if any.
                            auto pending = detail::coordinate::pending::replies< common::message::transaction::resource::rollback::Request>( 
-                              state, active, state.coordinate.rollback.empty_pendings());
+                              state, prepared, state.coordinate.rollback.empty_pendings());
 
                            detail::coordinate::rollback< Reply>( state, std::move( pending), origin, destination, code);
                         }
-- 
2.43.0


From 66878e0932532d2ee435d02ae562ad93a8976999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 13/45] fix: a transaction is rolled back even if a resource
 fails to end

---
 .../include/common/transaction/context.h      |  3 +++
 .../common/source/transaction/context.cpp     | 21 ++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index 71243e2..b2c557c 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -159,6 +159,9 @@ namespace casual
          [[nodiscard]] code::tx commit( const Transaction& transaction);
          [[nodiscard]] code::tx rollback( const Transaction& transaction);
 
+         //! rollback of a transaction that has no active resources (xa_end has been done)
+         [[nodiscard]] code::tx rollback_ended( const Transaction& transaction);
+
 
          [[nodiscard]] code::tx resource_commit( strong::resource::id rm, const Transaction& transaction, flag::xa::Flag flags);
          [[nodiscard]] code::tx resource_rollback( strong::resource::id rm, const Transaction& transaction);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ddc0a6e..5b6d48d 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -827,7 +827,15 @@ namespace casual
 
             // end resources
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "commit - failed to end one or more resources");
+            {
+               log::line( log::category::error, code, " commit - failed to end one or more resources - action: rollback");
+
+               // the transaction is consumed, nobody else will complete it.
+               if( auto rollback = rollback_ended( transaction); rollback != code::tx::ok)
+                  return local::log::code( rollback, "commit - failed to rollback transaction: ", transaction.trid);
+
+               return code::tx::rollback;
+            }
 
             if( transaction.local() && transaction.involved().size() <= 1)
             {
@@ -919,9 +927,16 @@ namespace casual
             Trace trace{ "transaction::Context::rollback"};
             casual::assertion( transaction, "not a valid transaction: ", transaction);
 
-            // end resources
+            // end resources - we rollback even if this fails, since nobody else will complete the transaction.
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "rollback - failed to end one or more resources for transaction: ", transaction.trid);
+               log::line( log::category::error, code, " rollback - failed to end one or more resources for transaction: ", transaction.trid);
+
+            return rollback_ended( transaction);
+         }
+
+         code::tx Context::rollback_ended( const Transaction& transaction)
+         {
+            Trace trace{ "transaction::Context::rollback_ended"};
 
             if( transaction.local())
             {
-- 
2.43.0


From 9d73ec790007474577e0ba718593e7152e483063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 14/45] fix: an error reply from service-manager makes the
 transaction of the caller rollback only

---
 middleware/service/source/manager/handle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 8845183..dcf75f8 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -78,6 +78,11 @@ namespace casual
                   message.correlation = caller.correlation;
                   message.code.result = code; 
 
+                  // we don't know what the callee has done, or will do, if the caller is in a transaction
+                  // it has to be rolled back.
+                  message.transaction_state = code == common::code::xatmi::timeout ? 
+                     decltype( message.transaction_state)::timeout : decltype( message.transaction_state)::error;
+
                   state.multiplex.send( caller.process.ipc, std::move( message));
                }
             } // error
-- 
2.43.0


From 0d21bf440bfda2f8a3a03c367332a873f8a5f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 15/45] fix: a call that timed out outside a transaction does
 not roll back a later one

---
 middleware/service/source/manager/handle.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index dcf75f8..e8ac20c 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -1021,13 +1021,14 @@ namespace casual
                {
                   log::line( verbose::log, "state.timeout_instances: ", state.timeout_instances);
 
-                  if( ! ack.metric.trid)
-                     return;
-                  
                   if( auto found = algorithm::find( state.timeout_instances, ack.metric.process.pid))
                   {
+                     // the call that timed out is done, regardless if it was in a transaction or not.
                      state.timeout_instances.erase( std::begin( found));
 
+                     if( ! ack.metric.trid)
+                        return;
+
                      // Rollback the transaction (again). If TM got instances involved a rollback will be executed, 
                      // otherwise it will be a "no-op".
                      // TODO: we might want to have a dedicated message for this. SM should not order a rollback?
-- 
2.43.0


From b007ac6d71374ec37510c29479f05c2874eaa840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 16/45] fix: an owned transaction with pending replies is
 rolled back when the service returns

---
 middleware/common/source/transaction/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 5b6d48d..0e54563 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -550,6 +550,9 @@ namespace casual
                      log::line( log::category::transaction, transaction);
 
                      result = message::service::transaction::State::error;
+
+                     if( transaction.state == Transaction::State::active)
+                        transaction.state = Transaction::State::rollback;
                   }
 
                   // Discard pending
-- 
2.43.0


From 32e0f9b23b80efd574be0cf23974a4ac84d6f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 17/45] fix: resources that started are completed when another
 one fails to start

---
 middleware/common/source/transaction/context.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 0e54563..32e6107 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -477,15 +477,15 @@ namespace casual
          {
             Trace trace{ "transaction::Context::start"};
 
-            auto transaction = local::start::transaction();
+            // we need to keep the transaction even if some resource fails, the ones that are started have to be completed
+            auto& transaction = m_transactions.emplace_back( local::start::transaction());
 
             local::raise::code( local::resources::start::invoke( local::resources::start::policy::start(), transaction, m_resources.fixed),
                "failed to start on ore more fixed resources");
 
             local::log::event( "start", transaction.trid);
 
-            m_transactions.push_back( std::move( transaction));
-            return m_transactions.back();
+            return transaction;
          }
 
          Transaction& Context::branch( const transaction::ID& trid)
-- 
2.43.0


From 45ef3b6985cdafb4ac0f2d85f0bc68e91a812d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 18/45] fix: queue-group keeps the timer for every waiting
 dequeue, and does not spin on messages a waiting selector does not match

---
 .../queue/include/queue/group/queuebase.h     |  3 +++
 .../include/queue/group/queuebase/statement.h |  1 +
 middleware/queue/source/group/handle.cpp      | 18 ++++++++++------
 middleware/queue/source/group/queuebase.cpp   | 21 +++++++++++++++++++
 .../source/group/queuebase/statement.cpp      |  5 +++++
 5 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/middleware/queue/include/queue/group/queuebase.h b/middleware/queue/include/queue/group/queuebase.h
index 280eef9..a87672a 100644
--- a/middleware/queue/include/queue/group/queuebase.h
+++ b/middleware/queue/include/queue/group/queuebase.h
@@ -157,6 +157,9 @@ namespace casual
          //! @returns the earliest available message in the queue, if any.
          std::optional< platform::time::point::type> available( common::strong::queue::id queue) const;
 
+         //! @returns when the next message that is not available at `now` will be available in the queue, if any.
+         std::optional< platform::time::point::type> available( common::strong::queue::id queue, const platform::time::point::type& now) const;
+
          //! @return number of restored messages for the queue
          platform::size::type restore( common::strong::queue::id id);
 
diff --git a/middleware/queue/include/queue/group/queuebase/statement.h b/middleware/queue/include/queue/group/queuebase/statement.h
index f2736ea..71a96a3 100644
--- a/middleware/queue/include/queue/group/queuebase/statement.h
+++ b/middleware/queue/include/queue/group/queuebase/statement.h
@@ -44,6 +44,7 @@ namespace casual
          {
             sql::database::Statement queues;
             sql::database::Statement message;
+            sql::database::Statement next;
          } available;
 
 
diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 04ec089..49b6332 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -327,8 +327,9 @@ namespace casual
                      }
                      else if( message.block)
                      {
-                        // check if we need to set a timer
-                        auto available = state.queuebase.available( message.queue);
+                        // check if we need to set a timer, for messages not available yet. Messages that are
+                        // available already do not match (the selector), hence nothing to wait for.
+                        auto available = state.queuebase.available( message.queue, now);
                         if( available)
                         {
                            auto wanted = available.value() - now;
@@ -902,12 +903,17 @@ namespace casual
                            }
                         } 
 
-                        // take care of not available ( yet). We find the earliest and set a timer for that
+                        // take care of not available ( yet). We find the earliest, for all that are still pending, and 
+                        // set a timer for that. 
                         {
-                           auto earliest_future = algorithm::min( std::get< 1>( split), []( auto& l, auto& r){ return l.when < r.when;});
+                           std::optional< platform::time::point::type> earliest;
 
-                           if( earliest_future)
-                              common::signal::timer::set( earliest_future->when - now);
+                           for( auto& request : state.pending.dequeues)
+                              if( auto when = state.queuebase.available( request.queue, now); when && ( ! earliest || *when < *earliest))
+                                 earliest = when;
+
+                           if( earliest)
+                              common::signal::timer::set( *earliest - now);
                            else 
                               common::signal::timer::unset();
                         }
diff --git a/middleware/queue/source/group/queuebase.cpp b/middleware/queue/source/group/queuebase.cpp
index cd0fcb4..2f571f0 100644
--- a/middleware/queue/source/group/queuebase.cpp
+++ b/middleware/queue/source/group/queuebase.cpp
@@ -580,6 +580,27 @@ namespace casual
          return available;
       }
 
+      std::optional< platform::time::point::type> Queuebase::available( common::strong::queue::id queue, const platform::time::point::type& now) const
+      {
+         Trace trace{ "queue::Queuebase::available next"};
+         log::line( verbose::log, "queue: ", queue);
+
+         auto query = m_statement.available.next.query( queue.underlying(), now);
+         sql::database::Row row;
+
+         if( ! query.fetch( row))
+            return {};
+
+         std::optional< platform::time::point::type> available;
+
+         // "SELECT MIN( m.available)"
+         sql::database::row::get( row, 
+            available
+         );
+
+         return available;
+      }
+
       platform::size::type Queuebase::restore( common::strong::queue::id queue)
       {
          Trace trace{ "queue::Queuebase::restore"};
diff --git a/middleware/queue/source/group/queuebase/statement.cpp b/middleware/queue/source/group/queuebase/statement.cpp
index cf255a1..b4b48ed 100644
--- a/middleware/queue/source/group/queuebase/statement.cpp
+++ b/middleware/queue/source/group/queuebase/statement.cpp
@@ -132,6 +132,11 @@ WHERE queue = :queue AND state = 2 AND properties = :properties AND available <
                "SELECT MIN( m.available)"
                " FROM message m WHERE m.queue = :queue AND m.state = 2;"
             );
+
+            result.available.next = connection.precompile(
+               "SELECT MIN( m.available)"
+               " FROM message m WHERE m.queue = :queue AND m.state = 2 AND m.available >= :available;"
+            );
          }
 
          result.id = connection.precompile( "SELECT id FROM queue where name = :name;");
-- 
2.43.0


From dd65ab101a45b0fc82df567b851b8c10b47bb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 19/45] fix: queue-group persists before it replies to prepare,
 and to a dequeue without transaction

---
 middleware/queue/source/group/handle.cpp | 39 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 49b6332..9e700b8 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -319,11 +319,18 @@ namespace casual
                      {
                         // we notify TM if the dequeue is in a transaction
                         if( message.trid)
+                        {
                            local::detail::transaction::involved( state, message);
+                           state.multiplex.send( message.process.ipc, reply);
+                        }
                         else
+                        {
                            state.size.subtract( reply.message.value().payload.data.size());
 
-                        state.multiplex.send( message.process.ipc, reply);
+                           // dequeue is not in transaction, the message is consumed. We send the
+                           // reply when we're in persistent state (handle::persist)
+                           state.pending.reply( std::move( reply), message.process);
+                        }
                      }
                      else if( message.block)
                      {
@@ -385,6 +392,10 @@ namespace casual
                         {
                            Trace trace{ "queue::handle::local::dequeue::forget::Request"};
 
+                           // the dequeue reply, if any, has to be sent before the forget reply.
+                           if( ! state.pending.replies.empty())
+                              handle::persist( state);
+
                            state.multiplex.send( message.process.ipc, state.pending.forget( message));
                         };
                      }
@@ -486,7 +497,8 @@ namespace casual
                            reply.trid = message.trid;
                            reply.state = common::code::xa::ok;
 
-                           state.multiplex.send( message.process.ipc, reply);
+                           // what we promise to be able to commit has to be in persistent state
+                           local::detail::persistent::reply( state, message.process, std::move( reply));
                         };
                      }
                   } // prepare
@@ -939,16 +951,21 @@ namespace casual
          {
             Trace trace{ "queue::handle::persist"};
 
-            if( ! state.pending.replies.empty())
+            do
             {
-               // persist the queuebase
-               state.queuebase.persist();
-               
-               state.pending.replies.send( state.multiplex);
-            }
-
-            // handle pending dequeues, if any.
-            local::detail::pending::dequeues( state);
+               if( ! state.pending.replies.empty())
+               {
+                  // persist the queuebase
+                  state.queuebase.persist();
+                  
+                  state.pending.replies.send( state.multiplex);
+               }
+
+               // handle pending dequeues, if any. This could consume messages, and
+               // add replies that needs to be persisted.
+               local::detail::pending::dequeues( state);
+
+            } while( ! state.pending.replies.empty());
          }
 
       } // handle
-- 
2.43.0


From 5cf78110ad428a6eb334bd92e8fe79e309505249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 20/45] fix: queue-group does not give messages to waiting
 dequeues of a transaction that has ended

---
 middleware/queue/include/queue/group/state.h |  4 +++
 middleware/queue/source/group/handle.cpp     |  3 ++
 middleware/queue/source/group/state.cpp      | 38 +++++++++++++++-----
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/middleware/queue/include/queue/group/state.h b/middleware/queue/include/queue/group/state.h
index df0bf30..aab6ab1 100644
--- a/middleware/queue/include/queue/group/state.h
+++ b/middleware/queue/include/queue/group/state.h
@@ -41,6 +41,10 @@ namespace casual
             //! @returns forget request that should be sent to pending callers
             common::communication::ipc::pending::Holder forget();
 
+            //! forgets pending dequeue request that belongs to the transaction.
+            //! @returns forget request that should be sent to pending callers
+            common::communication::ipc::pending::Holder forget( const common::transaction::ID& trid);
+
             //! @returns dequeue-request that potentially has messages available for dequeue
             std::vector< ipc::message::group::dequeue::Request> extract( std::vector< common::strong::queue::id> queues);
 
diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 9e700b8..7f3f403 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -68,6 +68,9 @@ namespace casual
                      {
                         Trace trace{ "queue::group::handle::local::detail::transaction::done"};
                         algorithm::container::erase( state.involved, message.trid);
+
+                        // the transaction is completed, it must not get any more messages.
+                        state.pending.forget( message.trid).send( state.multiplex);
                         log::line( verbose::log, "state.involved: ", state.involved);
                      }
 
diff --git a/middleware/queue/source/group/state.cpp b/middleware/queue/source/group/state.cpp
index 3c4cb3d..79af172 100644
--- a/middleware/queue/source/group/state.cpp
+++ b/middleware/queue/source/group/state.cpp
@@ -51,18 +51,40 @@ namespace casual
             return result;
          }
 
+         namespace local
+         {
+            namespace
+            {
+               auto forget( std::vector< ipc::message::group::dequeue::Request>&& dequeues)
+               {
+                  return algorithm::transform( dequeues, []( auto& request)
+                  {
+                     ipc::message::group::dequeue::forget::Request result{ process::handle()};
+                     result.correlation = request.correlation;
+                     result.queue = request.queue;
+                     result.name = request.name;
+
+                     return common::communication::ipc::pending::Message{ request.process, std::move( result)};
+                  });
+               }
+            } // <unnamed>
+         } // local
+
          common::communication::ipc::pending::Holder Pending::forget()
          {
             queue::Trace trace{ "queue::group::state::Pending::forget"};
-            return algorithm::transform( std::exchange( dequeues, {}), []( auto&& request)
-            {
-               ipc::message::group::dequeue::forget::Request result{ process::handle()};
-               result.correlation = request.correlation;
-               result.queue = request.queue;
-               result.name = request.name;
+            return local::forget( std::exchange( dequeues, {}));
+         }
 
-               return common::communication::ipc::pending::Message{ request.process, std::move( result)};
-            });
+         common::communication::ipc::pending::Holder Pending::forget( const common::transaction::ID& trid)
+         {
+            queue::Trace trace{ "queue::group::state::Pending::forget trid"};
+
+            auto [ keep, remove] = algorithm::stable::partition( dequeues, [ &trid]( auto& request){ return request.trid != trid;});
+            auto requests = algorithm::container::vector::create( remove);
+            algorithm::container::trim( dequeues, keep);
+
+            return local::forget( std::move( requests));
          }
 
          std::vector< ipc::message::group::dequeue::Request> Pending::extract( std::vector< common::strong::queue::id> queues)
-- 
2.43.0


From 0c95f2bed9110d0716939c8d0861d6992b246442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 21/45] fix: queue forward rolls back when the message can not
 be sent to its target

---
 middleware/queue/source/forward/handle.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/middleware/queue/source/forward/handle.cpp b/middleware/queue/source/forward/handle.cpp
index 5dd95d9..78dbab9 100644
--- a/middleware/queue/source/forward/handle.cpp
+++ b/middleware/queue/source/forward/handle.cpp
@@ -577,9 +577,13 @@ namespace casual
 
                            log::line( verbose::log, "enqueue request: ", request);
 
-                           state.multiplex.send( forward->target.process.ipc, request);
                            state.pending.enqueues.emplace_back( std::move( *pending));
-
+                           state.multiplex.send( forward->target.process.ipc, request, [ &state]( auto& ipc, auto& complete)
+                           {
+                              // remove the added pending.
+                              if( auto pending = pending::consume( state.pending.enqueues, complete.correlation()))
+                                 send::transaction::rollback::request( state, std::move( *pending));
+                           });
                         }
                      };
                   }
-- 
2.43.0


From 01603ff54cdfc1f2e1ee83c373a3ae423ba01767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 22/45] fix: queue forward does not wait for a lost queue-group
 when it shuts down

---
 middleware/queue/source/forward/handle.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/middleware/queue/source/forward/handle.cpp b/middleware/queue/source/forward/handle.cpp
index 78dbab9..e33cda2 100644
--- a/middleware/queue/source/forward/handle.cpp
+++ b/middleware/queue/source/forward/handle.cpp
@@ -1034,6 +1034,27 @@ namespace casual
                         };
 
                         algorithm::for_each( state.forward.services, invalidate_service_forward);
+
+                        auto invalidate_source = [ &state, handle]( auto& forward)
+                        {
+                           if( ! ( forward.source == handle))
+                              return;
+
+                           forward.source.invalidate();
+
+                           // the lost queue-group will never reply to pending dequeues, these flows have ended.
+                           auto lost = algorithm::container::extract( state.pending.dequeues, 
+                              algorithm::filter( state.pending.dequeues, is_forward( forward.id)));
+
+                           for( [[maybe_unused]] auto& pending : lost)
+                              --forward;
+
+                           if( state.runlevel == decltype( state.runlevel())::running)
+                              local::detail::machine::next( state, forward);
+                        };
+
+                        algorithm::for_each( state.forward.queues, invalidate_source);
+                        algorithm::for_each( state.forward.services, invalidate_source);
                      }
 
                   } // detail
-- 
2.43.0


From a7992dc4e92d66c5813f2c1de6b286f3fcb52b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 23/45] fix: boot does not wait for an instance that has
 exited, and it is restarted when the boot is done

---
 middleware/domain/source/manager/handle.cpp      | 10 ++++++++++
 middleware/domain/source/manager/task/create.cpp |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index bdcf270..9ca0e78 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -263,6 +263,16 @@ namespace casual
          {
             state.runlevel = decltype( state.runlevel())::running;
 
+            // instances that has exited during boot are not restarted at that point, we need to do it now
+            auto restart = [ &state]( auto& entity)
+            {
+               while( entity.restart && entity.spawnable())
+                  handle::scale::instances( state, entity);
+            };
+
+            algorithm::for_each( state.servers, restart);
+            algorithm::for_each( state.executables, restart);
+
             // we ignore the actual id of the task unit and use the supplied correlation -> caller able to correlate
             manager::task::event::dispatch( state, [ &correlation]()
             {
diff --git a/middleware/domain/source/manager/task/create.cpp b/middleware/domain/source/manager/task/create.cpp
index 1ee1221..d44b5c4 100644
--- a/middleware/domain/source/manager/task/create.cpp
+++ b/middleware/domain/source/manager/task/create.cpp
@@ -382,7 +382,9 @@ namespace casual
                         return algorithm::all_of( state.entity( id).instances, []( auto& instance)
                         {
                            using Enum = decltype( instance.state());
-                           return algorithm::compare::any( instance.state(), Enum::running, Enum::exit, Enum::disabled, Enum::error);
+                           // `scale_out` -> the instance has exited and is not going to be spawned again for this group (we've 
+                           // already tried to scale), hence there's nothing to wait for
+                           return algorithm::compare::any( instance.state(), Enum::running, Enum::exit, Enum::disabled, Enum::error, Enum::scale_out);
                         });
                      };
 
-- 
2.43.0


From f316a255d0433ca6c229ceec15002fb1b125879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 24/45] fix: shutdown does not wait for a boot, scale or
 restart that will not complete

---
 middleware/domain/include/domain/manager/state.h | 3 +++
 middleware/domain/source/manager/handle.cpp      | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/middleware/domain/include/domain/manager/state.h b/middleware/domain/include/domain/manager/state.h
index 8d6a068..ba5c7ef 100644
--- a/middleware/domain/include/domain/manager/state.h
+++ b/middleware/domain/include/domain/manager/state.h
@@ -369,6 +369,9 @@ namespace casual
       {
          common::state::Machine< state::Runlevel> runlevel;
 
+         //! true if the shutdown tasks are created
+         bool shutdown = false;
+
          common::communication::select::Directive directive;
          common::communication::ipc::send::Coordinator multiplex{ directive};
 
diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index 9ca0e78..13de073 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -297,8 +297,12 @@ namespace casual
          state.runlevel = decltype( state.runlevel())::shutdown;
 
          // abort all abortable running or pending task
-         state.tasks.cancel();
-
+         if( std::exchange( state.shutdown, true))
+            state.tasks.cancel();
+         else
+            // what's active is a boot, scale, restart or such. It might never complete from now on (all instances are
+            // about to be scaled to 0, and connects are refused), and shutdown can't wait for it.
+            state.tasks = {};
 
          auto done_event = task::create::event::parent( state, string::compose( "shutdown domain: ", common::domain::identity()));
 
-- 
2.43.0


From 8a0d5344c1341a8837a9b678d879cebc4caecb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 25/45] fix: the message pump is idle again after cached
 messages are consumed, before it blocks

---
 .../include/common/communication/select.h      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/middleware/common/include/common/communication/select.h b/middleware/common/include/common/communication/select.h
index 117b5ed..1bbf6db 100644
--- a/middleware/common/include/common/communication/select.h
+++ b/middleware/common/include/common/communication/select.h
@@ -223,14 +223,22 @@ namespace casual
                   {
                      try 
                      {
-                        // we're idle (most likely)
-                        condition::detail::invoke< condition::detail::tag::idle>( condition);
-
                         // make sure we try to consume from the 'consume-handlers' before
                         // we might block forever. This gives possibilities to consume cached messages
                         // that wont be triggered via multiplexing on file descriptors
-                        while( detail::consume::dispatch( handlers...))
-                           ; // no-op
+                        auto consume = [ &handlers...]()
+                        {
+                           auto consumed = false;
+                           while( detail::consume::dispatch( handlers...))
+                              consumed = true;
+                           return consumed;
+                        };
+
+                        // we're idle (most likely), and if we've consumed something we need to do it again, since 
+                        // what's consumed might need to be taken care of when we're idle (before we block).
+                        do
+                           condition::detail::invoke< condition::detail::tag::idle>( condition);
+                        while( consume());
 
                         // we might be done after idle, and consumed
                         if( condition::detail::invoke< condition::detail::tag::done>( condition))
-- 
2.43.0


From eab8f0c80dd4b86b339f60ef42eeadd7402dca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:43 +0000
Subject: [PATCH 26/45] fix: a group is booted after all the groups it depends
 on

The groups were sorted with a comparison of direct dependencies only, which is
not a strict weak order. Depending on the order of definition a group could be
booted before (and shut down after) one that it depends on.
---
 .../domain/include/domain/manager/state.h     |  8 ----
 middleware/domain/source/manager/state.cpp    |  8 ----
 .../domain/source/manager/state/order.cpp     | 37 ++++++++++++++++++-
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/middleware/domain/include/domain/manager/state.h b/middleware/domain/include/domain/manager/state.h
index ba5c7ef..d036210 100644
--- a/middleware/domain/include/domain/manager/state.h
+++ b/middleware/domain/include/domain/manager/state.h
@@ -53,14 +53,6 @@ namespace casual
             inline friend bool operator == ( const Group& lhs, strong::group::id id) { return lhs.id == id;}
             inline friend bool operator == ( const Group& lhs, const std::string& name) { return lhs.name == name;}
 
-            struct boot
-            {
-               struct Order
-               {
-                  bool operator () ( const Group& lhs, const Group& rhs);
-               };
-            };
-
             inline friend bool operator < ( const Group& l, const Group& r) { return l.id < r.id;}
 
             CASUAL_LOG_SERIALIZE(
diff --git a/middleware/domain/source/manager/state.cpp b/middleware/domain/source/manager/state.cpp
index 473c98f..42351fc 100644
--- a/middleware/domain/source/manager/state.cpp
+++ b/middleware/domain/source/manager/state.cpp
@@ -69,14 +69,6 @@ namespace casual
          } // instance
 
 
-         bool Group::boot::Order::operator () ( const Group& lhs, const Group& rhs)
-         {
-            auto rhs_depend = algorithm::find( rhs.dependencies, lhs.id);
-            auto lhs_depend = algorithm::find( lhs.dependencies, rhs.id);
-
-            return rhs_depend && ! lhs_depend;
-         }
-
          namespace local
          {
             namespace
diff --git a/middleware/domain/source/manager/state/order.cpp b/middleware/domain/source/manager/state/order.cpp
index d68e9b7..b9f1f0a 100644
--- a/middleware/domain/source/manager/state/order.cpp
+++ b/middleware/domain/source/manager/state/order.cpp
@@ -14,6 +14,40 @@ namespace casual
 
    namespace domain::manager::state::order
    {
+      namespace local
+      {
+         namespace
+         {
+            //! @returns the groups ordered so that every group comes after all the groups it depends on. Other than
+            //! that the order of definition is kept.
+            auto dependency( const std::vector< state::Group>& groups)
+            {
+               auto pending = algorithm::container::vector::reference::create( groups);
+               decltype( pending) result;
+
+               auto is_pending = [ &pending]( auto id)
+               {
+                  return predicate::boolean( algorithm::find_if( pending, [ id]( auto& group){ return group.get().id == id;}));
+               };
+
+               while( ! pending.empty())
+               {
+                  auto found = algorithm::find_if( pending, [ &is_pending]( auto& group)
+                  {
+                     return algorithm::none_of( group.get().dependencies, is_pending);
+                  });
+
+                  // if the dependencies are circular there is no order to find, we take them as they come
+                  auto position = found ? std::begin( found) : std::begin( pending);
+
+                  result.push_back( *position);
+                  pending.erase( position);
+               }
+
+               return result;
+            }
+         } // <unnamed>
+      } // local
 
       std::vector< state::dependency::Group> boot(
          const State& state,
@@ -22,8 +56,7 @@ namespace casual
       {
          Trace trace{ "domain::manager::state::create::boot::order"};
 
-         auto group_wrapper = algorithm::container::vector::reference::create( state.groups);
-         algorithm::stable_sort( group_wrapper, state::Group::boot::Order{});
+         auto group_wrapper = local::dependency( state.groups);
 
          auto server_wrappers = algorithm::container::vector::reference::create( source_servers);
          auto excutable_wrappers = algorithm::container::vector::reference::create( source_executables);
-- 
2.43.0


From b9805efd5c503a3dcc8dd1d00519d89b8b709c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:17 +0000
Subject: [PATCH 27/45] fix: scale and restart are refused when the domain is
 shutting down

A scale during shutdown was queued after the tasks of the shutdown, and started
processes that no one ended.
---
 middleware/domain/source/manager/handle.cpp | 32 +++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index 13de073..51b9622 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -324,6 +324,29 @@ namespace casual
       }
 
 
+      namespace local
+      {
+         namespace
+         {
+            //! @returns true if the domain is on its way down, and nothing more is to be started
+            bool refuse( State& state, std::string_view what)
+            {
+               if( state.runlevel() <= decltype( state.runlevel())::running)
+                  return false;
+
+               manager::task::event::dispatch( state, [ &state, what]()
+               {
+                  common::message::event::Error event{ common::process::handle()};
+                  event.code = code::casual::invalid_semantics;
+                  event.message = string::compose( "failed to ", what, " - domain-manager is in runlevel ", state.runlevel());
+                  return event;
+               });
+
+               return true;
+            }
+         } // <unnamed>
+      } // local
+
       namespace scale
       {
 
@@ -332,6 +355,9 @@ namespace casual
             Trace trace{ "domain::manager::handle::scale::aliases"};
             log::line( verbose::log, "aliases: ", aliases);
 
+            if( local::refuse( state, "scale aliases"))
+               return {};
+
             auto done_event = task::create::event::parent( state, "scale aliases");
 
             auto scalables = state.scalables( algorithm::transform( aliases, []( auto& alias){ return alias.name;}));
@@ -420,6 +446,9 @@ namespace casual
             Trace trace{ "domain::manager::handle::restart::aliases"};
             log::line( verbose::log, "aliases: ", aliases);
 
+            if( local::refuse( state, "restart aliases"))
+               return {};
+
             auto done_event = task::create::event::parent( state, "restart aliases");
 
             auto scalables = state.scalables( std::move( aliases));
@@ -443,6 +472,9 @@ namespace casual
             Trace trace{ "domain::manager::handle::restart::groups"};
             log::line( verbose::log, "names: ", names);
 
+            if( local::refuse( state, "restart groups"))
+               return {};
+
             auto filter_groups = []( auto groups, const std::vector< std::string>& names)
             {
                if( names.empty())
-- 
2.43.0


From 71371925d33fe73e454f40fb2461e4ff4799fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:53 +0000
Subject: [PATCH 28/45] fix: an instance that is spawned but not yet connected
 is not forgotten when it is scaled in

It was removed from the state at once. When it then connected it was kept
running as an unknown process, and a shutdown did not wait for it.
---
 middleware/domain/source/manager/handle.cpp | 20 ++++++++++++++++++++
 middleware/domain/source/manager/state.cpp  |  5 +++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index 51b9622..f0fadac 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -144,6 +144,13 @@ namespace casual
                         return i.handle;
                      }));
                   }
+
+                  // instances that has not connected yet will be refused to do so when we're shutting down. They might wait for something
+                  // else that will never happen now, hence we tell them.
+                  if( state.runlevel() > decltype( state.runlevel())::running)
+                     for( auto& instance : server.instances)
+                        if( instance.state() == state::instance::State::spawned)
+                           common::process::terminate( instance.handle.pid);
                }
 
             } // scale
@@ -1039,6 +1046,14 @@ namespace casual
                      Trace trace{ "domain::manager::handle::local::process::connect"};
                      common::log::line( verbose::log, "message: ", message);
 
+                     // the instance might have been scaled in before it got to connect
+                     auto scale_in = [ &state, &message]()
+                     {
+                        if( auto server = state.server( message.information.handle.pid))
+                           if( auto instance = server->instance( message.information.handle.pid); instance && instance->state() == state::instance::State::scale_in)
+                              handle::scale::shutdown( state, instance->handle);
+                     };
+
                      using Directive = decltype( common::message::reverse::type( message).directive);
 
                      if( state.runlevel > decltype( state.runlevel())::running)
@@ -1049,7 +1064,10 @@ namespace casual
                      }
 
                      if( detail::singleton::connect( state, message))
+                     {
+                        scale_in();
                         return; // singleton, and handled.
+                     }
                  
                      if( message.whitelist)
                         state.whitelisted.push_back( message.information.handle.pid);
@@ -1058,6 +1076,8 @@ namespace casual
                      
                      // allow the server to start.
                      detail::send::reply( state, Directive::approved, message);
+
+                     scale_in();
                   };
                }
 
diff --git a/middleware/domain/source/manager/state.cpp b/middleware/domain/source/manager/state.cpp
index 42351fc..c9915f6 100644
--- a/middleware/domain/source/manager/state.cpp
+++ b/middleware/domain/source/manager/state.cpp
@@ -229,10 +229,11 @@ namespace casual
             {
                case instance::Phase::running:
                   return handle ? instance::State::running : handle.pid ? instance::State::spawned : instance::State::scale_out;
+               // we can't scale in an instance that is spawned but not connected yet, hence it's kept as spawned until it connects (or exits)
                case instance::Phase::exit:
-                  return handle ? instance::State::scale_in : instance::State::exit;
+                  return handle ? instance::State::scale_in : handle.pid ? instance::State::spawned : instance::State::exit;
                case instance::Phase::disabled:
-                  return handle ? instance::State::scale_in : instance::State::disabled;
+                  return handle ? instance::State::scale_in : handle.pid ? instance::State::spawned : instance::State::disabled;
                case instance::Phase::error:
                   return instance::State::error;
             }
-- 
2.43.0


From 6723d570e32260b244208eab386b43fee8fe2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 29/45] fix: scale takes effect when what is running is done,
 not while it is running

The wanted number of instances was changed at once, while the task that acts on
it had to wait for others. A boot that was in progress then waited for an
instance to be scaled in, which was the task of the one that waited for the boot.
---
 middleware/domain/source/manager/handle.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index f0fadac..c9fe543 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -367,10 +367,12 @@ namespace casual
 
             auto done_event = task::create::event::parent( state, "scale aliases");
 
-            auto scalables = state.scalables( algorithm::transform( aliases, []( auto& alias){ return alias.name;}));
+            // we can't scale until what's already running or pending is done (boot, for instance, would otherwise wait for
+            // instances that we've decided should not be running)
+            auto prepare = [ aliases = std::move( aliases)]( State& state)
+            {
+               auto scalables = state.scalables( algorithm::transform( aliases, []( auto& alias){ return alias.name;}));
 
-            // prepare the scaling
-            {                  
                auto scale_runnable = [&aliases]( auto& runnable)
                {
                   auto is_alias = [&runnable]( auto& alias){ return alias.name == runnable.get().alias;};
@@ -381,18 +383,18 @@ namespace casual
 
                algorithm::for_each( scalables.servers, scale_runnable);
                algorithm::for_each( scalables.executables, scale_runnable);
-            }
 
-            auto transform_id = []( auto& entity){ return entity.get().id;};
+               auto transform_id = []( auto& entity){ return entity.get().id;};
 
-            state::dependency::Group group;
-            {
+               state::dependency::Group group;
                group.description = "scale aliases";
                algorithm::transform( scalables.servers, group.servers, transform_id);
                algorithm::transform( scalables.executables, group.executables, transform_id);
-            }
+               return group;
+            };
 
-            auto groups = manager::task::create::scale::groups( state, { std::move( group)}); 
+            std::vector< casual::task::Group> groups;
+            groups.push_back( manager::task::create::scale::group( state, std::move( prepare)));
 
             auto result = casual::task::ids( groups, done_event);
             state.tasks.then( std::move( groups)).then( std::move( done_event));
-- 
2.43.0


From 243e0e8cc97256f9fed36d6c6c146ff2abbb486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:16 +0000
Subject: [PATCH 30/45] fix: a restart continues with the next instance
 whatever happens to the current one

---
 .../domain/source/manager/task/create.cpp     | 94 +++++++++----------
 1 file changed, 47 insertions(+), 47 deletions(-)

diff --git a/middleware/domain/source/manager/task/create.cpp b/middleware/domain/source/manager/task/create.cpp
index d44b5c4..0809820 100644
--- a/middleware/domain/source/manager/task/create.cpp
+++ b/middleware/domain/source/manager/task/create.cpp
@@ -97,7 +97,10 @@ namespace casual
                      State* state{};
                      strong::server::id id;
                      bool origin_restart{};
+                     //! the ones left to restart, the last one is on its way down.
                      std::vector< process::Handle> processes;
+                     //! the one that is on its way down.
+                     strong::process::id current;
                      std::vector< strong::process::id> spawned_not_connected;
                   };
 
@@ -119,11 +122,30 @@ namespace casual
                      return casual::task::unit::Dispatch::done;
                   };
 
+                  // continue with the next, if the current is done
+                  static constexpr auto advance = []( Shared& shared, casual::task::unit::id id)
+                  {
+                     if( algorithm::find( shared.processes, shared.current) || ! range::empty( shared.spawned_not_connected))
+                        return casual::task::unit::Dispatch::pending;
+
+                     if( range::empty( shared.processes))
+                        return send_done_event( shared, id);
+
+                     // We start from the back
+                     shared.current = range::back( shared.processes).pid;
+                     handle::scale::shutdown( *shared.state, range::back( shared.processes));
+
+                     return casual::task::unit::Dispatch::pending;
+                  };
+
                   // the action that will be invoked when the task starts.
                   auto action = casual::task::create::action( [ shared]( casual::task::unit::id id)
                   {
                      auto& server = shared->state->entity( shared->id);
-                     shared->processes = algorithm::transform( server.instances, []( auto& instance){ return instance.handle;});
+                     // there is nothing to restart for an instance that has exited
+                     algorithm::transform_if( server.instances, shared->processes, 
+                        []( auto& instance){ return instance.handle;},
+                        []( auto& instance){ return instance.state() == decltype( instance.state())::running;});
 
                      if( shared->processes.empty())
                         return casual::task::unit::action::Outcome::abort;
@@ -139,61 +161,40 @@ namespace casual
                         return event;
                      });
 
-                     // start the restart sequence. We start from the back
-                     handle::scale::shutdown( *shared->state, range::back( shared->processes));
+                     // start the restart sequence.
+                     advance( *shared, id);
 
                      return casual::task::unit::action::Outcome::success;
                   });
 
                   auto handle_exit = [ shared]( casual::task::unit::id id, const common::message::event::process::Exit& message)
                   {
-                     if( auto found = algorithm::find( shared->processes, message.state.pid))
-                        algorithm::container::erase( shared->processes, std::begin( found));
+                     // possible unexpected exit for pending connection, we still keep going with the next
+                     algorithm::container::erase( shared->spawned_not_connected, message.state.pid);
 
-                     // check if we got unexpected exit for pending connection
-                     if( auto found = algorithm::find( shared->spawned_not_connected, message.state.pid))
+                     if( auto found = algorithm::find( shared->processes, message.state.pid))
                      {
-                        shared->spawned_not_connected.erase( std::begin( found));
-
-                        if( range::empty( shared->spawned_not_connected) && range::empty( shared->processes))
-                           return send_done_event( *shared, id);
+                        algorithm::container::erase( shared->processes, std::begin( found));
 
-                        // We still keep going with the next
-                        handle::scale::shutdown( *shared->state, range::back( shared->processes));
+                        // the replacement, if any, has been spawned at this point
+                        for( auto& instance : shared->state->entity( shared->id).instances)
+                           if( instance.state() == decltype( instance.state())::spawned)
+                              algorithm::append_unique_value( instance.handle.pid, shared->spawned_not_connected);
                      }
 
-                     return casual::task::unit::Dispatch::pending;
-                  };
-
-                  auto handle_spawned = [ shared]( casual::task::unit::id id, const common::message::event::process::Spawn& message)
-                  {
-                     auto& server = shared->state->entity( shared->id);
-                     if( server.alias == message.alias)
-                        algorithm::container::append( message.pids, shared->spawned_not_connected);
-
-                     return casual::task::unit::Dispatch::pending;
+                     return advance( *shared, id);
                   };
 
                   auto handle_connected = [ shared]( casual::task::unit::id id, const common::message::domain::process::connect::Request& message)
                   {
-                     if( auto found = algorithm::find( shared->spawned_not_connected, message.information.handle.pid))
-                     {
-                        algorithm::container::erase( shared->spawned_not_connected, std::begin( found));
+                     algorithm::container::erase( shared->spawned_not_connected, message.information.handle.pid);
 
-                        if( range::empty( shared->spawned_not_connected) && range::empty( shared->processes))
-                           return send_done_event( *shared, id);
-
-                        // continue to scale down the next
-                        handle::scale::shutdown( *shared->state, range::back( shared->processes));
-
-                     }
-                     return casual::task::unit::Dispatch::pending;
+                     return advance( *shared, id);
                   };
 
                   return casual::task::create::unit( 
                      std::move( action),
                      std::move( handle_exit),
-                     std::move( handle_spawned),
                      std::move( handle_connected)
                   );
                }
@@ -209,6 +210,7 @@ namespace casual
                      State* state{};
                      strong::executable::id id;
                      bool origin_restart{};
+                     //! the ones left to restart, the last one is on its way down.
                      std::vector< strong::process::id> pids;
                   };
 
@@ -234,7 +236,10 @@ namespace casual
                   auto action = casual::task::create::action( [ shared]( casual::task::unit::id id)
                   {
                      auto& executable = shared->state->entity( shared->id);
-                     shared->pids = algorithm::transform( executable.instances, []( auto& instance){ return instance.handle;});
+                     // there is nothing to restart for an instance that has exited
+                     algorithm::transform_if( executable.instances, shared->pids, 
+                        []( auto& instance){ return instance.handle;},
+                        []( auto& instance){ return instance.state() == decltype( instance.state())::running;});
 
                      if( shared->pids.empty())
                         return casual::task::unit::action::Outcome::abort;
@@ -259,21 +264,17 @@ namespace casual
                   auto handle_exit = [ shared]( casual::task::unit::id id, const common::message::event::process::Exit& message)
                   {
                      if( auto found = algorithm::find( shared->pids, message.state.pid))
+                     {
+                        auto current = range::back( shared->pids);
                         algorithm::container::erase( shared->pids, std::begin( found));
 
-                     return casual::task::unit::Dispatch::pending;
-                  };
-
-                  auto handle_spawned = [ shared]( casual::task::unit::id id, const common::message::event::process::Spawn& message)
-                  {
-                     auto& executable = shared->state->entity( shared->id);
-                     if( executable.alias == message.alias)
-                     {
+                        // the replacement, if any, has been spawned at this point
                         if( range::empty( shared->pids))
                            return send_done_event( *shared, id);
 
                         // continue with the next shutdown
-                        common::process::terminate( range::back( shared->pids));
+                        if( current == message.state.pid)
+                           common::process::terminate( range::back( shared->pids));
                      }
 
                      return casual::task::unit::Dispatch::pending;
@@ -281,8 +282,7 @@ namespace casual
 
                   return casual::task::create::unit( 
                      std::move( action),
-                     std::move( handle_exit),
-                     std::move( handle_spawned)
+                     std::move( handle_exit)
                   );
                }
             } // <unnamed>
-- 
2.43.0


From 9a2de573e793066795e39b1bee8fabe2bf65e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 31/45] fix: scale in, restart and shutdown go on when
 service-manager dies before it has replied

---
 middleware/domain/include/domain/manager/state.h |  2 ++
 middleware/domain/source/manager/handle.cpp      | 13 +++++++++++++
 middleware/domain/source/manager/state.cpp       |  1 +
 3 files changed, 16 insertions(+)

diff --git a/middleware/domain/include/domain/manager/state.h b/middleware/domain/include/domain/manager/state.h
index d036210..4700852 100644
--- a/middleware/domain/include/domain/manager/state.h
+++ b/middleware/domain/include/domain/manager/state.h
@@ -374,6 +374,8 @@ namespace casual
          struct
          {
             std::vector< common::message::domain::process::lookup::Request> lookup;
+            //! processes that service-manager has been asked to prepare for shutdown, and not replied to yet.
+            std::vector< common::process::Handle> shutdown;
          } pending;
 
          std::map< common::Uuid, common::process::Handle> singletons;
diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index c9fe543..ff036a1 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -417,6 +417,8 @@ namespace casual
 
             if( auto service_manager = state.singleton( common::communication::instance::identity::service::manager.id))
             {
+               // if service-manager dies before it has replied we have to go on without it
+               algorithm::container::append( request.processes, state.pending.shutdown);
                state.multiplex.send( service_manager.ipc, request);
                return;
             }
@@ -597,6 +599,8 @@ namespace casual
 
                         for( auto& process : message.processes)
                         {
+                           algorithm::container::erase( state.pending.shutdown, process);
+
                            if( process.ipc)
                               state.multiplex.send( process.ipc, common::message::shutdown::Request{ common::process::handle()});
                            else
@@ -693,9 +697,18 @@ namespace casual
                               log::line( log::category::error, "process cored, alias: ", alias, ", details: ", message.state);
 
                            auto singleton = state.singleton( message.state.pid);
+                           auto service_manager = state.singleton( common::communication::instance::identity::service::manager.id);
 
                            auto [ server, executable] = state.remove( message.state.pid);
 
+                           // service-manager will not reply to the ones we've asked about
+                           if( service_manager && service_manager.pid == message.state.pid && ! state.pending.shutdown.empty())
+                           {
+                              common::message::domain::process::prepare::shutdown::Reply reply;
+                              reply.processes = std::exchange( state.pending.shutdown, {});
+                              communication::ipc::inbound::device().push( std::move( reply));
+                           }
+
                            // only log on error if process is a singleton and is spawnable (i.e. not scaled down)
                            if( singleton && (( server && server->spawnable()) || ( executable && executable->spawnable())))
                               log::line( log::category::error, "process exited, alias: ", alias, ", details: ", message.state);
diff --git a/middleware/domain/source/manager/state.cpp b/middleware/domain/source/manager/state.cpp
index c9915f6..a70b01a 100644
--- a/middleware/domain/source/manager/state.cpp
+++ b/middleware/domain/source/manager/state.cpp
@@ -342,6 +342,7 @@ namespace casual
 
          // We remove from pending 
          algorithm::container::erase( pending.lookup, pid);
+         algorithm::container::erase( pending.shutdown, pid);
 
          // Remove from singletons
          auto is_singleton = [ pid]( auto& pair){ return pair.second == pid;};
-- 
2.43.0


From d291e8566900fb46ead732e765e075ccd846f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 32/45] fix: all instances that are to be spawned are spawned,
 also when they're not adjacent

---
 middleware/domain/source/manager/handle.cpp | 91 ++++++++++-----------
 1 file changed, 45 insertions(+), 46 deletions(-)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index ff036a1..abbe1f9 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -54,62 +54,61 @@ namespace casual
                {
                   Trace trace{ "domain::manager::handle::local::scale::out"};
 
-                  auto spawnable = entity.spawnable();
-
-                  if( ! spawnable)
-                     return;
-
-                  auto variables = state.variables( entity);
+                  // instances that are to be spawned are not necessarily adjacent
+                  while( auto spawnable = entity.spawnable())
+                  {
+                     auto variables = state.variables( entity);
 
-                  instance::Information instance;
-                  instance.alias = entity.alias;
+                     instance::Information instance;
+                     instance.alias = entity.alias;
 
-                  // we set error state now in case the spawn fails
-                  //algorithm::for_each( spawnable, []( auto& entity){ entity.state = decltype( entity.state)::error;});
+                     // we set error state now in case the spawn fails
+                     //algorithm::for_each( spawnable, []( auto& entity){ entity.state = decltype( entity.state)::error;});
 
-                  // temporary to enable increment
-                  auto range = spawnable;
+                     // temporary to enable increment
+                     auto range = spawnable;
                   
-                  while( range)
-                  {
-                     instance.index = std::distance( std::begin( entity.instances), std::begin( range));
-
-                     try 
-                     {
-                        range->spawned( scale::spawn( entity, instance, variables));
-                     }
-                     catch( ...)
+                     while( range)
                      {
-                        auto error = exception::capture();
-                        log::error( error, "failed to spawn: ", entity.path);
-
-                        range->wanted = state::instance::Phase::error;
+                        instance.index = std::distance( std::begin( entity.instances), std::begin( range));
 
-                        manager::task::event::dispatch( state, [&]()
+                        try 
                         {
-                           common::message::event::Error event{ common::process::handle()};
-                           event.code = error.code();
-                           event.severity = decltype( event.severity)::error;
-                           event.message = string::compose( "failed to spawn: ", entity.path);
-                           return event;
-                        });
-                     }
+                           range->spawned( scale::spawn( entity, instance, variables));
+                        }
+                        catch( ...)
+                        {
+                           auto error = exception::capture();
+                           log::error( error, "failed to spawn: ", entity.path);
+
+                           range->wanted = state::instance::Phase::error;
+
+                           manager::task::event::dispatch( state, [&]()
+                           {
+                              common::message::event::Error event{ common::process::handle()};
+                              event.code = error.code();
+                              event.severity = decltype( event.severity)::error;
+                              event.message = string::compose( "failed to spawn: ", entity.path);
+                              return event;
+                           });
+                        }
                      
-                     ++range;
-                  }
+                        ++range;
+                     }
 
-                  // we push spawn 'event' and dispatch it to tasks and external listeners 
-                  // later on
-                  {
-                     common::message::event::process::Spawn message{ common::process::handle()};
-                     message.path = entity.path;
-                     message.alias = entity.alias;
+                     // we push spawn 'event' and dispatch it to tasks and external listeners 
+                     // later on
+                     {
+                        common::message::event::process::Spawn message{ common::process::handle()};
+                        message.path = entity.path;
+                        message.alias = entity.alias;
 
-                     algorithm::transform_if( spawnable, message.pids, 
-                     []( auto& instance){ return common::process::id( instance.handle);},
-                     []( auto& instance){ return instance.state() != state::instance::State::error;});
+                        algorithm::transform_if( spawnable, message.pids, 
+                        []( auto& instance){ return common::process::id( instance.handle);},
+                        []( auto& instance){ return instance.state() != state::instance::State::error;});
 
-                     communication::ipc::inbound::device().push( std::move( message));
+                        communication::ipc::inbound::device().push( std::move( message));
+                     }
                   }
 
                   log::line( verbose::log, "entity: ", entity);
@@ -273,7 +272,7 @@ namespace casual
             // instances that has exited during boot are not restarted at that point, we need to do it now
             auto restart = [ &state]( auto& entity)
             {
-               while( entity.restart && entity.spawnable())
+               if( entity.restart)
                   handle::scale::instances( state, entity);
             };
 
-- 
2.43.0


From 6f4e0b5ca08a0bbf5dc5f51483ad2f29ab56f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 33/45] fix: a forwarded call is forwarded to the name that was
 called

A call without reply (or a forward) to a busy service goes via service-forward.
The name of the route that the caller asked for was lost on the way, and
service-forward asked for the origin name. If the service has routes that does
not include the origin name, the call was discarded, and if they do, metrics
were attributed to the origin name.
---
 middleware/service/source/forward/handle.cpp | 3 ++-
 middleware/service/source/manager/handle.cpp | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/forward/handle.cpp b/middleware/service/source/forward/handle.cpp
index 5cd0c94..c7ee849 100644
--- a/middleware/service/source/forward/handle.cpp
+++ b/middleware/service/source/forward/handle.cpp
@@ -106,7 +106,8 @@ namespace casual
                         // lookup service
                         {
                            message::service::lookup::Request request{ process::handle()};
-                           request.requested = message.service.name;
+                           // what the caller asked for, the origin name is not necessarily callable
+                           request.requested = message.service.logical_name();
                            request.correlation = message.correlation;
                            // semantic explicitly as a lookup from service-forward
                            request.context.semantic = decltype( request.context.semantic)::forward_request;
diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index e8ac20c..4758d84 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -504,6 +504,9 @@ namespace casual
                         auto reply = common::message::reverse::type( message);
                         reply.service = state.services[ service_id].information;
 
+                        if( reply.service.name != message.requested)
+                           reply.service.requested = message.requested;
+
                         switch( message.context.semantic)
                         {
                            using Semantic = decltype( message.context.semantic);
-- 
2.43.0


From 761946283afec5453801014edba29ea63385e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:09 +0000
Subject: [PATCH 34/45] fix: a task that loses its connection when it is
 dispatched is not used after it's gone

---
 middleware/common/include/casual/task/concurrent.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/middleware/common/include/casual/task/concurrent.h b/middleware/common/include/casual/task/concurrent.h
index 850a2e6..b053d84 100644
--- a/middleware/common/include/casual/task/concurrent.h
+++ b/middleware/common/include/casual/task/concurrent.h
@@ -189,9 +189,17 @@ namespace casual
          template< typename M>
          void operator() ( M&& message)
          {
-            if( auto found = common::algorithm::find( m_units, message.correlation))
-               if( std::invoke( *found, message) == unit::Dispatch::done)
-                  common::algorithm::container::erase( m_units, std::begin( found));
+            auto found = common::algorithm::find( m_units, message.correlation);
+
+            if( ! found)
+               return;
+
+            // the task might, indirectly, modify our state during the dispatch. For example if it tries to send
+            // to a lost connection, and hence `failed` is called. We need to hold the task our self meanwhile.
+            auto unit = common::algorithm::container::extract( m_units, std::begin( found));
+
+            if( std::invoke( unit, message) != unit::Dispatch::done)
+               m_units.push_back( std::move( unit));
          }
 
          bool contains( const common::strong::correlation::id& correlation) const noexcept
-- 
2.43.0


From 5294fb7e1157c2a815347153153b7a843e4127dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:09 +0000
Subject: [PATCH 35/45] fix: a call on a connection that is lost when it's sent
 gets a reply

---
 .../gateway/source/group/outbound/handle.cpp  | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index a85b28a..8970a78 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -262,21 +262,14 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
+                           // we need to do this first, if the send fails and the connection is lost the task takes care of the reply.
+                           state.tasks.add( detail::create::task( state, message, connection->descriptor()));
+                           transaction::associate_and_involve( state, message, connection->descriptor());
+
                            if( message::protocol::compatible< common::message::service::call::callee::Request>( connection->protocol()))
-                           {
                               tcp::send( state, connection->descriptor(), message);
-
-                              state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                              transaction::associate_and_involve( state, message, connection->descriptor());
-                           }
                            else
-                           {
-                              // we need to do this first, since we're doing a destructive transform on the message (we cant use after moved)
-                              state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                              transaction::associate_and_involve( state, message, connection->descriptor());
-
                               tcp::send( state, connection->descriptor(), message::protocol::transform::to< common::message::service::call::v1_2::callee::Request>( std::move( message)));
-                           }
 
                         };
                      }
@@ -502,10 +495,11 @@ namespace casual
 
                            auto tcp = state.connections.partner( descriptor);
 
-                           tcp::send( state, tcp, message);
+                           // we need to do this first, if the send fails and the connection is lost the task takes care of the reply.
                            state.tasks.add( detail::create::task( state, message, tcp));
-
                            transaction::associate_and_involve( state, message, tcp);
+
+                           tcp::send( state, tcp, message);
                         };
                      }  
                   } // basic
-- 
2.43.0


From 32d064162303a4e7a172fa658b464b0b326ec3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:28 +0000
Subject: [PATCH 36/45] fix: a connection is disconnected once

---
 middleware/gateway/source/group/outbound/handle.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 8970a78..c9489cb 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -962,7 +962,9 @@ namespace casual
             // unadvertise all associated services and queues, if any.
             handle::unadvertise( state, descriptor);
 
-            state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::disconnect});
+            // the connection might be in 'disconnect mode' already
+            if( ! algorithm::contains( state.disconnecting, descriptor))
+               state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::disconnect});
          }
 
          void remove( State& state, common::strong::socket::id descriptor)
@@ -973,6 +975,8 @@ namespace casual
             // unadvertise all associated services and queues, if any.
             handle::unadvertise( state, descriptor);
 
+            // the connection might be in 'disconnect mode' already
+            algorithm::container::erase( state.disconnecting, descriptor);
             state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::remove});
          }
          
-- 
2.43.0


From 959c903b46608f5666a0c84fd6a4b59c6f602889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:00 +0000
Subject: [PATCH 37/45] fix: calls that a lost connection hasn't read yet get
 replies

---
 .../gateway/source/group/outbound/handle.cpp  | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index c9489cb..a518183 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -515,6 +515,48 @@ namespace casual
                   } // dequeue
                } // queue
                
+               //! consumes all requests that are pending on the ipc partner to the lost connection `descriptor`,
+               //! and reply with error. Otherwise, the callers would not get any reply.
+               void discard( State& state, strong::socket::id descriptor)
+               {
+                  Trace trace{ "gateway::group::outbound::handle::local::internal::discard"};
+
+                  auto inbound = state.connections.find_internal( descriptor);
+
+                  if( ! inbound)
+                     return;
+
+                  // make sure no one can send to the ipc from here on.
+                  communication::ipc::remove( inbound->connector().handle().ipc());
+
+                  auto reply = [ &state]( const auto& message, auto reply)
+                  {
+                     if( message.process.ipc)
+                        state.multiplex.send( message.process.ipc, reply);
+                  };
+
+                  auto reply_error = [ &reply]( const auto& message)
+                  {
+                     auto result = common::message::reverse::type( message);
+                     result.code.result = code::xatmi::service_error;
+                     reply( message, std::move( result));
+                  };
+
+                  auto reply_empty = [ &reply]( const auto& message)
+                  {
+                     reply( message, common::message::reverse::type( message));
+                  };
+
+                  auto handler = common::message::dispatch::handler( *inbound,
+                     [ &]( const common::message::service::call::callee::Request& message) { reply_error( message);},
+                     [ &]( const common::message::conversation::connect::callee::Request& message) { reply_error( message);},
+                     [ &]( const casual::queue::ipc::message::group::enqueue::Request& message) { reply_empty( message);},
+                     [ &]( const casual::queue::ipc::message::group::dequeue::Request& message) { reply_empty( message);});
+
+                  while( auto complete = communication::device::non::blocking::next( *inbound))
+                     handler( complete);
+               }
+
             } // internal
 
             namespace external
@@ -947,6 +989,8 @@ namespace casual
 
             state.tasks.failed( descriptor);
 
+            local::internal::discard( state, descriptor);
+
             // extract all state associated with the descriptor
             auto extracted = state.failed( descriptor);
             log::line( verbose::log, "extracted: ", extracted);
-- 
2.43.0


From 38704c38c440c9e87480e34b723517e37a734082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 38/45] fix: a service that a remote domain doesn't have any
 more is unadvertised

The service manager was told with the message for a sequential server, which
never removes a concurrent instance.
---
 middleware/gateway/source/group/outbound/handle.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index a518183..0a47c48 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -139,10 +139,15 @@ namespace casual
                {
                   void unadvertise( State& state, strong::socket::id descriptor, std::vector< std::string> services)
                   {
-                     if( auto handle = state.connections.process_handle( descriptor))
+                     auto handle = state.connections.process_handle( descriptor);
+                     auto information = state.connections.information( descriptor);
+
+                     if( handle && information)
                      {
-                        common::message::service::Advertise unadvertise{ handle};
+                        common::message::service::concurrent::Advertise unadvertise{ handle};
                         unadvertise.alias = instance::alias();
+                        unadvertise.description = information->domain.name;
+                        unadvertise.order = state.order;
                         unadvertise.services.remove = std::move( services);
                         state.multiplex.send( ipc::manager::service(), unadvertise);
                      }
-- 
2.43.0


From 9174d926a63b6849f39830c5ed83cc76ffe96be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:48 +0000
Subject: [PATCH 39/45] fix: a service that another domain has is found, also
 when the advertise comes last

The reply that a remote domain has a service can overtake the advertise of it,
when the socket of the service manager is full. The lookup got 'absent'.
---
 middleware/service/source/manager/handle.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 4758d84..ed03dc2 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -947,6 +947,18 @@ namespace casual
 
                namespace api
                {
+                  //! @return true if another domain has replied that it has the service
+                  bool discovered( State& state, const casual::domain::message::discovery::api::Reply& message, const std::string& requested)
+                  {
+                     auto service_id = state.services.lookup( requested);
+                     auto& name = service_id ? state.services[ service_id].information.name : requested;
+
+                     return predicate::boolean( algorithm::find_if( message.content.services, [ &name]( auto& service)
+                     {
+                        return service.name == name;
+                     }));
+                  }
+
                   auto reply( State& state)
                   {
                      return [&state]( casual::domain::message::discovery::api::Reply& message)
@@ -968,6 +980,13 @@ namespace casual
                            {
                               // we let the lookup remain
                            }
+                           else if( discovered( state, message, found->request.requested))
+                           {
+                              // another domain has the service, but the advertise isn't here yet. Ask again, 
+                              // until we know about it, or nobody has it any more.
+                              auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
+                              service::detail::lookup( state, pending.request);
+                           }
                            else 
                            {
                               auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
-- 
2.43.0


From 016e9c65dbf86887bf703151e894cf1e1dd0f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:07 +0000
Subject: [PATCH 40/45] fix: a transaction that is rolled back is not reported
 as committed

When one resource did not know its branch at prepare, the others were rolled back
and the reply was ok. As a resource to another domain, the others were left
prepared: a vote for rollback is a reply when it has been rolled back.
---
 middleware/transaction/source/manager/handle.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index a984b25..a2c59ce 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -563,14 +563,6 @@ namespace casual
                         }
                         else
                         {
-                           // if we act as a resource, we just reply the "error" and let upstream TM orchestrate.
-                           if constexpr( concepts::any_of< Reply, common::message::transaction::resource::prepare::Reply>)
-                           {
-                              auto reply = create::reply< Reply>( origin, destination, code);
-                              state.multiplex.send( destination.process.ipc, reply);
-                              return;
-                           }
-
                            // we start the rollback stage
                            transaction->stage = state::transaction::Stage::rollback;
 
@@ -584,7 +576,10 @@ namespace casual
                            auto pending = detail::coordinate::pending::replies< common::message::transaction::resource::rollback::Request>( 
                               state, prepared, state.coordinate.rollback.empty_pendings());
 
-                           detail::coordinate::rollback< Reply>( state, std::move( pending), origin, destination, code);
+                           // If we act as a resource the reply is a vote for rollback, when we have rolled back. 
+                           // A resource that does not know the branch is _not an error_ in a reply, but now we do roll back
+                           detail::coordinate::rollback< Reply>( state, std::move( pending), origin, destination, 
+                              code == common::code::xa::invalid_xid ? common::code::xa::rollback_other : code);
                         }
                      });
                   }
-- 
2.43.0


From cd3b9a5af60a96671548e5ffe6ccc9dadb8faf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 41/45] fix: the transaction that is done is the one that
 others are told to forget

The range of the global transaction id referred to the transaction that
was erased, hence the event carried the id of the transaction that
happened to be next in the container.
---
 middleware/transaction/source/manager/handle.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index a2c59ce..87a70ce 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -271,12 +271,15 @@ namespace casual
                      if( auto found = common::algorithm::find( state.transactions, global))
                      {
                         common::log::line( verbose::log, "remove: ", *found);
-                        common::algorithm::container::erase( state.transactions, std::begin( found));
 
                         // other "managers" might have state associated with the transaction, send an event
                         // to help them get rid of it.
+                        // `global` might refer to the transaction itself, hence we need it before the erase.
                         common::message::event::transaction::Disassociate event{ common::process::handle()};
                         event.gtrid = global;
+
+                        common::algorithm::container::erase( state.transactions, std::begin( found));
+
                         common::event::send( state.multiplex, event);
                      }
                   }
-- 
2.43.0


From e6722abbf8ae02dd784cd394d721b896544f9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:42 +0000
Subject: [PATCH 42/45] fix: all instances of a server are shut down, also if
 some of them aren't connected yet

The ones to shut down were not always next to each other, and only the
first of them were shut down.
---
 middleware/domain/source/manager/state.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/middleware/domain/source/manager/state.cpp b/middleware/domain/source/manager/state.cpp
index a70b01a..d651b28 100644
--- a/middleware/domain/source/manager/state.cpp
+++ b/middleware/domain/source/manager/state.cpp
@@ -136,6 +136,12 @@ namespace casual
                         }));
                      }
 
+                     // make sure all that are about to be shut down are next to each other, there might be spawned ones in between
+                     algorithm::stable::partition( entity.instances, []( auto& instance)
+                     {
+                        return instance.state() != state::instance::State::scale_in;
+                     });
+
                      log::line( verbose::log, "instances: ", entity.instances);
                   }
 
-- 
2.43.0


From 1831ba4faa10bca0750dcc66f15d7d38e79b549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:26 +0000
Subject: [PATCH 43/45] fix: a callback for a message that is not sent can send
 other messages

The callbacks were invoked while the destination was a part of the pending
destinations, and a callback that sends something might change these.
---
 .../include/common/communication/ipc/send.h   | 10 +++--
 .../common/source/communication/ipc/send.cpp  | 40 ++++++++++++++-----
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/middleware/common/include/common/communication/ipc/send.h b/middleware/common/include/common/communication/ipc/send.h
index c21b2ab..081d6a7 100644
--- a/middleware/common/include/common/communication/ipc/send.h
+++ b/middleware/common/include/common/communication/ipc/send.h
@@ -68,6 +68,7 @@ namespace casual
 
             strong::file::descriptor::id descriptor() const noexcept { return m_destination.socket().descriptor();}
 
+            //! @returns true if there is nothing more to do. Either everything is sent, or the destination is _lost_
             bool send( select::Directive& directive) noexcept;
 
             inline Remote& push( Message&& message)
@@ -76,7 +77,8 @@ namespace casual
                return *this;
             }
 
-            void failed( select::Directive& directive);
+            //! invokes the callback (if any) for all messages that are not sent
+            void error() const noexcept;
 
             inline platform::size::type size() const noexcept { return m_queue.size();}
 
@@ -181,6 +183,8 @@ namespace casual
 
          strong::correlation::id send( const strong::ipc::id& ipc, coordinator::Message&& message);
 
+         void push( std::vector< coordinator::Remote>::iterator where, coordinator::Message&& message);
+
          //! Take care of devices that can "connect"
          template< typename D>
          auto send_dispatch( D& device, coordinator::Message&& message, traits::priority::tag< 1>) 
@@ -201,9 +205,7 @@ namespace casual
 
             if( auto found = algorithm::find( m_destinations, device.connector().process().ipc))
             {
-               if( found->push( std::move( message)).send( *m_directive))
-                  m_destinations.erase( std::begin( found));
-
+               push( std::begin( found), std::move( message));
                return result;
             }
             else
diff --git a/middleware/common/source/communication/ipc/send.cpp b/middleware/common/source/communication/ipc/send.cpp
index 4c62f28..e1b8217 100644
--- a/middleware/common/source/communication/ipc/send.cpp
+++ b/middleware/common/source/communication/ipc/send.cpp
@@ -55,21 +55,33 @@ namespace casual
             catch( ...)
             {
                log::line( log, exception::capture(), " failed to send to destination: ", m_destination, " - action: invoke callback (if any) and discard for all pending messages to the destination");
-               failed( directive);
+               directive.write.remove( descriptor());
                return true;
             }
          }
 
-         void Remote::failed( select::Directive& directive)
+         void Remote::error() const noexcept
          {
             for( auto& message : m_queue)
                message.error( m_destination.ipc());
-
-            directive.write.remove( descriptor());
          }
          
       } // coordinator
 
+      namespace local
+      {
+         namespace
+         {
+            //! removes the destination, and invokes the callbacks for what's not sent. The callbacks might very
+            //! well send other messages, hence the destination can't be a part of `destinations` when they are invoked.
+            void done( std::vector< coordinator::Remote>& destinations, std::vector< coordinator::Remote>::iterator where)
+            {
+               auto destination = algorithm::container::extract( destinations, where);
+               destination.error();
+            }
+         } // <unnamed>
+      } // local
+
       bool Coordinator::operator () ( strong::file::descriptor::id descriptor, communication::select::tag::write) &
       {
          Trace trace{ "communication::ipc::send::Coordinator::operator <select>"};
@@ -79,7 +91,7 @@ namespace casual
          {
             log::line( verbose::log, "found: ", *found);
             if( found->send( *m_directive))
-               m_destinations.erase( std::begin( found));
+               local::done( m_destinations, std::begin( found));
 
             return true;
          }
@@ -96,7 +108,10 @@ namespace casual
             return ! destination.send( *directive);
          }));
 
-         algorithm::container::erase( m_destinations, erase);
+         auto done = algorithm::container::extract( m_destinations, erase);
+
+         for( auto& destination : done)
+            destination.error();
 
          return empty();
       }
@@ -113,11 +128,17 @@ namespace casual
       {
          if( auto found = algorithm::find( m_destinations, ipc))
          {
-            found->failed( *m_directive);
-            algorithm::container::erase( m_destinations, std::begin( found));
+            m_directive->write.remove( found->descriptor());
+            local::done( m_destinations, std::begin( found));
          }
       }
 
+      void Coordinator::push( std::vector< coordinator::Remote>::iterator where, coordinator::Message&& message)
+      {
+         if( where->push( std::move( message)).send( *m_directive))
+            local::done( m_destinations, where);
+      }
+
       strong::correlation::id Coordinator::send( const strong::ipc::id& ipc, coordinator::Message&& message)
       {
          Trace trace{ "communication::ipc::send::Coordinator::send"};
@@ -126,8 +147,7 @@ namespace casual
 
          if( auto found = algorithm::find( m_destinations, ipc))
          {
-            if( found->push( std::move( message)).send( *m_directive))
-               m_destinations.erase( std::begin( found));
+            push( std::begin( found), std::move( message));
          }
          else
          {
-- 
2.43.0


From 2a932ae010641323ad2f9dbf1c3203add400a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:53 +0000
Subject: [PATCH 44/45] fix: the ack of a service is sent also when the service
 is interrupted

---
 middleware/common/source/server/handle/policy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/middleware/common/source/server/handle/policy.cpp b/middleware/common/source/server/handle/policy.cpp
index 919aeb6..bee5e87 100644
--- a/middleware/common/source/server/handle/policy.cpp
+++ b/middleware/common/source/server/handle/policy.cpp
@@ -12,6 +12,7 @@
 #include "common/service/lookup.h"
 #include "common/communication/instance.h"
 #include "common/instance.h"
+#include "common/signal.h"
 
 #include "common/log.h"
 #include "common/execute.h"
@@ -106,6 +107,9 @@ namespace casual
 
             log::line( verbose::log, "reply: ", message);
 
+            // an interrupt is for the service, which is done. If the ack would be lost we stay _busy_ for ever.
+            signal::thread::scope::Block block{ { code::signal::interrupt}};
+
             communication::device::blocking::send( communication::instance::outbound::service::manager::device(), message);
 
             log::line( log::category::event::service, "ack");
-- 
2.43.0


From 7ec3e0e9bfefbeb7e749391e21e165105da4c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:18 +0000
Subject: [PATCH 45/45] fix: an inbound whose connection is lost gives back the
 service it has reserved but not called

A call in a transaction waits for both the lookup of the service and the branch of
the transaction. If the connection was lost when only the lookup had been answered, the
reservation was kept, and the instance was never used again.
---
 .../gateway/source/group/inbound/task/create.cpp       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 2934185..878c198 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -293,9 +293,10 @@ namespace casual
                   },
                   [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
                   {
-                     if( ! shared->lookup)
+                     // with a transaction that is not branched yet we've got a reservation that we'll never use
+                     if( ! shared->lookup || ( shared->origin_trid && shared->origin_trid == shared->message.trid))
                      {
-                        // we have a pending lookup, discard.
+                        // we have a pending (or unused) lookup, discard.
                         common::message::service::lookup::discard::Request request;
                         request.correlation = message.correlation;
                         request.execution = message.execution;
@@ -412,9 +413,10 @@ namespace casual
                   },
                   [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
                   {
-                     if( ! shared->lookup)
+                     // with a transaction that is not branched yet we've got a reservation that we'll never use
+                     if( ! shared->lookup || ( shared->origin_trid && shared->origin_trid == shared->message.trid))
                      {
-                        // we have a pending lookup, discard.
+                        // we have a pending (or unused) lookup, discard.
                         common::message::service::lookup::discard::Request request;
                         request.correlation = message.correlation;
                         request.execution = message.execution;
-- 
2.43.0

