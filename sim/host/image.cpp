// The image: one copy of casual's code (node.so) shared by every simulated process, each of which has its own writable data.
#include "kernel.h"

#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <unistd.h>
#include <sys/mman.h>

extern char** environ;

namespace sim::image
{
   static char* begin = nullptr;
   static char* end = nullptr;
   static char* pristine = nullptr;
   static Proc* active = nullptr;
   static void ( **initializers)( int, char**, char**) = nullptr;
   static std::size_t count = 0;
   static int (*node_run)( const char*, int, char**) = nullptr;
   static const char* const* executables = nullptr;
   std::uintptr_t text_base = 0, text_lo = 0, text_hi = 0;

   std::size_t size() { return end - begin;}

   bool known( const std::string& exe)
   {
      for( auto e = executables; *e; ++e) if( exe == *e) return true;
      return false;
   }

   void load( const char* path)
   {
      auto handle = dlopen( path, RTLD_NOW | RTLD_LOCAL);
      if( ! handle) { fprintf( stderr, "dlopen: %s\n", dlerror()); _exit( 3);}
      struct link_map* map = nullptr;
      dlinfo( handle, RTLD_DI_LINKMAP, &map);
      for( auto d = map->l_ld; d->d_tag != DT_NULL; ++d)
      {
         // see patch.py
         if( d->d_tag == 0x60000000 + DT_INIT_ARRAY) initializers = reinterpret_cast< decltype( initializers)>( map->l_addr + d->d_un.d_ptr);
         if( d->d_tag == 0x60000000 + DT_INIT_ARRAYSZ) count = d->d_un.d_val / sizeof( void*);
      }
      struct Find { std::uintptr_t base; std::uintptr_t lo = 0, hi = 0, relro_lo = 0, relro_hi = 0;} find{ map->l_addr};
      dl_iterate_phdr( []( struct dl_phdr_info* info, size_t, void* data)
      {
         auto& f = *static_cast< Find*>( data);
         if( info->dlpi_addr != f.base) return 0;
         for( int i = 0; i < info->dlpi_phnum; ++i)
         {
            auto& h = info->dlpi_phdr[ i];
            auto lo = info->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
            if( h.p_type == PT_LOAD && ( h.p_flags & PF_X)) { text_base = info->dlpi_addr; text_lo = lo; text_hi = hi;}
            if( h.p_type == PT_GNU_RELRO) { f.relro_lo = lo; f.relro_hi = ( hi + 4095) & ~4095ul;}
            if( h.p_type == PT_TLS) { fprintf( stderr, "image has thread local storage\n"); _exit( 3);}
         }
         for( int i = 0; i < info->dlpi_phnum; ++i)
         {
            auto& h = info->dlpi_phdr[ i];
            auto lo = info->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
            if( h.p_type != PT_LOAD || ! ( h.p_flags & PF_W)) continue;
            if( lo >= ( f.relro_lo & ~4095ul) && hi <= f.relro_hi) continue;
            if( f.lo) { fprintf( stderr, "image has more than one data segment\n"); _exit( 3);}
            f.lo = lo; f.hi = hi;
            if( f.relro_hi > f.lo && f.relro_lo < f.hi) f.lo = f.relro_hi;
         }
         return 1;
      }, &find);
      begin = reinterpret_cast< char*>( find.lo);
      end = reinterpret_cast< char*>( find.hi);
      if( ! begin || ! count) { fprintf( stderr, "image: data or initializers not found\n"); _exit( 3);}
      pristine = static_cast< char*>( malloc( size()));
      std::memcpy( pristine, begin, size());
      node_run = reinterpret_cast< decltype( node_run)>( dlsym( handle, "sim_node_run"));
      executables = reinterpret_cast< decltype( executables)>( dlsym( handle, "sim_node_executables"));
      if( ! node_run || ! executables) { fprintf( stderr, "image: no entry\n"); _exit( 3);}
   }

   void swap_in( Proc* p)
   {
      if( active == p) return;
      if( active) std::memcpy( active->data, begin, size());
      if( ! p->data)
      {
         p->data = static_cast< char*>( malloc( size()));
         std::memcpy( p->data, pristine, size());
      }
      std::memcpy( begin, p->data, size());
      active = p;
   }

   void forget( Proc* p)
   {
      if( active == p) active = nullptr;
      free( p->data);
      p->data = nullptr;
   }

   void run( Proc* p)
   {
      int argc = p->args.size();
      auto argv = p->argv_c.data();
      for( std::size_t i = 0; i < count; ++i)
         initializers[ i]( argc, argv, environ);
      exit( node_run( p->exe.c_str(), argc, argv));
   }
}
