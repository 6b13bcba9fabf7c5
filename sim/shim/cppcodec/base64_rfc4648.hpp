#pragma once
// Minimal stand-in for the cppcodec package, which is not installed in this sandbox.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <vector>

namespace cppcodec
{
   struct parse_error : std::domain_error { using std::domain_error::domain_error; };

   struct base64_rfc4648
   {
      static constexpr const char* alphabet() { return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";}

      static std::size_t encode( char* out, std::size_t capacity, const char* in, std::size_t size)
      {
         auto need = ( size + 2) / 3 * 4;
         if( need > capacity) ::abort();
         auto a = alphabet();
         std::size_t o = 0;
         for( std::size_t i = 0; i < size; i += 3)
         {
            std::uint32_t v = static_cast< unsigned char>( in[ i]) << 16;
            if( i + 1 < size) v |= static_cast< unsigned char>( in[ i + 1]) << 8;
            if( i + 2 < size) v |= static_cast< unsigned char>( in[ i + 2]);
            out[ o++] = a[ v >> 18 & 63];
            out[ o++] = a[ v >> 12 & 63];
            out[ o++] = i + 1 < size ? a[ v >> 6 & 63] : '=';
            out[ o++] = i + 2 < size ? a[ v & 63] : '=';
         }
         return o;
      }

      static std::size_t decode( char* out, std::size_t capacity, const char* in, std::size_t size)
      {
         auto value = []( char c) -> int
         {
            if( c >= 'A' && c <= 'Z') return c - 'A';
            if( c >= 'a' && c <= 'z') return c - 'a' + 26;
            if( c >= '0' && c <= '9') return c - '0' + 52;
            if( c == '+') return 62;
            if( c == '/') return 63;
            return -1;
         };
         if( size % 4) throw parse_error{ "invalid base64 length"};
         std::size_t o = 0;
         for( std::size_t i = 0; i < size; i += 4)
         {
            int v[ 4];
            int pad = 0;
            for( int j = 0; j < 4; ++j)
            {
               if( in[ i + j] == '=' && i + 4 == size && j >= 2) { ++pad; v[ j] = 0;}
               else if( pad || ( v[ j] = value( in[ i + j])) < 0) throw parse_error{ "invalid base64 symbol"};
            }
            std::uint32_t x = v[ 0] << 18 | v[ 1] << 12 | v[ 2] << 6 | v[ 3];
            for( int j = 0; j < 3 - pad; ++j)
            {
               if( o >= capacity) ::abort();
               out[ o++] = static_cast< char>( x >> ( 16 - 8 * j));
            }
         }
         return o;
      }
   };
}
