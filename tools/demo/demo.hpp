#pragma once
#include "frames.hpp"
#include <cstdio>
namespace demo
{
	template< typename F > int run( F f )
	{
		try { f(); }
		catch ( mc::Violation const & v ) { std::printf( "FAILS: %s\n", v.msg.c_str() ); return 1; }
		catch ( std::exception const & e ) { std::printf( "FAILS: exception %s\n", e.what() ); return 1; }
		std::printf( "OK\n" );
		return 0;
	}
}
