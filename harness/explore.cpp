#include "explore.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <exception>
#include <iostream>

// a failed assert of the code under test is an observation, not the end of the process
extern "C" void __assert_fail( char const * e, char const * f, unsigned l, char const * fn ) __THROW;

namespace mc
{
	Stats stats;
	static int s_level{};
	static char * s_shared{};            // current case, readable after a crash
	static constexpr size_t SharedSize = 1 << 16;
	static std::set< std::string > s_known;
	static std::map< std::string, std::string > s_knownSeen;

	void fail( std::string const & msg ) { throw Violation{ msg }; }
	bool thorough() { return s_level > 0; }
	bool deeper() { return s_level > 1; }
	void setTier( std::string const & t ) { s_level = t == "deeper" ? 2 : t == "thorough"; }
	bool known( std::string const & key, std::string const & what )
	{
		if ( !s_known.count( key ) )
			return false;
		s_knownSeen.emplace( key, what );
		++stats.known;
		return true;
	}
	uint64_t hashStr( std::string const & s )
	{
		uint64_t x = 1469598103934665603ull;
		for ( unsigned char c : s ) { x ^= c; x *= 1099511628211ull; }
		x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29;
		return x;
	}
	struct SkipShard {};
	static int s_shard{}, s_shards{ 1 };

	int Choices::pick( int n, char const * label )
	{
		if ( n <= 0 )
			throw std::logic_error( std::string{ "pick of nothing at " } + label );
		int v;
		if ( m_pos < m_points.size() )
		{
			auto & p = m_points[m_pos];
			if ( p.n == -1 )
			{
				if ( p.v >= n )
					throw std::logic_error( "replay diverges at " + std::string{ label } );
				p.n = n;
				p.label = label;
			}
			else if ( p.n != n || p.label != label )
				throw std::logic_error( "nondeterminism: expected " + p.label + "/" + std::to_string( p.n ) + ", got " + label + "/" + std::to_string( n ) );
			v = p.v;
		}
		else
		{
			m_points.push_back( { n, 0, label } );
			v = 0;
		}
		++m_pos;
		m_taken.push_back( v );
		if ( !m_replay && s_shards > 1 && !m_shardDecided )
		{
			m_shardHash = m_shardHash * 1000003u + uint64_t( v ) + 17u;
			if ( int( m_taken.size() ) >= m_shardDepth )
			{
				m_shardDecided = true;
				uint64_t x = m_shardHash; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33;
				if ( int( x % uint64_t( s_shards ) ) != s_shard )
					throw SkipShard{};
			}
		}
		return v;
	}
	std::string Choices::describe()const
	{
		std::string r;
		for ( size_t i = 0; i < m_taken.size() && i < m_points.size(); ++i )
			r += ( i ? " " : "" ) + m_points[i].label + "=" + std::to_string( m_taken[i] );
		return r;
	}

	static std::string esc( std::string const & s )
	{
		std::string r;
		for ( unsigned char c : s )
		{
			if ( c == '"' || c == '\\' ) { r += '\\'; r += char( c ); }
			else if ( c == '\n' ) r += "\\n";
			else if ( c < 32 || c >= 127 ) { char b[8]; std::snprintf( b, 8, "\\u%04x", c ); r += b; }
			else r += char( c );
		}
		return r;
	}
	static std::string joinInts( std::vector< int > const & v )
	{
		std::string r;
		for ( size_t i = 0; i < v.size(); ++i ) r += ( i ? "," : "" ) + std::to_string( v[i] );
		return r;
	}
	static void publish( std::string const & prop, std::string const & scen, std::vector< int > const & c )
	{
		if ( !s_shared ) return;
		std::string t = prop + "\n" + scen + "\n" + joinInts( c ) + "\n";
		if ( t.size() + 1 < SharedSize ) std::memcpy( s_shared, t.c_str(), t.size() + 1 );
	}
	struct Engine
	{
		std::string prop;
		std::string outFile;
		double deadline{};
		struct Viol { std::string scen; std::vector< int > choices; std::string msg; std::string desc; };
		std::vector< Viol > viols;
		std::vector< std::string > samples;
		bool capped{};
		std::map< std::string, uint64_t > perScenario;

		// one execution. Returns false on a violation
		bool one( Scenario const & s, Choices & c, std::string & msg, bool & skipped )
		{
			c.m_pos = 0;
			c.m_taken.clear();
			c.m_notes.clear();
			c.m_shardHash = hashStr( s.name );
			c.m_shardDecided = false;
			skipped = false;
			std::vector< int > full;
			for ( auto & p : c.m_points ) full.push_back( p.v );
			publish( prop, s.name, full );
			try
			{
				s.run( c );
				if ( !c.m_replay && s_shards > 1 && !c.m_shardDecided )
				{
					uint64_t x = c.m_shardHash; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33;
					if ( int( x % uint64_t( s_shards ) ) != s_shard )
					{
						// executed here only because it is short: counted by its own shard
						skipped = true;
						return true;
					}
				}
				if ( c.m_pos < c.m_points.size() )
					throw std::logic_error( "nondeterminism: fewer choices than in the recorded prefix" );
				return true;
			}
			catch ( SkipShard & ) { skipped = true; return true; }
			catch ( Prune & ) { ++stats.pruned; skipped = true; return true; }
			catch ( Violation & v ) { msg = v.msg; return false; }
			catch ( std::logic_error & e )
			{
				if ( std::string{ e.what() }.find( "nondeterminism" ) == 0 || std::string{ e.what() }.find( "replay diverges" ) == 0 || std::string{ e.what() }.find( "pick of" ) == 0 )
				{
					std::fprintf( stderr, "HARNESS ERROR in %s/%s: %s\n", prop.c_str(), s.name.c_str(), e.what() );
					std::fflush( stderr );
					_exit( 3 );
				}
				msg = std::string{ "unexpected exception: " } + e.what();
				return false;
			}
			catch ( std::exception & e ) { msg = std::string{ "unexpected exception: " } + e.what(); return false; }
			catch ( ... ) { msg = "unexpected exception of unknown type"; return false; }
		}
		static bool advance( Choices & c )
		{
			c.m_points.resize( std::min( c.m_points.size(), c.m_taken.size() ) );
			while ( !c.m_points.empty() )
			{
				auto & p = c.m_points.back();
				if ( p.v + 1 < p.n )
				{
					++p.v;
					return true;
				}
				c.m_points.pop_back();
			}
			return false;
		}
		void run( Scenario const & s )
		{
			Choices c;
			c.m_shardDepth = s.shardDepth;
			itimerval tv{ { 0, 0 }, { 60, 0 } };
			size_t found = 0;
			while ( true )
			{
				setitimer( ITIMER_REAL, &tv, nullptr );
				std::string msg;
				bool skipped{};
				Stats before;  // only counters that matter for skipped executions
				before.transitions = stats.transitions;
				before.compared = stats.compared;
				bool ok = one( s, c, msg, skipped );
				if ( skipped )
				{
					stats.transitions = before.transitions;
					stats.compared = before.compared;
				}
				else
				{
					++stats.executions;
					++perScenario[s.name];
					if ( ok && ( perScenario[s.name] == 1 || perScenario[s.name] == 40 ) && samples.size() < 12 )
					{
						std::string t = s.name + ": " + c.describe();
						for ( size_t i = 0; i < c.m_notes.size() && i < 12; ++i ) t += " | " + c.m_notes[i];
						samples.push_back( t );
					}
				}
				if ( !ok )
				{
					// replay before report: the same choices must fail the same way
					auto taken = c.m_taken;
					Choices r;
					std::string msg2; bool sk{};
					bool ok2 = true;
					// (a failure may hang on addresses: it has a few tries)
					for ( int tries = 0; ok2 && tries < 10; ++tries )
					{
						r = {};
						r.m_replay = true;
						for ( int v : taken ) r.m_points.push_back( { -1, v, "" } );
						ok2 = one( s, r, msg2, sk );
					}
					if ( ok2 || msg2 != msg )
					{
						if ( ok2 )
							std::fprintf( stderr, "HARNESS ERROR in %s/%s: a failure did not repeat: %s\n", prop.c_str(), s.name.c_str(), msg.c_str() );
						else
							std::fprintf( stderr, "HARNESS NOTE in %s/%s: failure differs on replay: %s / %s\n", prop.c_str(), s.name.c_str(), msg.c_str(), msg2.c_str() );
						if ( ok2 ) { std::fflush( stderr ); _exit( 3 ); }
					}
					std::string d = r.describe();
					for ( auto & n : r.m_notes ) d += "\n  " + n;
					viols.push_back( { s.name, taken, msg, d } );
					if ( ++found >= 3 )
						break;
				}
				if ( !advance( c ) )
					break;
				if ( deadline > 0 )
				{
					double now = double( std::chrono::duration_cast< std::chrono::milliseconds >( std::chrono::steady_clock::now().time_since_epoch() ).count() ) / 1000.0;
					if ( now > deadline )
					{
						capped = true;
						break;
					}
				}
			}
			itimerval off{};
			setitimer( ITIMER_REAL, &off, nullptr );
		}
		void write()
		{
			std::ofstream o( outFile );
			o << "{\"executions\":" << stats.executions << ",\"pruned\":" << stats.pruned << ",\"transitions\":" << stats.transitions << ",\"compared\":" << stats.compared
				<< ",\"known\":" << stats.known << ",\"capped\":" << ( capped ? "true" : "false" ) << ",\n\"samples\":[";
			for ( size_t i = 0; i < samples.size(); ++i ) o << ( i ? "," : "" ) << "\"" << esc( samples[i] ) << "\"";
			o << "],\n\"scenarios\":{";
			bool f = true;
			for ( auto & [k, v] : perScenario ) { o << ( f ? "" : "," ) << "\"" << esc( k ) << "\":" << v; f = false; }
			o << "},\n\"counters\":{";
			f = true;
			for ( auto & [k, v] : stats.counters ) { o << ( f ? "" : "," ) << "\"" << esc( k ) << "\":" << v; f = false; }
			o << "},\n\"knownSeen\":{";
			f = true;
			for ( auto & [k, v] : s_knownSeen ) { o << ( f ? "" : "," ) << "\"" << esc( k ) << "\":\"" << esc( v ) << "\""; f = false; }
			o << "},\n\"violations\":[";
			for ( size_t i = 0; i < viols.size(); ++i )
				o << ( i ? "," : "" ) << "{\"scenario\":\"" << esc( viols[i].scen ) << "\",\"choices\":[" << joinInts( viols[i].choices ) << "],\"msg\":\"" << esc( viols[i].msg ) << "\",\"desc\":\"" << esc( viols[i].desc ) << "\"}";
			o << "]}\n";
			o.close();
			std::ofstream st( outFile + ".states", std::ios::binary );
			for ( uint64_t s : stats.states ) st.write( reinterpret_cast< char const * >( &s ), 8 );
			std::ofstream oc( outFile + ".outcomes", std::ios::binary );
			for ( uint64_t s : stats.outcomes ) oc.write( reinterpret_cast< char const * >( &s ), 8 );
		}
	};
	static void onTerminate()
	{
		std::fprintf( stderr, "CRASH: std::terminate" );
		if ( auto e = std::current_exception() )
		{
			try { std::rethrow_exception( e ); }
			catch ( Violation & v ) { std::fprintf( stderr, ": %s", v.msg.c_str() ); }
			catch ( std::exception & x ) { std::fprintf( stderr, ": %s", x.what() ); }
			catch ( ... ) {}
		}
		std::fprintf( stderr, "\n" );
		std::fflush( stderr );
		_exit( 86 );
	}
	static void onAlarm( int )
	{
		static char const m[] = "CRASH: the execution does not terminate (60 s)\n";
		(void)!::write( 2, m, sizeof( m ) - 1 );
		_exit( 86 );
	}
	int mainLoop( int argc, char ** argv, std::vector< Property > const & props )
	{
		std::string prop, tier = "quick", out, shared, replay, only, knownFile;
		double budget = 0;
		for ( int i = 1; i + 1 < argc; i += 2 )
		{
			std::string a = argv[i], v = argv[i + 1];
			if ( a == "--property" ) prop = v;
			else if ( a == "--tier" ) tier = v;
			else if ( a == "--out" ) out = v;
			else if ( a == "--shared" ) shared = v;
			else if ( a == "--shard" ) std::sscanf( v.c_str(), "%d/%d", &s_shard, &s_shards );
			else if ( a == "--replay" ) replay = v;
			else if ( a == "--scenario" ) only = v;
			else if ( a == "--budget" ) budget = std::stod( v );
			else if ( a == "--known" ) knownFile = v;
		}
		setTier( tier );
		std::set_terminate( onTerminate );
		std::signal( SIGALRM, onAlarm );
		if ( !knownFile.empty() )
		{
			std::ifstream k( knownFile );
			std::string l;
			while ( std::getline( k, l ) )
				if ( !l.empty() ) s_known.insert( l );
		}
		if ( !shared.empty() )
		{
			int fd = open( shared.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 );
			if ( fd < 0 || ftruncate( fd, SharedSize ) ) return 3;
			s_shared = static_cast< char * >( mmap( nullptr, SharedSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
			close( fd );
		}
		Property const * p{};
		for ( auto & x : props ) if ( x.id == prop ) p = &x;
		if ( !p )
		{
			if ( prop == "list" )
			{
				for ( auto & x : props ) std::cout << x.id << "\n";
				return 0;
			}
			std::fprintf( stderr, "no such property: %s\n", prop.c_str() );
			return 3;
		}
		Engine e;
		e.prop = prop;
		e.outFile = out;
		if ( !replay.empty() )
		{
			for ( auto & s : p->scenarios )
			{
				if ( s.name != only ) continue;
				Choices c;
				c.m_replay = true;
				std::stringstream ss( replay );
				std::string t;
				while ( std::getline( ss, t, ',' ) ) if ( !t.empty() && t != "-" ) c.m_points.push_back( { -1, std::stoi( t ), "" } );
				std::string msg; bool sk{};
				alarm( 120 );
				bool ok = e.one( s, c, msg, sk );
				std::cout << "choices: " << c.describe() << "\n";
				for ( auto & n : c.m_notes ) std::cout << "  " << n << "\n";
				std::cout << ( ok ? "no violation\n" : "FAILS: " + msg + "\n" );
				std::cout.flush();
				return ok ? 0 : 1;
			}
			return 3;
		}
		auto now = []{ return double( std::chrono::duration_cast< std::chrono::milliseconds >( std::chrono::steady_clock::now().time_since_epoch() ).count() ) / 1000.0; };
		double const end = now() + budget;
		size_t left = p->scenarios.size();
		for ( auto & s : p->scenarios )
		{
			auto share = left--;
			if ( !only.empty() && s.name != only ) continue;
			// the time left is shared between the scenarios left
			if ( budget > 0 )
				e.deadline = now() + std::max( 1.0, ( end - now() ) / double( share ) );
			e.run( s );
		}
		e.write();
		return e.viols.empty() ? 0 : 1;
	}
}
extern "C" void __assert_fail( char const * e, char const * f, unsigned l, char const * fn ) __THROW
{
	std::fprintf( stderr, "CRASH: assertion failed: %s (%s:%u %s)\n", e, f, l, fn );
	std::fflush( stderr );
	_exit( 86 );
}
