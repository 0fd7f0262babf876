// Exhaustive exploration of the choices a scenario makes (depth first, stateless), with sharding,
// replay, measured coverage and crash containment.
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <stdexcept>
#include <unordered_set>
#include <vector>
#include <map>

namespace mc
{
	struct Violation { std::string msg; };
	struct Prune {};  // this combination of choices is not a case (symmetric, meaningless)
	[[noreturn]] void fail( std::string const & msg );
	inline void check( bool ok, std::string const & msg ) { if ( !ok ) fail( msg ); }

	struct Stats
	{
		uint64_t executions{};   // complete executions of the scenario on the real code
		uint64_t pruned{};
		uint64_t transitions{};  // steps executed and checked (operations of the scenario, GPU commands, ...)
		uint64_t compared{};     // executions whose observations were compared with the reference model
		uint64_t known{};
		std::unordered_set< uint64_t > states;   // distinct observed states
		std::unordered_set< uint64_t > outcomes; // distinct final observations
		std::map< std::string, uint64_t > counters;
	};

	class Choices
	{
	public:
		// a nondeterministic choice among n alternatives
		int pick( int n, char const * label );
		bool flip( char const * label ) { return pick( 2, label ) == 1; }
		template< typename T > T const & of( std::vector< T > const & v, char const * label ) { return v[size_t( pick( int( v.size() ), label ) )]; }
		void prune() { throw Prune{}; }
		std::string describe()const;
		void note( std::string s ) { if ( m_notes.size() < 400 ) m_notes.push_back( std::move( s ) ); }
		std::vector< int > const & taken()const { return m_taken; }
		std::vector< std::string > const & notes()const { return m_notes; }
		bool replaying()const { return m_replay; }
		// engine state
		struct Point { int n; int v; std::string label; };
		std::vector< Point > m_points;   // current path
		size_t m_pos{};
		std::vector< int > m_taken;
		std::vector< std::string > m_notes;
		bool m_replay{};
		int m_shardDepth{ 4 };
		uint64_t m_shardHash{};
		bool m_shardDecided{};
	};
	struct Engine;

	extern Stats stats;
	// to be called by scenarios
	inline void step( uint64_t n = 1 ) { stats.transitions += n; }
	uint64_t hashStr( std::string const & s );
	inline void state( uint64_t h ) { stats.states.insert( h ); }
	inline void state( std::string const & s ) { stats.states.insert( hashStr( s ) ); }
	inline void outcome( std::string const & s ) { stats.outcomes.insert( hashStr( s ) ); }
	inline void compared() { ++stats.compared; }
	inline void count( std::string const & s, uint64_t n = 1 ) { stats.counters[s] += n; }
	bool thorough();
	bool deeper();
	void setTier( std::string const & );
	// a genuine defect listed in known_findings.json: true when `key` is listed (the caller then goes on)
	bool known( std::string const & key, std::string const & what );
	// a sub-scenario may want several independent explorations in a property
	struct Scenario { std::string name; std::function< void( Choices & ) > run; int shardDepth{ 4 }; };
	struct Property { std::string id; std::vector< Scenario > scenarios; };
	int mainLoop( int argc, char ** argv, std::vector< Property > const & props );
}
