// Signals (N01), GPU timers (M01), tables of layout states (T01), barriers made by the user (B01).
#include "frames.hpp"
#include <algorithm>

using namespace sim;
namespace
{
	std::string n2( u64 v ) { return std::to_string( v ); }

	//************************************************************************************************
	// N01: histories of connections, disconnections, moves and emissions
	using Sig = crg::Signal< std::function< void( int ) > >;
	using Con = crg::SignalConnection< Sig >;
	struct SigWorld
	{
		std::unique_ptr< Sig > sig{ std::make_unique< Sig >() };
		static constexpr int N = 3;
		std::optional< Con > con[N];    // the connection objects of the user
		int slotOf[N]{ -1, -1, -1 };    // which slot each one holds
		struct Slot { bool connected{ true }; int calls{}; int atStart{}; };
		std::vector< Slot > slots;
		int value{};
		bool emitting{};
		std::function< void( int ) > during;  // what the slots do while they are called
		void disconnectSlot( int i ) { if ( i >= 0 ) slots[size_t( i )].connected = false; }
		void connect( int c )
		{
			auto s = int( slots.size() );
			slots.push_back( {} );
			auto n = sig->connect( [this, s]( int v )
				{
					mc::step();
					mc::check( v == value, "a slot is given another value than the one emitted" );
					mc::check( slots[size_t( s )].connected, "slot " + n2( u64( s ) ) + " is called after its disconnection" );
					++slots[size_t( s )].calls;
					mc::check( slots[size_t( s )].calls == 1, "slot " + n2( u64( s ) ) + " is called twice by an emission" );
					auto me = s;
					if ( during ) during( me );
				} );
			disconnectSlot( slotOf[c] );
			if ( con[c] ) *con[c] = std::move( n );
			else con[c].emplace( std::move( n ) );
			slotOf[c] = s;
		}
		void emit()
		{
			++value;
			for ( auto & s : slots ) { s.calls = 0; s.atStart = s.connected; }
			auto n = slots.size();
			emitting = true;
			( *sig )( value );
			emitting = false;
			for ( size_t i = 0; i < n; ++i )
				if ( slots[i].atStart && slots[i].connected )
					mc::check( slots[i].calls == 1, "slot " + n2( i ) + " isn't called" );
		}
		void valid()
		{
			for ( int c = 0; c < N; ++c )
				if ( con[c] )
					mc::check( con[c]->isValid() == ( sig && slotOf[c] >= 0 && slots[size_t( slotOf[c] )].connected ), "the validity of connection " + n2( u64( c ) ) + " isn't the one of what it holds" );
		}
		void drop( int c ) { disconnectSlot( slotOf[c] ); slotOf[c] = -1; }
	};
	void signals( mc::Choices & ch, int depth )
	{
		SigWorld w;
		for ( int i = 0; i < depth; ++i )
		{
			std::string h = w.sig ? "1" : "0";
			for ( int c = 0; c < SigWorld::N; ++c ) h += w.con[c] ? n2( u64( w.slotOf[c] + 1 ) ) : "-";
			for ( auto & s : w.slots ) h += s.connected ? "c" : "d";
			mc::state( h );
			auto op = ch.pick( 7, "operation" );
			int c = op < 6 ? ch.pick( SigWorld::N, "connection" ) : 0;
			mc::step();
			switch ( op )
			{
			case 0: if ( !w.sig ) ch.prune(); w.connect( c ); break;
			case 1: if ( !w.con[c] ) ch.prune(); w.con[c]->disconnect(); w.drop( c ); break;
			case 2: if ( !w.con[c] ) ch.prune(); w.con[c].reset(); w.drop( c ); break;
			case 3:
				{
					// moved into a new object
					auto d = ch.pick( SigWorld::N, "to" );
					if ( !w.con[c] || w.con[d] ) ch.prune();
					w.con[d].emplace( std::move( *w.con[c] ) );
					w.slotOf[d] = w.slotOf[c];
					w.slotOf[c] = -1;
				}
				break;
			case 4:
				{
					// moved over another object
					auto d = ch.pick( SigWorld::N, "to" );
					if ( !w.con[c] || !w.con[d] || c == d ) ch.prune();
					*w.con[d] = std::move( *w.con[c] );
					w.disconnectSlot( w.slotOf[d] );
					w.slotOf[d] = w.slotOf[c];
					w.slotOf[c] = -1;
				}
				break;
			case 5:
				if ( c ) ch.prune();
				if ( !w.sig ) ch.prune();
				w.emit();
				break;
			default:
				if ( !w.sig || i + 3 < depth ) ch.prune();
				w.sig.reset();
				for ( auto & s : w.slots ) s.connected = false;
				break;
			}
			w.valid();
		}
		if ( w.sig ) w.emit();
		w.valid();
		mc::compared();
		std::string o;
		for ( auto & s : w.slots ) o += s.connected ? 'c' : 'd';
		mc::outcome( o );
	}
	// slots which connect and disconnect while the signal is emitted
	void signalsDuring( mc::Choices & ch, int count, int emissions )
	{
		SigWorld w;
		for ( int c = 0; c < count; ++c ) w.connect( c );
		int acted = 0;
		std::set< int > done;
		w.during = [&]( int s )
			{
				if ( !done.insert( s ).second || acted > 3 ) return;  // acts once
				auto what = ch.pick( 2 + 3 * count, ( "slot " + n2( u64( s ) ) ).c_str() );
				if ( !what ) return;
				++acted;
				if ( what == 1 ) { done.erase( s ); --acted; return; }  // may act later
				auto c = ( what - 2 ) / 3;
				switch ( ( what - 2 ) % 3 )
				{
				case 0: if ( !w.con[c] ) ch.prune(); w.con[c]->disconnect(); w.drop( c ); break;
				case 1: if ( !w.con[c] ) ch.prune(); w.con[c].reset(); w.drop( c ); break;
				default: w.connect( c ); break;  // (the connection held before ends)
				}
			};
		for ( int e = 0; e < emissions; ++e )
		{
			ch.note( "emission" );
			w.emit();
			w.valid();
			std::string h;
			for ( auto & s : w.slots ) h += s.connected ? ( s.calls ? "C" : "c" ) : ( s.calls ? "D" : "d" );
			mc::state( h );
		}
		w.during = nullptr;
		w.emit();
		mc::compared();
	}
	// every slot gets the parameters which were emitted
	void signalParams( mc::Choices & ch )
	{
		auto n = 1 + ch.pick( 3, "slots" );
		auto kind = ch.pick( 4, "parameter" );
		std::vector< std::string > got;
		crg::Signal< std::function< void( std::string, int ) > > byValue;
		crg::Signal< std::function< void( std::string const &, int ) > > byRef;
		crg::Signal< std::function< void( std::string &, int ) > > inOut;
		crg::Signal< std::function< void() > > none;
		std::vector< crg::SignalConnection< crg::Signal< std::function< void( std::string, int ) > > > > c1;
		std::vector< crg::SignalConnection< crg::Signal< std::function< void( std::string const &, int ) > > > > c2;
		std::vector< crg::SignalConnection< crg::Signal< std::function< void( std::string &, int ) > > > > c3;
		std::vector< crg::SignalConnection< crg::Signal< std::function< void() > > > > c4;
		std::string const text = "a text which is long enough to be moved";
		for ( int i = 0; i < n; ++i )
		{
			c1.push_back( byValue.connect( [&]( std::string s, int v ){ got.push_back( s + n2( u64( v ) ) ); } ) );
			c2.push_back( byRef.connect( [&]( std::string const & s, int v ){ got.push_back( s + n2( u64( v ) ) ); } ) );
			c3.push_back( inOut.connect( [&]( std::string & s, int v ){ got.push_back( s + n2( u64( v ) ) ); s += "+"; } ) );
			c4.push_back( none.connect( [&]{ got.push_back( "none" ); } ) );
		}
		std::string arg = text;
		switch ( kind )
		{
		case 0: byValue( std::move( arg ), 5 ); break;
		case 1: byRef( std::move( arg ), 5 ); break;
		case 2: inOut( arg, 5 ); break;
		default: none(); break;
		}
		mc::check( int( got.size() ) == n, n2( got.size() ) + " slots are called" );
		for ( int i = 0; i < n; ++i )
		{
			std::string want = kind == 3 ? "none" : text + ( kind == 2 ? std::string( size_t( i ), '+' ) : "" ) + "5";
			mc::check( got[size_t( i )] == want, "slot " + n2( u64( i ) ) + " is given '" + got[size_t( i )] + "' instead of '" + want + "'" );
		}
		if ( kind == 2 ) mc::check( arg == text + std::string( size_t( n ), '+' ), "the caller's object isn't the one the slots change" );
		mc::step( u64( n ) );
		mc::state( n2( u64( n * 10 + kind ) ) );
		mc::compared();
	}

	//************************************************************************************************
	// M01: GPU timers
	VkPhysicalDeviceProperties props( float period )
	{
		auto r = mv::defaultProps();
		r.limits.timestampPeriod = period;
		return r;
	}
	std::unique_ptr< crg::GraphContext > context( float period )
	{
		return std::make_unique< crg::GraphContext >( mv::device(), mv::pipelineCache(), mv::allocator(), mv::defaultMemProps(), props( period ), false, &mv::getProc );
	}
	struct Elapsed { u64 begin{}, end{}; };
	u64 nanos( u64 ticks, float period ) { return u64( double( ticks ) * double( period ) ); }
	void checkTime( crg::FramePassTimer const & t, u64 ticks, float period, std::string const & what )
	{
		auto got = u64( t.getGpuTime().count() );
		auto want = nanos( ticks, period );
		mc::check( got + 1 >= want && got <= want + 1, what + ": the GPU time is " + n2( got ) + " ns instead of " + n2( want ) );
	}
	Cats const TimerCats{ "query", "life", "leak", "mem", "submit", "usage" };
	// the timers of a graph and of its passes
	void graphTimers( mc::Choices & ch, int count, int frames )
	{
		static float const periods[]{ 1.0f, 0.5f, 52.083f };
		auto period = periods[ch.pick( 3, "period" )];
		bool big = ch.flip( "long" );
		silence();
		mv::reset();
		auto ctx = context( period );
		auto other = context( period == 1.0f ? 2.0f : 1.0f );  // another device
		auto handler = std::make_unique< crg::ResourceHandler >();
		{
			crg::FrameGraph g{ *handler, "fg" };
			struct P { crg::RunnablePass * run{}; bool enabled{ true }; u64 work{}; u32 index{}; };
			std::vector< P > ps( static_cast< size_t >( count ) );
			crg::FramePass const * prev{};
			auto image = g.createImage( img( "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) );
			auto v = g.createView( view( "v", image, VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
			for ( int i = 0; i < count; ++i )
			{
				auto & fp = g.createPass( "p" + n2( u64( i ) ), [&, i]( crg::FramePass const & p, crg::GraphContext & c, crg::RunnableGraph & r )
					{
						auto & q = ps[size_t( i )];
						auto res = std::make_unique< crg::RunnablePass >( p, c, r, crg::RunnablePass::Callbacks{ []( u32 ){}
							, crg::RunnablePass::GetPipelineStateCallback( []{ return crg::getPipelineState( VK_PIPELINE_STAGE_TRANSFER_BIT ); } )
							, [&q]( crg::RecordContext &, VkCommandBuffer cb, u32 ){ mv::cmdExec( cb, "work", [&q]{ mv::w->clock += q.work; } ); }
							, crg::RunnablePass::GetPassIndexCallback( [&q]{ return q.index; } )
							, crg::RunnablePass::IsEnabledCallback( [&q]{ return q.enabled; } )
							, crg::RunnablePass::IsComputePassCallback( []{ return false; } ) }, crg::ru::Config{ 2 } );
						q.run = res.get();
						return res;
					} );
				fp.addTransferOutputView( v );
				if ( prev ) fp.addDependency( *prev );
				prev = &fp;
			}
			auto run = g.compile( *ctx );
			std::vector< u64 > last( static_cast< size_t >( count ) + 1 );  // the last run since the last retrieval
			for ( int f = 0; f < frames; ++f )
			{
				auto mask = ch.pick( 1 << count, "enabled" );
				u64 total = 10;
				for ( int i = 0; i < count; ++i )
				{
					auto & p = ps[size_t( i )];
					p.enabled = ( mask >> i ) & 1;
					p.index = u32( f & 1 );
					p.work = big ? ( 1ull << 33 ) + u64( 17 * ( i + 1 ) + f ) : u64( 1000 * ( i + 1 ) + 100 * f );
					if ( p.enabled )
					{
						last[size_t( i )] = p.work + 10;
						total += p.work + 20;  // (each time stamp takes 10)
					}
				}
				last.back() = total;
				for ( auto & s : run->run( mv::queue() ) ) mv::consumeSemaphore( s.semaphore );
				noErrors( TimerCats, "frame " + n2( u64( f ) ) );
				auto when = ch.pick( 3, "retrieve" );  // at once, when the device has finished, not at all
				if ( when == 1 ) mv::waitIdle();
				if ( when == 2 ) continue;
				for ( int i = 0; i < count; ++i )
				{
					auto & t = ps[size_t( i )].run->getTimer();
					t.retrieveGpuTime();
					checkTime( t, last[size_t( i )], period, "frame " + n2( u64( f ) ) + " pass " + n2( u64( i ) ) + ( ps[size_t( i )].enabled ? "" : " (disabled)" ) );
					last[size_t( i )] = 0;
					mc::step();
				}
				auto & t = run->getTimer();
				t.retrieveGpuTime();
				checkTime( t, last.back(), period, "frame " + n2( u64( f ) ) + ", the graph" );
				mc::state( mv::hash( u64( t.getGpuTime().count() ), u64( mask ) ) );
				if ( ch.flip( "reset" ) )
				{
					t.reset();
					mc::check( t.getGpuTime().count() == 0 && t.getCpuTime().count() == 0, "a timer which is reset has a time" );
				}
				noErrors( TimerCats, "retrieval of frame " + n2( u64( f ) ) );
			}
			mc::check( run->getTimer().getName() == "fg/Graph" && run->getTimer().getScope() == crg::TimerScope::eGraph, "the graph's timer has another name or scope" );
			for ( auto & p : ps ) mc::check( p.run->getTimer().getScope() == crg::TimerScope::ePass, "a pass's timer has another scope" );
			mv::waitIdle();
		}
		handler.reset();
		ctx.reset();
		other.reset();
		mv::checkLeaks();
		noErrors( TimerCats, "at the end" );
		mc::compared();
	}
	// timers of the user, with a pool of their own or sharing one, on two devices
	void userTimers( mc::Choices & ch, int depth )
	{
		silence();
		mv::reset();
		float const period[2]{ 1.0f, 4.0f };
		std::unique_ptr< crg::GraphContext > ctx[2]{ context( period[0] ), context( period[1] ) };
		VkQueryPool pool{};
		VkCommandPool cmdPool{};
		{
			mv::HarnessScope hs;
			VkQueryPoolCreateInfo ci{ VK_STRUCTURE_TYPE_QUERY_POOL_CREATE_INFO, nullptr, 0, VK_QUERY_TYPE_TIMESTAMP, 12, 0 };
			ctx[0]->vkCreateQueryPool( ctx[0]->device, &ci, mv::allocator(), &pool );
			VkCommandPoolCreateInfo pi{ VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, nullptr, 0, 0 };
			ctx[0]->vkCreateCommandPool( ctx[0]->device, &pi, mv::allocator(), &cmdPool );
		}
		{
			u32 offset = 0;
			int destroyed = 0;
			using C = crg::OnFramePassDestroyConnection;
			std::vector< C > cons;
			std::vector< std::unique_ptr< crg::FramePassTimer > > t;
			static int const kinds[3][2]{ { 0, 0 }, { 0, 1 }, { 1, 2 } };  // shared pool, own pool, own pool of the other device
			auto k = ch.pick( 3, "timers" );
			for ( auto kind : kinds[k] )
			{
				if ( kind == 0 ) t.push_back( std::make_unique< crg::FramePassTimer >( *ctx[0], "t", crg::TimerScope::eUpdate, pool, offset ) );
				else t.push_back( std::make_unique< crg::FramePassTimer >( *ctx[kind - 1], "t", crg::TimerScope::eUpdate ) );
				cons.push_back( t.back()->onDestroy.connect( [&destroyed, p = t.back().get()]( crg::FramePassTimer & x ){ ++destroyed; mc::check( &x == p, "another timer is destroyed" ); } ) );
			}
			auto per = [&]( size_t i ) { return period[kinds[k][i] == 2 ? 1 : 0]; };
			std::vector< u64 > last( 2 );
			for ( int d = 0; d < depth; ++d )
			{
				auto op = ch.pick( 6, "operation" );
				mc::step();
				mc::state( mv::hash( u64( op + 10 * k ), mv::hash( last[0], last[1] ) ) );
				if ( op < 3 )
				{
					// both (2), or one of them, around some work
					VkCommandBuffer cb{};
					{
						mv::HarnessScope hs;
						VkCommandBufferAllocateInfo ai{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, cmdPool, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1 };
						ctx[0]->vkAllocateCommandBuffers( ctx[0]->device, &ai, &cb );
					}
					VkCommandBufferBeginInfo bi{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, nullptr, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT, nullptr };
					ctx[0]->vkBeginCommandBuffer( cb, &bi );
					u64 work = u64( 100 * ( d + 1 ) );
					if ( op != 1 ) { auto b = t[0]->start(); t[0]->beginPass( cb ); }
					if ( op != 0 ) { auto b = t[1]->start(); t[1]->beginPass( cb ); }
					mv::cmdExec( cb, "work", [work]{ mv::w->clock += work; } );
					if ( op != 0 ) t[1]->endPass( cb );
					if ( op != 1 ) t[0]->endPass( cb );
					ctx[0]->vkEndCommandBuffer( cb );
					if ( op != 1 ) { t[0]->notifyPassRender(); last[0] = work + ( op == 2 ? 30 : 10 ); }
					if ( op != 0 ) { t[1]->notifyPassRender(); last[1] = work + 10; }
					VkSubmitInfo si{ VK_STRUCTURE_TYPE_SUBMIT_INFO, nullptr, 0, nullptr, nullptr, 1, &cb, 0, nullptr };
					ctx[0]->vkQueueSubmit( mv::queue(), 1, &si, VkFence{} );
				}
				else if ( op < 5 )
				{
					auto i = size_t( op - 3 );
					t[i]->retrieveGpuTime();
					checkTime( *t[i], last[i], per( i ), "timer " + n2( i ) );
					last[i] = 0;
				}
				else
				{
					t[0]->reset();
					mc::check( t[0]->getGpuTime().count() == 0, "a timer which is reset has a time" );
				}
				noErrors( TimerCats, "operation " + n2( u64( d ) ) );
			}
			mv::waitIdle();
			t.clear();
			mc::check( destroyed == 2, "the end of the timers is notified " + n2( u64( destroyed ) ) + " times" );
			for ( auto & c : cons ) mc::check( !c.isValid(), "a connection outlives its timer" );
		}
		for ( auto & c : ctx ) c.reset();
		mv::checkLeaks();
		noErrors( TimerCats, "at the end" );
		mc::compared();
	}

	//************************************************************************************************
	// T01: tables of layout states, against a map of the subresources
	struct Tab
	{
		using Key = std::tuple< int, u32, u32 >;  // image, layer or slice, level
		std::map< Key, crg::LayoutState > m;
	};
	struct TabRange { int image; VkImageViewType type; VkImageSubresourceRange r; };
	std::vector< Tab::Key > keysOf( TabRange const & t, u32 depth )
	{
		std::vector< Tab::Key > k;
		for ( u32 l = t.r.baseMipLevel; l < t.r.baseMipLevel + t.r.levelCount; ++l )
		{
			if ( t.type == VK_IMAGE_VIEW_TYPE_3D )
				for ( u32 s = 0; s < std::max( 1u, depth >> l ); ++s ) k.emplace_back( t.image, s, l );
			else
				for ( u32 a = t.r.baseArrayLayer; a < t.r.baseArrayLayer + t.r.layerCount; ++a ) k.emplace_back( t.image, a, l );
		}
		return k;
	}
	bool same( crg::LayoutState const & a, crg::LayoutState const & b ) { return a.layout == b.layout && a.state.access == b.state.access && a.state.pipelineStage == b.state.pipelineStage; }
	std::string lstr( crg::LayoutState const & a ) { return str( a.layout ) + "/" + n2( a.state.access ) + "/" + n2( a.state.pipelineStage ); }
	void tables( mc::Choices & ch, int depth )
	{
		static crg::LayoutState const states[]{ { VK_IMAGE_LAYOUT_GENERAL, { VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } }
			, { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, { VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT } }
			, { VK_IMAGE_LAYOUT_GENERAL, { VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } } };
		Env env;
		crg::ImageId image[2]{ env.handler->createImageId( img( "a", VK_FORMAT_R8G8B8A8_UNORM, 8, 8, 3, 3 ) )
			, env.handler->createImageId( img( "b", VK_FORMAT_R8G8B8A8_UNORM, 8, 8, 3, 1, VK_IMAGE_TYPE_3D, 4 ) ) };
		u32 const C = VK_IMAGE_ASPECT_COLOR_BIT;
		std::vector< TabRange > const ranges{
			{ 0, VK_IMAGE_VIEW_TYPE_2D, { C, 0, 1, 0, 1 } }, { 0, VK_IMAGE_VIEW_TYPE_2D, { C, 1, 1, 1, 1 } }, { 0, VK_IMAGE_VIEW_TYPE_2D, { C, 1, 2, 2, 1 } }
			, { 0, VK_IMAGE_VIEW_TYPE_2D_ARRAY, { C, 0, 3, 0, 3 } }, { 0, VK_IMAGE_VIEW_TYPE_2D_ARRAY, { C, 2, 1, 1, 2 } }
			, { 1, VK_IMAGE_VIEW_TYPE_3D, { C, 0, 1, 0, 1 } }, { 1, VK_IMAGE_VIEW_TYPE_3D, { C, 1, 2, 0, 1 } }, { 1, VK_IMAGE_VIEW_TYPE_3D, { C, 0, 3, 0, 1 } }
			, { 1, VK_IMAGE_VIEW_TYPE_2D, { C, 0, 1, 1, 1 } }, { 1, VK_IMAGE_VIEW_TYPE_2D_ARRAY, { C, 0, 1, 2, 2 } } };
		// the table is asked about all the ranges
		static std::vector< TabRange > const asked = [C]
			{
				std::vector< TabRange > r;
				for ( u32 m = 0; m < 3; ++m ) for ( u32 k = 1; m + k <= 3; ++k )
				{
					for ( u32 l = 0; l < 3; ++l ) for ( u32 n = 1; l + n <= 3; ++n ) r.push_back( { 0, n > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, { C, m, k, l, n } } );
					r.push_back( { 1, VK_IMAGE_VIEW_TYPE_3D, { C, m, k, 0, 1 } } );
					if ( k == 1 ) for ( u32 l = 0; l < 4u >> m; ++l ) for ( u32 n = 1; l + n <= 4u >> m; ++n ) r.push_back( { 1, n > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, { C, m, 1, l, n } } );
				}
				return r;
			}();
		crg::LayerLayoutStatesHandler h[2];
		Tab t[2];
		auto const depth3 = 4u;
		std::vector< Tab::Key > k;
		for ( int d = 0; d < depth; ++d )
		{
			auto op = ch.pick( 5, "operation" );
			mc::step();
			if ( op < 2 )
			{
				auto & r = ranges[size_t( ch.pick( int( ranges.size() ), "range" ) )];
				auto & s = states[ch.pick( 3, "state" )];
				if ( ( u32( d ) + r.r.baseMipLevel ) % 2 )
					h[op].setLayoutState( image[r.image], r.type, r.r, s );
				else
					h[op].setLayoutState( env.handler->createViewId( view( "v", image[r.image], r.type, r.r.baseMipLevel, r.r.levelCount, r.r.baseArrayLayer, r.r.layerCount ) ), s );
				for ( auto & x : keysOf( r, depth3 ) ) t[op].m[x] = s;
			}
			else if ( op == 2 )
			{
				h[0].addStates( h[1] );
				for ( auto & [x, s] : t[1].m ) t[0].m.emplace( x, s );
			}
			else if ( op == 3 )
			{
				auto & r = ranges[size_t( ch.pick( int( ranges.size() ), "range" ) )];
				h[0].addStates( h[1], image[r.image], r.type, r.r );
				for ( auto & x : keysOf( r, depth3 ) )
					if ( auto it = t[1].m.find( x ); it != t[1].m.end() ) t[0].m.emplace( x, it->second );
			}
			else
			{
				h[1] = crg::LayerLayoutStatesHandler{ h[0].images };
				t[1].m = t[0].m;
			}
		}
		std::string o;
		for ( int i = 0; i < 2; ++i )
			for ( auto & r : asked )
			{
				auto got = ch.m_replay || ( r.r.layerCount & 1 ) ? h[i].getLayoutState( image[r.image], r.type, r.r )
					: h[i].getLayoutState( env.handler->createViewId( view( "v", image[r.image], r.type, r.r.baseMipLevel, r.r.levelCount, r.r.baseArrayLayer, r.r.layerCount ) ) );
				std::set< VkImageLayout > layouts;
				crg::PipelineState all{};
				for ( auto & x : keysOf( r, depth3 ) )
					if ( auto it = t[i].m.find( x ); it != t[i].m.end() )
					{
						layouts.insert( it->second.layout );
						all.access |= it->second.state.access;
						all.pipelineStage |= it->second.state.pipelineStage;
					}
				auto what = "table " + n2( u64( i ) ) + " image " + n2( u64( r.image ) ) + " type " + n2( r.type ) + " levels " + n2( r.r.baseMipLevel ) + "+" + n2( r.r.levelCount ) + " layers " + n2( r.r.baseArrayLayer ) + "+" + n2( r.r.layerCount );
				if ( layouts.empty() )
					mc::check( got.layout == VK_IMAGE_LAYOUT_UNDEFINED, what + ": unknown, but said to be " + lstr( got ) );
				else
				{
					mc::check( layouts.count( got.layout ), what + ": said to be in " + lstr( got ) + ", in which no part of it is" );
					mc::check( got.state.access == all.access && got.state.pipelineStage == all.pipelineStage, what + ": the accesses are said to be " + lstr( got ) + " instead of " + n2( all.access ) + "/" + n2( all.pipelineStage ) );
				}
				o += lstr( got ) + ";";
			}
		mc::state( o );
		mc::compared();
	}

	//************************************************************************************************
	// B01: barriers made by the user while a pass is recorded
	struct Access { VkImageLayout layout; VkPipelineStageFlags stage; VkAccessFlags access; bool write; };
	Access const accesses[]{
		{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true },
		{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_ACCESS_SHADER_READ_BIT, false },
		{ VK_IMAGE_LAYOUT_GENERAL, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_ACCESS_SHADER_WRITE_BIT, true },
		{ VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false },
	};
	struct UserOp { int view; int access; int how; };
	// how: 0 view, 1 image and range, 2 image, type and range, 3..5 the same, forced, 6..8 with an initial layout, 9 the user's own barrier
	void userBarriers( mc::Choices & ch, int count, int frames, bool d3, bool wide )
	{
		fr::World w{ fr::Layouts | fr::Contents | fr::Sync };
		bool filled = ch.flip( "filled" );
		if ( d3 )
		{
			fr::Img r;
			r.id = w.graph->createImage( img( "a", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 1, VK_IMAGE_TYPE_3D, 2 ) );
			r.views.push_back( w.graph->createView( view( "v0", r.id, VK_IMAGE_VIEW_TYPE_3D, 0, 2, 0, 1 ) ) );
			r.views.push_back( w.graph->createView( view( "v1", r.id, VK_IMAGE_VIEW_TYPE_3D, 1, 1, 0, 1 ) ) );
			r.views.push_back( w.graph->createView( view( "v2", r.id, VK_IMAGE_VIEW_TYPE_3D, 0, 1, 0, 1 ) ) );
			w.images.push_back( r );
		}
		else
			fr::colourImage( w, "a", 2, 2, { { 0, 2, 0, 2 }, { 1, 1, 1, 1 }, { 0, 1, 0, 2 } } );
		fr::colourImage( w, "b", 1, 1, { { 0, 1, 0, 1 } } );
		auto add = [&]( std::string n, int which, std::vector< fr::Kind > const & kinds, bool compute )
			{
				fr::Ps p;
				p.name = n;
				p.compute = compute;
				if ( which ) p.at.push_back( { 0, { ( which - 1 ) % 3 }, kinds[size_t( ( which - 1 ) / 3 )] } );
				else p.at.push_back( { 1, { 0 }, fr::Ot } );
				w.passes.push_back( p );
			};
		// what the graph knows: nothing before, the pass before writes all or a part of it
		static int const befores[]{ 0, 1, 2, 4 }, afters[]{ 0, 1, 5, 6 }, selfs[]{ 0, 2, 4, 6 };
		add( "W", befores[ch.pick( 4, "before" )], { fr::Ot, fr::OStr }, true );
		add( "U", selfs[ch.pick( wide ? 4 : 2, "self" )], { fr::It, fr::Spl }, false );
		add( "R", afters[ch.pick( wide ? 4 : 3, "after" )], { fr::Spl, fr::It }, false );
		std::vector< UserOp > ops;
		for ( int i = 0; i < count; ++i )
		{
			static int const few[2][4]{ { 0, 4, 6, 9 }, { 1, 4, 7, 9 } };
			UserOp o{ ch.pick( 3, "view" ), ch.pick( 4, "access" ), wide ? ch.pick( 10, "how" ) : few[d3][ch.pick( 4, "how" )] };
			if ( o.how >= 6 && o.how < 9 && !filled ) ch.prune();
			ops.push_back( o );
		}
		auto image = w.images[0].id;
		auto isStored = [&]( fr::Ps const & p ) { for ( auto & a : p.at ) if ( a.image == 0 ) return true; return false; };
		bool declared = false;
		for ( auto & p : w.passes ) declared = declared || isStored( p );
		if ( filled )
		{
			// filled once by the outside, before the first frame, in a layout which the graph is told of with the barriers
			bool first = !isStored( w.passes[0] ) && !isStored( w.passes[1] );
			for ( auto & o : ops ) first = first && o.how >= 6 && o.how < 9;
			if ( !first ) ch.prune();
		}
		VkImageLayout const initial = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		w.passes[1].user = [&]( crg::RecordContext & c, VkCommandBuffer cb, u32 )
			{
				int n = 0;
				for ( auto & o : ops )
				{
					auto v = w.images[0].views[size_t( o.view )];
					auto & a = accesses[o.access];
					crg::LayoutState want{ a.layout, { a.access, a.stage } };
					auto r = v.data->info.subresourceRange;
					auto t = v.data->info.viewType;
					// what is said of each level and layer, or slice
					auto part = [&]( u32 level, u32 layer ) { return c.getLayoutState( image, VK_IMAGE_VIEW_TYPE_2D, { r.aspectMask, level, 1, layer, 1 } ); };
					auto in = [&]( u32 level, u32 layer ) { return level >= r.baseMipLevel && level < r.baseMipLevel + r.levelCount && ( d3 || ( layer >= r.baseArrayLayer && layer < r.baseArrayLayer + r.layerCount ) ); };
					std::map< std::pair< u32, u32 >, crg::LayoutState > before;
					for ( u32 m = 0; m < 2; ++m ) for ( u32 l = 0; l < ( d3 ? 2u >> m : 2u ); ++l ) before[{ m, l }] = part( m, l );
					bool flat = VkImageViewType( image.data->info.imageType ) == t || t == VK_IMAGE_VIEW_TYPE_2D_ARRAY;
					switch ( o.how )
					{
					case 0: c.memoryBarrier( cb, v, want ); break;
					case 1: if ( flat ) c.memoryBarrier( cb, image, r, want ); break;
					case 2: c.memoryBarrier( cb, image, t, r, want ); break;
					case 3: c.memoryBarrier( cb, v, want, true ); break;
					case 4: c.memoryBarrier( cb, image, r, want, true ); break;
					case 5: c.memoryBarrier( cb, image, t, r, want, true ); break;
					case 6: c.memoryBarrier( cb, v, initial, want ); break;
					case 7: c.memoryBarrier( cb, image, r, initial, want ); break;
					case 8: c.memoryBarrier( cb, image, t, r, initial, want ); break;
					default:
						{
							// everything waits for everything; the old layout is the one the graph says
							for ( u32 m = 0; m < r.levelCount; ++m )
								for ( u32 l = 0; l < r.layerCount; ++l )
								{
									VkImageSubresourceRange part{ r.aspectMask, r.baseMipLevel + m, 1, r.baseArrayLayer + l, 1 };
									auto from = c.getLayoutState( image, t, part );
									VkImageMemoryBarrier b{ VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER, nullptr, VK_ACCESS_MEMORY_WRITE_BIT, VK_ACCESS_MEMORY_READ_BIT | VK_ACCESS_MEMORY_WRITE_BIT, from.layout, a.layout, VK_QUEUE_FAMILY_IGNORED, VK_QUEUE_FAMILY_IGNORED, w.device( 0 ), part };
									c.getContext().vkCmdPipelineBarrier( cb, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, 0, 0, nullptr, 0, nullptr, 1, &b );
								}
							c.setLayoutState( v, want );
						}
						break;
					}
					auto told = c.getLayoutState( v );
					mc::check( told.layout == a.layout, "barrier " + n2( u64( n ) ) + ": the view is said to be in " + str( told.layout ) + " instead of " + str( a.layout ) );
					if ( o.how != 1 || flat )
						for ( auto & [k, was] : before )
						{
							auto now = part( k.first, k.second );
							auto what = "barrier " + n2( u64( n ) ) + ": level " + n2( k.first ) + ( d3 ? " slice " : " layer " ) + n2( k.second ) + " is said to be in ";
							if ( in( k.first, k.second ) ) mc::check( now.layout == a.layout, what + str( now.layout ) + " instead of " + str( a.layout ) );
							else mc::check( now.layout == was.layout, what + str( now.layout ) + " instead of " + str( was.layout ) + ", where it still is" );
						}
					mc::step();
					mv::cmdExec( cb, "access", [&w, &o, n, image]
						{
							auto & a = accesses[o.access];
							auto & im = devImage( w.device( 0 ) );
							auto r = w.physRange( { 0, { o.view }, fr::It }, 0 );
							for ( auto k : mv::subsOf( im, r ) )
							{
								auto & s = im.subs[k];
								auto what = w.where + ": barrier " + n2( u64( n ) ) + " " + fr::World::kstr( k );
								mc::check( s.layout == a.layout, what + ": the image is in layout " + str( s.layout ) + " instead of " + str( a.layout ) );
								if ( auto it = w.ref.find( { 0, k } ); it != w.ref.end() )
									for ( auto x : s.texels ) mc::check( x == it->second, what + ( x == mv::UNDEF ? ": the contents were discarded" : ": the contents are not the ones last written" ) );
								mv::syncImage( mv::h( w.device( 0 ) ), k, a.stage, a.access, a.write, "access " + n2( u64( n ) ) );
								w.used[0][0].insert( k );
								if ( a.write )
								{
									auto x = fr::World::token( 50 + n, 0, w.frame, 0, k, im.info.format );
									std::fill( s.texels.begin(), s.texels.end(), x );
									w.ref[{ 0, k }] = x;
								}
								mc::step();
							}
						} );
					++n;
				}
			};
		for ( auto & o : ops ) ch.note( "view " + n2( u64( o.view ) ) + " access " + n2( u64( o.access ) ) + " how " + n2( u64( o.how ) ) );
		w.note( ch );
		w.build();
		w.compile();
		if ( filled )
		{
			auto & im = devImage( VkImage( w.env.handler->createImage( *w.env.ctx, image ).first ) );
			for ( auto k : mv::subsOf( im, { VK_IMAGE_ASPECT_COLOR_BIT, 0, 2, 0, d3 ? 1u : 2u } ) )
			{
				auto t = fr::World::token( 99, 0, 0, 0, k, im.info.format );
				im.subs[k].layout = initial;
				std::fill( im.subs[k].texels.begin(), im.subs[k].texels.end(), t );
				// (the graph is told of the ones the barriers name only)
				for ( auto & o : ops )
					for ( auto x : mv::subsOf( im, w.physRange( { 0, { o.view }, fr::It }, 0 ) ) )
						if ( !( x < k ) && !( k < x ) ) w.ref[{ 0, k }] = t;
			}
		}
		for ( int f = 0; f < frames; ++f )
		{
			w.run();
			// what no one of the graph knows of is no one's concern
		}
		w.finish();
	}
	// the same for buffers
	struct BufUse { int kind; VkDeviceSize off, size; };
	void userBufferBarriers( mc::Choices & ch, int count, int frames )
	{
		Env env;
		mv::w->syncCheck = true;
		auto raw = mv::makeBuffer( 64 );
		crg::Buffer buffer{ raw, "buffer" };
		crg::FrameGraph g{ *env.handler, "fg" };
		// 0 nothing, 1 transfer output, 2 storage output, 3 uniform, 4 transfer input, 5 storage input, 6 in-out storage
		static BufUse const uses[]{ { 0, 0, 64 }, { 1, 0, 64 }, { 2, 0, 64 }, { 3, 0, 32 }, { 4, 0, 64 }, { 5, 32, 32 }, { 6, 0, 64 } };
		static int const who[3][4]{ { 0, 1, 2, 6 }, { 0, 3, 4, 5 }, { 0, 3, 5, 1 } };
		struct Op { int access, how; bool part; };
		std::vector< Op > ops;
		int use[3];
		for ( int i = 0; i < 3; ++i ) use[i] = who[i][ch.pick( 4, i == 0 ? "before" : i == 1 ? "self" : "after" )];
		for ( int i = 0; i < count; ++i )
		{
			ops.push_back( { ch.pick( 4, "access" ), ch.pick( 3, "how" ), false } );
			ops.back().part = ch.flip( "part" );
		}
		bool compute[3]{ true, false, ch.flip( "compute" ) };
		std::string where;
		struct Acc { VkPipelineStageFlags stage; VkAccessFlags access; bool write; };
		static Acc const accs[]{ { VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true }, { VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_ACCESS_SHADER_READ_BIT, false }
			, { VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_ACCESS_SHADER_WRITE_BIT, true }, { VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false } };
		crg::FramePass const * prev{};
		std::vector< u64 > order;
		for ( int i = 0; i < 3; ++i )
		{
			auto & fp = g.createPass( "p" + n2( u64( i ) ), [&, i]( crg::FramePass const & p, crg::GraphContext & c, crg::RunnableGraph & r )
				{
					return std::make_unique< crg::RunnablePass >( p, c, r, crg::RunnablePass::Callbacks{ []( u32 ){}
						, crg::RunnablePass::GetPipelineStateCallback( [&, i]{ return crg::getPipelineState( compute[i] ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ); } )
						, [&, i]( crg::RecordContext & rc, VkCommandBuffer cb, u32 )
						{
							auto u = uses[use[i]];
							mv::cmdExec( cb, "work", [&, i, u]
								{
									auto shader = VkPipelineStageFlags( compute[i] ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
									auto at = [&]( VkPipelineStageFlags s, VkAccessFlags a, bool w ){ mc::step(); mv::syncBuffer( mv::h( raw ), u.off, u.size, s, a, w, "pass " + n2( u64( i ) ) ); };
									switch ( u.kind )
									{
									case 1: at( VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true ); break;
									case 2: at( shader, VK_ACCESS_SHADER_WRITE_BIT, true ); break;
									case 3: at( shader, VK_ACCESS_UNIFORM_READ_BIT, false ); break;
									case 4: at( VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false ); break;
									case 5: at( shader, VK_ACCESS_SHADER_READ_BIT, false ); break;
									case 6: at( shader, VK_ACCESS_SHADER_READ_BIT, false ); at( shader, VK_ACCESS_SHADER_WRITE_BIT, true ); break;
									default: break;
									}
								} );
							if ( i != 1 ) return;
							for ( auto & o : ops )
							{
								auto & a = accs[o.access];
								crg::AccessState want{ a.access, a.stage };
								crg::BufferSubresourceRange r{ o.part ? 32u : 0u, o.part ? 32u : VkDeviceSize( VK_WHOLE_SIZE ) };
								if ( o.how == 0 ) rc.memoryBarrier( cb, raw, r, want );
								else if ( o.how == 1 ) rc.memoryBarrier( cb, raw, r, want, true );
								else rc.memoryBarrier( cb, raw, r, VK_ACCESS_MEMORY_WRITE_BIT, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, want );
								auto told = rc.getAccessState( raw, r );
								mc::check( told.access == want.access && told.pipelineStage == want.pipelineStage, "after the barrier, the buffer is said to be accessed with " + n2( told.access ) + "/" + n2( told.pipelineStage ) );
								mv::cmdExec( cb, "access", [&, o]{ mc::step(); mv::syncBuffer( mv::h( raw ), o.part ? 32 : 0, o.part ? 32 : 64, accs[o.access].stage, accs[o.access].access, accs[o.access].write, "the access after a barrier of the user" ); } );
							}
						}
						, crg::RunnablePass::GetPassIndexCallback( []{ return 0u; } )
						, crg::RunnablePass::IsEnabledCallback( []{ return true; } )
						, crg::RunnablePass::IsComputePassCallback( [&, i]{ return compute[i]; } ) }, crg::ru::Config{} );
				} );
			auto u = uses[use[i]];
			switch ( u.kind )
			{
			case 1: fp.addTransferOutputBuffer( buffer, u.off, u.size ); break;
			case 2: fp.addOutputStorageBuffer( buffer, 0, u.off, u.size ); break;
			case 3: fp.addUniformBuffer( buffer, 0, u.off, u.size ); break;
			case 4: fp.addTransferInputBuffer( buffer, u.off, u.size ); break;
			case 5: fp.addInputStorageBuffer( buffer, 0, u.off, u.size ); break;
			case 6: fp.addInOutStorageBuffer( buffer, 0, u.off, u.size ); break;
			default: break;
			}
			if ( prev ) fp.addDependency( *prev );
			prev = &fp;
		}
		for ( auto & o : ops ) ch.note( "access " + n2( u64( o.access ) ) + " how " + n2( u64( o.how ) ) + ( o.part ? " part" : "" ) );
		auto run = g.compile( *env.ctx );
		for ( int f = 0; f < frames; ++f )
		{
			for ( auto & s : run->run( mv::queue() ) ) mv::consumeSemaphore( s.semaphore );
			noErrors( { "hazard", "sync" }, "frame " + n2( u64( f ) ) );
			auto & b = mv::w->buffers.at( mv::h( raw ) );
			std::string h;
			for ( auto & [o, s] : b.sync ) h += n2( o ) + ":" + n2( s.wStage ) + "/" + n2( s.ordered ) + "/" + n2( s.reads.size() ) + " ";
			mc::state( h + n2( u64( use[0] * 100 + use[1] * 10 + use[2] ) ) );
		}
		mv::waitIdle();
		run.reset();
		mc::compared();
	}
}

int main( int argc, char ** argv )
{
	for ( int i = 1; i + 1 < argc; ++i ) if ( std::string{ argv[i] } == "--tier" ) mc::setTier( argv[i + 1] );
	auto t = mc::thorough(), dp = mc::deeper();
	return mc::mainLoop( argc, argv, {
		{ "N01", {
			{ "histories", [=]( mc::Choices & c ){ signals( c, t ? 8 : 7 ); }, 5 },
			{ "during emission, two", [=]( mc::Choices & c ){ signalsDuring( c, 2, t ? 5 : 4 ); }, 4 },
			{ "during emission, three", [=]( mc::Choices & c ){ signalsDuring( c, 3, t ? 3 : 2 ); }, 4 },
			{ "parameters", signalParams, 1 } } },
		{ "M01", {
			{ "graph, one pass", [=]( mc::Choices & c ){ graphTimers( c, 1, t ? 5 : 4 ); }, 5 },
			{ "graph, two passes", [=]( mc::Choices & c ){ graphTimers( c, 2, t ? 4 : 3 ); }, 5 },
			{ "graph, three passes", [=]( mc::Choices & c ){ graphTimers( c, 3, t ? 3 : 2 ); }, 5 },
			{ "user", [=]( mc::Choices & c ){ userTimers( c, t ? 7 : 6 ); }, 4 } } },
		{ "T01", { { "tables", [=]( mc::Choices & c ){ tables( c, t ? 4 : 3 ); }, 3 } } },
		{ "B01", {
			{ "one barrier", [=]( mc::Choices & c ){ userBarriers( c, 1, 3, false, true ); }, 6 },
			{ "two barriers", [=]( mc::Choices & c ){ userBarriers( c, 2, dp ? 3 : 2, false, true ); }, 6 },
			{ "buffers", [=]( mc::Choices & c ){ userBufferBarriers( c, t ? 3 : 2, 2 ); }, 6 },
			{ "volume", [=]( mc::Choices & c ){ userBarriers( c, 2, 2, true, t ); }, 6 },
			{ "three barriers", [=]( mc::Choices & c ){ if ( !t ) c.prune(); userBarriers( c, 3, 2, false, false ); }, 8 } } },
	} );
}
