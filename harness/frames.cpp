#include "frames.hpp"
using namespace fr;

namespace
{
	std::vector< Kind > const colour{ Spl, Impl, IStr, OStr, COStr, IOStr, It, Ot, IOt, Ic, Oc, IOc };
	using Views = std::vector< std::array< u32, 4 > >;
	Views const V4{ { 0, 1, 0, 1 }, { 0, 1, 0, 2 }, { 1, 1, 1, 1 }, { 0, 2, 0, 2 } };
	Views const V3{ { 0, 1, 0, 1 }, { 0, 1, 0, 2 }, { 0, 2, 0, 2 } };
	Views const V1{ { 0, 1, 0, 1 } };

	// what an attachment of a pass is chosen from
	struct Slot
	{
		int image;
		std::vector< Kind > kinds;
		std::vector< std::vector< int > > views;
		bool optional{};
	};
	// a family of graphs: a chain of passes
	struct Family
	{
		std::function< void( World &, mc::Choices & ) > images;
		int n;
		std::vector< Slot > slots;
		int frames{ 2 };
		u32 maxCount{ 1u };
		bool allEnabled{};
		bool again{};   // the graph may be compiled again between two frames
		bool rerecord{};   // passes may be recorded again on their own between two frames
		bool separate{};   // the device has separate layouts for depth and stencil
		std::vector< VkImageLayout > implicits{};  // what the implicit attachments want
	};
	bool fits( World & w, Kind k, int image, std::vector< int > const & views )
	{
		for ( auto v : views )
		{
			auto & d = *w.images[size_t( image )].views[size_t( v )].data;
			auto asp = d.info.subresourceRange.aspectMask;
			auto fmt = d.info.format;
			bool col = crg::isColourFormat( fmt ), dep = ( asp & VK_IMAGE_ASPECT_DEPTH_BIT ) != 0, ste = ( asp & VK_IMAGE_ASPECT_STENCIL_BIT ) != 0;
			if ( isRP( k ) && d.info.subresourceRange.levelCount > 1 ) return false;
			if ( isRP( k ) && d.info.viewType == VK_IMAGE_VIEW_TYPE_3D ) return false;
			if ( isColourRP( k ) && !col ) return false;
			if ( ( k == Id || k == Od || k == IOd ) && !( dep && !ste ) ) return false;
			if ( ( k == Ids || k == Ods || k == IOds ) && !( dep && ste ) ) return false;
			if ( ( k == Is || k == Os || k == IOs ) && !( !dep && ste ) ) return false;
			if ( ( k == IStr || k == OStr || k == COStr || k == IOStr ) && !col ) return false;
		}
		return true;
	}
	void family( mc::Choices & ch, int what, Family const & f )
	{
		World w{ what, f.separate };
		f.images( w, ch );
		for ( int i = 0; i < f.n; ++i )
		{
			Ps p;
			p.name = std::string( 1, char( 'A' + i ) );
			p.maxCount = f.maxCount;
			p.resettable = f.rerecord;
			for ( auto & s : f.slots )
			{
				auto n = int( s.kinds.size() );
				auto k = ch.pick( n + ( s.optional ? 1 : 0 ), "kind" );
				if ( k == n ) continue;
				auto & v = ch.of( s.views, "views" );
				if ( !fits( w, s.kinds[size_t( k )], s.image, v ) ) ch.prune();
				p.at.push_back( { s.image, v, s.kinds[size_t( k )] } );
			}
			if ( p.at.empty() ) ch.prune();
			if ( !f.implicits.empty() )
				for ( auto & a : p.at ) { if ( a.kind == Impl ) a.implicit = ch.of( f.implicits, "implicit layout" ); }
			else if ( what & Sync ) for ( auto & a : p.at ) a.implicit = VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
			auto shader = [&p]{ for ( auto & a : p.at ) if ( a.kind <= IOStr && a.kind != Impl ) return true; return false; };
			if ( ( what & Sync ) && !p.rp() && shader() )
				p.compute = ch.flip( "compute" );
			w.passes.push_back( p );
		}
		w.note( ch );
		w.build();
		// images which exist outside of the graph keep their contents and layouts
		std::unique_ptr< crg::ResourcesCache > outside;
		if ( f.again && ch.flip( "images exist before" ) )
		{
			outside = std::make_unique< crg::ResourcesCache >( *w.env.handler );
			for ( auto & i : w.images ) outside->createImage( *w.env.ctx, i.id );
		}
		w.compile();
		for ( int i = 0; i < f.frames; ++i )
		{
			if ( f.again && i && ch.flip( "compile again" ) )
			{
				ch.note( "the graph is compiled again" );
				w.again( outside != nullptr );
			}
			for ( auto & p : w.passes )
			{
				p.enabled = f.allEnabled || ch.pick( 2, "enabled" ) == 0;
				p.index = p.enabled && f.maxCount > 1 ? u32( ch.pick( int( f.maxCount ), "index" ) ) : 0u;
			}
			w.noteMask( ch );
			w.run();
			if ( f.rerecord )
				if ( auto e = ch.pick( 1 + 2 * f.n, "recorded again" ) )
				{
					ch.note( "pass " + w.passes[size_t( ( e - 1 ) / 2 )].name + ( e % 2 ? " is recorded again" : " is reset and recorded again" ) );
					w.recordAgain( ( e - 1 ) / 2, e % 2 == 0 );
				}
		}
		if ( outside )
		{
			mv::waitIdle();
			w.runnables.clear();
			outside.reset();
		}
		w.finish();
	}
	std::vector< std::vector< int > > each( size_t n )
	{
		std::vector< std::vector< int > > r;
		for ( size_t i = 0; i < n; ++i ) r.push_back( { int( i ) } );
		return r;
	}
	Family chain( int n, std::vector< Kind > kinds, Views views, int frames = 2 )
	{
		return { [views]( World & w, mc::Choices & ){ colourImage( w, "a", 2, 2, views ); }, n, { { 0, kinds, each( views.size() ) } }, frames };
	}
	Family recompiled( Family f )
	{
		f.again = true;
		return f;
	}
	// two images, each pass may use both
	Family pairs( int n, std::vector< Kind > kinds, int frames )
	{
		return { []( World & w, mc::Choices & ){ colourImage( w, "a", 1, 1, V1 ); colourImage( w, "b", 1, 1, V1 ); }, n
			, { { 0, kinds, { { 0 } }, true }, { 1, kinds, { { 0 } }, true } }, frames };
	}
	Family recordedAgain( Family f )
	{
		f.rerecord = true;
		return f;
	}
	Family depth( VkFormat fmt, std::vector< VkImageAspectFlags > aspects, int n, std::vector< Kind > kinds, int frames )
	{
		return { [fmt, aspects]( World & w, mc::Choices & )
			{
				Img r;
				r.id = w.graph->createImage( img( "d", fmt, 4, 4, 1, 2 ) );
				for ( auto a : aspects )
					for ( u32 l = 1; l <= 2; ++l )
						r.views.push_back( w.graph->createView( view( "dv" + std::to_string( a ) + "l" + std::to_string( l ), r.id, l > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, l, a ) ) );
				w.images.push_back( r );
			}, n, { { 0, kinds, each( aspects.size() * 2 ) } }, frames };
	}
	Family volume( int n, std::vector< Kind > kinds, int frames )
	{
		return { []( World & w, mc::Choices & )
			{
				Img r;
				r.id = w.graph->createImage( img( "v", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 3, 1, VK_IMAGE_TYPE_3D, 2 ) );
				std::array< u32, 2 > const ms[]{ { 0, 1 }, { 1, 1 }, { 2, 1 }, { 0, 3 }, { 0, 2 }, { 1, 2 } };
				for ( auto & m : ms )
					r.views.push_back( w.graph->createView( view( "vm" + std::to_string( m[0] ) + "+" + std::to_string( m[1] ), r.id, VK_IMAGE_VIEW_TYPE_3D, m[0], m[1], 0, 1 ) ) );
				w.images.push_back( r );
			}, n, { { 0, kinds, each( 6 ) } }, frames };
	}
	Family cube( int n, std::vector< Kind > kinds, int frames )
	{
		return { []( World & w, mc::Choices & )
			{
				Img r;
				r.id = w.graph->createImage( img( "c", VK_FORMAT_R8G8B8A8_UNORM, 2, 2, 2, 6, VK_IMAGE_TYPE_2D, 1, VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) );
				r.views.push_back( w.graph->createView( view( "cube", r.id, VK_IMAGE_VIEW_TYPE_CUBE, 0, 2, 0, 6 ) ) );
				r.views.push_back( w.graph->createView( view( "face3", r.id, VK_IMAGE_VIEW_TYPE_2D, 0, 1, 3, 1 ) ) );
				r.views.push_back( w.graph->createView( view( "mip1", r.id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, 1, 1, 0, 6 ) ) );
				w.images.push_back( r );
			}, n, { { 0, kinds, each( 3 ) } }, frames };
	}
	// passes working on another view at each index
	Family indexed( int n, std::vector< Kind > kinds, std::vector< std::vector< int > > views, int frames )
	{
		Views const v{ { 0, 1, 0, 1 }, { 0, 1, 1, 1 } };
		return { [v]( World & w, mc::Choices & ){ colourImage( w, "a", 1, 2, v ); }, n, { { 0, kinds, views } }, frames, 2u };
	}
	// the outside world gives an image at each frame
	Family inputs( int n, std::vector< Kind > kinds, int frames )
	{
		return { []( World & w, mc::Choices & ch )
			{
				colourImage( w, "a", 1, 2, { { 0, 1, 0, 1 }, { 0, 1, 0, 2 } } );
				static VkImageLayout const ls[]{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL };
				auto l = ls[ch.pick( 3, "input layout" )];
				auto v = w.images[0].views[size_t( ch.pick( 2, "input view" ) )];
				w.graph->addInput( v, crg::makeLayoutState( l ) );
				w.ext.push_back( { 0, v.data->info.subresourceRange, l } );
				if ( ch.flip( "output" ) )
					w.graph->addOutput( w.images[0].views[1], crg::makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) );
			}, n, { { 0, kinds, each( 2 ) } }, frames };
	}

	// several graphs that share an image, each one depending on the other ones, run in every order
	void shared( mc::Choices & ch, int what, int graphs, bool mutual, int steps, bool masks, std::vector< Kind > const & kinds, int views = 2 )
	{
		World w{ what };
		for ( int g = 1; g < graphs; ++g )
			w.addGraph( "fg1" );  // names tell nothing: the others share one
		for ( int g = 0; g < graphs; ++g )
			for ( int h = 0; h < graphs; ++h )
				if ( mutual ? h != g : h < g )
					w.graphs[size_t( g )]->addDependency( *w.graphs[size_t( h )] );
		colourImage( w, "a", 1, 2, { { 0, 1, 0, 1 }, { 0, 1, 0, 2 } } );
		for ( int g = 0; g < graphs; ++g )
			for ( int i = 0; i < ( masks ? 2 : 1 ); ++i )
			{
				Ps p;
				p.g = g;
				p.name = std::string( 1, char( 'A' + int( w.passes.size() ) ) );
				auto k = ch.of( kinds, "kind" );
				p.at.push_back( { 0, { views == 1 ? 0 : ch.pick( 2, "view" ) }, k } );
				w.passes.push_back( p );
			}
		w.note( ch );
		w.build();
		w.compile();
		for ( int s = 0; s < steps; ++s )
		{
			int g = ch.pick( graphs, "graph" );
			// without mutual dependencies the first graphs only run before the other ones
			if ( !mutual && g < int( w.passes.size() ) )
				for ( int h = g + 1; h < graphs; ++h )
					if ( !w.used[h].empty() ) ch.prune();
			for ( auto & p : w.passes )
				p.enabled = p.g != g || !masks || ch.pick( 2, "enabled" ) == 0;
			ch.note( "run graph " + std::to_string( g ) );
			w.noteMask( ch );
			w.run( g );
		}
		w.finish();
	}

	// passes with actions to run in place of them when they are disabled
	void actions( mc::Choices & ch, int what, int frames )
	{
		World w{ what };
		colourImage( w, "a", 1, 1, V1 );
		colourImage( w, "b", 1, 1, V1 );
		colourImage( w, "s", 1, 1, V1 );
		auto v = [&w]( int i ){ return w.images[size_t( i )].views[0]; };
		auto add = [&w]( char const * n, std::vector< At > at ) -> Ps &
		{
			Ps p;
			p.name = n;
			p.at = std::move( at );
			w.passes.push_back( p );
			return w.passes.back();
		};
		static Kind const src[]{ OStr, Oc };
		static Kind const wr[]{ IOt, Oc };
		static Kind const rd[]{ Spl, IOc, IOStr };
		w.passes.reserve( 8 );
		add( "S", { { 2, { 0 }, src[ch.pick( 2, "source" )] } } );
		auto wk = wr[ch.pick( 2, "writer" )];
		add( "A", { { 0, { 0 }, wk }, { 2, { 0 }, Spl } } );
		add( "B", { { 0, { 0 }, wk }, { 1, { 0 }, OStr } } );
		add( "C", { { 0, { 0 }, rd[ch.pick( 3, "reader" )] } } );
		add( "D", { { 0, { 0 }, Spl }, { 1, { 0 }, IOStr } } );
		struct Act { int pass; int image; int type; };
		std::vector< Act > acts;
		int const ta = ch.pick( 6, "action of A" );
		acts.push_back( { 1, 0, ta } );
		int const tb = ch.pick( 4, "action of B" );
		if ( tb == 1 ) acts.push_back( { 2, 0, 3 } );
		if ( tb >= 2 ) acts.push_back( { 2, 1, tb == 2 ? 0 : 3 } );
		if ( tb == 3 ) acts.push_back( { 2, 0, 0 } );
		VkClearValue cv{};
		cv.color.uint32[0] = 77u;
		std::map< std::pair< int, int >, int > ran;
		for ( auto & a : acts )
		{
			crg::RecordContext::ImplicitAction action;
			VkImageLayout fin = VK_IMAGE_LAYOUT_UNDEFINED;
			switch ( a.type )
			{
			case 0: action = crg::RecordContext::clearAttachment( v( a.image ), cv ); break;
			case 1: action = crg::RecordContext::clearAttachment( v( a.image ), cv, VK_IMAGE_LAYOUT_GENERAL ); break;
			case 2: action = crg::RecordContext::copyImage( v( 2 ), v( a.image ), { 4, 4 } ); break;
			case 3: action = [](crg::RecordContext &, VkCommandBuffer, u32 ){}; break;
			case 4: action = crg::RecordContext::copyImage( v( 2 ), v( a.image ), { 4, 4 }, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ); break;
			default: action = crg::RecordContext::blitImage( v( 2 ), v( a.image ), { 0, 0 }, { 4, 4 }, { 0, 0 }, { 4, 4 }, VK_FILTER_NEAREST, fin ); break;
			}
			auto key = std::make_pair( a.pass, a.image );
			w.passes[size_t( a.pass )].implicit.emplace_back( v( a.image ), [action, key, &ran, &w]( crg::RecordContext & c, VkCommandBuffer cb, u32 i )
				{
					++ran[key];
					w.order.push_back( "action " + std::to_string( key.first ) + "/" + std::to_string( key.second ) );
					action( c, cb, i );
				} );
		}
		w.note( ch );
		w.build();
		w.compile();
		u64 clearTok{};
		{
			u64 r{};
			for ( int i = 0; i < 4; ++i ) r = mv::hash( r, cv.color.uint32[i] );
			clearTok = r & 0xFFFFFFFFull;
		}
		K const k0{};
		for ( int f = 0; f < frames; ++f )
		{
			for ( auto & p : w.passes )
				p.enabled = ch.pick( 2, "enabled" ) == 0;
			w.noteMask( ch );
			ran.clear();
			// the reference: what must happen, in order
			std::vector< std::string > want;
			std::map< std::pair< int, int >, int > wantRan;
			std::vector< Act > pending;
			std::vector< std::function< void() > > model;
			w.before = {};
			for ( int i = 0; i < int( w.passes.size() ); ++i )
			{
				auto & p = w.passes[size_t( i )];
				if ( p.enabled )
				{
					for ( auto & at : p.at )
						for ( size_t j = 0; j < pending.size(); )
						{
							if ( pending[j].image != at.image ) { ++j; continue; }
							auto a = pending[j];
							pending.erase( pending.begin() + long( j ) );
							if ( !w.passes[size_t( a.pass )].enabled )
							{
								++wantRan[{ a.pass, a.image }];
								want.push_back( "action " + std::to_string( a.pass ) + "/" + std::to_string( a.image ) );
								if ( a.type == 0 || a.type == 1 )
									w.before[i].push_back( [&w, a, clearTok, k0]{ w.ref[{ a.image, k0 }] = clearTok; } );
								else if ( a.type != 3 )
									w.before[i].push_back( [&w, a, k0]
										{
											auto it = w.ref.find( { 2, k0 } );
											if ( it == w.ref.end() ) w.ref.erase( { a.image, k0 } );
											else w.ref[{ a.image, k0 }] = it->second;
										} );
							}
						}
					want.push_back( p.name );
				}
				for ( auto & a : acts )
					if ( a.pass == i ) pending.push_back( a );
			}
			w.wantOrder = want;
			w.run();
			for ( auto & a : acts )
				mc::check( ran[{ a.pass, a.image }] == wantRan[{ a.pass, a.image }], w.where + ": the action of " + w.passes[size_t( a.pass )].name + " for image " + std::to_string( a.image ) + " ran "
					+ std::to_string( ran[{ a.pass, a.image }] ) + " times instead of " + std::to_string( wantRan[{ a.pass, a.image }] ) );
		}
		w.finish();
	}

	// what a frame waits for, and what it signals
	void waits( mc::Choices & ch, int what, int frames, int maxWaits )
	{
		World w{ what };
		w.addGraph( "fg1" );
		colourImage( w, "a", 1, 1, V1 );
		w.passes.resize( 2 );
		w.passes[0].name = "A";
		w.passes[0].at.push_back( { 0, { 0 }, OStr } );
		w.passes[1].name = "B";
		w.passes[1].g = 1;
		w.passes[1].at.push_back( { 0, { 0 }, Spl } );
		w.graphs[1]->addDependency( *w.graphs[0] );
		w.build();
		w.compile();
		std::array< VkSemaphore, 3 > sems{ VkSemaphore{}, mv::makeSemaphore( false ), mv::makeSemaphore( false ) };
		static VkPipelineStageFlags const stages[]{ VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
		crg::SemaphoreWaitArray chained;
		auto consume = []( crg::SemaphoreWaitArray const & a ){ for ( auto & x : a ) mv::consumeSemaphore( x.semaphore ); };
		for ( int f = 0; f < frames; ++f )
		{
			int g = f % 2;
			w.passes[size_t( g )].enabled = ch.pick( 2, "enabled" ) == 0;
			auto where = "frame " + std::to_string( f );
			crg::SemaphoreWaitArray wait;
			std::map< mv::u64, VkPipelineStageFlags > want;
			auto add = [&]( crg::SemaphoreWait x )
			{
				wait.push_back( x );
				if ( x.semaphore ) want[mv::h( x.semaphore )] |= x.dstStageMask;
			};
			bool chain = f && ch.flip( "wait for the other graph" );
			if ( chain ) for ( auto & x : chained ) add( x );
			else consume( chained );
			int form = ch.pick( 3, "form" );
			int n = form == 0 ? 0 : form == 1 ? 1 : ch.pick( maxWaits + 1, "count" );
			if ( form != 2 && !wait.empty() ) ch.prune();
			for ( int i = 0; i < n; ++i )
			{
				auto s = ch.pick( 3, "semaphore" );
				add( { sems[size_t( s )], stages[s ? ch.pick( 2, "stage" ) : 0] } );
			}
			for ( int i = 1; i < 3; ++i )
				if ( want.count( mv::h( sems[size_t( i )] ) ) ) mv::signalSemaphore( sems[size_t( i )] );
			auto n0 = mv::w->calls["QueueSubmit"];
			auto res = form == 0 ? w.runnables[size_t( g )]->run( mv::queue() )
				: form == 1 ? w.runnables[size_t( g )]->run( wait[0], mv::queue() )
				: w.runnables[size_t( g )]->run( wait, mv::queue() );
			mc::step();
			mc::check( mv::w->calls["QueueSubmit"] == n0 + 1, where + ": not exactly one submission" );
			auto & l = mv::w->last;
			std::map< mv::u64, VkPipelineStageFlags > got;
			for ( auto & [s, m] : l.waits )
			{
				mc::check( !got.count( s ), where + ": a semaphore is waited for twice" );
				got[s] = m;
			}
			mc::check( got == want, where + ": the frame doesn't wait for the semaphores it was given, at their stages" );
			mc::check( res.size() == 1 && l.signals.size() == 1 && mv::h( res[0].semaphore ) == l.signals[0] && res[0].dstStageMask, where + ": the frame doesn't return the semaphore it signals" );
			mc::check( l.fence && l.cbs.size() == 1, where + ": the submission isn't one command buffer and a fence" );
			mc::state( "g" + std::to_string( g ) + " waits " + std::to_string( got.size() ) + " en " + std::to_string( w.passes[size_t( g )].enabled ) );
			chained = res;
			w.errors();
		}
		consume( chained );
		w.finish();
	}

	// passes working on ranges of a buffer: every one must wait for what the others did with its range
	enum BKind { Ub, Ubv, ISb, OSb, COSb, IOSb, ITb, OTb, IOTb, ImplT, ImplC };
	char const * bname( BKind k )
	{
		static char const * n[]{ "Ub", "Ubv", "ISb", "OSb", "COSb", "IOSb", "ITb", "OTb", "IOTb", "ImplTransfer", "ImplCompute" };
		return n[k];
	}
	void bufferSync( mc::Choices & ch, int n, std::vector< BKind > kinds, int buffers, int ranges, int per, int frames )
	{
		World w{ Sync };
		static std::array< VkDeviceSize, 2 > const rg[]{ { 0, 64 }, { 0, 32 }, { 32, 32 }, { 0, VK_WHOLE_SIZE } };
		struct Use { int buffer; int range; BKind kind; };
		struct P { std::vector< Use > uses; bool compute{}; bool enabled{}; };
		std::vector< P > ps( static_cast< size_t >( n ) );
		std::vector< VkBuffer > bs;
		for ( int i = 0; i < buffers; ++i ) bs.push_back( mv::makeBuffer( 64 ) );
		auto bv = mv::makeBufferView( bs[0], 0, 64 );
		for ( auto & p : ps )
		{
			std::string d = std::string( 1, char( 'A' + ( &p - ps.data() ) ) ) + ":";
			bool shader = false;
			for ( int i = 0; i < per; ++i )
			{
				auto k = ch.pick( int( kinds.size() ) + ( i ? 1 : 0 ), "kind" );
				if ( k == int( kinds.size() ) ) continue;
				Use u{ i < buffers ? i : 0, ch.pick( ranges, "range" ), kinds[size_t( k )] };
				// a pass uses a part of a buffer in one way
				for ( auto & o : p.uses )
					if ( o.buffer == u.buffer && o.range + u.range != 3 ) ch.prune();
				shader |= u.kind <= IOSb;
				p.uses.push_back( u );
				d += std::string{ " " } + bname( u.kind ) + "(buffer " + std::to_string( u.buffer ) + ", " + std::to_string( rg[u.range][0] ) + "+" + ( u.range == 3 ? std::string{ "all" } : std::to_string( rg[u.range][1] ) ) + ")";
			}
			p.compute = shader && ch.flip( "compute" );
			ch.note( d + ( p.compute ? " (compute)" : "" ) );
		}
		crg::FramePass * prev{};
		int frame = 0;
		for ( auto & p : ps )
		{
			auto stage = VkPipelineStageFlags( p.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
			auto name = std::string( 1, char( 'A' + ( &p - ps.data() ) ) );
			auto & fp = w.graph->createPass( name, [&w, &p, &bs, &frame, name, stage]( crg::FramePass const & pass, crg::GraphContext & ctx, crg::RunnableGraph & g )
				{
					return std::make_unique< crg::RunnablePass >( pass, ctx, g, crg::RunnablePass::Callbacks{
						crg::RunnablePass::InitialiseCallback( []( u32 ){} )
						, crg::RunnablePass::GetPipelineStateCallback( [stage](){ return crg::getPipelineState( stage ); } )
						, crg::RunnablePass::RecordCallback( [&p, &bs, &frame, name, stage]( crg::RecordContext &, VkCommandBuffer cb, u32 )
							{
								mv::cmdExec( cb, "pass " + name, [&p, &bs, &frame, name, stage]
									{
										for ( int phase = 0; phase < 2; ++phase )
											for ( auto & u : p.uses )
											{
												bool rd = u.kind != OSb && u.kind != COSb && u.kind != OTb, wr = u.kind == OSb || u.kind == COSb || u.kind == IOSb || u.kind == OTb || u.kind == IOTb || u.kind == ImplC;
												if ( phase ? !wr : !rd ) continue;
												bool tr = u.kind == ITb || u.kind == OTb || u.kind == IOTb || u.kind == ImplT;
												auto acc = tr ? ( phase ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT ) : phase ? VK_ACCESS_SHADER_WRITE_BIT : u.kind == Ub ? VK_ACCESS_UNIFORM_READ_BIT : VK_ACCESS_SHADER_READ_BIT;
												mc::step();
												mv::syncBuffer( mv::h( bs[size_t( u.buffer )] ), rg[u.range][0], rg[u.range][1] == VK_WHOLE_SIZE ? 64 : rg[u.range][1], tr ? VkPipelineStageFlags( VK_PIPELINE_STAGE_TRANSFER_BIT ) : u.kind == ImplC ? VkPipelineStageFlags( VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) : stage
													, VkAccessFlags( acc ), phase == 1, "pass " + name + " of frame " + std::to_string( frame ) + " (" + bname( u.kind ) + ")" );
											}
									}, false );
							} )
						, crg::RunnablePass::GetPassIndexCallback( []{ return 0u; } )
						, crg::RunnablePass::IsEnabledCallback( [&p]{ return p.enabled; } )
						, crg::RunnablePass::IsComputePassCallback( [&p]{ return p.compute; } ) } );
				} );
			if ( prev ) fp.addDependency( *prev );
			prev = &fp;
			u32 b = 0;
			for ( auto & u : p.uses )
			{
				crg::Buffer buf{ bs[size_t( u.buffer )], "b" + std::to_string( u.buffer ) };
				auto o = rg[u.range][0], r = rg[u.range][1];
				switch ( u.kind )
				{
				case Ub: fp.addUniformBuffer( buf, b++, o, r ); break;
				case Ubv: fp.addUniformBufferView( buf, bv, b++, o, r ); break;
				case ISb: fp.addInputStorageBuffer( buf, b++, o, r ); break;
				case OSb: fp.addOutputStorageBuffer( buf, b++, o, r ); break;
				case COSb: fp.addClearableOutputStorageBuffer( buf, b++, o, r ); break;
				case IOSb: fp.addInOutStorageBuffer( buf, b++, o, r ); break;
				case ITb: fp.addTransferInputBuffer( buf, o, r ); break;
				case OTb: fp.addTransferOutputBuffer( buf, o, r ); break;
				case IOTb: fp.addTransferInOutBuffer( buf, o, r ); break;
				case ImplT: fp.addImplicitBuffer( buf, o, r, { VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } ); break;
				case ImplC: fp.addImplicitBuffer( buf, o, r, { VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } ); break;
				}
			}
		}
		w.compile();
		for ( frame = 0; frame < frames; ++frame )
		{
			std::string d = "frame " + std::to_string( frame ) + " enabled:";
			for ( auto & p : ps ) d += ( p.enabled = ch.pick( 2, "enabled" ) == 0 ) ? std::string{ " " } + char( 'A' + ( &p - ps.data() ) ) : " -";
			ch.note( d );
			w.run();
		}
		w.finish();
	}

	mc::Scenario scenario( std::string n, int what, Family f, int depth = 4 )
	{
		return { n, [what, f]( mc::Choices & c ){ family( c, what, f ); }, depth };
	}
	std::vector< Kind > const small{ Spl, OStr, IOt, Oc, IOc };

	// many kinds of views, in chains
	std::vector< mc::Scenario > images( int what )
	{
		std::vector< mc::Scenario > s;
		auto t = mc::thorough();
		s.push_back( scenario( "chain2", what, chain( 2, colour, V4, t ? 3 : 2 ) ) );
		s.push_back( scenario( "chain3", what, chain( 3, t ? std::vector< Kind >{ Spl, OStr, COStr, IOt, It, Oc, IOc } : small, V3 ), 6 ) );
		s.push_back( scenario( "pairs", what, pairs( 2, t ? std::vector< Kind >{ Spl, IOStr, OStr, IOt, Oc, IOc, Ic } : std::vector< Kind >{ Spl, OStr, IOt, Oc, IOc }, 2 ) ) );
		s.push_back( scenario( "depthstencil", what, depth( VK_FORMAT_D24_UNORM_S8_UINT, { VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT }, t ? 3 : 2, { Spl, Impl, It, Ot, IOt, Ids, Ods, IOds }, 2 ) ) );
		s.push_back( scenario( "depth", what, depth( VK_FORMAT_D32_SFLOAT, { VK_IMAGE_ASPECT_DEPTH_BIT }, t ? 3 : 2, { Spl, Impl, It, Ot, IOt, Id, Od, IOd }, 2 ) ) );
		{
			// the layouts of depth only and stencil only
			auto sep = []( Family f, std::vector< VkImageLayout > l ) { f.separate = true; f.implicits = std::move( l ); return f; };
			s.push_back( scenario( "depth, separate", what, sep( depth( VK_FORMAT_D32_SFLOAT, { VK_IMAGE_ASPECT_DEPTH_BIT }, 2, { Spl, Impl, It, Ot, IOt, Id, Od, IOd }, 2 ), { VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL } ) ) );
			s.push_back( scenario( "stencil, separate", what, sep( depth( VK_FORMAT_S8_UINT, { VK_IMAGE_ASPECT_STENCIL_BIT }, 2, { Spl, Impl, It, Ot, IOt, Is, Os, IOs }, 2 ), { VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL } ) ) );
			s.push_back( scenario( "depthstencil, separate", what, sep( depth( VK_FORMAT_D24_UNORM_S8_UINT, { VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT }, 2, { Spl, Impl, Ot, IOt, Ids, Ods, IOds }, 2 ), { VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL } ) ) );
			s.push_back( scenario( "stencil", what, depth( VK_FORMAT_S8_UINT, { VK_IMAGE_ASPECT_STENCIL_BIT }, 2, { Spl, Impl, It, Ot, IOt, Is, Os, IOs }, 2 ) ) );
			auto col = chain( 2, { Spl, Impl, OStr, IOc }, { { 0, 1, 0, 1 }, { 0, 1, 0, 2 } } );
			col.implicits = { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL };
			s.push_back( scenario( "implicit", what, col ) );
		}
		{
			// views of one aspect only, the image being in one layout as a whole
			auto ds = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
			auto f = depth( VK_FORMAT_D24_UNORM_S8_UINT, { VkImageAspectFlags( ds ), VK_IMAGE_ASPECT_DEPTH_BIT, VK_IMAGE_ASPECT_STENCIL_BIT }, t ? 3 : 2, t ? std::vector< Kind >{ Spl, It, Ot, Ods, IOds } : std::vector< Kind >{ Spl, Impl, It, Ot, IOt, Ids, Ods, IOds }, 2 );
			s.push_back( scenario( "aspects", what, f ) );
			// the same on a device which has separate layouts, with the layouts both aspects may be in
			f = depth( VK_FORMAT_D24_UNORM_S8_UINT, { VkImageAspectFlags( ds ), VK_IMAGE_ASPECT_DEPTH_BIT, VK_IMAGE_ASPECT_STENCIL_BIT }, t ? 3 : 2, t ? std::vector< Kind >{ Spl, It, Ot, Ods, IOds } : std::vector< Kind >{ Spl, Impl, It, Ot, IOt, Ids, Ods, IOds }, 2 );
			f.separate = true;
			s.push_back( scenario( "aspects, separate", what, f ) );
		}
		s.push_back( scenario( "volume", what, volume( 3, t ? std::vector< Kind >{ Spl, OStr, IOt } : std::vector< Kind >{ Spl, IOt }, 2 ), 6 ) );
		s.push_back( scenario( "cube", what, cube( 2, { Spl, OStr, IOt, Oc, IOc, It }, 2 ) ) );
		s.push_back( scenario( "indexed", what, indexed( 2, { Spl, OStr, IOt, Oc, IOc }, { { 0, 1 }, { 1, 0 }, { 0, 0 } }, 2 ) ) );
		s.push_back( scenario( "inputs", what, inputs( 2, { Spl, OStr, IOt, Oc, IOc }, 2 ) ) );
		s.push_back( scenario( "recompiled", what, recompiled( chain( 2, { Spl, OStr, IOt, Oc, IOc }, { { 0, 1, 0, 1 }, { 0, 2, 0, 2 } }, t ? 4 : 3 ) ), 6 ) );
		if ( t )
		{
			s.push_back( scenario( "chain4", what, chain( 4, { Spl, OStr, IOt, IOc }, { { 0, 1, 0, 1 }, { 0, 2, 0, 2 } } ), 8 ) );
			s.push_back( scenario( "chain2x4", what, chain( 2, small, V3, 4 ) ) );
		}
		if ( mc::deeper() )
		{
			s.push_back( scenario( "chain3all", what, chain( 3, colour, V4, 2 ), 6 ) );
			s.push_back( scenario( "chain4all", what, chain( 4, { Spl, OStr, IOt, Oc, IOc }, { { 0, 1, 0, 1 }, { 0, 2, 0, 2 }, { 1, 1, 0, 2 } }, 2 ), 8 ) );
			s.push_back( scenario( "chain5", what, chain( 5, { Spl, IOt, IOc }, { { 0, 1, 0, 1 }, { 0, 2, 0, 2 } }, 1 ), 8 ) );
			s.push_back( scenario( "pairs3", what, pairs( 3, { Spl, OStr, IOt, IOc }, 2 ), 6 ) );
			s.push_back( scenario( "indexed3", what, indexed( 3, { Spl, OStr, IOc }, { { 0, 1 }, { 1, 0 } }, 2 ), 6 ) );
		}
		return s;
	}
	// few kinds of views, many frames and sets of enabled passes
	std::vector< mc::Scenario > frames( int what )
	{
		std::vector< mc::Scenario > s;
		auto t = mc::thorough();
		s.push_back( scenario( "frames2", what, chain( 2, { Spl, OStr, COStr, It, IOt, Oc, IOc, Ic }, V3, 3 ) ) );
		s.push_back( scenario( "frames3", what, chain( 3, { Spl, OStr, Oc, IOc }, V1, t ? 4 : 3 ) ) );
		s.push_back( scenario( "frames4", what, chain( 4, { OStr, IOc }, V1, t ? 3 : 2 ) ) );
		s.push_back( scenario( "pairs", what, pairs( 2, { Spl, OStr, Oc, IOc }, 2 ) ) );
		s.push_back( scenario( "recompiled", what, recompiled( chain( 2, { Spl, Oc, IOc }, V1, 3 ) ) ) );
		{
			auto f = chain( 2, t ? std::vector< Kind >{ Spl, OStr, COStr, Oc, IOc } : std::vector< Kind >{ Spl, OStr, Oc }, V1, t ? 3 : 2 );
			f.maxCount = 2;
			s.push_back( scenario( "recorded again", what, recordedAgain( f ) ) );
		}
		s.push_back( scenario( "indexed", what, indexed( 2, { Spl, OStr, Oc, IOc }, { { 0, 1 } }, t ? 3 : 2 ) ) );
		if ( t )
		{
			s.push_back( scenario( "frames5", what, chain( 5, { OStr, IOc }, V1, 2 ) ) );
			s.push_back( scenario( "indexed3", what, indexed( 3, { OStr, IOc }, { { 0, 1 } }, 2 ) ) );
		}
		if ( mc::deeper() )
		{
			s.push_back( scenario( "frames6", what, chain( 6, { OStr, IOc }, V1, 2 ), 8 ) );
			s.push_back( scenario( "frames3x5", what, chain( 3, { OStr, IOc }, V1, 5 ), 6 ) );
			s.push_back( scenario( "pairs3", what, pairs( 3, { Spl, OStr, IOc }, 2 ), 6 ) );
		}
		return s;
	}
}

int main( int argc, char ** argv )
{
	for ( int i = 1; i + 1 < argc; ++i ) if ( std::string{ argv[i] } == "--tier" ) mc::setTier( argv[i + 1] );
	auto t = mc::thorough();
	std::vector< Kind > const sk{ Spl, OStr, IOt, Oc, IOc };
	auto sharing = [t, sk]( int what ) -> std::vector< mc::Scenario >
	{
		return {
			{ "mutual2", [what, t]( mc::Choices & c ){ shared( c, what, 2, true, 3, true, { Spl, OStr, IOt }, t ? 2 : 1 ); }, 8 },
			{ "mutual3", [what, t, sk]( mc::Choices & c ){ shared( c, what, 3, true, t ? 5 : 4, false, t ? sk : std::vector< Kind >{ Spl, OStr, IOc } ); }, 6 },
			{ "downstream2", [what, t]( mc::Choices & c ){ shared( c, what, 2, false, 4, true, t ? std::vector< Kind >{ Spl, OStr, IOt, IOc } : std::vector< Kind >{ Spl, IOt, IOc }, 1 ); }, 8 },
			{ "downstream3", [what, sk]( mc::Choices & c ){ shared( c, what, 3, false, 6, false, sk ); }, 6 },
			{ "mutual2 deep", [what, sk]( mc::Choices & c ){ if ( !mc::deeper() ) c.prune(); shared( c, what, 2, true, 4, true, sk, 1 ); }, 8 },
			{ "mutual3 deep", [what, sk]( mc::Choices & c ){ if ( !mc::deeper() ) c.prune(); shared( c, what, 3, true, 6, false, sk ); }, 6 },
			{ "mutual4", [what]( mc::Choices & c ){ if ( !mc::deeper() ) c.prune(); shared( c, what, 4, true, 5, false, { Spl, OStr, IOc }, 1 ); }, 6 },
		};
	};
	return mc::mainLoop( argc, argv, {
		{ "L01", images( Layouts ) },
		{ "L02", images( Contents ) },
		{ "F01", [&]{ auto s = frames( Protocol ); s.push_back( { "waits", [t]( mc::Choices & c ){ waits( c, Protocol, t ? 3 : 2, 3 ); }, 6 } ); return s; }() },
		{ "E01", frames( Enabled ) },
		{ "H01", frames( Neighbours ) },
		{ "R01", frames( Life ) },
		{ "L03", [&]
			{
				auto s = images( Sync );
				std::vector< BKind > all{ Ub, Ubv, ISb, OSb, COSb, IOSb, ITb, OTb, IOTb, ImplT, ImplC };
				s.push_back( { "buffers2", [=]( mc::Choices & c ){ bufferSync( c, 2, all, 1, 4, 1, 2 ); }, 6 } );
				s.push_back( { "buffers3", [=]( mc::Choices & c ){ bufferSync( c, 3, t ? all : std::vector< BKind >{ Ub, ISb, COSb, IOSb, IOTb }, 1, 3, 1, t ? 2 : 1 ); }, 6 } );
				s.push_back( { "bufferparts", [=]( mc::Choices & c ){ bufferSync( c, 2, t ? all : std::vector< BKind >{ Ub, ISb, OSb, IOSb, IOTb }, 1, 3, 2, 2 ); }, 6 } );
				s.push_back( { "twobuffers", [=]( mc::Choices & c ){ bufferSync( c, 2, t ? all : std::vector< BKind >{ Ub, ISb, OSb, ITb, OTb }, 2, 2, 2, 2 ); }, 6 } );
				return s;
			}() },
		{ "S01", sharing( Layouts | Contents ) },
		{ "E02", { { "actions", [t]( mc::Choices & c ){ actions( c, Layouts | Contents | Enabled, mc::deeper() ? 3 : t ? 2 : 1 ); }, 6 } } },
	} );
}
