// Threads which share a resource handler (C01), under a controlled scheduler.
#include "sched.hpp"
#include "sim.hpp"
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <algorithm>

using namespace sim;
namespace
{
	std::string n2( u64 v ) { return std::to_string( v ); }
	Cats const AllCats{ "desc", "draw", "label", "layout", "leak", "life", "mem", "param", "query", "region", "rp", "submit", "usage" };
	void muteLogs()
	{
		auto no = []( std::string const &, bool ){};
		crg::Logger::setTraceCallback( no );
		crg::Logger::setDebugCallback( no );
		crg::Logger::setInfoCallback( no );
		crg::Logger::setWarningCallback( no );
		crg::Logger::setErrorCallback( no );
	}
	bool isCreation( char const * n ) { return std::strncmp( n, "Create", 6 ) == 0 || std::strncmp( n, "Destroy", 7 ) == 0 || std::strncmp( n, "Allocate", 8 ) == 0 || std::strncmp( n, "Free", 4 ) == 0; }

	//************************************************************************************************
	// the operations
	enum OpK : int { NewImage, NewViewA, NewViewB, Image0, Image1, View0, View1, DropView0, DropImage1, Sampler, Quad, Count, OpKs };
	char const * oname( int o ) { static char const * n[]{ "createImageId", "createViewId(a)", "createViewId(b)", "createImage(0)", "createImage(1)", "createImageView(0)", "createImageView(1)", "destroyImageView(0)", "destroyImage(1)", "sampler", "vertex buffer", "getImageCreations(0)" }; return n[o]; }
	using Program = std::vector< std::vector< int > >;
	std::string str( Program const & p )
	{
		std::string r;
		for ( auto & t : p )
		{
			r += "[";
			for ( auto o : t ) r += std::string{ oname( o ) } + ";";
			r += "]";
		}
		return r;
	}
	struct Res { char kind{}; u64 value{}; bool flag{}; };  // kind: the space of the value, which is only known up to renaming
	struct Share
	{
		Env env;
		std::unique_ptr< crg::GraphContext > own[3];
		bool ownContexts{};
		crg::ImageId image[2];
		crg::ImageViewId view[2];
		std::vector< std::vector< Res > > results;
		std::vector< std::vector< std::pair< u64, u64 > > > when;
		std::vector< crg::ImageId > made[3];
		explicit Share( bool o, bool existing )
			: ownContexts{ o }
		{
			muteLogs();
			for ( auto & c : own ) c = env.newContext();
			for ( u32 i = 0; i < 2; ++i )
			{
				image[i] = env.handler->createImageId( img( "i" + n2( i ), VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 2 ) );
				view[i] = env.handler->createViewId( sim::view( "v" + n2( i ), image[i], VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
			}
			if ( existing )
			{
				env.handler->createImageView( *env.ctx, view[0] );
				env.handler->createImage( *env.ctx, image[1] );
			}
		}
		crg::GraphContext & ctx( int t ) { return ownContexts ? *own[t] : *env.ctx; }
		Res image_( int t, int i )
		{
			auto [h, created] = env.handler->createImage( ctx( t ), image[i] );
			sched::Quiet q;
			mc::check( h, "createImage returns no image" );
			return { 'i', mv::h( h ), created };
		}
		Res view_( int t, int i )
		{
			auto [h, created] = env.handler->createImageView( ctx( t ), view[i] );
			sched::Quiet q;
			mc::check( h, "createImageView returns no view" );
			return { 'v', mv::h( h ), created };
		}
		Res op( int t, int o )
		{
			auto & hd = *env.handler;
			switch ( o )
			{
			case NewImage:
				{
					auto id = hd.createImageId( img( "n" + n2( u64( t ) ), VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) );
					mc::check( id.data && id.data->name == "n" + n2( u64( t ) ), "createImageId returns an identifier with other data" );
					sched::Quiet q;
					made[t].push_back( id );
					return { 'I', id.id, true };
				}
			case NewViewA: case NewViewB:
				{
					auto d = sim::view( o == NewViewA ? "a" : "b", image[0], VK_IMAGE_VIEW_TYPE_2D, 0, 1, o == NewViewA ? 0 : 1, 1 );
					d.name = o == NewViewA ? "a" : "b";
					auto id = hd.createViewId( d );
					mc::check( id.data && *id.data == d, "createViewId returns an identifier with other data" );
					return { 'V', id.id, true };
				}
			case Image0: return image_( t, 0 );
			case Image1: return image_( t, 1 );
			case View0: return view_( t, 0 );
			case View1: return view_( t, 1 );
			case DropView0: hd.destroyImageView( ctx( t ), view[0] ); return {};
			case DropImage1: hd.destroyImage( ctx( t ), image[1] ); return {};
			case Sampler:
				{
					auto s = hd.createSampler( ctx( t ), "s", crg::SamplerDesc{} );
					hd.destroySampler( ctx( t ), s );
					return { 's', u64( s != VkSampler{} ), s != VkSampler{} };
				}
			case Quad:
				{
					auto b = hd.createQuadTriVertexBuffer( ctx( t ), "q", true, crg::Texcoord{} );
					auto r = b && b->buffer.buffer() != VkBuffer{} && b->memory != VkDeviceMemory{};
					hd.destroyVertexBuffer( ctx( t ), b );
					return { 'q', u64( r ), r };
				}
			case Count: return { 'c', 0, hd.getImageCreations( image[0].id ) != 0u };
			}
			return {};
		}
		void oneOp( int t, int o, u64 start, std::function< u64() > const & now )
		{
			auto r = op( t, o );
			sched::Quiet q;
			results[size_t( t )].push_back( r );
			when[size_t( t )].push_back( { start, now() } );
		}
		// what the operations returned and what is left, up to the names of things
		std::string outcome()
		{
			std::vector< Res > all;
			std::string r;
			std::map< std::pair< char, u64 >, size_t > names;
			std::map< char, size_t > next;
			auto put = [&]( Res const & x )
			{
				if ( !x.kind ) { r += "-"; return; }
				auto it = names.find( { x.kind, x.value } );
				if ( it == names.end() ) it = names.emplace( std::pair{ x.kind, x.value }, next[x.kind]++ ).first;
				r += x.kind + n2( it->second ) + ( x.flag ? "+" : "" );
			};
			for ( auto & t : results )
			{
				r += "[";
				for ( auto & x : t ) { put( x ); r += " "; }
				r += "]";
			}
			// (the identifiers of this handler, whatever their values)
			auto a = env.handler->createViewId( [&]{ auto d = sim::view( "a", image[0], VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ); d.name = "a"; return d; }() );
			put( { 'V', a.id, false } );
			put( { 'V', view[0].id, false } );
			put( { 'V', view[1].id, false } );
			put( { 'I', image[0].id, false } );
			put( { 'I', image[1].id, false } );
			for ( int i = 0; i < 2; ++i ) { auto [h, c] = env.handler->createImage( *env.ctx, image[i] ); put( { 'i', mv::h( h ), c } ); }
			for ( int i = 0; i < 2; ++i ) { auto [h, c] = env.handler->createImageView( *env.ctx, view[i] ); put( { 'v', mv::h( h ), c } ); }
			for ( int i = 0; i < 2; ++i ) r += " " + n2( env.handler->getImageCreations( image[i].id ) );
			return r;
		}
		// everything goes
		void close()
		{
			noErrors( AllCats, "during the operations" );
			for ( auto & ids : made )
				for ( auto & id : ids )
				{
					mc::check( env.handler->createImage( *env.ctx, id ).second, "the image of a new identifier exists already" );
					env.handler->destroyImage( *env.ctx, id );
				}
			for ( auto & v : view ) env.handler->destroyImageView( *env.ctx, v );
			for ( auto & i : image ) env.handler->destroyImage( *env.ctx, i );
			env.handler.reset();
			mv::checkLeaks();
			noErrors( AllCats, "at the end" );
		}
	};
	// the outcomes of the operations one at a time, in every order
	struct Serial { std::vector< int > order; std::string outcome; };
	std::vector< Serial > const & serial( Program const & p, bool own, bool existing )
	{
		static std::map< std::string, std::vector< Serial > > known;
		auto key = str( p ) + ( own ? "1" : "0" ) + ( existing ? "1" : "0" );
		if ( auto it = known.find( key ); it != known.end() ) return it->second;
		if ( known.size() > 64 ) known.clear();
		auto & r = known[key];
		std::vector< int > order;
		for ( size_t t = 0; t < p.size(); ++t ) order.insert( order.end(), p[t].size(), int( t ) );
		do
		{
			Share s{ own, existing };
			s.results.resize( p.size() );
			s.when.resize( p.size() );
			std::vector< size_t > at( p.size() );
			for ( auto t : order ) s.oneOp( t, p[size_t( t )][at[size_t( t )]++], 0, []{ return u64( 0 ); } );
			auto o = s.outcome();
			s.close();
			r.push_back( { order, o } );
		}
		while ( std::next_permutation( order.begin(), order.end() ) );
		return r;
	}
	bool misuse( Program const & p )
	{
		bool view1 = false, drop1 = false;
		for ( auto & t : p )
			for ( auto o : t ) { view1 = view1 || o == View1; drop1 = drop1 || o == DropImage1; }
		return view1 && drop1;  // an image destroyed while it has views
	}
	void ops( mc::Choices & ch, int threads, int count, int preemptions, bool device )
	{
		Program p;
		p.resize( size_t( threads ) );
		for ( auto & t : p )
			for ( int i = 0; i < count; ++i ) t.push_back( ch.pick( OpKs, "operation" ) );
		for ( size_t t = 1; t < p.size(); ++t )
			if ( p[t] < p[t - 1] ) ch.prune();  // the same program, threads renamed
		if ( misuse( p ) ) ch.prune();
		bool own = ch.flip( "contexts" ), existing = ch.flip( "existing" );
		auto & want = serial( p, own, existing );
		Share s{ own, existing };
		s.results.resize( size_t( threads ) );
		s.when.resize( size_t( threads ) );
		for ( auto & r : s.results ) r.reserve( size_t( count ) );
		for ( auto & r : s.when ) r.reserve( size_t( count ) );
		{
			sched::Scheduler sc;
			if ( device ) mv::w->onCall = []( char const * n ){ if ( sched::Scheduler::inFiber() && isCreation( n ) ) sched::Scheduler::active()->point(); };
			std::vector< std::function< void() > > bodies;
			for ( int t = 0; t < threads; ++t )
				bodies.push_back( [&, t]
					{
						for ( auto o : p[size_t( t )] )
							s.oneOp( t, o, sc.clock, [&sc]{ return sc.clock; } );
					} );
			sc.run( ch, std::move( bodies ), preemptions );
			mv::w->onCall = nullptr;
			mc::state( mv::hash( sc.trace, mc::hashStr( str( p ) ) ) );
		}
		auto got = s.outcome();
		ch.note( str( p ) + " -> " + got );
		bool found = false;
		for ( auto & w : want )
		{
			if ( w.outcome != got ) continue;
			// the order keeps that of the operations which didn't overlap
			std::vector< size_t > at( p.size() );
			bool ok = true;
			u64 latest = 0;
			for ( auto t : w.order )
			{
				auto [b, e] = s.when[size_t( t )][at[size_t( t )]++];
				if ( e < latest ) { ok = false; break; }
				latest = std::max( latest, b );
			}
			if ( ok ) { found = true; break; }
		}
		if ( !found )
		{
			std::string all;
			for ( auto & w : want ) all += "\n      " + w.outcome;
			mc::fail( str( p ) + ": no order of the operations gives what the threads got: " + got + "; they give:" + all );
		}
		s.close();
		mc::compared();
		mc::outcome( str( p ) + got );
	}

	//************************************************************************************************
	// graphs, each with its context, on one handler
	enum GK : int { GQuad, GCopy, GCompute, GMips, GKs };
	char const * gname( int g ) { static char const * n[]{ "RenderQuad", "ImageCopy", "ComputePass", "GenerateMipmaps" }; return n[g]; }
	struct Mods { VkShaderModule vtx{}, frg{}, cmp{}; VkBuffer buf{}; };
	VkPipelineShaderStageCreateInfo stage( VkShaderStageFlagBits s, VkShaderModule m ) { return { VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, nullptr, 0, s, m, "main", nullptr }; }
	// declares, compiles, runs twice and ends a graph
	std::string graph( crg::ResourceHandler & handler, crg::GraphContext & ctx, int kind, Mods const & m, std::string const & name, bool dot )
	{
		std::string out;
		crg::ImageId from, to;
		{
			crg::FrameGraph g{ handler, name };
			from = g.createImage( img( name + "from", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, kind == GMips ? 2 : 1 ) );
			to = g.createImage( img( name + "to", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) );
			auto fv = g.createView( sim::view( name + "fv", from, VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
			auto tv = g.createView( sim::view( name + "tv", to, VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
			crg::Buffer buffer{ m.buf, name + "buf" };
			auto & up = g.createPass( "up", [&]( crg::FramePass const & p, crg::GraphContext & c, crg::RunnableGraph & r ) { return std::make_unique< crg::BufferToImageCopy >( p, c, r, VkOffset3D{}, VkExtent3D{ 4, 4, 1 } ); } );
			up.addTransferInputBuffer( buffer, 0, 64 );
			up.addTransferOutputView( fv );
			auto & work = g.createPass( "work", [&]( crg::FramePass const & p, crg::GraphContext & c, crg::RunnableGraph & r ) -> crg::RunnablePassPtr
				{
					switch ( kind )
					{
					case GQuad:
						{
							crg::rq::Config q;
							q.program( crg::VkPipelineShaderStageCreateInfoArray{ stage( VK_SHADER_STAGE_VERTEX_BIT, m.vtx ), stage( VK_SHADER_STAGE_FRAGMENT_BIT, m.frg ) } );
							q.renderSize( { 4, 4 } );
							q.texcoordConfig( crg::Texcoord{} );
							return std::make_unique< crg::RenderQuad >( p, c, r, crg::ru::Config{}, q );
						}
					case GCompute:
						{
							crg::cp::Config q;
							q.program( crg::VkPipelineShaderStageCreateInfoArray{ stage( VK_SHADER_STAGE_COMPUTE_BIT, m.cmp ) } );
							return std::make_unique< crg::ComputePass >( p, c, r, crg::ru::Config{}, std::move( q ) );
						}
					case GMips: return std::make_unique< crg::GenerateMipmaps >( p, c, r, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL );
					default: return std::make_unique< crg::ImageCopy >( p, c, r, VkExtent3D{ 4, 4, 1 } );
					}
				} );
			work.addDependency( up );
			switch ( kind )
			{
			case GQuad: work.addSampledView( fv, 0 ); work.addOutputColourView( tv ); break;
			case GCompute: work.addSampledView( fv, 0 ); work.addOutputStorageView( tv, 1 ); break;
			case GMips: work.addTransferInOutView( fv ); break;
			default: work.addTransferInputView( fv ); work.addTransferOutputView( tv ); break;
			}
			auto r = g.compile( ctx );
			if ( dot )
			{
				auto d = crg::dot::displayTransitions( *r, crg::dot::Config{} );
				std::stringstream ss;
				for ( auto & [n, s] : d ) ss << n << s.str();
				sched::Quiet q;
				out += n2( mc::hashStr( ss.str() ) ) + " ";
			}
			for ( int i = 0; i < 2; ++i )
			{
				auto s = r->run( mv::queue() );
				sched::Quiet q;
				for ( auto & x : s ) mv::consumeSemaphore( x.semaphore );
				mv::waitIdle();
			}
			VkImage d{ handler.createImage( ctx, kind == GMips ? from : to ).first };
			{
				sched::Quiet q;
				for ( auto & [k, s] : devImage( d ).subs ) { u64 h = 0; for ( auto t : s.texels ) h = mv::hash( h, t ); out += n2( h ) + ":" + mv::str( s.layout ) + " "; }
			}
			if ( kind == GMips ) handler.createImage( ctx, to );
		}
		// the images outlive the graph when another owns them: here the graph did
		return out;
	}
	std::string graphs( mc::Choices & ch, std::vector< int > const & kinds, bool dot, int preemptions, bool device )
	{
		Env env;
		muteLogs();
		std::vector< std::unique_ptr< crg::GraphContext > > ctx;
		std::vector< std::string > out( kinds.size() );
		Mods m;
		{
			mv::HarnessScope hs;
			m.vtx = mv::makeModule( "v" );
			m.frg = mv::makeModule( "f" );
			m.cmp = mv::makeModule( "c" );
			std::vector< uint8_t > bytes( 64 );
			for ( size_t i = 0; i < bytes.size(); ++i ) bytes[i] = uint8_t( i * 7 + 3 );
			m.buf = mv::makeBuffer( 64, ~0u, bytes.data() );
		}
		for ( size_t i = 0; i < kinds.size(); ++i ) ctx.push_back( env.newContext() );
		{
			sched::Scheduler sc;
			if ( device ) mv::w->onCall = []( char const * n ){ if ( sched::Scheduler::inFiber() && isCreation( n ) ) sched::Scheduler::active()->point(); };
			std::vector< std::function< void() > > bodies;
			for ( size_t i = 0; i < kinds.size(); ++i )
				bodies.push_back( [&, i]
					{
						auto r = graph( *env.handler, *ctx[i], kinds[i], m, "g" + n2( i ), dot );
						sched::Quiet q;
						out[i] = r;
					} );
			sc.run( ch, std::move( bodies ), preemptions );
			mv::w->onCall = nullptr;
			mc::state( sc.trace );
		}
		noErrors( AllCats, "while the graphs worked" );
		ctx.clear();
		std::string r;
		for ( auto & o : out ) r += "{" + o + "}";
		env.close( true );
		noErrors( AllCats, "at the end" );
		return r;
	}
	void twoGraphs( mc::Choices & ch, int preemptions, bool device )
	{
		std::vector< int > k{ ch.pick( GKs, "graph" ), ch.pick( GKs, "graph" ) };
		if ( k[1] < k[0] ) ch.prune();
		bool dot = ch.flip( "dot" );
		static std::map< std::string, std::string > alone;
		auto key = std::string{ gname( k[0] ) } + gname( k[1] ) + ( dot ? "d" : "" );
		if ( !alone.count( key ) )
		{
			mc::Choices none;
			alone[key] = graphs( none, k, dot, 0, false );
		}
		auto got = graphs( ch, k, dot, preemptions, device );
		mc::check( got == alone[key], key + ": the graphs give " + got + ", one after the other they give " + alone[key] );
		mc::compared();
		mc::outcome( key + got );
	}
	int bound( int q, int t, int d ) { return mc::deeper() ? d : mc::thorough() ? t : q; }
}

int main( int argc, char ** argv )
{
#if defined( CRG_MC_TSAN )
	bool const tsan = true;
#else
	bool const tsan = false;
#endif
	std::vector< mc::Property > props;
	props.push_back( { "C01", {
		{ "two threads, one operation", [=]( mc::Choices & ch ){ ops( ch, 2, 1, bound( 3, 5, 64 ), true ); }, 9 },
		{ "three threads, one operation", [=]( mc::Choices & ch ){ ops( ch, 3, 1, tsan ? bound( 0, 1, 2 ) : bound( 2, 3, 4 ), false ); }, 9 },
		{ "two threads, two operations", [=]( mc::Choices & ch ){ ops( ch, 2, 2, tsan ? bound( 0, 1, 2 ) : bound( 1, 2, 3 ), false ); }, 9 },
		{ "two graphs", [=]( mc::Choices & ch ){ twoGraphs( ch, tsan ? bound( 1, 1, 2 ) : bound( 1, 1, 2 ), false ); }, 4 },
	} } );
	return mc::mainLoop( argc, argv, props );
}
