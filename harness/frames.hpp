// A bounded family of render graphs over a few small images, executed frame by frame on the
// simulated device, with a reference model of what every pass must find in its views.
#pragma once
#include "sim.hpp"
#include <RenderGraph/RunnablePasses/RenderPass.hpp>

namespace fr
{
	using namespace sim;
	using K = mv::SubKey;
	enum Kind { Spl, Impl, IStr, OStr, COStr, IOStr, It, Ot, IOt, Ic, Oc, IOc, Id, Od, IOd, Ids, Ods, IOds, Is, Os, IOs };
	inline char const * kname( Kind k )
	{
		static char const * n[]{ "Spl", "Impl", "IStr", "OStr", "COStr", "IOStr", "It", "Ot", "IOt", "Ic", "Oc", "IOc", "Id", "Od", "IOd", "Ids", "Ods", "IOds", "Is", "Os", "IOs" };
		return n[k];
	}
	inline bool isRP( Kind k ) { return k >= Ic; }
	inline bool isColourRP( Kind k ) { return k >= Ic && k <= IOc; }
	inline bool reads( Kind k ) { return k == Spl || k == Impl || k == IStr || k == IOStr || k == It || k == IOt || k == Ic || k == IOc || k == Id || k == IOd || k == Ids || k == IOds || k == Is || k == IOs; }
	inline bool writes( Kind k ) { return k == OStr || k == COStr || k == IOStr || k == Ot || k == IOt || k == Oc || k == IOc || k == Od || k == IOd || k == Ods || k == IOds || k == Os || k == IOs; }
	inline bool clears( Kind k ) { return k == COStr || k == Oc || k == Od || k == Ods || k == Os; }
	// the layout a view of this kind must be in while the pass works
	inline VkImageLayout layoutOf( Kind k, VkImageLayout implicit, bool ds, bool depth, bool separate )
	{
		switch ( k )
		{
		case Spl: return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		case Impl: return implicit;
		case IStr: case OStr: case COStr: case IOStr: return VK_IMAGE_LAYOUT_GENERAL;
		case It: return VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
		case Ot: case IOt: return VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
		case Ic: case Oc: case IOc: return VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
		case Id: if ( separate ) return VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL; return VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case Is: if ( separate ) return VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL; return VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case Od: case IOd: if ( separate ) return VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL; return VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		case Os: case IOs: if ( separate ) return VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL; return VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		case Ids: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		default: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		}
	}

	struct Img { crg::ImageId id; std::vector< crg::ImageViewId > views; };
	struct At { int image; std::vector< int > views; Kind kind; VkImageLayout implicit{ VK_IMAGE_LAYOUT_GENERAL }; };
	struct Imp { int view; int image; int action; };  // an implicit action of a pass
	struct Ps
	{
		std::string name;
		std::vector< At > at;
		int g{};              // the graph the pass belongs to
		u32 maxCount{ 1u };
		bool compute{};
		bool resettable{};
		bool rp()const { for ( auto & a : at ) if ( isRP( a.kind ) ) return true; return false; }
		// filled while running
		crg::FramePass * pass{};
		bool enabled{ true };
		u32 index{};
		std::vector< int > inits;
		int records{};
		int executed{};
		crg::RunnablePass * run{};
		std::vector< std::pair< crg::ImageViewId, crg::RecordContext::ImplicitAction > > implicit;
		std::function< void( crg::RecordContext &, VkCommandBuffer, u32 ) > user;  // what the pass's own recording does besides
	};
	enum What : int { Layouts = 1, Contents = 2, Protocol = 4, Life = 8, Enabled = 16, Neighbours = 32, RpDesc = 64, Sync = 128, All = 255 };

	struct Ext { int image; VkImageSubresourceRange range; VkImageLayout layout; int serial{}; };
	struct World
	{
		int what{};
		Env env;
		std::vector< std::unique_ptr< crg::FrameGraph > > graphs;
		crg::FrameGraph * graph{};
		std::vector< Img > images;
		std::vector< Ps > passes;     // in execution order
		std::vector< crg::RunnableGraphPtr > runnables;
		std::map< std::pair< int, K >, u64 > ref;                      // defined contents
		std::map< int, std::map< int, std::set< K > > > used;          // per graph and image, the subresources a pass has used
		std::vector< Ext > ext;                                        // images the outside world fills before every frame
		std::vector< std::string > order;              // record calls of this frame
		std::map< int, std::vector< std::function< void() > > > before;  // changes of the reference before a pass works (implicit actions)
		std::optional< std::vector< std::string > > wantOrder;
		int frame{};
		std::string where;

		explicit World( int w, bool separate = false )
			: what{ w }, env{ separate }
		{
			mv::w->syncCheck = ( what & Sync ) != 0;
			addGraph( "fg" );
			graph = graphs[0].get();
		}
		~World()
		{
			runnables.clear();
			graphs.clear();
		}
		crg::FrameGraph & addGraph( std::string const & n )
		{
			graphs.push_back( std::make_unique< crg::FrameGraph >( *env.handler, n ) );
			return *graphs.back();
		}
		VkImage device( int i ) { return VkImage( env.handler->createImage( *env.ctx, images[size_t( i )].id ).first ); }
		VkImageSubresourceRange rangeOf( At const & a, u32 index )
		{
			auto v = images[size_t( a.image )].views[size_t( a.views[index % a.views.size()] )];
			return v.data->info.subresourceRange;
		}
		VkImageSubresourceRange physRange( At const & a, u32 index )
		{
			auto r = rangeOf( a, index );
			if ( images[size_t( a.image )].id.data->info.imageType == VK_IMAGE_TYPE_3D )
			{
				r.baseArrayLayer = 0;
				r.layerCount = 1;
			}
			return r;
		}
		static u64 token( int pass, u32 index, int frame, int image, K k, VkFormat f )
		{
			auto t = mv::hash( mv::hash( mv::hash( u64( pass + 1 ), index ), u64( frame ) ), mv::hash( u64( image ), u64( k.aspect * 1000 + int( k.layer ) * 10 + int( k.mip ) ) ) );
			auto ts = mv::texelSize( f, k.aspect );
			return ts >= 8 ? t : t & ( ( 1ull << ( 8 * ts ) ) - 1 );
		}
		crg::ImageViewIdArray viewsOf( At const & a )
		{
			crg::ImageViewIdArray r;
			for ( auto v : a.views ) r.push_back( images[size_t( a.image )].views[size_t( v )] );
			return r;
		}
		void declare( Ps & p )
		{
			u32 b = 0;
			for ( auto & a : p.at )
			{
				auto vs = viewsOf( a );
				auto & fp = *p.pass;
				auto asp = vs[0].data->info.subresourceRange.aspectMask;
				switch ( a.kind )
				{
				case Spl: fp.addSampledView( vs, b++ ); break;
				case Impl:
					if ( asp == VK_IMAGE_ASPECT_COLOR_BIT ) fp.addImplicitColourView( vs, a.implicit );
					else if ( asp == VK_IMAGE_ASPECT_DEPTH_BIT ) fp.addImplicitDepthView( vs, a.implicit );
					else fp.addImplicitDepthStencilView( vs, a.implicit );
					break;
				case IStr: fp.addInputStorageView( vs, b++ ); break;
				case OStr: fp.addOutputStorageView( vs, b++ ); break;
				case COStr: fp.addClearableOutputStorageView( vs, b++ ); break;
				case IOStr: fp.addInOutStorageView( vs, b++ ); break;
				case It: fp.addTransferInputView( vs ); break;
				case Ot: fp.addTransferOutputView( vs ); break;
				case IOt: fp.addTransferInOutView( vs ); break;
				case Ic: fp.addInputColourView( vs ); break;
				case Oc: fp.addOutputColourView( vs, clearOf( a ) ); break;
				case IOc: fp.addInOutColourView( vs ); break;
				case Id: fp.addInputDepthView( vs ); break;
				case Od: fp.addOutputDepthView( vs, clearOf( a ) ); break;
				case IOd: fp.addInOutDepthView( vs ); break;
				case Ids: fp.addInputDepthStencilView( vs ); break;
				case Ods: fp.addOutputDepthStencilView( vs, clearOf( a ) ); break;
				case IOds: fp.addInOutDepthStencilView( vs ); break;
				case Is: fp.addInputStencilView( vs ); break;
				case Os: fp.addOutputStencilView( vs, clearOf( a ) ); break;
				case IOs: fp.addInOutStencilView( vs ); break;
				}
			}
		}
		VkClearValue clearOf( At const & a )
		{
			VkClearValue r{};
			if ( isColourRP( a.kind ) )
				r.color = { { 0.25f, 0.5f, 0.125f, float( a.image + 1 ) } };
			else
				r.depthStencil = { 0.5f, 0x2Au };
			return r;
		}
		u64 clearTexel( At const & a, K k )
		{
			auto f = images[size_t( a.image )].id.data->info.format;
			VkClearValue v{};
			if ( isRP( a.kind ) )
				v = clearOf( a );
			u64 r{};
			if ( k.aspect == 0 ) { for ( int i = 0; i < 4; ++i ) r = mv::hash( r, v.color.uint32[i] ); }
			else if ( k.aspect == 1 ) { u32 x; std::memcpy( &x, &v.depthStencil.depth, 4 ); r = x; }
			else r = v.depthStencil.stencil;
			auto ts = mv::texelSize( f, k.aspect );
			return ts >= 8 ? r : r & ( ( 1ull << ( 8 * ts ) ) - 1 );
		}
		static std::string kstr( K k ) { return "aspect " + std::to_string( k.aspect ) + " layer " + std::to_string( k.layer ) + " mip " + std::to_string( k.mip ); }

		// what pass p must find and what it does, when the device executes its commands
		void execute( int pi, u32 index )
		{
			auto & p = passes[size_t( pi )];
			++p.executed;
			for ( auto & b : before[pi] ) b();
			if ( what & Sync )
				accesses( pi, index );
			std::string at = "frame " + std::to_string( frame ) + " pass " + p.name + " index " + std::to_string( index );
			// several views of a pass may name a subresource: reads come first
			for ( int phase = 0; phase < 2; ++phase )
				for ( auto & a : p.at )
				{
					auto & im = devImage( device( a.image ) );
					auto fmt = im.info.format;
					auto lay = layoutOf( a.kind, a.implicit, crg::isDepthStencilFormat( fmt ), crg::isDepthFormat( fmt ), env.ctx->separateDepthStencilLayouts );
					for ( auto k : mv::subsOf( im, physRange( a, index ) ) )
					{
						auto & s = im.subs[k];
						auto what2 = at + " view " + images[size_t( a.image )].views[size_t( a.views[index % a.views.size()] )].data->name + " (" + kname( a.kind ) + ") " + kstr( k );
						mc::step();
						if ( phase == 0 )
						{
							if ( what & Layouts )
								mc::check( s.layout == lay, what2 + ": the image is in layout " + str( s.layout ) + " instead of " + str( lay ) );
							if ( what & Contents )
							{
								if ( clears( a.kind ) )
								{
									auto c = clearTexel( a, k );
									for ( auto t : s.texels )
										mc::check( t == c, what2 + ": the view is not cleared" );
								}
								else if ( auto it = ref.find( { a.image, k } ); it != ref.end() && ( reads( a.kind ) ) )
									for ( auto t : s.texels )
										mc::check( t == it->second, what2 + ( t == mv::UNDEF ? ": the contents were discarded" : ": the contents are not the ones last written" ) );
							}
						}
						else
						{
							used[p.g][a.image].insert( k );
							if ( writes( a.kind ) )
							{
								auto t = token( pi, index, frame, a.image, k, fmt );
								std::fill( s.texels.begin(), s.texels.end(), t );
								ref[{ a.image, k }] = t;
							}
							else if ( a.kind == Ic || a.kind == Id || a.kind == Ids || a.kind == Is )
								ref.erase( { a.image, k } );  // declared with a "don't care" store
						}
					}
				}
		}
		// the accesses a pass declares, as done by its commands
		void accesses( int pi, u32 index )
		{
			auto & p = passes[size_t( pi )];
			auto shader = VkPipelineStageFlags( p.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
			for ( int phase = 0; phase < 2; ++phase )
				for ( auto & a : p.at )
				{
					if ( isRP( a.kind ) ) continue;
					if ( a.kind == Impl )
					{
						// what the layout it asks for is meant for
						VkAccessFlags r{}, w{};
						VkPipelineStageFlags st = VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
						switch ( a.implicit )
						{
						case VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL: r = VK_ACCESS_TRANSFER_READ_BIT; st = VK_PIPELINE_STAGE_TRANSFER_BIT; break;
						case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL: w = VK_ACCESS_TRANSFER_WRITE_BIT; st = VK_PIPELINE_STAGE_TRANSFER_BIT; break;
						case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL: r = VK_ACCESS_SHADER_READ_BIT; st = VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT; break;
						case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL: w = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT; st = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT; break;
						case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL: case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL: r = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT; break;
						case VK_IMAGE_LAYOUT_GENERAL: break;
						default: w = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT; break;
						}
						if ( auto acc = phase ? w : r )
							for ( auto k : mv::subsOf( devImage( device( a.image ) ), physRange( a, index ) ) )
							{
								mc::step();
								mv::syncImage( mv::h( device( a.image ) ), k, st, acc, phase == 1, "pass " + p.name + " of frame " + std::to_string( frame ) + " (implicit)" );
							}
						continue;
					}
					bool tr = a.kind == It || a.kind == Ot || a.kind == IOt;
					if ( phase ? !writes( a.kind ) : !reads( a.kind ) ) continue;
					auto acc = VkAccessFlags( tr ? ( phase ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT ) : ( phase ? VK_ACCESS_SHADER_WRITE_BIT : VK_ACCESS_SHADER_READ_BIT ) );
					for ( auto k : mv::subsOf( devImage( device( a.image ) ), physRange( a, index ) ) )
					{
						mc::step();
						mv::syncImage( mv::h( device( a.image ) ), k, tr ? VkPipelineStageFlags( VK_PIPELINE_STAGE_TRANSFER_BIT ) : shader, acc, phase == 1, "pass " + p.name + " of frame " + std::to_string( frame ) + " (" + kname( a.kind ) + ")" );
					}
				}
		}
		crg::RunnablePass::Callbacks callbacks( int pi )
		{
			return crg::RunnablePass::Callbacks{
				[this, pi]( u32 i ){ onInit( pi, i ); }
				, crg::RunnablePass::GetPipelineStateCallback( [this, pi](){ return pipelineState( pi ); } )
				, [this, pi]( crg::RecordContext & c, VkCommandBuffer cb, u32 i ){ onRecord( pi, c, cb, i ); }
				, crg::RunnablePass::GetPassIndexCallback( [this, pi](){ return passes[size_t( pi )].index; } )
				, crg::RunnablePass::IsEnabledCallback( [this, pi](){ return passes[size_t( pi )].enabled; } )
				, crg::RunnablePass::IsComputePassCallback( [this, pi](){ return passes[size_t( pi )].compute; } ) };
		}
		crg::PipelineState pipelineState( int pi )
		{
			auto & p = passes[size_t( pi )];
			if ( p.rp() )
				return crg::getPipelineState( VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT );
			if ( what & Sync )
				return crg::getPipelineState( p.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
			static VkPipelineStageFlags const st[]{ VK_PIPELINE_STAGE_TRANSFER_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_PIPELINE_STAGE_VERTEX_SHADER_BIT };
			return { VkAccessFlags( 1u << ( pi + 8 ) ), st[pi % 4] };
		}
		void onInit( int pi, u32 i )
		{
			auto & p = passes[size_t( pi )];
			if ( p.inits.size() <= i ) p.inits.resize( i + 1 );
			++p.inits[i];
			if ( what & Enabled )
				mc::check( p.inits[i] == 1, p.name + ": index " + std::to_string( i ) + " is initialised again" );
		}
		// a render pass may have to be made again
		void onRpInit( int pi, u32 i )
		{
			auto & p = passes[size_t( pi )];
			if ( p.inits.size() <= i ) p.inits.resize( i + 1 );
			++p.inits[i];
			if ( what & Enabled )
				mc::check( p.enabled && i == p.index, p.name + ": index " + std::to_string( i ) + " is initialised while it isn't used" );
		}
		void onRecord( int pi, crg::RecordContext & c, VkCommandBuffer cb, u32 i )
		{
			auto & p = passes[size_t( pi )];
			++p.records;
			order.push_back( p.name );
			if ( what & Enabled )
			{
				mc::check( p.enabled, p.name + " is recorded while disabled" );
				mc::check( i == p.index, p.name + " is recorded with index " + std::to_string( i ) + " instead of " + std::to_string( p.index ) );
				mc::check( p.inits.size() > i && ( p.rp() ? p.inits[i] >= 1 : p.inits[i] == 1 ), p.name + " is recorded before the initialisation of its index" );
			}
			if ( what & Neighbours )
			{
				// the previous and the next pass that work in this frame
				int prev = -1, next = -1;
				for ( int j = 0; j < int( passes.size() ); ++j )
					if ( passes[size_t( j )].enabled && passes[size_t( j )].g == p.g )
					{
						if ( j < pi ) prev = j;
						if ( j > pi && next < 0 ) next = j;
					}
				auto same = []( crg::PipelineState a, crg::PipelineState b ){ return a.access == b.access && a.pipelineStage == b.pipelineStage; };
				auto s = []( crg::PipelineState a ){ return std::to_string( a.access ) + "/" + std::to_string( a.pipelineStage ); };
				mc::check( same( c.getCurrPipelineState(), pipelineState( pi ) ), p.name + ": the current pipeline state is " + s( c.getCurrPipelineState() ) + " instead of " + s( pipelineState( pi ) ) );
				if ( prev >= 0 )
					mc::check( same( c.getPrevPipelineState(), pipelineState( prev ) ), p.name + ": the previous pipeline state is " + s( c.getPrevPipelineState() ) + " instead of the one of " + passes[size_t( prev )].name + " " + s( pipelineState( prev ) ) );
				if ( next >= 0 )
					mc::check( same( c.getNextPipelineState(), pipelineState( next ) ), p.name + ": the next pipeline state is " + s( c.getNextPipelineState() ) + " instead of the one of " + passes[size_t( next )].name + " " + s( pipelineState( next ) ) );
			}
			mv::cmdExec( cb, "pass " + p.name, [this, pi, i]{ execute( pi, i ); }, p.rp() );
			if ( p.user ) p.user( c, cb, i );
		}
		void build( bool chain = true )
		{
			std::map< int, crg::FramePass const * > prevs;
			for ( int pi = 0; pi < int( passes.size() ); ++pi )
			{
				auto & p = passes[size_t( pi )];
				auto & prev = prevs[p.g];
				if ( !p.pass )
				{
					p.pass = &graphs[size_t( p.g )]->createPass( p.name, [this, pi]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
						{
							auto & q = passes[size_t( pi )];
							crg::ru::Config cfg{ q.maxCount, q.resettable };
							for ( auto & [v, a] : q.implicit )
								cfg.implicitAction( v, a );
							crg::RunnablePassPtr r;
							if ( q.rp() )
								r = std::make_unique< crg::RenderPass >( fp, ctx, rg
									, crg::RenderPass::Callbacks{ [this, pi]( u32 i ){ onRpInit( pi, i ); }
										, [this, pi]( crg::RecordContext & c, VkCommandBuffer cb, u32 i ){ onRecord( pi, c, cb, i ); }
										, crg::RenderPass::GetSubpassContentsCallback( [](){ return VK_SUBPASS_CONTENTS_INLINE; } )
										, crg::RunnablePass::GetPassIndexCallback( [this, pi](){ return passes[size_t( pi )].index; } )
										, crg::RunnablePass::IsEnabledCallback( [this, pi](){ return passes[size_t( pi )].enabled; } ) }
									, VkExtent2D{}, cfg );
							else
								r = std::make_unique< crg::RunnablePass >( fp, ctx, rg, callbacks( pi ), cfg );
							q.run = r.get();
							return r;
						} );
					declare( p );
				}
				if ( chain && prev )
					p.pass->addDependency( *prev );
				prev = p.pass;
			}
		}
		void compile() { for ( auto & g : graphs ) runnables.push_back( g->compile( *env.ctx ) ); }
		// the graphs are compiled again, once what they made before is gone
		void again( bool kept )
		{
			mv::waitIdle();
			runnables.clear();
			if ( !kept ) ref.clear();
			for ( auto & p : passes ) p.inits.clear();
			compile();
		}
		// one frame; the semaphore it returns is consumed by "the presentation"
		void run( int g = 0, std::vector< crg::SemaphoreWait > const & wait = {} )
		{
			where = "frame " + std::to_string( frame ) + ( g ? " of graph " + std::to_string( g ) : "" );
			order.clear();
			external();
			for ( auto & p : passes ) { p.records = 0; p.executed = 0; }
			auto subs = mv::w->calls["QueueSubmit"];
			auto sems = runnables[size_t( g )]->run( wait, mv::queue() );
			if ( what & Enabled )
			{
				std::vector< std::string > want;
				for ( auto & p : passes )
				{
					if ( p.g != g ) continue;
					if ( p.enabled ) want.push_back( p.name );
					mc::check( p.executed == ( p.enabled ? 1 : 0 ), where + ": " + p.name + " works " + std::to_string( p.executed ) + " times, while it is " + ( p.enabled ? "enabled" : "disabled" ) );
				}
				if ( wantOrder ) want = *wantOrder;
				mc::check( want == order, where + ": the passes were not recorded once each in the order of the graph" );
			}
			if ( what & Protocol )
			{
				mc::check( mv::w->calls["QueueSubmit"] == subs + 1, where + ": not exactly one submission" );
				mc::check( sems.size() == 1 && sems[0].semaphore, where + ": the frame does not return one semaphore" );
			}
			for ( auto & s : sems )
				mv::consumeSemaphore( s.semaphore );
			errors();
			finalStates( g );
			++frame;
		}
		// a pass is recorded again on its own, with what it had in the last frame
		void recordAgain( int pi, bool reset )
		{
			auto & p = passes[size_t( pi )];
			where = p.name + " recorded again after frame " + std::to_string( frame - 1 );
			auto main = mv::w->last.cbs;
			auto text = []( u64 cb )
			{
				std::vector< std::string > r;
				for ( auto c : mv::w->commandBuffers.at( cb ).cmds )
				{
					if ( c.op == mv::Op::BeginRP || c.op == mv::Op::EndRP ) c.a = c.b = 0;  // the render pass may be made again
					r.push_back( mv::describe( c ) );
				}
				return r;
			};
			auto frameCmds = text( main.back() );
			auto join = []( std::vector< std::string > const & l ) { std::string r; for ( auto & x : l ) r += ( r.empty() ? "" : "; " ) + x; return r; };
			std::map< u64, u64 > begun;
			for ( auto & [id, cb] : mv::w->commandBuffers ) begun[id] = cb.begun;
			auto subs = mv::w->calls["QueueSubmit"];
			auto recs = p.records;
			order.clear();
			if ( reset )
				p.run->resetCommandBuffer( p.index );
			auto i = p.run->reRecordCurrent();
			u64 own{};
			int n = 0;
			for ( auto & [id, cb] : mv::w->commandBuffers )
				if ( auto it = begun.find( id ); cb.begun != ( it == begun.end() ? 0u : it->second ) ) { own = id; ++n; }
			if ( what & Enabled )
			{
				mc::check( i == ( p.enabled ? p.index : crg::RunnablePass::InvalidIndex ), where + ": index " + std::to_string( i ) + " is told" );
				mc::check( p.records == recs + ( p.enabled ? 1 : 0 ), where + ": it is recorded " + std::to_string( p.records - recs ) + " times, while it is " + ( p.enabled ? "enabled" : "disabled" ) );
				mc::check( mv::w->calls["QueueSubmit"] == subs, where + ": something is submitted" );
				mc::check( n == 1 && !main.empty() && own != main.back(), where + ": not in one command buffer of its own" );
				auto & cb = mv::w->commandBuffers.at( own );
				mc::check( cb.state == mv::CbState::Executable, where + ": the command buffer can't be executed" );
				auto cmds = text( own );
				mc::check( std::search( frameCmds.begin(), frameCmds.end(), cmds.begin(), cmds.end() ) != frameCmds.end(), where + ": the commands aren't the ones of the frame: " + join( cmds ) + " / " + join( frameCmds ) );
				mc::check( cmds.empty() != p.enabled, where + ( p.enabled ? ": there is no command" : ": there are commands though the pass is disabled" ) );
			}
			errors();
		}
		void external()
		{
			for ( auto & e : ext )
			{
				mv::waitIdle();
				++e.serial;
				auto & im = devImage( device( e.image ) );
				for ( auto k : mv::subsOf( im, e.range ) )
				{
					auto t = token( 99, u32( e.serial ), frame, e.image, k, im.info.format );
					im.subs[k].layout = e.layout;
					std::fill( im.subs[k].texels.begin(), im.subs[k].texels.end(), t );
					ref[{ e.image, k }] = t;
				}
			}
		}
		bool isExt( int i )const { for ( auto & e : ext ) if ( e.image == i ) return true; return false; }
		void finalStates( int g )
		{
			for ( auto & [i, ks] : used[g] )
			{
				auto & img = images[size_t( i )];
				auto & im = devImage( device( i ) );
				bool d3 = img.id.data->info.imageType == VK_IMAGE_TYPE_3D;
				for ( auto k : ks )
				{
					auto t = graphs[size_t( g )]->getFinalLayoutState( img.id, d3 ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D, range( crg::getAspectMask( im.info.format ), k.mip, 1, k.layer, 1 ) );
					auto actual = im.subs[k].layout;
					mc::state( mv::hash( mv::hash( u64( i ), u64( k.aspect * 100 + int( k.layer ) * 10 + int( k.mip ) ) ), mv::hash( u64( actual ), mv::hash( u64( t.layout ), mv::hash( t.state.access, t.state.pipelineStage ) ) ) ) );
					if ( what & Layouts )
						mc::check( t.layout == actual, where + ": after the frame " + img.id.data->name + " " + kstr( k ) + " is in layout " + str( actual ) + " but the graph says " + str( t.layout ) );
				}
			}
		}
		void errors()
		{
			Cats c;
			if ( what & Layouts ) c.insert( { "layout" } );
			if ( what & Contents ) c.insert( { "content" } );
			if ( what & Protocol ) c.insert( { "submit", "label", "usage", "param" } );
			if ( what & Life ) c.insert( { "life", "leak", "mem" } );
			if ( what & RpDesc ) c.insert( { "rp" } );
			if ( what & Sync ) c.insert( { "hazard", "sync" } );
			noErrors( c, where );
		}
		void finish()
		{
			mv::waitIdle();
			runnables.clear();
			graphs.clear();
			env.close( what & Life );
			where = "at the end";
			errors();
			mc::compared();
			std::string o;
			for ( auto & [k, t] : ref ) o += std::to_string( t ) + ",";
			mc::outcome( o );
		}
		void note( mc::Choices & ch )
		{
			for ( auto & p : passes )
			{
				std::string s = p.name + ( p.compute ? " (compute):" : ":" );
				for ( auto & a : p.at )
				{
					s += std::string{ " " } + kname( a.kind ) + "(";
					for ( auto v : a.views ) s += images[size_t( a.image )].views[size_t( v )].data->name + " ";
					s += ")";
				}
				ch.note( s );
			}
		}
		void noteMask( mc::Choices & ch )
		{
			std::string s = "frame " + std::to_string( frame ) + " enabled:";
			for ( auto & p : passes ) s += std::string( " " ) + ( p.enabled ? p.name + "[" + std::to_string( p.index ) + "]" : "-" );
			ch.note( s );
		}
	};
	// ---- image sets
	inline void colourImage( World & w, std::string const & n, u32 mips, u32 layers, std::vector< std::array< u32, 4 > > const & views )
	{
		Img r;
		r.id = w.graph->createImage( img( n, VK_FORMAT_R8G8B8A8_UNORM, 4, 4, mips, layers ) );
		int i = 0;
		for ( auto & v : views )
			r.views.push_back( w.graph->createView( view( n + "v" + std::to_string( i++ ) + "m" + std::to_string( v[0] ) + "+" + std::to_string( v[1] ) + "l" + std::to_string( v[2] ) + "+" + std::to_string( v[3] ), r.id
				, v[3] > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, v[0], v[1], v[2], v[3] ) ) );
		w.images.push_back( r );
	}
}
