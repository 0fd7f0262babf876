// The passes the library provides: render passes and their framebuffers (V01), descriptor sets (V02),
// pipelines and draw calls (V03), transfers (V04), and the exact effects of implicit actions (E02).
#include "sim.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <deque>

using namespace sim;
namespace
{
	std::string n2( u64 v ) { return std::to_string( v ); }
	Cats const AllCats{ "desc", "draw", "label", "layout", "leak", "life", "mem", "param", "query", "region", "rp", "submit", "usage" };

	bool g_sync = false;   // decide the order of the memory accesses, rather than everything else
	Cats const & cats() { static Cats const s{ "hazard", "sync" }; return g_sync ? s : AllCats; }

	struct Rig
	{
		Env env;
		std::unique_ptr< crg::FrameGraph > graph;
		crg::RunnableGraphPtr run;
		int frames{};
		Rig() { mv::w->syncCheck = g_sync; graph = std::make_unique< crg::FrameGraph >( *env.handler, "fg" ); }
		void compile() { run = graph->compile( *env.ctx ); }
		void frame()
		{
			for ( auto & s : run->run( mv::queue() ) ) mv::consumeSemaphore( s.semaphore );
			mv::waitIdle();
			noErrors( cats(), "frame " + n2( u64( frames ) ) );
			++frames;
		}
		// the commands of the last submission
		std::vector< mv::Cmd const * > cmds()
		{
			std::vector< mv::Cmd const * > r;
			for ( auto cb : mv::w->last.cbs ) collect( cb, r );
			return r;
		}
		static void collect( u64 cb, std::vector< mv::Cmd const * > & r )
		{
			auto it = mv::w->commandBuffers.find( cb );
			if ( it == mv::w->commandBuffers.end() ) return;
			for ( auto & c : it->second.cmds )
			{
				r.push_back( &c );
				if ( c.op == mv::Op::ExecCmds )
					for ( auto h : c.handles ) collect( h, r );
			}
		}
		void close()
		{
			mv::waitIdle();
			run.reset();
			graph.reset();
			env.close( !g_sync );
			noErrors( cats(), "at the end" );
			mc::compared();
		}
		~Rig() { run.reset(); graph.reset(); }
		VkImage device( crg::ImageId i ) { return VkImage( env.handler->createImage( *env.ctx, i ).first ); }
		crg::ImageId image( std::string n, VkFormat f, u32 wd, u32 hg, u32 mips = 1, u32 layers = 1, VkImageType t = VK_IMAGE_TYPE_2D, u32 d = 1 ) { return graph->createImage( img( std::move( n ), f, wd, hg, mips, layers, t, d ) ); }
		crg::ImageViewId v( std::string n, crg::ImageId i, u32 mip = 0, u32 mips = 1, u32 layer = 0, u32 layers = 1, VkImageAspectFlags a = 0, int type = -1 )
		{
			auto vt = type >= 0 ? VkImageViewType( type ) : i.data->info.imageType == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : layers > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
			return graph->createView( view( std::move( n ), i, vt, mip, mips, layer, layers, a ) );
		}
	};
	// a pass of the user, with fixed callbacks
	crg::FramePass & userPass( Rig & r, std::string name, std::function< void( crg::RecordContext &, VkCommandBuffer ) > rec = {}, bool const * enabled = nullptr, crg::ru::Config cfg = {} )
	{
		return r.graph->createPass( name, [rec, enabled, cfg]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
			{
				return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( u32 ){}
						, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_TRANSFER_BIT ); } )
						, [rec]( crg::RecordContext & c, VkCommandBuffer cb, u32 ){ if ( rec ) rec( c, cb ); }
						, crg::RunnablePass::GetPassIndexCallback( [](){ return 0u; } )
						, crg::RunnablePass::IsEnabledCallback( [enabled](){ return enabled ? *enabled : true; } ) }, cfg );
			} );
	}
	// does the device view show what the declared view says?
	void checkView( Rig & r, u64 dev, crg::ImageViewId want, std::string const & what )
	{
		auto it = mv::w->views.find( dev );
		mc::check( it != mv::w->views.end(), what + ": no such view on the device" );
		auto & i = it->second.info;
		auto & wi = want.data->info;
		auto & wr = wi.subresourceRange;
		mc::check( i.image == r.device( want.data->image ), what + ": view of another image than " + want.data->name );
		mc::check( i.format == wi.format && i.viewType == wi.viewType, what + ": format or type of the view " + want.data->name );
		auto & sr = i.subresourceRange;
		mc::check( sr.aspectMask == wr.aspectMask && sr.baseMipLevel == wr.baseMipLevel && sr.levelCount == wr.levelCount && sr.baseArrayLayer == wr.baseArrayLayer && sr.layerCount == wr.layerCount, what + ": other subresources than those of " + want.data->name );
	}

	VkPipelineShaderStageCreateInfo stage( VkShaderStageFlagBits s, VkShaderModule m ) { return { VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, nullptr, 0, s, m, "main", nullptr }; }
	// a program and the modules it is made of
	struct Program
	{
		std::vector< u64 > modules;
		crg::VkPipelineShaderStageCreateInfoArray stages;
		explicit Program( bool compute, std::string const & n = "" )
		{
			auto add = [&]( VkShaderStageFlagBits s ) { auto m = mv::makeModule( n.c_str() ); modules.push_back( mv::h( m ) ); stages.push_back( stage( s, m ) ); };
			if ( compute ) add( VK_SHADER_STAGE_COMPUTE_BIT );
			else { add( VK_SHADER_STAGE_VERTEX_BIT ); add( VK_SHADER_STAGE_FRAGMENT_BIT ); }
		}
	};

	enum PType { PRender, PQuad, PMesh, PCompute };
	char const * pname( int t ) { static char const * n[]{ "RenderPass", "RenderQuad", "RenderMesh", "ComputePass" }; return n[t]; }

	//************************************************************************************************
	// V01: render passes, framebuffers, blend states, viewports
	enum AK { Ic, Oc, IOc, Id, Od, IOd, Ids, Ods, IOds, Is, Os, IOs };
	char const * akn( int k ) { static char const * n[]{ "Ic", "Oc", "IOc", "Id", "Od", "IOd", "Ids", "Ods", "IOds", "Is", "Os", "IOs" }; return n[k]; }
	bool akDepthAspect( AK k ) { return k >= Id && k <= IOds; }
	bool akStencilAspect( AK k ) { return k >= Ids; }
	bool akClears( AK k ) { return k == Oc || k == Od || k == Ods || k == Os; }
	bool akWrites( AK k ) { return k % 3 != 0; }
	bool akReads( AK k ) { return k % 3 != 1; }
	struct Decl { AK k; std::vector< crg::ImageViewId > views; VkClearValue clear{}; VkPipelineColorBlendAttachmentState blend{ crg::DefaultBlendState }; bool filled{}; };
	VkPipelineColorBlendAttachmentState blendOf( int i ) { auto b = crg::DefaultBlendState; b.blendEnable = VK_TRUE; b.srcColorBlendFactor = VkBlendFactor( 2 + i ); b.colorWriteMask = VkColorComponentFlags( 1 + i ); return b; }
	bool sameBlend( VkPipelineColorBlendAttachmentState const & a, VkPipelineColorBlendAttachmentState const & b )
	{
		return a.blendEnable == b.blendEnable && a.srcColorBlendFactor == b.srcColorBlendFactor && a.dstColorBlendFactor == b.dstColorBlendFactor && a.colorBlendOp == b.colorBlendOp
			&& a.srcAlphaBlendFactor == b.srcAlphaBlendFactor && a.dstAlphaBlendFactor == b.dstAlphaBlendFactor && a.alphaBlendOp == b.alphaBlendOp && a.colorWriteMask == b.colorWriteMask;
	}
	void declare( crg::FramePass & p, Decl const & d )
	{
		crg::ImageViewIdArray v( d.views.begin(), d.views.end() );
		switch ( d.k )
		{
		case Ic: p.addInputColourView( v ); break;
		case Oc: p.addOutputColourView( v, d.clear ); break;
		case IOc: p.addInOutColourView( v, d.blend ); break;
		case Id: p.addInputDepthView( v ); break;
		case Od: p.addOutputDepthView( v, d.clear ); break;
		case IOd: p.addInOutDepthView( v ); break;
		case Ids: p.addInputDepthStencilView( v ); break;
		case Ods: p.addOutputDepthStencilView( v, d.clear ); break;
		case IOds: p.addInOutDepthStencilView( v ); break;
		case Is: p.addInputStencilView( v ); break;
		case Os: p.addOutputStencilView( v, d.clear ); break;
		case IOs: p.addInOutStencilView( v ); break;
		}
	}
	struct RpCase
	{
		Rig r;
		PType type{};
		std::vector< Decl > decls;
		u32 index{}, indices{ 1 };
		std::optional< VkOffset2D > position;
		std::optional< VkExtent2D > size;
		bool perIndexPrograms{};
		VkSubpassContents contents{ VK_SUBPASS_CONTENTS_INLINE };
		std::vector< Program > programs;
		crg::FramePass * pass{};
		void create( std::function< void( crg::FramePass & ) > more = {} )
		{
			for ( u32 i = 0; i < ( perIndexPrograms ? indices : 1u ); ++i ) programs.emplace_back( false );
			std::vector< crg::VkPipelineShaderStageCreateInfoArray > progs;
			for ( auto & p : programs ) progs.push_back( p.stages );
			pass = &r.graph->createPass( "rp", [this, progs]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
				{
					crg::ru::Config ru{ indices };
					if ( type == PRender )
						return std::make_unique< crg::RenderPass >( fp, ctx, rg, crg::RenderPass::Callbacks{ []( u32 ){}
							, []( crg::RecordContext &, VkCommandBuffer cb, u32 ){ mv::cmdExec( cb, "draws", []{}, true ); }
							, crg::RenderPass::GetSubpassContentsCallback( [this](){ return contents; } )
							, crg::RunnablePass::GetPassIndexCallback( [this](){ return index; } ) }, size ? *size : VkExtent2D{}, ru );
					if ( type == PQuad )
					{
						crg::rq::Config c;
						c.passIndex( &index );
						c.programs( progs );
						if ( position ) c.renderPosition( *position );
						if ( size ) c.renderSize( *size );
						return std::make_unique< crg::RenderQuad >( fp, ctx, rg, ru, c );
					}
					crg::rm::Config c;
					c.getPassIndex( crg::RunnablePass::GetPassIndexCallback( [this](){ return index; } ) );
					c.programs( progs );
					if ( position ) c.renderPosition( *position );
					if ( size ) c.renderSize( *size );
					return std::make_unique< crg::RenderMesh >( fp, ctx, rg, ru, std::move( c ) );
				} );
			if ( more ) more( *pass );
			for ( auto & d : decls ) declare( *pass, d );
		}
		VkExtent2D area()
		{
			VkExtent2D e{ ~0u, ~0u };
			for ( auto & d : decls )
			{
				auto v = d.views[index % d.views.size()];
				e.width = std::min( e.width, mv::mipDim( v.data->image.data->info.extent.width, v.data->info.subresourceRange.baseMipLevel ) );
				e.height = std::min( e.height, mv::mipDim( v.data->image.data->info.extent.height, v.data->info.subresourceRange.baseMipLevel ) );
			}
			return e;
		}
		u32 layers()
		{
			u32 l = ~0u;
			for ( auto & d : decls ) l = std::min( l, d.views[index % d.views.size()].data->info.subresourceRange.layerCount );
			return l;
		}
		void check( bool viewport = true )
		{
			mv::Cmd const * begin{};
			auto all = r.cmds();
			for ( auto c : all )
				if ( c->op == mv::Op::BeginRP ) { mc::check( !begin, "two render passes begun" ); begin = c; }
			mc::check( begin, "no render pass begun" );
			mc::check( begin->n[0] == u64( contents ), "the commands of the render pass don't come the way they were declared to" );
			auto & rp = mv::w->renderPasses.at( begin->a );
			auto & fb = mv::w->framebuffers.at( begin->b );
			mc::step();
			mc::check( rp.subpasses.size() == 1, "not one subpass" );
			mc::check( rp.attaches.size() == decls.size() && fb.views.size() == decls.size(), "the render pass has " + n2( rp.attaches.size() ) + " attachments for " + n2( decls.size() ) + " declared ones" );
			auto e = area();
			mc::check( begin->area.offset.x == 0 && begin->area.offset.y == 0 && begin->area.extent.width == e.width && begin->area.extent.height == e.height
				, "the render area is " + n2( begin->area.extent.width ) + "x" + n2( begin->area.extent.height ) + " instead of " + n2( e.width ) + "x" + n2( e.height ) );
			mc::check( fb.w >= e.width && fb.hgt >= e.height, "the framebuffer is smaller than the attachments" );
			mc::check( fb.layers == layers(), "the framebuffer has " + n2( fb.layers ) + " layers instead of " + n2( layers() ) );
			u32 colour = 0;
			bool depth = false;
			std::set< u32 > seen;
			auto & sp = rp.subpasses[0];
			for ( auto & d : decls )
			{
				std::string what = std::string{ "attachment " } + akn( d.k ) + " " + d.views[0].data->name;
				u32 at;
				VkImageLayout lay;
				if ( d.k <= IOc )
				{
					mc::check( colour < sp.colour.size(), what + ": missing colour reference" );
					at = sp.colour[colour].attachment;
					lay = sp.colour[colour].layout;
					++colour;
					mc::check( lay == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL || lay == VK_IMAGE_LAYOUT_GENERAL, what + ": layout " + str( lay ) );
				}
				else
				{
					mc::check( sp.hasDepth, what + ": missing depth reference" );
					depth = true;
					at = sp.depth.attachment;
					lay = sp.depth.layout;
					mc::check( lay == VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL || lay == VK_IMAGE_LAYOUT_GENERAL || ( !akWrites( d.k ) && lay == VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL ), what + ": layout " + str( lay ) );
				}
				mc::check( at < rp.attaches.size() && seen.insert( at ).second, what + ": attachment " + n2( at ) + " referenced twice or out of range" );
				auto want = d.views[index % d.views.size()];
				checkView( r, fb.views[at], want, what );
				auto & ad = rp.attaches[at];
				mc::check( ad.format == want.data->info.format && ad.samples == VK_SAMPLE_COUNT_1_BIT, what + ": format or samples" );
				for ( int asp = 0; asp < 2; ++asp )
				{
					bool used = asp ? akStencilAspect( d.k ) : ( d.k <= IOc || akDepthAspect( d.k ) );
					if ( !used ) continue;
					auto load = asp ? ad.stencilLoadOp : ad.loadOp;
					auto store = asp ? ad.stencilStoreOp : ad.storeOp;
					if ( akClears( d.k ) ) mc::check( load == VK_ATTACHMENT_LOAD_OP_CLEAR, what + ": declared as cleared but not cleared" );
					else if ( d.filled ) mc::check( load == VK_ATTACHMENT_LOAD_OP_LOAD, what + ": its contents aren't loaded" );
					if ( akWrites( d.k ) ) mc::check( store == VK_ATTACHMENT_STORE_OP_STORE, what + ": what is written isn't stored" );
				}
				if ( akClears( d.k ) )
				{
					mc::check( at < begin->clears.size(), what + ": no clear value" );
					if ( d.k == Oc ) mc::check( std::memcmp( &begin->clears[at].color, &d.clear.color, sizeof d.clear.color ) == 0, what + ": clear colour" );
					else
					{
						if ( akDepthAspect( d.k ) ) mc::check( begin->clears[at].depthStencil.depth == d.clear.depthStencil.depth, what + ": clear depth" );
						if ( akStencilAspect( d.k ) ) mc::check( begin->clears[at].depthStencil.stencil == d.clear.depthStencil.stencil, what + ": clear stencil" );
					}
				}
			}
			mc::check( colour == sp.colour.size() && depth == sp.hasDepth, "there are other attachments in the subpass than the declared ones" );
			if ( type != PRender )
			{
				mc::check( mv::w->drawn.size() >= 1, "nothing is drawn" );
				auto & dr = mv::w->drawn.back();
				auto & pl = mv::w->pipelines.at( dr.bound.pipeline );
				colour = 0;
				for ( auto & d : decls )
					if ( d.k <= IOc )
					{
						mc::check( colour < pl.blends.size(), "missing blend state" );
						mc::check( sameBlend( pl.blends[colour], d.k == IOc ? d.blend : crg::DefaultBlendState ), "the blend state of colour attachment " + n2( colour ) + " isn't the declared one" );
						++colour;
					}
				mc::check( colour == pl.blends.size(), "too many blend states" );
				if ( viewport )
				{
					auto pos = position ? *position : VkOffset2D{};
					if ( size ) e = *size;
					mc::check( pl.viewports.size() == 1 && pl.scissors.size() == 1, "not one viewport and scissor" );
					auto & vp = pl.viewports[0];
					auto & sc = pl.scissors[0];
					mc::check( vp.x == float( pos.x ) && vp.y == float( pos.y ) && vp.width == float( e.width ) && vp.height == float( e.height ) && vp.minDepth == 0.0f && vp.maxDepth == 1.0f
						, "the viewport is " + n2( u64( vp.x ) ) + "," + n2( u64( vp.y ) ) + " " + n2( u64( vp.width ) ) + "x" + n2( u64( vp.height ) ) + " instead of " + n2( e.width ) + "x" + n2( e.height ) );
					mc::check( sc.offset.x == pos.x && sc.offset.y == pos.y && sc.extent.width == e.width && sc.extent.height == e.height, "the scissor isn't the render area" );
				}
			}
			std::string st;
			for ( auto & d : decls ) st += akn( d.k );
			mc::state( st + n2( e.width ) + "x" + n2( e.height ) + "l" + n2( fb.layers ) + "t" + n2( type ) + "i" + n2( index ) );
		}
	};
	void fillPass( RpCase & k )
	{
		bool any = false;
		for ( auto & d : k.decls ) any |= d.filled;
		if ( !any ) return;
		auto & p = userPass( k.r, "fill" );
		for ( auto & d : k.decls )
			if ( d.filled )
				p.addTransferOutputView( crg::ImageViewIdArray( d.views.begin(), d.views.end() ) );
		k.pass->addDependency( p );
	}
	VkClearValue clearOf( int i, bool colour )
	{
		VkClearValue c{};
		if ( colour ) c.color = { { 0.125f * float( i + 1 ), 0.25f, 0.5f, 1.0f } };
		else c.depthStencil = { 0.25f * float( i + 1 ), u32( 7 + i ) };
		return c;
	}
	// every list of attachments, in every order
	void attachments( mc::Choices & c )
	{
		RpCase k;
		k.type = PType( c.pick( 3, "pass" ) );
		int nc = c.pick( mc::thorough() ? 5 : 4, "colours" );
		int dk = c.pick( 10, "depth" );  // 0: none
		if ( nc + ( dk ? 1 : 0 ) == 0 ) c.prune();
		int dpos = dk ? c.pick( nc + 1, "depth position" ) : -1;
		bool filled = c.flip( "filled before" );
		if ( k.type == PRender && c.flip( "secondary command buffers" ) ) k.contents = VK_SUBPASS_CONTENTS_SECONDARY_COMMAND_BUFFERS;
		for ( int i = 0; i <= nc; ++i )
		{
			if ( dk && i == dpos )
			{
				Decl d;
				d.k = AK( Id + dk - 1 );
				d.views.push_back( k.r.v( "dv", k.r.image( "d", VK_FORMAT_D24_UNORM_S8_UINT, 6, 5 ) ) );
				d.clear = clearOf( 1, false );
				k.decls.push_back( d );
			}
			if ( i < nc )
			{
				Decl d;
				d.k = AK( c.pick( 3, "colour" ) );
				d.views.push_back( k.r.v( "c" + n2( u64( i ) ) + "v", k.r.image( "c" + n2( u64( i ) ), i % 2 ? VK_FORMAT_R32G32B32A32_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM, 6, 5 ) ) );
				d.clear = clearOf( i, true );
				if ( d.k == IOc ) d.blend = blendOf( i );
				k.decls.push_back( d );
			}
		}
		for ( auto & d : k.decls ) d.filled = filled && akReads( d.k );
		std::string s = pname( k.type );
		for ( auto & d : k.decls ) s += std::string( " " ) + akn( d.k );
		c.note( s );
		// other declarations of the pass don't make attachments
		bool extra = c.flip( "a sampled view between them" );
		auto sv = k.r.v( "sv", k.r.image( "s", VK_FORMAT_R8G8B8A8_UNORM, 2, 2 ) );
		k.create( [&]( crg::FramePass & p ){ if ( extra ) p.addSampledView( sv, 0u ); } );
		fillPass( k );
		k.r.compile();
		for ( int f = 0; f < 2; ++f )
		{
			k.r.frame();
			k.check();
		}
		mc::outcome( s );
		k.r.close();
	}
	// the sizes: odd ones, mips down to 1, several layers, several sizes in a pass, several indices
	void areas( mc::Choices & c )
	{
		RpCase k;
		k.type = PType( c.pick( 3, "pass" ) );
		std::vector< u32 > const dims = mc::thorough() ? std::vector< u32 >{ 1, 2, 3, 5, 8 } : std::vector< u32 >{ 1, 3, 8 };
		int nd = 1 + c.pick( 2, "attachments" );
		k.indices = u32( 1 + c.pick( 2, "indices" ) );
		k.perIndexPrograms = k.indices > 1 && k.type != PRender;
		int asked = c.pick( k.type == PRender ? 2 : 3, "size and position asked for" );
		u32 w0 = c.of( dims, "width" ), h0 = c.of( dims, "height" );
		for ( int i = 0; i < nd; ++i )
		{
			u32 wd = w0, hg = h0, layers = 2;
			if ( i == 1 )
				switch ( c.pick( 3, "other size" ) )
				{
				case 0: break;
				case 1: wd = 2 * w0; break;
				case 2: hg = 3; wd = 3; break;
				}
			bool depth = i == 1 && c.flip( "depth" );
			u32 full = 1;
			for ( u32 m = std::max( wd, hg ); m > 1; m /= 2 ) ++full;
			u32 mips = std::min( full, 3u );
			Decl d;
			d.k = depth ? Od : Oc;
			d.clear = clearOf( i, !depth );
			auto im = k.r.image( "i" + n2( u64( i ) ), depth ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM, wd, hg, mips, layers );
			u32 m0 = u32( c.pick( int( mips ), "mip" ) );
			u32 nl = i == 0 || c.flip( "all layers" ) ? u32( 1 + c.pick( 2, "layers" ) ) : 1u;
			for ( u32 x = 0; x < k.indices; ++x )
			{
				// the second index: another mip, or another layer
				u32 m = x == 0 ? m0 : ( m0 + 1 ) % mips;
				d.views.push_back( k.r.v( "v" + n2( u64( i ) ) + n2( x ), im, m, 1, nl == 1 ? x % 2 : 0, nl ) );
			}
			k.decls.push_back( d );
		}
		if ( asked ) k.size = VkExtent2D{ w0 + 1, h0 + 2 };
		if ( asked == 2 ) k.position = VkOffset2D{ 1, 2 };
		c.note( std::string( pname( k.type ) ) + " " + n2( w0 ) + "x" + n2( h0 ) );
		k.create();
		k.r.compile();
		int nf = k.indices > 1 ? 3 : 1;
		for ( int f = 0; f < nf; ++f )
		{
			k.index = k.indices > 1 ? u32( mc::thorough() || f == 0 ? c.pick( 2, "index" ) : 1 - int( k.index ) ) : 0u;
			k.r.frame();
			k.check();
		}
		mc::outcome( n2( k.area().width ) + "x" + n2( k.area().height ) + "l" + n2( k.layers() ) );
		k.r.close();
	}

	// a single program for indices of different sizes
	void sizes( mc::Choices & c )
	{
		RpCase k;
		k.type = c.flip( "mesh" ) ? PMesh : PQuad;
		k.indices = 2;
		Decl d;
		d.k = Oc;
		d.clear = clearOf( 0, true );
		auto im = k.r.image( "i", VK_FORMAT_R8G8B8A8_UNORM, 8, 8, 2, 1 );
		d.views.push_back( k.r.v( "m0", im, 0 ) );
		d.views.push_back( k.r.v( "m1", im, 1 ) );
		k.decls.push_back( d );
		k.size = VkExtent2D{ 4, 4 };
		if ( c.flip( "position" ) ) k.position = VkOffset2D{ 1, 2 };
		k.create();
		k.r.compile();
		for ( int f = 0; f < 4; ++f )
		{
			k.index = u32( c.pick( 2, "index" ) );
			k.r.frame();
			k.check( true );
		}
		k.r.close();
	}
	//************************************************************************************************
	// a pass working with a program: compute, quad or mesh; the last two render to an image of the rig
	struct Worker
	{
		Rig r;
		PType type{};
		u32 indices{ 1 }, index{};
		crg::pp::Config base{};
		bool hasBase{};
		std::vector< Program > programs;
		crg::FramePass * pass{};
		crg::RunnablePass * run{};
		std::function< void( crg::FramePass & ) > declare;
		// configuration of the work itself
		std::function< void( crg::cp::Config & ) > compute;
		std::function< void( crg::rq::Config & ) > quad;
		std::function< void( crg::rm::Config & ) > mesh;
		void create()
		{
			if ( !hasBase )
			{
				programs.emplace_back( type == PCompute );
				base.program( programs[0].stages );
			}
			pass = &r.graph->createPass( "work", [this]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
				{
					crg::ru::Config ru{ indices };
					ru.resettable = true;
					crg::RunnablePassPtr res;
					if ( type == PCompute )
					{
						crg::cp::Config c;
						c.baseConfig( base );
						c.passIndex( &index );
						if ( compute ) compute( c );
						res = std::make_unique< crg::ComputePass >( fp, ctx, rg, ru, std::move( c ) );
					}
					else if ( type == PQuad )
					{
						crg::rq::Config c;
						c.baseConfig( base );
						c.passIndex( &index );
						if ( quad ) quad( c );
						res = std::make_unique< crg::RenderQuad >( fp, ctx, rg, ru, c );
					}
					else
					{
						crg::rm::Config c;
						c.baseConfig( base );
						c.getPassIndex( crg::RunnablePass::GetPassIndexCallback( [this](){ return index; } ) );
						if ( mesh ) mesh( c );
						res = std::make_unique< crg::RenderMesh >( fp, ctx, rg, ru, std::move( c ) );
					}
					run = res.get();
					return res;
				} );
			if ( declare ) declare( *pass );
			if ( type != PCompute )
				pass->addOutputColourView( r.v( "tv", r.image( "t", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) ) );
		}
		void reset( crg::VkPipelineShaderStageCreateInfoArray const & p, u32 i )
		{
			if ( type == PCompute ) static_cast< crg::ComputePass * >( run )->resetPipeline( p, i );
			else if ( type == PQuad ) static_cast< crg::RenderQuad * >( run )->resetPipeline( p, i );
			else static_cast< crg::RenderMesh * >( run )->resetPipeline( p, i );
		}
		// the one draw or dispatch of the frame
		mv::Drawn const & frame()
		{
			mv::w->drawn.clear();
			r.frame();
			mc::check( mv::w->drawn.size() == 1, n2( mv::w->drawn.size() ) + " draws or dispatches in the frame" );
			mc::step();
			return mv::w->drawn[0];
		}
	};

	//************************************************************************************************
	// V02: descriptor sets
	enum DK { SplA, SplB, ISto, OSto, IOSto, CSto, UB, ISB, OSB, IOSB, CSB, UBV, ISBV, OSBV, IOSBV, CSBV, NDK };
	char const * dkn( int k ) { static char const * n[]{ "sampledA", "sampledB", "IStorage", "OStorage", "IOStorage", "CStorage", "UB", "ISB", "OSB", "IOSB", "CSB", "UBV", "ISBV", "OSBV", "IOSBV", "CSBV" }; return n[k]; }
	VkDescriptorType dkt( int k )
	{
		if ( k <= SplB ) return VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
		if ( k <= CSto ) return VK_DESCRIPTOR_TYPE_STORAGE_IMAGE;
		if ( k == UB ) return VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
		if ( k <= CSB ) return VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
		if ( k == UBV ) return VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
		return VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
	}
	struct DDecl { DK k; u32 binding; std::vector< crg::ImageViewId > views; std::vector< VkBuffer > buffers; VkBufferView bv{}; VkDeviceSize off{}, size{}; };
	crg::SamplerDesc samplerOf( int k )
	{
		return k == SplA ? crg::SamplerDesc{ VK_FILTER_LINEAR, VK_FILTER_NEAREST, VK_SAMPLER_MIPMAP_MODE_LINEAR, VK_SAMPLER_ADDRESS_MODE_REPEAT, VK_SAMPLER_ADDRESS_MODE_CLAMP_TO_EDGE, VK_SAMPLER_ADDRESS_MODE_MIRRORED_REPEAT, 0.5f, 1.0f, 4.0f }
			: crg::SamplerDesc{ VK_FILTER_NEAREST, VK_FILTER_LINEAR, VK_SAMPLER_MIPMAP_MODE_NEAREST, VK_SAMPLER_ADDRESS_MODE_CLAMP_TO_EDGE, VK_SAMPLER_ADDRESS_MODE_MIRRORED_REPEAT, VK_SAMPLER_ADDRESS_MODE_REPEAT, 0.25f, 0.0f, 2.0f };
	}
	void declare( crg::FramePass & p, DDecl const & d )
	{
		crg::ImageViewIdArray v( d.views.begin(), d.views.end() );
		crg::Buffer b{ crg::VkBufferArray( d.buffers.begin(), d.buffers.end() ), "buf" + n2( d.binding ) };
		switch ( d.k )
		{
		case SplA: case SplB: p.addSampledView( v, d.binding, samplerOf( d.k ) ); break;
		case ISto: p.addInputStorageView( v, d.binding ); break;
		case OSto: p.addOutputStorageView( v, d.binding ); break;
		case IOSto: p.addInOutStorageView( v, d.binding ); break;
		case CSto: p.addClearableOutputStorageView( v, d.binding ); break;
		case UB: p.addUniformBuffer( b, d.binding, d.off, d.size ); break;
		case ISB: p.addInputStorageBuffer( b, d.binding, d.off, d.size ); break;
		case OSB: p.addOutputStorageBuffer( b, d.binding, d.off, d.size ); break;
		case IOSB: p.addInOutStorageBuffer( b, d.binding, d.off, d.size ); break;
		case CSB: p.addClearableOutputStorageBuffer( b, d.binding, d.off, d.size ); break;
		case UBV: p.addUniformBufferView( b, d.bv, d.binding, d.off, d.size ); break;
		case ISBV: p.addInputStorageBufferView( b, d.bv, d.binding, d.off, d.size ); break;
		case OSBV: p.addOutputStorageBufferView( b, d.bv, d.binding, d.off, d.size ); break;
		case IOSBV: p.addInOutStorageBufferView( b, d.bv, d.binding, d.off, d.size ); break;
		case CSBV: p.addClearableOutputStorageBufferView( b, d.bv, d.binding, d.off, d.size ); break;
		default: break;
		}
	}
	void checkSet( Worker & wk, mv::Drawn const & dr, std::vector< DDecl > const & decls )
	{
		auto & set = mv::w->descSets.at( dr.bound.sets.at( 0 ) );
		auto & lay = mv::w->setLayouts.at( set.layout );
		mc::check( lay.bindings.size() == decls.size(), "the set layout has " + n2( lay.bindings.size() ) + " bindings for " + n2( decls.size() ) + " declared ones" );
		mc::check( set.writes.size() == decls.size(), "the set has " + n2( set.writes.size() ) + " descriptors for " + n2( decls.size() ) + " declared ones" );
		for ( auto & d : decls )
		{
			std::string what = std::string{ "binding " } + n2( d.binding ) + " (" + dkn( d.k ) + ") index " + n2( wk.index );
			auto lb = std::find_if( lay.bindings.begin(), lay.bindings.end(), [&]( VkDescriptorSetLayoutBinding const & b ){ return b.binding == d.binding; } );
			mc::check( lb != lay.bindings.end(), what + ": not in the layout" );
			mc::check( lb->descriptorType == dkt( d.k ) && lb->descriptorCount == 1, what + ": type or count in the layout" );
			VkShaderStageFlags need = wk.type == PCompute ? VK_SHADER_STAGE_COMPUTE_BIT : VK_SHADER_STAGE_VERTEX_BIT | VK_SHADER_STAGE_FRAGMENT_BIT;
			mc::check( ( lb->stageFlags & need ) == need, what + ": not visible from the stages of the program" );
			auto it = set.writes.find( { d.binding, 0 } );
			mc::check( it != set.writes.end() && it->second.written, what + ": never written" );
			auto & w = it->second;
			mc::check( w.type == dkt( d.k ), what + ": type of the write" );
			if ( !d.views.empty() )
			{
				checkView( wk.r, w.view, d.views[wk.index % d.views.size()], what );
				if ( d.k <= SplB )
				{
					auto & s = mv::w->samplers.at( w.sampler ).info;
					auto want = samplerOf( d.k );
					mc::check( s.magFilter == want.magFilter && s.minFilter == want.minFilter && s.mipmapMode == want.mipmapMode && s.addressModeU == want.addressModeU && s.addressModeV == want.addressModeV
						&& s.addressModeW == want.addressModeW && s.mipLodBias == want.mipLodBias && s.minLod == want.minLod && s.maxLod == want.maxLod, what + ": sampler" );
				}
			}
			else if ( d.k >= UBV )
				mc::check( w.bufferView == mv::h( d.bv ), what + ": buffer view" );
			else
			{
				mc::check( w.buffer == mv::h( d.buffers[wk.index % d.buffers.size()] ), what + ": another buffer" );
				mc::check( w.off == d.off && w.range == d.size, what + ": another range of the buffer" );
			}
		}
	}
	DDecl makeDecl( Worker & k, DK kind, int i, u32 binding, bool multi )
	{
		DDecl d;
		d.k = kind;
		d.binding = binding;
		if ( kind <= CSto )
		{
			auto im = k.r.image( "i" + n2( u64( i ) ), VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 2 );
			d.views.push_back( k.r.v( "i" + n2( u64( i ) ) + "a", im, 0, 1, 0, 1 ) );
			if ( multi ) d.views.push_back( k.r.v( "i" + n2( u64( i ) ) + "b", im, 1, 1, 1, 1 ) );
		}
		else
		{
			d.buffers.push_back( mv::makeBuffer( 256 ) );
			if ( kind >= UBV ) d.bv = mv::makeBufferView( d.buffers[0], 0, 256 );
			else if ( multi ) d.buffers.push_back( mv::makeBuffer( 256 ) );
			d.off = kind >= UBV ? 0 : 64 * VkDeviceSize( i );
			d.size = kind >= UBV ? 256 : 128 - 32 * VkDeviceSize( i );
		}
		return d;
	}
	void descriptors( mc::Choices & c )
	{
		Worker k;
		k.type = PType( 1 + c.pick( 3, "pass" ) );
		static std::vector< std::vector< u32 > > const bindings{ { 0, 1, 2 }, { 2, 0, 5 }, { 7, 3, 1 } };
		int n = 1 + c.pick( mc::thorough() ? 3 : 2, "descriptors" );
		auto & b = c.of( bindings, "bindings" );
		k.indices = u32( 1 + c.pick( 2, "indices" ) );
		std::vector< DDecl > decls;
		std::string s = pname( k.type );
		for ( int i = 0; i < n; ++i )
		{
			auto kind = DK( c.pick( NDK, "descriptor" ) );
			bool multi = k.indices > 1 && ( kind <= CSB ) && c.flip( "one per index" );
			decls.push_back( makeDecl( k, kind, i, b[size_t( i )], multi ) );
			s += std::string( " " ) + dkn( kind ) + ( multi ? "[]" : "" );
		}
		c.note( s );
		bool other = c.flip( "declarations without binding" );
		k.declare = [&]( crg::FramePass & p )
			{
				if ( other ) p.addImplicitColourView( k.r.v( "ov", k.r.image( "o", VK_FORMAT_R8G8B8A8_UNORM, 2, 2 ) ), VK_IMAGE_LAYOUT_GENERAL );
				for ( auto & d : decls ) ::declare( p, d );
				if ( other ) p.addImplicitBuffer( crg::Buffer{ mv::makeBuffer( 64 ), "impl" }, 0, 64, { VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT } );
			};
		k.create();
		k.r.compile();
		int nf = k.indices > 1 ? 3 : 2;
		for ( int f = 0; f < nf; ++f )
		{
			if ( k.indices > 1 ) k.index = u32( f == 2 && !mc::thorough() ? 1 - int( k.index ) : c.pick( 2, "index" ) );
			checkSet( k, k.frame(), decls );
			mc::state( s + n2( k.index ) );
		}
		mc::outcome( s );
		k.r.close();
	}

	//************************************************************************************************
	// V03: pipelines and the work itself
	void pipelines( mc::Choices & c )
	{
		Worker k;
		k.type = PType( 1 + c.pick( 3, "pass" ) );
		k.hasBase = true;
		k.indices = u32( 1 + c.pick( 2, "indices" ) );
		int how = c.pick( 3, "programs" );  // a single one, one per index, a creator
		bool compute = k.type == PCompute;
		std::vector< std::vector< u64 > > current( k.indices );   // the modules index i must work with
		std::map< u32, int > created;
		bool shared = how == 0;
		std::vector< std::unique_ptr< Program > > made;
		auto newProgram = [&]() -> Program & { made.push_back( std::make_unique< Program >( compute ) ); return *made.back(); };
		if ( how == 0 )
		{
			auto & p = newProgram();
			k.base.program( p.stages );
			for ( auto & m : current ) m = p.modules;
		}
		else if ( how == 1 )
		{
			std::vector< crg::VkPipelineShaderStageCreateInfoArray > ps;
			for ( auto & m : current ) { auto & p = newProgram(); ps.push_back( p.stages ); m = p.modules; }
			k.base.programs( ps );
		}
		else
		{
			u32 count = u32( c.flip( "a creator for all indices" ) ? 1u : k.indices );
			if ( count == 1 && k.indices == 1 ) { if ( how == 2 && c.taken().back() == 1 ) c.prune(); }
			if ( count < k.indices ) c.prune();   // a creator makes one program per index
			k.base.programCreator( { count, [&]( u32 i )
				{
					mc::check( i < current.size(), "a program is asked for index " + n2( i ) );
					auto & p = newProgram();
					current[i] = p.modules;
					++created[i];
					return p.stages;
				} } );
		}
		int nl = c.pick( 2, "more set layouts" ), np = c.pick( 3, "push constants" );
		std::vector< u64 > extra;
		if ( nl )
		{
			mv::HarnessScope hs;
			auto create = PFN_vkCreateDescriptorSetLayout( mv::getProc( mv::device(), "vkCreateDescriptorSetLayout" ) );
			VkDescriptorSetLayoutBinding bd{ 0, VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER, 1, VK_SHADER_STAGE_ALL, nullptr };
			VkDescriptorSetLayoutCreateInfo ci{ VK_STRUCTURE_TYPE_DESCRIPTOR_SET_LAYOUT_CREATE_INFO, nullptr, 0, 0, &bd };
			std::vector< VkDescriptorSetLayout > ls;
			for ( int i = 0; i < 2; ++i ) { VkDescriptorSetLayout l; create( mv::device(), &ci, mv::allocator(), &l ); ls.push_back( l ); extra.push_back( mv::h( l ) ); }
			k.base.layouts( ls );
		}
		std::vector< VkPushConstantRange > pcs;
		VkShaderStageFlags st = compute ? VK_SHADER_STAGE_COMPUTE_BIT : VK_SHADER_STAGE_VERTEX_BIT;
		if ( np == 1 ) { pcs = { { st, 0, 16 } }; k.base.pushConstants( pcs[0] ); }
		if ( np == 2 ) { pcs = { { st, 0, 16 }, { VkShaderStageFlags( compute ? VK_SHADER_STAGE_COMPUTE_BIT : VK_SHADER_STAGE_FRAGMENT_BIT ), 16, 8 } }; if ( compute ) c.prune(); k.base.pushConstants( pcs ); }
		std::vector< DDecl > decls{ makeDecl( k, UB, 0, 1, false ) };
		k.declare = [&]( crg::FramePass & p ) { for ( auto & d : decls ) ::declare( p, d ); };
		k.create();
		k.r.compile();
		int steps = mc::thorough() ? 5 : 4;
		std::string hist;
		for ( int s = 0; s < steps; ++s )
		{
			// run with an index, or reset an index with a program or without
			int a = s == steps - 1 ? c.pick( int( k.indices ), "last frame" ) : c.pick( int( 3 * k.indices ), "step" );
			u32 idx = u32( a ) % k.indices;
			int op = a / int( k.indices );
			hist += std::string( 1, "RPE"[op] ) + n2( idx ) + " ";
			if ( op == 0 )
			{
				k.index = idx;
				auto & dr = k.frame();
				auto & pl = mv::w->pipelines.at( dr.bound.pipeline );
				mc::check( pl.compute == compute, "the kind of the pipeline" );
				mc::check( pl.modules == current[idx], hist + ": the pipeline isn't made of the program of index " + n2( idx ) );
				if ( how == 2 ) mc::check( created[idx] >= 1, "the program of the index was never created" );
				auto & ly = mv::w->pipelineLayouts.at( pl.layout );
				auto & set = mv::w->descSets.at( dr.bound.sets.at( 0 ) );
				std::vector< u64 > sets{ set.layout };
				sets.insert( sets.end(), extra.begin(), extra.end() );
				mc::check( ly.sets == sets, "the set layouts of the pipeline layout" );
				mc::check( ly.pcs.size() == pcs.size(), "the push constants of the pipeline layout" );
				for ( size_t i = 0; i < pcs.size(); ++i )
					mc::check( ly.pcs[i].stageFlags == pcs[i].stageFlags && ly.pcs[i].offset == pcs[i].offset && ly.pcs[i].size == pcs[i].size, "push constant range " + n2( i ) );
				checkSet( k, dr, decls );
				mc::state( n2( k.type ) + "," + n2( how ) + hist );
			}
			else if ( op == 1 )
			{
				if ( how == 2 ) c.prune();  // the creator makes the programs
				auto & p = newProgram();
				if ( shared ) for ( auto & m : current ) m = p.modules;
				else current[idx] = p.modules;
				k.reset( p.stages, idx );
				noErrors( AllCats, hist );
			}
			else
			{
				k.reset( {}, idx );
				noErrors( AllCats, hist );
			}
		}
		c.note( hist );
		mc::outcome( hist );
		k.r.close();
	}
	// draws and dispatches with everything they are configured with
	void work( mc::Choices & c )
	{
		Worker k;
		k.type = PType( 1 + c.pick( 3, "pass" ) );
		k.indices = 2;
		k.hasBase = true;
		Program prog{ k.type == PCompute };
		k.base.program( prog.stages );
		k.base.pushConstants( VkPushConstantRange{ VkShaderStageFlags( k.type == PCompute ? VK_SHADER_STAGE_COMPUTE_BIT : VK_SHADER_STAGE_VERTEX_BIT ), 0, 4 } );
		int enabledBy = c.pick( 2, "enabled" );
		bool enabled = true;
		// the callbacks of the user
		bool cbs = c.flip( "callbacks" );
		std::vector< std::string > calls;
		auto rec = crg::RunnablePass::RecordCallback( [&]( crg::RecordContext &, VkCommandBuffer cb, u32 i )
			{
				calls.push_back( "rec" + n2( i ) );
				u32 v = 0x11223344u + i;
				auto push = PFN_vkCmdPushConstants( mv::getProc( mv::device(), "vkCmdPushConstants" ) );
				auto layout = k.type == PCompute ? static_cast< crg::ComputePass * >( k.run )->getPipelineLayout() : VkPipelineLayout{};
				if ( layout ) push( cb, layout, VK_SHADER_STAGE_COMPUTE_BIT, 0, 4, &v );
				mv::cmdExec( cb, "rec", []{}, k.type != PCompute );
			} );
		auto end = crg::RunnablePass::RecordCallback( [&]( crg::RecordContext &, VkCommandBuffer cb, u32 i ) { calls.push_back( "end" + n2( i ) ); mv::cmdExec( cb, "end", []{}, false ); } );
		std::array< u32, 3 > groups{ 1, 1, 1 };
		u32 instances = 1, vertices = 1, prims = 1;
		VkIndexType itype = VK_INDEX_TYPE_UINT32;
		std::vector< VkBuffer > ind, vbs, ibs;
		VkDeviceSize indOff = 0;
		bool texcoords = false;
		std::string s = pname( k.type );
		int indirect = c.pick( 3, "indirect" );  // none, one, one per index
		if ( indirect )
		{
			for ( int i = 0; i < indirect; ++i ) ind.push_back( mv::makeBuffer( 256 ) );
			indOff = c.flip( "indirect offset" ) ? 32 : 0;
		}
		auto indirectBuffer = [&]{ return crg::IndirectBuffer{ crg::Buffer{ crg::VkBufferArray( ind.begin(), ind.end() ), "ind" }, 20u, indOff }; };
		if ( k.type == PCompute )
		{
			std::array< int, 3 > m;
			for ( auto & x : m ) x = c.pick( 3, "group count" );  // not given, a value, a callback
			k.compute = [&, m, indirectBuffer]( crg::cp::Config & cfg )
				{
					if ( m[0] == 1 ) cfg.groupCountX( 5 ); if ( m[0] == 2 ) cfg.getGroupCountX( crg::cp::GetGroupCountCallback( [&](){ return groups[0]; } ) );
					if ( m[1] == 1 ) cfg.groupCountY( 6 ); if ( m[1] == 2 ) cfg.getGroupCountY( crg::cp::GetGroupCountCallback( [&](){ return groups[1]; } ) );
					if ( m[2] == 1 ) cfg.groupCountZ( 7 ); if ( m[2] == 2 ) cfg.getGroupCountZ( crg::cp::GetGroupCountCallback( [&](){ return groups[2]; } ) );
					if ( indirect ) cfg.indirectBuffer( indirectBuffer() );
					if ( cbs ) { cfg.recordInto( rec ); cfg.end( end ); }
					if ( enabledBy == 0 ) cfg.enabled( &enabled ); else cfg.isEnabled( crg::RunnablePass::IsEnabledCallback( [&](){ return enabled; } ) );
				};
			for ( int i = 0; i < 3; ++i ) groups[size_t( i )] = m[size_t( i )] == 0 ? 1u : m[size_t( i )] == 1 ? u32( 5 + i ) : u32( 15 + i );
		}
		else if ( k.type == PQuad )
		{
			int in = c.pick( 2, "instances" );
			texcoords = c.flip( "texture coordinates" );
			if ( in ) instances = 4;
			k.quad = [&, in, indirectBuffer]( crg::rq::Config & cfg )
				{
					if ( in ) cfg.instances( 4 );
					if ( texcoords ) cfg.texcoordConfig( {} );
					if ( indirect ) cfg.indirectBuffer( indirectBuffer() );
					if ( cbs ) { cfg.recordInto( rec ); cfg.end( end ); }
					if ( enabledBy == 0 ) cfg.enabled( &enabled ); else cfg.isEnabled( crg::RunnablePass::IsEnabledCallback( [&](){ return enabled; } ) );
				};
		}
		else
		{
			int nv = c.pick( 3, "vertex buffers" ), ni = c.pick( 3, "index buffers" );
			bool counts = c.flip( "counts" ), it = c.flip( "index type" );
			for ( int i = 0; i < nv; ++i ) vbs.push_back( mv::makeBuffer( 256 ) );
			for ( int i = 0; i < ni; ++i ) ibs.push_back( mv::makeBuffer( 256 ) );
			if ( it ) itype = VK_INDEX_TYPE_UINT16;
			k.mesh = [&, counts, it, indirectBuffer]( crg::rm::Config & cfg )
				{
					if ( !vbs.empty() )
						cfg.vertexBuffer( crg::VertexBuffer{ crg::Buffer{ crg::VkBufferArray( vbs.begin(), vbs.end() ), "vb" }, {}, { { 0, 0, VK_FORMAT_R32G32_SFLOAT, 0 } }, { { 0, 8, VK_VERTEX_INPUT_RATE_VERTEX } } } );
					if ( !ibs.empty() ) cfg.indexBuffer( crg::IndexBuffer{ crg::Buffer{ crg::VkBufferArray( ibs.begin(), ibs.end() ), "ib" } } );
					if ( counts )
					{
						cfg.getVertexCount( crg::GetVertexCountCallback( [&](){ return vertices; } ) );
						cfg.getPrimitiveCount( crg::GetPrimitiveCountCallback( [&](){ return prims; } ) );
					}
					if ( it ) cfg.getIndexType( crg::GetIndexTypeCallback( [&](){ return itype; } ) );
					if ( indirect ) cfg.indirectBuffer( indirectBuffer() );
					if ( cbs ) { cfg.recordInto( rec ); cfg.end( end ); }
					cfg.isEnabled( crg::RunnablePass::IsEnabledCallback( [&](){ return enabled; } ) );
				};
			if ( counts ) { vertices = 9; prims = 12; }
			if ( enabledBy == 0 ) c.prune();
		}
		k.create();
		k.r.compile();
		for ( int f = 0; f < 3; ++f )
		{
			enabled = f != 1;
			k.index = u32( f == 0 ? c.pick( 2, "index" ) : 1 - int( k.index ) );
			calls.clear();
			if ( !enabled )
			{
				mv::w->drawn.clear();
				k.r.frame();
				mc::check( mv::w->drawn.empty() && calls.empty(), "a disabled pass works" );
				continue;
			}
			auto & dr = k.frame();
			u64 wantInd = ind.empty() ? 0 : mv::h( ind[k.index % ind.size()] );
			bool idx = !ibs.empty();
			using O = mv::Op;
			auto wantOp = k.type == PCompute ? ( wantInd ? O::DispatchIndirect : O::Dispatch ) : k.type == PQuad ? ( wantInd ? O::DrawIndirect : O::Draw )
				: wantInd ? ( idx ? O::DrawIndexedIndirect : O::DrawIndirect ) : ( idx ? O::DrawIndexed : O::Draw );
			mc::check( dr.op == wantOp, std::string( mv::opname( dr.op ) ) + " instead of " + mv::opname( wantOp ) );
			auto args = n2( dr.n[0] ) + "," + n2( dr.n[1] ) + "," + n2( dr.n[2] ) + "," + n2( dr.n[3] );
			if ( wantInd )
			{
				mc::check( dr.indirect == wantInd, "another indirect buffer" );
				mc::check( dr.n[0] == indOff, "another offset in the indirect buffer: " + args );
				if ( k.type != PCompute ) mc::check( dr.n[1] == 1 && dr.n[2] == 20, "count or stride of the indirect draw: " + args );
			}
			else if ( k.type == PCompute ) mc::check( dr.n[0] == groups[0] && dr.n[1] == groups[1] && dr.n[2] == groups[2], "dispatch of " + args + " groups instead of " + n2( groups[0] ) + "," + n2( groups[1] ) + "," + n2( groups[2] ) );
			else if ( k.type == PQuad ) mc::check( dr.n[0] == 3 && dr.n[1] == instances && dr.n[2] == 0 && dr.n[3] == 0, "draw of " + args );
			else if ( idx ) mc::check( dr.n[0] == prims && dr.n[1] == 1 && dr.n[2] == 0 && dr.n[3] == 0 && dr.n[4] == 0, "indexed draw of " + args );
			else mc::check( dr.n[0] == vertices && dr.n[1] == 1 && dr.n[2] == 0 && dr.n[3] == 0, "draw of " + args );
			auto & pl = mv::w->pipelines.at( dr.bound.pipeline );
			mc::check( pl.modules == prog.modules, "another program" );
			if ( k.type == PMesh )
			{
				if ( idx )
				{
					mc::check( dr.bound.ib == mv::h( ibs[k.index % ibs.size()] ) && dr.bound.ibOff == 0, "another index buffer" );
					mc::check( dr.bound.ibType == itype, "another index type" );
				}
				if ( !vbs.empty() )
				{
					mc::check( dr.bound.vbs.size() >= 1 && dr.bound.vbs[0].first == mv::h( vbs[k.index % vbs.size()] ) && dr.bound.vbs[0].second == 0, "another vertex buffer" );
					mc::check( pl.vbinds.size() == 1 && pl.vbinds[0].stride == 8 && pl.vattrs.size() == 1 && pl.vattrs[0].format == VK_FORMAT_R32G32_SFLOAT, "another vertex input" );
				}
				mc::check( pl.topology == VK_PRIMITIVE_TOPOLOGY_TRIANGLE_LIST, "topology" );
			}
			if ( k.type == PQuad )
			{
				// one triangle that covers the viewport
				mc::check( dr.bound.vbs.size() == 1 && pl.vbinds.size() == 1 && pl.vattrs.size() == ( texcoords ? 2u : 1u ), "vertex input of the quad" );
				auto vb = VkBuffer( dr.bound.vbs[0].first );
				std::array< std::array< float, 2 >, 3 > p{};
				for ( u32 i = 0; i < 3; ++i )
					for ( u32 j = 0; j < 2; ++j )
					{
						std::array< uint8_t, 4 > by{};
						bool undef = false;
						for ( u32 q = 0; q < 4; ++q ) { bool u{}; by[q] = mv::byteAt( vb, dr.bound.vbs[0].second + i * pl.vbinds[0].stride + pl.vattrs[0].offset + j * 4 + q, &u ); undef |= u; }
						mc::check( !undef, "a vertex of the quad is undefined" );
						std::memcpy( &p[i][j], by.data(), 4 );
					}
				auto side = [&]( std::array< float, 2 > a, std::array< float, 2 > b, float x, float y ){ return ( b[0] - a[0] ) * ( y - a[1] ) - ( b[1] - a[1] ) * ( x - a[0] ); };
				float corners[4][2]{ { -1, -1 }, { 1, -1 }, { 1, 1 }, { -1, 1 } };
				for ( auto & q : corners )
				{
					float s0 = side( p[0], p[1], q[0], q[1] ), s1 = side( p[1], p[2], q[0], q[1] ), s2 = side( p[2], p[0], q[0], q[1] );
					mc::check( ( s0 >= 0 && s1 >= 0 && s2 >= 0 ) || ( s0 <= 0 && s1 <= 0 && s2 <= 0 ), "the quad doesn't cover the viewport" );
				}
			}
			// the callbacks, around the work
			if ( cbs )
			{
				mc::check( calls == std::vector< std::string >{ "rec" + n2( k.index ), "end" + n2( k.index ) }, "the callbacks of the pass" );
				int bind = -1, recAt = -1, workAt = -1, endAt = -1, at = 0;
				for ( auto cmd : k.r.cmds() )
				{
					if ( cmd->op == O::BindPipeline ) bind = at;
					if ( cmd->op == O::Exec && cmd->text == "rec" ) recAt = at;
					if ( cmd->op == O::Exec && cmd->text == "end" ) endAt = at;
					if ( cmd->op == wantOp ) workAt = at;
					++at;
				}
				mc::check( bind >= 0 && bind < recAt && recAt < workAt && workAt < endAt, "the user's commands aren't between the pipeline and the work, and after it" );
				if ( k.type == PCompute )
				{
					u32 v = 0x11223344u + k.index, got = 0;
					for ( u32 q = 0; q < 4; ++q ) { auto it = dr.bound.push.find( q ); if ( it != dr.bound.push.end() ) got |= u32( it->second ) << ( 8 * q ); }
					mc::check( got == v, "the push constants set by the user aren't there for the work" );
				}
			}
			s += args;
			mc::state( s );
		}
		mc::outcome( s );
		k.r.close();
	}
	//************************************************************************************************
	// V04 and E02: exact contents of images and buffers after transfers
	struct Xfer
	{
		Rig r;
		std::vector< crg::ImageId > images;
		std::vector< VkBuffer > buffers;
		std::map< std::pair< size_t, mv::SubKey >, std::vector< u64 > > ref;
		std::map< size_t, std::vector< uint8_t > > refBuf;
		crg::FramePass * fillPass{};
		u64 salt{};
		crg::ImageId image( VkFormat f, u32 wd, u32 hg, u32 mips, u32 layers, u32 depth = 1 )
		{
			images.push_back( r.image( "i" + n2( images.size() ), f, wd, hg, mips, layers, depth > 1 ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, depth ) );
			return images.back();
		}
		VkBuffer buffer( VkDeviceSize size )
		{
			buffers.push_back( mv::makeBuffer( size ) );
			return buffers.back();
		}
		// a pass which gives every texel a value of its own, every frame
		void addFill()
		{
			fillPass = &userPass( r, "fill", [this]( crg::RecordContext &, VkCommandBuffer cb ){ mv::cmdExec( cb, "fill", [this]{ fill(); } ); } );
			for ( size_t i = 0; i < images.size(); ++i )
			{
				auto & d = images[i].data->info;
				fillPass->addTransferOutputView( r.v( "all" + n2( i ), images[i], 0, d.mipLevels, 0, d.arrayLayers ) );
			}
			if ( g_sync )
				for ( size_t b = 0; b < buffers.size(); ++b )
					fillPass->addTransferOutputBuffer( crg::Buffer{ buffers[b], "all" + n2( b ) }, 0, VK_WHOLE_SIZE );
		}
		// a pass which reads everything, after the pass under test
		void addReader()
		{
			auto & q = userPass( r, "reader", [this]( crg::RecordContext &, VkCommandBuffer cb ){ mv::cmdExec( cb, "reader", [this]
				{
					for ( auto & i : images )
						syncAll( i, crg::isColourFormat( i.data->info.format ) ? VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT : VK_PIPELINE_STAGE_TRANSFER_BIT
							, crg::isColourFormat( i.data->info.format ) ? VK_ACCESS_SHADER_READ_BIT : VK_ACCESS_TRANSFER_READ_BIT, false, "the next pass" );
					for ( auto b : buffers )
						mv::syncBuffer( mv::h( b ), 0, mv::w->buffers.at( mv::h( b ) ).info.size, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_ACCESS_SHADER_READ_BIT, false, "the next pass" );
				} ); } );
			q.addDependency( *last );
			u32 b = 0;
			for ( size_t i = 0; i < images.size(); ++i )
			{
				auto & d = images[i].data->info;
				auto a = r.v( "read" + n2( i ), images[i], 0, d.mipLevels, 0, d.arrayLayers );
				if ( crg::isColourFormat( d.format ) ) q.addSampledView( a, b++ ); else q.addTransferInputView( a );
			}
			for ( size_t i = 0; i < buffers.size(); ++i )
				q.addInputStorageBuffer( crg::Buffer{ buffers[i], "read" + n2( i ) }, b++, 0, VK_WHOLE_SIZE );
		}
		void syncAll( crg::ImageId i, VkPipelineStageFlags st, VkAccessFlags a, bool write, char const * who )
		{
			if ( !g_sync ) return;
			auto d = r.device( i );
			for ( auto & [k, s] : devImage( d ).subs )
			{
				mc::step();
				mv::syncImage( mv::h( d ), k, st, a, write, who );
			}
		}
		crg::FramePass * last{};
		void fill()
		{
			++salt;
			ref.clear();
			refBuf.clear();
			if ( g_sync && fillPass )
			{
				for ( auto & i : images ) syncAll( i, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "the previous pass" );
				for ( auto b : buffers ) mv::syncBuffer( mv::h( b ), 0, mv::w->buffers.at( mv::h( b ) ).info.size, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "the previous pass" );
			}
			u64 v = salt * 100000;
			for ( size_t i = 0; i < images.size(); ++i )
				for ( auto & [k, s] : devImage( r.device( images[i] ) ).subs )
				{
					auto ts = mv::texelSize( images[i].data->info.format, k.aspect );
					u64 mask = ts >= 8 ? ~0ull : ( 1ull << ( 8 * ts ) ) - 1;
					for ( auto & t : s.texels ) t = ++v & mask;
					ref[{ i, k }] = s.texels;
				}
			for ( size_t b = 0; b < buffers.size(); ++b )
				for ( VkDeviceSize o = 0; o < mv::w->buffers.at( mv::h( buffers[b] ) ).info.size; ++o )
				{
					auto x = uint8_t( ( o * 31 + b * 77 + salt * 13 + ( o >> 3 ) ) & 255 );
					mv::setByte( buffers[b], o, x );
					refBuf[b].push_back( x );
				}
		}
		size_t at( crg::ImageId i )const { return size_t( std::find( images.begin(), images.end(), i ) - images.begin() ); }
		std::vector< u64 > & sub( crg::ImageId i, int aspect, u32 layer, u32 mip ) { return ref.at( { at( i ), mv::SubKey{ aspect, layer, mip } } ); }
		static u64 & texel( std::vector< u64 > & t, VkExtent3D e, int x, int y, int z ) { mc::check( x >= 0 && y >= 0 && z >= 0 && x < int( e.width ) && y < int( e.height ) && z < int( e.depth ), "the reference is out of the image" ); return t.at( size_t( ( u64( z ) * e.height + u64( y ) ) * e.width + u64( x ) ) ); }
		static VkExtent3D extent( crg::ImageId i, u32 mip ) { auto e = i.data->info.extent; return { mv::mipDim( e.width, mip ), mv::mipDim( e.height, mip ), mv::mipDim( e.depth, mip ) }; }
		// the reference of a blit between the first levels of two views (copies: same sizes)
		void refBlit( crg::ImageViewId s, crg::ImageViewId d, VkOffset3D so, VkExtent3D ss, VkOffset3D dO, VkExtent3D ds )
		{
			auto & sr = s.data->info.subresourceRange;
			auto & dr = d.data->info.subresourceRange;
			for ( int a : mv::aspectsOf( s.data->image.data->info.format ) )
			{
				if ( !( sr.aspectMask & VkImageAspectFlags( 1 << a ) ) ) continue;
				for ( u32 l = 0; l < sr.layerCount; ++l )
				{
					auto from = sub( s.data->image, a, sr.baseArrayLayer + l, sr.baseMipLevel );
					auto & to = sub( d.data->image, a, dr.baseArrayLayer + l, dr.baseMipLevel );
					auto se = extent( s.data->image, sr.baseMipLevel ), de = extent( d.data->image, dr.baseMipLevel );
					for ( u32 z = 0; z < ds.depth; ++z ) for ( u32 y = 0; y < ds.height; ++y ) for ( u32 x = 0; x < ds.width; ++x )
					{
						// the source texel at the centre of the destination texel
						int sx = so.x + int( ( ( 2 * x + 1 ) * ss.width ) / ( 2 * ds.width ) ), sy = so.y + int( ( ( 2 * y + 1 ) * ss.height ) / ( 2 * ds.height ) ), sz = so.z + int( ( ( 2 * z + 1 ) * ss.depth ) / ( 2 * ds.depth ) );
						texel( to, de, dO.x + int( x ), dO.y + int( y ), dO.z + int( z ) ) = texel( from, se, sx, sy, sz );
					}
				}
			}
		}
		void refCopy( crg::ImageViewId s, crg::ImageViewId d, VkExtent3D e ) { refBlit( s, d, {}, e, {}, e ); }
		void compare( std::string const & where )
		{
			for ( auto & [key, want] : ref )
			{
				auto & got = devImage( r.device( images[key.first] ) ).subs.at( key.second ).texels;
				for ( size_t i = 0; i < want.size(); ++i )
					if ( got[i] != want[i] )
						mc::fail( where + ": texel " + n2( i ) + " of " + images[key.first].data->name + " layer " + n2( key.second.layer ) + " level " + n2( key.second.mip ) + " holds " + n2( got[i] ) + " instead of " + n2( want[i] ) );
			}
			for ( auto & [b, want] : refBuf )
				for ( size_t i = 0; i < want.size(); ++i )
				{
					bool u{};
					auto v = mv::byteAt( buffers[b], i, &u );
					mc::check( !u && v == want[i], where + ": byte " + n2( i ) + " of buffer " + n2( b ) + " holds " + n2( v ) + " instead of " + n2( want[i] ) );
				}
			mc::step();
		}
		void layoutIs( crg::ImageViewId v, VkImageLayout l, std::string const & where )
		{
			if ( g_sync ) return;
			auto & im = devImage( r.device( v.data->image ) );
			for ( auto & k : mv::subsOf( im, v.data->info.subresourceRange ) )
				mc::check( im.subs.at( k ).layout == l, where + ": " + v.data->name + " is left in " + mv::str( im.subs.at( k ).layout ) + " instead of " + mv::str( l ) );
		}
		// a pass of the library, with its index and whether it is enabled
		u32 index{}, indices{ 1 };
		bool enabled{ true };
		template< typename T, typename ... A > crg::FramePass & pass( A ... a )
		{
			auto & p = r.graph->createPass( "transfer", [this, a...]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
				{
					return std::make_unique< T >( fp, ctx, rg, a..., crg::ru::Config{ indices }, crg::RunnablePass::GetPassIndexCallback( [this](){ return index; } ), crg::RunnablePass::IsEnabledCallback( [this](){ return enabled; } ) );
				} );
			if ( fillPass ) p.addDependency( *fillPass );
			last = &p;
			return p;
		}
		// frames with any index and the pass enabled or not
		void frames( mc::Choices & c, int n, std::function< void() > reference, std::string const & what )
		{
			if ( g_sync ) addReader();
			r.compile();
			for ( int f = 0; f < n; ++f )
			{
				if ( indices > 1 ) index = u32( c.pick( int( indices ), "index" ) );
				enabled = f != 1 || !c.flip( "disabled" );
				if ( !fillPass ) fill();
				r.frame();
				if ( enabled ) reference();
				compare( what + ( enabled ? "" : " (disabled)" ) + " frame " + n2( u64( f ) ) );
				mc::state( what + n2( index ) + ( enabled ? "e" : "d" ) );
			}
			mc::outcome( what );
			r.close();
		}
	};
	crg::Buffer bufOf( std::vector< VkBuffer > const & b, std::string n ) { return crg::Buffer{ crg::VkBufferArray( b.begin(), b.end() ), std::move( n ) }; }

	void bufferCopies( mc::Choices & c )
	{
		Xfer x;
		x.indices = u32( 1 + c.pick( 2, "indices" ) );
		std::vector< VkBuffer > src{ x.buffer( 96 ) }, dst{ x.buffer( 96 ) };
		if ( x.indices > 1 && c.flip( "several sources" ) ) src.push_back( x.buffer( 96 ) );
		if ( x.indices > 1 && c.flip( "several targets" ) ) dst.push_back( x.buffer( 96 ) );
		VkDeviceSize so = 16 * VkDeviceSize( c.pick( 3, "source offset" ) ), dO = 16 * VkDeviceSize( c.pick( 3, "target offset" ) );
		VkDeviceSize co = 4 * VkDeviceSize( c.pick( 3, "copy offset" ) ), cr = 4 * VkDeviceSize( 1 + c.pick( 3, "copy size" ) );
		if ( g_sync ) x.addFill();
		auto & p = x.pass< crg::BufferCopy >( co, cr );
		p.addTransferInputBuffer( bufOf( src, "src" ), so, 64 );
		p.addTransferOutputBuffer( bufOf( dst, "dst" ), dO, 64 );
		auto in = [&]( std::vector< VkBuffer > const & b ){ return size_t( std::find( x.buffers.begin(), x.buffers.end(), b[x.index % b.size()] ) - x.buffers.begin() ); };
		x.frames( c, 2, [&]
			{
				auto from = x.refBuf.at( in( src ) );
				auto & to = x.refBuf.at( in( dst ) );
				for ( VkDeviceSize i = 0; i < cr; ++i ) to[dO + co + i] = from[so + co + i];
			}, "copy of " + n2( cr ) + " bytes at " + n2( so ) + "+" + n2( co ) + " to " + n2( dO ) + "+" + n2( co ) );
	}
	struct Form { VkFormat f; u32 depth; };
	void imageCopies( mc::Choices & c )
	{
		static std::vector< Form > const forms{ { VK_FORMAT_R8G8B8A8_UNORM, 1 }, { VK_FORMAT_D24_UNORM_S8_UINT, 1 }, { VK_FORMAT_R16G16B16A16_SFLOAT, 4 } };
		static std::vector< VkImageLayout > const finals{ VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL };
		Xfer x;
		auto & f = c.of( forms, "format" );
		int pairs = 1 + c.pick( 2, "pairs" );
		x.indices = u32( 1 + c.pick( 2, "indices" ) );
		u32 layers = f.depth > 1 ? 1 : u32( 1 + c.pick( 2, "layers" ) );
		u32 sm = u32( c.pick( 2, "source level" ) ), dm = u32( c.pick( 2, "target level" ) );
		u32 sl = f.depth > 1 ? 0 : u32( c.pick( 2, "source layer" ) ), dl = f.depth > 1 ? 0 : u32( c.pick( 2, "target layer" ) );
		auto fin = c.of( finals, "final layout" );
		VkExtent3D e = c.flip( "part" ) ? VkExtent3D{ 3, 2, 1 } : VkExtent3D{ 4, 4, f.depth > 1 ? f.depth / 2 : 1 };
		u32 nl = f.depth > 1 ? 1 : 3;
		std::vector< std::array< crg::ImageViewIdArray, 2 > > v;
		for ( int i = 0; i < pairs; ++i )
		{
			auto s = x.image( f.f, 8, 8, 2, nl, f.depth ), d = x.image( f.f, 8, 8, 2, nl, f.depth );
			auto n = n2( u64( i ) );
			v.push_back( { crg::ImageViewIdArray{ x.r.v( "s" + n, s, sm, 1, sl, layers ) }, crg::ImageViewIdArray{ x.r.v( "d" + n, d, dm, 1, dl, layers ) } } );
			// the other index works with other views for the first pair only
			if ( i == 0 && x.indices > 1 )
			{
				v.back()[0].push_back( x.r.v( "s" + n + "'", s, 1 - sm, 1, nl - layers - sl, layers ) );
				v.back()[1].push_back( x.r.v( "d" + n + "'", d, 1 - dm, 1, nl - layers - dl, layers ) );
			}
		}
		x.addFill();
		bool consumer = c.flip( "consumer" );
		auto & p = fin == VK_IMAGE_LAYOUT_UNDEFINED ? x.pass< crg::ImageCopy >( e ) : x.pass< crg::ImageCopy >( e, fin );
		for ( auto & pr : v ) { p.addTransferInputView( pr[0] ); p.addTransferOutputView( pr[1] ); }
		if ( consumer )
		{
			auto & q = userPass( x.r, "use" );
			q.addDependency( p );
			x.last = &q;
			u32 b = 0;
			for ( auto & pr : v ) q.addSampledView( pr[1], b++ );
		}
		x.frames( c, 2, [&]
			{
				for ( auto & pr : v ) x.refCopy( pr[0][x.index % pr[0].size()], pr[1][x.index % pr[1].size()], e );
				if ( fin != VK_IMAGE_LAYOUT_UNDEFINED && !consumer )
					for ( auto & pr : v ) x.layoutIs( pr[1][x.index % pr[1].size()], fin, "the target of the copy" );
			}, "copy of " + n2( e.width ) + "x" + n2( e.height ) + "x" + n2( e.depth ) + " of level " + n2( sm ) + " layer " + n2( sl ) + " to level " + n2( dm ) + " layer " + n2( dl ) + ", " + n2( layers ) + " layers" );
	}
	struct Rect { VkOffset3D o; VkExtent3D e; };
	std::string rs( Rect const & r ) { return n2( r.e.width ) + "x" + n2( r.e.height ) + "x" + n2( r.e.depth ) + " at " + n2( u64( r.o.x ) ) + "," + n2( u64( r.o.y ) ) + "," + n2( u64( r.o.z ) ); }
	std::vector< Rect > const & rects2D() { static std::vector< Rect > const v{ { { 0, 0, 0 }, { 4, 4, 1 } }, { { 0, 0, 0 }, { 3, 2, 1 } }, { { 1, 2, 0 }, { 2, 2, 1 } }, { { 2, 1, 0 }, { 1, 3, 1 } } }; return v; }
	std::vector< Rect > const & rects3D() { static std::vector< Rect > const v{ { { 0, 0, 0 }, { 4, 4, 2 } }, { { 0, 1, 1 }, { 4, 2, 1 } } }; return v; }
	void imageBlits( mc::Choices & c )
	{
		static std::vector< Form > const forms{ { VK_FORMAT_R8G8B8A8_UNORM, 1 }, { VK_FORMAT_R8G8B8A8_UNORM, 4 } };
		Xfer x;
		auto & f = c.of( forms, "dimension" );
		x.indices = u32( 1 + c.pick( 2, "indices" ) );
		u32 layers = f.depth > 1 ? 1 : u32( 1 + c.pick( 2, "layers" ) );
		u32 sm = u32( c.pick( 2, "source level" ) ), dm = u32( c.pick( 2, "target level" ) );
		u32 sl = f.depth > 1 ? 0 : u32( c.pick( 2, "source layer" ) ), dl = f.depth > 1 ? 0 : u32( c.pick( 2, "target layer" ) );
		auto & rc = f.depth > 1 ? rects3D() : rects2D();
		auto s = c.of( rc, "source" ), d = c.of( rc, "target" );
		u32 nl = f.depth > 1 ? 1 : 3;
		auto si = x.image( f.f, 8, 8, 2, nl, f.depth ), di = x.image( f.f, 8, 8, 2, nl, f.depth );
		crg::ImageViewIdArray sv{ x.r.v( "s", si, sm, 1, sl, layers ) }, dv{ x.r.v( "d", di, dm, 1, dl, layers ) };
		if ( x.indices > 1 ) dv.push_back( x.r.v( "d'", di, 1 - dm, 1, nl - layers - dl, layers ) );
		x.addFill();
		auto & p = x.pass< crg::ImageBlit >( s.o, s.e, d.o, d.e, VK_FILTER_NEAREST );
		p.addTransferInputView( sv );
		p.addTransferOutputView( dv );
		x.frames( c, 2, [&]{ x.refBlit( sv[0], dv[x.index % dv.size()], s.o, s.e, d.o, d.e ); }, "blit of " + rs( s ) + " level " + n2( sm ) + " layer " + n2( sl ) + " to " + rs( d ) + " level " + n2( dm ) + " layer " + n2( dl ) + ", " + n2( layers ) + " layers" );
	}
	void bufferImages( mc::Choices & c )
	{
		static std::vector< Form > const forms{ { VK_FORMAT_R8G8B8A8_UNORM, 1 }, { VK_FORMAT_R16G16B16A16_SFLOAT, 4 } };
		Xfer x;
		bool toImage = c.flip( "to image" );
		auto & f = c.of( forms, "format" );
		x.indices = u32( 1 + c.pick( 2, "indices" ) );
		u32 layers = f.depth > 1 ? 1 : u32( 1 + c.pick( 2, "layers" ) );
		u32 m = u32( c.pick( 2, "level" ) ), l = f.depth > 1 ? 0 : u32( c.pick( 2, "layer" ) );
		auto r = c.of( f.depth > 1 ? rects3D() : rects2D(), "region" );
		VkDeviceSize off = 16 * VkDeviceSize( c.pick( 3, "buffer offset" ) );
		u32 nl = f.depth > 1 ? 1 : 3;
		auto im = x.image( f.f, 8, 8, 2, nl, f.depth );
		std::vector< VkBuffer > b{ x.buffer( 512 ) };
		crg::ImageViewIdArray v{ x.r.v( "v", im, m, 1, l, layers ) };
		if ( x.indices > 1 )
		{
			if ( c.flip( "several buffers" ) ) b.push_back( x.buffer( 512 ) );
			else v.push_back( x.r.v( "v'", im, 1 - m, 1, nl - layers - l, layers ) );
		}
		x.addFill();
		auto & p = toImage ? x.pass< crg::BufferToImageCopy >( r.o, r.e ) : x.pass< crg::ImageToBufferCopy >( r.o, r.e );
		if ( toImage ) { p.addTransferInputBuffer( bufOf( b, "b" ), off, 448 ); p.addTransferOutputView( v ); }
		else { p.addTransferInputView( v ); p.addTransferOutputBuffer( bufOf( b, "b" ), off, 448 ); }
		x.frames( c, 2, [&]
			{
				auto & buf = x.refBuf.at( x.index % b.size() );
				auto vw = v[x.index % v.size()];
				auto & sr = vw.data->info.subresourceRange;
				auto ts = mv::texelSize( f.f, 0 );
				size_t o = off;
				for ( u32 la = 0; la < layers; ++la )
					for ( u32 z = 0; z < r.e.depth; ++z ) for ( u32 y = 0; y < r.e.height; ++y ) for ( u32 xx = 0; xx < r.e.width; ++xx )
					{
						auto & t = Xfer::texel( x.sub( im, 0, sr.baseArrayLayer + la, sr.baseMipLevel ), Xfer::extent( im, sr.baseMipLevel ), r.o.x + int( xx ), r.o.y + int( y ), r.o.z + int( z ) );
						if ( toImage ) { t = 0; for ( u32 q = 0; q < ts; ++q ) t |= u64( buf.at( o + q ) ) << ( 8 * q ); }
						else for ( u32 q = 0; q < ts; ++q ) buf.at( o + q ) = uint8_t( t >> ( 8 * q ) );
						o += ts;
					}
			}, ( toImage ? "copy from buffer at " : "copy to buffer at " ) + n2( off ) + " of " + rs( r ) + " level " + n2( m ) + " layer " + n2( l ) + ", " + n2( layers ) + " layers" );
	}
	void mipmaps( mc::Choices & c )
	{
		Xfer x;
		struct D { u32 w, h, d, mips; };
		static std::vector< D > const dims{ { 8, 8, 1, 4 }, { 8, 4, 1, 4 }, { 2, 16, 1, 5 }, { 4, 4, 1, 1 }, { 4, 4, 1, 2 }, { 8, 4, 4, 4 }, { 5, 3, 1, 3 } };
		auto & d = c.of( dims, "size" );
		u32 nl = d.d > 1 ? 1 : u32( 1 + c.pick( 3, "layers of the image" ) );
		u32 first = d.d > 1 ? 0 : u32( c.pick( int( nl ), "first layer" ) );
		u32 count = d.d > 1 ? 1 : u32( 1 + c.pick( int( nl - first ), "layers of the view" ) );
		int vm = c.pick( 2, "levels of the view" );  // all, or only the first
		x.indices = u32( 1 + ( nl > 1 && count < nl ? c.pick( 2, "indices" ) : 0 ) );
		auto im = x.image( VK_FORMAT_R8G8B8A8_UNORM, d.w, d.h, d.mips, nl, d.d );
		crg::ImageViewIdArray v{ x.r.v( "v", im, 0, vm ? 1 : d.mips, first, count ) };
		if ( x.indices > 1 ) v.push_back( x.r.v( "v'", im, 0, vm ? 1 : d.mips, nl - count - first, count ) );
		x.addFill();
		int consumer = c.pick( 3, "consumer" );  // none, all the levels sampled, all the levels storage
		auto & p = x.pass< crg::GenerateMipmaps >( VK_IMAGE_LAYOUT_UNDEFINED );
		p.addTransferInOutView( v );
		if ( consumer )
		{
			auto & q = userPass( x.r, "use" );
			q.addDependency( p );
			x.last = &q;
			auto a = x.r.v( "a", im, 0, d.mips, 0, nl );
			if ( consumer == 1 ) q.addSampledView( a, 0 ); else q.addInputStorageView( a, 0 );
		}
		x.frames( c, 2, [&]
			{
				auto & sr = v[x.index % v.size()].data->info.subresourceRange;
				for ( u32 l = sr.baseArrayLayer; l < sr.baseArrayLayer + sr.layerCount; ++l )
					for ( u32 m = 1; m < d.mips; ++m )
					{
						auto se = Xfer::extent( im, m - 1 ), de = Xfer::extent( im, m );
						auto from = x.sub( im, 0, l, m - 1 );
						auto & to = x.sub( im, 0, l, m );
						for ( u32 z = 0; z < de.depth; ++z ) for ( u32 y = 0; y < de.height; ++y ) for ( u32 xx = 0; xx < de.width; ++xx )
							Xfer::texel( to, de, int( xx ), int( y ), int( z ) ) = Xfer::texel( from, se, int( ( ( 2 * xx + 1 ) * se.width ) / ( 2 * de.width ) ), int( ( ( 2 * y + 1 ) * se.height ) / ( 2 * de.height ) ), int( ( ( 2 * z + 1 ) * se.depth ) / ( 2 * de.depth ) ) );
					}
			}, "levels of " + n2( d.w ) + "x" + n2( d.h ) + "x" + n2( d.d ) + " layers " + n2( first ) + "+" + n2( count ) + " of " + n2( nl ) );
	}
	// E02: what the implicit actions do to views of any levels and layers
	void effects( mc::Choices & c )
	{
		static std::vector< VkImageLayout > const finals{ VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL };
		Xfer x;
		int kind = c.pick( 4, "action" );  // clear of a view, clear of an attachment, copy, blit
		bool depth = kind != 3 && c.flip( "depth" );
		static std::vector< VkFormat > const depths{ VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D32_SFLOAT, VK_FORMAT_S8_UINT };
		auto fmt = depth ? c.of( depths, "format" ) : VK_FORMAT_R8G8B8A8_UNORM;
		u32 layers = u32( 1 + c.pick( 2, "layers" ) );
		u32 dm = u32( c.pick( 2, "target level" ) ), dl = u32( c.pick( 2, "target layer" ) );
		u32 levels = kind < 2 && dm == 0 ? u32( 1 + c.pick( 2, "levels" ) ) : 1;
		auto fin = c.of( finals, "final layout" );
		u32 sm = kind >= 2 ? u32( c.pick( 2, "source level" ) ) : 0, sl = kind >= 2 ? u32( c.pick( 2, "source layer" ) ) : 0;
		auto si = x.image( fmt, 8, 8, 2, 3 ), di = x.image( fmt, 8, 8, 2, 3 );
		auto sv = x.r.v( "s", si, sm, 1, sl, layers ), dv = x.r.v( "d", di, dm, levels, dl, layers );
		x.addFill();
		Rect s{ {}, { 4, 4, 1 } }, d{ {}, { 4, 4, 1 } };
		VkClearValue cv{};
		if ( depth ) cv.depthStencil = { 0.25f, 7u };
		else cv.color.float32[0] = 0.5f, cv.color.float32[2] = 1.0f;
		bool enabled = false;
		auto & declared = x.r.graph->createPass( "action", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
			{
				auto conf = crg::ru::Config{}.implicitAction( dv, kind == 0 ? crg::RecordContext::clearAttachment( dv, cv, fin ) : kind == 1 ? crg::RecordContext::clearAttachment( fp.images.front(), fin )
					: kind == 2 ? crg::RecordContext::copyImage( sv, dv, { s.e.width, s.e.height }, fin )
					: crg::RecordContext::blitImage( sv, dv, { s.o.x, s.o.y }, { s.e.width, s.e.height }, { d.o.x, d.o.y }, { d.e.width, d.e.height }, VK_FILTER_NEAREST, fin ) );
				return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( u32 ){}
						, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ); } )
						, []( crg::RecordContext &, VkCommandBuffer, u32 ){}
						, crg::RunnablePass::GetPassIndexCallback( [](){ return 0u; } )
						, crg::RunnablePass::IsEnabledCallback( [&enabled](){ return enabled; } ) }, conf );
			} );
		if ( kind == 2 ) s.e = d.e = c.flip( "part" ) ? VkExtent3D{ 3, 2, 1 } : VkExtent3D{ 4, 4, 1 };
		if ( kind == 3 ) { s = c.of( rects2D(), "source" ); d = c.of( rects2D(), "target" ); }
		declared.addDependency( *x.fillPass );
		if ( fmt == VK_FORMAT_D32_SFLOAT ) declared.addOutputDepthView( dv, cv ); else if ( fmt == VK_FORMAT_S8_UINT ) declared.addOutputStencilView( dv, cv ); else if ( depth ) declared.addOutputDepthStencilView( dv, cv ); else declared.addOutputColourView( dv, cv );
		// the layout seen by the next user of the view, and its contents
		auto & q = userPass( x.r, "use", [&]( crg::RecordContext &, VkCommandBuffer cb ){ if ( g_sync ) mv::cmdExec( cb, "use", [&]
			{
				auto dev = x.r.device( di );
				for ( auto k : mv::subsOf( devImage( dev ), dv.data->info.subresourceRange ) )
					mv::syncImage( mv::h( dev ), k, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_ACCESS_SHADER_READ_BIT, false, "the next pass" );
			} ); } );
		q.addDependency( declared );
		q.addSampledView( dv, 0 );
		x.r.compile();
		u64 tok[2]{};
		for ( int f = 0; f < 2; ++f )
		{
			mv::w->drawn.clear();
			x.r.frame();
			if ( kind < 2 )
			{
				for ( auto cmd : x.r.cmds() )
				{
					if ( cmd->op == mv::Op::ClearColour ) for ( int i = 0; i < 4; ++i ) mc::check( cmd->clear.color.float32[i] == cv.color.float32[i], "cleared to another colour" );
					if ( cmd->op == mv::Op::ClearDS ) mc::check( cmd->clear.depthStencil.depth == cv.depthStencil.depth && cmd->clear.depthStencil.stencil == cv.depthStencil.stencil, "cleared to another depth or stencil" );
				}
				// the cleared texels all hold one value, which no texel had
				auto & im = devImage( x.r.device( di ) );
				for ( int a : mv::aspectsOf( fmt ) )
				{
					auto val = im.subs.at( mv::SubKey{ a, dl, dm } ).texels[0];
					mc::check( val != mv::UNDEF && ( a == 2 || val != x.sub( di, a, dl, dm )[0] ), "the view isn't cleared" );
					if ( f == 0 ) tok[a == 2] = val;
					mc::check( val == tok[a == 2], "the view is cleared to another value in the second frame" );
					for ( u32 m = dm; m < dm + levels; ++m )
						for ( u32 l = dl; l < dl + layers; ++l )
							for ( auto & t : x.sub( di, a, l, m ) ) t = val;
				}
			}
			else x.refBlit( sv, dv, s.o, s.e, d.o, d.e );
			x.compare( "action " + n2( u64( kind ) ) );
			mc::state( n2( u64( kind ) ) + n2( dm ) + n2( dl ) + n2( sm ) + n2( sl ) + n2( layers ) + mv::str( fin ) );
		}
		x.r.close();
	}
	// E02: the actions which surround what a pass of any type does
	void around( mc::Choices & c )
	{
		static char const * const kinds[]{ "RunnablePass", "RenderPass", "RenderQuad", "RenderMesh", "ComputePass", "BufferCopy", "BufferToImageCopy", "ImageBlit", "ImageCopy", "ImageToBufferCopy", "GenerateMipmaps" };
		Rig r;
		int kind = c.pick( 11, "pass" );
		int pre = c.pick( 3, "actions before" ), post = c.pick( 3, "actions after" );
		u32 indices = u32( 1 + c.pick( 2, "indices" ) ), index = 0;
		bool enabled = true;
		auto fin = c.flip( "final layout" ) ? VK_IMAGE_LAYOUT_GENERAL : VK_IMAGE_LAYOUT_UNDEFINED;
		int own = c.pick( 3, "view of the pass" );   // the actions don't use it, it is cleared before, it is cleared after
		bool ownable = kind == 0 || kind == 4;
		if ( own && ( !ownable || !( own == 1 ? pre : post ) ) ) c.prune();
		Program prog{ kind == 4 };
		auto extra = [&]( std::string n ){ return r.v( n + "v", r.image( n, VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 1, 2 ), 0, 1, 1, 1 ); };
		crg::ImageViewIdArray pv, qv;
		std::vector< VkClearValue > cvs;
		for ( int i = 0; i < 4; ++i ) cvs.push_back( clearOf( i, true ) );
		auto sv = r.v( "mine", r.image( "m", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) );
		crg::ru::Config ru{ indices };
		for ( int i = 0; i < pre + post; ++i )
		{
			bool before = i < pre;
			int j = before ? i : i - pre;
			bool last = before ? j + 1 == pre : j == 0;
			auto v = last && own == ( before ? 1 : 2 ) ? sv : extra( ( before ? "a" : "b" ) + n2( u64( j ) ) );
			bool mine = v == sv;
			( before ? pv : qv ).push_back( v );
			auto clear = crg::RecordContext::clearAttachment( v, cvs[size_t( i )], mine ? VK_IMAGE_LAYOUT_GENERAL : fin );
			auto act = [clear, before, j]( crg::RecordContext & ctx, VkCommandBuffer cb, u32 idx )
				{
					mv::cmdExec( cb, ( before ? "before " : "after " ) + n2( u64( j ) ) + " index " + n2( idx ), []{} );
					clear( ctx, cb, idx );
				};
			if ( before ) ru.prePassAction( act ); else ru.postPassAction( act );
		}
		crg::RunnablePass::GetPassIndexCallback getIndex( [&index](){ return index; } );
		crg::RunnablePass::IsEnabledCallback isEnabled( [&enabled](){ return enabled; } );
		auto & pass = r.graph->createPass( "p", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
			{
				crg::pp::Config base{};
				base.program( prog.stages );
				crg::RunnablePassPtr res;
				switch ( kind )
				{
				case 0: return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( u32 ){}
						, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ); } )
						, []( crg::RecordContext &, VkCommandBuffer cb, u32 i ){ mv::cmdExec( cb, "work index " + n2( i ), []{} ); }, getIndex, isEnabled }, ru );
				case 1: return std::make_unique< crg::RenderPass >( fp, ctx, rg, crg::RenderPass::Callbacks{ []( u32 ){}
						, []( crg::RecordContext &, VkCommandBuffer cb, u32 i ){ mv::cmdExec( cb, "work index " + n2( i ), []{}, true ); }
						, crg::RenderPass::GetSubpassContentsCallback( [](){ return VK_SUBPASS_CONTENTS_INLINE; } ), getIndex, isEnabled }, VkExtent2D{}, ru );
				case 2: { crg::rq::Config q; q.baseConfig( base ); q.passIndex( &index ); q.enabled( &enabled ); return std::make_unique< crg::RenderQuad >( fp, ctx, rg, ru, q ); }
				case 3: { crg::rm::Config q; q.baseConfig( base ); q.getPassIndex( getIndex ); q.isEnabled( isEnabled ); return std::make_unique< crg::RenderMesh >( fp, ctx, rg, ru, std::move( q ) ); }
				case 4: { crg::cp::Config q; q.baseConfig( base ); q.passIndex( &index ); q.enabled( &enabled ); return std::make_unique< crg::ComputePass >( fp, ctx, rg, ru, std::move( q ) ); }
				case 5: return std::make_unique< crg::BufferCopy >( fp, ctx, rg, 0u, 64u, ru, getIndex, isEnabled );
				case 6: return std::make_unique< crg::BufferToImageCopy >( fp, ctx, rg, VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, ru, getIndex, isEnabled );
				case 7: return std::make_unique< crg::ImageBlit >( fp, ctx, rg, VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, VK_FILTER_NEAREST, ru, getIndex, isEnabled );
				case 8: return std::make_unique< crg::ImageCopy >( fp, ctx, rg, VkExtent3D{ 4, 4, 1 }, VK_IMAGE_LAYOUT_UNDEFINED, ru, getIndex, isEnabled );
				case 9: return std::make_unique< crg::ImageToBufferCopy >( fp, ctx, rg, VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, ru, getIndex, isEnabled );
				default: return std::make_unique< crg::GenerateMipmaps >( fp, ctx, rg, VK_IMAGE_LAYOUT_UNDEFINED, ru, getIndex, isEnabled );
				}
			} );
		auto b0 = mv::makeBuffer( 64 ), b1 = mv::makeBuffer( 64 );
		auto target = [&]( u32 mips = 1 ){ return r.v( "tv", r.image( "t", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, mips ), 0, mips ); };
		auto source = [&]
			{
				auto v = r.v( "sv", r.image( "s", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) );
				auto & f = userPass( r, "fill", [&r, v]( crg::RecordContext &, VkCommandBuffer cb ){ mv::cmdExec( cb, "fill", [&r, v]{ for ( auto & [k, s] : devImage( r.device( v.data->image ) ).subs ) for ( auto & t : s.texels ) t = 9; } ); } );
				f.addTransferOutputView( v );
				pass.addDependency( f );
				return v;
			};
		switch ( kind )
		{
		case 0: case 4: pass.addInOutStorageView( sv, 0 ); break;
		case 1: case 2: case 3: pass.addOutputColourView( target() ); break;
		case 5: pass.addTransferInputBuffer( crg::Buffer{ b0, "b0" }, 0, 64 ); pass.addTransferOutputBuffer( crg::Buffer{ b1, "b1" }, 0, 64 ); break;
		case 6: pass.addTransferInputBuffer( crg::Buffer{ b0, "b0" }, 0, 64 ); pass.addTransferOutputView( target() ); break;
		case 7: case 8: pass.addTransferInputView( source() ); pass.addTransferOutputView( target() ); break;
		case 9: pass.addTransferInputView( source() ); pass.addTransferOutputBuffer( crg::Buffer{ b1, "b1" }, 0, 64 ); break;
		case 10: { source(); pass.addTransferInOutView( target( 3 ) ); } break;
		}
		// the next pass reads what was cleared
		auto & use = userPass( r, "use" );
		use.addDependency( pass );
		u32 bind = 0;
		for ( auto & a : { pv, qv } ) for ( auto & v : a ) use.addSampledView( v, bind++ );
		r.compile();
		c.note( std::string( kinds[kind] ) + " " + n2( u64( pre ) ) + " before " + n2( u64( post ) ) + " after" );
		int frames = mc::thorough() ? 3 : 2;
		for ( int f = 0; f < frames; ++f )
		{
			if ( indices > 1 ) index = u32( c.pick( 2, "index" ) );
			enabled = c.flip( "disabled" ) ? false : true;
			for ( auto & a : { pv, qv } ) for ( auto & v : a )
				for ( auto & t : devImage( r.device( v.data->image ) ).subs.at( mv::SubKey{ 0, v.data->info.subresourceRange.baseArrayLayer, 0 } ).texels ) t = 7;
			r.frame();
			std::vector< std::string > got, want;
			bool inRP = false;
			for ( auto cmd : r.cmds() )
			{
				if ( cmd->op == mv::Op::BeginRP ) inRP = true;
				if ( cmd->op == mv::Op::EndRP ) inRP = false;
				bool work = cmd->op == mv::Op::Draw || cmd->op == mv::Op::DrawIndexed || cmd->op == mv::Op::Dispatch || cmd->op == mv::Op::Blit || cmd->op == mv::Op::CopyBuffer || cmd->op == mv::Op::CopyBufImg || cmd->op == mv::Op::CopyImg || cmd->op == mv::Op::CopyImgBuf;
				if ( work && ( got.empty() || got.back() != "work index " + n2( index ) ) ) got.push_back( "work index " + n2( index ) );
				if ( cmd->op == mv::Op::ClearColour )
				{
					got.push_back( "clear of " + n2( cmd->a ) );
					mc::check( !inRP, "cleared inside of the render pass" );
				}
				if ( cmd->op == mv::Op::Exec && cmd->text != "fill" ) got.push_back( cmd->text );
			}
			if ( enabled )
			{
				auto add = [&]( crg::ImageViewIdArray const & a, std::string const & n ){ for ( size_t j = 0; j < a.size(); ++j ) { want.push_back( n + n2( j ) + " index " + n2( index ) ); want.push_back( "clear of " + n2( mv::h( r.device( a[j].data->image ) ) ) ); } };
				add( pv, "before " );
				want.push_back( "work index " + n2( index ) );
				add( qv, "after " );
			}
			std::string g, w;
			for ( auto & t : got ) g += t + "; ";
			for ( auto & t : want ) w += t + "; ";
			mc::check( got == want, std::string( kinds[kind] ) + ( enabled ? "" : " disabled" ) + ": " + g + "instead of " + w );
			for ( auto & a : { pv, qv } ) for ( auto & v : a )
			{
				auto & t = devImage( r.device( v.data->image ) ).subs.at( mv::SubKey{ 0, v.data->info.subresourceRange.baseArrayLayer, 0 } ).texels;
				mc::check( enabled ? t[0] != 7 && t[0] != mv::UNDEF : t[0] == 7 || t[0] == mv::UNDEF, "the actions of a pass which is " + std::string( enabled ? "enabled left " : "disabled changed " ) + v.data->name );
			}
			mc::step();
			mc::state( n2( u64( kind ) ) + g );
		}
		mc::outcome( n2( u64( kind * 100 + pre * 10 + post ) ) );
		r.close();
	}
	//************************************************************************************************
	// L04: the layouts render passes leave their targets in
	void nextUses( mc::Choices & c )
	{
		enum Use { None, Sampled, TransferIn, StorageIn, Colour, NUse };
		static VkImageLayout const layouts[]{ VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL };
		Rig r;
		int type = c.pick( 3, "pass" );  // render pass, quad, mip-map generation
		bool mips = type == 2;
		int place = mips ? 0 : c.pick( 3, "targets" );  // two images, two layers of one, two levels of one
		int n = mc::thorough() ? 3 : 2;
		int uses = int( NUse );
		std::vector< crg::ImageViewId > t;
		auto im = r.image( "t", VK_FORMAT_R8G8B8A8_UNORM, 8, 8, 2, 2 );
		t.push_back( r.v( "t0", im, 0, mips ? 2 : 1 ) );
		t.push_back( place == 0 ? r.v( "t1", r.image( "u", VK_FORMAT_R8G8B8A8_UNORM, 8, 8 ) ) : place == 1 ? r.v( "t1", im, 0, 1, 1 ) : r.v( "t1", im, 1 ) );
		VkImageLayout out[2]{};
		if ( int o = c.pick( 4, "outputs of the graph" ) )
		{
			if ( o & 1 ) out[0] = VK_IMAGE_LAYOUT_GENERAL;
			if ( o & 2 ) out[1] = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
			for ( size_t i = 0; i < 2; ++i )
				if ( out[i] ) r.graph->addOutput( t[i], crg::makeLayoutState( out[i] ) );
		}
		Program prog{ false };
		auto target = [&]( std::string const & name, bool withQuad, bool const * enabled ) -> crg::FramePass &
			{
				return r.graph->createPass( name, [&prog, withQuad, enabled]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
					{
						if ( !withQuad )
							return std::make_unique< crg::RenderPass >( fp, ctx, rg, crg::RenderPass::Callbacks{ []( u32 ){}
								, []( crg::RecordContext &, VkCommandBuffer cb, u32 ){ mv::cmdExec( cb, "draws", []{}, true ); }
								, crg::RenderPass::GetSubpassContentsCallback( [](){ return VK_SUBPASS_CONTENTS_INLINE; } )
								, crg::RunnablePass::GetPassIndexCallback( [](){ return 0u; } )
								, crg::RunnablePass::IsEnabledCallback( [enabled](){ return *enabled; } ) }, VkExtent2D{}, crg::ru::Config{} );
						crg::rq::Config q;
						q.program( prog.stages );
						q.enabled( enabled );
						return std::make_unique< crg::RenderQuad >( fp, ctx, rg, crg::ru::Config{}, q );
					} );
			};
		bool always = true;
		auto & fill = userPass( r, "fill", {}, &always );
		fill.addTransferOutputView( t[0] );
		std::map< int, VkImageLayout > left;   // by the mip-map generation, for each level
		auto & a = !mips ? target( "a", type == 1, &always ) : r.graph->createPass( "a", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
			{
				return std::make_unique< crg::GenerateMipmaps >( fp, ctx, rg, VK_IMAGE_LAYOUT_UNDEFINED, crg::ru::Config{}.postPassAction( [&]( crg::RecordContext &, VkCommandBuffer cb, u32 )
					{
						mv::cmdExec( cb, "left", [&]{ for ( u32 m = 0; m < 2; ++m ) left[int( m )] = devImage( r.device( im ) ).subs.at( mv::SubKey{ 0, 0, m } ).layout; } );
					} ) );
			} );
		a.addDependency( fill );
		if ( mips ) a.addTransferInOutView( t[0] );
		else for ( auto & v : t ) a.addOutputColourView( v );
		struct Next { bool enabled{ true }; int use[2]{}; crg::FramePass * pass{}; };
		std::deque< Next > next;
		std::string s;
		crg::FramePass * prev = &a;
		for ( int i = 0; i < n; ++i )
		{
			auto & p = next.emplace_back();
			s += " |";
			for ( size_t j = 0; j < 2; ++j ) { p.use[j] = c.pick( uses, "use" ); s += " " + n2( u64( p.use[j] ) ); }
			if ( mips && p.use[0] == Colour ) c.prune();
			bool attach = p.use[0] == Colour || p.use[1] == Colour;
			auto name = "p" + n2( u64( i ) );
			p.pass = attach ? &target( name, false, &p.enabled ) : &userPass( r, name, {}, &p.enabled );
			p.pass->addDependency( *prev );
			prev = p.pass;
			for ( size_t j = 0; j < 2; ++j )
				switch ( p.use[j] )
				{
				case Sampled: p.pass->addSampledView( t[j], u32( j ) ); break;
				case TransferIn: p.pass->addTransferInputView( t[j] ); break;
				case StorageIn: p.pass->addInputStorageView( t[j], u32( j ) ); break;
				case Colour: p.pass->addInOutColourView( t[j] ); break;
				default: break;
				}
			// a pass uses something
			if ( p.use[0] == None && p.use[1] == None )
				p.pass->addSampledView( r.v( name + "v", r.image( name + "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) ), 0 );
		}
		r.compile();
		c.note( s );
		for ( int f = 0; f < 2; ++f )
		{
			for ( auto & p : next ) p.enabled = !c.flip( "disabled" );
			r.frame();
			std::vector< std::pair< int, mv::Cmd const * > > begins;   // which pass
			for ( auto cmd : r.cmds() )
				if ( cmd->op == mv::Op::BeginRP )
					begins.emplace_back( 0, cmd );
			size_t b = 0;
			for ( int i = -1; i < n; ++i )
			{
				if ( i >= 0 && ( !next[size_t( i )].enabled || ( next[size_t( i )].use[0] != Colour && next[size_t( i )].use[1] != Colour ) ) ) continue;
				mv::RenderPass rp;
				mv::Framebuffer fb;
				if ( i >= 0 || !mips )
				{
					mc::check( b < begins.size(), "a render pass is missing" );
					rp = mv::w->renderPasses.at( begins[b].second->a );
					fb = mv::w->framebuffers.at( begins[b].second->b );
					++b;
				}
				for ( size_t j = 0; j < 2; ++j )
				{
					if ( i >= 0 && next[size_t( i )].use[j] != Colour ) continue;
					auto want = VK_IMAGE_LAYOUT_UNDEFINED;
					std::string who = "the output of the graph";
					for ( int k = i + 1; k < n && want == VK_IMAGE_LAYOUT_UNDEFINED; ++k )
						if ( next[size_t( k )].enabled && next[size_t( k )].use[j] != None ) { want = layouts[next[size_t( k )].use[j]]; who = "the next pass, p" + n2( u64( k ) ); }
					if ( want == VK_IMAGE_LAYOUT_UNDEFINED ) want = out[j];
					mc::step();
					if ( want == VK_IMAGE_LAYOUT_UNDEFINED ) continue;
					if ( i < 0 && mips )
					{
						if ( j == 0 )
							for ( auto & [m, got] : left )
								mc::check( got == want, "the level " + n2( u64( m ) ) + " is left in layout " + str( got ) + " instead of " + str( want ) + ", that of " + who );
						mc::check( left.size() == 2, "the mip-maps aren't generated" );
						continue;
					}
					bool found = false;
					for ( size_t at = 0; at < fb.views.size(); ++at )
					{
						auto & vi = mv::w->views.at( fb.views[at] ).info;
						auto & sr = t[j].data->info.subresourceRange;
						if ( vi.image != r.device( t[j].data->image ) || vi.subresourceRange.baseMipLevel != sr.baseMipLevel || vi.subresourceRange.baseArrayLayer != sr.baseArrayLayer ) continue;
						found = true;
						auto got = rp.attaches.at( at ).finalLayout;
						mc::check( got == want, "the target " + t[j].data->name + " is left in layout " + str( got ) + " instead of " + str( want ) + ", that of " + who );
					}
					mc::check( found, "the render pass has no target " + t[j].data->name );
				}
			}
			mc::state( s + n2( u64( next[0].enabled ) ) );
		}
		mc::outcome( s );
		r.close();
	}
	//************************************************************************************************
	// L03: what the shaders of the provided passes read and write
	void shaders( mc::Choices & c )
	{
		Rig r;
		static std::vector< DK > const images{ SplA, ISto, OSto, IOSto, CSto }, buffers{ UB, ISB, OSB, IOSB, CSB, UBV, ISBV, OSBV, IOSBV, CSBV };
		bool image = c.flip( "image" );
		int n = mc::thorough() ? 2 + c.pick( 2, "passes" ) : 2;
		struct P { int type{}; DDecl d; Program prog{ true }; bool enabled{ true }; crg::FramePass * pass{}; bool reads{}, writes{}; };
		std::deque< P > ps;
		auto im = r.image( "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 );
		auto vi = r.v( "iv", im );
		auto bu = mv::makeBuffer( 256 );
		auto bv = mv::makeBufferView( bu, 0, 128 );
		std::string s;
		for ( int i = 0; i < n; ++i )
		{
			auto & p = ps.emplace_back();
			p.type = c.pick( 4, "pass" );  // transfer, quad, mesh, compute
			p.prog = Program{ p.type == PCompute };
			auto & d = p.d;
			d.binding = 0;
			d.size = 128;
			std::string name = "p" + n2( u64( i ) );
			if ( p.type == 0 )
			{
				int u = c.pick( 3, "use" );
				p.reads = u != 1;
				p.writes = u != 0;
				p.pass = &userPass( r, name, [&p, &r, im, bu, image]( crg::RecordContext &, VkCommandBuffer cb ){ mv::cmdExec( cb, "transfer", [&p, &r, im, bu, image]
					{
						for ( int w = 0; w < 2; ++w )
						{
							if ( !( w ? p.writes : p.reads ) ) continue;
							auto acc = w ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT;
							if ( image ) mv::syncImage( mv::h( r.device( im ) ), mv::SubKey{ 0, 0, 0 }, VK_PIPELINE_STAGE_TRANSFER_BIT, acc, w == 1, "the transfers" );
							else mv::syncBuffer( mv::h( bu ), 0, 128, VK_PIPELINE_STAGE_TRANSFER_BIT, acc, w == 1, "the transfers" );
						}
					} ); }, &p.enabled );
				if ( image ) { if ( u == 0 ) p.pass->addTransferInputView( vi ); if ( u == 1 ) p.pass->addTransferOutputView( vi ); if ( u == 2 ) p.pass->addTransferInOutView( vi ); }
				else { crg::Buffer b{ bu, "b" }; if ( u == 0 ) p.pass->addTransferInputBuffer( b, 0, 128 ); if ( u == 1 ) p.pass->addTransferOutputBuffer( b, 0, 128 ); if ( u == 2 ) p.pass->addTransferInOutBuffer( b, 0, 128 ); }
				s += " transfer" + n2( u64( u ) );
			}
			else
			{
				d.k = c.of( image ? images : buffers, "use" );
				p.reads = d.k != OSto && d.k != CSto && d.k != OSB && d.k != CSB && d.k != OSBV && d.k != CSBV;
				p.writes = d.k != SplA && d.k != ISto && d.k != UB && d.k != ISB && d.k != UBV && d.k != ISBV;
				if ( image ) d.views.push_back( vi ); else d.buffers.push_back( bu );
				if ( d.k >= UBV ) d.bv = bv;
				p.pass = &r.graph->createPass( name, [&p]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
					{
						crg::pp::Config base{};
						base.program( p.prog.stages );
						crg::RunnablePassPtr res;
						if ( p.type == PCompute ) { crg::cp::Config q; q.baseConfig( base ); q.enabled( &p.enabled ); res = std::make_unique< crg::ComputePass >( fp, ctx, rg, crg::ru::Config{ 1u }, std::move( q ) ); }
						else if ( p.type == PQuad ) { crg::rq::Config q; q.baseConfig( base ); q.enabled( &p.enabled ); res = std::make_unique< crg::RenderQuad >( fp, ctx, rg, crg::ru::Config{ 1u }, q ); }
						else { crg::rm::Config q; q.baseConfig( base ); q.isEnabled( crg::RunnablePass::IsEnabledCallback( [&p](){ return p.enabled; } ) ); res = std::make_unique< crg::RenderMesh >( fp, ctx, rg, crg::ru::Config{ 1u }, std::move( q ) ); }
						return res;
					} );
				declare( *p.pass, d );
				if ( p.type != PCompute ) p.pass->addOutputColourView( r.v( name + "t", r.image( name + "t", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) ) );
				s += std::string( " " ) + pname( p.type ) + "(" + dkn( d.k ) + ")";
			}
			if ( i ) p.pass->addDependency( *ps[size_t( i ) - 1].pass );
		}
		c.note( s );
		mv::w->onDraw = [&]( mv::Drawn const & dr )
			{
				auto & mods = mv::w->pipelines.at( dr.bound.pipeline ).modules;
				for ( auto & p : ps )
				{
					if ( p.type == 0 || p.prog.modules != mods ) continue;
					auto st = p.type == PCompute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
					auto who = "the shaders of " + p.pass->getName();
					for ( int w = 0; w < 2; ++w )
					{
						if ( !( w ? p.writes : p.reads ) ) continue;
						auto acc = w ? VK_ACCESS_SHADER_WRITE_BIT : p.d.k == UB ? VK_ACCESS_UNIFORM_READ_BIT : VK_ACCESS_SHADER_READ_BIT;
						if ( image ) mv::syncImage( mv::h( r.device( im ) ), mv::SubKey{ 0, 0, 0 }, st, acc, w == 1, who );
						else mv::syncBuffer( mv::h( bu ), 0, 128, st, acc, w == 1, who );
					}
				}
			};
		r.compile();
		for ( int f = 0; f < ( mc::thorough() ? 3 : 2 ); ++f )
		{
			for ( auto & p : ps ) p.enabled = !c.flip( "disabled" );
			r.frame();
			mc::state( s + n2( u64( f ) ) );
		}
		mv::w->onDraw = {};
		r.close();
	}
	//************************************************************************************************
	// R02: device calls which fail while a graph is compiled and while its frames are recorded
	struct Faulty
	{
		Worker k;
		std::optional< Program > second, other;
		bool fresh{};
		int variant{};
		void create( int v )
		{
			variant = v;
			k.type = v == 0 ? PCompute : v == 1 ? PQuad : PMesh;
			k.indices = 2;
			second.emplace( k.type == PCompute );
			auto tex = k.r.image( "tex", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 1 );
			auto tv = k.r.v( "texv", tex ), all = k.r.v( "texall", tex, 0, 2 );
			auto sto = k.r.image( "sto", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 );
			auto sv = k.r.v( "stov", sto );
			auto & up = userPass( k.r, "fill", []( crg::RecordContext &, VkCommandBuffer cb ){ mv::cmdExec( cb, "fill", []{} ); } );
			up.addTransferOutputView( all );
			auto & mips = k.r.graph->createPass( "mips", []( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
				{ return std::make_unique< crg::GenerateMipmaps >( fp, ctx, rg ); } );
			mips.addTransferInOutView( all );
			mips.addDependency( up );
			auto ub = mv::makeBuffer( 256 ), sb = mv::makeBuffer( 256 );
			k.declare = [tv, sv, ub, sb, &mips]( crg::FramePass & p )
				{
					p.addSampledView( tv, 0, samplerOf( SplB ) );
					p.addOutputStorageView( sv, 1 );
					p.addUniformBuffer( crg::Buffer{ ub, "ub" }, 2, 0, 64 );
					p.addClearableOutputStorageBuffer( crg::Buffer{ sb, "sb" }, 3, 0, 256 );
					p.addDependency( mips );
				};
			if ( v == 1 ) k.quad = []( crg::rq::Config & c ){ c.texcoordConfig( crg::Texcoord{} ); };
			k.hasBase = true;
			std::vector< crg::VkPipelineShaderStageCreateInfoArray > ps;
			for ( int i = 0; i < 2; ++i ) { k.programs.emplace_back( k.type == PCompute ); ps.push_back( k.programs.back().stages ); }
			k.base.programs( ps );
			k.create();
			auto & rp = k.r.graph->createPass( "rp", []( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
				{
					return std::make_unique< crg::RenderPass >( fp, ctx, rg, crg::RenderPass::Callbacks{ []( u32 ){}
						, []( crg::RecordContext &, VkCommandBuffer cb, u32 ){ mv::cmdExec( cb, "draws", []{}, true ); }
						, crg::RenderPass::GetSubpassContentsCallback( [](){ return VK_SUBPASS_CONTENTS_INLINE; } ) }, VkExtent2D{} );
				} );
			rp.addInOutColourView( sv );
			rp.addOutputDepthView( k.r.v( "dv", k.r.image( "d", VK_FORMAT_D32_SFLOAT, 4, 4 ) ) );
			rp.addDependency( *k.pass );
		}
		static constexpr int Events = 5;
		void event( int e )
		{
			if ( e == 0 ) { k.r.run.reset(); mv::w->calls["reset"] = 0; k.r.compile(); return; }
			if ( e == 1 ) k.index = 0;
			if ( e == 2 ) k.index = 1;
			if ( e == 3 )
			{
				if ( !mv::w->calls["reset"] ) { k.reset( second->stages, 1 ); mv::w->calls["reset"] = 1; }
			}
			mv::w->drawn.clear();
			for ( auto & s : k.r.run->run( mv::queue() ) ) mv::consumeSemaphore( s.semaphore );
			mv::waitIdle();
			noErrors( AllCats, "event " + n2( u64( e ) ) );
			mc::check( mv::w->drawn.size() == 1, n2( mv::w->drawn.size() ) + " draws or dispatches in the frame" );
			auto & dr = mv::w->drawn[0];
			mc::check( mv::w->pipelines.count( dr.bound.pipeline ), "no pipeline" );
			auto & want = e == 3 || ( k.index == 1 && mv::w->calls["reset"] ) ? second->modules : k.programs[k.index].modules;
			mc::check( mv::w->pipelines.at( dr.bound.pipeline ).modules == want, "the pipeline isn't made of the program of the index" );
			mc::step();
		}
	};
	void faultGraph( mc::Choices & c )
	{
		int variant = c.pick( 3, "pass" );
		static std::vector< std::pair< int, std::string > > points[3];
		auto & pts = points[variant];
		if ( pts.empty() )
		{
			// the fallible calls of a run where nothing fails
			Faulty f;
			f.create( variant );
			mv::w->recordFallible = true;
			for ( int e = 0; e < Faulty::Events; ++e )
			{
				f.event( e );
				while ( pts.size() < mv::w->fallibleNames.size() ) pts.emplace_back( e, mv::w->fallibleNames[pts.size()] );
			}
			f.k.r.close();
		}
		auto n = c.pick( int( pts.size() ), "failing call" );
		auto & [fe, name] = pts[size_t( n )];
		if ( name == "GetQueryPoolResults" || name == "GetFenceStatus" ) c.prune();
		int after = c.pick( 3, "then" );   // end, compile again, try again
		bool command = name == "QueueSubmit" || name == "BeginCommandBuffer" || name == "EndCommandBuffer" || name == "ResetCommandBuffer" || name == "WaitForFences" || name == "ResetFences";
		if ( after == 2 && fe == 0 ) c.prune();
		if ( command && after == 2 ) c.prune();   // a frame whose commands are lost isn't taken up again
		Faulty f;
		f.create( variant );
		std::string where = "when " + name + " (call " + n2( u64( n ) ) + ") fails";
		c.note( where + " in event " + n2( u64( fe ) ) );
		mv::w->faultAt = n;
		bool threw = false;
		for ( int e = 0; e < Faulty::Events; ++e )
		{
			try { f.event( e ); }
			catch ( crg::Exception & ) { threw = true; }
			if ( !mv::w->faultName.empty() )
			{
				mv::w->faultAt = -1;
				mv::w->faultName.clear();
				mc::check( threw, where + ": nothing is reported" );
				noErrors( AllCats, where );
				if ( name == "WaitForFences" ) mv::waitIdle();
				if ( after == 0 ) break;
				if ( after == 1 ) { if ( command && fe ) break; f.event( 0 ); if ( e ) f.event( e ); }
				if ( after == 2 ) f.event( e );
			}
			mc::check( !threw || e >= fe, "an exception without a failure" );
		}
		mc::check( threw, where + ": never reached" );
		mc::outcome( n2( u64( variant ) ) + name + n2( u64( fe ) ) + n2( u64( after ) ) );
		mc::state( mv::hash( u64( variant * 1000 + n ), u64( after ) ) );
		f.k.r.close();
	}
	//************************************************************************************************
	// R01: pipelines replaced while frames of several graphs are in flight
	void lives( mc::Choices & c, int depth, bool reuse )
	{
		Worker k;
		mv::w->reuse = reuse;
		k.type = PType( PQuad + c.pick( 3, "pass" ) );
		k.indices = 2;
		k.hasBase = true;
		bool per = c.flip( "program of each index" );
		std::vector< crg::VkPipelineShaderStageCreateInfoArray > ps;
		for ( int i = 0; i < ( per ? 2 : 1 ); ++i ) { k.programs.emplace_back( k.type == PCompute ); ps.push_back( k.programs.back().stages ); }
		k.base.programs( ps );
		int inside = -1;   // the index reset while the other graph is recorded
		auto doReset = [&]( u32 i )
			{
				k.programs.emplace_back( k.type == PCompute );
				k.reset( k.programs.back().stages, i );
			};
		k.create();
		crg::FrameGraph other{ *k.r.env.handler, "other" };
		other.createPass( "o", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
			{
				return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( u32 ){}
					, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_TRANSFER_BIT ); } )
					, [&]( crg::RecordContext &, VkCommandBuffer, u32 ){ if ( inside >= 0 ) doReset( u32( inside ) ); inside = -1; } } );
			} );
		k.r.compile();
		auto run2 = other.compile( *k.r.env.ctx );
		auto go = [&]( crg::RunnableGraph & g ){ for ( auto & s : g.run( mv::queue() ) ) mv::consumeSemaphore( s.semaphore ); };
		for ( int d = 0; d < depth; ++d )
		{
			switch ( c.pick( 8, "operation" ) )
			{
			case 0: go( *k.r.run ); break;
			case 1: go( *run2 ); break;
			case 2: doReset( 0 ); break;
			case 3: doReset( 1 ); break;
			case 4: k.index = 1 - k.index; go( *k.r.run ); break;
			case 5: inside = int( k.index ); go( *run2 ); break;
			case 6: mv::waitIdle(); break;
			case 7: mv::waitIdle(); k.r.run.reset(); k.r.compile(); break;
			}
			mc::step();
			noErrors( AllCats, "operation " + n2( u64( d ) ) );
			mc::state( mv::hash( mv::w->pipelines.size(), mv::hash( mv::w->submissions.size(), k.index ) ) );
		}
		mv::waitIdle();
		if ( c.flip( "the other graph ends first" ) ) { run2.reset(); k.r.run.reset(); }
		else { k.r.run.reset(); run2.reset(); }
		noErrors( AllCats, "after the end of the graphs" );
		k.r.close();
	}
}


int main( int argc, char ** argv )
{
	using P = mc::Property;
	std::vector< P > props{
		P{ "V01", { { "attachments", attachments, 4 }, { "areas", areas, 4 }, { "sizes", sizes, 1 } } },
		P{ "V02", { { "descriptors", descriptors, 5 } } },
		P{ "V03", { { "pipelines", pipelines, 6 }, { "work", work, 6 } } },
		P{ "V04", { { "buffers", bufferCopies, 4 }, { "copies", imageCopies, 4 }, { "blits", imageBlits, 4 }, { "buffers and images", bufferImages, 4 }, { "levels", mipmaps, 3 } } },
		P{ "E02", { { "effects", effects, 4 }, { "around", around, 5 } } },
		P{ "L04", { { "next uses", nextUses, 6 } } },
		P{ "L03", {
			{ "buffer copies", []( mc::Choices & c ){ g_sync = true; bufferCopies( c ); }, 4 }, { "image copies", []( mc::Choices & c ){ g_sync = true; imageCopies( c ); }, 4 }
			, { "blits", []( mc::Choices & c ){ g_sync = true; imageBlits( c ); }, 4 }, { "buffers and images", []( mc::Choices & c ){ g_sync = true; bufferImages( c ); }, 4 }
			, { "levels", []( mc::Choices & c ){ g_sync = true; mipmaps( c ); }, 3 }, { "effects", []( mc::Choices & c ){ g_sync = true; effects( c ); }, 4 }, { "around", []( mc::Choices & c ){ g_sync = true; around( c ); }, 5 }, { "shaders", []( mc::Choices & c ){ g_sync = true; shaders( c ); }, 5 } } },
		P{ "R01", { { "pipelines", []( mc::Choices & c ){ lives( c, mc::thorough() ? 6 : 5, false ); }, 4 }, { "pipelines again", []( mc::Choices & c ){ lives( c, mc::thorough() ? 5 : 4, true ); }, 4 } } },
		P{ "R02", { { "graph", faultGraph, 2 } } },
	};
	return mc::mainLoop( argc, argv, props );
}
