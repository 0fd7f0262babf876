#pragma once
#include "demo.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
using namespace sim;
namespace
{
	std::string n2( u64 v ) { return std::to_string( v ); }
	bool const g_sync = false;
	Cats const & cats() { static Cats const s{ "desc", "draw", "label", "layout", "leak", "life", "mem", "param", "query", "region", "rp", "submit", "usage" }; return s; }
	struct Rig
	{
		Env env;
		std::unique_ptr< crg::FrameGraph > graph;
		crg::RunnableGraphPtr run;
		int frames{};
		Rig() { mv::w->syncCheck = g_sync; graph = std::make_unique< crg::FrameGraph >( *env.handler, "fg" ); }
		void compile() { run = graph->compile( *env.ctx ); }
		void frame()
		{
			for ( auto & s : run->run( mv::queue() ) ) mv::consumeSemaphore( s.semaphore );
			mv::waitIdle();
			noErrors( cats(), "frame " + n2( u64( frames ) ) );
			++frames;
		}
		// the commands of the last submission
		std::vector< mv::Cmd const * > cmds()
		{
			std::vector< mv::Cmd const * > r;
			for ( auto cb : mv::w->last.cbs ) collect( cb, r );
			return r;
		}
		static void collect( u64 cb, std::vector< mv::Cmd const * > & r )
		{
			auto it = mv::w->commandBuffers.find( cb );
			if ( it == mv::w->commandBuffers.end() ) return;
			for ( auto & c : it->second.cmds )
			{
				r.push_back( &c );
				if ( c.op == mv::Op::ExecCmds )
					for ( auto h : c.handles ) collect( h, r );
			}
		}
		void close()
		{
			mv::waitIdle();
			run.reset();
			graph.reset();
			env.close( !g_sync );
			noErrors( cats(), "at the end" );
			mc::compared();
		}
		~Rig() { run.reset(); graph.reset(); }
		VkImage device( crg::ImageId i ) { return VkImage( env.handler->createImage( *env.ctx, i ).first ); }
		crg::ImageId image( std::string n, VkFormat f, u32 wd, u32 hg, u32 mips = 1, u32 layers = 1, VkImageType t = VK_IMAGE_TYPE_2D, u32 d = 1 ) { return graph->createImage( img( std::move( n ), f, wd, hg, mips, layers, t, d ) ); }
		crg::ImageViewId v( std::string n, crg::ImageId i, u32 mip = 0, u32 mips = 1, u32 layer = 0, u32 layers = 1, VkImageAspectFlags a = 0, int type = -1 )
		{
			auto vt = type >= 0 ? VkImageViewType( type ) : i.data->info.imageType == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : layers > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
			return graph->createView( view( std::move( n ), i, vt, mip, mips, layer, layers, a ) );
		}
	};
	VkPipelineShaderStageCreateInfo stage( VkShaderStageFlagBits s, VkShaderModule m ) { return { VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, nullptr, 0, s, m, "main", nullptr }; }
	// a program and the modules it is made of
	struct Program
	{
		std::vector< u64 > modules;
		crg::VkPipelineShaderStageCreateInfoArray stages;
		explicit Program( bool compute, std::string const & n = "" )
		{
			auto add = [&]( VkShaderStageFlagBits s ) { auto m = mv::makeModule( n.c_str() ); modules.push_back( mv::h( m ) ); stages.push_back( stage( s, m ) ); };
			if ( compute ) add( VK_SHADER_STAGE_COMPUTE_BIT );
			else { add( VK_SHADER_STAGE_VERTEX_BIT ); add( VK_SHADER_STAGE_FRAGMENT_BIT ); }
		}
	};
	enum PType { PRender, PQuad, PMesh, PCompute };
	struct Worker
	{
		Rig r;
		PType type{};
		u32 indices{ 1 }, index{};
		crg::pp::Config base{};
		bool hasBase{};
		std::vector< Program > programs;
		crg::FramePass * pass{};
		crg::RunnablePass * run{};
		std::function< void( crg::FramePass & ) > declare;
		// configuration of the work itself
		std::function< void( crg::cp::Config & ) > compute;
		std::function< void( crg::rq::Config & ) > quad;
		std::function< void( crg::rm::Config & ) > mesh;
		void create()
		{
			if ( !hasBase )
			{
				programs.emplace_back( type == PCompute );
				base.program( programs[0].stages );
			}
			pass = &r.graph->createPass( "work", [this]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
				{
					crg::ru::Config ru{ indices };
					ru.resettable = true;
					crg::RunnablePassPtr res;
					if ( type == PCompute )
					{
						crg::cp::Config c;
						c.baseConfig( base );
						c.passIndex( &index );
						if ( compute ) compute( c );
						res = std::make_unique< crg::ComputePass >( fp, ctx, rg, ru, std::move( c ) );
					}
					else if ( type == PQuad )
					{
						crg::rq::Config c;
						c.baseConfig( base );
						c.passIndex( &index );
						if ( quad ) quad( c );
						res = std::make_unique< crg::RenderQuad >( fp, ctx, rg, ru, c );
					}
					else
					{
						crg::rm::Config c;
						c.baseConfig( base );
						c.getPassIndex( crg::RunnablePass::GetPassIndexCallback( [this](){ return index; } ) );
						if ( mesh ) mesh( c );
						res = std::make_unique< crg::RenderMesh >( fp, ctx, rg, ru, std::move( c ) );
					}
					run = res.get();
					return res;
				} );
			if ( declare ) declare( *pass );
			if ( type != PCompute )
				pass->addOutputColourView( r.v( "tv", r.image( "t", VK_FORMAT_R8G8B8A8_UNORM, 4, 4 ) ) );
		}
		void reset( crg::VkPipelineShaderStageCreateInfoArray const & p, u32 i )
		{
			if ( type == PCompute ) static_cast< crg::ComputePass * >( run )->resetPipeline( p, i );
			else if ( type == PQuad ) static_cast< crg::RenderQuad * >( run )->resetPipeline( p, i );
			else static_cast< crg::RenderMesh * >( run )->resetPipeline( p, i );
		}
		// the one draw or dispatch of the frame
		mv::Drawn const & frame()
		{
			mv::w->drawn.clear();
			r.frame();
			mc::check( mv::w->drawn.size() == 1, n2( mv::w->drawn.size() ) + " draws or dispatches in the frame" );
			mc::step();
			return mv::w->drawn[0];
		}
	};
}
