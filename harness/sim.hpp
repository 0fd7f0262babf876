// Common pieces of the harnesses: a device context on the simulated device, user passes, helpers.
#pragma once
#include "explore.hpp"
#include "mockvk.hpp"

#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/AttachmentTransition.hpp>
#include <RenderGraph/DotExport.hpp>
#include <RenderGraph/Exception.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/FramePassTimer.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/GraphNode.hpp>
#include <RenderGraph/GraphVisitor.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/LayerLayoutStatesHandler.hpp>
#include <RenderGraph/Log.hpp>
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/Signal.hpp>
#include <RenderGraph/WriteDescriptorSet.hpp>

#include <cstring>
#include <optional>
#include <sstream>

namespace sim
{
	using mv::u32;
	using mv::u64;
	using Cats = std::set< std::string >;

	struct LogSink { std::vector< std::string > warnings, errors; };
	inline LogSink & sink() { static LogSink s; return s; }
	inline void silence()
	{
		auto no = []( std::string const &, bool ){};
		crg::Logger::setTraceCallback( no );
		crg::Logger::setDebugCallback( no );
		crg::Logger::setInfoCallback( no );
		crg::Logger::setWarningCallback( []( std::string const & m, bool ){ sink().warnings.push_back( m ); } );
		crg::Logger::setErrorCallback( []( std::string const & m, bool ){ sink().errors.push_back( m ); } );
	}

	// a fresh simulated device and a context on it
	struct Env
	{
		explicit Env( bool separateDS = false )
		{
			silence();
			sink() = {};
			mv::reset();
			mv::w->separateDS = separateDS;
			ctx = newContext();
			handler = std::make_unique< crg::ResourceHandler >();
		}
		std::unique_ptr< crg::GraphContext > newContext()
		{
			return std::make_unique< crg::GraphContext >( mv::device(), mv::pipelineCache(), mv::allocator(), mv::defaultMemProps(), mv::defaultProps(), mv::w->separateDS, &mv::getProc );
		}
		std::unique_ptr< crg::GraphContext > ctx;
		std::unique_ptr< crg::ResourceHandler > handler;
		// everything made on the device must be gone once the handler and the context are
		void close( bool leaks )
		{
			handler.reset();
			ctx.reset();
			if ( leaks )
				mv::checkLeaks();
		}
	};

	// fails the execution on the first device error of the given categories
	inline void noErrors( Cats const & cats, std::string const & where )
	{
		for ( auto & e : mv::w->errors )
			if ( cats.count( e.cat ) )
				mc::fail( where + ": [" + e.cat + "] " + e.msg );
	}

	inline crg::ImageData img( std::string name, VkFormat fmt, u32 wd, u32 hg, u32 mips = 1, u32 layers = 1, VkImageType type = VK_IMAGE_TYPE_2D, u32 depth = 1, VkImageCreateFlags flags = 0 )
	{
		auto ds = crg::isDepthFormat( fmt ) || crg::isStencilFormat( fmt );
		return crg::ImageData{ std::move( name ), flags, type, fmt, { wd, hg, depth }
			, VkImageUsageFlags( VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT
				| ( ds ? VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT : ( VK_IMAGE_USAGE_STORAGE_BIT | VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT ) ) )
			, mips, layers };
	}
	inline crg::ImageViewData view( std::string name, crg::ImageId image, VkImageViewType type, u32 mip, u32 mips, u32 layer, u32 layers, VkImageAspectFlags aspect = 0 )
	{
		return crg::ImageViewData{ std::move( name ), image, 0, type, image.data->info.format
			, { aspect ? aspect : crg::getAspectMask( image.data->info.format ), mip, mips, layer, layers } };
	}
	inline VkImageSubresourceRange range( VkImageAspectFlags a, u32 mip, u32 mips, u32 layer, u32 layers ) { return { a, mip, mips, layer, layers }; }
	inline std::string str( VkImageLayout l ) { return mv::str( l ); }

	inline mv::Image & devImage( VkImage i )
	{
		auto it = mv::w->images.find( mv::h( i ) );
		if ( it == mv::w->images.end() )
			mc::fail( "the image is not alive on the device" );
		return it->second;
	}
	inline void setActual( VkImage i, VkImageSubresourceRange const & r, VkImageLayout l, u64 token, bool setToken )
	{
		auto & im = devImage( i );
		for ( auto & k : mv::subsOf( im, r ) )
		{
			auto & s = im.subs[k];
			s.layout = l;
			if ( setToken )
				std::fill( s.texels.begin(), s.texels.end(), token );
		}
	}
}
