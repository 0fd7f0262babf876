#include "mockvk.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>
#include <tuple>
#include <thread>

extern "C"
{
	void AnnotateIgnoreReadsBegin( char const *, int ) __attribute__( ( weak ) );
	void AnnotateIgnoreReadsEnd( char const *, int ) __attribute__( ( weak ) );
	void AnnotateIgnoreWritesBegin( char const *, int ) __attribute__( ( weak ) );
	void AnnotateIgnoreWritesEnd( char const *, int ) __attribute__( ( weak ) );
}

namespace mv
{
	static World * s_world{};
	World * w = nullptr;

	char const * tname( T t )
	{
		static char const * const names[]{ "None", "Image", "ImageView", "Buffer", "BufferView", "DeviceMemory", "Sampler", "RenderPass", "Framebuffer", "Pipeline", "PipelineLayout"
			, "DescriptorSetLayout", "DescriptorPool", "DescriptorSet", "CommandPool", "CommandBuffer", "Semaphore", "Fence", "QueryPool", "Event", "ShaderModule" };
		return names[int( t )];
	}
	char const * opname( Op o )
	{
		static char const * const names[]{ "BindPipeline", "BindSets", "BindVB", "BindIB", "ClearColour", "ClearDS", "Dispatch", "DispatchIndirect", "Draw", "DrawIndexed", "DrawIndirect", "DrawIndexedIndirect",
			"BeginRP", "EndRP", "PushConstants", "ResetQuery", "WriteTs", "Barrier", "Blit", "CopyBuffer", "CopyBufImg", "CopyImg", "CopyImgBuf", "ExecCmds", "ResetEvent", "SetEvent", "WaitEvents", "Fill", "BeginLabel", "EndLabel", "Exec" };
		return names[int( o )];
	}
	VkPhysicalDeviceMemoryProperties defaultMemProps()
	{
		VkPhysicalDeviceMemoryProperties p{};
		p.memoryHeapCount = 2;
		p.memoryHeaps[0] = { 1u << 30, VK_MEMORY_HEAP_DEVICE_LOCAL_BIT };
		p.memoryHeaps[1] = { 1u << 30, 0 };
		p.memoryTypeCount = 3;
		p.memoryTypes[0] = { VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, 0 };
		p.memoryTypes[1] = { VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT, 1 };
		p.memoryTypes[2] = { VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_CACHED_BIT, 1 };
		return p;
	}
	VkPhysicalDeviceProperties defaultProps()
	{
		VkPhysicalDeviceProperties p{};
		p.limits.timestampPeriod = 1.0f;
		p.limits.nonCoherentAtomSize = 64;
		p.limits.maxImageDimension2D = 4096;
		p.limits.maxPushConstantsSize = 128;
		p.apiVersion = VK_API_VERSION_1_1;
		return p;
	}
	void reset()
	{
		delete s_world;
		s_world = new World;
		w = s_world;
		w->memProps = defaultMemProps();
	}
	u64 hash( u64 a, u64 b )
	{
		u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
		x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x *= 0x94D049BB133111EBull; x ^= x >> 31;
		return x == UNDEF ? 1 : x;
	}
	void error( std::string const & cat, std::string const & msg )
	{
		if ( w->errors.size() < 64 )
			w->errors.push_back( { cat, msg } );
	}
	namespace
	{
		struct Guard
		{
			explicit Guard( char const * name )
			{
				ignore( AnnotateIgnoreReadsBegin, AnnotateIgnoreWritesBegin );
				if ( w->onCall )
					w->onCall( name );
				while ( w->lock.test_and_set( std::memory_order_acquire ) )
					std::this_thread::yield();
				++w->callCount;
			}
			~Guard() { w->lock.clear( std::memory_order_release ); ignore( AnnotateIgnoreWritesEnd, AnnotateIgnoreReadsEnd ); }
			// the device isn't watched by ThreadSanitizer
			using Note = void ( * )( char const *, int );
			static void ignore( Note a, Note b ) { if ( a && b ) { a( "", 0 ); b( "", 0 ); } }
		};
		VkResult enter( char const * name )
		{
			++w->calls[name];
			long idx = w->fallible++;
			if ( w->recordFallible )
				w->fallibleNames.push_back( name );
			if ( w->faultAt >= 0 && idx == w->faultAt )
			{
				w->faultName = name;
				return w->faultResult;
			}
			return VK_SUCCESS;
		}
		// what every call is given: the device and the allocator of the context, and valid structures
		void sane( VkDevice d, char const * what )
		{
			if ( d != device() )
				error( "param", std::string{ what } + ": not the device of the context" );
		}
		void sane( VkDevice d, VkAllocationCallbacks const * al, char const * what )
		{
			sane( d, what );
			if ( al != allocator() )
				error( "life", std::string{ what } + ": not the allocator of the context" );
		}
		template< typename T >
		void sane( T const * ci, VkStructureType t, char const * what )
		{
			if ( ci && ci->sType != t )
				error( "param", std::string{ what } + ": structure type " + std::to_string( ci->sType ) + " instead of " + std::to_string( t ) );
		}
		void reserved( u64 flags, char const * what )
		{
			if ( flags )
				error( "param", std::string{ what } + ": reserved flags " + std::to_string( flags ) );
		}
#define FALL( name ) Guard guard__{ name }; if ( VkResult r__ = enter( name ) ) return r__
#define CALL( name ) Guard guard__{ name }; ++w->calls[name]

		u64 newHandle( T t )
		{
			if ( w->reuse )
			{
				auto & f = w->freeHandles[int( t )];
				if ( !f.empty() )
				{
					u64 r = f.back();
					f.pop_back();
					w->dead.erase( r );
					return r;
				}
			}
			w->nextHandle += 0x10;
			return w->nextHandle;
		}
		template< typename O > std::map< u64, O > & mapOf();
#define MAPOF( O, m ) template<> std::map< u64, O > & mapOf< O >() { return w->m; }
		MAPOF( Image, images ) MAPOF( ImageView, views ) MAPOF( Buffer, buffers ) MAPOF( BufferView, bufferViews ) MAPOF( Memory, memories ) MAPOF( Sampler, samplers )
		MAPOF( RenderPass, renderPasses ) MAPOF( Framebuffer, framebuffers ) MAPOF( Pipeline, pipelines ) MAPOF( PipelineLayout, pipelineLayouts ) MAPOF( SetLayout, setLayouts )
		MAPOF( DescPool, descPools ) MAPOF( DescSet, descSets ) MAPOF( CommandPool, commandPools ) MAPOF( CommandBuffer, commandBuffers ) MAPOF( Semaphore, semaphores )
		MAPOF( Fence, fences ) MAPOF( QueryPool, queryPools ) MAPOF( Event, events ) MAPOF( ShaderModule, modules )
		template< typename O > T typeOf();
#define TYPEOF( O, t ) template<> T typeOf< O >() { return T::t; }
		TYPEOF( Image, Image ) TYPEOF( ImageView, ImageView ) TYPEOF( Buffer, Buffer ) TYPEOF( BufferView, BufferView ) TYPEOF( Memory, Memory ) TYPEOF( Sampler, Sampler )
		TYPEOF( RenderPass, RenderPass ) TYPEOF( Framebuffer, Framebuffer ) TYPEOF( Pipeline, Pipeline ) TYPEOF( PipelineLayout, PipelineLayout ) TYPEOF( SetLayout, SetLayout )
		TYPEOF( DescPool, DescPool ) TYPEOF( DescSet, DescSet ) TYPEOF( CommandPool, CommandPool ) TYPEOF( CommandBuffer, CommandBuffer ) TYPEOF( Semaphore, Semaphore )
		TYPEOF( Fence, Fence ) TYPEOF( QueryPool, QueryPool ) TYPEOF( Event, Event ) TYPEOF( ShaderModule, ShaderModule )

		template< typename O > O & create( O o )
		{
			u64 id = newHandle( typeOf< O >() );
			o.id = id;
			o.harness = w->harness;
			o.serial = ++w->serial;
			auto it = mapOf< O >().insert_or_assign( id, std::move( o ) ).first;
			return it->second;
		}
		std::string hx( u64 v )
		{
			std::ostringstream s; s << "0x" << std::hex << v; return s.str();
		}
		template< typename O > O * get( u64 id, char const * where, bool allowNull = false )
		{
			auto & m = mapOf< O >();
			auto it = m.find( id );
			if ( it != m.end() )
				return &it->second;
			if ( !id )
			{
				if ( !allowNull )
					error( "life", std::string{ where } + ": null " + tname( typeOf< O >() ) + " handle" );
				return nullptr;
			}
			if ( w->dead.count( id ) )
				error( "life", std::string{ where } + ": use of a destroyed " + tname( typeOf< O >() ) );
			else
				error( "life", std::string{ where } + ": unknown " + tname( typeOf< O >() ) + " handle" );
			return nullptr;
		}
		bool inFlight( T t, u64 id )
		{
			for ( auto & s : w->submissions )
				if ( !s.done && s.refs.count( { int( t ), id } ) )
					return true;
			return false;
		}
		void kill( T t, u64 id )
		{
			w->dead[id] = t;
			if ( w->reuse )
				w->freeHandles[int( t )].push_back( id );
		}
		template< typename O > void destroy( u64 id, char const * where )
		{
			if ( !id )
				return;
			if ( !get< O >( id, where ) )
				return;
			if ( inFlight( typeOf< O >(), id ) )
				error( "life", std::string{ where } + ": " + tname( typeOf< O >() ) + " destroyed while the GPU still uses it" );
			mapOf< O >().erase( id );
			kill( typeOf< O >(), id );
			// a command buffer which refers to a destroyed object becomes invalid
			for ( auto & [cid, cb] : w->commandBuffers )
				if ( cb.state != CbState::Initial && cb.refs.count( { int( typeOf< O >() ), id } ) )
					cb.state = CbState::Invalid;
		}
	}
	//************************************************************************************************
	std::vector< int > aspectsOf( VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_D16_UNORM: case VK_FORMAT_X8_D24_UNORM_PACK32: case VK_FORMAT_D32_SFLOAT: return { 1 };
		case VK_FORMAT_S8_UINT: return { 2 };
		case VK_FORMAT_D16_UNORM_S8_UINT: case VK_FORMAT_D24_UNORM_S8_UINT: case VK_FORMAT_D32_SFLOAT_S8_UINT: return { 1, 2 };
		default: return { 0 };
		}
	}
	static VkImageAspectFlags aspectMaskOf( VkFormat f )
	{
		VkImageAspectFlags r{};
		for ( int a : aspectsOf( f ) )
			r |= a == 0 ? VK_IMAGE_ASPECT_COLOR_BIT : a == 1 ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT;
		return r;
	}
	u32 texelSize( VkFormat f, int aspect )
	{
		switch ( f )
		{
		case VK_FORMAT_R8_UNORM: case VK_FORMAT_S8_UINT: return 1;
		case VK_FORMAT_R8G8_UNORM: case VK_FORMAT_R16_SFLOAT: case VK_FORMAT_D16_UNORM: return 2;
		case VK_FORMAT_R16G16B16A16_SFLOAT: case VK_FORMAT_R32G32_SFLOAT: return 8;
		case VK_FORMAT_D24_UNORM_S8_UINT: case VK_FORMAT_D32_SFLOAT_S8_UINT: return aspect == 2 ? 1 : 4;
		default: return 4;
		}
	}
	u32 mipDim( u32 v, u32 mip )
	{
		return std::max( 1u, v >> mip );
	}
	std::vector< SubKey > subsOf( Image const & img, VkImageSubresourceRange const & r )
	{
		std::vector< SubKey > res;
		u32 levels = r.levelCount == VK_REMAINING_MIP_LEVELS ? ( img.info.mipLevels > r.baseMipLevel ? img.info.mipLevels - r.baseMipLevel : 0 ) : r.levelCount;
		u32 layers = r.layerCount == VK_REMAINING_ARRAY_LAYERS ? ( img.info.arrayLayers > r.baseArrayLayer ? img.info.arrayLayers - r.baseArrayLayer : 0 ) : r.layerCount;
		for ( int a : aspectsOf( img.info.format ) )
		{
			VkImageAspectFlags bit = a == 0 ? VK_IMAGE_ASPECT_COLOR_BIT : a == 1 ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT;
			if ( !( r.aspectMask & bit ) )
				continue;
			for ( u32 l = r.baseArrayLayer; l < r.baseArrayLayer + layers; ++l )
				for ( u32 m = r.baseMipLevel; m < r.baseMipLevel + levels; ++m )
					if ( img.subs.count( SubKey{ a, l, m } ) )
						res.push_back( SubKey{ a, l, m } );
		}
		return res;
	}
	std::string str( VkImageLayout l )
	{
		switch ( l )
		{
		case VK_IMAGE_LAYOUT_UNDEFINED: return "UNDEFINED";
		case VK_IMAGE_LAYOUT_GENERAL: return "GENERAL";
		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL: return "COLOR_ATTACHMENT";
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: return "DEPTH_STENCIL_ATTACHMENT";
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL: return "DEPTH_STENCIL_READ_ONLY";
		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL: return "SHADER_READ_ONLY";
		case VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL: return "TRANSFER_SRC";
		case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL: return "TRANSFER_DST";
		case VK_IMAGE_LAYOUT_PRESENT_SRC_KHR: return "PRESENT_SRC";
		case VK_IMAGE_LAYOUT_PREINITIALIZED: return "PREINITIALIZED";
		default: return "layout#" + std::to_string( int( l ) );
		}
	}
	static std::string str( VkImageSubresourceRange const & r )
	{
		std::ostringstream s;
		s << "asp" << r.aspectMask << " mips[" << r.baseMipLevel << "+" << r.levelCount << "] layers[" << r.baseArrayLayer << "+" << r.layerCount << "]";
		return s.str();
	}
	static std::string imgName( u64 id )
	{
		auto it = w->images.find( id );
		return ( it == w->images.end() || it->second.label.empty() ) ? "img" + hx( id ) : it->second.label;
	}
	std::string describe( Cmd const & c )
	{
		std::ostringstream s;
		s << opname( c.op );
		switch ( c.op )
		{
		case Op::Barrier:
			s << " " << hx( c.n[0] ) << "->" << hx( c.n[1] );
			for ( auto & b : c.ib )
				s << " {" << imgName( h( b.image ) ) << " " << str( b.subresourceRange ) << " " << str( b.oldLayout ) << "->" << str( b.newLayout ) << " acc " << hx( b.srcAccessMask ) << "->" << hx( b.dstAccessMask ) << "}";
			for ( auto & b : c.bb )
				s << " {buf" << hx( h( b.buffer ) ) << " [" << b.offset << "+" << b.size << "] acc " << hx( b.srcAccessMask ) << "->" << hx( b.dstAccessMask ) << "}";
			break;
		case Op::Exec: case Op::BeginLabel: s << " " << c.text; break;
		case Op::ClearColour: case Op::ClearDS: s << " " << imgName( c.a ) << " in " << str( c.la ); break;
		case Op::BeginRP: s << " rp" << hx( c.a ) << " fb" << hx( c.b ) << " area " << c.area.offset.x << "," << c.area.offset.y << " " << c.area.extent.width << "x" << c.area.extent.height; break;
		case Op::Draw: case Op::DrawIndexed: case Op::Dispatch: for ( auto v : c.n ) s << " " << v; break;
		case Op::CopyImg: case Op::Blit: s << " " << imgName( c.a ) << "->" << imgName( c.b ); break;
		default: s << " " << hx( c.a ) << " " << hx( c.b ); break;
		}
		return s.str();
	}
	//************************************************************************************************
	static void initSubs( Image & i )
	{
		if ( i.info.extent.width > 64 || i.info.extent.height > 64 || i.info.extent.depth > 64 )
		{
			// too big to carry texels: the first 16x16x4 corner stands for the rest
		}
		for ( int a : aspectsOf( i.info.format ) )
			for ( u32 l = 0; l < i.info.arrayLayers; ++l )
				for ( u32 m = 0; m < i.info.mipLevels; ++m )
				{
					Sub s;
					s.layout = i.info.initialLayout;
					s.w = mipDim( i.info.extent.width, m );
					s.hgt = mipDim( i.info.extent.height, m );
					s.d = mipDim( i.info.extent.depth, m );
					u64 n = u64( s.w ) * s.hgt * s.d;
					if ( n <= 65536 )
						s.texels.assign( n, UNDEF );
					i.subs.emplace( SubKey{ a, l, m }, std::move( s ) );
				}
	}
	static VkResult VKAPI_PTR CreateImage( VkDevice dv, VkImageCreateInfo const * ci, VkAllocationCallbacks const * al, VkImage * out )
	{
		FALL( "CreateImage" );
		sane( dv, al, "vkCreateImage" );
		sane( ci, VK_STRUCTURE_TYPE_IMAGE_CREATE_INFO, "vkCreateImage" );
		Image i;
		i.info = *ci;
		if ( !ci->extent.width || !ci->extent.height || !ci->extent.depth || !ci->mipLevels || !ci->arrayLayers )
			error( "param", "vkCreateImage: zero extent / mipLevels / arrayLayers" );
		if ( !ci->usage )
			error( "param", "vkCreateImage: usage is zero" );
		if ( ci->format == VK_FORMAT_UNDEFINED )
			error( "param", "vkCreateImage: undefined format" );
		if ( ci->initialLayout != VK_IMAGE_LAYOUT_UNDEFINED && ci->initialLayout != VK_IMAGE_LAYOUT_PREINITIALIZED )
			error( "param", "vkCreateImage: initialLayout must be UNDEFINED or PREINITIALIZED" );
		initSubs( i );
		auto & o = create( std::move( i ) );
		*out = mk< VkImage >( o.id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyImage( VkDevice dv, VkImage x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyImage" );
		sane( dv, al, "vkDestroyImage" );
		destroy< Image >( h( x ), "vkDestroyImage" );
	}
	static VkResult VKAPI_PTR CreateImageView( VkDevice dv, VkImageViewCreateInfo const * ci, VkAllocationCallbacks const * al, VkImageView * out )
	{
		FALL( "CreateImageView" );
		sane( dv, al, "vkCreateImageView" );
		sane( ci, VK_STRUCTURE_TYPE_IMAGE_VIEW_CREATE_INFO, "vkCreateImageView" );
		reserved( ci->flags, "vkCreateImageView" );
		ImageView v;
		v.info = *ci;
		if ( auto img = get< Image >( h( ci->image ), "vkCreateImageView" ) )
		{
			auto const & r = ci->subresourceRange;
			if ( !img->mem )
				error( "mem", "vkCreateImageView: the image has no memory bound" );
			if ( r.levelCount != VK_REMAINING_MIP_LEVELS && r.baseMipLevel + r.levelCount > img->info.mipLevels )
				error( "param", "vkCreateImageView: mip levels out of range" );
			u32 layers = img->info.imageType == VK_IMAGE_TYPE_3D ? std::max( img->info.arrayLayers, mipDim( img->info.extent.depth, r.baseMipLevel ) ) : img->info.arrayLayers;
			if ( r.layerCount != VK_REMAINING_ARRAY_LAYERS && r.baseArrayLayer + r.layerCount > layers )
				error( "param", "vkCreateImageView: array layers out of range" );
			if ( !r.levelCount || !r.layerCount || !r.aspectMask )
				error( "param", "vkCreateImageView: empty subresource range" );
			if ( r.aspectMask & ~aspectMaskOf( img->info.format ) )
				error( "param", "vkCreateImageView: aspect not in the format" );
		}
		auto & o = create( std::move( v ) );
		*out = mk< VkImageView >( o.id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyImageView( VkDevice dv, VkImageView x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyImageView" );
		sane( dv, al, "vkDestroyImageView" );
		destroy< ImageView >( h( x ), "vkDestroyImageView" );
	}
	static VkResult VKAPI_PTR CreateBuffer( VkDevice dv, VkBufferCreateInfo const * ci, VkAllocationCallbacks const * al, VkBuffer * out )
	{
		FALL( "CreateBuffer" );
		sane( dv, al, "vkCreateBuffer" );
		sane( ci, VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO, "vkCreateBuffer" );
		Buffer b;
		b.info = *ci;
		if ( !ci->size || !ci->usage )
			error( "param", "vkCreateBuffer: zero size or usage" );
		auto & o = create( std::move( b ) );
		*out = mk< VkBuffer >( o.id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyBuffer( VkDevice dv, VkBuffer x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyBuffer" );
		sane( dv, al, "vkDestroyBuffer" );
		destroy< Buffer >( h( x ), "vkDestroyBuffer" );
	}
	static void VKAPI_PTR GetBufferMemoryRequirements( VkDevice dv, VkBuffer x, VkMemoryRequirements * r )
	{
		CALL( "GetBufferMemoryRequirements" );
		sane( dv, "vkGetBufferMemoryRequirements" );
		*r = { 256, 64, w->bufferTypeBits };
		if ( auto b = get< Buffer >( h( x ), "vkGetBufferMemoryRequirements" ) )
			r->size = ( b->info.size + 255 ) / 256 * 256;
	}
	static void VKAPI_PTR GetImageMemoryRequirements( VkDevice dv, VkImage x, VkMemoryRequirements * r )
	{
		CALL( "GetImageMemoryRequirements" );
		sane( dv, "vkGetImageMemoryRequirements" );
		*r = { 1024, 64, w->imageTypeBits };
		if ( auto i = get< Image >( h( x ), "vkGetImageMemoryRequirements" ) )
		{
			u64 n = 0;
			for ( auto & [k, s] : i->subs )
				n += u64( s.w ) * s.hgt * s.d * texelSize( i->info.format, k.aspect );
			r->size = ( n + 1023 ) / 1024 * 1024;
		}
	}
	static VkResult VKAPI_PTR AllocateMemory( VkDevice dv, VkMemoryAllocateInfo const * ci, VkAllocationCallbacks const * al, VkDeviceMemory * out )
	{
		FALL( "AllocateMemory" );
		sane( dv, al, "vkAllocateMemory" );
		sane( ci, VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO, "vkAllocateMemory" );
		Memory m;
		m.info = *ci;
		if ( ci->memoryTypeIndex >= w->memProps.memoryTypeCount )
			error( "mem", "vkAllocateMemory: memory type index out of range" );
		if ( !ci->allocationSize )
			error( "mem", "vkAllocateMemory: zero size" );
		if ( ci->allocationSize <= 65536 )
		{
			m.bytes.assign( size_t( ci->allocationSize ), 0 );
			m.def.assign( size_t( ci->allocationSize ), 0 );
		}
		auto & o = create( std::move( m ) );
		*out = mk< VkDeviceMemory >( o.id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR FreeMemory( VkDevice dv, VkDeviceMemory x, VkAllocationCallbacks const * al )
	{
		CALL( "FreeMemory" );
		sane( dv, al, "vkFreeMemory" );
		destroy< Memory >( h( x ), "vkFreeMemory" );
	}
	static void bindCheck( u64 & bound, u64 mem, u32 typeBits, VkDeviceSize need, VkDeviceSize off, char const * where )
	{
		auto m = get< Memory >( mem, where );
		if ( bound )
			error( "mem", std::string{ where } + ": already bound" );
		bound = mem;
		if ( !m )
			return;
		if ( !( typeBits & ( 1u << m->info.memoryTypeIndex ) ) )
			error( "mem", std::string{ where } + ": memory type not in the resource's memoryTypeBits" );
		if ( off % 64 )
			error( "mem", std::string{ where } + ": bad alignment" );
		if ( off + need > m->info.allocationSize )
			error( "mem", std::string{ where } + ": allocation too small" );
	}
	static VkResult VKAPI_PTR BindBufferMemory( VkDevice dv, VkBuffer x, VkDeviceMemory m, VkDeviceSize off )
	{
		FALL( "BindBufferMemory" );
		sane( dv, "vkBindBufferMemory" );
		if ( auto b = get< Buffer >( h( x ), "vkBindBufferMemory" ) )
		{
			bindCheck( b->mem, h( m ), w->bufferTypeBits, ( b->info.size + 255 ) / 256 * 256, off, "vkBindBufferMemory" );
			b->memOff = off;
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR BindImageMemory( VkDevice dv, VkImage x, VkDeviceMemory m, VkDeviceSize off )
	{
		FALL( "BindImageMemory" );
		sane( dv, "vkBindImageMemory" );
		if ( auto b = get< Image >( h( x ), "vkBindImageMemory" ) )
		{
			u64 n = 0;
			for ( auto & [k, s] : b->subs )
				n += u64( s.w ) * s.hgt * s.d * texelSize( b->info.format, k.aspect );
			bindCheck( b->mem, h( m ), w->imageTypeBits, ( n + 1023 ) / 1024 * 1024, off, "vkBindImageMemory" );
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR MapMemory( VkDevice dv, VkDeviceMemory x, VkDeviceSize off, VkDeviceSize size, VkMemoryMapFlags, void ** out )
	{
		FALL( "MapMemory" );
		sane( dv, "vkMapMemory" );
		static char sink[65536];
		*out = sink;
		if ( auto m = get< Memory >( h( x ), "vkMapMemory" ) )
		{
			if ( m->mapped )
				error( "mem", "vkMapMemory: already mapped" );
			if ( m->info.memoryTypeIndex < w->memProps.memoryTypeCount && !( w->memProps.memoryTypes[m->info.memoryTypeIndex].propertyFlags & VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT ) )
				error( "mem", "vkMapMemory: memory type is not host visible" );
			VkDeviceSize sz = size == VK_WHOLE_SIZE ? m->info.allocationSize - off : size;
			if ( off + sz > m->info.allocationSize || !sz )
				error( "mem", "vkMapMemory: range out of the allocation" );
			else if ( !m->bytes.empty() )
			{
				*out = m->bytes.data() + off;
				std::fill( m->def.begin() + long( off ), m->def.begin() + long( off + sz ), 1 );
			}
			m->mapped = true;
			m->mapOff = off;
			m->mapSize = sz;
			if ( m->info.memoryTypeIndex < w->memProps.memoryTypeCount && !( w->memProps.memoryTypes[m->info.memoryTypeIndex].propertyFlags & VK_MEMORY_PROPERTY_HOST_COHERENT_BIT ) )
				m->dirty = true;
		}
		return VK_SUCCESS;
	}
	static void VKAPI_PTR UnmapMemory( VkDevice dv, VkDeviceMemory x )
	{
		CALL( "UnmapMemory" );
		sane( dv, "vkUnmapMemory" );
		if ( auto m = get< Memory >( h( x ), "vkUnmapMemory" ) )
		{
			if ( !m->mapped )
				error( "mem", "vkUnmapMemory: not mapped" );
			m->mapped = false;
		}
	}
	static VkResult VKAPI_PTR FlushMappedMemoryRanges( VkDevice dv, uint32_t n, VkMappedMemoryRange const * r )
	{
		FALL( "FlushMappedMemoryRanges" );
		sane( dv, "vkFlushMappedMemoryRanges" );
		for ( u32 i = 0; i < n; ++i )
			if ( auto m = get< Memory >( h( r[i].memory ), "vkFlushMappedMemoryRanges" ) )
			{
				if ( !m->mapped )
					error( "mem", "vkFlushMappedMemoryRanges: memory is not mapped" );
				bool whole = r[i].size == VK_WHOLE_SIZE;
				VkDeviceSize end = whole ? m->mapOff + m->mapSize : r[i].offset + r[i].size;
				if ( r[i].offset < m->mapOff || end > m->mapOff + m->mapSize )
					error( "mem", "vkFlushMappedMemoryRanges: range not mapped" );
				if ( r[i].offset % w->nonCoherentAtom || ( !whole && r[i].size % w->nonCoherentAtom && end != m->info.allocationSize ) )
					error( "mem", "vkFlushMappedMemoryRanges: range not aligned on nonCoherentAtomSize" );
				if ( r[i].offset <= m->mapOff && end >= m->mapOff + m->mapSize )
					m->dirty = false;
			}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR InvalidateMappedMemoryRanges( VkDevice dv, uint32_t n, VkMappedMemoryRange const * r )
	{
		FALL( "InvalidateMappedMemoryRanges" );
		sane( dv, "vkInvalidateMappedMemoryRanges" );
		for ( u32 i = 0; i < n; ++i )
			get< Memory >( h( r[i].memory ), "vkInvalidateMappedMemoryRanges" );
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR CreateSampler( VkDevice dv, VkSamplerCreateInfo const * ci, VkAllocationCallbacks const * al, VkSampler * out )
	{
		FALL( "CreateSampler" );
		sane( dv, al, "vkCreateSampler" );
		sane( ci, VK_STRUCTURE_TYPE_SAMPLER_CREATE_INFO, "vkCreateSampler" );
		reserved( ci->flags, "vkCreateSampler" );
		Sampler s;
		s.info = *ci;
		*out = mk< VkSampler >( create( std::move( s ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroySampler( VkDevice dv, VkSampler x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroySampler" );
		sane( dv, al, "vkDestroySampler" );
		destroy< Sampler >( h( x ), "vkDestroySampler" );
	}
	//************************************************************************************************
	static VkResult VKAPI_PTR CreateRenderPass( VkDevice dv, VkRenderPassCreateInfo const * ci, VkAllocationCallbacks const * al, VkRenderPass * out )
	{
		FALL( "CreateRenderPass" );
		sane( dv, al, "vkCreateRenderPass" );
		sane( ci, VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO, "vkCreateRenderPass" );
		reserved( ci->flags, "vkCreateRenderPass" );
		RenderPass r;
		r.attaches.assign( ci->pAttachments, ci->pAttachments + ci->attachmentCount );
		r.deps.assign( ci->pDependencies, ci->pDependencies + ci->dependencyCount );
		for ( u32 i = 0; i < ci->subpassCount; ++i )
		{
			RenderPass::SP s;
			s.bp = ci->pSubpasses[i].pipelineBindPoint;
			reserved( ci->pSubpasses[i].flags, "vkCreateRenderPass (subpass)" );
			if ( s.bp != VK_PIPELINE_BIND_POINT_GRAPHICS )
				error( "rp", "vkCreateRenderPass: not a graphics subpass" );
			s.colour.assign( ci->pSubpasses[i].pColorAttachments, ci->pSubpasses[i].pColorAttachments + ci->pSubpasses[i].colorAttachmentCount );
			if ( ci->pSubpasses[i].pDepthStencilAttachment )
			{
				s.hasDepth = true;
				s.depth = *ci->pSubpasses[i].pDepthStencilAttachment;
			}
			std::vector< u32 > used;
			for ( auto & c : s.colour )
			{
				if ( c.attachment != VK_ATTACHMENT_UNUSED )
					used.push_back( c.attachment );
				if ( c.layout == VK_IMAGE_LAYOUT_UNDEFINED || c.layout == VK_IMAGE_LAYOUT_PREINITIALIZED )
					error( "rp", "vkCreateRenderPass: attachment reference layout is UNDEFINED" );
			}
			if ( s.hasDepth && s.depth.attachment != VK_ATTACHMENT_UNUSED )
			{
				used.push_back( s.depth.attachment );
				if ( s.depth.layout == VK_IMAGE_LAYOUT_UNDEFINED || s.depth.layout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL )
					error( "rp", "vkCreateRenderPass: bad depth reference layout " + str( s.depth.layout ) );
			}
			for ( u32 u : used )
				if ( u >= r.attaches.size() )
					error( "rp", "vkCreateRenderPass: attachment reference out of range" );
			r.subpasses.push_back( std::move( s ) );
		}
		for ( auto & a : r.attaches )
		{
			if ( a.finalLayout == VK_IMAGE_LAYOUT_UNDEFINED || a.finalLayout == VK_IMAGE_LAYOUT_PREINITIALIZED )
				error( "rp", "vkCreateRenderPass: attachment finalLayout is " + str( a.finalLayout ) );
			if ( a.format == VK_FORMAT_UNDEFINED )
				error( "rp", "vkCreateRenderPass: attachment format is undefined" );
			bool hasD = aspectsOf( a.format ).front() == 1 || aspectsOf( a.format ).front() == 0;
			bool hasS = aspectsOf( a.format ).back() == 2;
			if ( a.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED
				&& ( ( hasD && a.loadOp == VK_ATTACHMENT_LOAD_OP_LOAD ) || ( hasS && a.stencilLoadOp == VK_ATTACHMENT_LOAD_OP_LOAD ) ) )
				error( "content", "vkCreateRenderPass: loadOp LOAD from an UNDEFINED initial layout" );
		}
		for ( auto & d : r.deps )
			if ( !d.srcStageMask || !d.dstStageMask )
				error( "rp", "vkCreateRenderPass: empty stage mask in a subpass dependency" );
		*out = mk< VkRenderPass >( create( std::move( r ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyRenderPass( VkDevice dv, VkRenderPass x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyRenderPass" );
		sane( dv, al, "vkDestroyRenderPass" );
		destroy< RenderPass >( h( x ), "vkDestroyRenderPass" );
	}
	static VkResult VKAPI_PTR CreateFramebuffer( VkDevice dv, VkFramebufferCreateInfo const * ci, VkAllocationCallbacks const * al, VkFramebuffer * out )
	{
		FALL( "CreateFramebuffer" );
		sane( dv, al, "vkCreateFramebuffer" );
		sane( ci, VK_STRUCTURE_TYPE_FRAMEBUFFER_CREATE_INFO, "vkCreateFramebuffer" );
		reserved( ci->flags, "vkCreateFramebuffer" );
		Framebuffer f;
		f.renderPass = h( ci->renderPass );
		f.w = ci->width;
		f.hgt = ci->height;
		f.layers = ci->layers;
		auto rp = get< RenderPass >( f.renderPass, "vkCreateFramebuffer" );
		if ( !f.w || !f.hgt || !f.layers )
			error( "rp", "vkCreateFramebuffer: zero dimension" );
		if ( rp && rp->attaches.size() != ci->attachmentCount )
			error( "rp", "vkCreateFramebuffer: attachment count differs from the render pass" );
		for ( u32 i = 0; i < ci->attachmentCount; ++i )
		{
			f.views.push_back( h( ci->pAttachments[i] ) );
			auto v = get< ImageView >( h( ci->pAttachments[i] ), "vkCreateFramebuffer" );
			if ( !v )
				continue;
			if ( rp && i < rp->attaches.size() && rp->attaches[i].format != v->info.format )
				error( "rp", "vkCreateFramebuffer: view format differs from the render pass attachment" );
			if ( auto img = get< Image >( h( v->info.image ), "vkCreateFramebuffer" ) )
			{
				auto const & r = v->info.subresourceRange;
				u32 levels = r.levelCount == VK_REMAINING_MIP_LEVELS ? img->info.mipLevels - r.baseMipLevel : r.levelCount;
				if ( levels != 1 )
					error( "rp", "vkCreateFramebuffer: attachment view has more than one mip level" );
				if ( mipDim( img->info.extent.width, r.baseMipLevel ) < f.w || mipDim( img->info.extent.height, r.baseMipLevel ) < f.hgt )
					error( "rp", "vkCreateFramebuffer: framebuffer larger than an attachment" );
				u32 layers = r.layerCount == VK_REMAINING_ARRAY_LAYERS ? img->info.arrayLayers - r.baseArrayLayer : r.layerCount;
				if ( layers < f.layers )
					error( "rp", "vkCreateFramebuffer: more layers than an attachment has" );
				if ( rp && i < rp->attaches.size() && rp->attaches[i].samples != img->info.samples )
					error( "rp", "vkCreateFramebuffer: sample count differs" );
				bool ds = aspectsOf( v->info.format ).front() != 0;
				if ( !( img->info.usage & ( ds ? VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT : VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT ) ) )
					error( "usage", "vkCreateFramebuffer: the image lacks the attachment usage" );
			}
		}
		*out = mk< VkFramebuffer >( create( std::move( f ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyFramebuffer( VkDevice dv, VkFramebuffer x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyFramebuffer" );
		sane( dv, al, "vkDestroyFramebuffer" );
		destroy< Framebuffer >( h( x ), "vkDestroyFramebuffer" );
	}
	static VkResult VKAPI_PTR CreatePipelineLayout( VkDevice dv, VkPipelineLayoutCreateInfo const * ci, VkAllocationCallbacks const * al, VkPipelineLayout * out )
	{
		FALL( "CreatePipelineLayout" );
		sane( dv, al, "vkCreatePipelineLayout" );
		sane( ci, VK_STRUCTURE_TYPE_PIPELINE_LAYOUT_CREATE_INFO, "vkCreatePipelineLayout" );
		reserved( ci->flags, "vkCreatePipelineLayout" );
		PipelineLayout p;
		for ( u32 i = 0; i < ci->setLayoutCount; ++i )
		{
			get< SetLayout >( h( ci->pSetLayouts[i] ), "vkCreatePipelineLayout" );
			p.sets.push_back( h( ci->pSetLayouts[i] ) );
		}
		p.pcs.assign( ci->pPushConstantRanges, ci->pPushConstantRanges + ci->pushConstantRangeCount );
		for ( auto & r : p.pcs )
			if ( !r.size || !r.stageFlags || r.size % 4 || r.offset % 4 )
				error( "param", "vkCreatePipelineLayout: bad push constant range" );
		*out = mk< VkPipelineLayout >( create( std::move( p ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyPipelineLayout( VkDevice dv, VkPipelineLayout x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyPipelineLayout" );
		sane( dv, al, "vkDestroyPipelineLayout" );
		destroy< PipelineLayout >( h( x ), "vkDestroyPipelineLayout" );
	}
	static VkResult VKAPI_PTR CreateDescriptorSetLayout( VkDevice dv, VkDescriptorSetLayoutCreateInfo const * ci, VkAllocationCallbacks const * al, VkDescriptorSetLayout * out )
	{
		FALL( "CreateDescriptorSetLayout" );
		sane( dv, al, "vkCreateDescriptorSetLayout" );
		sane( ci, VK_STRUCTURE_TYPE_DESCRIPTOR_SET_LAYOUT_CREATE_INFO, "vkCreateDescriptorSetLayout" );
		reserved( ci->flags, "vkCreateDescriptorSetLayout" );
		SetLayout s;
		s.bindings.assign( ci->pBindings, ci->pBindings + ci->bindingCount );
		std::set< u32 > seen;
		for ( auto & b : s.bindings )
			if ( !seen.insert( b.binding ).second )
				error( "desc", "vkCreateDescriptorSetLayout: binding " + std::to_string( b.binding ) + " twice" );
		*out = mk< VkDescriptorSetLayout >( create( std::move( s ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyDescriptorSetLayout( VkDevice dv, VkDescriptorSetLayout x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyDescriptorSetLayout" );
		sane( dv, al, "vkDestroyDescriptorSetLayout" );
		destroy< SetLayout >( h( x ), "vkDestroyDescriptorSetLayout" );
	}
	static VkResult VKAPI_PTR CreateDescriptorPool( VkDevice dv, VkDescriptorPoolCreateInfo const * ci, VkAllocationCallbacks const * al, VkDescriptorPool * out )
	{
		FALL( "CreateDescriptorPool" );
		sane( dv, al, "vkCreateDescriptorPool" );
		sane( ci, VK_STRUCTURE_TYPE_DESCRIPTOR_POOL_CREATE_INFO, "vkCreateDescriptorPool" );
		DescPool p;
		p.maxSets = ci->maxSets;
		p.flags = ci->flags;
		if ( !ci->maxSets )
			error( "param", "vkCreateDescriptorPool: maxSets is zero" );
		for ( u32 i = 0; i < ci->poolSizeCount; ++i )
		{
			if ( !ci->pPoolSizes[i].descriptorCount )
				error( "param", "vkCreateDescriptorPool: zero descriptorCount" );
			p.sizes[ci->pPoolSizes[i].type] += ci->pPoolSizes[i].descriptorCount;
		}
		*out = mk< VkDescriptorPool >( create( std::move( p ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyDescriptorPool( VkDevice dv, VkDescriptorPool x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyDescriptorPool" );
		sane( dv, al, "vkDestroyDescriptorPool" );
		std::vector< u64 > sets;
		for ( auto & [id, s] : w->descSets )
			if ( s.pool == h( x ) )
				sets.push_back( id );
		for ( u64 s : sets )
			destroy< DescSet >( s, "vkDestroyDescriptorPool" );
		destroy< DescPool >( h( x ), "vkDestroyDescriptorPool" );
	}
	static VkResult VKAPI_PTR AllocateDescriptorSets( VkDevice dv, VkDescriptorSetAllocateInfo const * ci, VkDescriptorSet * out )
	{
		FALL( "AllocateDescriptorSets" );
		sane( dv, "vkAllocateDescriptorSets" );
		sane( ci, VK_STRUCTURE_TYPE_DESCRIPTOR_SET_ALLOCATE_INFO, "vkAllocateDescriptorSets" );
		auto pool = get< DescPool >( h( ci->descriptorPool ), "vkAllocateDescriptorSets" );
		for ( u32 i = 0; i < ci->descriptorSetCount; ++i )
		{
			DescSet s;
			s.pool = h( ci->descriptorPool );
			s.layout = h( ci->pSetLayouts[i] );
			auto layout = get< SetLayout >( s.layout, "vkAllocateDescriptorSets" );
			if ( pool )
			{
				if ( ++pool->usedSets > pool->maxSets )
					error( "desc", "vkAllocateDescriptorSets: the pool's maxSets is exceeded" );
				if ( layout )
					for ( auto & b : layout->bindings )
						if ( ( pool->used[b.descriptorType] += b.descriptorCount ) > pool->sizes[b.descriptorType] )
							error( "desc", "vkAllocateDescriptorSets: the pool has not enough descriptors of type " + std::to_string( b.descriptorType ) );
			}
			out[i] = mk< VkDescriptorSet >( create( std::move( s ) ).id );
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR FreeDescriptorSets( VkDevice dv, VkDescriptorPool p, uint32_t n, VkDescriptorSet const * s )
	{
		FALL( "FreeDescriptorSets" );
		sane( dv, "vkFreeDescriptorSets" );
		auto pool = get< DescPool >( h( p ), "vkFreeDescriptorSets" );
		if ( pool && !( pool->flags & VK_DESCRIPTOR_POOL_CREATE_FREE_DESCRIPTOR_SET_BIT ) )
			error( "desc", "vkFreeDescriptorSets: the pool was not created with FREE_DESCRIPTOR_SET" );
		for ( u32 i = 0; i < n; ++i )
		{
			if ( !s[i] )
				continue;
			if ( auto ds = get< DescSet >( h( s[i] ), "vkFreeDescriptorSets" ) )
			{
				if ( ds->pool != h( p ) )
					error( "desc", "vkFreeDescriptorSets: set from another pool" );
				if ( pool )
				{
					--pool->usedSets;
					auto lit = w->setLayouts.find( ds->layout );
					if ( lit != w->setLayouts.end() )
						for ( auto & b : lit->second.bindings )
							pool->used[b.descriptorType] -= b.descriptorCount;
				}
			}
			destroy< DescSet >( h( s[i] ), "vkFreeDescriptorSets" );
		}
		return VK_SUCCESS;
	}
	static bool isImageDesc( VkDescriptorType t )
	{
		return t == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER || t == VK_DESCRIPTOR_TYPE_SAMPLED_IMAGE || t == VK_DESCRIPTOR_TYPE_STORAGE_IMAGE || t == VK_DESCRIPTOR_TYPE_INPUT_ATTACHMENT;
	}
	static bool isTexelDesc( VkDescriptorType t )
	{
		return t == VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER || t == VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
	}
	static void VKAPI_PTR UpdateDescriptorSets( VkDevice dv, uint32_t n, VkWriteDescriptorSet const * ws, uint32_t, VkCopyDescriptorSet const * )
	{
		CALL( "UpdateDescriptorSets" );
		sane( dv, "vkUpdateDescriptorSets" );
		for ( u32 i = 0; i < n; ++i )
		{
			auto const & wr = ws[i];
			auto set = get< DescSet >( h( wr.dstSet ), "vkUpdateDescriptorSets" );
			if ( wr.sType != VK_STRUCTURE_TYPE_WRITE_DESCRIPTOR_SET )
				error( "desc", "vkUpdateDescriptorSets: bad sType" );
			if ( !wr.descriptorCount )
				error( "desc", "vkUpdateDescriptorSets: zero descriptorCount" );
			if ( !set )
				continue;
			if ( inFlight( T::DescSet, set->id ) )
				error( "life", "vkUpdateDescriptorSets: the set is in use by the GPU" );
			auto lay = get< SetLayout >( set->layout, "vkUpdateDescriptorSets" );
			VkDescriptorSetLayoutBinding const * b{};
			if ( lay )
				for ( auto & x : lay->bindings )
					if ( x.binding == wr.dstBinding )
						b = &x;
			if ( lay && !b )
				error( "desc", "vkUpdateDescriptorSets: binding " + std::to_string( wr.dstBinding ) + " is not in the set layout" );
			if ( b && b->descriptorType != wr.descriptorType )
				error( "desc", "vkUpdateDescriptorSets: descriptor type differs from the layout at binding " + std::to_string( wr.dstBinding ) );
			if ( b && wr.dstArrayElement + wr.descriptorCount > b->descriptorCount )
				error( "desc", "vkUpdateDescriptorSets: array element out of the binding" );
			for ( u32 e = 0; e < wr.descriptorCount; ++e )
			{
				DescWrite d;
				d.type = wr.descriptorType;
				d.written = true;
				if ( isImageDesc( wr.descriptorType ) )
				{
					if ( !wr.pImageInfo )
					{
						error( "desc", "vkUpdateDescriptorSets: no image info" );
						continue;
					}
					auto const & ii = wr.pImageInfo[e];
					d.sampler = h( ii.sampler );
					d.view = h( ii.imageView );
					d.layout = ii.imageLayout;
					if ( wr.descriptorType == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER )
						get< Sampler >( d.sampler, "vkUpdateDescriptorSets" );
					auto v = get< ImageView >( d.view, "vkUpdateDescriptorSets" );
					if ( wr.descriptorType == VK_DESCRIPTOR_TYPE_STORAGE_IMAGE && d.layout != VK_IMAGE_LAYOUT_GENERAL )
						error( "desc", "vkUpdateDescriptorSets: storage image not in GENERAL" );
					if ( wr.descriptorType == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER && d.layout != VK_IMAGE_LAYOUT_GENERAL && d.layout != VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL
						&& d.layout != VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL && d.layout != VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL && d.layout != VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL )
						error( "desc", "vkUpdateDescriptorSets: bad layout for a sampled image" );
					if ( v )
					{
						auto it = w->images.find( h( v->info.image ) );
						if ( it != w->images.end() )
						{
							auto need = wr.descriptorType == VK_DESCRIPTOR_TYPE_STORAGE_IMAGE ? VK_IMAGE_USAGE_STORAGE_BIT : VK_IMAGE_USAGE_SAMPLED_BIT;
							if ( !( it->second.info.usage & need ) )
								error( "usage", "vkUpdateDescriptorSets: the image lacks the usage of its descriptor" );
						}
					}
				}
				else if ( isTexelDesc( wr.descriptorType ) )
				{
					if ( !wr.pTexelBufferView )
					{
						error( "desc", "vkUpdateDescriptorSets: no texel buffer view" );
						continue;
					}
					d.bufferView = h( wr.pTexelBufferView[e] );
					get< BufferView >( d.bufferView, "vkUpdateDescriptorSets" );
				}
				else
				{
					if ( !wr.pBufferInfo )
					{
						error( "desc", "vkUpdateDescriptorSets: no buffer info" );
						continue;
					}
					auto const & bi = wr.pBufferInfo[e];
					d.buffer = h( bi.buffer );
					d.off = bi.offset;
					d.range = bi.range;
					if ( auto buf = get< Buffer >( d.buffer, "vkUpdateDescriptorSets" ) )
						if ( bi.offset >= buf->info.size || !bi.range || ( bi.range != VK_WHOLE_SIZE && bi.offset + bi.range > buf->info.size ) )
							error( "desc", "vkUpdateDescriptorSets: buffer range out of the buffer" );
				}
				set->writes[{ wr.dstBinding, wr.dstArrayElement + e }] = d;
			}
			for ( auto & [cid, cb] : w->commandBuffers )
				if ( cb.state != CbState::Initial && cb.refs.count( { int( T::DescSet ), set->id } ) )
					cb.state = CbState::Invalid;
		}
	}
	static void checkStage( VkPipelineShaderStageCreateInfo const & s, Pipeline & p, char const * where )
	{
		get< ShaderModule >( h( s.module ), where );
		p.modules.push_back( h( s.module ) );
		p.stages.emplace_back( s.stage, s.pName ? s.pName : "" );
	}
	static VkResult VKAPI_PTR CreateGraphicsPipelines( VkDevice dv, VkPipelineCache cache, uint32_t n, VkGraphicsPipelineCreateInfo const * ci, VkAllocationCallbacks const * al, VkPipeline * out )
	{
		FALL( "CreateGraphicsPipelines" );
		sane( dv, al, "vkCreateGraphicsPipelines" );
		if ( cache != pipelineCache() )
			error( "param", "vkCreateGraphicsPipelines: not the pipeline cache of the context" );
		for ( u32 i = 0; i < n; ++i )
		{
			auto const & c = ci[i];
			Pipeline p;
			sane( &c, VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO, "vkCreateGraphicsPipelines" );
			sane( c.pVertexInputState, VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (vertex input)" );
			sane( c.pInputAssemblyState, VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (input assembly)" );
			sane( c.pTessellationState, VK_STRUCTURE_TYPE_PIPELINE_TESSELLATION_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (tessellation)" );
			sane( c.pViewportState, VK_STRUCTURE_TYPE_PIPELINE_VIEWPORT_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (viewport)" );
			sane( c.pRasterizationState, VK_STRUCTURE_TYPE_PIPELINE_RASTERIZATION_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (rasterization)" );
			sane( c.pMultisampleState, VK_STRUCTURE_TYPE_PIPELINE_MULTISAMPLE_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (multisample)" );
			sane( c.pDepthStencilState, VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (depth stencil)" );
			sane( c.pColorBlendState, VK_STRUCTURE_TYPE_PIPELINE_COLOR_BLEND_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (blend)" );
			sane( c.pDynamicState, VK_STRUCTURE_TYPE_PIPELINE_DYNAMIC_STATE_CREATE_INFO, "vkCreateGraphicsPipelines (dynamic)" );
			if ( c.pVertexInputState ) reserved( c.pVertexInputState->flags, "vkCreateGraphicsPipelines (vertex input)" );
			if ( c.pInputAssemblyState ) reserved( c.pInputAssemblyState->flags, "vkCreateGraphicsPipelines (input assembly)" );
			if ( c.pViewportState ) reserved( c.pViewportState->flags, "vkCreateGraphicsPipelines (viewport)" );
			if ( c.pRasterizationState ) reserved( c.pRasterizationState->flags, "vkCreateGraphicsPipelines (rasterization)" );
			if ( c.pMultisampleState ) reserved( c.pMultisampleState->flags, "vkCreateGraphicsPipelines (multisample)" );
			if ( c.pDepthStencilState ) reserved( c.pDepthStencilState->flags, "vkCreateGraphicsPipelines (depth stencil)" );
			if ( c.pColorBlendState ) reserved( c.pColorBlendState->flags, "vkCreateGraphicsPipelines (blend)" );
			p.layout = h( c.layout );
			p.renderPass = h( c.renderPass );
			get< PipelineLayout >( p.layout, "vkCreateGraphicsPipelines" );
			auto rp = get< RenderPass >( p.renderPass, "vkCreateGraphicsPipelines" );
			if ( !c.stageCount )
				error( "param", "vkCreateGraphicsPipelines: no shader stage" );
			for ( u32 s = 0; s < c.stageCount; ++s )
				checkStage( c.pStages[s], p, "vkCreateGraphicsPipelines" );
			if ( c.pColorBlendState )
			{
				p.blendCount = c.pColorBlendState->attachmentCount;
				p.blends.assign( c.pColorBlendState->pAttachments, c.pColorBlendState->pAttachments + p.blendCount );
			}
			if ( rp )
			{
				p.rpAttaches = rp->attaches;
				if ( c.subpass >= rp->subpasses.size() )
					error( "rp", "vkCreateGraphicsPipelines: subpass out of range" );
				else if ( rp->subpasses[c.subpass].colour.size() != p.blendCount )
					error( "rp", "vkCreateGraphicsPipelines: blend attachment count differs from the subpass colour attachments" );
			}
			if ( c.pDepthStencilState )
			{
				p.depthTest = c.pDepthStencilState->depthTestEnable;
				p.depthWrite = c.pDepthStencilState->depthWriteEnable;
				p.stencilTest = c.pDepthStencilState->stencilTestEnable;
			}
			if ( c.pViewportState )
			{
				if ( c.pViewportState->viewportCount && c.pViewportState->pViewports )
					p.viewports.assign( c.pViewportState->pViewports, c.pViewportState->pViewports + c.pViewportState->viewportCount );
				if ( c.pViewportState->scissorCount && c.pViewportState->pScissors )
					p.scissors.assign( c.pViewportState->pScissors, c.pViewportState->pScissors + c.pViewportState->scissorCount );
				if ( c.pViewportState->viewportCount != c.pViewportState->scissorCount || !c.pViewportState->viewportCount )
					error( "param", "vkCreateGraphicsPipelines: viewport / scissor count" );
			}
			else
				error( "param", "vkCreateGraphicsPipelines: no viewport state" );
			if ( c.pVertexInputState )
			{
				p.vbinds.assign( c.pVertexInputState->pVertexBindingDescriptions, c.pVertexInputState->pVertexBindingDescriptions + c.pVertexInputState->vertexBindingDescriptionCount );
				p.vattrs.assign( c.pVertexInputState->pVertexAttributeDescriptions, c.pVertexInputState->pVertexAttributeDescriptions + c.pVertexInputState->vertexAttributeDescriptionCount );
			}
			else
				error( "param", "vkCreateGraphicsPipelines: no vertex input state" );
			if ( c.pInputAssemblyState )
				p.topology = c.pInputAssemblyState->topology;
			if ( !c.pRasterizationState || !c.pInputAssemblyState )
				error( "param", "vkCreateGraphicsPipelines: no rasterization / input assembly state" );
			out[i] = mk< VkPipeline >( create( std::move( p ) ).id );
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR CreateComputePipelines( VkDevice dv, VkPipelineCache cache, uint32_t n, VkComputePipelineCreateInfo const * ci, VkAllocationCallbacks const * al, VkPipeline * out )
	{
		FALL( "CreateComputePipelines" );
		sane( dv, al, "vkCreateComputePipelines" );
		if ( cache != pipelineCache() )
			error( "param", "vkCreateComputePipelines: not the pipeline cache of the context" );
		for ( u32 i = 0; i < n; ++i )
		{
			Pipeline p;
			p.compute = true;
			sane( &ci[i], VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO, "vkCreateComputePipelines" );
			p.layout = h( ci[i].layout );
			get< PipelineLayout >( p.layout, "vkCreateComputePipelines" );
			checkStage( ci[i].stage, p, "vkCreateComputePipelines" );
			out[i] = mk< VkPipeline >( create( std::move( p ) ).id );
		}
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyPipeline( VkDevice dv, VkPipeline x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyPipeline" );
		sane( dv, al, "vkDestroyPipeline" );
		destroy< Pipeline >( h( x ), "vkDestroyPipeline" );
	}
	//************************************************************************************************
	static VkResult VKAPI_PTR CreateCommandPool( VkDevice dv, VkCommandPoolCreateInfo const * ci, VkAllocationCallbacks const * al, VkCommandPool * out )
	{
		FALL( "CreateCommandPool" );
		sane( dv, al, "vkCreateCommandPool" );
		sane( ci, VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, "vkCreateCommandPool" );
		CommandPool p;
		p.flags = ci->flags;
		*out = mk< VkCommandPool >( create( std::move( p ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyCommandPool( VkDevice dv, VkCommandPool x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyCommandPool" );
		sane( dv, al, "vkDestroyCommandPool" );
		std::vector< u64 > cbs;
		for ( auto & [id, c] : w->commandBuffers )
			if ( c.pool == h( x ) )
				cbs.push_back( id );
		for ( u64 c : cbs )
			destroy< CommandBuffer >( c, "vkDestroyCommandPool" );
		destroy< CommandPool >( h( x ), "vkDestroyCommandPool" );
	}
	static VkResult VKAPI_PTR AllocateCommandBuffers( VkDevice dv, VkCommandBufferAllocateInfo const * ci, VkCommandBuffer * out )
	{
		FALL( "AllocateCommandBuffers" );
		sane( dv, "vkAllocateCommandBuffers" );
		sane( ci, VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, "vkAllocateCommandBuffers" );
		get< CommandPool >( h( ci->commandPool ), "vkAllocateCommandBuffers" );
		for ( u32 i = 0; i < ci->commandBufferCount; ++i )
		{
			CommandBuffer c;
			c.pool = h( ci->commandPool );
			c.level = ci->level;
			out[i] = mk< VkCommandBuffer >( create( std::move( c ) ).id );
		}
		return VK_SUCCESS;
	}
	static void VKAPI_PTR FreeCommandBuffers( VkDevice dv, VkCommandPool p, uint32_t n, VkCommandBuffer const * c )
	{
		CALL( "FreeCommandBuffers" );
		sane( dv, "vkFreeCommandBuffers" );
		get< CommandPool >( h( p ), "vkFreeCommandBuffers" );
		for ( u32 i = 0; i < n; ++i )
		{
			if ( !c[i] )
				continue;
			auto cb = get< CommandBuffer >( h( c[i] ), "vkFreeCommandBuffers" );
			if ( cb && cb->pool != h( p ) )
				error( "life", "vkFreeCommandBuffers: command buffer of another pool" );
			if ( cb )
				destroy< CommandBuffer >( h( c[i] ), "vkFreeCommandBuffers" );
		}
	}
	static VkResult VKAPI_PTR CreateSemaphore( VkDevice dv, VkSemaphoreCreateInfo const * ci, VkAllocationCallbacks const * al, VkSemaphore * out )
	{
		FALL( "CreateSemaphore" );
		sane( dv, al, "vkCreateSemaphore" );
		sane( ci, VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO, "vkCreateSemaphore" );
		reserved( ci->flags, "vkCreateSemaphore" );
		*out = mk< VkSemaphore >( create( Semaphore{} ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroySemaphore( VkDevice dv, VkSemaphore x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroySemaphore" );
		sane( dv, al, "vkDestroySemaphore" );
		destroy< Semaphore >( h( x ), "vkDestroySemaphore" );
	}
	static VkResult VKAPI_PTR CreateEvent( VkDevice dv, VkEventCreateInfo const * ci, VkAllocationCallbacks const * al, VkEvent * out )
	{
		FALL( "CreateEvent" );
		sane( dv, al, "vkCreateEvent" );
		sane( ci, VK_STRUCTURE_TYPE_EVENT_CREATE_INFO, "vkCreateEvent" );
		reserved( ci->flags, "vkCreateEvent" );
		*out = mk< VkEvent >( create( Event{} ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyEvent( VkDevice dv, VkEvent x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyEvent" );
		sane( dv, al, "vkDestroyEvent" );
		destroy< Event >( h( x ), "vkDestroyEvent" );
	}
	static VkResult VKAPI_PTR ResetEvent( VkDevice, VkEvent x ) { FALL( "ResetEvent" ); if ( auto e = get< Event >( h( x ), "vkResetEvent" ) ) e->set = false; return VK_SUCCESS; }
	static VkResult VKAPI_PTR SetEvent( VkDevice, VkEvent x ) { FALL( "SetEvent" ); if ( auto e = get< Event >( h( x ), "vkSetEvent" ) ) e->set = true; return VK_SUCCESS; }
	static VkResult VKAPI_PTR GetEventStatus( VkDevice, VkEvent x ) { FALL( "GetEventStatus" ); auto e = get< Event >( h( x ), "vkGetEventStatus" ); return e && e->set ? VK_EVENT_SET : VK_EVENT_RESET; }
	static VkResult VKAPI_PTR CreateFence( VkDevice dv, VkFenceCreateInfo const * ci, VkAllocationCallbacks const * al, VkFence * out )
	{
		FALL( "CreateFence" );
		sane( dv, al, "vkCreateFence" );
		sane( ci, VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, "vkCreateFence" );
		Fence f;
		f.signaled = ci->flags & VK_FENCE_CREATE_SIGNALED_BIT;
		*out = mk< VkFence >( create( std::move( f ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyFence( VkDevice dv, VkFence x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyFence" );
		sane( dv, al, "vkDestroyFence" );
		destroy< Fence >( h( x ), "vkDestroyFence" );
	}
	// submissions complete in order
	static void syncHost( u64 serial );
	static void completeUpTo( u64 serial )
	{
		for ( auto & s : w->submissions )
		{
			if ( s.done || s.serial > serial )
				continue;
			s.done = true;
			for ( u64 c : s.cbs )
			{
				auto it = w->commandBuffers.find( c );
				if ( it != w->commandBuffers.end() && it->second.pendingCount )
					--it->second.pendingCount;
			}
			if ( s.fence )
			{
				auto it = w->fences.find( s.fence );
				if ( it != w->fences.end() )
				{
					it->second.signaled = true;
					it->second.pending = false;
				}
			}
		}
		w->submissions.erase( std::remove_if( w->submissions.begin(), w->submissions.end(), []( Submission const & s ) { return s.done; } ), w->submissions.end() );
		if ( w->syncCheck )
			syncHost( serial );
	}
	void waitIdle()
	{
		completeUpTo( ~0ull );
	}
	static VkResult VKAPI_PTR GetFenceStatus( VkDevice dv, VkFence x )
	{
		FALL( "GetFenceStatus" );
		sane( dv, "vkGetFenceStatus" );
		auto f = get< Fence >( h( x ), "vkGetFenceStatus" );
		return f && f->signaled ? VK_SUCCESS : VK_NOT_READY;
	}
	static VkResult VKAPI_PTR WaitForFences( VkDevice dv, uint32_t n, VkFence const * x, VkBool32, uint64_t timeout )
	{
		FALL( "WaitForFences" );
		sane( dv, "vkWaitForFences" );
		for ( u32 i = 0; i < n; ++i )
		{
			auto f = get< Fence >( h( x[i] ), "vkWaitForFences" );
			if ( !f || f->signaled )
				continue;
			if ( f->pending )
			{
				if ( timeout == 0 )
					return VK_TIMEOUT;
				completeUpTo( f->submission );
				continue;
			}
			if ( timeout > 1000000000ull * 3600 )
				error( "submit", "vkWaitForFences: waits forever on a fence nobody will signal" );
			return VK_TIMEOUT;
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR ResetFences( VkDevice dv, uint32_t n, VkFence const * x )
	{
		FALL( "ResetFences" );
		sane( dv, "vkResetFences" );
		for ( u32 i = 0; i < n; ++i )
			if ( auto f = get< Fence >( h( x[i] ), "vkResetFences" ) )
			{
				if ( f->pending )
					error( "submit", "vkResetFences: fence of a pending submission" );
				f->signaled = false;
			}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR CreateQueryPool( VkDevice dv, VkQueryPoolCreateInfo const * ci, VkAllocationCallbacks const * al, VkQueryPool * out )
	{
		FALL( "CreateQueryPool" );
		sane( dv, al, "vkCreateQueryPool" );
		sane( ci, VK_STRUCTURE_TYPE_QUERY_POOL_CREATE_INFO, "vkCreateQueryPool" );
		reserved( ci->flags, "vkCreateQueryPool" );
		QueryPool q;
		if ( !ci->queryCount )
			error( "query", "vkCreateQueryPool: zero queries" );
		if ( ci->queryType != VK_QUERY_TYPE_TIMESTAMP )
			error( "query", "vkCreateQueryPool: not a timestamp pool" );
		q.q.resize( ci->queryCount );
		*out = mk< VkQueryPool >( create( std::move( q ) ).id );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR DestroyQueryPool( VkDevice dv, VkQueryPool x, VkAllocationCallbacks const * al )
	{
		CALL( "DestroyQueryPool" );
		sane( dv, al, "vkDestroyQueryPool" );
		destroy< QueryPool >( h( x ), "vkDestroyQueryPool" );
	}
	static VkResult VKAPI_PTR GetQueryPoolResults( VkDevice dv, VkQueryPool x, uint32_t first, uint32_t count, size_t size, void * data, VkDeviceSize stride, VkQueryResultFlags flags )
	{
		FALL( "GetQueryPoolResults" );
		sane( dv, "vkGetQueryPoolResults" );
		auto q = get< QueryPool >( h( x ), "vkGetQueryPoolResults" );
		if ( !q )
			return VK_SUCCESS;
		if ( first + count > q->q.size() || !count )
		{
			error( "query", "vkGetQueryPoolResults: queries out of the pool" );
			return VK_SUCCESS;
		}
		u32 elt = ( flags & VK_QUERY_RESULT_64_BIT ) ? 8 : 4;
		u32 per = elt * ( ( flags & VK_QUERY_RESULT_WITH_AVAILABILITY_BIT ) ? 2 : 1 );
		if ( count > 1 && stride < per )
			error( "query", "vkGetQueryPoolResults: stride too small" );
		VkResult res = VK_SUCCESS;
		for ( u32 i = 0; i < count; ++i )
		{
			auto & qq = q->q[first + i];
			if ( stride * i + per > size )
			{
				error( "query", "vkGetQueryPoolResults: data too small" );
				break;
			}
			char * p = static_cast< char * >( data ) + stride * i;
			if ( !qq.available )
			{
				if ( flags & VK_QUERY_RESULT_WAIT_BIT )
					error( "query", "vkGetQueryPoolResults: waits forever on a query never written" );
				if ( !qq.reset )
					error( "query", "vkGetQueryPoolResults: query " + std::to_string( first + i ) + " was never reset nor written" );
				res = VK_NOT_READY;
				continue;
			}
			if ( elt == 8 )
				std::memcpy( p, &qq.value, 8 );
			else
			{
				u32 v = u32( qq.value );
				std::memcpy( p, &v, 4 );
			}
		}
		return res;
	}
	//************************************************************************************************
	// recording
	static CommandBuffer * rec( VkCommandBuffer x, char const * where )
	{
		auto cb = get< CommandBuffer >( h( x ), where );
		if ( cb && cb->state != CbState::Recording )
		{
			error( "submit", std::string{ where } + ": command buffer is not recording" );
			return nullptr;
		}
		return cb;
	}
	static Cmd & push( CommandBuffer & cb, Op op )
	{
		++w->cmdCount;
		cb.cmds.emplace_back();
		cb.cmds.back().op = op;
		return cb.cmds.back();
	}
	static void ref( CommandBuffer & cb, T t, u64 id )
	{
		if ( id )
			cb.refs.insert( { int( t ), id } );
	}
	static void refImage( CommandBuffer & cb, u64 id )
	{
		ref( cb, T::Image, id );
		auto it = w->images.find( id );
		if ( it != w->images.end() )
			ref( cb, T::Memory, it->second.mem );
	}
	static void refBuffer( CommandBuffer & cb, u64 id )
	{
		ref( cb, T::Buffer, id );
		auto it = w->buffers.find( id );
		if ( it != w->buffers.end() )
			ref( cb, T::Memory, it->second.mem );
	}
	static void refView( CommandBuffer & cb, u64 id )
	{
		ref( cb, T::ImageView, id );
		auto it = w->views.find( id );
		if ( it != w->views.end() )
			refImage( cb, h( it->second.info.image ) );
	}
	static void outside( CommandBuffer & cb, char const * where )
	{
		if ( cb.inRP )
			error( "rp", std::string{ where } + ": inside a render pass" );
	}
	static void inside( CommandBuffer & cb, char const * where )
	{
		if ( !cb.inRP )
			error( "rp", std::string{ where } + ": outside a render pass" );
	}
	static void resetCb( CommandBuffer & cb )
	{
		cb.cmds.clear();
		cb.refs.clear();
		cb.inRP = false;
		cb.labels = 0;
	}
	static VkResult VKAPI_PTR BeginCommandBuffer( VkCommandBuffer x, VkCommandBufferBeginInfo const * bi )
	{
		FALL( "BeginCommandBuffer" );
		sane( bi, VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, "vkBeginCommandBuffer" );
		if ( auto cb = get< CommandBuffer >( h( x ), "vkBeginCommandBuffer" ) )
		{
			if ( cb->pendingCount )
				error( "submit", "vkBeginCommandBuffer: command buffer is pending" );
			if ( cb->state == CbState::Recording )
				error( "submit", "vkBeginCommandBuffer: already recording" );
			if ( cb->state != CbState::Initial )
			{
				auto it = w->commandPools.find( cb->pool );
				if ( it != w->commandPools.end() && !( it->second.flags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ) )
					error( "submit", "vkBeginCommandBuffer: implicit reset on a pool without RESET_COMMAND_BUFFER" );
			}
			resetCb( *cb );
			++cb->begun;
			cb->state = CbState::Recording;
			cb->usage = bi ? bi->flags : 0;
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR EndCommandBuffer( VkCommandBuffer x )
	{
		FALL( "EndCommandBuffer" );
		if ( auto cb = get< CommandBuffer >( h( x ), "vkEndCommandBuffer" ) )
		{
			if ( cb->state != CbState::Recording )
				error( "submit", "vkEndCommandBuffer: not recording" );
			if ( cb->inRP )
				error( "rp", "vkEndCommandBuffer: a render pass is still open" );
			if ( cb->labels )
				error( "label", "vkEndCommandBuffer: " + std::to_string( cb->labels ) + " debug label(s) still open" );
			cb->state = CbState::Executable;
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_PTR ResetCommandBuffer( VkCommandBuffer x, VkCommandBufferResetFlags )
	{
		FALL( "ResetCommandBuffer" );
		if ( auto cb = get< CommandBuffer >( h( x ), "vkResetCommandBuffer" ) )
		{
			if ( cb->pendingCount )
				error( "submit", "vkResetCommandBuffer: command buffer is pending" );
			auto it = w->commandPools.find( cb->pool );
			if ( it != w->commandPools.end() && !( it->second.flags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ) )
				error( "submit", "vkResetCommandBuffer: pool without RESET_COMMAND_BUFFER" );
			resetCb( *cb );
			cb->state = CbState::Initial;
		}
		return VK_SUCCESS;
	}
	static void VKAPI_PTR CmdBindPipeline( VkCommandBuffer x, VkPipelineBindPoint bp, VkPipeline p )
	{
		CALL( "CmdBindPipeline" );
		auto cb = rec( x, "vkCmdBindPipeline" );
		if ( !cb ) return;
		auto pl = get< Pipeline >( h( p ), "vkCmdBindPipeline" );
		if ( pl && pl->compute != ( bp == VK_PIPELINE_BIND_POINT_COMPUTE ) )
			error( "param", "vkCmdBindPipeline: bind point does not match the pipeline" );
		auto & c = push( *cb, Op::BindPipeline );
		c.a = h( p );
		c.n[0] = bp;
		ref( *cb, T::Pipeline, c.a );
	}
	static void VKAPI_PTR CmdBindDescriptorSets( VkCommandBuffer x, VkPipelineBindPoint bp, VkPipelineLayout l, uint32_t first, uint32_t n, VkDescriptorSet const * sets, uint32_t, uint32_t const * )
	{
		CALL( "CmdBindDescriptorSets" );
		auto cb = rec( x, "vkCmdBindDescriptorSets" );
		if ( !cb ) return;
		auto lay = get< PipelineLayout >( h( l ), "vkCmdBindDescriptorSets" );
		auto & c = push( *cb, Op::BindSets );
		c.a = h( l );
		c.n[0] = bp;
		c.n[1] = first;
		for ( u32 i = 0; i < n; ++i )
		{
			c.handles.push_back( h( sets[i] ) );
			ref( *cb, T::DescSet, h( sets[i] ) );
			if ( auto s = get< DescSet >( h( sets[i] ), "vkCmdBindDescriptorSets" ) )
			{
				if ( lay && ( first + i >= lay->sets.size() || lay->sets[first + i] != s->layout ) )
					error( "desc", "vkCmdBindDescriptorSets: set layout differs from the pipeline layout" );
				for ( auto & [k, wr] : s->writes )
				{
					if ( wr.view ) refView( *cb, wr.view );
					if ( wr.buffer ) refBuffer( *cb, wr.buffer );
					if ( wr.sampler ) ref( *cb, T::Sampler, wr.sampler );
					if ( wr.bufferView ) ref( *cb, T::BufferView, wr.bufferView );
				}
			}
		}
	}
	static void needUsage( u64 buf, VkBufferUsageFlags u, char const * where )
	{
		auto it = w->buffers.find( buf );
		if ( it != w->buffers.end() && !( it->second.info.usage & u ) )
			error( "usage", std::string{ where } + ": the buffer lacks a usage flag" );
	}
	static void VKAPI_PTR CmdBindVertexBuffers( VkCommandBuffer x, uint32_t first, uint32_t n, VkBuffer const * b, VkDeviceSize const * o )
	{
		CALL( "CmdBindVertexBuffers" );
		auto cb = rec( x, "vkCmdBindVertexBuffers" );
		if ( !cb ) return;
		auto & c = push( *cb, Op::BindVB );
		c.n[0] = first;
		for ( u32 i = 0; i < n; ++i )
		{
			if ( get< Buffer >( h( b[i] ), "vkCmdBindVertexBuffers" ) )
				needUsage( h( b[i] ), VK_BUFFER_USAGE_VERTEX_BUFFER_BIT, "vkCmdBindVertexBuffers" );
			refBuffer( *cb, h( b[i] ) );
			c.handles.push_back( h( b[i] ) );
			c.offsets.push_back( o[i] );
		}
	}
	static void VKAPI_PTR CmdBindIndexBuffer( VkCommandBuffer x, VkBuffer b, VkDeviceSize o, VkIndexType t )
	{
		CALL( "CmdBindIndexBuffer" );
		auto cb = rec( x, "vkCmdBindIndexBuffer" );
		if ( !cb ) return;
		if ( get< Buffer >( h( b ), "vkCmdBindIndexBuffer" ) )
			needUsage( h( b ), VK_BUFFER_USAGE_INDEX_BUFFER_BIT, "vkCmdBindIndexBuffer" );
		auto & c = push( *cb, Op::BindIB );
		c.a = h( b );
		c.n[0] = o;
		c.n[1] = t;
		refBuffer( *cb, c.a );
	}
	static bool rangeOk( Image const & i, VkImageSubresourceRange const & r, char const * where )
	{
		bool ok = true;
		if ( !r.aspectMask || !r.levelCount || !r.layerCount )
		{
			error( "region", std::string{ where } + ": empty subresource range" );
			ok = false;
		}
		if ( r.aspectMask & ~aspectMaskOf( i.info.format ) )
		{
			error( "region", std::string{ where } + ": aspect not in the image's format" );
			ok = false;
		}
		if ( ( r.levelCount != VK_REMAINING_MIP_LEVELS && r.baseMipLevel + r.levelCount > i.info.mipLevels ) || r.baseMipLevel >= i.info.mipLevels )
		{
			error( "region", std::string{ where } + ": mip levels out of range: " + str( r ) );
			ok = false;
		}
		if ( ( r.layerCount != VK_REMAINING_ARRAY_LAYERS && r.baseArrayLayer + r.layerCount > i.info.arrayLayers ) || r.baseArrayLayer >= i.info.arrayLayers )
		{
			error( "region", std::string{ where } + ": array layers out of range: " + str( r ) );
			ok = false;
		}
		return ok;
	}
	static void imgUsage( Image const & i, VkImageUsageFlags u, char const * where )
	{
		if ( !( i.info.usage & u ) )
			error( "usage", std::string{ where } + ": the image lacks a usage flag" );
	}
	static void VKAPI_PTR CmdClearColorImage( VkCommandBuffer x, VkImage im, VkImageLayout l, VkClearColorValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{
		CALL( "CmdClearColorImage" );
		auto cb = rec( x, "vkCmdClearColorImage" );
		if ( !cb ) return;
		outside( *cb, "vkCmdClearColorImage" );
		if ( auto i = get< Image >( h( im ), "vkCmdClearColorImage" ) )
		{
			imgUsage( *i, VK_IMAGE_USAGE_TRANSFER_DST_BIT, "vkCmdClearColorImage" );
			if ( aspectsOf( i->info.format ).front() != 0 )
				error( "region", "vkCmdClearColorImage: not a colour image" );
			for ( u32 k = 0; k < n; ++k )
				rangeOk( *i, r[k], "vkCmdClearColorImage" );
		}
		auto & c = push( *cb, Op::ClearColour );
		c.a = h( im );
		c.la = l;
		c.clear.color = *v;
		c.ranges.assign( r, r + n );
		refImage( *cb, c.a );
	}
	static void VKAPI_PTR CmdClearDepthStencilImage( VkCommandBuffer x, VkImage im, VkImageLayout l, VkClearDepthStencilValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{
		CALL( "CmdClearDepthStencilImage" );
		auto cb = rec( x, "vkCmdClearDepthStencilImage" );
		if ( !cb ) return;
		outside( *cb, "vkCmdClearDepthStencilImage" );
		if ( auto i = get< Image >( h( im ), "vkCmdClearDepthStencilImage" ) )
		{
			imgUsage( *i, VK_IMAGE_USAGE_TRANSFER_DST_BIT, "vkCmdClearDepthStencilImage" );
			if ( aspectsOf( i->info.format ).front() == 0 )
				error( "region", "vkCmdClearDepthStencilImage: not a depth/stencil image" );
			for ( u32 k = 0; k < n; ++k )
				rangeOk( *i, r[k], "vkCmdClearDepthStencilImage" );
		}
		auto & c = push( *cb, Op::ClearDS );
		c.a = h( im );
		c.la = l;
		c.clear.depthStencil = *v;
		c.ranges.assign( r, r + n );
		refImage( *cb, c.a );
	}
	static void VKAPI_PTR CmdDispatch( VkCommandBuffer x, uint32_t gx, uint32_t gy, uint32_t gz )
	{
		CALL( "CmdDispatch" );
		auto cb = rec( x, "vkCmdDispatch" );
		if ( !cb ) return;
		outside( *cb, "vkCmdDispatch" );
		auto & c = push( *cb, Op::Dispatch );
		c.n = { gx, gy, gz };
	}
	static void VKAPI_PTR CmdDispatchIndirect( VkCommandBuffer x, VkBuffer b, VkDeviceSize o )
	{
		CALL( "CmdDispatchIndirect" );
		auto cb = rec( x, "vkCmdDispatchIndirect" );
		if ( !cb ) return;
		outside( *cb, "vkCmdDispatchIndirect" );
		if ( auto bb = get< Buffer >( h( b ), "vkCmdDispatchIndirect" ) )
		{
			needUsage( h( b ), VK_BUFFER_USAGE_INDIRECT_BUFFER_BIT, "vkCmdDispatchIndirect" );
			if ( o + 12 > bb->info.size || o % 4 )
				error( "region", "vkCmdDispatchIndirect: offset out of the buffer" );
		}
		auto & c = push( *cb, Op::DispatchIndirect );
		c.a = h( b );
		c.n[0] = o;
		refBuffer( *cb, c.a );
	}
	static void VKAPI_PTR CmdDraw( VkCommandBuffer x, uint32_t a, uint32_t b, uint32_t c0, uint32_t d )
	{
		CALL( "CmdDraw" );
		auto cb = rec( x, "vkCmdDraw" );
		if ( !cb ) return;
		inside( *cb, "vkCmdDraw" );
		auto & c = push( *cb, Op::Draw );
		c.n = { a, b, c0, d };
	}
	static void VKAPI_PTR CmdDrawIndexed( VkCommandBuffer x, uint32_t a, uint32_t b, uint32_t c0, int32_t d, uint32_t e )
	{
		CALL( "CmdDrawIndexed" );
		auto cb = rec( x, "vkCmdDrawIndexed" );
		if ( !cb ) return;
		inside( *cb, "vkCmdDrawIndexed" );
		auto & c = push( *cb, Op::DrawIndexed );
		c.n = { a, b, c0, u64( int64_t( d ) ), e };
	}
	static void indirectDraw( VkCommandBuffer x, VkBuffer b, VkDeviceSize o, u32 count, u32 stride, Op op, char const * where )
	{
		auto cb = rec( x, where );
		if ( !cb ) return;
		inside( *cb, where );
		u32 size = op == Op::DrawIndirect ? 16u : 20u;
		if ( auto bb = get< Buffer >( h( b ), where ) )
		{
			needUsage( h( b ), VK_BUFFER_USAGE_INDIRECT_BUFFER_BIT, where );
			if ( o + size > bb->info.size || o % 4 )
				error( "region", std::string{ where } + ": offset out of the buffer" );
		}
		auto & c = push( *cb, op );
		c.a = h( b );
		c.n = { o, count, stride };
		refBuffer( *cb, c.a );
	}
	static void VKAPI_PTR CmdDrawIndirect( VkCommandBuffer x, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s )
	{
		CALL( "CmdDrawIndirect" );
		indirectDraw( x, b, o, n, s, Op::DrawIndirect, "vkCmdDrawIndirect" );
	}
	static void VKAPI_PTR CmdDrawIndexedIndirect( VkCommandBuffer x, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s )
	{
		CALL( "CmdDrawIndexedIndirect" );
		indirectDraw( x, b, o, n, s, Op::DrawIndexedIndirect, "vkCmdDrawIndexedIndirect" );
	}
	static void VKAPI_PTR CmdBeginRenderPass( VkCommandBuffer x, VkRenderPassBeginInfo const * bi, VkSubpassContents contents )
	{
		CALL( "CmdBeginRenderPass" );
		auto cb = rec( x, "vkCmdBeginRenderPass" );
		if ( !cb ) return;
		outside( *cb, "vkCmdBeginRenderPass" );
		auto rp = get< RenderPass >( h( bi->renderPass ), "vkCmdBeginRenderPass" );
		auto fb = get< Framebuffer >( h( bi->framebuffer ), "vkCmdBeginRenderPass" );
		sane( bi, VK_STRUCTURE_TYPE_RENDER_PASS_BEGIN_INFO, "vkCmdBeginRenderPass" );
		auto & c = push( *cb, Op::BeginRP );
		c.n[0] = u64( contents );
		c.a = h( bi->renderPass );
		c.b = h( bi->framebuffer );
		c.area = bi->renderArea;
		c.clears.assign( bi->pClearValues, bi->pClearValues + bi->clearValueCount );
		cb->inRP = true;
		cb->rp = c.a;
		cb->fb = c.b;
		ref( *cb, T::RenderPass, c.a );
		ref( *cb, T::Framebuffer, c.b );
		if ( fb )
		{
			for ( u64 v : fb->views )
			{
				get< ImageView >( v, "vkCmdBeginRenderPass" );
				refView( *cb, v );
			}
			if ( fb->renderPass != c.a )
				error( "rp", "vkCmdBeginRenderPass: framebuffer made for another render pass" );
			if ( c.area.offset.x < 0 || c.area.offset.y < 0 || u32( c.area.offset.x ) + c.area.extent.width > fb->w || u32( c.area.offset.y ) + c.area.extent.height > fb->hgt || !c.area.extent.width || !c.area.extent.height )
				error( "rp", "vkCmdBeginRenderPass: render area out of the framebuffer" );
		}
		if ( rp )
			for ( size_t i = 0; i < rp->attaches.size(); ++i )
				if ( ( rp->attaches[i].loadOp == VK_ATTACHMENT_LOAD_OP_CLEAR || rp->attaches[i].stencilLoadOp == VK_ATTACHMENT_LOAD_OP_CLEAR ) && i >= c.clears.size() )
				{
					bool needed = rp->attaches[i].loadOp == VK_ATTACHMENT_LOAD_OP_CLEAR || aspectsOf( rp->attaches[i].format ).back() == 2;
					if ( needed )
						error( "rp", "vkCmdBeginRenderPass: not enough clear values" );
				}
	}
	static void VKAPI_PTR CmdEndRenderPass( VkCommandBuffer x )
	{
		CALL( "CmdEndRenderPass" );
		auto cb = rec( x, "vkCmdEndRenderPass" );
		if ( !cb ) return;
		inside( *cb, "vkCmdEndRenderPass" );
		auto & c = push( *cb, Op::EndRP );
		c.a = cb->rp;
		c.b = cb->fb;
		cb->inRP = false;
	}
	static void VKAPI_PTR CmdPushConstants( VkCommandBuffer x, VkPipelineLayout l, VkShaderStageFlags st, uint32_t off, uint32_t size, void const * p )
	{
		CALL( "CmdPushConstants" );
		auto cb = rec( x, "vkCmdPushConstants" );
		if ( !cb ) return;
		if ( !size || !st || size % 4 || off % 4 )
			error( "param", "vkCmdPushConstants: bad range" );
		if ( auto lay = get< PipelineLayout >( h( l ), "vkCmdPushConstants" ) )
		{
			for ( u32 b = off; b < off + size; b += 4 )
			{
				VkShaderStageFlags have{};
				for ( auto & r : lay->pcs )
					if ( b >= r.offset && b < r.offset + r.size )
						have |= r.stageFlags;
				if ( ( have & st ) != st )
				{
					error( "param", "vkCmdPushConstants: bytes not in the layout's ranges" );
					break;
				}
			}
		}
		auto & c = push( *cb, Op::PushConstants );
		c.a = h( l );
		c.n = { st, off, size };
		c.bytes.assign( static_cast< uint8_t const * >( p ), static_cast< uint8_t const * >( p ) + size );
	}
	static void VKAPI_PTR CmdResetQueryPool( VkCommandBuffer x, VkQueryPool q, uint32_t first, uint32_t n )
	{
		CALL( "CmdResetQueryPool" );
		auto cb = rec( x, "vkCmdResetQueryPool" );
		if ( !cb ) return;
		outside( *cb, "vkCmdResetQueryPool" );
		if ( auto qp = get< QueryPool >( h( q ), "vkCmdResetQueryPool" ) )
			if ( first + n > qp->q.size() || !n )
				error( "query", "vkCmdResetQueryPool: queries out of the pool" );
		auto & c = push( *cb, Op::ResetQuery );
		c.a = h( q );
		c.n = { first, n };
		ref( *cb, T::QueryPool, c.a );
	}
	static void VKAPI_PTR CmdWriteTimestamp( VkCommandBuffer x, VkPipelineStageFlagBits st, VkQueryPool q, uint32_t i )
	{
		CALL( "CmdWriteTimestamp" );
		auto cb = rec( x, "vkCmdWriteTimestamp" );
		if ( !cb ) return;
		if ( auto qp = get< QueryPool >( h( q ), "vkCmdWriteTimestamp" ) )
			if ( i >= qp->q.size() )
				error( "query", "vkCmdWriteTimestamp: query out of the pool" );
		auto & c = push( *cb, Op::WriteTs );
		c.a = h( q );
		c.n = { i, u64( st ) };
		ref( *cb, T::QueryPool, c.a );
	}
	static void VKAPI_PTR CmdPipelineBarrier( VkCommandBuffer x, VkPipelineStageFlags ss, VkPipelineStageFlags ds, VkDependencyFlags, uint32_t nm, VkMemoryBarrier const * mb, uint32_t nb, VkBufferMemoryBarrier const * bb, uint32_t ni, VkImageMemoryBarrier const * ib )
	{
		CALL( "CmdPipelineBarrier" );
		for ( u32 i = 0; i < nm; ++i ) sane( &mb[i], VK_STRUCTURE_TYPE_MEMORY_BARRIER, "vkCmdPipelineBarrier" );
		for ( u32 i = 0; i < nb; ++i ) sane( &bb[i], VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER, "vkCmdPipelineBarrier" );
		for ( u32 i = 0; i < ni; ++i ) sane( &ib[i], VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER, "vkCmdPipelineBarrier" );
		for ( u32 i = 0; i < nb; ++i )
			if ( bb[i].srcQueueFamilyIndex != bb[i].dstQueueFamilyIndex )
				error( "sync", "vkCmdPipelineBarrier: a buffer given to another queue family" );
		for ( u32 i = 0; i < ni; ++i )
			if ( ib[i].srcQueueFamilyIndex != ib[i].dstQueueFamilyIndex )
				error( "sync", "vkCmdPipelineBarrier: an image given to another queue family" );
		auto cb = rec( x, "vkCmdPipelineBarrier" );
		if ( !cb ) return;
		if ( cb->inRP )
			error( "rp", "vkCmdPipelineBarrier: inside a render pass" );
		if ( !ss || !ds )
			error( "sync", "vkCmdPipelineBarrier: empty stage mask" );
		auto supported = []( VkPipelineStageFlags st, VkAccessFlags a )
		{
			if ( st & ( VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT ) ) return true;
			VkAccessFlags ok = VK_ACCESS_MEMORY_READ_BIT | VK_ACCESS_MEMORY_WRITE_BIT;
			if ( st & ( VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT | VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT ) ) ok |= VK_ACCESS_UNIFORM_READ_BIT | VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) ok |= VK_ACCESS_INPUT_ATTACHMENT_READ_BIT;
			if ( st & VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ) ok |= VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
			if ( st & ( VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) ) ok |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_TRANSFER_BIT ) ok |= VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_HOST_BIT ) ok |= VK_ACCESS_HOST_READ_BIT | VK_ACCESS_HOST_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT ) ok |= VK_ACCESS_INDIRECT_COMMAND_READ_BIT;
			if ( st & VK_PIPELINE_STAGE_VERTEX_INPUT_BIT ) ok |= VK_ACCESS_INDEX_READ_BIT | VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT;
			return !( a & 0x1FFFFu & ~ok );
		};
		if ( w->syncCheck )
		{
			for ( u32 i = 0; i < nm; ++i ) if ( !supported( ss, mb[i].srcAccessMask ) || !supported( ds, mb[i].dstAccessMask ) ) error( "hazard", "vkCmdPipelineBarrier: memory barrier with accesses its stages don't have" );
			for ( u32 i = 0; i < nb; ++i ) if ( !supported( ss, bb[i].srcAccessMask ) || !supported( ds, bb[i].dstAccessMask ) ) error( "hazard", "vkCmdPipelineBarrier: buffer barrier with accesses its stages don't have" );
			for ( u32 i = 0; i < ni; ++i ) if ( !supported( ss, ib[i].srcAccessMask ) || !supported( ds, ib[i].dstAccessMask ) ) error( "hazard", "vkCmdPipelineBarrier: image barrier with accesses its stages don't have (" + hx( ib[i].srcAccessMask ) + " in " + hx( ss ) + " -> " + hx( ib[i].dstAccessMask ) + " in " + hx( ds ) + ")" );
		}
		auto & c = push( *cb, Op::Barrier );
		c.n = { ss, ds };
		c.mb.assign( mb, mb + nm );
		c.bb.assign( bb, bb + nb );
		c.ib.assign( ib, ib + ni );
		for ( auto & b : c.bb )
		{
			refBuffer( *cb, h( b.buffer ) );
			if ( auto bu = get< Buffer >( h( b.buffer ), "vkCmdPipelineBarrier" ) )
				if ( b.offset >= bu->info.size || !b.size || ( b.size != VK_WHOLE_SIZE && b.offset + b.size > bu->info.size ) )
					error( "region", "vkCmdPipelineBarrier: buffer range out of the buffer" );
			if ( b.srcQueueFamilyIndex != b.dstQueueFamilyIndex )
				error( "param", "vkCmdPipelineBarrier: queue family transfer" );
		}
		for ( auto & b : c.ib )
		{
			refImage( *cb, h( b.image ) );
			if ( auto i = get< Image >( h( b.image ), "vkCmdPipelineBarrier" ) )
			{
				rangeOk( *i, b.subresourceRange, "vkCmdPipelineBarrier" );
				if ( !w->separateDS && aspectsOf( i->info.format ).size() == 2 && ( b.subresourceRange.aspectMask & 6 ) != 6 )
					error( "layout", "vkCmdPipelineBarrier: depth/stencil image transitioned for one aspect only" );
			}
			if ( b.newLayout == VK_IMAGE_LAYOUT_UNDEFINED || b.newLayout == VK_IMAGE_LAYOUT_PREINITIALIZED )
				error( "layout", "vkCmdPipelineBarrier: newLayout is " + str( b.newLayout ) );
			if ( b.srcQueueFamilyIndex != b.dstQueueFamilyIndex )
				error( "param", "vkCmdPipelineBarrier: queue family transfer" );
		}
	}
	struct Box { int x0, y0, z0, x1, y1, z1; };
	static bool boxIn( Image const & i, VkImageSubresourceLayers const & s, Box const & b, char const * where )
	{
		bool ok = true;
		if ( s.mipLevel >= i.info.mipLevels || !s.layerCount || s.baseArrayLayer + s.layerCount > i.info.arrayLayers )
		{
			error( "region", std::string{ where } + ": subresource out of the image" );
			return false;
		}
		if ( !s.aspectMask || ( s.aspectMask & ~aspectMaskOf( i.info.format ) ) )
		{
			error( "region", std::string{ where } + ": aspect not in the image" );
			return false;
		}
		int W = int( mipDim( i.info.extent.width, s.mipLevel ) ), H = int( mipDim( i.info.extent.height, s.mipLevel ) ), D = int( mipDim( i.info.extent.depth, s.mipLevel ) );
		if ( b.x0 < 0 || b.y0 < 0 || b.z0 < 0 || b.x1 > W || b.y1 > H || b.z1 > D || b.x0 >= b.x1 || b.y0 >= b.y1 || b.z0 >= b.z1 )
		{
			std::ostringstream o;
			o << where << ": region [" << b.x0 << "," << b.y0 << "," << b.z0 << " - " << b.x1 << "," << b.y1 << "," << b.z1 << "] out of mip " << s.mipLevel << " (" << W << "x" << H << "x" << D << ")";
			error( "region", o.str() );
			ok = false;
		}
		return ok;
	}
	static Box mkbox( VkOffset3D o, VkExtent3D e )
	{
		return { o.x, o.y, o.z, o.x + int( e.width ), o.y + int( e.height ), o.z + int( e.depth ) };
	}
	static Box mkbox2( VkOffset3D const * o )
	{
		return { std::min( o[0].x, o[1].x ), std::min( o[0].y, o[1].y ), std::min( o[0].z, o[1].z ), std::max( o[0].x, o[1].x ), std::max( o[0].y, o[1].y ), std::max( o[0].z, o[1].z ) };
	}
	static void VKAPI_PTR CmdBlitImage( VkCommandBuffer x, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageBlit const * r, VkFilter f )
	{
		CALL( "CmdBlitImage" );
		auto cb = rec( x, "vkCmdBlitImage" );
		if ( !cb ) return;
		outside( *cb, "vkCmdBlitImage" );
		auto si = get< Image >( h( s ), "vkCmdBlitImage" );
		auto di = get< Image >( h( d ), "vkCmdBlitImage" );
		if ( si ) imgUsage( *si, VK_IMAGE_USAGE_TRANSFER_SRC_BIT, "vkCmdBlitImage" );
		if ( di ) imgUsage( *di, VK_IMAGE_USAGE_TRANSFER_DST_BIT, "vkCmdBlitImage" );
		for ( u32 i = 0; i < n; ++i )
		{
			if ( si ) boxIn( *si, r[i].srcSubresource, mkbox2( r[i].srcOffsets ), "vkCmdBlitImage(src)" );
			if ( di ) boxIn( *di, r[i].dstSubresource, mkbox2( r[i].dstOffsets ), "vkCmdBlitImage(dst)" );
			if ( r[i].srcSubresource.layerCount != r[i].dstSubresource.layerCount )
				error( "region", "vkCmdBlitImage: layer counts differ" );
		}
		auto & c = push( *cb, Op::Blit );
		c.a = h( s ); c.b = h( d ); c.la = sl; c.lb = dl; c.n[0] = f;
		c.blits.assign( r, r + n );
		refImage( *cb, c.a );
		refImage( *cb, c.b );
	}
	static void VKAPI_PTR CmdCopyBuffer( VkCommandBuffer x, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * r )
	{
		CALL( "CmdCopyBuffer" );
		auto cb = rec( x, "vkCmdCopyBuffer" );
		if ( !cb ) return;
		outside( *cb, "vkCmdCopyBuffer" );
		auto sb = get< Buffer >( h( s ), "vkCmdCopyBuffer" );
		auto db = get< Buffer >( h( d ), "vkCmdCopyBuffer" );
		needUsage( h( s ), VK_BUFFER_USAGE_TRANSFER_SRC_BIT, "vkCmdCopyBuffer" );
		needUsage( h( d ), VK_BUFFER_USAGE_TRANSFER_DST_BIT, "vkCmdCopyBuffer" );
		auto & c = push( *cb, Op::CopyBuffer );
		c.a = h( s ); c.b = h( d );
		for ( u32 i = 0; i < n; ++i )
		{
			bool ok = r[i].size != 0;
			if ( sb && r[i].srcOffset + r[i].size > sb->info.size ) ok = false;
			if ( db && r[i].dstOffset + r[i].size > db->info.size ) ok = false;
			if ( !ok )
				error( "region", "vkCmdCopyBuffer: region out of a buffer" );
			else
				c.bufCopies.push_back( r[i] );
		}
		refBuffer( *cb, c.a );
		refBuffer( *cb, c.b );
	}
	static u64 biSize( Image const & i, VkBufferImageCopy const & r )
	{
		u32 rl = r.bufferRowLength ? r.bufferRowLength : r.imageExtent.width;
		u32 ih = r.bufferImageHeight ? r.bufferImageHeight : r.imageExtent.height;
		u32 z = r.imageExtent.depth * r.imageSubresource.layerCount;
		int asp = r.imageSubresource.aspectMask & VK_IMAGE_ASPECT_STENCIL_BIT ? 2 : 0;
		return ( ( u64( z ) - 1 ) * ih * rl + u64( r.imageExtent.height - 1 ) * rl + r.imageExtent.width ) * texelSize( i.info.format, asp );
	}
	static void checkBI( Image const * i, Buffer const * b, VkBufferImageCopy const & r, char const * where )
	{
		if ( r.bufferRowLength && r.bufferRowLength < r.imageExtent.width )
			error( "region", std::string{ where } + ": bufferRowLength smaller than the region" );
		if ( r.bufferImageHeight && r.bufferImageHeight < r.imageExtent.height )
			error( "region", std::string{ where } + ": bufferImageHeight smaller than the region" );
		if ( i && boxIn( *i, r.imageSubresource, mkbox( r.imageOffset, r.imageExtent ), where ) && b )
		{
			if ( r.bufferOffset + biSize( *i, r ) > b->info.size )
				error( "region", std::string{ where } + ": region out of the buffer" );
			if ( r.bufferOffset % texelSize( i->info.format ) )
				error( "region", std::string{ where } + ": bufferOffset is not a multiple of the texel size" );
			VkImageAspectFlags a = r.imageSubresource.aspectMask;
			if ( a & ( a - 1 ) )
				error( "region", std::string{ where } + ": more than one aspect" );
		}
	}
	static void VKAPI_PTR CmdCopyBufferToImage( VkCommandBuffer x, VkBuffer s, VkImage d, VkImageLayout l, uint32_t n, VkBufferImageCopy const * r )
	{
		CALL( "CmdCopyBufferToImage" );
		auto cb = rec( x, "vkCmdCopyBufferToImage" );
		if ( !cb ) return;
		outside( *cb, "vkCmdCopyBufferToImage" );
		auto b = get< Buffer >( h( s ), "vkCmdCopyBufferToImage" );
		auto i = get< Image >( h( d ), "vkCmdCopyBufferToImage" );
		needUsage( h( s ), VK_BUFFER_USAGE_TRANSFER_SRC_BIT, "vkCmdCopyBufferToImage" );
		if ( i ) imgUsage( *i, VK_IMAGE_USAGE_TRANSFER_DST_BIT, "vkCmdCopyBufferToImage" );
		for ( u32 k = 0; k < n; ++k )
			checkBI( i, b, r[k], "vkCmdCopyBufferToImage" );
		auto & c = push( *cb, Op::CopyBufImg );
		c.a = h( s ); c.b = h( d ); c.lb = l;
		c.biCopies.assign( r, r + n );
		refBuffer( *cb, c.a );
		refImage( *cb, c.b );
	}
	static void VKAPI_PTR CmdCopyImageToBuffer( VkCommandBuffer x, VkImage s, VkImageLayout l, VkBuffer d, uint32_t n, VkBufferImageCopy const * r )
	{
		CALL( "CmdCopyImageToBuffer" );
		auto cb = rec( x, "vkCmdCopyImageToBuffer" );
		if ( !cb ) return;
		outside( *cb, "vkCmdCopyImageToBuffer" );
		auto i = get< Image >( h( s ), "vkCmdCopyImageToBuffer" );
		auto b = get< Buffer >( h( d ), "vkCmdCopyImageToBuffer" );
		needUsage( h( d ), VK_BUFFER_USAGE_TRANSFER_DST_BIT, "vkCmdCopyImageToBuffer" );
		if ( i ) imgUsage( *i, VK_IMAGE_USAGE_TRANSFER_SRC_BIT, "vkCmdCopyImageToBuffer" );
		for ( u32 k = 0; k < n; ++k )
			checkBI( i, b, r[k], "vkCmdCopyImageToBuffer" );
		auto & c = push( *cb, Op::CopyImgBuf );
		c.a = h( s ); c.b = h( d ); c.la = l;
		c.biCopies.assign( r, r + n );
		refImage( *cb, c.a );
		refBuffer( *cb, c.b );
	}
	static void VKAPI_PTR CmdCopyImage( VkCommandBuffer x, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageCopy const * r )
	{
		CALL( "CmdCopyImage" );
		auto cb = rec( x, "vkCmdCopyImage" );
		if ( !cb ) return;
		outside( *cb, "vkCmdCopyImage" );
		auto si = get< Image >( h( s ), "vkCmdCopyImage" );
		auto di = get< Image >( h( d ), "vkCmdCopyImage" );
		if ( si ) imgUsage( *si, VK_IMAGE_USAGE_TRANSFER_SRC_BIT, "vkCmdCopyImage" );
		if ( di ) imgUsage( *di, VK_IMAGE_USAGE_TRANSFER_DST_BIT, "vkCmdCopyImage" );
		for ( u32 i = 0; i < n; ++i )
		{
			if ( si ) boxIn( *si, r[i].srcSubresource, mkbox( r[i].srcOffset, r[i].extent ), "vkCmdCopyImage(src)" );
			if ( di ) boxIn( *di, r[i].dstSubresource, mkbox( r[i].dstOffset, r[i].extent ), "vkCmdCopyImage(dst)" );
			if ( r[i].srcSubresource.layerCount != r[i].dstSubresource.layerCount )
				error( "region", "vkCmdCopyImage: layer counts differ" );
			if ( r[i].srcSubresource.aspectMask != r[i].dstSubresource.aspectMask )
				error( "region", "vkCmdCopyImage: aspects differ" );
		}
		auto & c = push( *cb, Op::CopyImg );
		c.a = h( s ); c.b = h( d ); c.la = sl; c.lb = dl;
		c.imgCopies.assign( r, r + n );
		refImage( *cb, c.a );
		refImage( *cb, c.b );
	}
	static void VKAPI_PTR CmdExecuteCommands( VkCommandBuffer x, uint32_t n, VkCommandBuffer const * s )
	{
		CALL( "CmdExecuteCommands" );
		auto cb = rec( x, "vkCmdExecuteCommands" );
		if ( !cb ) return;
		auto & c = push( *cb, Op::ExecCmds );
		for ( u32 i = 0; i < n; ++i )
		{
			c.handles.push_back( h( s[i] ) );
			ref( *cb, T::CommandBuffer, h( s[i] ) );
		}
	}
	static void evCmd( VkCommandBuffer x, VkEvent e, Op op, char const * where )
	{
		auto cb = rec( x, where );
		if ( !cb ) return;
		get< Event >( h( e ), where );
		auto & c = push( *cb, op );
		c.a = h( e );
		ref( *cb, T::Event, c.a );
	}
	static void VKAPI_PTR CmdResetEvent( VkCommandBuffer x, VkEvent e, VkPipelineStageFlags ) { CALL( "CmdResetEvent" ); evCmd( x, e, Op::ResetEvent, "vkCmdResetEvent" ); }
	static void VKAPI_PTR CmdSetEvent( VkCommandBuffer x, VkEvent e, VkPipelineStageFlags ) { CALL( "CmdSetEvent" ); evCmd( x, e, Op::SetEvent, "vkCmdSetEvent" ); }
	static void VKAPI_PTR CmdWaitEvents( VkCommandBuffer, uint32_t, VkEvent const *, VkPipelineStageFlags, VkPipelineStageFlags, uint32_t, VkMemoryBarrier const *, uint32_t, VkBufferMemoryBarrier const *, uint32_t, VkImageMemoryBarrier const * ) { CALL( "CmdWaitEvents" ); }
	static void VKAPI_PTR CmdFillBuffer( VkCommandBuffer x, VkBuffer b, VkDeviceSize o, VkDeviceSize s, uint32_t v )
	{
		CALL( "CmdFillBuffer" );
		auto cb = rec( x, "vkCmdFillBuffer" );
		if ( !cb ) return;
		outside( *cb, "vkCmdFillBuffer" );
		auto bu = get< Buffer >( h( b ), "vkCmdFillBuffer" );
		needUsage( h( b ), VK_BUFFER_USAGE_TRANSFER_DST_BIT, "vkCmdFillBuffer" );
		auto & c = push( *cb, Op::Fill );
		c.a = h( b );
		c.n = { o, s, v };
		if ( bu && ( o % 4 || ( s != VK_WHOLE_SIZE && ( s % 4 || !s || o + s > bu->info.size ) ) || o >= bu->info.size ) )
			error( "region", "vkCmdFillBuffer: bad range" );
		refBuffer( *cb, c.a );
	}
	static VkResult VKAPI_PTR SetDebugUtilsObjectNameEXT( VkDevice dv, VkDebugUtilsObjectNameInfoEXT const * ni )
	{
		CALL( "SetDebugUtilsObjectNameEXT" );
		sane( dv, "vkSetDebugUtilsObjectNameEXT" );
		u64 id = ni->objectHandle;
		if ( !id )
			error( "life", "vkSetDebugUtilsObjectName: null handle" );
		else if ( w->dead.count( id ) )
			error( "life", "vkSetDebugUtilsObjectName: destroyed object" );
		if ( !ni->pObjectName )
			error( "param", "vkSetDebugUtilsObjectName: null name" );
		else if ( ni->objectType == VK_OBJECT_TYPE_IMAGE && w->images.count( id ) )
			w->images[id].label = ni->pObjectName;
		if ( ni->pObjectName && w->names.size() < 4096 )
			w->names.emplace_back( id, ni->pObjectName );
		return VK_SUCCESS;
	}
	static void VKAPI_PTR CmdBeginDebugUtilsLabelEXT( VkCommandBuffer x, VkDebugUtilsLabelEXT const * l )
	{
		CALL( "CmdBeginDebugUtilsLabelEXT" );
		auto cb = rec( x, "vkCmdBeginDebugUtilsLabel" );
		if ( !cb ) return;
		++cb->labels;
		push( *cb, Op::BeginLabel ).text = l->pLabelName ? l->pLabelName : "";
	}
	static void VKAPI_PTR CmdEndDebugUtilsLabelEXT( VkCommandBuffer x )
	{
		CALL( "CmdEndDebugUtilsLabelEXT" );
		auto cb = rec( x, "vkCmdEndDebugUtilsLabel" );
		if ( !cb ) return;
		if ( --cb->labels < 0 )
			error( "label", "vkCmdEndDebugUtilsLabel: no label open" );
		push( *cb, Op::EndLabel );
	}
	void cmdExec( VkCommandBuffer x, std::string text, std::function< void() > fn, bool wantRP )
	{
		auto cb = rec( x, "pass record" );
		if ( !cb ) return;
		if ( cb->inRP != wantRP )
			error( "rp", "pass record: render pass " + std::string( wantRP ? "not open" : "open" ) + " in " + text );
		auto & c = push( *cb, Op::Exec );
		c.text = std::move( text );
		c.fn = std::move( fn );
	}
	//************************************************************************************************
	// execution
	static void wantLayout( u64 image, SubKey k, VkImageLayout l, std::string const & what )
	{
		auto it = w->images.find( image );
		if ( it == w->images.end() )
			return;
		auto sit = it->second.subs.find( k );
		if ( sit == it->second.subs.end() )
			return;
		if ( sit->second.layout != l )
		{
			std::ostringstream s;
			s << what << ": " << imgName( image ) << " aspect " << k.aspect << " layer " << k.layer << " mip " << k.mip << " is in " << str( sit->second.layout ) << " but is used as " << str( l );
			error( "layout", s.str() );
		}
	}
	static std::vector< SubKey > layersOf( Image const & i, VkImageSubresourceLayers const & s )
	{
		return subsOf( i, { s.aspectMask, s.mipLevel, 1, s.baseArrayLayer, s.layerCount } );
	}
	static u64 * texel( Sub & s, int x, int y, int z )
	{
		if ( s.texels.empty() || x < 0 || y < 0 || z < 0 || x >= int( s.w ) || y >= int( s.hgt ) || z >= int( s.d ) )
			return nullptr;
		return &s.texels[( size_t( z ) * s.hgt + size_t( y ) ) * s.w + size_t( x )];
	}
	static Memory * memOf( u64 buf, VkDeviceSize & off )
	{
		auto it = w->buffers.find( buf );
		if ( it == w->buffers.end() )
			return nullptr;
		auto mit = w->memories.find( it->second.mem );
		if ( mit == w->memories.end() || mit->second.bytes.empty() )
			return nullptr;
		off += it->second.memOff;
		return off < mit->second.bytes.size() ? &mit->second : nullptr;
	}
	uint8_t byteAt( VkBuffer b, VkDeviceSize off, bool * undef )
	{
		if ( undef ) *undef = true;
		auto m = memOf( h( b ), off );
		if ( !m ) return 0;
		if ( undef ) *undef = !m->def[off];
		return m->bytes[off];
	}
	void setByte( VkBuffer b, VkDeviceSize off, uint8_t v )
	{
		if ( auto m = memOf( h( b ), off ) )
		{
			m->bytes[off] = v;
			m->def[off] = 1;
		}
	}
	static u64 readTexel( u64 buf, VkDeviceSize off, u32 size )
	{
		u64 v{};
		for ( u32 i = 0; i < size; ++i )
		{
			bool u{};
			u64 b = byteAt( mk< VkBuffer >( buf ), off + i, &u );
			if ( u )
				return UNDEF;
			v |= b << ( 8 * i );
		}
		return v;
	}
	static void writeTexel( u64 buf, VkDeviceSize off, u32 size, u64 v )
	{
		for ( u32 i = 0; i < size; ++i )
		{
			setByte( mk< VkBuffer >( buf ), off + i, uint8_t( v >> ( 8 * i ) ) );
			if ( v == UNDEF )
			{
				VkDeviceSize o = off + i;
				if ( auto m = memOf( buf, o ) )
					m->def[o] = 0;
			}
		}
	}
	static u64 clearVal( VkClearValue const & v, VkFormat f, int aspect )
	{
		u64 r{};
		if ( aspect == 0 )
			for ( int i = 0; i < 4; ++i )
				r = hash( r, v.color.uint32[i] );
		else if ( aspect == 1 )
		{
			u32 b;
			std::memcpy( &b, &v.depthStencil.depth, 4 );
			r = b;
		}
		else
			r = v.depthStencil.stencil;
		u32 ts = texelSize( f, aspect );
		return ts >= 8 ? r : r & ( ( 1ull << ( 8 * ts ) ) - 1 );
	}
	static bool rpCompatible( std::vector< VkAttachmentDescription > const & a, std::vector< VkAttachmentDescription > const & b )
	{
		if ( a.size() != b.size() )
			return false;
		for ( size_t i = 0; i < a.size(); ++i )
			if ( a[i].format != b[i].format || a[i].samples != b[i].samples )
				return false;
		return true;
	}
	//************************************************************************************************
	// Synchronisation: which accesses are ordered with, and see, the last write of each part of a resource.
	static VkPipelineStageFlags const AllStages = 0x0001FFFFu & ~VkPipelineStageFlags( VK_PIPELINE_STAGE_HOST_BIT | VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT | VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT | VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT );
	static VkPipelineStageFlags const GfxOrder[]{ VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT, VK_PIPELINE_STAGE_VERTEX_SHADER_BIT, VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT, VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT, VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT };
	static VkPipelineStageFlags exactStages( VkPipelineStageFlags s )
	{
		VkPipelineStageFlags r = s & AllStages;
		if ( s & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT )
			r |= AllStages;
		if ( s & VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT )
			for ( auto g : GfxOrder ) r |= g;
		return r;
	}
	// the execution scopes: with what comes logically before, or after
	static VkPipelineStageFlags srcScope( VkPipelineStageFlags s )
	{
		if ( s & VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT )
			return AllStages;
		auto r = exactStages( s );
		bool in = false;
		for ( int i = int( std::size( GfxOrder ) ) - 1; i >= 0; --i )
		{
			in = in || ( r & GfxOrder[i] );
			if ( in ) r |= GfxOrder[i];
		}
		if ( r & VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT )
			r |= VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT;
		return r;
	}
	static VkPipelineStageFlags dstScope( VkPipelineStageFlags s )
	{
		if ( s & VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT )
			return AllStages;
		auto r = exactStages( s );
		bool in = false;
		for ( auto g : GfxOrder )
		{
			in = in || ( r & g );
			if ( in ) r |= g;
		}
		return r;
	}
	static VkAccessFlags const WriteAccess = VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_TRANSFER_WRITE_BIT | VK_ACCESS_HOST_WRITE_BIT;
	static VkAccessFlags expandAccess( VkAccessFlags a )
	{
		if ( a & VK_ACCESS_MEMORY_WRITE_BIT ) a |= WriteAccess;
		if ( a & VK_ACCESS_MEMORY_READ_BIT ) a |= 0x1FFFFu & ~WriteAccess;
		return a;
	}
	struct Dep { VkPipelineStageFlags src{}, dst{}; VkAccessFlags srcA{}, dstA{}; u64 maxSerial{ ~0ull }; };
	static void syncDep( Sync & s, Dep const & d )
	{
		auto src = srcScope( d.src ), dst = dstScope( d.dst );
		if ( s.hasWrite && s.serial <= d.maxSerial && ( ( s.wStage & src ) || ( s.ordered & src ) ) )
		{
			s.ordered |= dst;
			auto a = expandAccess( d.srcA );
			if ( ( s.wStage & exactStages( d.src ) ) && ( s.wAccess & a ) == s.wAccess )
				s.avail = true;
			if ( s.avail )
				for ( u32 b = 0; b < 17; ++b )
					if ( exactStages( d.dst ) & ( 1u << b ) )
						s.vis[1u << b] |= expandAccess( d.dstA );
		}
		for ( auto & [st, r] : s.reads )
			if ( r.serial <= d.maxSerial && ( ( st & src ) || ( r.ordered & src ) ) )
				r.ordered |= dst;
	}
	static std::string stageStr( VkPipelineStageFlags s )
	{
		switch ( s )
		{
		case VK_PIPELINE_STAGE_TRANSFER_BIT: return "transfer";
		case VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT: return "compute shader";
		case VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT: return "fragment shader";
		case VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT: return "colour output";
		case VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT: return "early tests";
		case VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT: return "late tests";
		default: return "stage " + std::to_string( s );
		}
	}
	static u64 execSerial() { return w->serial; }
	static void syncAccess( Sync & s, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & what, std::string const & who )
	{
		auto hazard = [&]( char const * k, std::string const & other, VkPipelineStageFlags os )
		{
			error( "hazard", std::string{ k } + " hazard on " + what + ": " + who + " (" + stageStr( stage ) + ") isn't synchronised with " + other + ( os ? " (" + stageStr( os ) + ")" : std::string{} ) );
		};
		if ( s.hasWrite && s.op != w->syncOp )
		{
			auto it = s.vis.find( stage );
			if ( it == s.vis.end() || ( it->second & access ) != access )
				hazard( write ? "write after write" : "read after write", s.who, s.wStage );
		}
		if ( !write )
		{
			s.reads[stage] = { 0u, w->syncOp, execSerial(), who };
			return;
		}
		for ( auto & [st, r] : s.reads )
			if ( r.op != w->syncOp && !( r.ordered & stage ) )
				hazard( "write after read", r.who, st );
		Sync n;
		n.hasWrite = true;
		n.wStage = stage;
		n.wAccess = access & WriteAccess;
		n.op = w->syncOp;
		n.serial = execSerial();
		n.who = who;
		s = std::move( n );
	}
	static void syncTransition( Sync & s, std::vector< Dep > const & in, std::vector< Dep > const & out, std::string const & what, std::string const & who )
	{
		VkPipelineStageFlags src{}, exact{};
		for ( auto & d : in ) { src |= srcScope( d.src ); exact |= exactStages( d.src ); }
		auto hazard = [&]( std::string const & other, VkPipelineStageFlags os )
		{
			error( "hazard", "the layout transition of " + what + " by " + who + " isn't synchronised with " + other + " (" + stageStr( os ) + ")" );
		};
		if ( s.hasWrite && !s.transition )
		{
			bool ok = s.avail && ( s.ordered & src );
			for ( auto & d : in )
				ok = ok || ( ( s.wStage & exactStages( d.src ) ) && ( s.wAccess & expandAccess( d.srcA ) ) == s.wAccess ) || ( s.avail && ( s.wStage & srcScope( d.src ) ) );
			if ( !ok ) hazard( s.who, s.wStage );
		}
		for ( auto & [st, r] : s.reads )
			if ( !( st & src ) && !( r.ordered & src ) )
				hazard( r.who, st );
		Sync n;
		n.hasWrite = n.transition = n.avail = true;
		n.op = w->syncOp;
		n.serial = execSerial();
		n.who = "the layout transition of " + who;
		for ( auto & d : out )
		{
			n.ordered |= dstScope( d.dst );
			for ( u32 b = 0; b < 17; ++b )
				if ( exactStages( d.dst ) & ( 1u << b ) )
					n.vis[1u << b] |= expandAccess( d.dstA );
		}
		s = std::move( n );
	}
	static std::string partName( u64 image, SubKey k ) { return imgName( image ) + " aspect " + std::to_string( k.aspect ) + " layer " + std::to_string( k.layer ) + " mip " + std::to_string( k.mip ); }
	void syncImage( u64 image, SubKey k, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & who )
	{
		if ( !w->syncCheck ) return;
		auto it = w->images.find( image );
		if ( it != w->images.end() )
			syncAccess( it->second.sync[k], stage, access, write, partName( image, k ), who );
	}
	static VkDeviceSize const Cell = 16u;
	void syncBuffer( u64 buffer, VkDeviceSize off, VkDeviceSize size, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & who )
	{
		if ( !w->syncCheck ) return;
		auto it = w->buffers.find( buffer );
		if ( it == w->buffers.end() ) return;
		auto end = size == VK_WHOLE_SIZE ? it->second.info.size : std::min( off + size, it->second.info.size );
		for ( auto c = off / Cell; c * Cell < end; ++c )
			syncAccess( it->second.sync[c], stage, access, write, "buffer " + std::to_string( buffer ) + " bytes " + std::to_string( c * Cell ) + "..", who );
	}
	static void syncAll( Dep const & d )
	{
		for ( auto & [i, o] : w->images ) for ( auto & [k, s] : o.sync ) syncDep( s, d );
		for ( auto & [i, o] : w->buffers ) for ( auto & [k, s] : o.sync ) syncDep( s, d );
	}
	// the host has waited for a submission
	static void syncHost( u64 serial )
	{
		auto clear = [serial]( Sync & s )
		{
			for ( auto it = s.reads.begin(); it != s.reads.end(); )
				it = it->second.serial <= serial ? s.reads.erase( it ) : std::next( it );
			if ( s.serial <= serial ) { auto r = std::move( s.reads ); s = {}; s.reads = std::move( r ); }
		};
		for ( auto & [i, o] : w->images ) for ( auto & [k, s] : o.sync ) clear( s );
		for ( auto & [i, o] : w->buffers ) for ( auto & [k, s] : o.sync ) clear( s );
	}
	static void syncBarrier( Cmd const & c, VkPipelineStageFlags src, VkPipelineStageFlags dst, std::string const & who )
	{
		for ( auto & b : c.mb ) syncAll( { src, dst, b.srcAccessMask, b.dstAccessMask } );
		for ( auto & b : c.bb )
		{
			auto it = w->buffers.find( h( b.buffer ) );
			if ( it == w->buffers.end() ) continue;
			auto end = b.size == VK_WHOLE_SIZE ? it->second.info.size : b.offset + b.size;
			for ( auto & [cell, s] : it->second.sync )
				if ( cell * Cell >= b.offset / Cell * Cell && cell * Cell < end )
					syncDep( s, { src, dst, b.srcAccessMask, b.dstAccessMask } );
		}
		// a barrier orders everything, even what its resources don't name
		for ( auto & [i, o] : w->images ) for ( auto & [k, s] : o.sync ) syncDep( s, { src, dst, 0u, 0u } );
		for ( auto & [i, o] : w->buffers ) for ( auto & [k, s] : o.sync ) syncDep( s, { src, dst, 0u, 0u } );
		for ( auto & b : c.ib )
		{
			auto it = w->images.find( h( b.image ) );
			if ( it == w->images.end() ) continue;
			Dep d{ src, dst, b.srcAccessMask, b.dstAccessMask };
			for ( auto k : subsOf( it->second, b.subresourceRange ) )
				if ( b.oldLayout != b.newLayout )
					syncTransition( it->second.sync[k], { d }, { d }, partName( h( b.image ), k ), who );
				else
					syncDep( it->second.sync[k], d );
		}
	}
	static std::vector< Dep > rpDeps( RenderPass const & rp, bool in )
	{
		std::vector< Dep > r;
		for ( auto & d : rp.deps )
			if ( in ? d.srcSubpass == VK_SUBPASS_EXTERNAL && d.dstSubpass != VK_SUBPASS_EXTERNAL : d.dstSubpass == VK_SUBPASS_EXTERNAL && d.srcSubpass != VK_SUBPASS_EXTERNAL )
				r.push_back( { d.srcStageMask, d.dstStageMask, d.srcAccessMask, d.dstAccessMask } );
		VkAccessFlags att = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_INPUT_ATTACHMENT_READ_BIT;
		if ( r.empty() )
			r.push_back( in ? Dep{ VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, 0u, att } : Dep{ VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, att, 0u } );
		return r;
	}
	static void syncRp( RenderPass const & rp, Framebuffer const & fb, bool begin, std::string const & who )
	{
		if ( !w->syncCheck ) return;
		auto deps = rpDeps( rp, begin );
		auto each = [&]( auto && fn )
		{
			for ( size_t i = 0; i < rp.attaches.size() && i < fb.views.size(); ++i )
			{
				auto vit = w->views.find( fb.views[i] );
				if ( vit == w->views.end() ) continue;
				u64 img = h( vit->second.info.image );
				auto iit = w->images.find( img );
				if ( iit == w->images.end() ) continue;
				auto r = vit->second.info.subresourceRange;
				r.aspectMask = aspectMaskOf( iit->second.info.format );
				VkImageLayout used = VK_IMAGE_LAYOUT_UNDEFINED;
				for ( auto & sp : rp.subpasses )
				{
					for ( auto & ref : sp.colour ) if ( ref.attachment == i ) used = ref.layout;
					if ( sp.hasDepth && sp.depth.attachment == i ) used = sp.depth.layout;
				}
				for ( auto k : subsOf( iit->second, r ) )
					fn( img, iit->second.sync[k], k, rp.attaches[i], used );
			}
		};
		if ( begin )
		{
			++w->syncOp;
			each( [&]( u64 img, Sync & s, SubKey k, VkAttachmentDescription const & a, VkImageLayout used )
				{
					if ( a.initialLayout != used ) syncTransition( s, deps, deps, partName( img, k ), who );
				} );
			for ( auto & d : deps ) syncAll( d );
		}
		each( [&]( u64 img, Sync & s, SubKey k, VkAttachmentDescription const & a, VkImageLayout used )
			{
				bool colour = k.aspect == 0;
				bool ro = used == VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
				auto op = k.aspect == 2 ? a.stencilLoadOp : a.loadOp;
				bool write = !ro && ( !begin || op != VK_ATTACHMENT_LOAD_OP_LOAD );
				auto st = colour ? VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT : begin ? VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT : VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
				VkAccessFlags ac = colour ? ( write ? VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT : VK_ACCESS_COLOR_ATTACHMENT_READ_BIT ) : ( write ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT : VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT );
				syncAccess( s, VkPipelineStageFlags( st ), ac, write, partName( img, k ), who );
			} );
		if ( !begin )
		{
			each( [&]( u64 img, Sync & s, SubKey k, VkAttachmentDescription const & a, VkImageLayout used )
				{
					if ( a.finalLayout != used ) syncTransition( s, deps, deps, partName( img, k ), who );
				} );
			for ( auto & d : deps ) syncAll( d );
			++w->syncOp;
		}
	}
	struct ExecState { Bound gfx, cmp; u64 rp{}, fb{}; VkRect2D area{}; std::vector< std::string > labels; };

	static void checkBound( Bound const & b, Drawn const & d, bool gfx )
	{
		std::string what = opname( d.op );
		if ( !b.pipeline )
		{
			error( "draw", what + ": no pipeline bound" );
			return;
		}
		auto pit = w->pipelines.find( b.pipeline );
		if ( pit == w->pipelines.end() )
			return;
		auto & p = pit->second;
		if ( gfx )
		{
			auto rit = w->renderPasses.find( d.rp );
			if ( rit != w->renderPasses.end() && !rpCompatible( p.rpAttaches, rit->second.attaches ) )
				error( "rp", what + ": the pipeline's render pass is not compatible with the current one" );
			for ( auto & vb : p.vbinds )
				if ( vb.binding >= b.vbs.size() || !b.vbs[vb.binding].first )
					error( "draw", what + ": vertex buffer binding " + std::to_string( vb.binding ) + " not bound" );
				else
				{
					auto bit = w->buffers.find( b.vbs[vb.binding].first );
					if ( bit == w->buffers.end() )
						error( "life", what + ": vertex buffer was destroyed" );
					else
					{
						if ( ( d.op == Op::Draw ) && b.vbs[vb.binding].second + u64( vb.stride ) * ( d.n[0] + d.n[2] ) > bit->second.info.size )
							error( "draw", what + ": vertex buffer too small" );
						auto mit = w->memories.find( bit->second.mem );
						if ( mit != w->memories.end() && mit->second.dirty )
							error( "mem", what + ": vertex buffer's host writes were not flushed" );
					}
				}
		}
		auto lit = w->pipelineLayouts.find( p.layout );
		if ( lit == w->pipelineLayouts.end() )
			return;
		for ( u32 s = 0; s < lit->second.sets.size(); ++s )
		{
			auto lay = w->setLayouts.find( lit->second.sets[s] );
			if ( lay == w->setLayouts.end() )
				continue;
			auto sit = b.sets.find( s );
			if ( sit == b.sets.end() )
			{
				if ( !lay->second.bindings.empty() )
					error( "desc", what + ": descriptor set " + std::to_string( s ) + " not bound" );
				continue;
			}
			auto dit = w->descSets.find( sit->second );
			if ( dit == w->descSets.end() )
			{
				error( "life", what + ": bound descriptor set was freed" );
				continue;
			}
			for ( auto & bd : lay->second.bindings )
				for ( u32 e = 0; e < bd.descriptorCount; ++e )
				{
					auto wit = dit->second.writes.find( { bd.binding, e } );
					if ( wit == dit->second.writes.end() )
					{
						error( "desc", what + ": descriptor at binding " + std::to_string( bd.binding ) + " was never written" );
						continue;
					}
					auto & wr = wit->second;
					if ( wr.view )
					{
						auto vit = w->views.find( wr.view );
						if ( vit == w->views.end() )
						{
							error( "life", what + ": descriptor refers to a destroyed view" );
							continue;
						}
						u64 img = h( vit->second.info.image );
						auto iit = w->images.find( img );
						if ( iit == w->images.end() )
						{
							error( "life", what + ": descriptor refers to a destroyed image" );
							continue;
						}
						auto r = vit->second.info.subresourceRange;
						if ( iit->second.info.imageType == VK_IMAGE_TYPE_3D )
						{
							r.baseArrayLayer = 0;
							r.layerCount = 1;
						}
						for ( auto k : subsOf( iit->second, r ) )
							wantLayout( img, k, wr.layout, what + " binding " + std::to_string( bd.binding ) );
					}
					if ( wr.buffer && !w->buffers.count( wr.buffer ) )
						error( "life", what + ": descriptor refers to a destroyed buffer" );
					if ( wr.bufferView && !w->bufferViews.count( wr.bufferView ) )
						error( "life", what + ": descriptor refers to a destroyed buffer view" );
				}
		}
	}
	static void copyRegions( Image & si, Image & di, VkImageSubresourceLayers const & ss, VkImageSubresourceLayers const & ds, std::function< void( Sub &, Sub & ) > fn )
	{
		auto a = layersOf( si, ss );
		auto b = layersOf( di, ds );
		for ( size_t i = 0; i < a.size() && i < b.size(); ++i )
			fn( si.subs[a[i]], di.subs[b[i]] );
	}
	static void execute( u64 cbid, ExecState & st, int depth = 0 );
	static void execOne( u64 cbid, Cmd & c, ExecState & st )
	{
		++w->execCount;
		if ( !st.rp )
			++w->syncOp;
		if ( w->logging && w->log.size() < 4096 )
			w->log.push_back( describe( c ) );
		switch ( c.op )
		{
		case Op::BindPipeline:
			( c.n[0] == VK_PIPELINE_BIND_POINT_COMPUTE ? st.cmp : st.gfx ).pipeline = c.a;
			break;
		case Op::BindSets:
			for ( size_t i = 0; i < c.handles.size(); ++i )
				( c.n[0] == VK_PIPELINE_BIND_POINT_COMPUTE ? st.cmp : st.gfx ).sets[u32( c.n[1] + i )] = c.handles[i];
			break;
		case Op::BindVB:
			for ( size_t i = 0; i < c.handles.size(); ++i )
			{
				size_t idx = size_t( c.n[0] ) + i;
				if ( st.gfx.vbs.size() <= idx )
					st.gfx.vbs.resize( idx + 1 );
				st.gfx.vbs[idx] = { c.handles[i], c.offsets[i] };
			}
			break;
		case Op::BindIB:
			st.gfx.ib = c.a;
			st.gfx.ibOff = c.n[0];
			st.gfx.ibType = VkIndexType( c.n[1] );
			break;
		case Op::PushConstants:
			for ( size_t i = 0; i < c.bytes.size(); ++i )
			{
				st.gfx.push[u32( c.n[1] + i )] = c.bytes[i];
				st.cmp.push[u32( c.n[1] + i )] = c.bytes[i];
			}
			break;
		case Op::ClearColour: case Op::ClearDS:
		{
			auto it = w->images.find( c.a );
			if ( it == w->images.end() ) { error( "life", std::string{ opname( c.op ) } + ": destroyed image" ); break; }
			if ( c.la != VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL && c.la != VK_IMAGE_LAYOUT_GENERAL )
				error( "layout", std::string{ opname( c.op ) } + " in layout " + str( c.la ) );
			for ( auto & r : c.ranges )
				for ( auto k : subsOf( it->second, r ) )
				{
					wantLayout( c.a, k, c.la, opname( c.op ) );
					syncImage( c.a, k, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, opname( c.op ) );
					auto & s = it->second.subs[k];
					std::fill( s.texels.begin(), s.texels.end(), clearVal( c.clear, it->second.info.format, k.aspect ) );
				}
			break;
		}
		case Op::Dispatch: case Op::DispatchIndirect: case Op::Draw: case Op::DrawIndexed: case Op::DrawIndirect: case Op::DrawIndexedIndirect:
		{
			bool gfx = c.op != Op::Dispatch && c.op != Op::DispatchIndirect;
			Drawn d;
			d.op = c.op;
			d.n = c.n;
			d.indirect = c.a;
			d.bound = gfx ? st.gfx : st.cmp;
			d.rp = st.rp;
			d.fb = st.fb;
			d.area = st.area;
			d.cb = cbid;
			d.label = st.labels.empty() ? "" : st.labels.back();
			checkBound( d.bound, d, gfx );
			if ( ( c.op == Op::DrawIndexed || c.op == Op::DrawIndexedIndirect ) && !d.bound.ib )
				error( "draw", std::string{ opname( c.op ) } + ": no index buffer bound" );
			if ( w->onDraw )
				w->onDraw( d );
			w->drawn.push_back( std::move( d ) );
			break;
		}
		case Op::BeginRP:
		{
			st.rp = c.a;
			st.fb = c.b;
			st.area = c.area;
			auto rit = w->renderPasses.find( c.a );
			auto fit = w->framebuffers.find( c.b );
			if ( rit == w->renderPasses.end() || fit == w->framebuffers.end() )
			{
				error( "life", "BeginRP: destroyed render pass or framebuffer" );
				break;
			}
			syncRp( rit->second, fit->second, true, "render pass " + ( st.labels.empty() ? std::string{} : st.labels.back() ) );
			for ( size_t i = 0; i < rit->second.attaches.size() && i < fit->second.views.size(); ++i )
			{
				auto & a = rit->second.attaches[i];
				auto vit = w->views.find( fit->second.views[i] );
				if ( vit == w->views.end() ) { error( "life", "BeginRP: destroyed view" ); continue; }
				u64 img = h( vit->second.info.image );
				auto iit = w->images.find( img );
				if ( iit == w->images.end() ) { error( "life", "BeginRP: destroyed image" ); continue; }
				auto r = vit->second.info.subresourceRange;
				r.aspectMask = aspectMaskOf( iit->second.info.format );
				for ( auto k : subsOf( iit->second, r ) )
				{
					if ( a.initialLayout != VK_IMAGE_LAYOUT_UNDEFINED )
						wantLayout( img, k, a.initialLayout, "BeginRP attachment " + std::to_string( i ) );
					auto & s = iit->second.subs[k];
					auto op = k.aspect == 2 ? a.stencilLoadOp : a.loadOp;
					if ( a.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED )
						std::fill( s.texels.begin(), s.texels.end(), UNDEF );
					if ( op != VK_ATTACHMENT_LOAD_OP_LOAD && k.layer - r.baseArrayLayer < fit->second.layers )
					{
						u64 v = op == VK_ATTACHMENT_LOAD_OP_CLEAR ? ( i < c.clears.size() ? clearVal( c.clears[i], a.format, k.aspect ) : 0 ) : UNDEF;
						for ( int y = c.area.offset.y; y < c.area.offset.y + int( c.area.extent.height ); ++y )
							for ( int x = c.area.offset.x; x < c.area.offset.x + int( c.area.extent.width ); ++x )
								if ( auto t = texel( s, x, y, 0 ) )
									*t = v;
					}
					for ( auto & sp : rit->second.subpasses )
					{
						for ( auto & ref : sp.colour )
							if ( ref.attachment == i )
								s.layout = ref.layout;
						if ( sp.hasDepth && sp.depth.attachment == i )
							s.layout = sp.depth.layout;
					}
				}
			}
			break;
		}
		case Op::EndRP:
		{
			auto rit = w->renderPasses.find( c.a );
			auto fit = w->framebuffers.find( c.b );
			st.rp = st.fb = 0;
			if ( rit == w->renderPasses.end() || fit == w->framebuffers.end() )
				break;
			syncRp( rit->second, fit->second, false, "render pass " + ( st.labels.empty() ? std::string{} : st.labels.back() ) );
			for ( size_t i = 0; i < rit->second.attaches.size() && i < fit->second.views.size(); ++i )
			{
				auto & a = rit->second.attaches[i];
				auto vit = w->views.find( fit->second.views[i] );
				if ( vit == w->views.end() ) continue;
				auto iit = w->images.find( h( vit->second.info.image ) );
				if ( iit == w->images.end() ) continue;
				auto r = vit->second.info.subresourceRange;
				r.aspectMask = aspectMaskOf( iit->second.info.format );
				for ( auto k : subsOf( iit->second, r ) )
				{
					auto & s = iit->second.subs[k];
					s.layout = a.finalLayout;
					auto op = k.aspect == 2 ? a.stencilStoreOp : a.storeOp;
					if ( op == VK_ATTACHMENT_STORE_OP_DONT_CARE && k.layer - r.baseArrayLayer < fit->second.layers )
						for ( int y = st.area.offset.y; y < st.area.offset.y + int( st.area.extent.height ); ++y )
							for ( int x = st.area.offset.x; x < st.area.offset.x + int( st.area.extent.width ); ++x )
								if ( auto t = texel( s, x, y, 0 ) )
									*t = UNDEF;
				}
			}
			break;
		}
		case Op::ResetQuery:
			if ( auto it = w->queryPools.find( c.a ); it != w->queryPools.end() )
				for ( u64 i = c.n[0]; i < c.n[0] + c.n[1] && i < it->second.q.size(); ++i )
					it->second.q[i] = { true, false, 0 };
			break;
		case Op::WriteTs:
			if ( auto it = w->queryPools.find( c.a ); it != w->queryPools.end() && c.n[0] < it->second.q.size() )
			{
				auto & q = it->second.q[c.n[0]];
				if ( !q.reset || q.available )
					error( "query", "WriteTimestamp: query " + std::to_string( c.n[0] ) + " was not reset" );
				w->clock += 10;
				q.available = true;
				q.value = w->clock;
			}
			break;
		case Op::Barrier:
			if ( w->syncCheck )
				syncBarrier( c, VkPipelineStageFlags( c.n[0] ), VkPipelineStageFlags( c.n[1] ), "a barrier to " + ( st.labels.empty() ? std::string{} : st.labels.back() ) );
			for ( auto & b : c.ib )
			{
				auto it = w->images.find( h( b.image ) );
				if ( it == w->images.end() ) { error( "life", "Barrier: destroyed image" ); continue; }
				for ( auto k : subsOf( it->second, b.subresourceRange ) )
				{
					auto & s = it->second.subs[k];
					if ( b.oldLayout == VK_IMAGE_LAYOUT_UNDEFINED )
						std::fill( s.texels.begin(), s.texels.end(), UNDEF );
					else
						wantLayout( h( b.image ), k, b.oldLayout, "Barrier oldLayout (to " + str( b.newLayout ) + ")" );
					s.layout = b.newLayout;
				}
			}
			break;
		case Op::Blit:
		{
			auto si = w->images.find( c.a ), di = w->images.find( c.b );
			if ( si == w->images.end() || di == w->images.end() ) break;
			for ( auto & r : c.blits )
			{
				for ( auto k : layersOf( si->second, r.srcSubresource ) ) { wantLayout( c.a, k, c.la, "Blit src" ); syncImage( c.a, k, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false, "blit" ); }
				for ( auto k : layersOf( di->second, r.dstSubresource ) ) { wantLayout( c.b, k, c.lb, "Blit dst" ); syncImage( c.b, k, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "blit" ); }
				copyRegions( si->second, di->second, r.srcSubresource, r.dstSubresource, [&]( Sub & s, Sub & d )
					{
						auto src = s.texels;
						Sub tmp = s;
						Box db = mkbox2( r.dstOffsets );
						auto map = []( int v, int d0, int d1, int s0, int s1 ) { double t = ( double( v ) + 0.5 - d0 ) / double( d1 - d0 ); return int( std::floor( s0 + t * ( s1 - s0 ) ) ); };
						for ( int z = db.z0; z < db.z1; ++z ) for ( int y = db.y0; y < db.y1; ++y ) for ( int x = db.x0; x < db.x1; ++x )
						{
							int sx = map( x, r.dstOffsets[0].x, r.dstOffsets[1].x, r.srcOffsets[0].x, r.srcOffsets[1].x );
							int sy = map( y, r.dstOffsets[0].y, r.dstOffsets[1].y, r.srcOffsets[0].y, r.srcOffsets[1].y );
							int sz = map( z, r.dstOffsets[0].z, r.dstOffsets[1].z, r.srcOffsets[0].z, r.srcOffsets[1].z );
							auto t = texel( d, x, y, z );
							auto f = texel( tmp, sx, sy, sz );
							if ( t && f ) *t = *f;
						}
					} );
			}
			break;
		}
		case Op::CopyBuffer:
			for ( auto & r : c.bufCopies )
			{
				syncBuffer( c.a, r.srcOffset, r.size, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false, "copy" );
				syncBuffer( c.b, r.dstOffset, r.size, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "copy" );
			}
			for ( auto & r : c.bufCopies )
				for ( VkDeviceSize i = 0; i < r.size; ++i )
				{
					bool u{};
					auto v = byteAt( mk< VkBuffer >( c.a ), r.srcOffset + i, &u );
					writeTexel( c.b, r.dstOffset + i, 1, u ? UNDEF : v );
				}
			break;
		case Op::CopyBufImg: case Op::CopyImgBuf:
		{
			bool toImg = c.op == Op::CopyBufImg;
			u64 im = toImg ? c.b : c.a, bu = toImg ? c.a : c.b;
			auto it = w->images.find( im );
			if ( it == w->images.end() ) break;
			for ( auto & r : c.biCopies )
			{
				u32 rl = r.bufferRowLength ? r.bufferRowLength : r.imageExtent.width;
				u32 ih = r.bufferImageHeight ? r.bufferImageHeight : r.imageExtent.height;
				u32 lz = 0;
				u64 rows = u64( r.imageExtent.depth ) * r.imageSubresource.layerCount * ih;
				syncBuffer( bu, r.bufferOffset, rows * rl * texelSize( it->second.info.format, r.imageSubresource.aspectMask & VK_IMAGE_ASPECT_DEPTH_BIT ? 1 : r.imageSubresource.aspectMask & VK_IMAGE_ASPECT_STENCIL_BIT ? 2 : 0 ), VK_PIPELINE_STAGE_TRANSFER_BIT, VkAccessFlags( toImg ? VK_ACCESS_TRANSFER_READ_BIT : VK_ACCESS_TRANSFER_WRITE_BIT ), !toImg, "copy" );
				for ( auto k : layersOf( it->second, r.imageSubresource ) )
				{
					wantLayout( im, k, toImg ? c.lb : c.la, opname( c.op ) );
					syncImage( im, k, VK_PIPELINE_STAGE_TRANSFER_BIT, VkAccessFlags( toImg ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT ), toImg, "copy" );
					auto & s = it->second.subs[k];
					u32 ts = texelSize( it->second.info.format, k.aspect );
					for ( u32 z = 0; z < r.imageExtent.depth; ++z ) for ( u32 y = 0; y < r.imageExtent.height; ++y ) for ( u32 x = 0; x < r.imageExtent.width; ++x )
					{
						auto t = texel( s, r.imageOffset.x + int( x ), r.imageOffset.y + int( y ), r.imageOffset.z + int( z ) );
						u64 off = r.bufferOffset + ( ( u64( lz ) * r.imageExtent.depth + z ) * ih * rl + u64( y ) * rl + x ) * ts;
						if ( !t ) continue;
						if ( toImg ) *t = readTexel( bu, off, ts );
						else writeTexel( bu, off, ts, *t );
					}
					++lz;
				}
			}
			break;
		}
		case Op::CopyImg:
		{
			auto si = w->images.find( c.a ), di = w->images.find( c.b );
			if ( si == w->images.end() || di == w->images.end() ) break;
			for ( auto & r : c.imgCopies )
			{
				for ( auto k : layersOf( si->second, r.srcSubresource ) ) { wantLayout( c.a, k, c.la, "CopyImage src" ); syncImage( c.a, k, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false, "copy" ); }
				for ( auto k : layersOf( di->second, r.dstSubresource ) ) { wantLayout( c.b, k, c.lb, "CopyImage dst" ); syncImage( c.b, k, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "copy" ); }
				copyRegions( si->second, di->second, r.srcSubresource, r.dstSubresource, [&]( Sub & s, Sub & d )
					{
						Sub tmp = s;
						for ( u32 z = 0; z < r.extent.depth; ++z ) for ( u32 y = 0; y < r.extent.height; ++y ) for ( u32 x = 0; x < r.extent.width; ++x )
						{
							auto t = texel( d, r.dstOffset.x + int( x ), r.dstOffset.y + int( y ), r.dstOffset.z + int( z ) );
							auto f = texel( tmp, r.srcOffset.x + int( x ), r.srcOffset.y + int( y ), r.srcOffset.z + int( z ) );
							if ( t && f ) *t = *f;
						}
					} );
			}
			break;
		}
		case Op::Fill:
		{
			auto it = w->buffers.find( c.a );
			if ( it == w->buffers.end() ) break;
			syncBuffer( c.a, c.n[0], c.n[1], VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "fill" );
			VkDeviceSize sz = c.n[1] == VK_WHOLE_SIZE ? ( it->second.info.size - c.n[0] ) / 4 * 4 : c.n[1];
			for ( VkDeviceSize i = 0; i + 4 <= sz && c.n[0] + i < it->second.info.size; i += 4 )
				writeTexel( c.a, c.n[0] + i, 4, c.n[2] & 0xFFFFFFFFu );
			break;
		}
		case Op::BeginLabel: st.labels.push_back( c.text ); break;
		case Op::EndLabel: if ( !st.labels.empty() ) st.labels.pop_back(); break;
		case Op::ExecCmds:
			for ( u64 s : c.handles )
				execute( s, st, 1 );
			break;
		case Op::Exec:
			if ( c.fn )
				c.fn();
			break;
		default:
			break;
		}
	}
	static void execute( u64 cbid, ExecState & st, int depth )
	{
		auto it = w->commandBuffers.find( cbid );
		if ( it == w->commandBuffers.end() )
		{
			error( "life", "execution of a freed command buffer" );
			return;
		}
		for ( auto & c : it->second.cmds )
			execOne( cbid, c, st );
	}
	static VkResult VKAPI_PTR QueueSubmit( VkQueue q, uint32_t n, VkSubmitInfo const * si, VkFence fence )
	{
		FALL( "QueueSubmit" );
		for ( u32 i = 0; i < n; ++i )
		{
			auto const & s = si[i];
			sane( &s, VK_STRUCTURE_TYPE_SUBMIT_INFO, "vkQueueSubmit" );
			if ( q != queue() )
				error( "submit", "vkQueueSubmit: not the queue which was asked for" );
			Submission sub;
			sub.serial = ++w->serial;
			w->last = {};
			w->last.fence = h( fence );
			for ( u32 k = 0; k < s.signalSemaphoreCount; ++k ) w->last.signals.push_back( h( s.pSignalSemaphores[k] ) );
			for ( u32 k = 0; k < s.commandBufferCount; ++k ) w->last.cbs.push_back( h( s.pCommandBuffers[k] ) );
			for ( u32 k = 0; k < s.waitSemaphoreCount; ++k )
			{
				w->last.waits.emplace_back( h( s.pWaitSemaphores[k] ), s.pWaitDstStageMask ? s.pWaitDstStageMask[k] : 0u );
				if ( auto sem = get< Semaphore >( h( s.pWaitSemaphores[k] ), "vkQueueSubmit(wait)" ) )
				{
					if ( !sem->signaled )
						error( "submit", "vkQueueSubmit: waits on a semaphore nobody signals" );
					sem->signaled = false;
					if ( w->syncCheck && s.pWaitDstStageMask )
						syncAll( { VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, s.pWaitDstStageMask[k], VK_ACCESS_MEMORY_WRITE_BIT, VK_ACCESS_MEMORY_READ_BIT | VK_ACCESS_MEMORY_WRITE_BIT, sem->serial } );
					sub.refs.insert( { int( T::Semaphore ), sem->id } );
				}
				if ( !s.pWaitDstStageMask || !s.pWaitDstStageMask[k] )
					error( "submit", "vkQueueSubmit: empty wait stage mask" );
			}
			ExecState st;
			for ( u32 k = 0; k < s.commandBufferCount; ++k )
			{
				u64 id = h( s.pCommandBuffers[k] );
				auto cb = get< CommandBuffer >( id, "vkQueueSubmit" );
				if ( !cb )
					continue;
				if ( cb->level != VK_COMMAND_BUFFER_LEVEL_PRIMARY )
					error( "submit", "vkQueueSubmit: secondary command buffer" );
				if ( cb->pendingCount && !( cb->usage & VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT ) )
					error( "submit", "vkQueueSubmit: command buffer is already pending" );
				if ( cb->state == CbState::Invalid )
				{
					error( "life", "vkQueueSubmit: the command buffer refers to a destroyed or updated object" );
					continue;
				}
				if ( cb->state != CbState::Executable )
				{
					error( "submit", "vkQueueSubmit: command buffer is not executable" );
					continue;
				}
				++cb->pendingCount;
				sub.cbs.push_back( id );
				sub.refs.insert( cb->refs.begin(), cb->refs.end() );
				sub.refs.insert( { int( T::CommandBuffer ), id } );
				sub.refs.insert( { int( T::CommandPool ), cb->pool } );
				execute( id, st );
				if ( cb->usage & VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT )
					cb->state = CbState::Invalid;
			}
			for ( u32 k = 0; k < s.signalSemaphoreCount; ++k )
				if ( auto sem = get< Semaphore >( h( s.pSignalSemaphores[k] ), "vkQueueSubmit(signal)" ) )
				{
					if ( sem->signaled )
						error( "submit", "vkQueueSubmit: signals a semaphore already signaled" );
					sem->signaled = true;
					sem->serial = sub.serial;
					sub.refs.insert( { int( T::Semaphore ), sem->id } );
				}
			if ( i + 1 == n && fence )
			{
				if ( auto f = get< Fence >( h( fence ), "vkQueueSubmit" ) )
				{
					if ( f->signaled )
						error( "submit", "vkQueueSubmit: fence is signaled" );
					if ( f->pending )
						error( "submit", "vkQueueSubmit: fence is already pending" );
					f->pending = true;
					f->submission = sub.serial;
					sub.fence = f->id;
					sub.refs.insert( { int( T::Fence ), f->id } );
				}
			}
			w->submissions.push_back( std::move( sub ) );
		}
		return VK_SUCCESS;
	}
	//************************************************************************************************
	HarnessScope::HarnessScope() : old{ w->harness } { w->harness = true; }
	HarnessScope::~HarnessScope() { w->harness = old; }
	VkBuffer makeBuffer( VkDeviceSize size, VkBufferUsageFlags usage, uint8_t const * init )
	{
		HarnessScope hs;
		Memory m;
		m.info.allocationSize = ( size + 255 ) / 256 * 256;
		m.info.memoryTypeIndex = 0;
		m.bytes.assign( size_t( m.info.allocationSize ), 0 );
		m.def.assign( size_t( m.info.allocationSize ), init ? 1 : 0 );
		if ( init )
			std::copy( init, init + size, m.bytes.begin() );
		u64 mem = create( std::move( m ) ).id;
		Buffer b;
		b.info.size = size;
		b.info.usage = usage;
		b.mem = mem;
		return mk< VkBuffer >( create( std::move( b ) ).id );
	}
	VkBufferView makeBufferView( VkBuffer buffer, VkDeviceSize off, VkDeviceSize range )
	{
		HarnessScope hs;
		BufferView v;
		v.buffer = h( buffer );
		v.off = off;
		v.range = range;
		return mk< VkBufferView >( create( std::move( v ) ).id );
	}
	VkShaderModule makeModule( char const * name )
	{
		HarnessScope hs;
		ShaderModule m;
		m.label = name;
		return mk< VkShaderModule >( create( std::move( m ) ).id );
	}
	VkSemaphore makeSemaphore( bool signaled )
	{
		HarnessScope hs;
		Semaphore s;
		s.signaled = signaled;
		return mk< VkSemaphore >( create( std::move( s ) ).id );
	}
	VkQueue queue() { return mk< VkQueue >( 0x77 ); }
	VkDevice device() { return mk< VkDevice >( 0x55 ); }
	VkPipelineCache pipelineCache() { return mk< VkPipelineCache >( 0x66 ); }
	VkAllocationCallbacks const * allocator() { static VkAllocationCallbacks const a{}; return &a; }
	void signalSemaphore( VkSemaphore s )
	{
		if ( auto x = get< Semaphore >( h( s ), "harness signal" ) ) x->signaled = true;
	}
	void consumeSemaphore( VkSemaphore s )
	{
		if ( auto x = get< Semaphore >( h( s ), "returned semaphore" ) )
		{
			if ( !x->signaled )
				error( "submit", "the semaphore returned by the run is not signaled by it" );
			x->signaled = false;
		}
	}
	template< typename F > static void forAll( F f )
	{
		auto each = [&]( auto & m, T t ) { for ( auto & [id, o] : m ) if ( !o.harness ) f( t, o ); };
		each( w->images, T::Image ); each( w->views, T::ImageView ); each( w->buffers, T::Buffer ); each( w->memories, T::Memory ); each( w->samplers, T::Sampler );
		each( w->renderPasses, T::RenderPass ); each( w->framebuffers, T::Framebuffer ); each( w->pipelines, T::Pipeline ); each( w->pipelineLayouts, T::PipelineLayout );
		each( w->setLayouts, T::SetLayout ); each( w->descPools, T::DescPool ); each( w->descSets, T::DescSet ); each( w->commandPools, T::CommandPool );
		each( w->commandBuffers, T::CommandBuffer ); each( w->semaphores, T::Semaphore ); each( w->fences, T::Fence ); each( w->queryPools, T::QueryPool ); each( w->events, T::Event );
	}
	void checkLeaks()
	{
		forAll( []( T t, ObjBase const & o ) { error( "leak", std::string{ tname( t ) } + " is never destroyed" ); } );
	}
	size_t aliveCount()
	{
		size_t n{};
		forAll( [&]( T, ObjBase const & ) { ++n; } );
		return n;
	}
	std::string aliveList()
	{
		std::map< std::string, int > c;
		forAll( [&]( T t, ObjBase const & ) { ++c[tname( t )]; } );
		std::string r;
		for ( auto & [k, v] : c )
			r += k + "x" + std::to_string( v ) + " ";
		return r;
	}
	PFN_vkVoidFunction VKAPI_PTR getProc( VkDevice, char const * name )
	{
		static std::map< std::string, PFN_vkVoidFunction > const table{
#define P( n ) { "vk" #n, PFN_vkVoidFunction( n ) }
			P( CreateGraphicsPipelines ), P( CreateComputePipelines ), P( DestroyPipeline ), P( CreatePipelineLayout ), P( DestroyPipelineLayout ), P( CreateDescriptorSetLayout ), P( DestroyDescriptorSetLayout ),
			P( CreateDescriptorPool ), P( DestroyDescriptorPool ), P( AllocateDescriptorSets ), P( FreeDescriptorSets ), P( CreateBuffer ), P( DestroyBuffer ), P( GetBufferMemoryRequirements ), P( GetImageMemoryRequirements ),
			P( AllocateMemory ), P( FreeMemory ), P( BindBufferMemory ), P( BindImageMemory ), P( MapMemory ), P( UnmapMemory ), P( FlushMappedMemoryRanges ), P( InvalidateMappedMemoryRanges ), P( CreateRenderPass ), P( DestroyRenderPass ),
			P( CreateFramebuffer ), P( DestroyFramebuffer ), P( CreateImage ), P( DestroyImage ), P( CreateImageView ), P( DestroyImageView ), P( CreateSampler ), P( DestroySampler ), P( CreateCommandPool ), P( DestroyCommandPool ),
			P( AllocateCommandBuffers ), P( FreeCommandBuffers ), P( CreateSemaphore ), P( DestroySemaphore ), P( UpdateDescriptorSets ), P( BeginCommandBuffer ), P( EndCommandBuffer ), P( QueueSubmit ), P( CreateQueryPool ), P( DestroyQueryPool ),
			P( GetQueryPoolResults ), P( ResetCommandBuffer ), P( CreateEvent ), P( DestroyEvent ), P( ResetEvent ), P( SetEvent ), P( GetEventStatus ), P( CreateFence ), P( DestroyFence ), P( GetFenceStatus ), P( WaitForFences ), P( ResetFences ),
			P( CmdBindPipeline ), P( CmdBindDescriptorSets ), P( CmdBindVertexBuffers ), P( CmdBindIndexBuffer ), P( CmdClearColorImage ), P( CmdClearDepthStencilImage ), P( CmdDispatch ), P( CmdDispatchIndirect ), P( CmdDraw ), P( CmdDrawIndexed ),
			P( CmdDrawIndexedIndirect ), P( CmdDrawIndirect ), P( CmdBeginRenderPass ), P( CmdEndRenderPass ), P( CmdPushConstants ), P( CmdResetQueryPool ), P( CmdWriteTimestamp ), P( CmdPipelineBarrier ), P( CmdBlitImage ), P( CmdCopyBuffer ),
			P( CmdCopyBufferToImage ), P( CmdCopyImage ), P( CmdCopyImageToBuffer ), P( CmdExecuteCommands ), P( CmdResetEvent ), P( CmdSetEvent ), P( CmdWaitEvents ), P( CmdFillBuffer ),
			P( SetDebugUtilsObjectNameEXT ), P( CmdBeginDebugUtilsLabelEXT ), P( CmdEndDebugUtilsLabelEXT ),
#undef P
		};
		// the names are mostly literals: remember what their addresses stand for
		struct Seen { char const * name{}; char text[48]; PFN_vkVoidFunction fn{}; };
		static thread_local Seen seen[1024];
		auto & s = seen[( uintptr_t( name ) >> 2 ) % 1024];
		if ( s.name == name && !std::strncmp( s.text, name, sizeof( s.text ) ) )
			return s.fn;
		auto it = table.find( name );
		auto fn = it == table.end() ? nullptr : it->second;
		if ( std::strlen( name ) < sizeof( s.text ) )
		{
			s.name = name;
			std::strcpy( s.text, name );
			s.fn = fn;
		}
		return fn;
	}
}
