// Resources: sharing and ownership (R03), device objects as declared (R04), failing device calls (R02).
#include "sim.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>

using namespace sim;
namespace
{
	std::string n2( u64 v ) { return std::to_string( v ); }
	Cats const AllCats{ "desc", "draw", "label", "layout", "leak", "life", "mem", "param", "query", "region", "rp", "submit", "usage" };
	bool same( VkImageSubresourceRange const & a, VkImageSubresourceRange const & b ) { return a.aspectMask == b.aspectMask && a.baseMipLevel == b.baseMipLevel && a.levelCount == b.levelCount && a.baseArrayLayer == b.baseArrayLayer && a.layerCount == b.layerCount; }
	bool same( VkComponentMapping const & a, VkComponentMapping const & b )
	{
		auto n = []( VkComponentSwizzle s, VkComponentSwizzle i ){ return s == VK_COMPONENT_SWIZZLE_IDENTITY ? i : s; };
		return n( a.r, VK_COMPONENT_SWIZZLE_R ) == n( b.r, VK_COMPONENT_SWIZZLE_R ) && n( a.g, VK_COMPONENT_SWIZZLE_G ) == n( b.g, VK_COMPONENT_SWIZZLE_G )
			&& n( a.b, VK_COMPONENT_SWIZZLE_B ) == n( b.b, VK_COMPONENT_SWIZZLE_B ) && n( a.a, VK_COMPONENT_SWIZZLE_A ) == n( b.a, VK_COMPONENT_SWIZZLE_A );
	}
	VkComponentMapping const Swizzled{ VK_COMPONENT_SWIZZLE_B, VK_COMPONENT_SWIZZLE_G, VK_COMPONENT_SWIZZLE_R, VK_COMPONENT_SWIZZLE_ONE };

	//************************************************************************************************
	// R03: every sequence of operations of two caches and two contexts on a few resources
	struct Ops
	{
		Env env;
		std::unique_ptr< crg::GraphContext > second;
		std::unique_ptr< crg::ResourcesCache > cache[2];
		crg::ImageId image[2];
		crg::ImageViewId view[3];
		struct Obj { u64 handle{}; int owner{ -1 }; };  // owner: cache * 2 + context
		std::map< int, Obj > images, views;
		crg::GraphContext & ctx( int i ) { return i ? *second : *env.ctx; }
		Ops()
		{
			second = env.newContext();
			cache[0] = std::make_unique< crg::ResourcesCache >( *env.handler );
			cache[1] = std::make_unique< crg::ResourcesCache >( *env.handler );
			// twins: two images declared alike are two images
			image[0] = env.handler->createImageId( img( "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 2 ) );
			image[1] = env.handler->createImageId( img( "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 2, 2 ) );
			view[0] = env.handler->createViewId( sim::view( "v0", image[0], VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
			auto d = sim::view( "v1", image[0], VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 );
			d.info.components = Swizzled;
			view[1] = env.handler->createViewId( d );
			view[2] = env.handler->createViewId( sim::view( "v2", image[1], VK_IMAGE_VIEW_TYPE_2D, 0, 1, 0, 1 ) );
			mc::check( image[0] != image[1], "two images share an identifier" );
			mc::check( view[0] != view[2], "views of two images share an identifier" );
			mc::check( view[0] != view[1], "views with different component mappings share an identifier" );
		}
		int imageOf( int v ) { return v == 2 ? 1 : 0; }
		bool viewAlive( int i ) { for ( auto & [v, o] : views ) if ( imageOf( v ) == i ) return true; return false; }
		void needImage( int i, int owner )
		{
			if ( images.count( i ) ) return;
			images[i] = { 0, owner };
		}
		void createImage( int c, int x, int i )
		{
			auto h = mv::h( cache[c]->createImage( ctx( x ), image[i] ) );
			mc::check( h, "createImage returns no image" );
			if ( auto it = images.find( i ); it != images.end() )
				mc::check( !it->second.handle || it->second.handle == h, "createImage of an image which exists returns another one" );
			needImage( i, c * 2 + x );
			images[i].handle = h;
			mc::check( mv::w->images.count( h ), "createImage returns an image which isn't alive" );
		}
		void createView( int c, int x, int v )
		{
			auto h = mv::h( cache[c]->createImageView( ctx( x ), view[v] ) );
			mc::check( h, "createImageView returns no view" );
			if ( auto it = views.find( v ); it != views.end() )
				mc::check( it->second.handle == h, "createImageView of a view which exists returns another one" );
			else
				views[v] = { h, c * 2 + x };
			needImage( imageOf( v ), c * 2 + x );
			mc::check( mv::w->views.count( h ), "createImageView returns a view which isn't alive" );
			auto on = mv::h( mv::w->views.at( h ).info.image );
			auto & im = images[imageOf( v )];
			mc::check( !im.handle || im.handle == on, "the view shows another image than the one declared" );
			im.handle = on;
			mc::check( same( mv::w->views.at( h ).info.components, view[v].data->info.components ), "the view has another component mapping than declared" );
		}
		void destroyImage( mc::Choices & ch, int c, int x, int i )
		{
			auto it = images.find( i );
			bool mine = it != images.end() && ( x < 0 ? it->second.owner / 2 == c : it->second.owner == c * 2 + x );
			if ( mine && viewAlive( i ) ) ch.prune();   // the user destroys views first
			auto r = x < 0 ? cache[c]->destroyImage( image[i] ) : cache[c]->destroyImage( ctx( x ), image[i] );
			mc::check( r == mine, std::string{ "destroyImage returns " } + ( r ? "true" : "false" ) + " for an image which the cache " + ( mine ? "owns" : "doesn't own" ) );
			if ( mine ) images.erase( it );
		}
		void destroyView( int c, int x, int v )
		{
			auto it = views.find( v );
			bool mine = it != views.end() && ( x < 0 ? it->second.owner / 2 == c : it->second.owner == c * 2 + x );
			auto r = x < 0 ? cache[c]->destroyImageView( view[v] ) : cache[c]->destroyImageView( ctx( x ), view[v] );
			mc::check( r == mine, std::string{ "destroyImageView returns " } + ( r ? "true" : "false" ) + " for a view which the cache " + ( mine ? "owns" : "doesn't own" ) );
			if ( mine ) views.erase( it );
		}
		void kill( mc::Choices & ch, int c, bool last = false )
		{
			bool owns = last;
			for ( auto m : { &images, &views } )
				for ( auto & [i, o] : *m ) owns = owns || o.owner / 2 == c;
			if ( !owns ) ch.prune();  // the end of a cache which owns nothing
			for ( auto & [i, o] : images )
				if ( o.owner / 2 == c )
					for ( auto & [v, p] : views )
						if ( imageOf( v ) == i && p.owner / 2 != c ) ch.prune();  // the other cache still has views of it
			cache[c].reset();
			for ( auto m : { &images, &views } )
				for ( auto it = m->begin(); it != m->end(); )
					it = it->second.owner / 2 == c ? m->erase( it ) : std::next( it );
			cache[c] = std::make_unique< crg::ResourcesCache >( *env.handler );
		}
		void compare( std::string const & after )
		{
			mc::step();
			noErrors( AllCats, after );
			mc::check( mv::w->images.size() == images.size(), after + ": " + n2( mv::w->images.size() ) + " images are alive instead of " + n2( images.size() ) );
			mc::check( mv::w->views.size() == views.size(), after + ": " + n2( mv::w->views.size() ) + " views are alive instead of " + n2( views.size() ) );
			mc::check( mv::w->memories.size() == images.size(), after + ": " + n2( mv::w->memories.size() ) + " allocations are alive instead of " + n2( images.size() ) );
			std::string s;
			for ( auto & [i, o] : images ) { s += n2( u64( i ) ) + ":" + std::to_string( o.owner ) + " "; mc::check( mv::w->images.count( o.handle ), after + ": an image in use was destroyed" ); }
			s += "|";
			for ( auto & [i, o] : views ) { s += n2( u64( i ) ) + ":" + std::to_string( o.owner ) + " "; mc::check( mv::w->views.count( o.handle ), after + ": a view in use was destroyed" ); }
			mc::state( s );
		}
	};
	void ownership( mc::Choices & ch )
	{
		Ops o;
		// the pairs ( cache, context ) which act
		static int const who[3][2]{ { 0, 0 }, { 0, 1 }, { 1, 0 } };
		int depth = mc::thorough() ? 6 : 5;
		if ( ch.flip( "handles are reused" ) ) { mv::w->reuse = true; --depth; }
		for ( int i = 0; i < depth; ++i )
		{
			int const nres = 2;
			int k = ch.pick( 4 + 3 * ( 2 + 2 * nres ), "operation" );
			if ( !i && ( k < 4 || ( k - 4 ) / 3 == 1 || ( ( k - 4 ) / 3 > 1 && ( k - 4 ) / 3 % 2 ) ) ) ch.prune();  // something is made first
			std::string s;
			if ( k == 0 ) break;
			if ( k == 1 || k == 2 ) { s = "cache " + n2( u64( k - 1 ) ) + " ends"; ch.note( s ); o.kill( ch, k - 1 ); }
			else if ( k == 3 )
			{
				bool im = ch.flip( "image" );
				s = im ? "destroyImage without context" : "destroyImageView without context";
				ch.note( s );
				if ( im ) o.destroyImage( ch, 0, -1, 0 ); else o.destroyView( 0, -1, 0 );
			}
			else
			{
				k -= 4;
				auto w = who[k % 3];
				k /= 3;
				s = "cache " + n2( u64( w[0] ) ) + " context " + n2( u64( w[1] ) ) + " ";
				if ( k == 0 ) { s += "createImage 0"; ch.note( s ); o.createImage( w[0], w[1], 0 ); }
				else if ( k == 1 ) { s += "destroyImage 0"; ch.note( s ); o.destroyImage( ch, w[0], w[1], 0 ); }
				else
				{
					int v = ( k - 2 ) / 2 ? ( i % 2 ? 2 : 1 ) : 0;
					if ( k % 2 ) { s += "destroyImageView " + n2( u64( v ) ); ch.note( s ); o.destroyView( w[0], w[1], v ); }
					else { s += "createImageView " + n2( u64( v ) ); ch.note( s ); o.createView( w[0], w[1], v ); }
				}
			}
			o.compare( "after " + s );
		}
		// the caches end: nothing is left
		for ( int c : { 1, 0 } ) { o.kill( ch, c, true ); o.compare( "after the end of cache " + n2( u64( c ) ) ); o.cache[c].reset(); }
		o.second.reset();
		o.env.close( true );
		noErrors( AllCats, "at the end" );
		mc::check( sink().errors.empty(), "an error is logged: " + ( sink().errors.empty() ? "" : sink().errors[0] ) );
		mc::compared();
	}
	// identifiers of views: equal exactly for views which show the same thing the same way
	void viewIds( mc::Choices & ch )
	{
		Env env;
		crg::ImageId images[2]{ env.handler->createImageId( img( "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 3, 3 ) ), env.handler->createImageId( img( "i", VK_FORMAT_R8G8B8A8_UNORM, 4, 4, 3, 3 ) ) };
		mc::check( images[0] != images[1], "two images share an identifier" );
		auto make = [&]( int b, std::string name )
		{
			crg::ImageViewData d{ std::move( name ), images[b & 1], VkImageViewCreateFlags( b >> 1 & 1 ), b >> 2 & 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D
				, b >> 3 & 1 ? VK_FORMAT_R8G8B8A8_SRGB : VK_FORMAT_R8G8B8A8_UNORM
				, { VkImageAspectFlags( b >> 4 & 1 ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_COLOR_BIT ), u32( b >> 5 & 1 ), 1u + u32( b >> 6 & 1 ), u32( b >> 7 & 1 ), 1u + u32( b >> 8 & 1 ) } };
			if ( b >> 9 & 1 ) d.info.components = Swizzled;
			return d;
		};
		int base = ch.pick( 64, "first view" ) * 16;
		int const N = 1024;
		std::map< crg::ImageViewId, int > ids;
		std::vector< crg::ImageViewId > of( N );
		for ( int i = 0; i < N; ++i )
		{
			int b = ( i + base ) % N;
			auto id = env.handler->createViewId( make( b, "a" + n2( u64( b ) ) ) );
			auto [it, ins] = ids.emplace( id, b );
			mc::check( ins, "views " + n2( u64( b ) ) + " and " + n2( u64( it->second ) ) + " (one bit per field: image flags type format aspect mip mips layer layers components) differ and share an identifier" );
			of[size_t( b )] = id;
		}
		for ( int i = N - 1; i >= 0; --i )
		{
			mc::step();
			auto id = env.handler->createViewId( make( i, "b" ) );
			mc::check( id == of[size_t( i )], "the same view gets two identifiers" );
			auto d = make( i, "" );
			auto & w = id.data->info;
			mc::check( id.data->image == d.image && w.flags == d.info.flags && w.viewType == d.info.viewType && w.format == d.info.format && same( w.subresourceRange, d.info.subresourceRange ) && same( w.components, d.info.components )
				, "an identifier of a view stands for another view" );
		}
		env.close( true );
		mc::outcome( n2( u64( base ) ) );
		mc::compared();
	}
	// samplers and full screen triangles of the caches
	struct SamplerVar { crg::SamplerDesc d; };
	std::vector< crg::SamplerDesc > samplerVariants()
	{
		std::vector< crg::SamplerDesc > r;
		auto add = [&]( auto f ) { crg::SamplerDesc d; f( d ); r.push_back( d ); };
		add( []( auto & ){} );
		add( []( auto & d ){ d.magFilter = VK_FILTER_LINEAR; } );
		add( []( auto & d ){ d.minFilter = VK_FILTER_LINEAR; } );
		add( []( auto & d ){ d.magFilter = d.minFilter = VK_FILTER_LINEAR; } );
		add( []( auto & d ){ d.mipmapMode = VK_SAMPLER_MIPMAP_MODE_LINEAR; } );
		for ( auto m : { VK_SAMPLER_ADDRESS_MODE_REPEAT, VK_SAMPLER_ADDRESS_MODE_MIRRORED_REPEAT, VK_SAMPLER_ADDRESS_MODE_CLAMP_TO_BORDER } )
		{
			add( [m]( auto & d ){ d.addressModeU = m; } );
			add( [m]( auto & d ){ d.addressModeV = m; } );
			add( [m]( auto & d ){ d.addressModeW = m; } );
			add( [m]( auto & d ){ d.addressModeU = d.addressModeV = m; } );
			add( [m]( auto & d ){ d.addressModeU = d.addressModeW = m; } );
		}
		add( []( auto & d ){ d.mipLodBias = 1.0f; } );
		add( []( auto & d ){ d.mipLodBias = -1.0f; } );
		add( []( auto & d ){ d.minLod = 0.0f; } );
		add( []( auto & d ){ d.minLod = 1.0f; } );
		add( []( auto & d ){ d.maxLod = 0.0f; } );
		add( []( auto & d ){ d.maxLod = 1.0f; } );
		add( []( auto & d ){ d.minLod = 1.0f; d.maxLod = 1.0f; } );
		return r;
	}
	void checkSampler( u64 h, crg::SamplerDesc const & d )
	{
		auto it = mv::w->samplers.find( h );
		mc::check( it != mv::w->samplers.end(), "no such sampler on the device" );
		auto & i = it->second.info;
		mc::check( i.magFilter == d.magFilter && i.minFilter == d.minFilter && i.mipmapMode == d.mipmapMode && i.addressModeU == d.addressModeU && i.addressModeV == d.addressModeV
			&& i.addressModeW == d.addressModeW && i.mipLodBias == d.mipLodBias && i.minLod == d.minLod && i.maxLod == d.maxLod, "the sampler isn't the one described" );
		mc::check( !i.compareEnable && !i.anisotropyEnable, "the sampler compares or is anisotropic" );
	}
	void samplers( mc::Choices & ch )
	{
		Env env;
		auto second = env.newContext();
		auto vs = samplerVariants();
		std::unique_ptr< crg::ResourcesCache > cache[2]{ std::make_unique< crg::ResourcesCache >( *env.handler ), std::make_unique< crg::ResourcesCache >( *env.handler ) };
		std::map< std::tuple< int, int, int >, u64 > made;
		int a = ch.pick( int( vs.size() ), "first" ), b = ch.pick( int( vs.size() ), "second" );
		int who = ch.pick( 3, "who makes the second" );
		auto get = [&]( int v, int w ) { auto & c = *cache[w == 2]; return mv::h( c.createSampler( w == 1 ? *second : *env.ctx, vs[size_t( v )] ) ); };
		auto ha = get( a, 0 );
		checkSampler( ha, vs[size_t( a )] );
		auto hb = get( b, who );
		checkSampler( hb, vs[size_t( b )] );
		checkSampler( ha, vs[size_t( a )] );
		mc::check( get( a, 0 ) == ha && get( b, who ) == hb, "a sampler which exists is made again" );
		if ( !who && a == b ) mc::check( ha == hb, "one description, two samplers" );
		if ( who == 2 )
		{
			cache[0].reset();
			checkSampler( hb, vs[size_t( b )] );
		}
		mc::step( 4 );
		noErrors( AllCats, "samplers" );
		cache[1].reset();
		cache[0].reset();
		second.reset();
		env.close( true );
		noErrors( AllCats, "at the end" );
		mc::check( sink().errors.empty(), "an error is logged" );
		mc::outcome( n2( u64( a ) ) + "/" + n2( u64( b ) ) );
		mc::compared();
	}

	//************************************************************************************************
	// R04: device objects are the declared ones
	float f32( std::vector< uint8_t > const & b, size_t off ) { float r; if ( off + 4 > b.size() ) mc::fail( "vertex data out of the buffer" ); std::memcpy( &r, b.data() + off, 4 ); return r; }
	void quads( mc::Choices & ch )
	{
		Env env;
		static u32 const bits[]{ 7, 2, 4, 6, 3, 5 };
		mv::w->bufferTypeBits = bits[ch.pick( 6, "memory types of buffers" )];
		auto second = env.newContext();
		auto cache = std::make_unique< crg::ResourcesCache >( *env.handler );
		int order = ch.pick( 8, "first" );
		bool two = ch.flip( "two contexts" );
		std::map< crg::VertexBuffer const *, int > seen;
		for ( int n = 0; n < 10; ++n )
		{
			int k = ( n + order ) % 8;
			bool tex = k & 1, iu = k & 2, iv = k & 4;
			std::string what = std::string{ "triangle" } + ( tex ? " with coordinates" : "" ) + ( iu ? " U inverted" : "" ) + ( iv ? " V inverted" : "" );
			auto & vb = cache->createQuadTriVertexBuffer( two && n % 2 ? *second : *env.ctx, tex, crg::Texcoord{ iu, iv } );
			auto [it, ins] = seen.emplace( &vb, k );
			mc::check( it->second == k, what + ": gets the buffer of another variant" );
			if ( n >= 8 && !two ) mc::check( !ins, what + ": made again" );
			auto bh = mv::h( vb.buffer.buffer() );
			auto bit = mv::w->buffers.find( bh );
			mc::check( bit != mv::w->buffers.end(), what + ": no buffer on the device" );
			mc::check( bit->second.info.usage & VK_BUFFER_USAGE_VERTEX_BUFFER_BIT, what + ": not a vertex buffer" );
			auto mit = mv::w->memories.find( bit->second.mem );
			mc::check( mit != mv::w->memories.end() && mv::h( vb.memory ) == bit->second.mem, what + ": not bound to its memory" );
			auto & m = mit->second;
			mc::check( !m.mapped && !m.dirty, what + ": memory left mapped or not flushed" );
			mc::check( vb.vertexBindings.size() == 1 && vb.vertexBindings[0].binding == 0 && vb.vertexBindings[0].inputRate == VK_VERTEX_INPUT_RATE_VERTEX, what + ": bindings" );
			mc::check( vb.inputState.vertexBindingDescriptionCount == vb.vertexBindings.size() && vb.inputState.pVertexBindingDescriptions == vb.vertexBindings.data()
				&& vb.inputState.vertexAttributeDescriptionCount == vb.vertexAttribs.size() && vb.inputState.pVertexAttributeDescriptions == vb.vertexAttribs.data(), what + ": the input state isn't the one of the attributes" );
			mc::check( vb.vertexAttribs.size() == ( tex ? 2u : 1u ), what + ": " + n2( vb.vertexAttribs.size() ) + " attributes" );
			float p[3][2], t[3][2];
			auto stride = vb.vertexBindings[0].stride;
			mc::check( u64( stride ) * 3 <= bit->second.info.size, what + ": buffer too small" );
			for ( u32 a = 0; a < vb.vertexAttribs.size(); ++a )
			{
				auto & at = vb.vertexAttribs[a];
				mc::check( at.location == a && at.binding == 0 && at.format == VK_FORMAT_R32G32_SFLOAT && at.offset + 8 <= stride, what + ": attribute " + n2( a ) );
				for ( u32 v = 0; v < 3; ++v )
					for ( u32 c = 0; c < 2; ++c )
						( a ? t : p )[v][c] = f32( m.bytes, bit->second.memOff + v * stride + at.offset + c * 4 );
			}
			// the triangle covers the screen
			auto area = []( float const * a, float const * b, float x, float y ) { return ( b[0] - a[0] ) * ( y - a[1] ) - ( b[1] - a[1] ) * ( x - a[0] ); };
			float total = area( p[0], p[1], p[2][0], p[2][1] );
			mc::check( total != 0.0f, what + ": flat" );
			for ( int cx = 0; cx < 3; ++cx )
				for ( int cy = 0; cy < 3; ++cy )
				{
					float x = float( cx - 1 ), y = float( cy - 1 );
					float w0 = area( p[1], p[2], x, y ) / total, w1 = area( p[2], p[0], x, y ) / total, w2 = area( p[0], p[1], x, y ) / total;
					mc::step();
					mc::check( w0 > -1e-5f && w1 > -1e-5f && w2 > -1e-5f, what + ": doesn't cover the screen" );
					if ( tex )
					{
						float u = w0 * t[0][0] + w1 * t[1][0] + w2 * t[2][0], vv = w0 * t[0][1] + w1 * t[1][1] + w2 * t[2][1];
						float eu = ( x + 1.0f ) / 2, ev = ( y + 1.0f ) / 2;
						if ( iu ) eu = 1.0f - eu;
						if ( iv ) ev = 1.0f - ev;
						mc::check( std::abs( u - eu ) < 1e-4f && std::abs( vv - ev ) < 1e-4f, what + ": at (" + std::to_string( x ) + "," + std::to_string( y ) + ") the coordinates are (" + std::to_string( u ) + "," + std::to_string( vv ) + ") instead of (" + std::to_string( eu ) + "," + std::to_string( ev ) + ")" );
					}
				}
			noErrors( AllCats, what );
		}
		cache.reset();
		second.reset();
		env.close( true );
		noErrors( AllCats, "at the end" );
		mc::check( sink().errors.empty(), "an error is logged" );
		mc::outcome( n2( u64( order ) ) );
		mc::state( mv::hash( mv::w->bufferTypeBits * 16 + u64( order ), two ) );
		mc::compared();
	}
	void memoryTypes( mc::Choices & ch )
	{
		Env env;
		static VkMemoryPropertyFlags const props[]{ 0, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT
			, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT | VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT };
		auto mem = mv::defaultMemProps();
		int n = ch.pick( 5, "memory types" );
		mem.memoryTypeCount = u32( n );
		for ( int i = 0; i < n; ++i )
			mem.memoryTypes[i] = { props[ch.pick( 5, "properties" )], 0 };
		for ( int i = n; i < 32; ++i ) mem.memoryTypes[i] = { ~0u, 0 };  // not a type of this device
		crg::GraphContext ctx{ mv::device(), mv::pipelineCache(), mv::allocator(), mem, mv::defaultProps(), false, &mv::getProc };
		for ( auto want : props )
			for ( u32 bits = 0; bits < ( 1u << ( n + 1 ) ); ++bits )
			{
				bool possible = false;
				for ( int i = 0; i < n; ++i ) possible = possible || ( ( bits >> i & 1 ) && ( mem.memoryTypes[i].propertyFlags & want ) == want );
				mc::step();
				std::string what = "types " + n2( bits ) + " properties " + n2( want );
				try
				{
					auto r = ctx.deduceMemoryType( bits, want );
					mc::check( possible, what + ": no type fits, yet " + n2( r ) + " is returned" );
					mc::check( r < u32( n ) && ( bits >> r & 1 ) && ( mem.memoryTypes[r].propertyFlags & want ) == want, what + ": type " + n2( r ) + " doesn't fit" );
				}
				catch ( crg::Exception & )
				{
					mc::check( !possible, what + ": a type fits, yet none is found" );
				}
			}
		env.close( true );
		mc::outcome( n2( u64( n ) ) );
		mc::state( mv::hash( 77, u64( n ) ) );
		mc::compared();
	}
	void images( mc::Choices & ch )
	{
		Env env;
		static u32 const bits[]{ 7, 1, 3, 5, 6 };
		auto tb = bits[ch.pick( 5, "memory types of images" )];
		mv::w->imageTypeBits = tb;
		auto cache = std::make_unique< crg::ResourcesCache >( *env.handler );
		int type = ch.pick( 3, "image type" );
		static VkFormat const fs[]{ VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32G32B32A32_SFLOAT, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT };
		auto f = fs[type == 1 ? ch.pick( 4, "format" ) : ch.pick( 2, "format" )];
		u32 mips = 1u + u32( ch.pick( 3, "mips" ) ), layers = type == 2 ? 1u : 1u + u32( ch.pick( 3, "layers" ) );
		u32 w = 4u + u32( ch.pick( 2, "width" ) ) * 4u, hg = type ? 4u + u32( ch.pick( 2, "height" ) ) * 12u : 1u, d = type == 2 ? 4u : 1u;
		auto flags = type == 1 && w == hg && ch.flip( "cube" ) ? VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT : 0;
		if ( flags ) layers = 6;
		auto data = img( "i", f, w, hg, mips, layers, VkImageType( type ), d, VkImageCreateFlags( flags ) );
		if ( ch.flip( "other usage" ) ) data.info.usage = VK_IMAGE_USAGE_SAMPLED_BIT;
		auto id = env.handler->createImageId( data );
		// a view of a choice of mips and layers
		u32 m0 = u32( ch.pick( int( mips ), "mip" ) ), l0 = u32( ch.pick( int( std::min( layers, 3u ) ), "layer" ) );
		u32 mn = 1u + u32( ch.pick( int( mips - m0 ), "mip count" ) ), ln = flags ? 6u - l0 : 1u + u32( ch.pick( int( layers - l0 ), "layer count" ) );
		static VkImageViewType const single[]{ VK_IMAGE_VIEW_TYPE_1D, VK_IMAGE_VIEW_TYPE_2D, VK_IMAGE_VIEW_TYPE_3D };
		static VkImageViewType const array[]{ VK_IMAGE_VIEW_TYPE_1D_ARRAY, VK_IMAGE_VIEW_TYPE_2D_ARRAY, VK_IMAGE_VIEW_TYPE_3D };
		auto vt = flags && ln == 6 ? VK_IMAGE_VIEW_TYPE_CUBE : ln > 1 ? array[type] : single[type];
		auto vd = sim::view( "v", id, vt, m0, mn, l0, ln );
		if ( ch.flip( "swizzle" ) ) vd.info.components = Swizzled;
		auto vid = env.handler->createViewId( vd );
		bool possible = tb & 1;  // the only device local type of the device
		try
		{
			auto ih = mv::h( cache->createImage( *env.ctx, id ) );
			mc::check( possible, "an image lives in memory which isn't local to the device" );
			auto vh = mv::h( cache->createImageView( *env.ctx, vid ) );
			auto & i = mv::w->images.at( ih ).info;
			mc::check( i.imageType == VkImageType( type ) && i.format == f && i.extent.width == w && i.extent.height == hg && i.extent.depth == d && i.mipLevels == mips && i.arrayLayers == layers
				&& i.usage == data.info.usage && i.flags == VkImageCreateFlags( flags ) && i.samples == VK_SAMPLE_COUNT_1_BIT && i.tiling == VK_IMAGE_TILING_OPTIMAL && i.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED, "the image isn't the declared one" );
			auto mem = mv::w->memories.find( mv::w->images.at( ih ).mem );
			mc::check( mem != mv::w->memories.end() && mem->second.info.memoryTypeIndex == 0, "the image isn't bound to device local memory" );
			auto & v = mv::w->views.at( vh ).info;
			mc::check( mv::h( v.image ) == ih && v.viewType == vt && v.format == f && v.flags == 0 && same( v.subresourceRange, vd.info.subresourceRange ) && same( v.components, vd.info.components ), "the view isn't the declared one" );
		}
		catch ( crg::Exception & )
		{
			mc::check( !possible, "an image which can be made isn't" );
		}
		mc::step();
		noErrors( AllCats, "creation" );
		cache.reset();
		env.close( true );
		noErrors( AllCats, "at the end" );
		mc::check( sink().errors.size() == ( possible ? 0u : sink().errors.size() ), "an error is logged" );
		mc::state( mv::hash( u64( type ) * 1000 + u64( f ), u64( m0 * 1000 + mn * 100 + l0 * 10 + ln ) + 10000 * tb ) );
		mc::outcome( n2( u64( type ) ) + "/" + n2( u64( f ) ) + "/" + n2( mips ) + "/" + n2( layers ) );
		mc::compared();
	}
#include "faults.hpp"
}
int main( int argc, char ** argv )
{
	return mc::mainLoop( argc, argv, {
		{ "R02", { { "resources", faultResources } } },
		{ "R03", { { "ownership", ownership }, { "views", viewIds }, { "samplers", samplers } } },
		{ "R04", { { "images", images }, { "memory", memoryTypes }, { "triangle", quads } } },
	} );
}
