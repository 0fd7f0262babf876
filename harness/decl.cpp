// What the passes hold after the declarations made on them, and the merging of views (A01).
#include "frames.hpp"
#include <algorithm>
#include <cstring>

using namespace sim;
namespace
{
	std::string n2( u64 v ) { return std::to_string( v ); }

	//************************************************************************************************
	// the meaning of each declaration, as its documentation gives it
	enum Use { Smp, Sto, Tra, Imp, Col, Dep, Ste, DeS, Uni };
	struct KindInfo
	{
		char const * name;
		Use use;
		bool in, out, clear, texel;
	};
	KindInfo const imageKinds[]{
		{ "sampled", Smp, true, false, false, false },
		{ "implicit colour", Imp, true, false, false, false },
		{ "implicit depth", Imp, true, false, false, false },
		{ "implicit depth and stencil", Imp, true, false, false, false },
		{ "input storage", Sto, true, false, false, false },
		{ "output storage", Sto, false, true, false, false },
		{ "clearable storage", Sto, false, true, true, false },
		{ "in/out storage", Sto, true, true, false, false },
		{ "input transfer", Tra, true, false, false, false },
		{ "output transfer", Tra, false, true, false, false },
		{ "in/out transfer", Tra, true, true, false, false },
		{ "input colour", Col, true, false, false, false },
		{ "in/out colour", Col, true, true, false, false },
		{ "output colour", Col, false, true, false, false },
		{ "input depth", Dep, true, false, false, false },
		{ "in/out depth", Dep, true, true, false, false },
		{ "output depth", Dep, false, true, false, false },
		{ "input stencil", Ste, true, false, false, false },
		{ "in/out stencil", Ste, true, true, false, false },
		{ "output stencil", Ste, false, true, false, false },
		{ "input depth and stencil", DeS, true, false, false, false },
		{ "in/out depth and stencil", DeS, true, true, false, false },
		{ "output depth and stencil", DeS, false, true, false, false },
	};
	KindInfo const bufferKinds[]{
		{ "implicit", Imp, true, false, false, false },
		{ "uniform", Uni, true, false, false, false },
		{ "input storage", Sto, true, false, false, false },
		{ "output storage", Sto, false, true, false, false },
		{ "clearable storage", Sto, false, true, true, false },
		{ "in/out storage", Sto, true, true, false, false },
		{ "implicit view", Imp, true, false, false, true },
		{ "uniform view", Uni, true, false, false, true },
		{ "input storage view", Sto, true, false, false, true },
		{ "output storage view", Sto, false, true, false, true },
		{ "clearable storage view", Sto, false, true, true, true },
		{ "in/out storage view", Sto, true, true, false, true },
		{ "input transfer", Tra, true, false, false, false },
		{ "output transfer", Tra, false, true, false, false },
		{ "in/out transfer", Tra, true, true, false, false },
	};
	constexpr int IK = int( sizeof( imageKinds ) / sizeof( *imageKinds ) ), BK = int( sizeof( bufferKinds ) / sizeof( *bufferKinds ) );

	struct Decl
	{
		bool image{};
		int kind{};
		crg::ImageViewIdArray views;
		u32 binding{};
		crg::SamplerDesc sampler{};
		VkClearValue clear{};
		VkPipelineColorBlendAttachmentState blend = crg::DefaultBlendState;
		VkImageLayout layout{};
		bool noTransition{};
		std::vector< VkBuffer > buffers;
		VkBufferView view{};
		VkDeviceSize offset{}, size{};
		crg::AccessState access{};
		KindInfo const & info()const { return image ? imageKinds[kind] : bufferKinds[kind]; }
		bool hasSampler()const { return image && info().use == Smp; }
		bool hasClear()const { return image && info().use >= Col && info().use <= DeS && info().out && !info().in; }
		bool hasBlend()const { return image && info().use == Col && info().out && info().in; }
		bool hasBinding()const { return image ? info().use == Smp || info().use == Sto : info().use == Uni || info().use == Sto; }
		bool hasFlag()const { return info().use == Tra && info().in && info().out; }
	};
	void declare( crg::FramePass & p, Decl const & d, bool asOne )
	{
		auto flag = d.noTransition ? crg::Attachment::Flag::NoTransition : crg::Attachment::Flag::None;
		if ( !d.image )
		{
			crg::Buffer b{ crg::VkBufferArray{ d.buffers.begin(), d.buffers.end() }, "b" };
			switch ( d.kind )
			{
			case 0: p.addImplicitBuffer( b, d.offset, d.size, d.access ); break;
			case 1: p.addUniformBuffer( b, d.binding, d.offset, d.size ); break;
			case 2: p.addInputStorageBuffer( b, d.binding, d.offset, d.size ); break;
			case 3: p.addOutputStorageBuffer( b, d.binding, d.offset, d.size ); break;
			case 4: p.addClearableOutputStorageBuffer( b, d.binding, d.offset, d.size ); break;
			case 5: p.addInOutStorageBuffer( b, d.binding, d.offset, d.size ); break;
			case 6: p.addImplicitBufferView( b, d.view, d.offset, d.size, d.access ); break;
			case 7: p.addUniformBufferView( b, d.view, d.binding, d.offset, d.size ); break;
			case 8: p.addInputStorageBufferView( b, d.view, d.binding, d.offset, d.size ); break;
			case 9: p.addOutputStorageBufferView( b, d.view, d.binding, d.offset, d.size ); break;
			case 10: p.addClearableOutputStorageBufferView( b, d.view, d.binding, d.offset, d.size ); break;
			case 11: p.addInOutStorageBufferView( b, d.view, d.binding, d.offset, d.size ); break;
			case 12: p.addTransferInputBuffer( b, d.offset, d.size ); break;
			case 13: p.addTransferOutputBuffer( b, d.offset, d.size ); break;
			default: if ( d.noTransition ) p.addTransferInOutBuffer( b, d.offset, d.size, flag ); else p.addTransferInOutBuffer( b, d.offset, d.size ); break;
			}
			return;
		}
		auto with = [&]( auto v )
			{
				switch ( d.kind )
				{
				case 0: p.addSampledView( v, d.binding, d.sampler ); break;
				case 1: p.addImplicitColourView( v, d.layout ); break;
				case 2: p.addImplicitDepthView( v, d.layout ); break;
				case 3: p.addImplicitDepthStencilView( v, d.layout ); break;
				case 4: p.addInputStorageView( v, d.binding ); break;
				case 5: p.addOutputStorageView( v, d.binding ); break;
				case 6: p.addClearableOutputStorageView( v, d.binding ); break;
				case 7: p.addInOutStorageView( v, d.binding ); break;
				case 8: p.addTransferInputView( v ); break;
				case 9: p.addTransferOutputView( v ); break;
				case 10: if ( d.noTransition ) p.addTransferInOutView( v, flag ); else p.addTransferInOutView( v ); break;
				case 11: p.addInputColourView( v ); break;
				case 12: p.addInOutColourView( v, d.blend ); break;
				case 13: p.addOutputColourView( v, d.clear ); break;
				case 14: p.addInputDepthView( v ); break;
				case 15: p.addInOutDepthView( v ); break;
				case 16: p.addOutputDepthView( v, d.clear ); break;
				case 17: p.addInputStencilView( v ); break;
				case 18: p.addInOutStencilView( v ); break;
				case 19: p.addOutputStencilView( v, d.clear ); break;
				case 20: p.addInputDepthStencilView( v ); break;
				case 21: p.addInOutDepthStencilView( v ); break;
				default: p.addOutputDepthStencilView( v, d.clear ); break;
				}
			};
		if ( asOne ) with( d.views.front() );
		else with( d.views );
	}
	bool eq( crg::SamplerDesc const & a, crg::SamplerDesc const & b )
	{
		return a.magFilter == b.magFilter && a.minFilter == b.minFilter && a.mipmapMode == b.mipmapMode && a.addressModeU == b.addressModeU && a.addressModeV == b.addressModeV
			&& a.addressModeW == b.addressModeW && a.mipLodBias == b.mipLodBias && a.minLod == b.minLod && a.maxLod == b.maxLod;
	}
	bool eq( VkPipelineColorBlendAttachmentState const & a, VkPipelineColorBlendAttachmentState const & b )
	{
		return a.blendEnable == b.blendEnable && a.srcColorBlendFactor == b.srcColorBlendFactor && a.dstColorBlendFactor == b.dstColorBlendFactor && a.colorBlendOp == b.colorBlendOp
			&& a.srcAlphaBlendFactor == b.srcAlphaBlendFactor && a.dstAlphaBlendFactor == b.dstAlphaBlendFactor && a.alphaBlendOp == b.alphaBlendOp && a.colorWriteMask == b.colorWriteMask;
	}
	bool has( VkFlags v, VkFlags f ) { return ( v & f ) == f; }

	// the attachment is the one the declaration asks for
	void holds( crg::Attachment const & a, Decl const & d, crg::FramePass const & p, std::string const & where )
	{
		auto & k = d.info();
		auto name = where + ": the " + std::string{ k.name } + ( d.image ? " image" : " buffer" );
		auto is = [&]( bool got, bool want, char const * what ) { mc::step(); mc::check( got == want, name + ( want ? " isn't " : " is " ) + what ); };
		is( a.pass == &p, true, "of its pass" );
		is( a.isImage(), d.image, "an image" );
		is( a.isBuffer(), !d.image, "a buffer" );
		is( a.isInput(), k.in, "an input" );
		is( a.isOutput(), k.out, "an output" );
		is( a.isInOut(), k.in && k.out, "an input and output" );
		is( a.isClearable(), k.clear, "clearable" );
		is( a.isClearableImage(), k.clear && d.image, "a clearable image" );
		is( a.isClearableBuffer(), k.clear && !d.image, "a clearable buffer" );
		is( a.isNoTransition(), d.noTransition, "without transition" );
		auto img = [&]( Use u ) { return d.image && k.use == u; };
		auto buf = [&]( Use u ) { return !d.image && k.use == u; };
		is( a.isSampledView(), img( Smp ), "sampled" );
		is( a.isStorageView(), img( Sto ), "a storage image" );
		is( a.isStorageInputView(), img( Sto ) && k.in, "a storage image input" );
		is( a.isStorageOutputView(), img( Sto ) && k.out, "a storage image output" );
		is( a.isTransferView(), img( Tra ), "a transfer image" );
		is( a.isTransferInputView(), img( Tra ) && k.in, "a transfer image input" );
		is( a.isTransferOutputView(), img( Tra ) && k.out, "a transfer image output" );
		is( a.isTransitionView(), img( Imp ), "an implicit image" );
		if ( d.image )
		{
			is( a.isColourAttach(), img( Col ), "a colour attachment" );
			is( a.isColourInputAttach(), img( Col ) && k.in, "a colour input" );
			is( a.isColourOutputAttach(), img( Col ) && k.out, "a colour output" );
			is( a.isColourInOutAttach(), img( Col ) && k.in && k.out, "a colour in/out" );
		}
		auto depth = img( Dep ) || img( DeS ), stencil = img( Ste ) || img( DeS );
		is( a.isDepthAttach(), depth, "a depth attachment" );
		is( a.isDepthInputAttach(), depth && k.in, "a depth input" );
		is( a.isDepthOutputAttach(), depth && k.out, "a depth output" );
		is( a.isDepthInOutAttach(), depth && k.in && k.out, "a depth in/out" );
		is( a.isStencilAttach(), stencil, "a stencil attachment" );
		is( a.isStencilInputAttach(), stencil && k.in, "a stencil input" );
		is( a.isStencilOutputAttach(), stencil && k.out, "a stencil output" );
		is( a.isStencilInOutAttach(), stencil && k.in && k.out, "a stencil in/out" );
		is( a.isDepthStencilInputAttach(), img( DeS ) && k.in, "a depth and stencil input" );
		is( a.isDepthStencilOutputAttach(), img( DeS ) && k.out, "a depth and stencil output" );
		is( a.isDepthStencilInOutAttach(), img( DeS ) && k.in && k.out, "a depth and stencil in/out" );
		is( a.isUniformBuffer(), buf( Uni ), "a uniform buffer" );
		is( a.isUniformBufferView(), buf( Uni ) && k.texel, "a uniform buffer view" );
		is( a.isStorageBuffer(), buf( Sto ), "a storage buffer" );
		is( a.isStorageBufferView(), buf( Sto ) && k.texel, "a storage buffer view" );
		is( a.isTransferBuffer(), buf( Tra ), "a transfer buffer" );
		is( a.isTransferInputBuffer(), buf( Tra ) && k.in, "a transfer buffer input" );
		is( a.isTransferOutputBuffer(), buf( Tra ) && k.out, "a transfer buffer output" );
		is( a.isTransitionBuffer(), buf( Imp ), "an implicit buffer" );
		is( a.isTransitionBufferView(), buf( Imp ) && k.texel, "an implicit buffer view" );
		is( a.isBufferView(), !d.image && k.texel, "a buffer view" );
		if ( d.hasBinding() ) is( a.binding == d.binding, true, "at its binding" );
		// what is accessed, where and how
		VkFlags access{}, stage[2]{ VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT };
		auto add = [&]( VkFlags r, VkFlags w ) { if ( k.in ) access |= r; if ( k.out ) access |= w; };
		auto all = [&]( VkFlags s ) { stage[0] = stage[1] = s; };
		VkFlags more{};  // accesses which may or may not be given
		switch ( k.use )
		{
		case Smp: case Sto: add( VK_ACCESS_SHADER_READ_BIT, VK_ACCESS_SHADER_WRITE_BIT ); break;
		case Tra: add( VK_ACCESS_TRANSFER_READ_BIT, VK_ACCESS_TRANSFER_WRITE_BIT ); all( VK_PIPELINE_STAGE_TRANSFER_BIT ); break;
		case Col: add( VK_ACCESS_COLOR_ATTACHMENT_READ_BIT, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT ); all( VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ); break;
		case Dep: case Ste: case DeS:
			add( VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT );
			more = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
			all( VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT );
			break;
		case Uni: access = k.texel ? VK_ACCESS_SHADER_READ_BIT : VK_ACCESS_UNIFORM_READ_BIT; break;
		default: break;
		}
		if ( k.use == Col ) more = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT;
		if ( buf( Imp ) )
		{
			is( a.getAccessMask() == d.access.access, true, "accessed the way which is asked" );
			is( a.getPipelineStageFlags( false ) == d.access.pipelineStage && a.getPipelineStageFlags( true ) == d.access.pipelineStage, true, "at the stage which is asked" );
		}
		else if ( k.use != Imp )
		{
			is( ( a.getAccessMask() | more ) == ( access | more ) && has( a.getAccessMask(), access ), true, "accessed the way it is used" );
			for ( int c = 0; c < 2; ++c )
				is( has( a.getPipelineStageFlags( c != 0 ), stage[c] ) && !( a.getPipelineStageFlags( c != 0 ) & ~( stage[c] | VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT ) ), true, c ? "at the stage it is used (compute)" : "at the stage it is used (graphics)" );
		}
		if ( d.image )
		{
			is( a.getViewCount() == d.views.size(), true, "over as many views" );
			is( a.getBufferCount() == 0, true, "without buffers" );
			is( !a.buffer(), true, "without buffer" );
			for ( u32 i = 0; i < d.views.size(); ++i ) is( a.view( i ) == d.views[i] && a.view( i ).data == d.views[i].data, true, "over its views" );
			if ( d.views.size() == 1 ) is( a.view( 2 ) == d.views[0], true, "over its view, whatever the pass index" );
			VkImageLayout lay[2]{};
			switch ( k.use )
			{
			case Smp: lay[0] = lay[1] = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL; break;
			case Sto: lay[0] = lay[1] = VK_IMAGE_LAYOUT_GENERAL; break;
			case Tra: lay[0] = lay[1] = k.out ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL; break;
			case Imp: lay[0] = lay[1] = d.layout; break;
			case Col: lay[0] = lay[1] = VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL; break;
			default:
				lay[0] = k.out ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
				lay[1] = k.use == DeS ? lay[0]
					: k.use == Dep ? ( k.out ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL )
					: ( k.out ? VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL );
				break;
			}
			for ( int s = 0; s < 2; ++s ) is( a.getImageLayout( s != 0 ) == lay[s], true, s ? "in the layout of its use (separate depth and stencil)" : "in the layout of its use" );
			if ( img( Smp ) ) is( a.getDescriptorType() == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER, true, "a combined image sampler" );
			if ( img( Sto ) ) is( a.getDescriptorType() == VK_DESCRIPTOR_TYPE_STORAGE_IMAGE, true, "a storage image descriptor" );
			auto attach = img( Col ) || depth || stencil;
			auto load = [&]( bool used ) { return !attach || !used ? VK_ATTACHMENT_LOAD_OP_DONT_CARE : k.in ? VK_ATTACHMENT_LOAD_OP_LOAD : VK_ATTACHMENT_LOAD_OP_CLEAR; };
			auto store = [&]( bool used ) { return !attach || !used || !k.out ? VK_ATTACHMENT_STORE_OP_DONT_CARE : VK_ATTACHMENT_STORE_OP_STORE; };
			is( a.getLoadOp() == load( !img( Ste ) ), true, "loaded the way it is used" );
			is( a.getStoreOp() == store( !img( Ste ) ), true, "stored the way it is used" );
			is( a.getStencilLoadOp() == load( stencil ), true, "loaded (stencil) the way it is used" );
			is( a.getStencilStoreOp() == store( stencil ), true, "stored (stencil) the way it is used" );
			if ( d.hasSampler() ) is( eq( a.getSamplerDesc(), d.sampler ), true, "sampled the way which is asked" );
			if ( d.hasClear() ) is( !std::memcmp( &a.getClearValue(), &d.clear, sizeof d.clear ), true, "cleared to the value which is asked" );
			if ( img( Col ) ) is( eq( a.getBlendState(), d.hasBlend() ? d.blend : crg::DefaultBlendState ), true, "blended the way which is asked" );
		}
		else
		{
			is( a.getViewCount() == 0, true, "without views" );
			is( a.getBufferCount() == d.buffers.size(), true, "over as many buffers" );
			for ( u32 i = 0; i < d.buffers.size(); ++i ) is( a.buffer( i ) == d.buffers[i], true, "over its buffers" );
			if ( d.buffers.size() == 1 ) is( a.buffer( 2 ) == d.buffers[0], true, "over its buffer, whatever the pass index" );
			is( a.getBufferRange().offset == d.offset && a.getBufferRange().size == d.size, true, "over its range" );
			if ( k.texel ) is( a.bufferAttach.view == d.view, true, "through its view" );
			VkDescriptorType t = k.use == Uni ? ( k.texel ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER ) : ( k.texel ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER );
			if ( k.use == Uni || k.use == Sto )
			{
				is( a.getDescriptorType() == t, true, "a descriptor of its type" );
				for ( u32 i = 0; i < d.buffers.size(); ++i )
				{
					auto w = a.getBufferWrite( i );
					auto vw = static_cast< VkWriteDescriptorSet >( w );
					is( vw.dstBinding == d.binding && vw.descriptorCount == 1 && vw.descriptorType == t, true, "described at its binding" );
					if ( k.texel ) is( w.texelBufferView.size() == 1 && w.texelBufferView[0] == d.view, true, "described through its view" );
					else is( w.bufferInfo.size() == 1 && w.bufferInfo[0].buffer == d.buffers[i] && w.bufferInfo[0].offset == d.offset && w.bufferInfo[0].range == d.size, true, "described over its range" );
				}
			}
		}
	}

	struct DeclWorld
	{
		Env env;
		crg::FrameGraph g{ *env.handler, "g" };
		crg::FramePass * p[2];
		crg::ImageId colour{ g.createImage( img( "c", VK_FORMAT_R8G8B8A8_UNORM, 16, 16, 2, 2 ) ) };
		crg::ImageId ds{ g.createImage( img( "ds", VK_FORMAT_D24_UNORM_S8_UINT, 16, 16, 2, 2 ) ) };
		std::vector< crg::ImageViewId > cv, dv, sv, dsv;
		std::vector< VkBuffer > bufs;
		std::vector< VkBufferView > bviews;
		DeclWorld()
		{
			for ( int i = 0; i < 2; ++i )
				p[i] = &g.createPass( "p" + n2( u64( i ) ), []( crg::FramePass const &, crg::GraphContext &, crg::RunnableGraph & ) -> crg::RunnablePassPtr { return nullptr; } );
			auto v = [&]( crg::ImageId im, VkFormat f, VkImageAspectFlags asp, u32 level )
				{ return g.createView( crg::ImageViewData{ "v" + n2( asp ) + n2( level ), im, 0, VK_IMAGE_VIEW_TYPE_2D, f, { asp, level, 1, 0, 1 } } ); };
			for ( u32 l = 0; l < 2; ++l )
			{
				cv.push_back( v( colour, VK_FORMAT_R8G8B8A8_UNORM, VK_IMAGE_ASPECT_COLOR_BIT, l ) );
				dv.push_back( v( ds, VK_FORMAT_D24_UNORM_S8_UINT, VK_IMAGE_ASPECT_DEPTH_BIT, l ) );
				sv.push_back( v( ds, VK_FORMAT_D24_UNORM_S8_UINT, VK_IMAGE_ASPECT_STENCIL_BIT, l ) );
				dsv.push_back( v( ds, VK_FORMAT_D24_UNORM_S8_UINT, VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT, l ) );
			}
			for ( u64 i = 0; i < 3; ++i ) bufs.push_back( VkBuffer( 0x100000000ull * ( i + 1 ) + 0x40 ) );
			for ( u64 i = 0; i < 3; ++i ) bviews.push_back( VkBufferView( 0x200000000ull * ( i + 1 ) + 0x80 ) );
		}
		std::vector< crg::ImageViewId > const & viewsOf( int kind )
		{
			auto & k = imageKinds[kind];
			return k.use == Dep || kind == 2 ? dv : k.use == Ste ? sv : k.use == DeS || kind == 3 ? dsv : cv;
		}
	};
	// makes the declaration with plain parameters
	Decl plain( DeclWorld & w, bool image, int kind, u32 n, int variant )
	{
		Decl d;
		d.image = image;
		d.kind = kind;
		d.binding = 3 + n + 10 * u32( variant );
		auto & k = d.info();
		if ( image )
		{
			auto & vs = w.viewsOf( kind );
			if ( variant == 2 ) d.views = { vs[0], vs[1] };
			else d.views = { vs[size_t( variant )] };
			if ( d.hasSampler() && variant ) d.sampler = crg::SamplerDesc{ VK_FILTER_LINEAR, VK_FILTER_LINEAR, VK_SAMPLER_MIPMAP_MODE_LINEAR, VK_SAMPLER_ADDRESS_MODE_REPEAT, VK_SAMPLER_ADDRESS_MODE_MIRRORED_REPEAT, VK_SAMPLER_ADDRESS_MODE_CLAMP_TO_BORDER, 1.0f, 2.0f, 3.0f };
			if ( d.hasClear() && variant )
			{
				if ( k.use == Col ) d.clear.color = { { 0.25f, 0.5f, 0.75f, 1.0f } };
				else d.clear.depthStencil = { 0.5f, 7 };
			}
			if ( d.hasBlend() && variant ) d.blend = { VK_TRUE, VK_BLEND_FACTOR_ONE, VK_BLEND_FACTOR_DST_ALPHA, VK_BLEND_OP_MAX, VK_BLEND_FACTOR_SRC_COLOR, VK_BLEND_FACTOR_ZERO, VK_BLEND_OP_SUBTRACT, 0x5 };
			d.layout = variant ? VK_IMAGE_LAYOUT_GENERAL : VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		}
		else
		{
			if ( variant == 2 ) d.buffers = { w.bufs[0], w.bufs[1] };
			else d.buffers = { w.bufs[size_t( variant )] };
			d.view = w.bviews[size_t( variant )];
			d.offset = 64 * u64( variant );
			d.size = 128 + 16 * u64( variant );
			d.access = { VK_ACCESS_SHADER_READ_BIT | VkAccessFlags( variant ? VK_ACCESS_SHADER_WRITE_BIT : 0 ), VK_PIPELINE_STAGE_VERTEX_SHADER_BIT };
		}
		d.noTransition = d.hasFlag() && variant;
		return d;
	}
	// sequences of declarations, on one or two passes
	void declarations( mc::Choices & ch, int count )
	{
		DeclWorld w;
		std::vector< Decl > made[2];
		for ( int i = 0; i < count; ++i )
		{
			auto k = ch.pick( IK + BK, "declaration" );
			auto variant = ch.pick( 3, "parameters" );
			auto pass = i ? ch.pick( 2, "pass" ) : 0;
			auto asOne = k < IK && variant < 2 && ch.flip( "a single view" );
			auto d = plain( w, k < IK, k < IK ? k : k - IK, u32( i ), variant );
			ch.note( std::string{ d.image ? "image: " : "buffer: " } + d.info().name );
			declare( *w.p[pass], d, asOne );
			made[pass].push_back( d );
			for ( int q = 0; q < 2; ++q )
			{
				auto & p = *w.p[q];
				std::vector< Decl const * > rest, back, buf;
				for ( auto & m : made[q] )
				{
					auto u = m.info().use;
					if ( !m.image ) buf.push_back( &m );
					else if ( u == Dep || u == Ste || u == DeS ) back.push_back( &m );
					else rest.push_back( &m );
				}
				mc::check( p.images.size() == rest.size() + back.size(), "the pass holds " + n2( p.images.size() ) + " images" );
				mc::check( p.buffers.size() == buf.size(), "the pass holds " + n2( p.buffers.size() ) + " buffers" );
				// (the depth and stencil attachments may be anywhere, the last one declared first; the others follow the order they are declared)
				size_t r = 0, b = back.size();
				for ( auto & a : p.images )
				{
					auto ds = a.isDepthAttach() || a.isStencilAttach();
					mc::check( ds ? b > 0 : r < rest.size(), "the pass holds an image of another kind than the ones declared" );
					holds( a, ds ? *back[--b] : *rest[r++], p, "pass " + n2( u64( q ) ) );
				}
				for ( size_t j = 0; j < buf.size(); ++j ) holds( p.buffers[j], *buf[j], p, "pass " + n2( u64( q ) ) );
				mc::state( n2( u64( k ) ) + "/" + n2( u64( variant ) ) + "/" + n2( u64( q ) ) + "/" + n2( p.images.size() ) + "/" + n2( p.buffers.size() ) );
			}
		}
		// the attachment restricted to another view keeps everything else
		for ( int q = 0; q < 2; ++q )
			for ( auto & a : w.p[q]->images )
			{
				auto v = a.view( 0 ) == w.cv[0] ? w.cv[1] : w.cv[0];
				if ( a.view( 0 ) == w.dv[0] || a.view( 0 ) == w.sv[0] || a.view( 0 ) == w.dsv[0] ) v = w.dsv[1];
				crg::Attachment c{ v, a };
				mc::check( c.getViewCount() == 1 && c.view() == v, "the attachment for a view isn't over it" );
				mc::check( c.pass == a.pass && c.binding == a.binding && c.getFlags() == a.getFlags() && c.imageAttach.getFlags() == a.imageAttach.getFlags() && c.getLoadOp() == a.getLoadOp() && c.getStoreOp() == a.getStoreOp()
					&& c.getStencilLoadOp() == a.getStencilLoadOp() && c.getStencilStoreOp() == a.getStencilStoreOp() && eq( c.getSamplerDesc(), a.getSamplerDesc() ) && eq( c.getBlendState(), a.getBlendState() )
					&& c.getImageLayout( false ) == a.getImageLayout( false ), "the attachment for a view isn't like the one it comes from" );
			}
		mc::compared();
	}
	// two declarations give equal attachments when they are the same one, and different ones when anything differs
	void equality( mc::Choices & ch )
	{
		DeclWorld w;
		auto k = ch.pick( IK + BK, "declaration" );
		auto d = plain( w, k < IK, k < IK ? k : k - IK, 0, ch.pick( 3, "parameters" ) );
		auto e = d;
		bool same = false, other = false;
		auto diff = ch.pick( 26, "difference" );
		auto f = [&]( bool applies ) { if ( !applies ) ch.prune(); };
		switch ( diff )
		{
		case 0: same = true; break;
		case 1: other = true; break;
		case 2:
			{
				// (the other kind comes from a choice of its own)
				auto k2 = ch.pick( IK + BK, "other declaration" );
				if ( k2 == k ) ch.prune();
				auto x = plain( w, k2 < IK, k2 < IK ? k2 : k2 - IK, 0, 0 );
				if ( x.image == d.image ) { x.views = d.views; x.buffers = d.buffers; x.offset = d.offset; x.size = d.size; x.view = d.view; }
				if ( x.image && d.image && w.viewsOf( x.kind )[0] != w.viewsOf( d.kind )[0] ) x.views = { w.viewsOf( x.kind )[0] };
				x.clear = d.clear;
				e = x;
			}
			break;
		case 3: f( d.image ); e.views[0] = w.viewsOf( d.kind )[d.views[0] == w.viewsOf( d.kind )[0] ? 1 : 0]; if ( d.views.size() > 1 ) ch.prune(); break;
		case 4: f( d.image ); if ( d.views.size() > 1 ) e.views.pop_back(); else e.views.push_back( d.views[0] ); break;
		case 5: f( d.image && d.views.size() > 1 ); std::swap( e.views[0], e.views[1] ); break;
		case 6: f( d.hasSampler() ); e.sampler.magFilter = VK_FILTER_CUBIC_IMG; break;
		case 7: f( d.hasSampler() ); e.sampler.minFilter = VK_FILTER_CUBIC_IMG; break;
		case 8: f( d.hasSampler() ); e.sampler.mipmapMode = d.sampler.mipmapMode == VK_SAMPLER_MIPMAP_MODE_LINEAR ? VK_SAMPLER_MIPMAP_MODE_NEAREST : VK_SAMPLER_MIPMAP_MODE_LINEAR; break;
		case 9: f( d.hasSampler() ); e.sampler.addressModeU = VK_SAMPLER_ADDRESS_MODE_MIRROR_CLAMP_TO_EDGE; break;
		case 10: f( d.hasSampler() ); e.sampler.addressModeV = VK_SAMPLER_ADDRESS_MODE_MIRROR_CLAMP_TO_EDGE; break;
		case 11: f( d.hasSampler() ); e.sampler.addressModeW = VK_SAMPLER_ADDRESS_MODE_MIRROR_CLAMP_TO_EDGE; break;
		case 12: f( d.hasSampler() ); e.sampler.mipLodBias += 0.5f; break;
		case 13: f( d.hasSampler() ); e.sampler.minLod += 0.5f; break;
		case 14: f( d.hasSampler() ); e.sampler.maxLod += 0.5f; break;
		case 15:
			f( d.hasClear() );
			{
				auto c = ch.pick( d.info().use == Col ? 4 : 2, "component" );
				if ( d.info().use == Col ) e.clear.color.float32[c] += 0.125f;
				else if ( c ) e.clear.depthStencil.stencil += 1;
				else e.clear.depthStencil.depth += 0.125f;
			}
			break;
		case 16:
			f( d.hasBlend() );
			switch ( ch.pick( 8, "item" ) )
			{
			case 0: e.blend.blendEnable = !e.blend.blendEnable; break;
			case 1: e.blend.srcColorBlendFactor = VK_BLEND_FACTOR_CONSTANT_COLOR; break;
			case 2: e.blend.dstColorBlendFactor = VK_BLEND_FACTOR_CONSTANT_COLOR; break;
			case 3: e.blend.colorBlendOp = VK_BLEND_OP_MIN; break;
			case 4: e.blend.srcAlphaBlendFactor = VK_BLEND_FACTOR_CONSTANT_COLOR; break;
			case 5: e.blend.dstAlphaBlendFactor = VK_BLEND_FACTOR_CONSTANT_COLOR; break;
			case 6: e.blend.alphaBlendOp = VK_BLEND_OP_MIN; break;
			default: e.blend.colorWriteMask ^= 0x1; break;
			}
			break;
		case 17: f( d.hasFlag() ); e.noTransition = !d.noTransition; break;
		case 18: f( !d.image && d.buffers.size() == 1 ); e.buffers[0] = w.bufs[2]; break;
		case 19: f( !d.image ); if ( d.buffers.size() > 1 ) e.buffers.pop_back(); else e.buffers.push_back( w.bufs[2] ); break;
		case 20: f( !d.image && d.buffers.size() > 1 ); e.buffers[1] = w.bufs[2]; break;
		case 21: f( !d.image && d.info().texel ); e.view = VkBufferView( 0xABC ); break;
		case 22: f( !d.image ); e.offset += 16; break;
		case 23: f( !d.image ); e.size += 16; break;
		case 24: f( !d.image ); e.offset += 0x100000000ull; break;
		default: f( !d.image ); e.size += 0x100000000ull; break;
		}
		declare( *w.p[0], d, false );
		auto a = d.image ? w.p[0]->images.back() : w.p[0]->buffers.back();
		declare( *w.p[other ? 1 : 0], e, false );
		auto & q = *w.p[other ? 1 : 0];
		auto eds = e.info().use >= Dep && e.info().use <= DeS && e.image;
		auto b = e.image ? ( eds ? q.images.front() : q.images.back() ) : q.buffers.back();
		auto copy = a;
		mc::check( copy == a && a == copy, "a copy of an attachment isn't equal to it" );
		mc::check( ( a == b ) == same && ( b == a ) == same, same ? "two attachments declared the same way aren't equal" : "two attachments declared differently (" + n2( u64( diff ) ) + ") are equal" );
		auto moved = std::move( copy );
		mc::check( moved == a, "a moved attachment isn't equal to what it was" );
		mc::step( 4 );
		mc::state( n2( u64( k * 100 + diff ) ) );
		mc::compared();
	}

	//************************************************************************************************
	// merged views
	void merging( mc::Choices & ch, int count )
	{
		Env env;
		crg::FrameGraph g{ *env.handler, "g" };
		auto & p = g.createPass( "p", []( crg::FramePass const &, crg::GraphContext &, crg::RunnableGraph & ) -> crg::RunnablePassPtr { return nullptr; } );
		struct Shape { char const * name; VkImageType type; u32 layers; bool cube; VkImageViewType view; };
		static Shape const shapes[]{
			{ "1D", VK_IMAGE_TYPE_1D, 3, false, VK_IMAGE_VIEW_TYPE_1D },
			{ "2D", VK_IMAGE_TYPE_2D, 7, false, VK_IMAGE_VIEW_TYPE_2D },
			{ "2D, cube compatible", VK_IMAGE_TYPE_2D, 13, true, VK_IMAGE_VIEW_TYPE_2D },
			{ "cube", VK_IMAGE_TYPE_2D, 12, true, VK_IMAGE_VIEW_TYPE_CUBE },
			{ "2D array", VK_IMAGE_TYPE_2D, 7, false, VK_IMAGE_VIEW_TYPE_2D_ARRAY },
		};
		auto & sh = shapes[ch.pick( 5, "image" )];
		ch.note( sh.name );
		auto image = g.createImage( img( "i", VK_FORMAT_R8G8B8A8_UNORM, 16, sh.type == VK_IMAGE_TYPE_1D ? 1 : 16, 3, sh.layers, sh.type, 1, sh.cube ? VkImageCreateFlags( VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) : 0 ) );
		auto other = g.createImage( img( "o", VK_FORMAT_R8G8B8A8_UNORM, 16, sh.type == VK_IMAGE_TYPE_1D ? 1 : 16, 3, sh.layers, sh.type, 1, sh.cube ? VkImageCreateFlags( VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) : 0 ) );
		auto n = 1 + ch.pick( count, "views" );
		auto levels = ch.flip( "merge the levels" ), layers = ch.flip( "merge the layers" );
		crg::ImageViewIdArray views, same;
		u32 minLevel = ~0u, maxLevel = 0, minLayer = ~0u, maxLayer = 0, levelCount = 0, layerCount = 0;
		for ( int i = 0; i < n; ++i )
		{
			VkImageSubresourceRange r{ VK_IMAGE_ASPECT_COLOR_BIT, u32( ch.pick( 3, "level" ) ), 1, 0, 1 };
			r.levelCount = u32( 1 + ch.pick( int( 3 - r.baseMipLevel ), "levels" ) );
			static u32 const firsts[]{ 0, 1, 5, 6, 12 };
			static u32 const counts[]{ 1, 6, 2 };
			if ( sh.view == VK_IMAGE_VIEW_TYPE_CUBE ) { r.baseArrayLayer = u32( 6 * ch.pick( 2, "layer" ) ); r.layerCount = 6; }
			else
			{
				r.baseArrayLayer = firsts[ch.pick( 5, "layer" )];
				r.layerCount = sh.view == VK_IMAGE_VIEW_TYPE_2D_ARRAY ? counts[ch.pick( 3, "layers" )] : 1;
				if ( r.baseArrayLayer + r.layerCount > sh.layers ) ch.prune();
			}
			views.push_back( g.createView( crg::ImageViewData{ "v" + n2( u64( i ) ), image, 0, sh.view, VK_FORMAT_R8G8B8A8_UNORM, r } ) );
			same.push_back( g.createView( crg::ImageViewData{ "w" + n2( u64( i ) ), other, 0, sh.view, VK_FORMAT_R8G8B8A8_UNORM, r } ) );
			minLevel = std::min( minLevel, r.baseMipLevel );
			maxLevel = std::max( maxLevel, r.baseMipLevel + r.levelCount );
			minLayer = std::min( minLayer, r.baseArrayLayer );
			maxLayer = std::max( maxLayer, r.baseArrayLayer + r.layerCount );
			levelCount = r.levelCount;
			layerCount = r.layerCount;
			mc::step();
		}
		auto m = p.mergeViews( views, levels, layers );
		auto o = p.mergeViews( same, levels, layers );
		auto again = p.mergeViews( views, levels, layers );
		auto & d = *m.data;
		auto wantLevels = levels ? maxLevel - minLevel : n == 1 ? levelCount : 1u, wantLayers = layers ? maxLayer - minLayer : n == 1 ? layerCount : 1u;
		auto & r = d.info.subresourceRange;
		mc::check( d.image == image && o.data->image == other, "the merged view is over another image" );
		mc::check( r.baseMipLevel == minLevel && r.levelCount == wantLevels, "the merged view has levels " + n2( r.baseMipLevel ) + "+" + n2( r.levelCount ) + " instead of " + n2( minLevel ) + "+" + n2( wantLevels ) );
		mc::check( r.baseArrayLayer == minLayer && r.layerCount == wantLayers, "the merged view has layers " + n2( r.baseArrayLayer ) + "+" + n2( r.layerCount ) + " instead of " + n2( minLayer ) + "+" + n2( wantLayers ) );
		mc::check( r.aspectMask == VK_IMAGE_ASPECT_COLOR_BIT && d.info.format == VK_FORMAT_R8G8B8A8_UNORM, "the merged view has another format or aspect" );
		auto want = sh.view;
		auto whole = sh.cube && minLayer == 0 && wantLayers % 6 == 0;
		if ( wantLayers > 1 )
			switch ( sh.view )
			{
			case VK_IMAGE_VIEW_TYPE_1D: want = VK_IMAGE_VIEW_TYPE_1D_ARRAY; break;
			case VK_IMAGE_VIEW_TYPE_2D: want = whole ? ( wantLayers > 6 ? VK_IMAGE_VIEW_TYPE_CUBE_ARRAY : VK_IMAGE_VIEW_TYPE_CUBE ) : VK_IMAGE_VIEW_TYPE_2D_ARRAY; break;
			case VK_IMAGE_VIEW_TYPE_CUBE: want = wantLayers > 6 ? VK_IMAGE_VIEW_TYPE_CUBE_ARRAY : VK_IMAGE_VIEW_TYPE_CUBE; break;
			default: break;
			}
		if ( sh.view != VK_IMAGE_VIEW_TYPE_CUBE || wantLayers >= 6 )
			mc::check( d.info.viewType == want, "the merged view is of type " + n2( u64( d.info.viewType ) ) + " instead of " + n2( u64( want ) ) );
		mc::check( again == m, "merging the same views again gives another view" );
		mc::check( o != m, "merging the views of another image gives the same view" );
		mc::check( crg::getMipLevels( m ) == wantLevels && crg::getArrayLayers( m ) == wantLayers && crg::getFormat( m ) == d.info.format && crg::getImageType( m ) == sh.type, "the merged view isn't described the way it is" );
		auto e = crg::getMipExtent( m );
		mc::check( e.width == std::max( 1u, 16u >> minLevel ) && e.depth == 1, "the merged view has a wrong extent" );
		// (a merged view which is a view already made keeps the sources that one was made with)
		auto plainOne = std::find( views.begin(), views.end(), m ) != views.end();
		if ( !plainOne )
		{
			mc::check( d.source.size() == size_t( n ), "the merged view has " + n2( d.source.size() ) + " sources" );
			for ( int i = 0; i < n; ++i ) mc::check( d.source[size_t( i )] == views[size_t( i )] && crg::resolveView( m, u32( i ) ) == views[size_t( i )], "source " + n2( u64( i ) ) + " of the merged view is another view" );
		}
		mc::check( crg::resolveView( views[0], 0 ) == views[0] && crg::resolveView( views[0], 1 ) == views[0], "a view which isn't merged isn't resolved to itself" );
		mc::state( n2( r.baseMipLevel ) + "." + n2( r.levelCount ) + "." + n2( r.baseArrayLayer ) + "." + n2( r.layerCount ) + "." + n2( u64( d.info.viewType ) ) );
		mc::outcome( n2( m.id ) + "/" + n2( d.source.size() ) );
		mc::compared();
	}

	//************************************************************************************************
	// formats, layouts, extents
	void formats( mc::Choices & ch )
	{
		auto f = VkFormat( ch.pick( 185, "format" ) );
		auto s = f == VK_FORMAT_S8_UINT, both = f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT;
		auto d = f == VK_FORMAT_D16_UNORM || f == VK_FORMAT_X8_D24_UNORM_PACK32 || f == VK_FORMAT_D32_SFLOAT;
		mc::check( crg::isDepthFormat( f ) == ( d || both ), "depth format " + n2( u64( f ) ) );
		mc::check( crg::isStencilFormat( f ) == ( s || both ), "stencil format " + n2( u64( f ) ) );
		mc::check( crg::isDepthStencilFormat( f ) == both, "depth and stencil format " + n2( u64( f ) ) );
		mc::check( crg::isColourFormat( f ) == !( s || d || both ), "colour format " + n2( u64( f ) ) );
		auto want = both ? VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT : d ? VK_IMAGE_ASPECT_DEPTH_BIT : s ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_COLOR_BIT;
		mc::check( crg::getAspectMask( f ) == VkImageAspectFlags( want ), "aspects of format " + n2( u64( f ) ) );
		mc::step( 5 );
		mc::state( n2( u64( f ) ) );
		mc::compared();
	}
	void layouts( mc::Choices & ch )
	{
		struct L { VkImageLayout layout; VkFlags access, stages; };
		VkFlags const tests = VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
		VkFlags const shaders = VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
		VkFlags const dr = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, dw = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
		// what must be among the accesses, and the stages one of which at least must be given
		static L const ls[]{
			{ VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT },
			{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, dw, tests },
			{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, dr, tests },
			{ VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL, dw, tests },
			{ VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL, dw, tests },
			{ VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL, dw, tests },
			{ VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL, dr, tests },
			{ VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL, dw, tests },
			{ VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL, dr, tests },
			{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_ACCESS_SHADER_READ_BIT, shaders },
			{ VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT },
			{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT },
			{ VK_IMAGE_LAYOUT_UNDEFINED, 0, 0 },
			{ VK_IMAGE_LAYOUT_GENERAL, 0, 0 },
			{ VK_IMAGE_LAYOUT_PRESENT_SRC_KHR, 0, 0 },
			{ VK_IMAGE_LAYOUT_PREINITIALIZED, 0, 0 },
		};
		auto & l = ls[ch.pick( int( sizeof ls / sizeof *ls ), "layout" )];
		auto s = crg::makeLayoutState( l.layout );
		auto name = "layout " + n2( u64( l.layout ) );
		mc::check( s.layout == l.layout, name + " isn't the one of its state" );
		mc::check( s.state.access == crg::getAccessMask( l.layout ) && s.state.pipelineStage == crg::getStageMask( l.layout ), name + ": the state isn't made of the layout's access and stages" );
		mc::check( has( s.state.access, l.access ), name + ": an access it is for is missing" );
		mc::check( s.state.pipelineStage != 0, name + ": no stage at all" );
		if ( l.stages ) mc::check( ( s.state.pipelineStage & l.stages ) != 0, name + ": none of the stages it is for" );
		mc::step( 4 );
		mc::state( name );
		mc::compared();
	}
	void extents( mc::Choices & ch )
	{
		Env env;
		static u32 const dims[]{ 1, 2, 3, 5, 16, 17 };
		auto type = VkImageType( ch.pick( 3, "type" ) );
		VkExtent3D e{ dims[ch.pick( 6, "width" )], 1, 1 };
		if ( type >= VK_IMAGE_TYPE_2D ) e.height = dims[ch.pick( 6, "height" )];
		if ( type == VK_IMAGE_TYPE_3D ) e.depth = dims[ch.pick( 6, "depth" )];
		u32 max = 1;
		while ( ( std::max( { e.width, e.height, e.depth } ) >> max ) ) ++max;
		auto levels = u32( 1 + ch.pick( int( max ), "levels" ) );
		auto layers = type == VK_IMAGE_TYPE_3D ? 1u : u32( 1 + ch.pick( 2, "layers" ) );
		auto image = env.handler->createImageId( img( "i", VK_FORMAT_R8G8B8A8_UNORM, e.width, e.height, levels, layers, type, e.depth ) );
		auto level = u32( ch.pick( int( levels ), "level" ) );
		auto count = u32( 1 + ch.pick( int( levels - level ), "count" ) );
		auto arrayed = type != VK_IMAGE_TYPE_3D && layers == 2 && ch.flip( "array" );
		auto vt = type == VK_IMAGE_TYPE_1D ? ( arrayed ? VK_IMAGE_VIEW_TYPE_1D_ARRAY : VK_IMAGE_VIEW_TYPE_1D ) : type == VK_IMAGE_TYPE_2D ? ( arrayed ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D ) : VK_IMAGE_VIEW_TYPE_3D;
		VkImageSubresourceRange r{ VK_IMAGE_ASPECT_COLOR_BIT, level, count, arrayed ? 0u : layers - 1, arrayed ? 2u : 1u };
		auto view = env.handler->createViewId( crg::ImageViewData{ "v", image, 0, vt, VK_FORMAT_R8G8B8A8_UNORM, r } );
		auto same = []( VkExtent3D const & a, VkExtent3D const & b ) { return a.width == b.width && a.height == b.height && a.depth == b.depth; };
		mc::check( same( crg::getExtent( image ), e ) && same( crg::getExtent( view ), e ), "the extent isn't the one of the image" );
		mc::check( same( crg::getMipExtent( view ), { std::max( 1u, e.width >> level ), std::max( 1u, e.height >> level ), std::max( 1u, e.depth >> level ) } ), "the extent of the level isn't the one of the view's first level" );
		mc::check( crg::getMipLevels( image ) == levels && crg::getMipLevels( view ) == count, "the levels aren't the ones which were asked" );
		mc::check( crg::getArrayLayers( image ) == layers && crg::getArrayLayers( view ) == r.layerCount, "the layers aren't the ones which were asked" );
		mc::check( crg::getImageType( image ) == type && crg::getImageType( view ) == type && crg::getFormat( image ) == VK_FORMAT_R8G8B8A8_UNORM && crg::getFormat( view ) == VK_FORMAT_R8G8B8A8_UNORM, "the type or format isn't the one which was asked" );
		mc::step( 5 );
		mc::state( n2( level ) + n2( count ) + n2( e.width ) + "." + n2( e.height ) + "." + n2( e.depth ) );
		mc::compared();
	}
}

int main( int argc, char ** argv )
{
	for ( int i = 1; i + 1 < argc; ++i ) if ( std::string{ argv[i] } == "--tier" ) mc::setTier( argv[i + 1] );
	auto t = mc::thorough();
	return mc::mainLoop( argc, argv, {
		{ "A01", {
			{ "declarations", [=]( mc::Choices & c ){ declarations( c, t ? 3 : 2 ); }, 2 },
			{ "equality", equality, 2 },
			{ "merging", [=]( mc::Choices & c ){ merging( c, t ? 3 : 2 ); }, 4 },
			{ "formats", formats, 1 },
			{ "layouts", layouts, 1 },
			{ "extents", extents, 3 } } },
	} );
}
