// mockvk: a simulated Vulkan device, used as the oracle of every check.
//
// It is a strict stand-in for a driver plus validation layer: it tracks every handle's life, the
// command buffer / fence / semaphore / queue protocol, the ACTUAL layout and the ACTUAL texels of
// every image subresource (updated when a submitted command buffer executes), buffer bytes, query
// pools, descriptor sets, render passes, and reports everything a program may not do.
#pragma once
#include <vulkan/vulkan.h>
#include <array>
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace mv
{
	using u32 = uint32_t;
	using u64 = uint64_t;
	constexpr u64 UNDEF = 0xFEEDFACEDEADBEEFull;

	template< typename T > inline u64 h( T t ) { return u64( t ); }
	template< typename T > inline T mk( u64 v ) { return T( v ); }

	enum class T : int
	{
		None, Image, ImageView, Buffer, BufferView, Memory, Sampler, RenderPass, Framebuffer, Pipeline, PipelineLayout,
		SetLayout, DescPool, DescSet, CommandPool, CommandBuffer, Semaphore, Fence, QueryPool, Event, ShaderModule, Count
	};
	char const * tname( T t );

	struct Error { std::string cat; std::string msg; };

	struct ObjBase { u64 id{}; bool harness{}; u64 serial{}; std::string label; };

	struct SubKey { int aspect{}; u32 layer{}; u32 mip{}; bool operator<( SubKey const & o )const { return std::tie( aspect, layer, mip ) < std::tie( o.aspect, o.layer, o.mip ); } };
	struct Sub { VkImageLayout layout{ VK_IMAGE_LAYOUT_UNDEFINED }; u32 w{}, hgt{}, d{}; std::vector< u64 > texels; };

	// what the (optional) synchronisation checker knows of a part of a resource
	struct Sync
	{
		struct Read { VkPipelineStageFlags ordered{}; u64 op{}, serial{}; std::string who; };
		bool hasWrite{}, transition{}, avail{};
		VkPipelineStageFlags wStage{}; VkAccessFlags wAccess{};
		VkPipelineStageFlags ordered{};                          // stages which wait for the last write
		std::map< VkPipelineStageFlags, VkAccessFlags > vis;     // stage -> accesses which see the last write
		std::map< VkPipelineStageFlags, Read > reads;            // reads since the last write, by stage
		u64 op{}, serial{};
		std::string who;
	};

	struct Image : ObjBase { VkImageCreateInfo info{}; u64 mem{}; std::map< SubKey, Sub > subs; std::map< SubKey, Sync > sync; };
	struct ImageView : ObjBase { VkImageViewCreateInfo info{}; };
	struct Memory : ObjBase { VkMemoryAllocateInfo info{}; std::vector< uint8_t > bytes; std::vector< char > def; bool mapped{}; VkDeviceSize mapOff{}, mapSize{}; bool dirty{}; };
	struct Buffer : ObjBase { VkBufferCreateInfo info{}; u64 mem{}; VkDeviceSize memOff{}; std::map< u64, Sync > sync; };
	struct BufferView : ObjBase { u64 buffer{}; VkDeviceSize off{}, range{}; };
	struct Sampler : ObjBase { VkSamplerCreateInfo info{}; };
	struct RenderPass : ObjBase { std::vector< VkAttachmentDescription > attaches; struct SP { std::vector< VkAttachmentReference > colour; bool hasDepth{}; VkAttachmentReference depth{}; VkPipelineBindPoint bp{}; }; std::vector< SP > subpasses; std::vector< VkSubpassDependency > deps; };
	struct Framebuffer : ObjBase { u64 renderPass{}; std::vector< u64 > views; u32 w{}, hgt{}, layers{}; };
	struct PipelineLayout : ObjBase { std::vector< u64 > sets; std::vector< VkPushConstantRange > pcs; };
	struct SetLayout : ObjBase { std::vector< VkDescriptorSetLayoutBinding > bindings; };
	struct Pipeline : ObjBase { bool compute{}; u64 layout{}; u64 renderPass{}; std::vector< VkAttachmentDescription > rpAttaches; std::vector< u64 > modules; u32 blendCount{}; std::vector< VkPipelineColorBlendAttachmentState > blends; bool depthTest{}, depthWrite{}, stencilTest{}; std::vector< VkViewport > viewports; std::vector< VkRect2D > scissors; std::vector< VkVertexInputBindingDescription > vbinds; std::vector< VkVertexInputAttributeDescription > vattrs; VkPrimitiveTopology topology{}; std::vector< std::pair< VkShaderStageFlagBits, std::string > > stages; };
	struct DescPool : ObjBase { u32 maxSets{}; std::map< int, u32 > sizes; u32 usedSets{}; std::map< int, u32 > used; VkDescriptorPoolCreateFlags flags{}; };
	struct DescWrite { VkDescriptorType type{}; bool written{}; u64 sampler{}, view{}; VkImageLayout layout{}; u64 buffer{}; VkDeviceSize off{}, range{}; u64 bufferView{}; };
	struct DescSet : ObjBase { u64 pool{}, layout{}; std::map< std::pair< u32, u32 >, DescWrite > writes; };
	struct CommandPool : ObjBase { VkCommandPoolCreateFlags flags{}; };
	struct Semaphore : ObjBase { bool signaled{}; u64 serial{}; };
	struct Fence : ObjBase { bool signaled{}; bool pending{}; u64 submission{}; };
	struct Query { bool reset{}; bool available{}; u64 value{}; };
	struct QueryPool : ObjBase { std::vector< Query > q; };
	struct Event : ObjBase { bool set{}; };
	struct ShaderModule : ObjBase {};

	enum class Op
	{
		BindPipeline, BindSets, BindVB, BindIB, ClearColour, ClearDS, Dispatch, DispatchIndirect, Draw, DrawIndexed, DrawIndirect, DrawIndexedIndirect,
		BeginRP, EndRP, PushConstants, ResetQuery, WriteTs, Barrier, Blit, CopyBuffer, CopyBufImg, CopyImg, CopyImgBuf, ExecCmds, ResetEvent, SetEvent, WaitEvents, Fill, BeginLabel, EndLabel, Exec
	};
	char const * opname( Op );

	struct Cmd
	{
		Op op{};
		u64 a{}, b{}, c{};                         // handles
		std::array< u64, 8 > n{};                  // numbers
		VkImageLayout la{}, lb{};
		VkClearValue clear{};
		std::vector< VkImageSubresourceRange > ranges;
		std::vector< VkImageCopy > imgCopies;
		std::vector< VkBufferCopy > bufCopies;
		std::vector< VkBufferImageCopy > biCopies;
		std::vector< VkImageBlit > blits;
		std::vector< VkImageMemoryBarrier > ib;
		std::vector< VkBufferMemoryBarrier > bb;
		std::vector< VkMemoryBarrier > mb;
		std::vector< u64 > handles;
		std::vector< u64 > offsets;
		std::vector< VkClearValue > clears;
		VkRect2D area{};
		std::vector< uint8_t > bytes;
		std::string text;
		std::function< void() > fn;
	};

	enum class CbState { Initial, Recording, Executable, Invalid };
	struct CommandBuffer : ObjBase
	{
		u64 pool{}; CbState state{ CbState::Initial }; VkCommandBufferLevel level{}; VkCommandBufferUsageFlags usage{};
		std::vector< Cmd > cmds; std::set< std::pair< int, u64 > > refs; bool inRP{}; u64 rp{}, fb{}; int labels{}; u32 pendingCount{}; u32 begun{};
	};

	struct Submission { u64 serial{}; std::vector< u64 > cbs; u64 fence{}; bool done{}; std::set< std::pair< int, u64 > > refs; };

	// state visible to the draw / dispatch hooks
	struct Bound
	{
		u64 pipeline{}; std::map< u32, u64 > sets; std::vector< std::pair< u64, u64 > > vbs; u64 ib{}, ibOff{}; VkIndexType ibType{};
		std::map< u32, uint8_t > push;
	};
	struct Drawn
	{
		Op op{}; std::array< u64, 8 > n{}; u64 indirect{}; Bound bound; u64 rp{}, fb{}; VkRect2D area{}; u64 cb{}; std::string label;
	};
	struct Executed { u64 cb{}; Cmd const * cmd{}; };

	struct World
	{
		std::map< u64, Image > images; std::map< u64, ImageView > views; std::map< u64, Buffer > buffers; std::map< u64, BufferView > bufferViews;
		std::map< u64, Memory > memories; std::map< u64, Sampler > samplers; std::map< u64, RenderPass > renderPasses; std::map< u64, Framebuffer > framebuffers;
		std::map< u64, Pipeline > pipelines; std::map< u64, PipelineLayout > pipelineLayouts; std::map< u64, SetLayout > setLayouts; std::map< u64, DescPool > descPools;
		std::map< u64, DescSet > descSets; std::map< u64, CommandPool > commandPools; std::map< u64, CommandBuffer > commandBuffers; std::map< u64, Semaphore > semaphores;
		std::map< u64, Fence > fences; std::map< u64, QueryPool > queryPools; std::map< u64, Event > events; std::map< u64, ShaderModule > modules;
		std::map< u64, T > dead;                     // destroyed handles
		std::map< int, std::vector< u64 > > freeHandles;  // for handle reuse
		std::vector< Error > errors;
		std::vector< Submission > submissions;
		std::vector< Drawn > drawn;
		struct Last { std::vector< std::pair< u64, VkPipelineStageFlags > > waits; std::vector< u64 > signals; std::vector< u64 > cbs; u64 fence{}; } last;  // the last submission
		std::vector< std::string > log;              // human readable log of executed commands
		u64 syncOp{};                                // the operation the synchronisation checker is at
		u64 nextHandle{ 0x1000 }; u64 serial{}; u64 clock{ 1000 }; u64 cmdCount{}; u64 execCount{}; u64 callCount{};
		bool logging{}; bool reuse{}; bool harness{}; bool syncCheck{};
		u32 imageTypeBits{ 7u }, bufferTypeBits{ 7u };
		bool separateDS{};
		// fault injection
		long faultAt{ -1 }; long fallible{}; VkResult faultResult{ VK_ERROR_OUT_OF_DEVICE_MEMORY }; std::string faultName; std::vector< std::string > fallibleNames; bool recordFallible{};
		std::map< std::string, u64 > calls;
		std::function< void( Drawn const & ) > onDraw;
		std::function< void( char const * ) > onCall;  // scheduling hook
		VkPhysicalDeviceMemoryProperties memProps{};
		VkDeviceSize nonCoherentAtom{ 64 };
		std::atomic_flag lock = ATOMIC_FLAG_INIT;
		bool stepFences{ true };
		std::vector< std::pair< u64, std::string > > names;  // debug names given
	};
	extern World * w;
	void reset();
	void error( std::string const & cat, std::string const & msg );

	PFN_vkVoidFunction VKAPI_PTR getProc( VkDevice device, char const * name );
	VkPhysicalDeviceMemoryProperties defaultMemProps();
	VkPhysicalDeviceProperties defaultProps();

	// harness helpers (objects made here belong to the harness and are not leaks)
	struct HarnessScope { bool old; HarnessScope(); ~HarnessScope(); };
	VkBuffer makeBuffer( VkDeviceSize size, VkBufferUsageFlags usage = ~0u, uint8_t const * init = nullptr );
	VkBufferView makeBufferView( VkBuffer buffer, VkDeviceSize off, VkDeviceSize range );
	VkShaderModule makeModule( char const * name = "" );
	VkSemaphore makeSemaphore( bool signaled );
	VkQueue queue();
	VkDevice device();
	VkPipelineCache pipelineCache();
	VkAllocationCallbacks const * allocator();
	void signalSemaphore( VkSemaphore s );
	void consumeSemaphore( VkSemaphore s );
	void waitIdle();                               // the GPU finishes everything
	void cmdExec( VkCommandBuffer cb, std::string text, std::function< void() > fn, bool wantRP = false );
	std::vector< int > aspectsOf( VkFormat f );
	std::vector< SubKey > subsOf( Image const & img, VkImageSubresourceRange const & r );
	u32 texelSize( VkFormat f, int aspect = 0 );
	u32 mipDim( u32 v, u32 mip );
	// an access of the operation being executed (the synchronisation checker must be on)
	void syncImage( u64 image, SubKey k, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & who );
	void syncBuffer( u64 buffer, VkDeviceSize off, VkDeviceSize size, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & who );
	void checkLeaks();                             // every non harness object alive is a leak
	size_t aliveCount();                           // non harness objects alive
	std::string aliveList();
	std::string str( VkImageLayout l );
	std::string describe( Cmd const & c );
	uint8_t byteAt( VkBuffer b, VkDeviceSize off, bool * undef = nullptr );
	void setByte( VkBuffer b, VkDeviceSize off, uint8_t v );
	u64 hash( u64 a, u64 b );
}
