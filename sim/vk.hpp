// The simulated Vulkan device.
#pragma once
#include "rt.hpp"
#include <vulkan/vulkan.h>
#include <map>
#include <memory>
#include <deque>
#include <set>
#include <unordered_map>
#include <functional>
#include <array>

namespace sim
{
	enum class T : u8
	{
		Image, View, Buffer, BufferView, Memory, Sampler, RenderPass, Framebuffer, Pipeline, PipelineLayout,
		DSLayout, DescPool, DescSet, CmdPool, CmdBuf, Semaphore, Fence, QueryPool, Event, Shader, Queue, COUNT
	};
	char const * typeName( T t );

	struct Submission;

	// contents of one location: a hash, undefined contents carry taint
	struct V
	{
		u64 h{ 0x0DEAD };
		bool taint{ true };
		bool discarded{ false }; // undefined because a layout transition discarded it
		bool operator==( V const & o ) const { return h == o.h && taint == o.taint; }
	};
	V undefV( u64 salt, bool discarded = false );

	struct Obj
	{
		T type{};
		u64 h{};
		u32 ord{};          // creation number (all types)
		bool alive{ true };
		bool lib{ true };   // created by the library
		int inflight{ 0 };
		int children{ 0 };
		std::vector< Obj * > parents;
		VkDevice dev{};
		void const * alloc{};
		std::string name;
		u64 desc{ 0 };      // description independent of handles
		u32 thread{ 0 };    // simulated thread which created it
		virtual ~Obj() = default;
	};

	struct Memory : Obj
	{
		u64 size{}; u32 typeIndex{}; bool mapped{ false }; u64 mapOff{}, mapSize{};
		bool hostVisible{}, coherent{};
		std::vector< u8 > host, dev_;
		bool bound{ false };
	};

	struct Image : Obj
	{
		VkImageCreateInfo info{};
		Memory * mem{};
		u32 naspect{ 1 };
		u32 locBase{};
		u32 loc( u32 layer, u32 mip, u32 a ) const { return locBase + ( layer * info.mipLevels + mip ) * naspect + a; }
		u32 nlocs() const { return info.arrayLayers * info.mipLevels * naspect; }
		int tag{ -1 };  // index of the world's image
	};
	struct View : Obj { VkImageViewCreateInfo info{}; Image * img{}; };
	constexpr u32 CellSize = 64;
	struct Buffer : Obj
	{
		u64 size{}; VkBufferUsageFlags usage{}; Memory * mem{}; u64 memOff{};
		u32 locBase{}; u32 ncells{};
		int tag{ -1 };
	};
	struct BufferView : Obj { Buffer * buf{}; u64 off{}, range{}; };
	struct Sampler : Obj { VkSamplerCreateInfo info{}; };
	struct RenderPass : Obj
	{
		std::vector< VkAttachmentDescription > att;
		std::vector< VkAttachmentReference > col;
		bool hasDepth{ false };
		VkAttachmentReference depth{};
		std::vector< VkSubpassDependency > deps;
		u64 compat{};
	};
	struct Framebuffer : Obj { RenderPass * rp{}; u64 compat{}; std::vector< View * > views; u32 w{}, h_{}, layers{}; };

	struct ProgBind { u32 binding; VkDescriptorType type; bool r, w; bool partial{ false }; /* writes some of it, reads none of it */ };
	struct Prog
	{
		u32 id{};
		bool compute{};
		bool usesVertex{};
		std::vector< ProgBind > binds;
		std::vector< u64 > sets;                   // layouts of the application's own sets, after the library's
		std::vector< VkPushConstantRange > push;   // ranges of push constants it uses
	};
	struct Shader : Obj { std::shared_ptr< Prog > prog; };
	struct DSLayout : Obj { std::vector< VkDescriptorSetLayoutBinding > binds; };
	struct PipelineLayout : Obj { std::vector< DSLayout * > sets; std::vector< VkPushConstantRange > push; };
	struct Pipeline : Obj
	{
		VkPipelineBindPoint bp{};
		std::shared_ptr< Prog > prog;
		PipelineLayout * layout{};
		u64 layoutCompat{};
		u64 rpCompat{};
		u64 state{};
		bool depthTest{}, depthWrite{}, stencilTest{};
		u32 vertexBindings{ 0 };
	};
	struct DescPool : Obj { u32 maxSets{}, used{}; std::map< VkDescriptorType, u32 > cap, usedT; VkDescriptorPoolCreateFlags flags{}; std::vector< Obj * > sets; };
	struct DescBinding { VkDescriptorType type{}; bool written{ false }; View * view{}; VkImageLayout layout{}; Sampler * sampler{}; Buffer * buf{}; u64 off{}, range{}; };
	struct DescSet : Obj { DescPool * pool{}; DSLayout * layout{}; std::map< u32, DescBinding > b; u32 version{ 0 }; };
	struct CmdPool : Obj { VkCommandPoolCreateFlags flags{}; std::vector< Obj * > bufs; };
	struct Semaphore : Obj { Submission * signalBy{}; /*unconsumed signal*/ };
	struct Fence : Obj { bool signaled{ false }; Submission * sub{}; /*pending or last*/ bool pending{ false }; };
	struct QuerySlot { enum { None, Reset, Written } st{ None }; Submission * sub{}; u64 time{}; u64 value{}; };
	struct QueryPool : Obj { std::vector< QuerySlot > q; };
	struct Event : Obj { bool set{ false }; };
	struct Queue : Obj { u64 busyUntil{ 0 }; Submission * last{}; u32 idx{}; };

	// ---- recorded commands -------------------------------------------------
	enum class Op : u8
	{
		BindPipeline, BindSets, BindVB, BindIB, ClearColor, ClearDS, Dispatch, DispatchIndirect, Draw, DrawIndexed, DrawIndexedIndirect, DrawIndirect,
		BeginRP, EndRP, Push, ResetQuery, WriteTS, Barrier, Blit, CopyBuffer, CopyBufImg, CopyImage, CopyImgBuf, Execute, Fill, LabelBegin, LabelEnd,
		ResetEvent, SetEvent, WaitEvents, Probe
	};
	char const * opName( Op op );

	struct ImgB { VkAccessFlags src, dst; VkImageLayout from, to; Image * img; VkImageSubresourceRange r; };
	struct BufB { VkAccessFlags src, dst; Buffer * buf; u64 off, size; };
	struct Cmd
	{
		Op op{};
		Image * img{}; Image * img2{};
		VkImageLayout lay{}, lay2{};
		Buffer * buf{}; Buffer * buf2{};
		Pipeline * pipe{};
		DescSet * set{}; u32 setVersion{};
		PipelineLayout * plo{};
		RenderPass * rp{}; Framebuffer * fb{};
		QueryPool * qp{};
		VkPipelineStageFlags s1{}, s2{};
		VkDependencyFlags dflags{};
		u64 a[6]{};
		std::vector< ImgB > ib;
		std::vector< BufB > bb;
		std::vector< VkMemoryBarrier > mb;
		std::vector< VkImageCopy > icopy;
		std::vector< VkImageBlit > blit;
		std::vector< VkBufferImageCopy > bic;
		std::vector< VkBufferCopy > bcopy;
		std::vector< VkImageSubresourceRange > ranges;
		std::vector< VkClearValue > clears;
		VkRect2D area{};
		std::string text;
		// state resolved at record time for draws and dispatches
		Pipeline * dpipe{}; DescSet * dset{}; Buffer * dvb{}; u64 dvbOff{}; Buffer * dib{}; u64 dibOff{}; VkIndexType ditype{};
		RenderPass * drp{}; Framebuffer * dfb{}; u64 dpush{};
		VkRect2D darea{};
	};

	struct CmdBuf : Obj
	{
		enum St { Initial, Recording, Executable, Invalid } st{ Initial };
		CmdPool * pool{};
		VkCommandBufferUsageFlags usage{};
		VkCommandBufferLevel level{ VK_COMMAND_BUFFER_LEVEL_PRIMARY };
		std::vector< Cmd > cmds;
		std::set< Obj * > refs;
		u32 submits{ 0 };    // since recorded
		// recording state
		RenderPass * rp{}; Framebuffer * fb{}; VkRect2D area{};
		Pipeline * pipe[2]{};
		DescSet * set[2]{}; u64 setCompat[2]{};
		Buffer * vb{}; u64 vbOff{}; Buffer * ib{}; u64 ibOff{}; VkIndexType itype{};
		u64 push{ 0 };
		std::vector< std::string > labels;
	};

	struct Submission
	{
		u32 id{};
		Queue * q{};
		std::vector< CmdBuf * > cbs;
		std::set< Obj * > refs;
		Fence * fence{};
		std::vector< std::pair< Semaphore *, VkPipelineStageFlags > > waits;
		std::vector< Submission * > waitSubs;
		std::vector< Semaphore * > signals;
		Submission * prev{};       // earlier submission on the queue
		u64 tSubmit{}, start{}, end{};
		bool known{ false };       // completion observed by the host
		bool lib{ true };
	};

	// ---- device ---------------------------------------------------------------
	struct FaultPlan
	{
		bool on{ false };
		u32 rateNum{ 0 }, rateDen{ 1 };
		u64 nth{ ~0ull };  // the nth fallible call fails
		bool deviceLost{ false };
	};

	struct SubmitEvent
	{
		Submission * s;
	};

	struct Device
	{
		VkDevice handle{};
		VkAllocationCallbacks allocCb{};
		VkAllocationCallbacks const * alloc{};
		VkPhysicalDeviceMemoryProperties memProps{};
		u32 imageTypeBits{ ~0u }, bufferTypeBits{ ~0u }; // types of memory that images and buffers can use
		VkPhysicalDeviceProperties props{};
		std::vector< Queue * > queues;
		std::deque< std::unique_ptr< Obj > > all;
		std::map< std::pair< u32, u64 >, Obj * > live;
		std::vector< V > content;
		std::vector< VkImageLayout > layout;
		std::vector< Obj * > locOwner;
		std::deque< Submission > subs;
		FaultPlan faults;
		u64 fallible{ 0 };          // fallible calls so far
		u64 injected{ 0 };          // faults injected so far
		u64 injectedIn[8]{};        // in each simulated thread
		u64 injectedReportable{ 0 }; // those whose operation must throw
		std::string lastFault;
		VkResult lastFaultRes{ VK_SUCCESS };
		bool lost{ false };
		bool userMode{ false };     // calls are made by the simulated application, not the library
		u64 libSubmits{ 0 };
		Submission * lastSub{};
		bool destroyedContext{ false };
		u32 gpuMode{ 0 };           // distribution of durations
		bool wallJumps{ false };
		bool reorder{ false };      // explore GPU schedules
		u32 schedules{ 6 };
		bool separateDS{ true };
		u32 liveLib() const;
	};
	extern Device * dev;

	void deviceInit( u32 handleMode, u64 handleSeed );
	PFN_vkVoidFunction VKAPI_PTR getProc( VkDevice d, char const * name );

	template< typename O > O * find( u64 h );
	template< typename H > u64 hv( H h ) { return u64( h ); }
	Obj * findObj( T t, u64 h );

	// helpers for the application side (never faulty, owned by the application)
	struct UserScope { bool old; UserScope() { old = dev->userMode; dev->userMode = true; } ~UserScope() { dev->userMode = old; } };
	VkBuffer userCreateBuffer( u64 size, VkBufferUsageFlags usage, int tag );
	void userProbe( VkCommandBuffer h, Image * i, VkImageSubresourceRange const & r, VkImageLayout l ); // the library says that the image is in the layout there
	VkBufferView userCreateBufferView( VkBuffer b, u64 off, u64 range );
	VkQueue userCreateQueue();
	VkShaderModule userCreateShader( std::shared_ptr< Prog > p );
	void userDestroy( T t, u64 h );
	// sets layout and contents of a subresource as an application that initialised it before would have
	void userSetImage( Image * img, u32 layer, u32 mip, u32 aspect, VkImageLayout lay, V v );
	void userSetBuffer( Buffer * b, u32 cell, V v );
	void waitAll();                                  // the application waits for the device to be idle
	void markKnown( Submission * s );
	bool allKnown();
	u32 aspectsOf( VkFormat f );                     // number of aspect slots (1 or 2)
	VkImageAspectFlags aspectMaskOf( VkFormat f );
	VkImageAspectFlagBits aspectBit( VkFormat f, u32 slot );
	VkExtent3D mipExtent( Image const * i, u32 mip );
	void leakCheck();                                // C05: nothing of the library is left
	std::string objStr( Obj const * o );

	// ---- execution (gpu.cpp) ----------------------------------------------------
	void gpuSubmit( Submission * s );     // in-order execution, layouts, contents
	void gpuHostSync( Submission * s );   // the host learnt that s (and what precedes it) completed
	void gpuAppWrite( u32 loc, V v, VkImageLayout lay ); // by the application, fully synchronised
	void gpuIdle();                       // everything is known complete: explore schedules of the epoch
	VkImageLayout normLayout( VkImageLayout l, VkImageAspectFlagBits aspect );
	u64 hashProgDraw( u64 progId, u64 state, u64 p0, u64 p1, u64 p2, u64 p3, u64 push );

	// listener for the world
	struct Hooks
	{
		std::function< void( Submission * ) > onSubmit;
		std::function< void( CmdBuf *, Cmd const & ) > onCmd;
		std::function< void( Pipeline * ) > onDestroyPipeline;
	};
	extern Hooks hooks;
}
