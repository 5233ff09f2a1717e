// The world: frame graphs built and driven by seeded choices, with the model that says what they mean.
#pragma once
#include "ctx.hpp"
#include "gpu.hpp"
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <functional>
#include <optional>
#include <set>
#include <stdexcept>

namespace sim::w
{
	enum class PK : u8 { Compute, Quad, Mesh, RPass, Copy, Blit, BufCopy, BufToImg, ImgToBuf, Mips, Custom, COUNT };
	enum class UK : u8
	{
		Sampled, StoIn, StoOut, StoClr, StoInOut, TrIn, TrOut, TrInOut,
		ColIn, ColInOut, ColOut, DepIn, DepInOut, DepOut, DSIn, DSInOut, DSOut, StIn, StInOut, StOut, Implicit, COUNT
	};
	enum class BK : u8 { Uniform, StoIn, StoOut, StoClr, StoInOut, TrIn, TrOut, TrInOut, Implicit, COUNT };
	char const * pkName( PK k );
	char const * ukName( UK k );
	inline bool isAttach( UK k ) { return k >= UK::ColIn && k <= UK::StOut; }
	inline bool isColour( UK k ) { return k >= UK::ColIn && k <= UK::ColOut; }
	inline bool isDescr( UK k ) { return k <= UK::StoInOut; }
	inline bool ukReads( UK k ) { return !( k == UK::StoOut || k == UK::StoClr || k == UK::TrOut || k == UK::ColOut || k == UK::DepOut || k == UK::DSOut || k == UK::StOut ); }
	inline bool ukWrites( UK k ) { return !( k == UK::Sampled || k == UK::StoIn || k == UK::TrIn || k == UK::Implicit ); } // attachments declared as inputs are consumed
	inline bool bkReads( BK k ) { return !( k == BK::StoOut || k == BK::StoClr || k == BK::TrOut ); }
	inline bool bkWrites( BK k ) { return !( k == BK::Uniform || k == BK::StoIn || k == BK::TrIn || k == BK::Implicit ); }

	struct WImg
	{
		int idx{};
		int graph{};
		std::string name;
		VkFormat fmt{};
		u32 w{}, h{}, d{ 1 }, mips{ 1 }, layers{ 1 };
		bool vol{ false };          // three dimensions
		bool line{ false };         // one dimension
		bool cube{ false };         // its layers may be seen as the faces of a cube
		VkImageViewType viewType( u32 nlayers, bool faces = false ) const
		{
			return vol ? VK_IMAGE_VIEW_TYPE_3D : line ? nlayers > 1 ? VK_IMAGE_VIEW_TYPE_1D_ARRAY : VK_IMAGE_VIEW_TYPE_1D : faces ? VK_IMAGE_VIEW_TYPE_CUBE : nlayers > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
		}
		crg::ImageId id;
		Image mock;                 // its locations hold what the model says
		Image * real{};
		bool external{ false };     // contents given by the application before every frame of its graph
		VkImageLayout extLayout{};
		bool extGpu{ false };       // written by commands submitted right before the graph's
		crg::AccessState extState{};
		bool foreign{ false };      // no pass declares it, the commands of one write it
		bool discarder{ false };    // rewritten from nothing by its graph's first user, in every frame
		bool shared{ false };
		bool actions{ false };      // has fallback actions
		bool noWrite{ false };
		u32 nlocs() const { return mock.nlocs(); }
	};
	struct WView
	{
		int idx{};
		int img{};
		VkImageSubresourceRange r{};
		crg::ImageViewId id;
		bool cube{ false };         // six layers seen as a cube
		u32 merge{};                // 1 made by merging views of its layers, 2 of its levels
		View mock;
		std::vector< u32 > locs;    // model locations, all aspects of the range
	};
	struct WBuf
	{
		int idx{};
		std::string name;
		VkBuffer vk{};
		Buffer * real{};
		Buffer mock;
		bool constant{ false };
		bool shared{ false };
		std::set< int > users;      // graphs
		int graph{ -1 };
	};
	struct Use
	{
		UK k{};
		std::vector< int > views;   // one, or one for each index
		u32 binding{};
		VkImageLayout layout{};     // of implicit uses
		VkClearValue clear{};
		bool blend{ false };
		u32 sampler{};
		u32 own{ 0 };               // barriers of the pass itself: to GENERAL for its commands (1 stays there, 2 comes back); 4 whole image overload, 8 forced
		VkImageSubresourceRange part{}; // what the pass itself clears of an in/out transfer
		bool toNext{ false };       // a custom pass leaves it the way the next one wants it
		u32 merged{ 0 };            // named as the union of its layers (1) or levels (2)
		int view( u32 index ) const { return views.size() == 1 ? views[0] : views[index]; }
	};
	struct BUse
	{
		BK k{};
		std::vector< int > bufs;
		u64 off{}, range{};
		u32 binding{};
		u64 partOff{}, partRange{}; // what a custom pass fills
		bool whole{ false };        // named as all of what follows its offset
		bool texel{ false };        // given as a view
		VkBufferView view{};
		crg::AccessState want{};    // of implicit uses
		u32 value{}, own{ 0 };      // barrier of the pass itself: 1 before its write, 2 with the overload that names an initial state, 4 forced
		int buf( u32 index ) const { return bufs.size() == 1 ? bufs[0] : bufs[index]; }
	};
	struct Act
	{
		enum K { Copy, Blit, Clear } k{};
		int view{};                 // destination
		int src{ -1 };
		VkClearValue clear{};
		VkExtent2D extent{};
		VkOffset2D so{}, doff{};
		VkExtent2D se{}, de{};
		VkFilter filter{};
		VkImageLayout finalLayout{};
		bool attach{ false };       // clears with what the attachment says
	};
	struct WPass
	{
		int graph{}, idx{};
		PK kind{};
		std::string name;
		crg::FramePass * fp{};
		crg::RunnablePass * rp{};
		std::vector< Use > uses;
		std::vector< BUse > bufs;
		std::set< int > deps;
		std::set< int > allDeps;    // closure
		u32 maxIdx{ 1 };
		bool canToggle{ true };
		bool enabled{ true };
		u32 index{ 0 };
		std::vector< std::shared_ptr< Prog > > prog;  // for each index
		std::vector< VkShaderModule > shader;
		std::vector< Act > acts;
		u32 nPre{ 0 }, nPost{ 0 };
		std::set< u32 > rd, wr;
		// parameters
		u32 groups[3]{ 1, 1, 1 };
		int dyn[3]{ -1, -1, -1 };   // implicit use which gives its vertices, indices, indirect parameters
		u32 perIndex{};             // draws use other buffers for each index: 1 vertices, 2 indices, 4 indirect
		u32 groupMode[3]{};         // default, given, callback
		u32 ownSets{ 0 };           // descriptor sets of the application in its pipeline layout
		std::vector< VkPushConstantRange > push;
		bool defaultCallbacks{ false };
		u32 indexType{ 0 };         // default, 32, 16
		int indirect{ -1 }; u64 indOff{}; u32 indStride{};
		bool texcoord{ false }, invU{ false }, invV{ false };
		u32 instances{ 1 };
		bool indexed{ false };
		u32 primCount{ 3 };
		VkCullModeFlags cull{};
		VkExtent2D size{};
		std::vector< VkExtent2D > sizes;    // of each index, if its attachment's size depends on it
		VkExtent2D sizeAt( u32 ix )const { return sizes.empty() ? size : sizes[ix]; }
		VkOffset2D pos{};
		bool depthTest{ false }, depthWrite{ false }, stencilTest{ false };
		VkExtent3D copySize{};
		VkOffset3D so{}, doff{};
		VkExtent3D se{}, de{};
		VkFilter filter{};
		VkImageLayout finalLayout{};
		u64 bcOff{}, bcRange{};
		u32 progMode{ 0 };          // program, programs, creator
		u32 enableMode{ 0 }, indexMode{ 0 };
		bool resettable{ false };
		bool sized{ false };        // given a render size
		u32 callbackArgs{};         // how many of its callbacks are given
		int group{ 0 };
		int foreign{ -1 };          // an image it never declares, given by the application before every frame
		u32 foreignAt{};            // written by a pre-action, by its commands, by a post-action
		u32 foreignHow{};           // 1 by view, 2 with the view's type, 4 forced, 8 back as a whole
		VkImageSubresourceRange foreignPart{};
		int foreignView{ -1 };
		VkClearValue foreignClear{};
		bool hasPipeline() const { return kind == PK::Compute || kind == PK::Quad || kind == PK::Mesh; }
		bool isGraphics() const { return kind == PK::Quad || kind == PK::Mesh || kind == PK::RPass; }
	};
	struct Ev
	{
		enum K { Init, Pre, Rec, Post, End, Action } k{};
		int graph{}, pass{};
		u32 idx{};
		u32 n{};
		u64 pos{};                  // commands recorded before
	};
	struct GInput { int view; crg::LayoutState st; };
	struct WGraph
	{
		int idx{};
		std::string name;
		std::unique_ptr< crg::FrameGraph > fg;
		crg::RunnableGraphPtr rg;
		std::vector< int > deps, dependents, allDeps;
		std::vector< std::unique_ptr< WPass > > passes;
		std::vector< std::unique_ptr< WPass > > later; // what it grows by
		bool grown{ false };        // they were made, the next runnable has them
		std::vector< crg::FramePassGroup * > grps;
		std::vector< GInput > inputs, outputs;
		std::optional< crg::SemaphoreWait > pending; // returned and not waited yet
		Submission * last{};
		std::vector< int > order;   // of creation
		u32 compiles{ 0 }, frames{ 0 };
		std::vector< int > images;
		std::set< int > named;      // views it knows, thus creates
		bool built{ false };
		VkQueue queue{};
		std::vector< bool > initialised; // pass * 4 + index, of the present runnable
	};

	struct World
	{
		std::vector< std::unique_ptr< WImg > > imgs;
		std::vector< std::unique_ptr< WView > > views;
		std::vector< std::unique_ptr< WBuf > > bufs;
		std::vector< std::unique_ptr< WGraph > > graphs;
		std::unique_ptr< crg::ResourceHandler > handler;
		std::unique_ptr< crg::GraphContext > ctx;
		std::map< u32, std::unique_ptr< Buffer > > quadVb;
		int vertexBuf[3]{ -1, -1, -1 }, indexBuf[3]{ -1, -1, -1 }, indirectBuf[3]{ -1, -1, -1 };
		// the buffer of an index, or the one of all of them
		crg::VkBufferArray drawBuffers( WPass & p, int const * b, u32 what );
		int drawBuffer( WPass & p, int const * b, u32 what, u32 ix ) { return p.dyn[what] >= 0 ? p.bufs[size_t( p.dyn[what] )].buf( ix ) : b[( p.perIndex >> what ) & 1 ? ix : 0]; }
		std::vector< Ev > evs;
		std::vector< Ev > evModel;
		bool evOn{ false };
		u32 nextProg{ 1 };
		u64 nextVal{ 1 };
		u32 focusKind{}, focusFmt{};
		VkQueue queues[2]{};
		u32 nqueues{ 1 };
		VkCommandPool userPool{};
		std::vector< u64 > ownLayouts; // descriptor set layouts of the application

		struct Lock { int view; int src; int pass; };
		// world_gen.cpp
		void generate();
		void buildGraph( int g );            // the library's passes
		void buildPasses( WGraph & g, std::vector< std::unique_ptr< WPass > > & ps );
		void mergeView( WGraph & g, int view, crg::FramePass & fp );
		static crg::SamplerDesc samplerOf( u32 k );
		crg::ImageViewData plainView( int v );
		crg::ImageViewId partId( WGraph & g, int v );
		int findView( int g, int img, u32 mip, u32 nmips, u32 layer, u32 nlayers, VkImageAspectFlags asp, int faces = -1 );
		crg::FramePass & createFp( WGraph & g, WPass & p, crg::FramePassGroup * grp );
		// world_model.cpp
		void modelFrame( WGraph & g );
		void modelPass( WPass & p );
		void modelAction( Act const & a );
		void undefine( std::vector< u32 > const & locs );
		Use * customCopySrc( WPass & p, Use const & dst );
		BUse * customBufSrc( WPass & p, BUse const & dst );
		Buffer * modelQuadVb( bool tex, bool iu, bool iv );
		u64 modelState( WPass const & p, u32 ix );
		// world_run.cpp
		void run();
		void writeForeign( WPass & p, crg::RecordContext & rc, VkCommandBuffer cb );
		crg::RunnablePassPtr makeRunnable( WGraph & g, WPass & p, crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg );
		u32 newProgram( WPass & p, u32 index );
		crg::VkPipelineShaderStageCreateInfoArray stages( WPass const & p, u32 index );
		WGraph & G( int i ) { return *graphs[size_t( i )]; }
		WImg & I( int i ) { return *imgs[size_t( i )]; }
		WView & Vw( int i ) { return *views[size_t( i )]; }
		// A layout in which an image of one aspect can be an attachment.
		VkImageLayout depthLayout( VkFormat fmt, bool readOnly )
		{
			auto const asp = aspectMaskOf( fmt );
			if ( asp == ( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ) && choose( 3, "mixed-layout" ) == 2 )
			{
				count( "layouts_mixed" );
				return readOnly ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL;
			}
			bool const alone = dev->separateDS && ( asp == VK_IMAGE_ASPECT_DEPTH_BIT || asp == VK_IMAGE_ASPECT_STENCIL_BIT ) && choose( 3, "layout-of-the-aspect" );
			if ( !alone ) return readOnly ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
			count( "layouts_of_one_aspect" );
			if ( asp == VK_IMAGE_ASPECT_STENCIL_BIT ) return readOnly ? VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL;
			return readOnly ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL;
		}
		WBuf & B( int i ) { return *bufs[size_t( i )]; }
	};
	struct InjectedFailure : std::runtime_error { using std::runtime_error::runtime_error; };
	struct VertexIn { std::vector< VkVertexInputAttributeDescription > a; std::vector< VkVertexInputBindingDescription > b; };
	VertexIn vertexIn( WPass const & p );
	VkPipelineDepthStencilStateCreateInfo dsState( WPass const & p );
	VkPipelineColorBlendAttachmentState blendState( Use const & u );
	VkImageLayout useLayout( UK k, VkImageLayout implicit );
}
