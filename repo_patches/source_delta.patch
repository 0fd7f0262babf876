From 8917c60dd5cbb2464b8d3e5a4a9f74d08735aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 01/53] fix: keep the layouts of images and subresources that a
 frame does not use

---
 .../RenderGraph/LayerLayoutStatesHandler.hpp  |  4 ++
 include/RenderGraph/RecordContext.hpp         |  8 ++++
 .../RenderGraph/LayerLayoutStatesHandler.cpp  | 43 ++++++++++++++++++-
 source/RenderGraph/RecordContext.cpp          | 21 ++++++++-
 source/RenderGraph/RunnableGraph.cpp          | 27 +-----------
 5 files changed, 74 insertions(+), 29 deletions(-)

diff --git a/include/RenderGraph/LayerLayoutStatesHandler.hpp b/include/RenderGraph/LayerLayoutStatesHandler.hpp
index 1d363aa..0d88af3 100644
--- a/include/RenderGraph/LayerLayoutStatesHandler.hpp
+++ b/include/RenderGraph/LayerLayoutStatesHandler.hpp
@@ -13,6 +13,10 @@ namespace crg
 		CRG_API LayerLayoutStatesHandler() = default;
 		CRG_API explicit LayerLayoutStatesHandler( LayerLayoutStatesMap const & rhs );
 		CRG_API void addStates( LayerLayoutStatesHandler const & data );
+		CRG_API void addStates( LayerLayoutStatesHandler const & data
+			, ImageId image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & subresourceRange );
 
 		CRG_API void setLayoutState( ImageId image
 			, VkImageViewType viewType
diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 3d6528d..3fb42af 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -36,6 +36,13 @@ namespace crg
 		//@{
 		CRG_API void addStates( RecordContext const & data );
 		/**
+		*\brief
+		*	Sets the layouts the images were left in before this recording: the ones declared as the graph's inputs,
+		*	then the ones known at the end of the previous recording.
+		*/
+		CRG_API void setPreviousStates( LayerLayoutStatesHandler const & inputs
+			, RecordContext const & previous );
+		/**
 		*\name	Pipeline
 		*/
 		//@{
@@ -199,6 +206,7 @@ namespace crg
 		ResourceHandler * m_handler;
 		ContextResourcesCache * m_resources;
 		LayerLayoutStatesHandler m_images;
+		LayerLayoutStatesHandler m_previousImages;
 		AccessStateMap m_buffers;
 		std::vector< ImplicitTransition > m_implicitTransitions;
 		PassIndexArray m_state;
diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 2fe009d..8678408 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -17,9 +17,48 @@ namespace crg
 
 	void LayerLayoutStatesHandler::addStates( LayerLayoutStatesHandler const & data )
 	{
-		for ( auto & state : data.images )
+		for ( auto & [image, dataLayers] : data.images )
 		{
-			images.insert( state );
+			auto & layers = images[image];
+
+			for ( auto & [layer, levels] : dataLayers )
+			{
+				layers[layer].insert( levels.begin(), levels.end() );
+			}
+		}
+	}
+
+	void LayerLayoutStatesHandler::addStates( LayerLayoutStatesHandler const & data
+		, ImageId image
+		, VkImageViewType viewType
+		, VkImageSubresourceRange const & subresourceRange )
+	{
+		auto imageIt = data.images.find( image.id );
+
+		if ( imageIt == data.images.end() )
+		{
+			return;
+		}
+
+		auto range = getVirtualRange( image
+			, viewType
+			, subresourceRange );
+		auto & layers = images[image.id];
+
+		for ( auto & [layer, levels] : imageIt->second )
+		{
+			if ( layer >= range.baseArrayLayer
+				&& layer - range.baseArrayLayer < range.layerCount )
+			{
+				for ( auto & [level, state] : levels )
+				{
+					if ( level >= range.baseMipLevel
+						&& level - range.baseMipLevel < range.levelCount )
+					{
+						layers[layer].try_emplace( level, state );
+					}
+				}
+			}
 		}
 	}
 
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4b08707..d815c1c 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -9,6 +9,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/RunnableGraph.hpp"
 
 #include <array>
+#include <cassert>
 #include <string>
 #include <type_traits>
 #include <unordered_set>
@@ -76,6 +77,14 @@ namespace crg
 		}
 	}
 
+	void RecordContext::setPreviousStates( LayerLayoutStatesHandler const & inputs
+		, RecordContext const & previous )
+	{
+		m_previousImages = inputs;
+		m_previousImages.addStates( previous.m_images );
+		m_previousImages.addStates( previous.m_previousImages );
+	}
+
 	void RecordContext::setNextPipelineState( PipelineState const & state
 		, LayerLayoutStatesMap const & imageLayouts )
 	{
@@ -93,7 +102,11 @@ namespace crg
 
 	LayoutState RecordContext::getLayoutState( ImageViewId view )const
 	{
-		return m_images.getLayoutState( view );
+		assert( view.data->source.empty()
+			&& "Merged image views must be resolved before finding their layout state" );
+		return getLayoutState( view.data->image
+			, view.data->info.viewType
+			, view.data->info.subresourceRange );
 	}
 
 	void RecordContext::setLayoutState( ImageId image
@@ -111,7 +124,10 @@ namespace crg
 		, VkImageViewType viewType
 		, VkImageSubresourceRange const & subresourceRange )const
 	{
-		return m_images.getLayoutState( image
+		LayerLayoutStatesHandler known;
+		known.addStates( m_images, image, viewType, subresourceRange );
+		known.addStates( m_previousImages, image, viewType, subresourceRange );
+		return known.getLayoutState( image
 			, viewType
 			, subresourceRange );
 	}
@@ -227,6 +243,7 @@ namespace crg
 		auto range = recctx::adaptRange( *m_resources
 				, image.data->info.format
 				, subresourceRange );
+		m_images.addStates( m_previousImages, image, viewType, range );
 		auto from = getLayoutState( image
 			, viewType
 			, range );
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 5353d57..c484a72 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -297,6 +297,7 @@ namespace crg
 				, dependency->getFinalStates().getIndexState() );
 		}
 
+		recordContext.setPreviousStates( m_graph.m_inputs, m_graph.getFinalStates() );
 		auto itGraph = m_states.try_emplace( &m_graph ).first;
 		itGraph->second.resize( m_passes.size() );
 
@@ -419,31 +420,7 @@ namespace crg
 		, VkImageViewType viewType
 		, VkImageSubresourceRange range )const
 	{
-		auto result = context.getLayoutState( image, viewType, range );
-
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
-		{
-			// Lookup in graph's external inputs.
-			result = m_graph.getInputLayoutState( image, viewType, range );
-
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
-			{
-				context.setLayoutState( image, viewType, range, result );
-			}
-		}
-
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
-		{
-			// Lookup in graph's previous final state.
-			result = m_graph.getFinalLayoutState( image, viewType, range );
-
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
-			{
-				context.setLayoutState( image, viewType, range, result );
-			}
-		}
-
-		return result;
+		return context.getLayoutState( image, viewType, range );
 	}
 
 	LayoutState RunnableGraph::getCurrentLayoutState( RecordContext & context
-- 
2.43.0


From 81710a8dd14936199e31f65e8648e3229b5ed5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 02/53] fix: transition each part of a view from its own layout
 when the view isn't in a single layout

---
 source/RenderGraph/RecordContext.cpp          | 42 +++++++++++++++
 source/RenderGraph/RunnablePass.cpp           |  6 ---
 .../RunnablePasses/RenderPassHolder.cpp       | 53 +++++++++----------
 3 files changed, 68 insertions(+), 33 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index d815c1c..56cf199 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -8,6 +8,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/ResourceHandler.hpp"
 #include "RenderGraph/RunnableGraph.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <string>
@@ -43,6 +44,29 @@ namespace crg
 
 			return result;
 		}
+
+		// The parts of the given range that are tracked separately.
+		static std::vector< VkImageSubresourceRange > splitRange( VkImageViewType viewType
+			, VkImageSubresourceRange const & range )
+		{
+			std::vector< VkImageSubresourceRange > result;
+
+			for ( uint32_t level = 0u; level < range.levelCount; ++level )
+			{
+				if ( viewType == VK_IMAGE_VIEW_TYPE_3D )
+				{
+					result.push_back( { range.aspectMask, range.baseMipLevel + level, 1u, range.baseArrayLayer, range.layerCount } );
+					continue;
+				}
+
+				for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
+				{
+					result.push_back( { range.aspectMask, range.baseMipLevel + level, 1u, range.baseArrayLayer + layer, 1u } );
+				}
+			}
+
+			return result;
+		}
 	}
 
 	//************************************************************************************************
@@ -244,6 +268,24 @@ namespace crg
 				, image.data->info.format
 				, subresourceRange );
 		m_images.addStates( m_previousImages, image, viewType, range );
+
+		if ( auto ranges = recctx::splitRange( viewType, range );
+			std::any_of( ranges.begin()
+				, ranges.end()
+				, [this, &image, viewType, &ranges]( VkImageSubresourceRange const & lookup )
+				{
+					return getLayoutState( image, viewType, lookup ).layout != getLayoutState( image, viewType, ranges.front() ).layout;
+				} ) )
+		{
+			// The range isn't in one single layout, each one of its parts needs its own transition.
+			for ( auto & part : ranges )
+			{
+				memoryBarrier( commandBuffer, image, viewType, part, initialLayout, wantedState, force );
+			}
+
+			return;
+		}
+
 		auto from = getLayoutState( image
 			, viewType
 			, range );
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1cd5127..6ef2c30 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -407,7 +407,6 @@ namespace crg
 					{
 						context.memoryBarrier( commandBuffer
 							, view
-							, currentLayout.layout
 							, LayoutState{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } } );
 
 						if ( isColourFormat( getFormat( view ) ) )
@@ -430,15 +429,10 @@ namespace crg
 								, 1u
 								, &view.data->info.subresourceRange );
 						}
-
-						currentLayout.layout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
-						currentLayout.state.access = VK_ACCESS_TRANSFER_WRITE_BIT;
-						currentLayout.state.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
 					}
 
 					context.memoryBarrier( commandBuffer
 						, view
-						, currentLayout.layout
 						, needed );
 				}
 			}
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 92378b1..9dc86cd 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -17,8 +17,7 @@ namespace crg
 
 	namespace rpHolder
 	{
-		static VkAttachmentReference addAttach( RecordContext & context
-			, Attachment const & attach
+		static VkAttachmentReference addAttach( Attachment const & attach
 			, ImageViewId view
 			, VkAttachmentDescriptionArray & attaches
 			, std::vector< RenderPassHolder::Entry > & viewAttaches
@@ -42,24 +41,10 @@ namespace crg
 				, finalLayout.layout } );
 			viewAttaches.push_back( { view, initialLayout, finalLayout } );
 			clearValues.push_back( attach.getClearValue() );
-
-			if ( view.data->source.empty() )
-			{
-				context.setLayoutState( view, finalLayout );
-			}
-			else
-			{
-				for ( auto & source : view.data->source )
-				{
-					context.setLayoutState( source, finalLayout );
-				}
-			}
-
 			return result;
 		}
 
-		static VkAttachmentReference addAttach( RecordContext & context
-			, Attachment const & attach
+		static VkAttachmentReference addAttach( Attachment const & attach
 			, ImageViewId view
 			, VkAttachmentDescriptionArray & attaches
 			, std::vector< RenderPassHolder::Entry > & viewAttaches
@@ -70,8 +55,7 @@ namespace crg
 			, bool separateDepthStencilLayouts )
 		{
 			blendAttachs.push_back( attach.getBlendState() );
-			return addAttach( context
-				, attach
+			return addAttach( attach
 				, view
 				, attaches
 				, viewAttaches
@@ -81,6 +65,13 @@ namespace crg
 				, separateDepthStencilLayouts );
 		}
 
+		static ImageViewIdArray listSources( ImageViewId const & view )
+		{
+			return view.data->source.empty()
+				? ImageViewIdArray{ view }
+				: view.data->source;
+		}
+
 		static bool operator==( PipelineState const & lhs, PipelineState const & rhs )
 		{
 			return lhs.access == rhs.access
@@ -209,8 +200,15 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.input );
+			for ( auto & view : rpHolder::listSources( attach.view ) )
+			{
+				// Only has an effect when the whole attachment isn't in the layout the render pass expects.
+				context.memoryBarrier( commandBuffer
+					, view
+					, attach.input );
+				context.setLayoutState( view
+					, attach.input );
+			}
 		}
 
 		auto beginInfo = getBeginInfo( m_index );
@@ -226,8 +224,11 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.output );
+			for ( auto & view : rpHolder::listSources( attach.view ) )
+			{
+				context.setLayoutState( view
+					, attach.output );
+			}
 		}
 
 		m_currentPass = nullptr;
@@ -262,8 +263,7 @@ namespace crg
 
 				if ( attach.isDepthAttach() || attach.isStencilAttach() )
 				{
-					depthReference = rpHolder::addAttach( context
-						, attach
+					depthReference = rpHolder::addAttach( attach
 						, view
 						, attaches
 						, data.attaches
@@ -274,8 +274,7 @@ namespace crg
 				}
 				else if ( attach.isColourAttach() )
 				{
-					colorReferences.push_back( rpHolder::addAttach( context
-						, attach
+					colorReferences.push_back( rpHolder::addAttach( attach
 						, view
 						, attaches
 						, data.attaches
-- 
2.43.0


From 7fd7ac64c2e46b86f3e86a78c161768c793190ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 03/53] fix: a disabled pass is no neighbour when pipeline
 states are given to the passes

---
 source/RenderGraph/RunnableGraph.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index c484a72..7a849bc 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -305,7 +305,7 @@ namespace crg
 		{
 			auto it = itGraph->second.begin();
 			auto currPass = m_passes.begin();
-			recordContext.setNextPipelineState( ( *currPass )->getPipelineState()
+			recordContext.setNextPipelineState( rungrf::getNextState( ( *currPass )->getPipelineState(), currPass, m_passes.end() )
 				, ( *currPass )->getImageLayouts() );
 			auto nextPass = std::next( currPass );
 			m_fence.wait( 0xFFFFFFFFFFFFFFFFULL );
@@ -322,7 +322,15 @@ namespace crg
 				auto const & pass = *currPass;
 				++currPass;
 
-				if ( nextPass != m_passes.end() )
+				// A disabled pass is no neighbour for the other ones.
+				if ( !pass->isEnabled() )
+				{
+					if ( nextPass != m_passes.end() )
+					{
+						++nextPass;
+					}
+				}
+				else if ( nextPass != m_passes.end() )
 				{
 					recordContext.setNextPipelineState( rungrf::getNextState( pass->getPipelineState(), nextPass, m_passes.end() )
 						, rungrf::gatherNextImageLayouts( pass->getImageLayouts(), nextPass, m_passes.end() ) );
-- 
2.43.0


From 94c378f978dada8ae205375a4da083821cda4333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 04/53] fix: track the layout of every level and slice of a
 volume

---
 source/RenderGraph/FrameGraph.cpp             |  2 +-
 .../RenderGraph/LayerLayoutStatesHandler.cpp  | 75 ++++++++++++++-----
 2 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 0ef05c2..4f169a8 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -631,7 +631,7 @@ namespace crg
 				|| range.levelCount == image.data->info.mipLevels ) )
 		{
 			result.baseArrayLayer = 0u;
-			result.layerCount = getExtent( image ).depth >> range.baseMipLevel;
+			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
 		}
 
 		return result;
diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 8678408..13ea5e0 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -10,6 +10,32 @@ See LICENSE file in root folder.
 
 namespace crg
 {
+	namespace lyrstates
+	{
+		// A volume's levels don't have the same slices count.
+		static std::vector< VkImageSubresourceRange > getVirtualRanges( ImageId const & image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & subresourceRange )
+		{
+			if ( viewType != VK_IMAGE_VIEW_TYPE_3D )
+			{
+				return { subresourceRange };
+			}
+
+			std::vector< VkImageSubresourceRange > result;
+
+			for ( uint32_t level = 0u; level < subresourceRange.levelCount; ++level )
+			{
+				auto range = subresourceRange;
+				range.baseMipLevel += level;
+				range.levelCount = 1u;
+				result.push_back( getVirtualRange( image, viewType, range ) );
+			}
+
+			return result;
+		}
+	}
+
 	LayerLayoutStatesHandler::LayerLayoutStatesHandler( LayerLayoutStatesMap const & rhs )
 		: images{ rhs }
 	{
@@ -40,22 +66,22 @@ namespace crg
 			return;
 		}
 
-		auto range = getVirtualRange( image
-			, viewType
-			, subresourceRange );
 		auto & layers = images[image.id];
 
-		for ( auto & [layer, levels] : imageIt->second )
+		for ( auto & range : lyrstates::getVirtualRanges( image, viewType, subresourceRange ) )
 		{
-			if ( layer >= range.baseArrayLayer
-				&& layer - range.baseArrayLayer < range.layerCount )
+			for ( auto & [layer, levels] : imageIt->second )
 			{
-				for ( auto & [level, state] : levels )
+				if ( layer >= range.baseArrayLayer
+					&& layer - range.baseArrayLayer < range.layerCount )
 				{
-					if ( level >= range.baseMipLevel
-						&& level - range.baseMipLevel < range.levelCount )
+					for ( auto & [level, state] : levels )
 					{
-						layers[layer].try_emplace( level, state );
+						if ( level >= range.baseMipLevel
+							&& level - range.baseMipLevel < range.levelCount )
+						{
+							layers[layer].try_emplace( level, state );
+						}
 					}
 				}
 			}
@@ -67,13 +93,14 @@ namespace crg
 		, VkImageSubresourceRange const & subresourceRange
 		, LayoutState const & layoutState )
 	{
-		auto range = getVirtualRange( image
-			, viewType
-			, subresourceRange );
 		auto [it, _] = images.try_emplace( image.id );
-		addSubresourceRangeLayout( it->second
-			, range
-			, layoutState );
+
+		for ( auto & range : lyrstates::getVirtualRanges( image, viewType, subresourceRange ) )
+		{
+			addSubresourceRangeLayout( it->second
+				, range
+				, layoutState );
+		}
 	}
 
 	void LayerLayoutStatesHandler::setLayoutState( crg::ImageViewId view
@@ -93,10 +120,18 @@ namespace crg
 	{
 		if ( auto imageIt = images.find( image.id ); imageIt != images.end() )
 		{
-			auto range = getVirtualRange( image
-				, viewType
-				, subresourceRange );
-			return getSubresourceRangeLayout( imageIt->second
+			if ( viewType != VK_IMAGE_VIEW_TYPE_3D )
+			{
+				return getSubresourceRangeLayout( imageIt->second
+					, subresourceRange );
+			}
+
+			LayerLayoutStatesHandler slices;
+			slices.addStates( *this, image, viewType, subresourceRange );
+			auto range = subresourceRange;
+			range.baseArrayLayer = 0u;
+			range.layerCount = getExtent( image ).depth;
+			return getSubresourceRangeLayout( slices.images[image.id]
 				, range );
 		}
 
-- 
2.43.0


From 35882a4001deb688e165675316a1ba43cab11e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 05/53] fix: do not load the stencil of an attachment whose
 content is undefined

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 9dc86cd..25b13f7 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -35,7 +35,9 @@ namespace crg
 					? VK_ATTACHMENT_LOAD_OP_CLEAR
 					: attach.getLoadOp() )
 				, attach.getStoreOp()
-				, attach.getStencilLoadOp()
+				, ( ( initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED && attach.getStencilLoadOp() == VK_ATTACHMENT_LOAD_OP_LOAD )
+					? VK_ATTACHMENT_LOAD_OP_CLEAR
+					: attach.getStencilLoadOp() )
 				, attach.getStencilStoreOp()
 				, initialLayout.layout
 				, finalLayout.layout } );
-- 
2.43.0


From ec8447386b36854d6ac8c8808b2d4908acda3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 06/53] fix: run the implicit actions of every disabled pass
 that registered one for a view

---
 source/RenderGraph/RecordContext.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 56cf199..5ca258d 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -186,14 +186,18 @@ namespace crg
 		, uint32_t index
 		, crg::ImageViewId view )
 	{
-		auto it = std::find_if( m_implicitTransitions.begin()
-			, m_implicitTransitions.end()
-			, [&view]( ImplicitTransition const & lookup )
-			{
-				return lookup.view == view;
-			} );
+		auto findNext = [this, &view]()
+		{
+			return std::find_if( m_implicitTransitions.begin()
+				, m_implicitTransitions.end()
+				, [&view]( ImplicitTransition const & lookup )
+				{
+					return lookup.view == view;
+				} );
+		};
 
-		if ( it != m_implicitTransitions.end() )
+		// Several passes may have registered an action for the view.
+		for ( auto it = findNext(); it != m_implicitTransitions.end(); it = findNext() )
 		{
 			auto pass = it->pass;
 			auto action = it->action;
-- 
2.43.0


From 56063dc0bfb54ff3f1af32ddd4a0068d9a9b9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 07/53] fix: start from the most recent layout of the images
 shared with the graphs a graph depends on

---
 include/RenderGraph/FrameGraph.hpp    |  6 ++
 include/RenderGraph/RecordContext.hpp | 19 ++++--
 source/RenderGraph/FrameGraph.cpp     | 90 +++++++++++++++++++++++++++
 source/RenderGraph/RecordContext.cpp  | 11 ++--
 source/RenderGraph/RunnableGraph.cpp  |  4 +-
 5 files changed, 119 insertions(+), 11 deletions(-)

diff --git a/include/RenderGraph/FrameGraph.hpp b/include/RenderGraph/FrameGraph.hpp
index f41d695..8ecda34 100644
--- a/include/RenderGraph/FrameGraph.hpp
+++ b/include/RenderGraph/FrameGraph.hpp
@@ -11,6 +11,7 @@ See LICENSE file in root folder.
 #include "ImageViewData.hpp"
 #include "RecordContext.hpp"
 
+#include <functional>
 #include <map>
 #include <vector>
 
@@ -130,8 +131,12 @@ namespace crg
 
 	private:
 		void registerFinalState( RecordContext const & context );
+		LayerLayoutStatesHandler getPreviousLayoutStates()const;
 
 	private:
+		// The layouts set by the recordings, the most recent recording coming first.
+		using RecordedLayouts = std::map< uint64_t, LayerLayoutStatesHandler, std::greater<> >;
+
 		ResourceHandler & m_handler;
 		std::string m_name;
 		FramePassGroupPtr m_defaultGroup;
@@ -141,6 +146,7 @@ namespace crg
 		std::set< ImageViewId > m_imageViews;
 		std::map< std::string, ImageViewId, std::less<> > m_attachViews;
 		RecordContext m_finalState;
+		RecordedLayouts m_recordedLayouts;
 		FrameGraphArray m_depends;
 		LayerLayoutStatesHandler m_inputs;
 		LayerLayoutStatesHandler m_outputs;
diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 3fb42af..84b34c9 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -37,11 +37,22 @@ namespace crg
 		CRG_API void addStates( RecordContext const & data );
 		/**
 		*\brief
-		*	Sets the layouts the images were left in before this recording: the ones declared as the graph's inputs,
-		*	then the ones known at the end of the previous recording.
+		*	Same as addStates, but without the images layouts.
 		*/
-		CRG_API void setPreviousStates( LayerLayoutStatesHandler const & inputs
-			, RecordContext const & previous );
+		CRG_API void addAccessStates( RecordContext const & data );
+		/**
+		*\brief
+		*	Sets the layouts the images were left in before this recording.
+		*/
+		CRG_API void setPreviousStates( LayerLayoutStatesHandler images );
+		/**
+		*\return
+		*	The layouts of the images used in this recording.
+		*/
+		LayerLayoutStatesHandler const & getImageLayouts()const noexcept
+		{
+			return m_images;
+		}
 		/**
 		*\name	Pipeline
 		*/
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 4f169a8..21837a2 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -14,6 +14,7 @@ See LICENSE file in root folder.
 #include "GraphBuilder.hpp"
 
 #include <algorithm>
+#include <atomic>
 
 namespace crg
 {
@@ -110,6 +111,40 @@ namespace crg
 			return sortedPasses;
 		}
 
+		// Removes the given subresources, returns true if there is none left.
+		static bool removeStates( LayerLayoutStatesMap & from
+			, LayerLayoutStatesMap const & what )
+		{
+			for ( auto & [image, layers] : what )
+			{
+				if ( auto imageIt = from.find( image ); imageIt != from.end() )
+				{
+					for ( auto & [layer, levels] : layers )
+					{
+						if ( auto layerIt = imageIt->second.find( layer ); layerIt != imageIt->second.end() )
+						{
+							for ( auto & [level, _] : levels )
+							{
+								layerIt->second.erase( level );
+							}
+
+							if ( layerIt->second.empty() )
+							{
+								imageIt->second.erase( layerIt );
+							}
+						}
+					}
+
+					if ( imageIt->second.empty() )
+					{
+						from.erase( imageIt );
+					}
+				}
+			}
+
+			return from.empty();
+		}
+
 		static bool match( VkImageSubresourceRange const & lhsRange
 			, VkImageSubresourceRange const & rhsRange )noexcept
 		{
@@ -338,7 +373,62 @@ namespace crg
 
 	void FrameGraph::registerFinalState( RecordContext const & context )
 	{
+		static std::atomic< uint64_t > recordings{ 0u };
 		m_finalState = context;
+
+		for ( auto it = m_recordedLayouts.begin(); it != m_recordedLayouts.end(); )
+		{
+			it = fgph::removeStates( it->second.images, context.getImageLayouts().images )
+				? m_recordedLayouts.erase( it )
+				: std::next( it );
+		}
+
+		m_recordedLayouts.try_emplace( ++recordings, context.getImageLayouts() );
+	}
+
+	LayerLayoutStatesHandler FrameGraph::getPreviousLayoutStates()const
+	{
+		std::map< uint64_t, LayerLayoutStatesHandler const *, std::greater<> > recordings;
+		LayerLayoutStatesHandler dependencies;
+
+		for ( auto & [index, layouts] : m_recordedLayouts )
+		{
+			recordings.try_emplace( index, &layouts );
+		}
+
+		for ( auto & dependency : m_depends )
+		{
+			for ( auto & [index, layouts] : dependency->m_recordedLayouts )
+			{
+				recordings.try_emplace( index, &layouts );
+				dependencies.addStates( layouts );
+			}
+		}
+
+		LayerLayoutStatesHandler recorded;
+
+		for ( auto & [_, layouts] : recordings )
+		{
+			recorded.addStates( *layouts );
+		}
+
+		// The images used by the dependencies don't come from the outside.
+		LayerLayoutStatesHandler result;
+
+		for ( auto & [image, layers] : dependencies.images )
+		{
+			for ( auto & [layer, levels] : layers )
+			{
+				for ( auto & [level, _] : levels )
+				{
+					result.images[image][layer].try_emplace( level, recorded.images[image][layer][level] );
+				}
+			}
+		}
+
+		result.addStates( m_inputs );
+		result.addStates( recorded );
+		return result;
 	}
 
 	VkExtent3D getExtent( ImageId const & image )
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 5ca258d..88ca5e2 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -89,7 +89,11 @@ namespace crg
 	void RecordContext::addStates( RecordContext const & data )
 	{
 		m_images.addStates( data.m_images );
+		addAccessStates( data );
+	}
 
+	void RecordContext::addAccessStates( RecordContext const & data )
+	{
 		for ( auto & state : data.m_buffers )
 		{
 			m_buffers.insert( state );
@@ -101,12 +105,9 @@ namespace crg
 		}
 	}
 
-	void RecordContext::setPreviousStates( LayerLayoutStatesHandler const & inputs
-		, RecordContext const & previous )
+	void RecordContext::setPreviousStates( LayerLayoutStatesHandler images )
 	{
-		m_previousImages = inputs;
-		m_previousImages.addStates( previous.m_images );
-		m_previousImages.addStates( previous.m_previousImages );
+		m_previousImages = std::move( images );
 	}
 
 	void RecordContext::setNextPipelineState( PipelineState const & state
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 7a849bc..8f4897c 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -292,12 +292,12 @@ namespace crg
 
 		for ( auto & dependency : m_graph.getDependencies() )
 		{
-			recordContext.addStates( dependency->getFinalStates() );
+			recordContext.addAccessStates( dependency->getFinalStates() );
 			m_states.try_emplace( dependency
 				, dependency->getFinalStates().getIndexState() );
 		}
 
-		recordContext.setPreviousStates( m_graph.m_inputs, m_graph.getFinalStates() );
+		recordContext.setPreviousStates( m_graph.getPreviousLayoutStates() );
 		auto itGraph = m_states.try_emplace( &m_graph ).first;
 		itGraph->second.resize( m_passes.size() );
 
-- 
2.43.0


From fcb4de845d02b56bc64408b56bb8656a39a2e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 08/53] fix: wait for a semaphore given several times at all of
 its stages

---
 source/RenderGraph/RunnablePass.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 6ef2c30..379fd0d 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -47,14 +47,25 @@ namespace crg
 	{
 		for ( auto & wait : toWait )
 		{
-			if ( wait.semaphore
-				&& semaphores.end() == std::find( semaphores.begin()
-					, semaphores.end()
-					, wait.semaphore ) )
+			if ( !wait.semaphore )
+			{
+				continue;
+			}
+
+			auto it = std::find( semaphores.begin()
+				, semaphores.end()
+				, wait.semaphore );
+
+			if ( it == semaphores.end() )
 			{
 				semaphores.push_back( wait.semaphore );
 				dstStageMasks.push_back( wait.dstStageMask );
 			}
+			else
+			{
+				// A semaphore can be waited for only once, at all the wanted stages.
+				dstStageMasks[size_t( std::distance( semaphores.begin(), it ) )] |= wait.dstStageMask;
+			}
 		}
 	}
 
-- 
2.43.0


From cace490aac6c4f3d309e5a96c9b406ae8f9627e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 09/53] fix: report the hand-overs of the buffers used by
 transfers

---
 source/RenderGraph/FramePass.cpp                    | 4 ++--
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index ea3994a..5faeef3 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -120,7 +120,7 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return ( lookup.isStorageBuffer() || lookup.isTransferBuffer() )
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
@@ -134,7 +134,7 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return ( lookup.isStorageBuffer() || lookup.isTransferBuffer() )
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index e232e5c..c256109 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -157,14 +157,14 @@ namespace crg::builder
 			static bool isInput( Attachment const & attach )
 			{
 				return attach.isInput()
-					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer()
+					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer() || attach.isTransferBuffer()
 						|| attach.isStorageBufferView() || attach.isUniformBufferView() || attach.isTransitionBufferView() );
 			}
 
 			static bool isOutput( Attachment const & attach )
 			{
 				return attach.isOutput()
-					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() );
+					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() || attach.isTransferBuffer() );
 			}
 		};
 
-- 
2.43.0


From 0fa4bb72654da3da3d50f463a528665ba31a1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 10/53] fix: report the views and buffers coming from outside
 of a pass which also has hand-overs

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index c256109..3c047e2 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -553,14 +553,14 @@ namespace crg::builder
 			{
 				ViewTransition transition{ attach.view(), Attachment::createDefault( attach.view() ), attach };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				ViewTransition transition{ attach.view(), attach, Attachment::createDefault( attach.view() ) };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.viewTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
@@ -574,14 +574,14 @@ namespace crg::builder
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, Attachment::createDefault( attach.bufferAttach.buffer ), attach };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, attach, Attachment::createDefault( attach.bufferAttach.buffer ) };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.bufferTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
-- 
2.43.0


From 9ffd57beeabd374ab0dae7e848c9e358ea0a8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 11/53] fix: an attachment made for one view of a merged one is
 about this view

---
 source/RenderGraph/Attachment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 00426d3..2baf18c 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -436,6 +436,7 @@ namespace crg
 		, bufferAttach{ origin.bufferAttach }
 		, flags{ origin.flags }
 	{
+		imageAttach.views.assign( 1u, std::move( view ) );
 	}
 
 	Attachment::Attachment( ImageViewId view )
-- 
2.43.0


From 0fa89fe76cf4035d01dca6474216cb89d4ae6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 12/53] fix: use the layer count of each range to tell whether
 two ranges overlap

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 3c047e2..994006a 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -321,7 +321,7 @@ namespace crg::builder
 				&& areIntersecting( lhs.baseArrayLayer
 					, lhs.layerCount
 					, rhs.baseArrayLayer
-					, lhs.layerCount );
+					, rhs.layerCount );
 		}
 
 		static bool areOverlapping( ImageViewData const & lhs
-- 
2.43.0


From dcb55c01101ff0c084e64d014a5d631fb156e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 13/53] fix: write the exported transitions in one digraph

---
 source/RenderGraph/DotExport.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 1d314b5..c4d03f7 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -847,9 +847,20 @@ namespace crg::dot
 	{
 		auto result = displayTransitions( value, config );
 
-		for ( auto const & [_, strm] : result )
+		if ( config.splitGroups )
 		{
-			stream << strm.str();
+			for ( auto const & [name, strm] : result )
+			{
+				if ( !name.empty() )
+				{
+					stream << strm.str();
+				}
+			}
+		}
+		else
+		{
+			auto it = result.find( std::string{} );
+			stream << it->second.str();
 		}
 	}
 }
-- 
2.43.0


From b64aca8acba461153e82b9ad67aa7f62a9d5ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 14/53] fix: no dimension of a mip level is zero

---
 source/RenderGraph/FrameGraph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 21837a2..557df76 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -444,9 +444,9 @@ namespace crg
 	VkExtent3D getMipExtent( ImageViewId const & image )
 	{
 		auto result = getExtent( image.data->image );
-		result.width >>= image.data->info.subresourceRange.baseMipLevel;
-		result.height >>= image.data->info.subresourceRange.baseMipLevel;
-		result.depth >>= image.data->info.subresourceRange.baseMipLevel;
+		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
+		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
+		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
 		return result;
 	}
 
-- 
2.43.0


From 3e960ad3a53174f75dbe8bd166cd82893153f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 15/53] fix: the framebuffer of a render pass fits in all the
 views it uses, for its index

---
 .../RunnablePasses/RenderPassHolder.cpp       | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 25b13f7..2532833 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -352,8 +352,7 @@ namespace crg
 
 	void RenderPassHolder::doInitialiseRenderArea( uint32_t index )
 	{
-		uint32_t width{ m_size.width };
-		uint32_t height{ m_size.height };
+		VkExtent2D extent{ m_size };
 		m_passes[index].attachments.clear();
 		m_layers = 1u;
 
@@ -363,19 +362,19 @@ namespace crg
 				|| attach.isDepthAttach()
 				|| attach.isStencilAttach() )
 			{
-				auto view = attach.view();
+				// The framebuffer must fit in all the views it is made of.
+				auto view = attach.view( index );
+				auto viewExtent = getMipExtent( view );
+				auto viewLayers = view.data->info.subresourceRange.layerCount;
+				bool first = m_passes[index].attachments.empty();
+				extent.width = first ? viewExtent.width : std::min( extent.width, viewExtent.width );
+				extent.height = first ? viewExtent.height : std::min( extent.height, viewExtent.height );
+				m_layers = first ? viewLayers : std::min( m_layers, viewLayers );
 				m_passes[index].attachments.push_back( &attach );
-				width = std::max( width
-					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
-				height = std::max( height
-					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
-				m_layers = std::max( m_layers
-					, view.data->info.subresourceRange.layerCount );
 			}
 		}
 
-		m_passes[index].renderArea.extent.width = width;
-		m_passes[index].renderArea.extent.height = height;
+		m_passes[index].renderArea.extent = extent;
 	}
 
 	VkFramebuffer RenderPassHolder::doCreateFramebuffer( uint32_t passIndex )const
-- 
2.43.0


From ad898787b53f000c6cc28c64957c9f98aa195648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 16/53] fix: the viewport of a quad or mesh is by default the
 size of what it renders to

---
 include/RenderGraph/RunnablePasses/RenderPassHolder.hpp | 8 ++++++++
 source/RenderGraph/RunnablePasses/RenderMesh.cpp        | 2 +-
 source/RenderGraph/RunnablePasses/RenderQuad.cpp        | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 93f4493..6b3bfe3 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -52,6 +52,14 @@ namespace crg
 			return m_size;
 		}
 
+		// The asked size, else the size of the attachments for given index.
+		VkExtent2D const & getRenderSize( uint32_t index )const
+		{
+			return ( m_size.width && m_size.height )
+				? m_size
+				: m_passes[index].renderArea.extent;
+		}
+
 		VkRect2D const & getRenderArea( uint32_t index )const
 		{
 			return m_passes[index].renderArea;
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index c719f84..8154582 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -52,7 +52,7 @@ namespace crg
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
 			m_renderMesh.cleanup();
-			m_renderMesh.initialise( m_renderPass.getRenderSize()
+			m_renderMesh.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
 				, index );
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 66259b3..e571b46 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -51,7 +51,7 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
-			m_renderQuad.initialise( m_renderPass.getRenderSize()
+			m_renderQuad.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
 				, index );
-- 
2.43.0


From d82e7f63286dd448d684c4ccfc0d503182cd3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 17/53] fix: ComputePass configuration's passIndex can be used

It assigned a lambda to an optional callback, which does not compile.
---
 include/RenderGraph/RunnablePasses/ComputePass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/ComputePass.hpp b/include/RenderGraph/RunnablePasses/ComputePass.hpp
index 8585443..c2738df 100644
--- a/include/RenderGraph/RunnablePasses/ComputePass.hpp
+++ b/include/RenderGraph/RunnablePasses/ComputePass.hpp
@@ -78,10 +78,10 @@ namespace crg
 			*/
 			auto & passIndex( uint32_t const * config )
 			{
-				m_getPassIndex = [config]()
+				m_getPassIndex = RunnablePass::GetPassIndexCallback( [config]()
 				{
 					return *config;
-				};
+				} );
 				return *this;
 			}
 			/**
-- 
2.43.0


From 439e4fe1840bac027de0255d18b6c0469d47b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 18/53] fix: ComputePass configuration's pushConstants can take
 several ranges

It called the optional member instead of the setter, which does not compile.
---
 include/RenderGraph/RunnablePasses/ComputePass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/RenderGraph/RunnablePasses/ComputePass.hpp b/include/RenderGraph/RunnablePasses/ComputePass.hpp
index c2738df..d879fe3 100644
--- a/include/RenderGraph/RunnablePasses/ComputePass.hpp
+++ b/include/RenderGraph/RunnablePasses/ComputePass.hpp
@@ -216,7 +216,7 @@ namespace crg
 			*/
 			auto & pushConstants( VkPushConstantRangeArray config )
 			{
-				m_baseConfig.m_pushConstants( std::move( config ) );
+				m_baseConfig.pushConstants( std::move( config ) );
 				return *this;
 			}
 
-- 
2.43.0


From b40988c4726051beafae8efb61d209b1d25f57ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 19/53] fix: a compute pass dispatches the group counts given
 for Y and Z

The callback of the X count was called for all of them, even when it wasn't given.
---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index e872569..68e39ee 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -96,8 +96,8 @@ namespace crg
 		{
 			context->vkCmdDispatch( commandBuffer
 				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
-				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountY )
-				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountZ ) );
+				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
+				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
 		}
 
 		m_cpConfig.end( context, commandBuffer, index );
-- 
2.43.0


From 2b9e5e808953f2f0d906e4e270bc9f83ffca1cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 20/53] fix: a compute pass doesn't create again a pipeline it
 has

It leaked the previous one when the indices share a program, or after a reset before the first run.
---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index 68e39ee..d36dc31 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -105,6 +105,11 @@ namespace crg
 
 	void ComputePass::doCreatePipeline( uint32_t index )
 	{
+		if ( m_pipeline.getPipeline( index ) )
+		{
+			return;
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkComputePipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From 131eb378103be9d0b1a1a76420096a31366041ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 21/53] fix: an image blit ends at its offset plus its size

The end of the blit regions was the size alone, which is another region as soon as an offset isn't zero.
---
 source/RenderGraph/RunnablePasses/ImageBlit.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ImageBlit.cpp b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
index f6de0e2..7c5d2cb 100644
--- a/source/RenderGraph/RunnablePasses/ImageBlit.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
@@ -21,6 +21,14 @@ namespace crg
 				, range.baseArrayLayer
 				, range.layerCount };
 		}
+
+		static VkOffset3D getEnd( VkOffset3D const & offset
+			, VkExtent3D const & size )
+		{
+			return VkOffset3D{ offset.x + int32_t( size.width )
+				, offset.y + int32_t( size.height )
+				, offset.z + int32_t( size.depth ) };
+		}
 	}
 
 	ImageBlit::ImageBlit( FramePass const & pass
@@ -61,9 +69,9 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		VkImageBlit blitRegion{ imgBlit::convert( srcAttach.data->info.subresourceRange )
-			, { m_srcOffset, VkOffset3D{ int32_t( m_srcSize.width ), int32_t( m_srcSize.height ), int32_t( m_srcSize.depth ) } }
+			, { m_srcOffset, imgBlit::getEnd( m_srcOffset, m_srcSize ) }
 			, imgBlit::convert( dstAttach.data->info.subresourceRange )
-			, { m_dstOffset, VkOffset3D{ int32_t( m_dstSize.width ), int32_t( m_dstSize.height ), int32_t( m_dstSize.depth ) } } };
+			, { m_dstOffset, imgBlit::getEnd( m_dstOffset, m_dstSize ) } };
 		context->vkCmdBlitImage( commandBuffer
 			, srcImage
 			, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
-- 
2.43.0


From fd31fecc9c00e47d08f6089a731f7c908b3acb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 22/53] fix: an implicit blit ends at its offsets plus its
 extents

The end of the blit regions was the extent alone.
---
 source/RenderGraph/RecordContext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 88ca5e2..30ed011 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -516,10 +516,10 @@ namespace crg
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
-					, VkOffset3D{ int32_t( srcExtent.width ), int32_t( srcExtent.height ), 1 } }
+					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
 				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
-					, VkOffset3D{ int32_t( dstExtent.width ), int32_t( dstExtent.height ), 1 } } };
+					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
 				, srcView.data->image
 				, srcView.data->info.viewType
-- 
2.43.0


From d95fe930a15cc5ac98e49258ee56deb3e3e43dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 23/53] fix: implicit copies and blits work on all the layers
 of their views

Only the first layer was copied.
---
 source/RenderGraph/RecordContext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 30ed011..818b7d0 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -461,9 +461,9 @@ namespace crg
 				, srcView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
-			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
+			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, srcSubresource.layerCount }
 				, VkOffset3D{ 0u, 0u, 0u }
-				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
+				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, dstSubresource.layerCount }
 				, VkOffset3D{ 0u, 0u, 0u }
 			, { extent.width, extent.height, 1u } };
 			recContext.memoryBarrier( commandBuffer
@@ -514,10 +514,10 @@ namespace crg
 				, srcView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
-			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
+			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, srcSubresource.layerCount }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
 					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
-				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
+				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, dstSubresource.layerCount }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
 					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
-- 
2.43.0


From c492390b22bbb2c5479403a14545a7fba88d03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 24/53] fix: copies between buffers and images use the declared
 range of the buffer

They always worked at the start of the buffer.
---
 source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp | 2 +-
 source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
index db2c985..1601b7d 100644
--- a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		// Copy source to target.
 		auto range = bufToImg::convert( dstAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
diff --git a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
index b2e167e..064c43e 100644
--- a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		// Copy source to target.
 		auto range = imToBuf::convert( srcAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
-- 
2.43.0


From 492954ecf4b91b1fae4f91d3d66fd76142815ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 25/53] fix: image views differing by their component mapping
 are different views

---
 include/RenderGraph/ImageViewData.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 4e28351..abca5ee 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -48,11 +48,20 @@ namespace crg
 			&& lhs.levelCount == rhs.levelCount;
 	}
 
+	inline bool operator==( VkComponentMapping const & lhs, VkComponentMapping const & rhs )
+	{
+		return lhs.r == rhs.r
+			&& lhs.g == rhs.g
+			&& lhs.b == rhs.b
+			&& lhs.a == rhs.a;
+	}
+
 	inline bool operator==( VkImageViewCreateInfo const & lhs, VkImageViewCreateInfo const & rhs )
 	{
 		return lhs.flags == rhs.flags
 			&& lhs.viewType == rhs.viewType
 			&& lhs.format == rhs.format
+			&& lhs.components == rhs.components
 			&& lhs.subresourceRange == rhs.subresourceRange;
 	}
 
-- 
2.43.0


From 922bf6d2a5913dfce34f2578ad3f6e7ab50b3569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 26/53] fix: an image created for its view is owned by the
 cache which creates the view

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bada67f..db400eb 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -554,6 +554,8 @@ namespace crg
 
 	VkImageView ContextResourcesCache::createImageView( ImageViewId const & view )
 	{
+		// The image may have to be created too, this cache then owns it
+		createImage( view.data->image );
 		auto [result, created] = m_handler.createImageView( m_context, view );
 
 		if ( created )
-- 
2.43.0


From a58a80dd106e40d93073798d5189eb305d3ab03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 27/53] fix: a resource destroyed through its cache is
 forgotten by the cache

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index db400eb..1c9c155 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -574,6 +574,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImage( m_context, imageId );
+			m_images.erase( it );
 		}
 
 		return result;
@@ -587,6 +588,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImageView( m_context, viewId );
+			m_imageViews.erase( it );
 		}
 
 		return result;
-- 
2.43.0


From 29e41f13680fb3caee0e76a11fe43fb3b83aae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 28/53] fix: a resource whose creation fails leaves nothing
 behind and can be created again

---
 source/RenderGraph/ResourceHandler.cpp | 150 ++++++++++++++++++-------
 1 file changed, 108 insertions(+), 42 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 1c9c155..5dbbc61 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -97,6 +97,72 @@ namespace crg
 				| ( ( config.invertV ? 0x01u : 0x00u ) << 2u ) };
 			return result;
 		}
+
+		/**
+		*	Undoes a partial creation, unless it has been dismissed.
+		*/
+		template< typename FuncT >
+		struct Rollback
+		{
+			explicit Rollback( FuncT func )
+				: m_func{ std::move( func ) }
+			{
+			}
+
+			Rollback( Rollback const & ) = delete;
+			Rollback & operator=( Rollback const & ) = delete;
+
+			~Rollback()noexcept
+			{
+				if ( m_active )
+				{
+					m_func();
+				}
+			}
+
+			void dismiss()noexcept
+			{
+				m_active = false;
+			}
+
+		private:
+			FuncT m_func;
+			bool m_active{ true };
+		};
+
+		static void destroy( GraphContext & context
+			, std::pair< VkImage, VkDeviceMemory > const & image )
+		{
+			if ( context.vkFreeMemory && image.second )
+			{
+				context.vkFreeMemory( context.device, image.second, context.allocator );
+			}
+
+			if ( context.vkDestroyImage && image.first )
+			{
+				context.vkDestroyImage( context.device, image.first, context.allocator );
+			}
+		}
+
+		static void destroy( GraphContext & context
+			, VertexBuffer & vertexBuffer )
+		{
+			if ( context.vkFreeMemory && vertexBuffer.memory )
+			{
+				crgUnregisterObject( context, vertexBuffer.memory );
+				context.vkFreeMemory( context.device
+					, vertexBuffer.memory
+					, context.allocator );
+			}
+
+			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
+			{
+				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
+				context.vkDestroyBuffer( context.device
+					, vertexBuffer.buffer.buffer()
+					, context.allocator );
+			}
+		}
 	}
 
 	//*********************************************************************************************
@@ -186,14 +252,20 @@ namespace crg
 
 			if ( ins )
 			{
+				reshdl::Rollback rollback{ [this, &context, pos = it]()
+					{
+						reshdl::destroy( context, pos->second );
+						m_images.erase( pos );
+					} };
 				// Create image
 				auto createInfo = reshdl::convert( *imageId.data );
+				VkImage image{};
 				auto res = context.vkCreateImage( context.device
 					, &createInfo
 					, context.allocator
-					, &it->second.first );
-				auto image = it->second.first;
+					, &image );
 				checkVkResult( res, "Image creation" );
+				it->second.first = image;
 				crgRegisterObjectName( context, imageId.data->name, image );
 
 				if ( context.device )
@@ -209,12 +281,13 @@ namespace crg
 						, nullptr
 						, requirements.size
 						, deduced };
+					VkDeviceMemory memory{};
 					res = context.vkAllocateMemory( context.device
 						, &allocateInfo
 						, context.allocator
-						, &it->second.second );
-					auto memory = it->second.second;
+						, &memory );
 					checkVkResult( res, "Image memory allocation" );
+					it->second.second = memory;
 					crgRegisterObjectName( context, imageId.data->name, memory );
 
 					// Bind image and memory
@@ -225,6 +298,8 @@ namespace crg
 					checkVkResult( res, "Image memory binding" );
 					created = true;
 				}
+
+				rollback.dismiss();
 			}
 
 			result = { it->second.first, created };
@@ -246,6 +321,10 @@ namespace crg
 
 			if ( ins )
 			{
+				reshdl::Rollback rollback{ [this, pos = it]()
+					{
+						m_imageViews.erase( pos );
+					} };
 				auto image = createImage( context, view.data->image ).first;
 				auto createInfo = reshdl::convert( *view.data, image );
 				auto res = context.vkCreateImageView( context.device
@@ -255,6 +334,7 @@ namespace crg
 				checkVkResult( res, "ImageView creation" );
 				crgRegisterObjectName( context, view.data->name, it->second );
 				created = true;
+				rollback.dismiss();
 			}
 
 			result = { it->second, created };
@@ -294,8 +374,8 @@ namespace crg
 				, &createInfo
 				, context.allocator
 				, &result );
-			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			checkVkResult( res, "Sampler creation" );
+			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			sampler.name = "Sampler_" + suffix;
 			crgRegisterObject( context, sampler.name, result );
 		}
@@ -315,6 +395,10 @@ namespace crg
 		{
 			auto result = std::make_unique< VertexBuffer >();
 			vertexBuffer = result.get();
+			reshdl::Rollback rollback{ [&context, vertexBuffer]()
+				{
+					reshdl::destroy( context, *vertexBuffer );
+				} };
 			VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
 				, nullptr
 				, 0u
@@ -323,11 +407,13 @@ namespace crg
 				, VK_SHARING_MODE_EXCLUSIVE
 				, 0u
 				, nullptr };
+			VkBuffer vkBuffer{};
 			auto res = context.vkCreateBuffer( context.device
 				, &createInfo
 				, context.allocator
-				, &vertexBuffer->buffer.buffer() );
+				, &vkBuffer );
 			checkVkResult( res, "Vertex buffer creation" );
+			vertexBuffer->buffer.buffer() = vkBuffer;
 			crgRegisterObject( context, "QuadVertexBuffer_" + suffix, vertexBuffer->buffer.buffer() );
 
 			if ( context.device )
@@ -342,11 +428,13 @@ namespace crg
 					, nullptr
 					, requirements.size
 					, deduced };
+				VkDeviceMemory memory{};
 				res = context.vkAllocateMemory( context.device
 					, &allocateInfo
 					, context.allocator
-					, &vertexBuffer->memory );
+					, &memory );
 				checkVkResult( res, "Buffer memory allocation" );
+				vertexBuffer->memory = memory;
 				crgRegisterObject( context, "QuadVertexMemory_" + suffix, vertexBuffer->memory );
 
 				res = context.vkBindBufferMemory( context.device
@@ -387,7 +475,8 @@ namespace crg
 						, vertexBuffer->memory
 						, 0u
 						, VK_WHOLE_SIZE };
-					context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
+					res = context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
+					checkVkResult( res, "Buffer memory flush" );
 					context.vkUnmapMemory( context.device, vertexBuffer->memory );
 				}
 
@@ -409,6 +498,7 @@ namespace crg
 			}
 
 			m_vertexBuffers.emplace( std::move( result ) );
+			rollback.dismiss();
 		}
 
 		return vertexBuffer;
@@ -422,16 +512,7 @@ namespace crg
 
 		if ( it != m_images.end() )
 		{
-			if ( context.vkFreeMemory && it->second.second )
-			{
-				context.vkFreeMemory( context.device, it->second.second, context.allocator );
-			}
-
-			if ( context.vkDestroyImage && it->second.first )
-			{
-				context.vkDestroyImage( context.device, it->second.first, context.allocator );
-			}
-
+			reshdl::destroy( context, it->second );
 			m_images.erase( it );
 		}
 	}
@@ -486,24 +567,7 @@ namespace crg
 
 		if ( it != m_vertexBuffers.end() )
 		{
-			auto & vertexBuffer = **it;
-
-			if ( context.vkFreeMemory && vertexBuffer.memory )
-			{
-				crgUnregisterObject( context, vertexBuffer.memory );
-				context.vkFreeMemory( context.device
-					, vertexBuffer.memory
-					, context.allocator );
-			}
-
-			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
-			{
-				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
-				context.vkDestroyBuffer( context.device
-					, vertexBuffer.buffer.buffer()
-					, context.allocator );
-			}
-
+			reshdl::destroy( context, **it );
 			m_vertexBuffers.erase( it );
 		}
 	}
@@ -597,13 +661,14 @@ namespace crg
 	VkSampler ContextResourcesCache::createSampler( SamplerDesc const & samplerDesc )
 	{
 		auto hash = reshdl::makeHash( samplerDesc );
-		auto [it, res] = m_samplers.try_emplace( hash, VkSampler{} );
+		auto it = m_samplers.find( hash );
 
-		if ( res )
+		if ( it == m_samplers.end() )
 		{
-			it->second = m_handler.createSampler( m_context
+			auto sampler = m_handler.createSampler( m_context
 				, std::to_string( hash )
 				, samplerDesc );
+			it = m_samplers.try_emplace( hash, sampler ).first;
 		}
 
 		return it->second;
@@ -613,14 +678,15 @@ namespace crg
 		, Texcoord const & config )
 	{
 		auto hash = reshdl::makeHash( texCoords, config );
-		auto [it, res] = m_vertexBuffers.emplace( hash, nullptr );
+		auto it = m_vertexBuffers.find( hash );
 
-		if ( res )
+		if ( it == m_vertexBuffers.end() )
 		{
-			it->second = m_handler.createQuadTriVertexBuffer( m_context
+			auto vertexBuffer = m_handler.createQuadTriVertexBuffer( m_context
 				, std::to_string( hash )
 				, texCoords
 				, config );
+			it = m_vertexBuffers.try_emplace( hash, vertexBuffer ).first;
 		}
 
 		return *it->second;
-- 
2.43.0


From 17a31bf10106b5006297caa3d88e4ae0da77fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 29/53] fix: inverted texture coordinates of the full screen
 triangle stay within the texture

---
 source/RenderGraph/ResourceHandler.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 5dbbc61..1581f10 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -460,10 +460,11 @@ namespace crg
 					auto rangeV = 1.0;
 					auto minV = -rangeV;
 					auto maxV = minV + 2.0 * rangeV;
-					auto realMinU = float( config.invertU ? maxU : minU );
-					auto realMaxU = float( config.invertU ? minU : maxU );
-					auto realMinV = float( config.invertV ? maxV : minV );
-					auto realMaxV = float( config.invertV ? minV : maxV );
+					// The visible part of the triangle is the first half for U, the second one for V
+					auto realMinU = float( config.invertU ? minU + rangeU : minU );
+					auto realMaxU = float( config.invertU ? minU - rangeU : maxU );
+					auto realMinV = float( config.invertV ? maxV + rangeV : minV );
+					auto realMaxV = float( config.invertV ? maxV - rangeV : maxV );
 					std::array<reshdl::Quad::Vertex, 3u > vertexData
 					{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
 						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
-- 
2.43.0


From a5b269cf576e62cd6d833a863b06fdba3fb60396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 30/53] fix: the layouts of an image are forgotten when it is
 created again

---
 include/RenderGraph/FrameGraph.hpp      |  2 ++
 include/RenderGraph/ResourceHandler.hpp |  6 +++++
 source/RenderGraph/FrameGraph.cpp       | 32 +++++++++++++++++++++----
 source/RenderGraph/ResourceHandler.cpp  |  8 +++++++
 4 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/include/RenderGraph/FrameGraph.hpp b/include/RenderGraph/FrameGraph.hpp
index 8ecda34..7115b1c 100644
--- a/include/RenderGraph/FrameGraph.hpp
+++ b/include/RenderGraph/FrameGraph.hpp
@@ -147,6 +147,8 @@ namespace crg
 		std::map< std::string, ImageViewId, std::less<> > m_attachViews;
 		RecordContext m_finalState;
 		RecordedLayouts m_recordedLayouts;
+		// The image creations the recorded layouts are about.
+		std::map< uint32_t, uint64_t > m_recordedCreations;
 		FrameGraphArray m_depends;
 		LayerLayoutStatesHandler m_inputs;
 		LayerLayoutStatesHandler m_outputs;
diff --git a/include/RenderGraph/ResourceHandler.hpp b/include/RenderGraph/ResourceHandler.hpp
index f09a3e3..61c312d 100644
--- a/include/RenderGraph/ResourceHandler.hpp
+++ b/include/RenderGraph/ResourceHandler.hpp
@@ -56,6 +56,11 @@ namespace crg
 			, VkSampler sampler );
 		CRG_API void destroyVertexBuffer( GraphContext & context
 			, VertexBuffer const * buffer );
+		/**
+		*\return
+		*	The number of times the given image has been created.
+		*/
+		CRG_API uint64_t getImageCreations( uint32_t imageId )const;
 
 	private:
 		mutable std::mutex m_imagesMutex;
@@ -63,6 +68,7 @@ namespace crg
 		mutable std::mutex m_viewsMutex;
 		ImageViewIdDataOwnerCont m_imageViewIds;
 		ImageMemoryMap m_images;
+		std::map< uint32_t, uint64_t > m_imageCreations;
 		ImageViewMap m_imageViews;
 		std::mutex m_samplersMutex;
 		std::unordered_map< VkSampler, Sampler > m_samplers;
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 557df76..79efbd4 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -145,6 +145,20 @@ namespace crg
 			return from.empty();
 		}
 
+		// Removes the states of the images which have been created again since they were recorded.
+		static void removeLostImages( LayerLayoutStatesMap & images
+			, std::map< uint32_t, uint64_t > const & creations
+			, ResourceHandler const & handler )
+		{
+			for ( auto it = images.begin(); it != images.end(); )
+			{
+				auto creationIt = creations.find( it->first );
+				it = ( creationIt != creations.end() && creationIt->second != handler.getImageCreations( it->first ) )
+					? images.erase( it )
+					: std::next( it );
+			}
+		}
+
 		static bool match( VkImageSubresourceRange const & lhsRange
 			, VkImageSubresourceRange const & rhsRange )noexcept
 		{
@@ -378,30 +392,38 @@ namespace crg
 
 		for ( auto it = m_recordedLayouts.begin(); it != m_recordedLayouts.end(); )
 		{
+			fgph::removeLostImages( it->second.images, m_recordedCreations, m_handler );
 			it = fgph::removeStates( it->second.images, context.getImageLayouts().images )
 				? m_recordedLayouts.erase( it )
 				: std::next( it );
 		}
 
 		m_recordedLayouts.try_emplace( ++recordings, context.getImageLayouts() );
+
+		for ( auto const & [image, _] : context.getImageLayouts().images )
+		{
+			m_recordedCreations.insert_or_assign( image, m_handler.getImageCreations( image ) );
+		}
 	}
 
 	LayerLayoutStatesHandler FrameGraph::getPreviousLayoutStates()const
 	{
-		std::map< uint64_t, LayerLayoutStatesHandler const *, std::greater<> > recordings;
+		std::map< uint64_t, LayerLayoutStatesHandler, std::greater<> > recordings;
 		LayerLayoutStatesHandler dependencies;
 
 		for ( auto & [index, layouts] : m_recordedLayouts )
 		{
-			recordings.try_emplace( index, &layouts );
+			auto it = recordings.try_emplace( index, layouts ).first;
+			fgph::removeLostImages( it->second.images, m_recordedCreations, m_handler );
 		}
 
 		for ( auto & dependency : m_depends )
 		{
 			for ( auto & [index, layouts] : dependency->m_recordedLayouts )
 			{
-				recordings.try_emplace( index, &layouts );
-				dependencies.addStates( layouts );
+				auto it = recordings.try_emplace( index, layouts ).first;
+				fgph::removeLostImages( it->second.images, dependency->m_recordedCreations, dependency->m_handler );
+				dependencies.addStates( it->second );
 			}
 		}
 
@@ -409,7 +431,7 @@ namespace crg
 
 		for ( auto & [_, layouts] : recordings )
 		{
-			recorded.addStates( *layouts );
+			recorded.addStates( layouts );
 		}
 
 		// The images used by the dependencies don't come from the outside.
diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 1581f10..c9da7dd 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -300,6 +300,7 @@ namespace crg
 				}
 
 				rollback.dismiss();
+				++m_imageCreations[imageId.id];
 			}
 
 			result = { it->second.first, created };
@@ -573,6 +574,13 @@ namespace crg
 		}
 	}
 
+	uint64_t ResourceHandler::getImageCreations( uint32_t imageId )const
+	{
+		lock_type lock( m_imagesMutex );
+		auto it = m_imageCreations.find( imageId );
+		return it == m_imageCreations.end() ? 0u : it->second;
+	}
+
 	//*********************************************************************************************
 
 	ContextResourcesCache::ContextResourcesCache( ResourceHandler & handler
-- 
2.43.0


From a542d13c4a1d3772e7f5c78df397e94c1ba340e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 31/53] fix: the objects of a pipeline which could not be
 created are created at the next attempt, once

---
 source/RenderGraph/RunnablePasses/PipelineHolder.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index c899604..23e2475 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -46,11 +46,19 @@ namespace crg
 
 	void PipelineHolder::initialise()
 	{
-		if ( !m_pipelineLayout )
+		if ( !m_descriptorSetLayout )
 		{
 			doFillDescriptorBindings();
 			doCreateDescriptorSetLayout();
+		}
+
+		if ( !m_pipelineLayout )
+		{
 			doCreatePipelineLayout();
+		}
+
+		if ( !m_descriptorSetPool )
+		{
 			doCreateDescriptorPool();
 		}
 	}
@@ -239,6 +247,8 @@ namespace crg
 			return;
 		}
 
+		descriptorSet.writes.clear();
+
 		for ( auto & attach : m_pass.images )
 		{
 			if ( attach.isSampledView() )
-- 
2.43.0


From 298536b74d90ced5fc89eef0cc6b144787234acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 32/53] fix: a graph which could not be compiled leaves no
 semaphore and command buffer behind

---
 include/RenderGraph/RunnableGraph.hpp |  3 +++
 source/RenderGraph/RunnableGraph.cpp  | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 21383da..2b377e6 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -137,6 +137,9 @@ namespace crg
 			return m_timer;
 		}
 
+	private:
+		void doCleanup()noexcept;
+
 	private:
 		FrameGraph & m_graph;
 		GraphContext & m_context;
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 8f4897c..e987315 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -193,6 +193,19 @@ namespace crg
 			, { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } }
 		, m_timer{ context, graph.getName() + "/Graph", TimerScope::eGraph, getTimerQueryPool(), getTimerQueryOffset() }
 	{
+		// The destructor isn't called for a graph which couldn't be wholly created.
+		struct Rollback
+		{
+			RunnableGraph * graph;
+
+			~Rollback()noexcept
+			{
+				if ( graph )
+				{
+					graph->doCleanup();
+				}
+			}
+		} rollback{ this };
 		auto name = m_graph.getName() + "/Graph";
 
 		if ( m_context.vkCreateSemaphore )
@@ -262,9 +275,16 @@ namespace crg
 				pass->initialise( pass->getIndex() );
 			}
 		}
+
+		rollback.graph = nullptr;
 	}
 
 	RunnableGraph::~RunnableGraph()noexcept
+	{
+		doCleanup();
+	}
+
+	void RunnableGraph::doCleanup()noexcept
 	{
 		if ( m_context.vkDestroySemaphore && m_semaphore )
 		{
-- 
2.43.0


From b9597b674c1170e61a61e48e80744e53669c118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 33/53] fix: failures of command buffers, fences and
 submissions are reported

---
 source/RenderGraph/RunnableGraph.cpp | 17 ++++++++++-------
 source/RenderGraph/RunnablePass.cpp  | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index e987315..8f43cac 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -238,8 +238,10 @@ namespace crg
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
-			m_context.vkEndCommandBuffer( m_commandBuffer );
+			res = m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
+			checkVkResult( res, name + " - CommandBuffer recording" );
+			res = m_context.vkEndCommandBuffer( m_commandBuffer );
+			checkVkResult( res, name + " - CommandBuffer recording" );
 		}
 
 		Logger::logDebug( m_graph.getName() + " - Initialising resources" );
@@ -328,13 +330,13 @@ namespace crg
 			recordContext.setNextPipelineState( rungrf::getNextState( ( *currPass )->getPipelineState(), currPass, m_passes.end() )
 				, ( *currPass )->getImageLayouts() );
 			auto nextPass = std::next( currPass );
-			m_fence.wait( 0xFFFFFFFFFFFFFFFFULL );
-			m_context.vkResetCommandBuffer( m_commandBuffer, 0u );
+			checkVkResult( m_fence.wait( 0xFFFFFFFFFFFFFFFFULL ), getName() + " - Fence wait" );
+			checkVkResult( m_context.vkResetCommandBuffer( m_commandBuffer, 0u ), getName() + " - CommandBuffer reset" );
 			VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
+			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo ), getName() + " - CommandBuffer recording" );
 			m_timer.beginPass( m_commandBuffer );
 
 			while ( currPass != m_passes.end() )
@@ -367,7 +369,7 @@ namespace crg
 			}
 
 			m_timer.endPass( m_commandBuffer );
-			m_context.vkEndCommandBuffer( m_commandBuffer );
+			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer ), getName() + " - CommandBuffer recording" );
 		}
 
 		m_graph.registerFinalState( recordContext );
@@ -413,10 +415,11 @@ namespace crg
 			, &m_semaphore };
 		m_fence.reset();
 		m_context.delQueue.clear( m_context );
-		m_context.vkQueueSubmit( queue
+		auto res = m_context.vkQueueSubmit( queue
 			, 1u
 			, &submitInfo
 			, m_fence );
+		checkVkResult( res, getName() + " - Queue submission" );
 		return { SemaphoreWait{ m_semaphore
 			, m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };
 	}
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 379fd0d..e0e455a 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -180,12 +180,13 @@ namespace crg
 		{
 			if ( !m_fenceWaited )
 			{
-				wait( 0xFFFFFFFFFFFFFFFFULL );
+				checkVkResult( wait( 0xFFFFFFFFFFFFFFFFULL ), "Fence wait" );
 			}
 
-			m_context->vkResetFences( m_context->device
+			auto res = m_context->vkResetFences( m_context->device
 				, 1u
 				, &m_fence );
+			checkVkResult( res, "Fence reset" );
 		}
 
 		m_fenceWaited = false;
@@ -204,7 +205,7 @@ namespace crg
 				, timeout );
 		}
 
-		m_fenceWaited = true;
+		m_fenceWaited = ( res == VK_SUCCESS );
 		return res;
 	}
 
@@ -361,14 +362,14 @@ namespace crg
 
 		assert( m_passes.size() > index );
 		auto & pass = m_passes[index];
-		pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL );
+		checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL ), m_pass.getGroupName() + " - Fence wait" );
 		VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 			, nullptr
 			, VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT
 			, nullptr };
-		m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo );
+		checkVkResult( m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo ), m_pass.getGroupName() + " - CommandBuffer recording" );
 		recordInto( enabled.commandBuffer, index, context );
-		m_context.vkEndCommandBuffer( enabled.commandBuffer );
+		checkVkResult( m_context.vkEndCommandBuffer( enabled.commandBuffer ), m_pass.getGroupName() + " - CommandBuffer recording" );
 	}
 
 	void RunnablePass::recordInto( VkCommandBuffer commandBuffer
@@ -514,10 +515,11 @@ namespace crg
 
 			if ( pass.commandBuffer.commandBuffer )
 			{
-				pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL );
+				checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL ), m_pass.getGroupName() + " - Fence wait" );
 				pass.commandBuffer.recorded = false;
-				m_context.vkResetCommandBuffer( pass.commandBuffer.commandBuffer
+				auto res = m_context.vkResetCommandBuffer( pass.commandBuffer.commandBuffer
 					, VK_COMMAND_BUFFER_RESET_RELEASE_RESOURCES_BIT );
+				checkVkResult( res, m_pass.getGroupName() + " - CommandBuffer reset" );
 			}
 		}
 	}
-- 
2.43.0


From 837a46806ed248343f089227a6b15372197455be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 34/53] fix: a render pass, or its pipeline objects, which
 could not be created are created at the next attempt

---
 .../RunnablePasses/RenderMeshHolder.hpp       |  6 +++++
 .../RenderGraph/RunnablePasses/RenderMesh.cpp |  3 ++-
 .../RunnablePasses/RenderMeshHolder.cpp       |  4 ++-
 .../RunnablePasses/RenderPassHolder.cpp       | 25 ++++++++++++++-----
 .../RenderGraph/RunnablePasses/RenderQuad.cpp |  3 ++-
 5 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
index d39e7aa..abef174 100644
--- a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
@@ -39,6 +39,11 @@ namespace crg
 		CRG_API bool isEnabled()const;
 		CRG_API VkExtent2D getRenderSize()const;
 
+		bool isInitialised()const
+		{
+			return m_initialised;
+		}
+
 	private:
 		void doPreparePipelineStates( VkExtent2D const & renderSize
 			, VkRenderPass renderPass
@@ -51,6 +56,7 @@ namespace crg
 	private:
 		rm::ConfigData m_config;
 		PipelineHolder m_pipeline;
+		bool m_initialised{};
 		VkRenderPass m_renderPass{};
 		VkExtent2D m_renderSize{};
 		VkViewport m_viewport{};
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index 8154582..8b16879 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -49,7 +49,8 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
-		if ( m_renderPass.initialise( context, *this, index ) )
+		if ( m_renderPass.initialise( context, *this, index )
+			|| !m_renderMesh.isInitialised() )
 		{
 			m_renderMesh.cleanup();
 			m_renderMesh.initialise( m_renderPass.getRenderSize( index )
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index ee2f234..c5ab723 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -80,10 +80,12 @@ namespace crg
 		}
 
 		doCreatePipeline( index );
+		m_initialised = true;
 	}
 
 	void RenderMeshHolder::cleanup()
 	{
+		m_initialised = false;
 		m_pipeline.cleanup();
 	}
 
@@ -102,7 +104,7 @@ namespace crg
 	{
 		m_pipeline.resetPipeline( std::move( config ), index );
 
-		if ( m_renderPass )
+		if ( m_initialised )
 		{
 			doCreatePipeline( index );
 		}
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 2532833..1ef729f 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -170,12 +170,25 @@ namespace crg
 			return false;
 		}
 
-		data.cleanup( m_context );
-		doCreateRenderPass( context
-			, runnable
-			, previousState
-			, nextState
-			, passIndex );
+		auto previous = std::move( data );
+		data = {};
+
+		try
+		{
+			doCreateRenderPass( context
+				, runnable
+				, previousState
+				, nextState
+				, passIndex );
+		}
+		catch ( ... )
+		{
+			// The previous one is still in use.
+			data = std::move( previous );
+			throw;
+		}
+
+		previous.cleanup( m_context );
 		doInitialiseRenderArea( passIndex );
 		return true;
 	}
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index e571b46..ee8f529 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -49,7 +49,8 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
-		if ( m_renderPass.initialise( context, *this, index ) )
+		if ( m_renderPass.initialise( context, *this, index )
+			|| !m_renderQuad.isInitialised() )
 		{
 			m_renderQuad.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
-- 
2.43.0


From 7e8c9cbb52e84ededf6c857af76339735e9e65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 35/53] fix: passes wait at the stage and for the accesses of
 their sampled views, in compute passes as well

---
 source/RenderGraph/Attachment.cpp   | 8 ++------
 source/RenderGraph/RunnablePass.cpp | 4 +++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 2baf18c..af92b55 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -390,15 +390,11 @@ namespace crg
 	{
 		VkPipelineStageFlags result{ 0u };
 
-		if ( isSampledView() )
-		{
-			result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
-		}
-		else if ( isTransitionView() )
+		if ( isTransitionView() )
 		{
 			result |= getStageMask( wantedLayout );
 		}
-		else if ( isStorageView() )
+		else if ( isSampledView() || isStorageView() )
 		{
 			if ( isCompute )
 			{
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index e0e455a..9903729 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -409,7 +409,9 @@ namespace crg
 				if ( !attach.isNoTransition()
 					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
 				{
-					auto needed = makeLayoutState( attach.getImageLayout( m_context.separateDepthStencilLayouts ) );
+					LayoutState needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
+						, attach.getAccessMask()
+						, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) };
 					auto currentLayout = ( !attach.isInput()
 						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
 						: m_graph.getCurrentLayoutState( context, view ) );
-- 
2.43.0


From 26ac6974b773f082206b64060756558ea69c17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 36/53] fix: the state of a range of an image is the one of all
 of its subresources

---
 source/RenderGraph/FrameGraph.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 79efbd4..bea2816 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -715,6 +715,7 @@ namespace crg
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wnull-dereference"
 							rit->second.state.access |= state.state.access;
+							rit->second.state.pipelineStage |= state.state.pipelineStage;
 #pragma GCC diagnostic pop
 						}
 					}
@@ -729,7 +730,16 @@ namespace crg
 				, getStageMask( VK_IMAGE_LAYOUT_UNDEFINED ) };
 		}
 
-		return states.begin()->second;
+		// The layout is the one of some of the subresources, but whatever follows has to wait for all of them.
+		auto result = states.begin()->second;
+
+		for ( auto & [_, state] : states )
+		{
+			result.state.access |= state.state.access;
+			result.state.pipelineStage |= state.state.pipelineStage;
+		}
+
+		return result;
 	}
 
 	VkImageSubresourceRange getVirtualRange( ImageId const & image
-- 
2.43.0


From a5d832ad7426fa3ee0762e0beca02b682b12e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 37/53] fix: a barrier is recorded between two writes, or when
 only the accesses differ

---
 source/RenderGraph/RecordContext.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 818b7d0..38a856e 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -45,6 +45,26 @@ namespace crg
 			return result;
 		}
 
+		static bool isWrite( VkAccessFlags access )
+		{
+			return ( access
+				& ( VK_ACCESS_SHADER_WRITE_BIT
+					| VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT
+					| VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
+					| VK_ACCESS_TRANSFER_WRITE_BIT
+					| VK_ACCESS_HOST_WRITE_BIT
+					| VK_ACCESS_MEMORY_WRITE_BIT ) ) != 0u;
+		}
+
+		// Only reads that were already made possible by the previous barrier can go without another one.
+		static bool needsBarrier( PipelineState const & from
+			, PipelineState const & wanted )
+		{
+			return from.access != wanted.access
+				|| from.pipelineStage != wanted.pipelineStage
+				|| isWrite( wanted.access );
+		}
+
 		// The parts of the given range that are tracked separately.
 		static std::vector< VkImageSubresourceRange > splitRange( VkImageViewType viewType
 			, VkImageSubresourceRange const & range )
@@ -304,7 +324,7 @@ namespace crg
 
 		if ( force
 			|| ( ( from.layout != wantedState.layout
-				|| from.state.pipelineStage != wantedState.state.pipelineStage )
+				|| recctx::needsBarrier( from.state, wantedState.state ) )
 				&& wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED ) )
 		{
 			auto & resources = getResources();
@@ -397,10 +417,10 @@ namespace crg
 		}
 
 		if ( force
-			|| ( from.access != wantedState.access
-				|| from.pipelineStage != wantedState.pipelineStage ) )
+			|| recctx::needsBarrier( from, wantedState ) )
 		{
 			auto const & resources = getResources();
+			// The state is known for the buffer as a whole, hence a barrier for all of it.
 			VkBufferMemoryBarrier barrier{ VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER
 				, nullptr
 				, from.access
-- 
2.43.0


From 9409bfa54dc1e805393154f3aa226d3b131b91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 38/53] fix: a render pass waits for the last users of its
 attachments, and at the stages of its depth attachment

---
 .../RunnablePasses/RenderPassHolder.cpp       | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 1ef729f..bd154fb 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -74,6 +74,13 @@ namespace crg
 				: view.data->source;
 		}
 
+		static void merge( PipelineState const & state
+			, PipelineState & result )
+		{
+			result.access |= state.access;
+			result.pipelineStage |= state.pipelineStage;
+		}
+
 		static bool operator==( PipelineState const & lhs, PipelineState const & rhs )
 		{
 			return lhs.access == rhs.access
@@ -260,6 +267,11 @@ namespace crg
 		VkAttachmentReference depthReference{};
 		auto & data = m_passes[passIndex];
 		m_blendAttachs.clear();
+		// The attachments may come from, and go to, other passes than the neighbours of this one.
+		auto before = previousState;
+		auto after = nextState;
+		PipelineState during{ VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+			, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT };
 
 		for ( auto & attach : m_pass.images )
 		{
@@ -275,9 +287,14 @@ namespace crg
 					? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
 					: currentLayout );
 				checkUndefinedInput( "RenderPass", attach, resolved, from.layout );
+				rpHolder::merge( currentLayout.state, before );
+				rpHolder::merge( nextLayout.state, after );
 
 				if ( attach.isDepthAttach() || attach.isStencilAttach() )
 				{
+					rpHolder::merge( { VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT
+							, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT }
+						, during );
 					depthReference = rpHolder::addAttach( attach
 						, view
 						, attaches
@@ -317,17 +334,17 @@ namespace crg
 		VkSubpassDependencyArray dependencies{
 			{ VK_SUBPASS_EXTERNAL
 				, 0u
-				, previousState.pipelineStage
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
-				, previousState.access
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+				, before.pipelineStage
+				, during.pipelineStage
+				, before.access
+				, during.access
 				, VK_DEPENDENCY_BY_REGION_BIT }
 			, { 0u
 				, VK_SUBPASS_EXTERNAL
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
-				, nextState.pipelineStage
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
-				, nextState.access
+				, during.pipelineStage
+				, after.pipelineStage
+				, during.access
+				, after.access
 				, VK_DEPENDENCY_BY_REGION_BIT } };
 		VkRenderPassCreateInfo createInfo{ VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO
 			, nullptr
-- 
2.43.0


From e826cf09215422b079c75b6fef3013af4fd0bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 39/53] fix: uniform buffers are waited for

---
 source/RenderGraph/Attachment.cpp   | 4 ++++
 source/RenderGraph/RunnablePass.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index af92b55..e82a225 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -141,6 +141,10 @@ namespace crg
 				result |= VK_ACCESS_TRANSFER_WRITE_BIT;
 			}
 		}
+		else if ( isUniform() && !isView() )
+		{
+			result |= VK_ACCESS_UNIFORM_READ_BIT;
+		}
 		else
 		{
 			result |= VK_ACCESS_SHADER_READ_BIT;
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 9903729..83948bd 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -454,7 +454,7 @@ namespace crg
 			for ( auto & attach : m_pass.buffers )
 			{
 				if ( !attach.isNoTransition()
-					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
+					&& ( attach.isUniformBuffer() || attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
 				{
 					auto & range = attach.getBufferRange();
 					auto buffer = attach.buffer( index );
-- 
2.43.0


From 822280f3fc4582aa3fd0e830dddf52487c69e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 40/53] fix: several passes, or attachments of a pass, may use
 parts of a buffer

---
 source/RenderGraph/RecordContext.cpp |  4 ++--
 source/RenderGraph/RunnablePass.cpp  | 23 ++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 38a856e..977817c 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -428,8 +428,8 @@ namespace crg
 				, VK_QUEUE_FAMILY_IGNORED
 				, VK_QUEUE_FAMILY_IGNORED
 				, buffer
-				, subresourceRange.offset
-				, subresourceRange.size };
+				, 0u
+				, VK_WHOLE_SIZE };
 			resources->vkCmdPipelineBarrier( commandBuffer
 				, from.pipelineStage
 				, wantedState.pipelineStage
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 83948bd..dd264bc 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -26,6 +26,27 @@ namespace crg
 				? size + ( align - rem )
 				: size );
 		}
+
+		// What the whole pass does with the buffer, which several of its attachments may be using.
+		static AccessState getBufferState( FramePass const & pass
+			, VkBuffer buffer
+			, uint32_t index
+			, bool isCompute )
+		{
+			AccessState result{};
+
+			for ( auto & attach : pass.buffers )
+			{
+				if ( !attach.isNoTransition()
+					&& attach.buffer( index ) == buffer )
+				{
+					result.access |= attach.getAccessMask();
+					result.pipelineStage |= attach.getPipelineStageFlags( isCompute );
+				}
+			}
+
+			return result;
+		}
 	}
 
 	//*********************************************************************************************
@@ -482,7 +503,7 @@ namespace crg
 						, range
 						, currentState.access
 						, currentState.pipelineStage
-						, { attach.getAccessMask(), attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } );
+						, details::getBufferState( m_pass, buffer, index, m_callbacks.isComputePass() ) );
 				}
 			}
 
-- 
2.43.0


From 490df5a101fc45b4a0f51d5ec810695bc9368dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 41/53] fix: objects waiting for deletion are destroyed with
 the context

---
 source/RenderGraph/GraphContext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/GraphContext.cpp b/source/RenderGraph/GraphContext.cpp
index 3c403ce..e748223 100644
--- a/source/RenderGraph/GraphContext.cpp
+++ b/source/RenderGraph/GraphContext.cpp
@@ -147,6 +147,8 @@ namespace crg
 
 	GraphContext::~GraphContext()noexcept
 	{
+		delQueue.clear( *this );
+
 #if VK_EXT_debug_utils || VK_EXT_debug_marker
 		for ( auto const & [_, alloc] : m_allocated )
 		{
-- 
2.43.0


From 9b7876a01bf320ef691294ccd762279af7585626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:25 +0000
Subject: [PATCH 42/53] fix: resetting a pipeline waits for the frame which may
 use the pass's objects

---
 source/RenderGraph/RunnablePass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index dd264bc..4c132af 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -533,6 +533,8 @@ namespace crg
 	{
 		if ( m_context.device )
 		{
+			// The last frame of the graph may still use what the pass is about to replace.
+			checkVkResult( m_graph.getFence().wait( 0xFFFFFFFFFFFFFFFFULL ), m_pass.getGroupName() + " - Fence wait" );
 			assert( m_passes.size() > passIndex );
 			auto & pass = m_passes[passIndex];
 
-- 
2.43.0


From a0856cdc4e1c233e6ddd4bf9d47b16fd620eab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:49 +0000
Subject: [PATCH 43/53] fix: the colours of the debug labels may be asked for
 by several threads at once

---
 source/RenderGraph/GraphContext.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/GraphContext.cpp b/source/RenderGraph/GraphContext.cpp
index e748223..9cf3acb 100644
--- a/source/RenderGraph/GraphContext.cpp
+++ b/source/RenderGraph/GraphContext.cpp
@@ -6,6 +6,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/Exception.hpp"
 #include "RenderGraph/Log.hpp"
 
+#include <atomic>
 #include <cassert>
 #include <cmath>
 #include <stdexcept>
@@ -202,13 +203,21 @@ namespace crg
 
 	std::array< float, 4u > GraphContext::getNextRainbowColour()const
 	{
-		static float currentColourHue{ 0.0f };
-		currentColourHue += 0.0125f;
+		// Shared by all contexts, which may be used from different threads
+		static std::atomic< float > lastColourHue{ 0.0f };
+		auto previousHue = lastColourHue.load();
+		float currentColourHue{};
 
-		if ( currentColourHue > 1.0f )
+		do
 		{
-			currentColourHue = 0.0f;
+			currentColourHue = previousHue + 0.0125f;
+
+			if ( currentColourHue > 1.0f )
+			{
+				currentColourHue = 0.0f;
+			}
 		}
+		while ( !lastColourHue.compare_exchange_weak( previousHue, currentColourHue ) );
 
 		float brightness = 1.0f;
 		float saturation = 1.0f;
-- 
2.43.0


From 7ad9663d4f195eedef3604ecd8b17ba1305f8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 44/53] fix: a new connection to a signal never takes the place
 of another one

---
 include/RenderGraph/Signal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 3e4d3ca..ff4ad25 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -170,7 +170,8 @@ namespace crg
 		*/
 		my_connection connect( Function function )
 		{
-			uint32_t index = uint32_t( m_slots.size() ) + 1u;
+			// The indices of the remaining slots must not be given again.
+			uint32_t index = m_slots.empty() ? 1u : m_slots.rbegin()->first + 1u;
 			m_slots.emplace( index, function );
 			return my_connection{ index, *this };
 		}
-- 
2.43.0


From 81419610b2cdfc0a9917e8b7bf391bed8c88745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 45/53] fix: the slots of a signal may connect and disconnect
 slots while it is emitted

---
 include/RenderGraph/Signal.hpp | 59 +++++++++++++---------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index ff4ad25..3102c85 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -181,15 +181,10 @@ namespace crg
 		*/
 		void operator()()const
 		{
-			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
-
-			while ( it != m_slots.end() )
-			{
-				it->second();
-				adjustSlots( size, index, it );
-			}
+			callSlots( []( Function const & slot )
+				{
+					slot();
+				} );
 		}
 		/**
 		*\brief
@@ -200,15 +195,10 @@ namespace crg
 		template< typename ... Params >
 		void operator()( Params && ... params )const
 		{
-			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
-
-			while ( it != m_slots.end() )
-			{
-				it->second( std::forward< Params >( params )... );
-				adjustSlots( size, index, it );
-			}
+			callSlots( [&params...]( Function const & slot )
+				{
+					slot( std::forward< Params >( params )... );
+				} );
 		}
 
 	private:
@@ -252,28 +242,23 @@ namespace crg
 		}
 		/**
 		*\brief
-		*	Adjusts returned slot iterator.
-		*\param[in,out] size
-		*	The expected size, receives the real size.
-		*\param[in,out] index
-		*	The current iteration index.
+		*	Calls all the slots, which may themselves connect and disconnect slots.
+		*\param[in] call
+		*	Calls the given slot.
 		*/
-		template< typename IterT >
-		void adjustSlots( size_t & size
-			, size_t & index
-			, IterT & it )const noexcept
+		template< typename CallT >
+		void callSlots( CallT call )const
 		{
-			if ( size != m_slots.size() )
-			{
-				// Slots changed by the slot itself.
-				size = m_slots.size();
-				it = m_slots.begin();
-				std::advance( it, index );
-			}
-			else
+			uint32_t const last = m_slots.empty() ? 0u : m_slots.rbegin()->first;
+			auto it = m_slots.begin();
+
+			while ( it != m_slots.end() && it->first <= last )
 			{
-				++index;
-				++it;
+				uint32_t const index = it->first;
+				// The slot may disconnect itself.
+				Function const slot = it->second;
+				call( slot );
+				it = m_slots.upper_bound( index );
 			}
 		}
 
-- 
2.43.0


From 6b42c5a8b9b49d43f38f8cc73e7d304eaf2c0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 46/53] fix: every slot of a signal gets its parameters

---
 include/RenderGraph/Signal.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 3102c85..96d943d 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -7,6 +7,7 @@ See LICENSE file in root folder
 #include <functional>
 #include <set>
 #include <map>
+#include <type_traits>
 #pragma warning( push )
 #pragma warning( disable: 4365 )
 #pragma warning( disable: 5262 )
@@ -197,7 +198,15 @@ namespace crg
 		{
 			callSlots( [&params...]( Function const & slot )
 				{
-					slot( std::forward< Params >( params )... );
+					// The parameters are the same for all the slots, hence only moved when they can't be used otherwise.
+					if constexpr ( std::is_invocable_v< Function const &, Params & ... > )
+					{
+						slot( params... );
+					}
+					else
+					{
+						slot( std::forward< Params >( params )... );
+					}
 				} );
 		}
 
-- 
2.43.0


From aacd13a0ea722a8732d089d70a5c78bfe10e28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 47/53] fix: the GPU time is the duration of the timestamps'
 period times their count, on the timer's own device

---
 source/RenderGraph/FramePassTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 63962d3..ea1f813 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -126,7 +126,7 @@ namespace crg
 
 	void FramePassTimer::retrieveGpuTime()noexcept
 	{
-		static float const period = m_context.properties.limits.timestampPeriod;
+		auto const period = double( m_context.properties.limits.timestampPeriod );
 
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
@@ -143,7 +143,7 @@ namespace crg
 				, sizeof( uint64_t )
 				, VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
 
-			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) / period ) };
+			auto gpuTime = Nanoseconds{ uint64_t( double( values[1] - values[0] ) * period ) };
 			m_gpuTime += gpuTime;
 
 			query.started = false;
-- 
2.43.0


From ecd8598cd00a9f2cad8ed24f74a4ac638e8b65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:22 +0000
Subject: [PATCH 48/53] fix: the initial layout given with a barrier which
 isn't needed is known afterwards

---
 source/RenderGraph/RecordContext.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 977817c..db0e8ee 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -353,6 +353,14 @@ namespace crg
 				, range
 				, wantedState );
 		}
+		else if ( initialLayout != VK_IMAGE_LAYOUT_UNDEFINED )
+		{
+			// The image is already as wanted, which may have been told by the initial layout only.
+			setLayoutState( image
+				, viewType
+				, range
+				, from );
+		}
 	}
 
 	void RecordContext::memoryBarrier( VkCommandBuffer commandBuffer
-- 
2.43.0


From 605a1d7be2ce0d9d7fae9dbbcb2b89fa25deb597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:27 +0000
Subject: [PATCH 49/53] fix: the layouts of depth only, of stencil only and of
 preinitialised images have their accesses and stages

---
 source/RenderGraph/FrameGraph.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index bea2816..9555719 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -525,9 +525,20 @@ namespace crg
 		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL:
 			result |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
 			break;
+		case VK_IMAGE_LAYOUT_PREINITIALIZED:
+			result |= VK_ACCESS_HOST_WRITE_BIT;
+			break;
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+#endif
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
 			break;
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+#endif
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
 			break;
@@ -620,6 +631,7 @@ namespace crg
 		switch ( layout )
 		{
 		case VK_IMAGE_LAYOUT_UNDEFINED:
+		case VK_IMAGE_LAYOUT_PREINITIALIZED:
 			result |= VK_PIPELINE_STAGE_HOST_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_GENERAL:
@@ -629,6 +641,12 @@ namespace crg
 		case VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR:
 			result |= VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
 			break;
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+#endif
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
-- 
2.43.0


From 5e600c37161a0e3371096adee3f85b60ec695abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:41 +0000
Subject: [PATCH 50/53] fix: on devices with separate depth and stencil
 layouts, both aspects follow the layout the graph knows

---
 source/RenderGraph/RecordContext.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index db0e8ee..3d6bf4b 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -26,13 +26,29 @@ namespace crg
 
 	namespace recctx
 	{
+		static bool isSingleAspectLayout( VkImageLayout layout )
+		{
+#if VK_KHR_separate_depth_stencil_layouts
+			return layout == VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL
+				|| layout == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL
+				|| layout == VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL
+				|| layout == VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL;
+#else
+			return false;
+#endif
+		}
+
 		static VkImageSubresourceRange adaptRange( GraphContext const & context
 			, VkFormat format
+			, VkImageLayout from
+			, VkImageLayout to
 			, VkImageSubresourceRange const & subresourceRange )
 		{
 			VkImageSubresourceRange result = subresourceRange;
 
-			if ( !context.separateDepthStencilLayouts )
+			// The layouts are not tracked per aspect, so both aspects go together, whenever the layouts allow it.
+			if ( !context.separateDepthStencilLayouts
+				|| ( !isSingleAspectLayout( from ) && !isSingleAspectLayout( to ) ) )
 			{
 				if ( isDepthStencilFormat( format )
 					&& ( result.aspectMask == VK_IMAGE_ASPECT_DEPTH_BIT
@@ -289,8 +305,11 @@ namespace crg
 		, LayoutState const & wantedState
 		, bool force )
 	{
+		auto known = getLayoutState( image, viewType, subresourceRange ).layout;
 		auto range = recctx::adaptRange( *m_resources
 				, image.data->info.format
+				, known == VK_IMAGE_LAYOUT_UNDEFINED ? initialLayout : known
+				, wantedState.layout
 				, subresourceRange );
 		m_images.addStates( m_previousImages, image, viewType, range );
 
-- 
2.43.0


From 9fbf57ca91d16e58530061587c309d5d8f43a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:37 +0000
Subject: [PATCH 51/53] fix: a pass recorded again on its own waits for the
 frame which still uses what it replaces

---
 source/RenderGraph/RunnablePass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 4c132af..8c4297c 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -383,6 +383,8 @@ namespace crg
 
 		assert( m_passes.size() > index );
 		auto & pass = m_passes[index];
+		// The last frame of the graph may still use what the pass is about to replace.
+		checkVkResult( m_graph.getFence().wait( 0xFFFFFFFFFFFFFFFFULL ), m_pass.getGroupName() + " - Fence wait" );
 		checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL ), m_pass.getGroupName() + " - Fence wait" );
 		VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 			, nullptr
-- 
2.43.0


From 0749603646b7864521299061a71db1ac92d8e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:46 +0000
Subject: [PATCH 52/53] fix: the layout a target is left in is that of the next
 pass using it, whatever else this pass uses

---
 source/RenderGraph/RunnableGraph.cpp | 59 +++++++++++-----------------
 1 file changed, 24 insertions(+), 35 deletions(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 8f43cac..c765200 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -47,38 +47,29 @@ namespace crg
 			return result;
 		}
 
-		static LayerLayoutStates mergeRanges( LayerLayoutStatesMap nextLayouts
-			, LayerLayoutStatesMap::value_type const & currentLayout )
+		// Moves to the result the subresources which the next pass uses, with the layouts it uses them in.
+		static void mergeRanges( LayerLayoutStates const & nextLayouts
+			, LayerLayoutStates & currentLayouts
+			, LayerLayoutStates & result )
 		{
-			LayerLayoutStates result;
-
-			if ( auto nextIt = nextLayouts.find( currentLayout.first );
-				nextIt != nextLayouts.end() )
+			for ( auto & [layer, nextLevels] : nextLayouts )
 			{
-				auto & nxtLayout = nextIt->second;
-
-				for ( auto & [curLayout, curStates] : currentLayout.second )
+				if ( auto currIt = currentLayouts.find( layer ); currIt != currentLayouts.end() )
 				{
-					auto nxtLayerIt = nxtLayout.find( curLayout );
-
-					if ( nxtLayerIt != nxtLayout.end() )
+					for ( auto & [level, state] : nextLevels )
 					{
-						auto resLayerIt = result.try_emplace( curLayout ).first;
-
-						for ( auto & [curLevel, _] : curStates )
+						if ( currIt->second.erase( level ) )
 						{
-							auto nxtLevelIt = nxtLayerIt->second.find( curLevel );
-
-							if ( nxtLevelIt != nxtLayerIt->second.end() )
-							{
-								resLayerIt->second.emplace( *nxtLevelIt );
-							}
+							result[layer].insert_or_assign( level, state );
 						}
 					}
+
+					if ( currIt->second.empty() )
+					{
+						currentLayouts.erase( currIt );
+					}
 				}
 			}
-
-			return result;
 		}
 
 		static LayerLayoutStatesMap gatherNextImageLayouts( LayerLayoutStatesMap currentLayouts
@@ -93,20 +84,18 @@ namespace crg
 				if ( auto const & nextPass = **nextPassIt;
 					nextPass.isEnabled() )
 				{
-					auto & nextLayouts = nextPass.getImageLayouts();
-					LayerLayoutStates layoutStates;
-					auto currIt = std::find_if( currentLayouts.begin()
-						, currentLayouts.end()
-						, [&nextLayouts, &layoutStates]( LayerLayoutStatesMap::value_type const & lookup )
+					// The pass may use several images, or only a part of them.
+					for ( auto & [image, nextLayouts] : nextPass.getImageLayouts() )
+					{
+						if ( auto currIt = currentLayouts.find( image ); currIt != currentLayouts.end() )
 						{
-							layoutStates = mergeRanges( nextLayouts, lookup );
-							return !layoutStates.empty();
-						} );
+							mergeRanges( nextLayouts, currIt->second, result[image] );
 
-					if ( currIt != currentLayouts.end() )
-					{
-						result.try_emplace( currIt->first, layoutStates );
-						currentLayouts.erase( currIt );
+							if ( currIt->second.empty() )
+							{
+								currentLayouts.erase( currIt );
+							}
+						}
 					}
 				}
 				
-- 
2.43.0


From 75e939fb57b8c78d4efff382796c9186a4414343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:04 +0000
Subject: [PATCH 53/53] fix: a render pass is created again when the layouts
 its targets are left in change

---
 .../RunnablePasses/RenderPassHolder.cpp            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index bd154fb..e0acdd9 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -95,16 +95,20 @@ namespace crg
 		}
 
 		static bool checkAttaches( RecordContext const & context
+			, RunnableGraph const & graph
+			, crg::RunnablePass const & runnable
 			, std::vector< RenderPassHolder::Entry > const & attaches
 			, uint32_t passIndex )
 		{
 			auto it = std::find_if( attaches.begin()
 				, attaches.end()
-				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
+				, [&context, &graph, &runnable, passIndex]( RenderPassHolder::Entry const & lookup )
 				{
-					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
-					return layout != lookup.input
-						&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED;
+					auto resolved = resolveView( lookup.view, passIndex );
+					auto layout = context.getLayoutState( resolved );
+					return ( layout != lookup.input
+							&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+						|| graph.getNextLayoutState( context, runnable, resolved ) != lookup.output;
 				} );
 			return it == attaches.end();
 		}
@@ -170,7 +174,7 @@ namespace crg
 		auto nextState = context.getNextPipelineState();
 
 		if ( data.renderPass
-			&& rpHolder::checkAttaches( context, data.attaches, passIndex )
+			&& rpHolder::checkAttaches( context, m_graph, runnable, data.attaches, passIndex )
 			&& data.previousState == previousState
 			&& data.nextState == nextState )
 		{
-- 
2.43.0

