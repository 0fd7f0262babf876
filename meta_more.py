prop("G01", "Passes run after those they depend on, and cycles are refused",
     """When no pass depends on itself, directly or through others, compiling the graph succeeds and every frame records and executes each enabled pass once, after all the enabled passes it depends on.
     A graph which has a cycle, and a pass which depends on none, is refused with an exception.""",
     "programs inputs", "all directed graphs of up to 4 passes (thorough 5), all acyclic ones of 5 (thorough 6) passes; passes in nested groups, any pass disabled, dependencies given one by one or together",
     "The tests order a handful of graphs; the sort has several insertion cases which only some combinations of declaration order, groups and dependencies reach.",
     S + "FrameGraph.cpp " + S + "FramePassGroup.cpp " + S + "FramePass.cpp", [("sort", S + "FrameGraph.cpp sortPasses"), ("listing", S + "FramePassGroup.cpp listPasses")], note=SIM)
prop("G02", "A compiled graph reports exactly the declared data hand-overs",
     """When a pass reads a view or buffer which a pass it depends on writes, directly or through passes that don't use it, the compiled graph reports this hand-over once, in its transitions and on the edge between the two passes; it reports none for views sharing no subresource,
     nor where the reader doesn't depend on the writer or where another writer stands on every path between them. What is only written, or only read by passes, is reported as going outside, or coming from outside; the views a merged view is made of are handed over each on its own.""",
     "programs", "2 to 4 passes (thorough 5), all dependencies in declaration order, all uses (none, read, write, both) of one datum in ten forms, of two data with 3 passes; all pairs of ranges of 2 levels and 3 layers; unions of 2 and 3 views",
     "The tests count transitions of fixed graphs; the result depends on the combination of dependencies and uses.",
     S + "FramePassDependenciesBuilder.cpp " + S + "FramePass.cpp " + S + "GraphBuilder.cpp " + S + "GraphNode.cpp " + S + "AttachmentTransition.cpp",
     [("dependencies", S + "FramePassDependenciesBuilder.cpp"), ("reachability of a writer", S + "FramePass.cpp dependsOn"), ("edges", S + "GraphBuilder.cpp")],
     observe=["RunnableGraph::getTransitions", "RunnableGraph::getGraph"], note="Trusts the reference definition of a hand-over. A reader which is reached only through other readers is left open: the library may report it or not.")
prop("D01", "The dot export shows exactly the graph's passes and hand-overs",
     """Whatever the options, the exported texts are well formed, show every pass taking part in a transition once with its id when asked, and hold the two edges of each transition the graph reports exactly once, and no other edge; when groups are exported separately, what comes from or goes outside of the graph may be left out.""",
     "programs configurations", "graphs of 2 and 3 passes (thorough 4) with all dependencies and uses of one or two data, all placements in nested groups of distinct names, sets of options (all 16 in the thorough tier)",
     "The tests only write the export of a few graphs, without reading it back.",
     S + "DotExport.cpp", [("passes", S + "DotExport.cpp displayPasses"), ("transitions", S + "DotExport.cpp displayTransitions")], note="Trusts the small dot parser of the harness; the graphs are those of G02, whose transitions G02 decides.")
prop("I01", "Passes and groups keep unique, stable identities",
     """Asking for a group by a name its parent already has gives the existing group, and otherwise a new one with its own id; a pass is refused, without leaving anything behind, when its group already has one of that name, and otherwise gets an id no other pass of the graph has.
     Names, full names, parents and ids never change afterwards; a graph without pass is refused.""",
     "histories", "all sequences of 5 (thorough 7) creations of passes and groups, with two names, in all the groups made so far, then a frame",
     "The tests create a few groups and duplicate names; ids and lookups depend on the history of creations.",
     S + "FramePassGroup.cpp " + S + "FrameGraph.cpp", [("creation", S + "FramePassGroup.cpp createPass, createPassGroup")], note=SIM)
RP = S + "RunnablePasses/"
prop("L04", "Render passes leave their targets ready for their next use",
     """The layout in which a provided render pass leaves each of its targets, and a mip-map generation its view, is the one declared by the nearest following enabled pass of the graph using the same subresources; when there is none, it is the output layout declared for them on the graph, if there is one.
     This holds whatever else those passes use, and whichever passes are enabled in this frame and were in the previous ones.""",
     "programs histories configurations", "a render pass, a quad or a mip-map generation with two targets (images, layers or levels of one), followed by 2 (thorough 3) passes using each of them in 5 ways or not, outputs declared or not for each, all sets of enabled passes over 2 frames",
     "The tests check the layouts of a few fixed chains where each pass uses one image.",
     S + "RunnableGraph.cpp " + RP + "RenderPassHolder.cpp " + RP + "GenerateMipmaps.cpp " + S + "FrameGraph.cpp", [("next layouts", S + "RunnableGraph.cpp gatherNextImageLayouts"), ("outputs", S + "RunnableGraph.cpp getNextLayoutState"), ("final layout", RP + "RenderPassHolder.cpp doCreateRenderPass")],
     observe=["vkCreateRenderPass", "vkCmdBeginRenderPass", "vkCmdPipelineBarrier"], note=SIM)
prop("V01", "Render passes draw into exactly the declared attachments",
     """A provided render pass (plain, quad or mesh) works in a render pass instance whose framebuffer holds exactly the declared target views of its index, in order, whose attachments are loaded, cleared to the declared values, stored and blended as declared, whose commands come the way the pass says, and whose render area is the part all these views share.
     The viewport and scissor of quads and meshes are at the requested position with the requested size, or that area without one.""",
     "inputs configurations", "1 to 3 targets (colour, depth, stencil; input, output, in-out, with each load and store operation) of several levels and layers, two indices, requested positions and sizes, render passes followed by frames with other indices; commands recorded inline or in secondary buffers",
     "The tests count the objects their stub creates; they never look into a render pass, a framebuffer or a viewport.",
     RP + "RenderPassHolder.cpp " + RP + "RenderQuadHolder.cpp " + RP + "RenderMeshHolder.cpp " + RP + "RenderPass.cpp " + S + "Attachment.cpp", [("render pass, framebuffer and area", RP + "RenderPassHolder.cpp"), ("viewport", RP + "RenderQuadHolder.cpp doCreateViewportState")],
     observe=["vkCreateRenderPass", "vkCreateFramebuffer", "vkCmdBeginRenderPass", "vkCreateGraphicsPipelines"], note=SIM)
prop("V02", "Shaders are given exactly the declared resources at their bindings",
     """When a provided compute, quad or mesh pass works with an index, the descriptor set bound to it holds, at each declared binding and nowhere else, the declared view with its sampler, or the declared buffer range or buffer view, of that index, with the declared type.
     The set's layout declares those bindings for the stages of the program.""",
     "inputs configurations", "all combinations of 1 and 2 (thorough 3) declarations among 14 kinds of descriptors, in 3 orders of bindings, one resource or one per index, 2 indices, up to 3 frames",
     "The tests run each kind of declaration alone and don't read what is written to the sets.",
     RP + "PipelineHolder.cpp " + S + "Attachment.cpp " + S + "WriteDescriptorSet.cpp", [("sets", RP + "PipelineHolder.cpp createDescriptorSet"), ("layouts", RP + "PipelineHolder.cpp doFillDescriptorBindings"), ("writes", S + "WriteDescriptorSet.cpp")],
     observe=["vkCreateDescriptorSetLayout", "vkUpdateDescriptorSets", "vkCmdBindDescriptorSets"], note=SIM)
prop("V03", "Pipelines and draws are what the pass is configured with",
     """A provided compute, quad or mesh pass works with a pipeline made of the program currently given for its index (single, per index, made by a creator or given by a reset), with the configured set layouts and push constants. It issues exactly one draw or dispatch, with the configured counts, buffers of the index, index type and indirect buffer, after the user's recording callback and before the end callback, and nothing at all when it is disabled.
     Quads cover the whole viewport.""",
     "histories configurations", "all histories of 4 (thorough 5) frames and pipeline resets on 2 indices, for 3 ways to give programs, with and without set layouts and push constants; all combinations of counts, callbacks, vertex, index and indirect buffers",
     "The tests draw once per configuration and count calls; resets and indices only matter over histories.",
     RP + "ComputePass.cpp " + RP + "RenderQuadHolder.cpp " + RP + "RenderMeshHolder.cpp " + RP + "PipelineHolder.cpp", [("pipelines", RP + "PipelineHolder.cpp"), ("dispatch", RP + "ComputePass.cpp doRecordInto"), ("draws", RP + "RenderMeshHolder.cpp record")],
     observe=["vkCmdDraw*", "vkCmdDispatch*", "vkCreateGraphicsPipelines", "vkCreateComputePipelines"], note=SIM)
prop("V04", "Transfer passes move exactly the declared texels and bytes",
     """After a frame, a provided copy, blit or mip-map generation pass has written exactly the texels or bytes its views, offsets, sizes and buffer ranges designate, in all the layers of the views, with the values they had in the source before, and nothing else changed; a disabled one changes nothing.
     Copies leave their targets in the final layout asked for.""",
     "inputs configurations", "views of 2 levels, 1 and 2 of 3 layers, 2D and 3D, colour and depth; one or two pairs, 2 indices, offsets and sizes of a list; mip chains of 7 sizes with any range of up to 3 layers; with and without a pass using the result; all texels of all images and bytes of all buffers are compared",
     "The tests' stub device moves nothing.",
     " ".join(RP + x + ".cpp" for x in ("BufferCopy", "ImageCopy", "ImageBlit", "BufferToImageCopy", "ImageToBufferCopy", "GenerateMipmaps")), [("regions", RP + "ImageBlit.cpp doRecordInto"), ("levels", RP + "GenerateMipmaps.cpp doRecordInto")],
     observe=["vkCmdCopy*", "vkCmdBlitImage"], note=SIM + " Blits are simulated with nearest sampling.")
prop("R02", "A failing device call is reported and leaves nothing behind",
     """When the device refuses any one call made to create a resource, to compile a graph or to record and submit a frame, an exception reports it, the device is never given anything invalid, and what a failed creation or compilation had made so far is destroyed.
     Once the device accepts, the same operation works (a creation gives a usable resource, a compilation a usable graph), and nothing is left at the end.""",
     "faults", "every fallible call of the creation of images, views, samplers and vertex buffers through the handler and through caches, with and without other resources and reused handles, and of a second try; every fallible call of the compilation and two frames of graphs of a pass of each built-in kind",
     "The tests' stub device accepts everything.",
     S + "ResourceHandler.cpp " + S + "ResourcesCache.cpp " + S + "RunnableGraph.cpp " + S + "RunnablePass.cpp " + S + "RunnablePasses/PipelineHolder.cpp " + S + "RunnablePasses/RenderPassHolder.cpp", [("creation", S + "ResourceHandler.cpp createImage, createQuadTriVertexBuffer"), ("ownership", S + "ResourcesCache.cpp"), ("graphs", S + "RunnableGraph.cpp doCleanup"), ("pipelines", S + "RunnablePasses/PipelineHolder.cpp")], observe=["VkResult of every call", "objects alive"], note=SIM + " A refused call leaves its outputs untouched; a frame whose submission was refused is not submitted again.")
prop("R03", "Resources are shared, owned and destroyed exactly as asked",
     """However creations and destructions through several caches and contexts are ordered, an image, view or sampler exists on the device exactly from its creation until its owner destroys it or ends; destroying it succeeds exactly for its owner, asking again for one which exists gives the same object, and for one which was destroyed a new one.
     Descriptions get the same identifier exactly when they describe the same view, and samplers are those described.""",
     "histories", "all histories of 5 (thorough 6) operations of two caches and two contexts on an image and its views, with fresh or reused handles; all pairs of 1024 view descriptions; all pairs of 27 sampler descriptions",
     "The tests create and destroy each resource once, in the expected order.",
     S + "ResourceHandler.cpp " + S + "ResourcesCache.cpp", [("handler", S + "ResourceHandler.cpp"), ("caches", S + "ResourcesCache.cpp")], observe=["objects alive on the device"], note=SIM + " The user destroys views before their image.")
prop("R04", "Created images, memory and triangles are the declared ones",
     """Images and views are created with exactly the declared properties, in memory local to the device; the memory type chosen among those the device offers has all the properties asked for whenever there is one, and an exception tells when there is none.
     The full screen triangle covers the screen, with texture coordinates going from 0 to 1 along each axis, inverted when asked.""",
     "inputs", "images of 3 types, 4 formats, up to 3 levels and layers or cube, all ranges of their views; all devices of up to 4 memory types of 5 kinds with all type masks; 8 triangles on 6 kinds of devices",
     "The tests never look at what is created, nor at the vertices.",
     S + "ResourceHandler.cpp " + S + "GraphContext.cpp", [("images", S + "ResourceHandler.cpp createImage"), ("memory", S + "GraphContext.cpp deduceMemoryType"), ("triangle", S + "ResourceHandler.cpp createQuadTriVertexBuffer")], observe=["vkCreateImage", "vkCreateImageView", "vkAllocateMemory", "vertex buffer bytes"], note=SIM)
prop("L03", "Memory accesses of successive passes are always synchronised",
     """Within a graph, whenever a pass accesses a view or a buffer range it declared, with the kind of access and at the shader or transfer stage that goes with its declaration, every earlier write, clear and layout transition of the same bytes or subresources has been made available and visible to it, and no write or transition starts before the earlier reads and writes have ended.
     Barriers and render pass dependencies only name accesses their stages support.""",
     "programs histories configurations", """all chains of 2 and 3 (thorough up to 5) passes, graphics or compute, over sampled, storage, clearable, transfer, implicit, colour, depth, stencil views of mip/layer/slice ranges, and over uniform, texel, storage, clearable, transfer and implicit ranges of one and two buffers;
     the copies, blits, mip generation and implicit actions between a writing pass and a reading one; what the shaders of the provided passes read and write through their descriptors; devices with separate layouts for depth and stencil; all sets of enabled passes over 2 frames""",
     "A missing barrier is invisible to tests: stubs ignore it, and so do most devices most of the time. It depends on the pairs of declarations met, with disabled passes skipped.",
     S + "RunnablePass.cpp " + S + "RecordContext.cpp " + S + "RunnablePasses/RenderPassHolder.cpp " + S + "Attachment.cpp " + S + "FrameGraph.cpp " + S + "RunnablePasses/ImageCopy.cpp " + S + "RunnablePasses/BufferCopy.cpp",
     [("barriers", S + "RecordContext.cpp memoryBarrier"), ("transitions before a pass", S + "RunnablePass.cpp recordInto"), ("external dependencies", S + "RunnablePasses/RenderPassHolder.cpp"), ("accesses of a declaration", S + "Attachment.cpp getAccessMask, getPipelineStageFlags")],
     observe=["vkCmdPipelineBarrier", "vkCreateRenderPass", "vkCmdCopy*", "vkCmdClear*", "vkCmdBeginRenderPass"],
     note=SIM + " Accesses are ordered with Vulkan's execution and memory dependency rules (chains of dependencies, availability, visibility), per subresource and per 16 bytes; by-region dependencies count as full ones; a frame starts when the previous one has completed; views declared for an implicit transition to the general layout aren't claimed.")
prop("C01", "Threads can share a resource handler",
     """Graphs working on different contexts, and users creating, looking for and destroying resources, may do so from several threads sharing one resource handler: each operation gives what it would give had they run one after the other in some order, each graph behaves as if it were alone, nothing is created twice, lost or destroyed twice, and no thread waits forever.
     Two threads never touch the same memory without a lock.""",
     "schedules", "2 and 3 threads of 1 and 2 handler operations (12 kinds: identifiers, images, views, samplers, vertex buffers, destructions), all interleavings of their lock acquisitions and device calls up to 3 (thorough 5) preemptions; 2 threads building, running and exporting graphs of 4 kinds of passes, 1 preemption at locks; the same schedules again under a data race detector",
     "The tests use one thread. A missing lock, an inverted lock order or a check made before the lock is taken shows in a few interleavings only.",
     S + "ResourceHandler.cpp " + S + "GraphContext.cpp " + S + "RunnablePass.cpp", [("locks", S + "ResourceHandler.cpp")], observe=["results of the handler's functions", "objects alive on the device", "lock acquisitions"],
     note=SIM + " A controlled scheduler (one runs at a time) chooses at each lock acquisition, and at each creation and destruction of an object where said, which thread goes on; that the accesses between two such points are free of data races, which the detector checks on the very same schedules, makes these points enough.")
prop("N01", "A signal calls each connected slot exactly once",
     """Emitting a signal calls each slot connected to it exactly once, with the emitted parameters, and never one which was disconnected, however slots were connected, disconnected, and their connections moved or destroyed before; a connection is valid exactly while its slot is connected and the signal exists.
     This also holds when slots connect and disconnect slots, themselves included, while the signal is emitted (whether the new ones are called by that emission is left open).""",
     "histories", "all histories of 7 (thorough 8) connections, disconnections, moves, destructions and emissions with 3 connection objects; all actions of 2 and 3 slots over 4 and 2 (thorough 5 and 3) emissions; 4 kinds of parameters",
     "The tests only use the signal of a timer, once; indices and iterators go wrong after a disconnection, or when a slot changes the slots.",
     "include/RenderGraph/Signal.hpp", [("connection", "include/RenderGraph/Signal.hpp connect"), ("emission", "include/RenderGraph/Signal.hpp operator()")], observe=["calls of the slots", "isValid"])
prop("M01", "GPU timers give the durations of what they surround",
     """The GPU time a timer retrieves is the time the device spent in the last run of the pass or graph since the last retrieval, in nanoseconds of the timer's own device, and zero when it didn't run; each time stamp is reset before it is written, and no two timers share one.
     The end of a timer is notified once, and its name, scope and resetting are those asked for.""",
     "histories configurations", "graphs of 1 to 3 passes over 2 to 4 (thorough 5) frames, any set of enabled passes, 3 time stamp periods, short and long durations, retrieved at once, later or not; all histories of 6 (thorough 7) runs and retrievals of 2 timers sharing a pool or not, on 1 and 2 devices",
     "The tests' stub device has no clock.",
     S + "FramePassTimer.cpp " + S + "RunnableGraph.cpp " + S + "RunnablePass.cpp", [("timer", S + "FramePassTimer.cpp"), ("reservation of the queries", S + "RunnableGraph.cpp getTimerQueryOffset")], observe=["vkCmdWriteTimestamp", "vkCmdResetQueryPool", "getGpuTime"], note=SIM + " What is recorded is submitted once before the next recording; wrapping time stamps and CPU times aren't claimed.")
prop("T01", "Tables of layout states remember each subresource",
     """A table of layout states gives for a view the state last set for it, whatever was set for views sharing subresources, slices of volumes included, and an undefined one when none was; for a view whose parts were set separately, the layout of one of them, with the accesses and stages of all of them.
     Adding a table, or a range of it, to another one adds exactly the states the other one didn't know.""",
     "histories", "all histories of 3 (thorough 4) settings and additions over 2 tables, of 10 views (mip levels, layers, volumes and their slices) of 2 images, 3 states; all views are read at the end",
     "The tests set a state and read the same view.",
     S + "LayerLayoutStatesHandler.cpp " + S + "FrameGraph.cpp", [("tables", S + "LayerLayoutStatesHandler.cpp"), ("ranges", S + "FrameGraph.cpp addSubresourceRangeLayout, getSubresourceRangeLayout")], observe=["getLayoutState"])
prop("B01", "Barriers made by a pass of the user are known to its graph",
     """When the recording of a pass asks its record context for a barrier on a view, an image range or a buffer, or makes its own and tells the context the new state, what follows finds the image in the layout asked for, with its contents, and waits for the earlier accesses; a given initial layout is the one of images the graph knows nothing of yet.
     The following barriers of the pass, the following passes and the following frames start from there.""",
     "programs histories", "1 and 2 (thorough 3) barriers of 3 views, 4 kinds of accesses and 10 ways to ask (overloads, forced, initial layout, own barrier), between 4 kinds of previous and following passes, for layered images and volumes, known or filled by the outside; 2 (thorough 3) barriers on buffers; 2 frames",
     "The tests call the functions once on a fresh context.",
     S + "RecordContext.cpp", [("images and buffers", S + "RecordContext.cpp memoryBarrier"), ("states", S + "RecordContext.cpp setLayoutState, getLayoutState")], observe=["vkCmdPipelineBarrier", "layouts and contents when the device works"], note=SIM)
prop("A01", "Passes hold exactly what was declared on them",
     """After any sequence of declarations, each pass holds one attachment per declaration, whose queries tell what was asked (direction, use, views or buffer range, binding, sampler, operations, clear value, blending) and the layout, accesses, stages and descriptor type this use has in Vulkan; declarations made before, or on other passes, don't change.
     Attachments are equal when they were declared the same way on the same pass, and differ as soon as their pass, use, data, operations or parameters do; a merged view covers exactly the union of its sources, with a view type able to, and keeps them in order.
     The classifications of formats, the masks of layouts and the extents of views are those Vulkan gives them.""",
     "histories inputs", "all sequences of 2 (thorough 3) declarations among 38 kinds and 3 sets of parameters on two passes; all pairs of declarations differing in one of 26 ways, or in kind; all merges of 1 and 2 (thorough 3) views of 5 kinds of images, with and without merging levels and layers; all formats, 16 layouts, extents of 3 types of images",
     "The tests only read the fields of one declaration per kind; equality and merging are used with two or three views.",
     S + "FramePass.cpp " + S + "Attachment.cpp include/RenderGraph/FramePass.hpp include/RenderGraph/Attachment.hpp " + S + "FrameGraph.cpp", [("declarations", S + "FramePass.cpp"), ("layouts, accesses, stages", S + "Attachment.cpp"), ("merging", S + "FramePass.cpp mergeViews"), ("formats and layouts", S + "FrameGraph.cpp isDepthFormat, getAccessMask, getStageMask")],
     observe=["FramePass::images", "FramePass::buffers", "Attachment getters and equality", "FramePass::mergeViews"], note="Trusts the table of what each declaration means, written from its documentation and the Vulkan specification. Whether attachments differing only by their binding or by the layout of an implicit transition are equal is left open, as is where the depth and stencil attachments are among the others.")
