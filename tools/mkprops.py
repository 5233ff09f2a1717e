#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
S="source/RenderGraph/"
R=S+"RunnablePasses/"
I="include/RenderGraph/"
p("C01","Every GPU access finds its image in the declared layout",
 "In every frame of every history, each layer and mip level touched by a submitted command (barrier, render pass attachment, descriptor, copy, blit, clear) is at that point in exactly the layout the command names, where only a command that is entitled to discard the contents may name an undefined old layout. After each frame, the final layout the graph reports for a view is the layout the image is really in. This holds while passes are enabled and disabled, change their pass index, are re-recorded or have their pipelines replaced, and when graphs share images.",
 ["histories","programs","configurations"],
 "All frame graphs (pass kinds, attachments over layers/mips, merged views, external inputs/outputs), all histories of frames with passes toggled, indices changed, pipelines replaced, several graphs sharing resources.",
 "The tests record and run small fixed graphs against stub Vulkan entry points which keep no layout state; no test follows the layout of a subresource across commands, frames or toggles.",
 [S+"RecordContext.cpp",S+"RunnablePass.cpp",R+"RenderPassHolder.cpp",S+"LayerLayoutStatesHandler.cpp",S+"RunnableGraph.cpp",S+"FrameGraph.cpp"],
 [("memoryBarrier",S+"RecordContext.cpp"),("recordInto",S+"RunnablePass.cpp"),("doCreateRenderPass/checkAttaches",R+"RenderPassHolder.cpp"),("getCurrentLayoutState/getNextLayoutState",S+"RunnableGraph.cpp"),("getFinalLayoutState",S+"FrameGraph.cpp")],
 [("RecordContext::m_images","last known layout per image, layer, mip while recording",I+"RecordContext.hpp"),("FrameGraph final states","layouts left by the last frame",S+"FrameGraph.cpp")],
 ["vkCmdPipelineBarrier","vkCmdBeginRenderPass","vkCmdDraw*/vkCmdDispatch*/transfer commands at submission","FrameGraph::getFinalLayoutState"])
p("C02","A frame computes what its declared passes say",
 "After every frame, the contents of every image subresource and buffer range equal those obtained by executing the enabled passes one after the other in an order compatible with the declared dependencies, each reading exactly the views and buffer ranges it declared for its current pass index and producing exactly its declared outputs (copies, blits, mip generation, draws and dispatches with their bound resources, clears of clearable and cleared outputs, attachments loaded when declared as input; an attachment declared as input only is consumed, its contents afterwards are nobody's). Contents written in one frame and declared as an input in a later frame are preserved until then.",
 ["histories","programs","configurations"],
 "All frame graphs over the library's pass kinds and all histories of frames, toggles, index changes, pipeline replacements and shared resources.",
 "The tests check that recording does not fail and a few handle values; contents are never modelled, so wrong operands, dropped loads, wrong descriptor contents or wrong regions go unseen.",
 [S+"RunnablePass.cpp",S+"RunnableGraph.cpp",S+"GraphBuilder.cpp",R+"PipelineHolder.cpp",R+"RenderPassHolder.cpp",R+"RenderQuadHolder.cpp",R+"RenderMeshHolder.cpp",R+"ComputePass.cpp",R+"ImageCopy.cpp",R+"ImageBlit.cpp",R+"BufferCopy.cpp",R+"BufferToImageCopy.cpp",R+"ImageToBufferCopy.cpp",R+"GenerateMipmaps.cpp"],
 [("createDescriptorSet",R+"PipelineHolder.cpp"),("addAttach load/store operations",R+"RenderPassHolder.cpp"),("doRecordInto of each pass kind",R),("recordInto clears",S+"RunnablePass.cpp"),("pass ordering",S+"GraphBuilder.cpp")],
 None,["image and buffer contents after the submission completes"])
p("C03","No GPU execution order allowed by the recorded barriers changes a frame",
 "Whatever order the GPU executes and completes the submitted work in, and whatever stale cache contents it returns where the barriers do not force visibility, each command of a frame reads the same data and each resource ends with the same contents as if commands had executed one at a time in recorded order. The synchronisation the library records (barriers, render pass dependencies) therefore covers every pair of conflicting declared accesses of passes that depend on each other.",
 ["schedules","programs","histories"],
 "All GPU schedules permitted by the recorded synchronisation, for all frame graphs whose conflicting passes are ordered by declared dependencies, and all frame histories.",
 "The stub device of the tests executes nothing, and a real one shows a single schedule per driver; the quantifier is over GPU schedules.",
 [S+"RunnablePass.cpp",S+"RecordContext.cpp",R+"RenderPassHolder.cpp",S+"Attachment.cpp",S+"RunnableGraph.cpp"],
 [("memoryBarrier (image and buffer)",S+"RecordContext.cpp"),("recordInto needed states",S+"RunnablePass.cpp"),("subpass dependencies",R+"RenderPassHolder.cpp"),("getAccessMask/getPipelineStageFlags",S+"Attachment.cpp")],
 None,["vkCmdPipelineBarrier","VkSubpassDependency of created render passes"])
p("C04","Nothing the GPU still uses is destroyed, reset or rewritten",
 "From the moment work is submitted until its completion has been observed through a fence, no command buffer, descriptor set, pipeline, render pass, framebuffer, view, image, sampler, query pool or semaphore that the work uses is destroyed, freed, reset, re-recorded or updated by the library. This holds however long the GPU takes, for runs, re-recordings, pipeline replacements, and several graphs sharing one context.",
 ["schedules","histories","fault_sequences"],
 "All GPU completion times (including stalls longer than any timeout) and all histories of runs, re-records, pipeline replacements and fence operations on graphs sharing a context.",
 "In the tests submissions complete instantly and fences are stubs, so no window exists in which an object is in flight.",
 [S+"RunnableGraph.cpp",S+"RunnablePass.cpp",R+"PipelineHolder.cpp",R+"RenderPassHolder.cpp",R+"RenderMesh.cpp",R+"RenderQuad.cpp",R+"ComputePass.cpp",I+"GraphContext.hpp"],
 [("record fence wait",S+"RunnableGraph.cpp"),("resetCommandBuffer/reRecordCurrent",S+"RunnablePass.cpp"),("resetPipeline deferred deletion",R+"PipelineHolder.cpp"),("render pass cleanup",R+"RenderPassHolder.cpp")],
 [("in-flight set","objects referenced by submissions not yet known complete","simulator")],
 ["vkDestroy*/vkFree*/vkReset*/vkBeginCommandBuffer/vkUpdateDescriptorSets vs. pending submissions"])
p("C05","Every device object is destroyed exactly once, whatever fails",
 "For every device object the library creates, over any history and with any call failing at any point, the object is destroyed exactly once through the same device and allocator, after everything created from it and before the device objects it was created from, and none remains once graphs, handler and context are gone. Objects not created by the library are never destroyed by it, and no destroy or free call names an already destroyed handle. Repeating the same operations does not make the number of live objects grow without bound.",
 ["fault_sequences","crash_points","histories"],
 "All points at which a device call may fail during creation, compilation, recording or running, and all histories of resource destruction and graph teardown.",
 "The stub functions of the tests always succeed except for a few hand-written failures, and nothing counts what was created against what was destroyed.",
 [S+"ResourceHandler.cpp",S+"RunnableGraph.cpp",S+"RunnablePass.cpp",S+"FramePassTimer.cpp",R+"PipelineHolder.cpp",R+"RenderPassHolder.cpp",S+"GraphContext.cpp"],
 [("ResourceHandler/ContextResourcesCache create and destroy",S+"ResourceHandler.cpp"),("RunnableGraph constructor/destructor",S+"RunnableGraph.cpp"),("PassData, Fence ownership",S+"RunnablePass.cpp"),("cleanup",R+"PipelineHolder.cpp")],
 None,["vkCreate*/vkAllocate*/vkDestroy*/vkFree* balance"])
p("C06","A failed device call is reported and its result never used",
 "When a device call made by the library fails (out of memory, device lost, failed submission, timeout treated as failure), the library operation that made it reports the failure to its caller (by an exception, or by the result where the operation returns one; a timer that cannot be read reports no time), and no later command names the object that was not created or submits a command buffer that was not completely recorded. It never crashes, hangs or reports success for a frame that was not submitted.",
 ["fault_sequences","crash_points"],
 "All sequences of failing device calls at every call site, during compile, record, run, resource creation, destruction and teardown.",
 "Failures are a cross product of call site and moment; the tests make a handful of creations fail and never fail recording, submission or waiting.",
 [S+"RunnableGraph.cpp",S+"RunnablePass.cpp",S+"ResourceHandler.cpp",S+"GraphContext.cpp",R+"PipelineHolder.cpp",R+"RenderPassHolder.cpp",R+"ComputePass.cpp"],
 [("checkVkResult",I+"GraphContext.hpp"),("record/run",S+"RunnableGraph.cpp"),("resource creation",S+"ResourceHandler.cpp"),("Fence::wait",S+"RunnablePass.cpp")],
 None,["exceptions at the API boundary","handles passed to vk functions"])
p("C07","Once faults stop, frames are correct again",
 "After any number of failed operations, once device calls succeed again, retrying the failed operation (compile, run, resource creation) succeeds and the first completed frame after it, and all later ones, have the layouts, contents and synchronisation of a history without the failed attempts. No operation waits for something that can never be signalled.",
 ["fault_sequences","histories"],
 "All fault sequences followed by a fault-free suffix of operations; progress within the operations retried.",
 "No test retries after a failure, so state left behind by a failed attempt (tracked layouts, fences, cached null handles, partly initialised passes) is never exercised.",
 [S+"RunnableGraph.cpp",S+"FrameGraph.cpp",S+"RunnablePass.cpp",S+"ResourceHandler.cpp",R+"PipelineHolder.cpp",R+"RenderPassHolder.cpp"],
 [("registerFinalState",S+"FrameGraph.cpp"),("fence reset and submit",S+"RunnableGraph.cpp"),("cached creation",S+"ResourceHandler.cpp"),("lazy initialisation",S+"RunnablePass.cpp")],
 None,["frames run after the last injected fault"])
p("C08","Each run submits once with exactly the requested semaphores and fence",
 "Each successful run submits the graph's commands exactly once to the given queue; the submission waits on every non-null semaphore it was given exactly once, blocking at least every stage requested for it, and signals exactly the one semaphore returned to the caller, together with the graph's fence. Over any history in which the caller waits on each returned semaphore exactly once, no semaphore is signalled while signalled or waited without a pending signal, and the fence is never reset or submitted while still in use.",
 ["histories","schedules","fault_sequences"],
 "All histories of runs of several chained graphs with arbitrary wait lists (duplicates, nulls), queue delays and fence operations.",
 "The tests pass at most one semaphore and inspect nothing about the submission.",
 [S+"RunnableGraph.cpp",S+"RunnablePass.cpp"],
 [("run",S+"RunnableGraph.cpp"),("convert",S+"RunnablePass.cpp"),("Fence",S+"RunnablePass.cpp")],
 None,["vkQueueSubmit","SemaphoreWaitArray returned by run"])
p("C09","Resources can be created from several threads at once",
 "Threads which concurrently create and look up images, views, samplers and vertex buffers through shared handlers, through their own graphs' caches, compile and run their own graphs on their own contexts, or register and unregister objects on a shared context, never race, deadlock or crash, and the results are those of some sequential order of the operations: one device object per resource, same handle for all threads, nothing lost or created twice.",
 ["schedules","histories"],
 "All interleavings of the threads' memory accesses and lock operations over all small concurrent histories.",
 "The tests are single-threaded.",
 [S+"ResourceHandler.cpp",S+"GraphContext.cpp",I+"GraphContext.hpp"],
 [("handler mutexes",S+"ResourceHandler.cpp"),("object registry mutex",I+"GraphContext.hpp")],
 None,["return values, created device objects, lock and memory accesses of each simulated thread"])
p("C10","Frames do not depend on addresses, handle values or hash order",
 "Two executions of the same program with the same declared graphs and history record the same commands in the same order with the same arguments up to renaming of handles, return the same results and leave the same reported states, whatever addresses the allocator returns and whatever (possibly recycled) handle values the device returns.",
 ["schedules","histories","configurations"],
 "All allocator address orders and all device handle assignments (increasing, decreasing, random, recycled) for all graphs and histories.",
 "A test process sees one heap layout and one sequence of handles.",
 [S+"ResourceHandler.cpp",S+"FrameGraph.cpp",S+"FramePassDependenciesBuilder.cpp",S+"GraphBuilder.cpp",S+"RunnableGraph.cpp",S+"RecordContext.cpp",I+"FrameGraphPrerequisites.hpp"],
 [("maps keyed by handles or pointers",I+"FrameGraphPrerequisites.hpp"),("pass ordering",S+"GraphBuilder.cpp"),("dependency transitions",S+"FramePassDependenciesBuilder.cpp")],
 None,["canonicalised command stream and reported states"])
p("C11","Pass and graph timings are right under any clock and GPU timing",
 "The CPU time reported for a pass or graph is the elapsed time of its own recording and submission work, never negative and unaffected by changes of the wall clock; the GPU time reported is the difference of the two timestamps written for that pass in its latest submitted frame, converted with the device's timestamp period. Reading a timer never reads a query that was not reset and written by submitted work, never waits for work that was not submitted, and a pass that did not run reports no GPU time for that frame. The destruction of a timer is notified to its listeners exactly once.",
 ["schedules","histories","fault_sequences"],
 "All wall-clock jumps, GPU durations, timestamp periods, toggles and index changes, failed submissions, and moments at which timers are read.",
 "The tests use the real clock and a stub query function returning constants.",
 [S+"FramePassTimer.cpp",I+"FramePassTimer.hpp",S+"RunnablePass.cpp",S+"RunnableGraph.cpp"],
 [("FramePassTimer start/stop/beginPass/endPass/retrieveGpuTime",S+"FramePassTimer.cpp"),("notifyPassRender",S+"RunnablePass.cpp")],
 None,["FramePassTimer::getCpuTime/getGpuTime","vkCmdResetQueryPool/vkCmdWriteTimestamp/vkGetQueryPoolResults"])
p("C12","Each frame records every enabled pass once, in order, at its index",
 "Each recording of a graph runs every enabled pass's pre-actions, record function and post-actions exactly once, in that order, with the pass index it currently reports, after all the passes it depends on, and never those of a disabled pass. A pass is initialised for an index exactly once before its first recording at that index (again only if that attempt failed), and the set of enabled passes, their indices and order never depend on earlier frames.",
 ["histories","programs","fault_sequences"],
 "All graphs with dependency DAGs and groups, all sequences of enabled/index values, re-records and failures.",
 "Tests record each pass once with constant enabled state and index.",
 [S+"RunnableGraph.cpp",S+"RunnablePass.cpp",S+"GraphBuilder.cpp",S+"FrameGraph.cpp",S+"FramePassGroup.cpp"],
 [("record loop",S+"RunnableGraph.cpp"),("recordInto, initialise",S+"RunnablePass.cpp"),("sortPasses",S+"FrameGraph.cpp")],
 None,["user callbacks in call order"])
p("C13","Fallback actions of disabled passes run exactly when needed",
 "For every view with a fallback action declared by a pass, if that pass is disabled in a frame the action's effect (copy, blit or clear, with the declared regions, values and final layout) takes place exactly once in that frame before the first enabled later pass that uses the view, and not at all if no later enabled pass uses it or if the pass is enabled. Chains of fallback actions resolve in dependency order.",
 ["histories","programs"],
 "All placements of fallback actions (including chains), all patterns of enabled/disabled passes over frames, arbitrary views and values.",
 "Tests cover one action with a constant enabled state and do not observe its effect.",
 [S+"RecordContext.cpp",S+"RunnablePass.cpp",I+"RecordContext.hpp"],
 [("registerImplicitTransition/runImplicitTransition",S+"RecordContext.cpp"),("copyImage/blitImage/clearAttachment",S+"RecordContext.cpp"),("recordInto",S+"RunnablePass.cpp")],
 None,["commands recorded before the consuming pass"])
p("C14","Signals call each connected listener exactly once per emission",
 "An emission calls every listener that is connected when it starts and stays connected until reached exactly once, in connection order, with the emitted arguments, and never one that was disconnected before its turn; connecting, disconnecting, moving or destroying connections, including from inside a listener, never affects other connections, never makes the emission skip, repeat or loop, and a live connection keeps its listener until it is disconnected or the signal is destroyed. Whether a listener connected during an emission takes part in it is left open.",
 ["histories","schedules"],
 "All histories of connect, disconnect, move, destroy and emit, with each of those also performed by listeners at any point of an emission.",
 "The one test connects and emits; re-entrant and interleaved histories are unbounded.",
 [I+"Signal.hpp",S+"FramePassTimer.cpp",I+"FramePassTimer.hpp"],
 [("connect/disconnect/operator()",I+"Signal.hpp"),("SignalConnection move and destroy",I+"Signal.hpp"),("timer destroy notification",S+"FramePassTimer.cpp")],
 None,["listener call sequence"])
p("C15","A replaced pipeline takes effect next frame and the old one is retired once",
 "After a pass's pipeline is replaced, every later frame that records the pass at that index uses a pipeline built from the new program and none uses the old one; frames already submitted keep using the old one, which is destroyed exactly once, after they complete and no later than the destruction of its context. Work handed to the context for deferred deletion is executed exactly once, in the order it was given, never while a submitted frame may use what it deletes, and retired objects do not pile up while frames complete.",
 ["histories","schedules","fault_sequences"],
 "All interleavings of pipeline replacements, deferred deletions, runs of several graphs on one context, GPU completion times and failing pipeline creations.",
 "The tests replace a pipeline once on a device with no in-flight work and do not look at which pipeline is bound or destroyed.",
 [R+"PipelineHolder.cpp",R+"RenderQuad.cpp",R+"RenderMesh.cpp",R+"ComputePass.cpp",R+"RenderQuadHolder.cpp",R+"RenderMeshHolder.cpp",S+"RunnableGraph.cpp",I+"GraphContext.hpp",S+"GraphContext.cpp"],
 [("resetPipeline",R+"PipelineHolder.cpp"),("ContextDeleterQueue",I+"GraphContext.hpp"),("run",S+"RunnableGraph.cpp")],
 [("GraphContext::delQueue","deletions waiting for the frames using the objects",I+"GraphContext.hpp")],
 ["vkCmdBindPipeline, vkDestroyPipeline"])
p("C16","Recorded command buffers obey the command-buffer protocol",
 "Every command is recorded into a command buffer between its begin and end and, where it requires so, inside or outside a render pass; draws and dispatches find a compatible live pipeline, descriptor sets, vertex and index buffers bound; every render pass begun is ended, every debug label opened is closed in order; every region, range and subresource named lies inside its resource; and only completely recorded command buffers of the right kind are submitted. This holds for every history of frames including those following failures.",
 ["histories","programs","fault_sequences"],
 "All graphs, pass configurations (indexed, indirect, dynamic counts, several programs), toggles, indices, re-records and failures.",
 "The stub device accepts anything; the command buffer states and bindings are never checked.",
 [S+"RunnableGraph.cpp",S+"RunnablePass.cpp",S+"GraphContext.cpp",R+"PipelineHolder.cpp",R+"RenderPassHolder.cpp",R+"RenderQuadHolder.cpp",R+"RenderMeshHolder.cpp",R+"ComputePass.cpp",R+"GenerateMipmaps.cpp",R+"ImageCopy.cpp"],
 [("record",S+"RunnableGraph.cpp"),("recordInto",S+"RunnablePass.cpp"),("begin/end",R+"RenderPassHolder.cpp"),("debug blocks",S+"GraphContext.cpp")],
 None,["every vkCmd* call and vkQueueSubmit"])
p("C17","Fence waits report the truth and resets never hit a pending fence",
 "Waiting on a fence returns success only when the GPU work it guards has completed, a timeout only when the given time has elapsed without completion, and the device's error otherwise; resetting it first waits for any work still pending, whatever waits timed out or failed before, and afterwards the fence is unsignalled and usable for exactly one further submission. Moving a fence transfers all of this, and no wait blocks forever when the work completes.",
 ["schedules","fault_sequences","histories"],
 "All sequences of waits with arbitrary timeouts, resets, moves and submissions against arbitrary GPU completion times and failing waits.",
 "The stub wait always succeeds at once, so no timeout or pending fence ever occurs.",
 [S+"RunnablePass.cpp",I+"RunnablePass.hpp",S+"RunnableGraph.cpp"],
 [("Fence::wait/reset/move",S+"RunnablePass.cpp"),("run/record fence use",S+"RunnableGraph.cpp")],
 [("m_fenceWaited","whether the pending work was waited for",I+"RunnablePass.hpp")],
 ["vkWaitForFences, vkResetFences, vkQueueSubmit"])
p("C18","The resource cache keeps one live device object per resource",
 "Over any history of creations, lookups and destructions of images, views, samplers and vertex buffers through one handler and the caches of several graphs, with creations failing at any point, a lookup returns the object created for that resource with exactly the declared parameters (merged views covering exactly their sources), equal resources share one object until it is destroyed, a destroyed or failed one is never returned, and creating it again gives a fresh valid object.",
 ["histories","fault_sequences"],
 "All histories of create/lookup/destroy over several graphs and caches sharing a handler, with every device call possibly failing and device handles possibly recycled.",
 "Tests create each resource once in one context with calls that succeed.",
 [S+"ResourceHandler.cpp",I+"ResourceHandler.hpp",S+"FrameGraph.cpp"],
 [("createImage/createImageView/createSampler/createQuadTriVertexBuffer",S+"ResourceHandler.cpp"),("ContextResourcesCache",S+"ResourceHandler.cpp"),("mergeViews",S+"FrameGraph.cpp")],
 None,["vkCreate* parameters and returned handles"])
p("C19","The exported DOT graph shows exactly the passes and transitions",
 "The DOT text exported for a compiled graph names every pass and every transition between them exactly once.",
 ["programs"],"All compiled graphs and export options.",
 "Tests only check that an export is produced.",
 [S+"DotExport.cpp"],[("dot export",S+"DotExport.cpp")])
p("C20","Dependency transitions cover exactly the overlapping accesses",
 "For any set of passes, the dependencies and transitions derived at compile time relate exactly the pairs of passes accessing overlapping ranges of the same resource, one of them writing.",
 ["programs","inputs"],"All sets of passes, views and buffer ranges.",
 "Tests check a few hand-made graphs.",
 [S+"FramePassDependenciesBuilder.cpp"],[("buildPassAttachDependencies",S+"FramePassDependenciesBuilder.cpp")])
p("C21","Attachment and format classification is consistent",
 "Flags, access masks, stages, layouts and format classification of an attachment always agree with how it was declared.",
 ["inputs"],"All attachment kinds, flags and formats.",
 "Tests enumerate some kinds only.",
 [S+"Attachment.cpp",S+"FrameGraph.cpp"],[("Attachment accessors",S+"Attachment.cpp")])
for d in P: print(json.dumps(d))
