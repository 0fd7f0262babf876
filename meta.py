"""The properties, in one place: writes properties.jsonl and MANIFEST.json (python3 meta.py)."""
import json, os
VERIF = os.path.dirname(os.path.abspath(__file__))
S = "source/RenderGraph/"
I = "include/RenderGraph/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="model_checking", technique="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=" ".join(text.split()), why=" ".join(why.split()), files=files.split(),
                  mech=mech, state=state, observe=observe, level=level, technique=technique or "stateless model checking of the real library on a simulated device", note=" ".join(note.split())))


REC = [("image state tracking", S + "RecordContext.cpp"), ("transitions before a pass", S + "RunnablePass.cpp recordInto"), ("per subresource layouts", S + "LayerLayoutStatesHandler.cpp")]
SIM = "Trusts the simulated device (layouts, contents and object lives as the Vulkan specification gives them) and the reference model; the library's own code is what runs."

prop("L01", "Images are in the layout each view needs when a pass works",
     """Whenever a pass works on the GPU, every subresource of the images behind its views is in the layout its declaration calls for, whatever the views of the other passes
     and whichever passes are enabled in this frame and were in the previous ones. Every recorded transition and render pass starts from the layout the subresource really is in.
     After a frame, the layout the graph reports for a subresource it used is the one the device left it in.""",
     "programs histories configurations", """all chains of up to 3 (thorough 5) passes over sampled, storage, clearable storage, transfer, implicit, colour, depth, stencil views of mip/layer/slice/face ranges, one or two images,
     several pass indices, declared graph inputs, graphs compiled again between two frames, with images made again or not; all sets of enabled passes over 2 (thorough up to 4) frames; images used by one graph, depth and stencil in the same layout (in separate layouts in a scenario of its own)""",
     "The tests record against stubs which accept any layout, and record one or a few frames of fixed graphs; the property quantifies over view combinations and over the history of enabled passes.",
     S + "RecordContext.cpp " + S + "RunnablePass.cpp " + S + "LayerLayoutStatesHandler.cpp " + S + "RunnableGraph.cpp " + S + "RunnablePasses/RenderPassHolder.cpp " + S + "FrameGraph.cpp",
     REC + [("render pass initial/final layouts", S + "RunnablePasses/RenderPassHolder.cpp")],
     observe=["vkCmdPipelineBarrier", "vkCreateRenderPass", "vkQueueSubmit", "FrameGraph::getFinalLayoutState"], note=SIM)
prop("L02", "What a pass wrote in a view is what later passes and frames read",
     """The contents a pass left in a subresource are the ones every later pass reading it finds, in the same frame and in the following ones, until another pass overwrites it, clears it as declared, or declares not to keep it:
     no transition, render pass, or start of a frame discards or changes them. A view declared as cleared holds exactly its clear value when its pass starts.""",
     "programs histories configurations", "the same graphs, views, frames and sets of enabled passes as L01",
     "The tests never look at contents: the stubs have no memory. Losing contents needs a combination of views (partial ranges, unused frames, disabled writers) that no sampled graph has.",
     S + "RecordContext.cpp " + S + "RunnablePass.cpp " + S + "RunnableGraph.cpp " + S + "RunnablePasses/RenderPassHolder.cpp " + S + "LayerLayoutStatesHandler.cpp",
     REC + [("load/store operations", S + "RunnablePasses/RenderPassHolder.cpp addAttach")],
     observe=["texels of the simulated images"], note=SIM)
prop("S01", "Graphs that depend on each other hand images over in their real state",
     """A graph that declares its dependency on the graphs sharing an image with it finds the image in the layout, and with the contents, in which the last of them that used it left it,
     whatever the sequence in which the graphs run, how many times each runs, and which of their passes are enabled.""",
     "histories configurations programs", "2 and 3 graphs sharing an image, depending on each other or in a line; all sequences of 3 to 6 runs; all sets of enabled passes for 2 graphs of 2 passes; sampled, storage, transfer and colour views",
     "The tests run each dependent graph once, after the other one, without looking at the device state.",
     S + "RunnableGraph.cpp " + S + "FrameGraph.cpp " + S + "RecordContext.cpp", [("states of the dependencies", S + "FrameGraph.cpp getPreviousLayoutStates"), ("final state", S + "FrameGraph.cpp registerFinalState")],
     observe=["vkCmdPipelineBarrier", "vkQueueSubmit"], note=SIM + " Graphs run on one thread, in submission order.")
prop("F01", "A frame is one valid submission with the waits it was given",
     """Running a graph makes exactly one queue submission, of a command buffer the device has finished with, which waits once for each distinct non-null semaphore it was given, at all the stages it was given with,
     signals the semaphore it returns, and has a fence. No command buffer, fence or semaphore is ever recorded, reset, begun, ended or submitted in a state in which Vulkan forbids it.""",
     "histories configurations inputs", "2 to 5 passes, up to 4 frames without waiting for the device in between, all sets of enabled passes; arrays of up to 3 semaphores (null, repeated, with different stages), the three forms of run, two graphs chained by their semaphores",
     "The tests' stubs accept any call sequence; only a few frames are run.",
     S + "RunnableGraph.cpp " + S + "RunnablePass.cpp", [("fence", S + "RunnablePass.cpp Fence"), ("submission", S + "RunnableGraph.cpp run"), ("semaphores", S + "RunnablePass.cpp convert")],
     observe=["vkQueueSubmit", "vkResetFences", "vkBeginCommandBuffer"], note=SIM)
prop("E01", "Enabled passes work exactly once a frame, in order, initialised once",
     """In every frame each enabled pass is recorded and executed exactly once, in the graph's order and with the index it asks for, and a disabled pass not at all.
     A pass is initialised before its first recording with an index, and only once for each index it is used with (a render pass is set up again only when it is about to be recorded).""",
     "histories configurations", "2 to 5 passes (render passes and plain ones), all sets of enabled passes over up to 4 frames, all choices of index for 2 indices",
     "The tests toggle passes in a few fixed graphs; toggling histories and indices multiply.",
     S + "RunnableGraph.cpp " + S + "RunnablePass.cpp " + S + "RunnablePasses/RenderPass.cpp", [("recording", S + "RunnablePass.cpp recordInto"), ("order of the passes", S + "RunnableGraph.cpp record")], note=SIM)
prop("E02", "The actions declared on a pass run exactly when and where they should",
     """When a pass that declared an action for a view is disabled, the action runs exactly once, right before the next enabled pass using that view in the frame, and in the order of the passes when several declared one; it doesn't run while the pass is enabled. The actions to run before and after an enabled pass's work surround it, outside of any render pass, each once, in order and with the pass's index.
     The clear, copy and blit actions leave in the view what they say, and in the layout asked for.""",
     "programs configurations histories", "5 passes on 3 images, two of them with actions (clears, copies, blits, with and without final layout, for the same or for other views); all sets of enabled passes; each action on views of 2 levels, 3 layers, colour and depth, all offsets of a list; 0 to 2 actions before and after each of the 11 types of provided passes, 2 indices, disabled or not over 2 (thorough 3) frames",
     "The tests check one action in one graph with a stub device.",
     S + "RecordContext.cpp " + S + "RunnablePass.cpp", [("registration and run of the actions", S + "RecordContext.cpp runImplicitTransition"), ("the actions", S + "RecordContext.cpp copyImage, blitImage, clearAttachment"), ("actions around the work", S + "RunnablePass.cpp recordInto")], note=SIM)
prop("H01", "A pass is told the pipeline states of its enabled neighbours",
     """While a pass is recorded, the pipeline states it is given as previous, current and next are those of the nearest enabled pass before it, of itself, and of the nearest enabled pass after it in the graph's order, whenever there are such passes.""",
     "histories configurations", "2 to 5 passes, all sets of enabled passes over up to 4 frames",
     "The tests record fixed graphs with all the passes enabled.",
     S + "RunnableGraph.cpp " + S + "RecordContext.cpp", [("neighbours", S + "RunnableGraph.cpp record")], note=SIM)
prop("R01", "Device objects live exactly as long as they are needed",
     """Every device object is used only between its creation and its destruction, is destroyed exactly once, with the allocator it was created with, and not before the device has finished the submissions that use it, and none is left once the graphs, their handler and their contexts are gone.""",
     "histories configurations", "2 to 5 passes (render passes, whose objects are made again when their neighbourhood changes, and plain ones), all sets of enabled passes over up to 4 frames, passes recorded again on their own in between",
     "The stubs of the tests count creations and destructions at the end of a few scenarios; they know neither uses nor pending submissions.",
     S + "RunnableGraph.cpp " + S + "RunnablePass.cpp " + S + "ResourceHandler.cpp " + S + "RunnablePasses/RenderPassHolder.cpp " + S + "GraphContext.cpp", [("owners", S + "ResourceHandler.cpp"), ("render pass and framebuffer", S + "RunnablePasses/RenderPassHolder.cpp")], note=SIM)

exec(open(os.path.join(VERIF, "meta_more.py")).read()) if os.path.exists(os.path.join(VERIF, "meta_more.py")) else None


def main():
    from props import PROPS
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    assert set(ids) == set(PROPS), set(ids) ^ set(PROPS)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None))
            if p["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = list(p["observe"])
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"], level=PROPS[p["id"]].get("level", p["level"]), level_note=p["note"] + " Bounds: " + p["text"] + "."))
    json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[],
                   notes="No hooks in /repo: the library takes its device through function pointers, which is where the simulated device and the scheduler are put. See DESIGN.md."),
              open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
