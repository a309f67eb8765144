TECH = "TLA+ specification checked with TLC; recorded executions of the real code are checked against it"
NOTE = ("Every recorded execution (random programs x seeded schedules of the real code under a deterministic scheduler with virtual time) must be a behaviour of the "
        "TLA+ specification; schedules and programs are sampled, memory is sequentially consistent. Trusts the scheduler, the event hooks of the harness and TLC.")
G = "src/GraphCtrl/"
EL = G + "GraphElement/"
TP = "src/UtilsCtrl/ThreadPool/"
MSG = G + "GraphMessage/"


def P(i, title, statement, over, text, why, files, mech, **kw):
    d = {"id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    d.update(kw)
    return d


PROPS = [
P("C01", "Elements start only after everything they depend on has finished",
  "In every run of a pipeline, under each of the three engines (dynamic, static, topological), no element is entered before all elements it depends on have finished all their loops, "
  "an element removed from the flow passes its own dependencies on, and the topological engine runs one element at a time. "
  "The same holds for the elements inside a region and inside a reshaped mutable group.",
  ["schedules", "programs"], "every dependency graph, element kind mix, engine and pool size, under every interleaving of the worker threads",
  "Tests run a few fixed graphs under the OS schedule, which almost always starts elements in the intended order; a missed atomic decrement or a wrong macro-node shortcut shows on few interleavings or graph shapes.",
  [EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", EL + "_GEngine/GStaticEngine/GStaticEngine.cpp", EL + "_GEngine/GTopoEngine/GTopoEngine.cpp", EL + "GElement.cpp"],
  [("dependency counters", EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp afterElementRun"), ("topological layers", EL + "_GEngine/GEngine.h"), ("removeDepend for invisible elements", EL + "GElement.cpp")]),
P("C02", "run() executes every element its loop count, then returns, and never hangs",
  "A successful run() executes every registered element exactly once per configured loop and returns only after all of them, including asynchronous ones, have finished. "
  "run() returns for every valid graph: it never hangs and never crashes, however often it is repeated.",
  ["schedules", "programs", "histories"], "every valid pipeline, loop count, engine and number of repeated runs, under every interleaving",
  "A lost wakeup, an element executed twice or an early return needs a particular interleaving; tests only compare a counter after a handful of runs.",
  [EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", EL + "GElement.cpp", EL + "GElementManager.cpp", G + "GraphPipeline/GPipeline.cpp"],
  [("finished counter and condition variable", EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"), ("loop in fatProcessor", EL + "GElement.cpp"), ("parallel run of isolated elements", EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp parallelRunAll")]),
P("C03", "An error stops everything that depends on it and is what run() returns",
  "If an element returns an error, throws, or its prepareRun, checkRunResult or an aspect fails, none of the elements that depend on it start in this run, and run() returns one of the error codes that occurred (an exception counts as a crash). "
  "When run() has returned, nothing of that run is still executing, and the next run() starts afresh; a status with a positive code is not an error.",
  ["schedules", "fault_sequences", "programs"], "every place where an error can be raised, in any number of elements at once, followed by any number of further runs",
  "Tests inject an error at one or two places of a fixed graph and look at the return code; whether something still runs after the return depends on the schedule.",
  [EL + "GElement.cpp", EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", EL + "_GEngine/GStaticEngine/GStaticEngine.cpp", EL + "GElementManager.cpp", "src/CBasic/CStatus.h"],
  [("current status of the engine", EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"), ("crashed()", EL + "GElement.cpp"), ("waiting for submitted tasks", EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp run")]),
P("C04", "init() accepts exactly the acyclic graphs and reports every init failure",
  "init() succeeds exactly when the dependency graph of the pipeline, and of every region in it, is acyclic, the configuration is valid and every element's and aspect's init succeeds, each being called once, lower levels first, whenever they were set; otherwise it returns an error and the pipeline cannot be run. "
  "destroy() calls the destroy of each initialised element once and reports their errors.",
  ["programs", "fault_sequences"], "all graphs, including cyclic ones and ones with removed elements, and every failing or throwing init or destroy",
  "There are exponentially many graphs; tests try one cycle.",
  [EL + "GElementManager.cpp", EL + "_GEngine/GEngine.h", EL + "GElementRepository.cpp", G + "GraphPipeline/GPipeline.cpp", EL + "GElement.cpp"],
  [("isDag over the topological order", EL + "_GEngine/GEngine.h"), ("init of managers", G + "GraphPipeline/GPipeline.cpp"), ("levels", EL + "GElementSorter.h")]),
P("C05", "Pipeline operations are accepted only in the right life cycle state",
  "run() and destroy() fail unless the pipeline is initialised, init() fails if it already is, and the configuration (registration, dependencies, schedule type, engine type, optimisations that need an uninitialised pipeline) can only be changed before init(). "
  "A refused operation executes nothing and changes nothing; after destroy() the pipeline can be initialised and run again.",
  ["histories"], "every sequence of legal and illegal calls, including ones where an operation in between fails",
  "Tests call the operations in the intended order.",
  [G + "GraphPipeline/GPipeline.cpp", EL + "GElementManager.cpp", EL + "GElementRepository.cpp"],
  [("CGRAPH_ASSERT_INIT checks", G + "GraphPipeline/GPipeline.cpp"), ("is_init_", G + "GraphPipeline/GPipeline.h")]),
P("C06", "Clusters and conditions execute the children they promise, in order",
  "A cluster executes its children one after the other in registration order and stops at the first error. A condition executes exactly the child chosen by choose() (the last one for -1, none for any other index out of range), and a multi-condition exactly the children whose isMatch() holds at that time: serially in order, or in parallel, waiting for all.",
  ["schedules", "programs"], "every nesting, choice, match pattern, loop count and failing child",
  "Tests use one fixed choice and match pattern each.",
  [EL + "GGroup/GCluster/GCluster.cpp", EL + "GGroup/GCondition/GCondition.cpp", EL + "GGroup/GCondition/GMultiCondition.inl"],
  [("GCluster::run", EL + "GGroup/GCluster/GCluster.cpp"), ("GCondition::run", EL + "GGroup/GCondition/GCondition.cpp"), ("GMultiCondition serialRun / parallelRun", EL + "GGroup/GCondition/GMultiCondition.inl")]),
P("C07", "A region runs its inner graph like a pipeline of its own, on every loop",
  "Each execution of a region runs every child once per its loop count, respecting the dependencies between the children, and ends only after all of them have ended. An error inside ends the region with that error and with none of its children still running.",
  ["schedules", "programs"], "every inner graph, nesting depth, loop count, engine and failing child",
  "Tests nest regions in a few fixed ways; nested use of one thread pool can deadlock or lose a counter only under particular schedules.",
  [EL + "GGroup/GRegion/GRegion.cpp", EL + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", EL + "GElementManager.cpp"],
  [("own element manager and engine", EL + "GGroup/GRegion/GRegion.cpp")]),
P("C08", "A mutable group runs exactly the flow its reshape() built, anew each time",
  "Each execution of a mutable group calls reshape() once and then executes exactly the children reshape() linked or released, respecting the edges and loop counts it gave them. Edges, loop counts and selection of an earlier execution have no effect on the next one, and an error returned by reshape() ends the group without executing a child.",
  ["schedules", "programs", "histories"], "every sequence of reshape decisions over loops and runs",
  "The tutorial test reshapes into a few fixed flows.",
  [EL + "GGroup/GMutable/GMutable.cpp", EL + "GElement.cpp"],
  [("GMutable::run, setup", EL + "GGroup/GMutable/GMutable.cpp")]),
P("C09", "A 'some' group ends once the requested number of children has finished",
  "GSome starts all its children, ends as soon as the requested number of them has finished or one has failed, and reports an error of a child if one failed before that. The children it did not wait for keep running, told so by isTimeout(), and are finished before the group is entered again and before run() returns; an impossible number is an error.",
  ["schedules", "programs"], "every number of children and trigger number, relative speed, loop and repeated run, under every interleaving",
  "Which child is first is a race; the tests use sleeps which always order them the same way.",
  [EL + "GGroup/GSome/GSome.cpp"], [("left_num_ and condition variable", EL + "GGroup/GSome/GSome.cpp")]),
P("C10", "Hold, loop, prepare and check hooks are called when they should be",
  "Each entered element calls prepareRun() once before its first execution, then runs its loop count times, repeating one iteration for as long as isHold() returns true, and calls checkRunResult() once after the last iteration. An error from prepareRun() or checkRunResult() is an error of the element.",
  ["schedules", "programs", "histories"], "every element kind (nodes and groups), loop count, hold sequence and failing hook",
  "Tests check one hold and one loop count.",
  [EL + "GElement.cpp"], [("fatProcessor", EL + "GElement.cpp")]),
P("C11", "Aspects surround every init, run and destroy in order, and can veto it",
  "For each element with aspects, beginInit/beginRun/beginDestroy of all aspects are called in the order they were added before the element's own function, and finishInit/finishRun/finishDestroy with the status it returned afterwards, once per execution. An error from a begin hook skips the element's function and is the element's error; enterCrashed of each aspect is called if the element throws.",
  ["programs", "fault_sequences"], "every number of aspects, element kind and failing or throwing hook",
  "Tests add one aspect and look at the log.",
  [G + "GraphAspect/GAspectManager.cpp", EL + "GElement.cpp", EL + "GElement.inl"],
  [("GAspectManager::reflect", G + "GraphAspect/GAspectManager.cpp"), ("doAspect", EL + "GElement.cpp")]),
P("C12", "Timeouts act in time and according to their strategy",
  "An element with a timeout that has not finished when it expires is left: with the error strategy the run fails, with the two hold strategies the flow goes on as if it had finished; an element that finishes in time is not affected. "
  "run() returns only after an element of the hold-by-pipeline strategy has really finished, and reports its error; a timeout in one run does not affect later runs. isTimeout() is true in an element that was left behind (it or a group around it timed out under a hold strategy), and never without that reason.",
  ["schedules", "programs", "histories"], "every timeout, duration, strategy, element kind and dependency, over repeated runs",
  "Tests use sleeps far from the limit and one strategy at a time.",
  [EL + "GElement.cpp", EL + "GElementRepository.cpp", EL + "GAdapter/GFence/GFence.cpp"],
  [("asyncRun / getAsyncResult", EL + "GElement.cpp"), ("async elements of the repository", EL + "GElementRepository.cpp")]),
P("C13", "suspend() and cancel() stop the flow, resume() continues it",
  "After suspend() has returned, elements that have not started do not start until resume(); after resume() the run continues and loses or repeats nothing. After cancel() during a run no further element starts, run() returns and process() makes no further run; all three are refused on an uninitialised pipeline, and no sequence of these calls makes run() hang once resume() or cancel() was the last of them.",
  ["schedules", "histories"], "every sequence of control calls from any threads at any point of a run",
  "Tests suspend and resume with sleeps at one fixed point; a lost wakeup needs the call to fall between the check and the wait of an element.",
  [G + "GraphPipeline/GPipeline.cpp", EL + "GElement.cpp", EL + "GElementRepository.cpp"],
  [("checkSuspend / condition variable", EL + "GElement.cpp"), ("pushAllState", EL + "GElementRepository.cpp")]),
P("C33", "Asynchronous run and process behave like the synchronous ones",
  "asyncRun() and asyncProcess() execute exactly what run() and process() would, and their future delivers the same status, after everything has ended. process(n) is init(), n runs stopping at the first error, and destroy().",
  ["schedules", "programs"], "every pipeline, number of runs and error, with further operations overlapping or following",
  "The tests wait for the future right away on one pipeline.",
  [G + "GraphPipeline/GPipeline.cpp"], [("asyncRun, asyncProcess, process", G + "GraphPipeline/GPipeline.cpp")]),
P("C14", "The thread pool runs every task exactly once and delivers its result",
  "Every task handed to an initialised thread pool, by whatever call, index, strategy and from whatever thread (tasks included), is executed exactly once, by one of the pool's threads, one task per thread at a time, and its future delivers the value it returned or the exception it threw, after it has ended. "
  "Up to the number of primary threads tasks can be in progress together. destroy() returns only when no task is running and none runs after it (a task not begun by then may be dropped, and its future says so); the pool can be initialised and used again, with or without a monitor.",
  ["schedules", "programs", "histories"], "every pool configuration, mix of submission calls, number of submitting threads, nesting of tasks and moment of destroy() and init()",
  "A task lost or run twice in a work stealing queue, or a lost wakeup of an idle thread, needs two or three threads at one instruction; tests run many quick tasks and look at a sum.",
  [TP + "UThreadPool.cpp", TP + "UThreadPool.inl", TP + "Thread/UThreadPrimary.h", TP + "Thread/UThreadSecondary.h", TP + "Queue/UWorkStealingQueue.h", TP + "Queue/UAtomicQueue.h", TP + "Task/UTask.h"],
  [("dispatch, commit, execute, commitWithTid", TP + "UThreadPool.inl"), ("popTask / stealTask / popPoolTask", TP + "Thread/UThreadPrimary.h"), ("fatWait", TP + "Thread/UThreadPrimary.h"), ("init / destroy / monitor", TP + "UThreadPool.cpp")]),
P("C15", "submit() of a task group waits for all of it, or for the time limit",
  "submit() of a function or a task group executes every task of it once and returns success as soon as all of them have ended and never earlier; if some task has not ended within the smaller of the group's and the call's time limit, it returns an error at that time. "
  "The callback of the group is called exactly once, before submit() returns, with the same status. An empty group succeeds at once.",
  ["schedules", "programs"], "every group size, duration, pair of limits, pool size and number of submitting threads",
  "Tests submit one group with a generous limit; an early success or a limit counted wrongly shows only when durations are close to the limit.",
  [TP + "UThreadPool.cpp", TP + "Task/UTaskGroup.h"], [("submit", TP + "UThreadPool.cpp"), ("UTaskGroup", TP + "Task/UTaskGroup.h")]),
P("C16", "Priority and long tasks run on secondary threads, best priority first",
  "A task committed with a priority, or as a long time task, is executed only by a secondary thread; whenever a secondary thread takes a priority task it takes one of the highest priority waiting at that time. There are never more secondary threads at work than the configured maximum leaves room for (one that is being given back may end its last task), "
  "commitWithPriority() starts one if there is none, releaseSecondaryThread(n) fails exactly if fewer than n are left, and no priority task is lost, whatever the monitor does.",
  ["schedules", "histories"], "every order of commits, priorities, releases and pool configurations, with and without the monitor",
  "Tests commit a few priority tasks without keeping the secondary thread busy, so the order and the counts are never decided by the queue.",
  [TP + "UThreadPool.cpp", TP + "UThreadPool.inl", TP + "Queue/UAtomicPriorityQueue.h", TP + "Thread/UThreadSecondary.h"],
  [("commitWithPriority", TP + "UThreadPool.inl"), ("createSecondaryThread / releaseSecondaryThread / monitor", TP + "UThreadPool.cpp"), ("UAtomicPriorityQueue", TP + "Queue/UAtomicPriorityQueue.h")]),
P("C17", "A topic delivers each message once, in order, within its bounds",
  "Between any senders and receivers, a send/recv topic delivers each message to exactly one receiver, in the order in which the sends took effect, and nothing else. A send to a full topic waits for room, replaces the oldest message or drops the new one, as its strategy says; a receive takes a waiting message, otherwise waits and fails only after its time limit. "
  "Every operation takes effect at one moment between its call and its return; operations on a topic that does not exist fail, and creating one anew succeeds only with the same size and type.",
  ["schedules", "histories"], "every number of senders, receivers and topics, buffer size (2 and up, one place stays empty), strategy, time limit and moment of create and remove",
  "A lost wakeup or a message overwritten needs a sender and a receiver meeting at a full or empty buffer; the tests run one sender and one receiver.",
  [MSG + "GMessage.h", MSG + "GMessageManager.h", TP + "Queue/URingBufferQueue.h"],
  [("send, recv", MSG + "GMessage.h"), ("push, waitPopWithTimeout", TP + "Queue/URingBufferQueue.h"), ("topic maps", MSG + "GMessageManager.h")]),
P("C18", "A publication reaches every subscriber of its topic once, in order",
  "Each message published to a topic is delivered once to every connection bound to it when it is published, in publication order for that connection, and to no other; a full connection waits, replaces or drops by the strategy of the publication. "
  "Connection ids are never given out twice; a connection that does not exist (any more) fails to receive; a subscriber with nothing waiting fails only after its time limit.",
  ["schedules", "histories"], "every number of publishers, subscribers, topics and connections, buffer size, strategy, time limit and moment of bind and drop",
  "Tests bind before anything is published and use one publisher.",
  [MSG + "GMessageManager.h", MSG + "GMessage.h", TP + "Queue/URingBufferQueue.h"],
  [("bindTopic, pubTopicValue, subTopicValue", MSG + "GMessageManager.h"), ("push, waitPopWithTimeout", TP + "Queue/URingBufferQueue.h")]),
P("C19", "A stage releases its waiters together, once per full round",
  "Whoever enters a stage waits until as many as its threshold have come; then its launch function runs once, after all of them have come, and all of them, but nobody else, go on; the stage can be used again at once, any number of times. "
  "Nobody waits for ever once enough have come. Entering a stage the pipeline does not have fails at once, and a threshold below 1 is refused.",
  ["schedules", "programs"], "every threshold, number of participants and rounds, order of arrival and wake up",
  "A waiter that is woken late and sees the next round, or is released without a full round, needs the next round to begin between notify and wake up; tests do one or two rounds.",
  [G + "GraphStage/GStage.cpp", G + "GraphStage/GStageManager.h"], [("waiting()", G + "GraphStage/GStage.cpp"), ("waitForReady / launch by key", G + "GraphStage")]),
P("C20", "Each notification triggers its event once, by its strategy's deadline",
  "A synchronous notification runs the event's trigger once, in the calling thread, before it returns. An asynchronous one runs it once in another thread: before run() returns with the run-finish strategy, before destroy() returns with the destroy strategy, and before its future becomes ready in any case; nothing is triggered without a notification. "
  "A notification of an unknown event fails and triggers nothing. When destroy() has returned no trigger is running.",
  ["schedules", "programs", "histories"], "every mix of notifications from elements, their init and destroy, and daemons, over repeated runs and life cycles",
  "An event left running after run() needs a slow trigger or a busy pool; tests only look at the log.",
  [G + "GraphEvent/GEvent.cpp", G + "GraphEvent/GEventManager.cpp", G + "GraphPipeline/GPipeline.cpp"],
  [("process / asyncProcess / asyncWait", G + "GraphEvent/GEvent.cpp"), ("event_manager_->reset() in run()", G + "GraphPipeline/GPipeline.cpp")]),
P("C21", "Daemons run periodically from init() to destroy() and never else",
  "After a successful init() the task of each daemon is called again and again, the first time one interval after it was started; the next call is due one interval after the previous one began (or after it ended, if it took longer), or after the time modify() asked for. Calls of one daemon never overlap. "
  "No daemon runs before init(), after a failed init(), or once destroy() has returned, and destroy() does not wait for the next interval.",
  ["schedules", "histories"], "every number of daemons, interval, task duration, modification and life cycle",
  "Tests let one daemon tick for a moment; a lost stop notification or a daemon left running after a failed init shows on one interleaving or fault only.",
  [G + "GraphDaemon/GDaemon.cpp", G + "GraphDaemon/GDaemonManager.cpp", "src/UtilsCtrl/Timer/UTimer.h", G + "GraphPipeline/GPipeline.cpp"],
  [("start / stop", "src/UtilsCtrl/Timer/UTimer.h"), ("daemon_manager_ in init() and destroy()", G + "GraphPipeline/GPipeline.cpp")]),
P("C22", "Parameters are shared by key, with one value, life cycle and history",
  "A parameter created under a key is found by everybody under that key and type until it is removed, whatever else is created or looked up meanwhile; creating it again succeeds only with the same type and keeps it. Updates under its lock are not lost. "
  "Its setup() is called once at the start of every run before any element and a failure there stops the run, its reset() once after everything with the status run() returns, its init() and destroy() with the pipeline's. "
  "The backtrace lists once, in order of first use, whoever looked it up; the keys an element has used are listed too.",
  ["schedules", "histories"], "every mix of operations on parameters from elements, events and the main program, over repeated runs and life cycles",
  "A lookup that misses an existing key while the table grows, or a lost update of a shared set, needs two threads within a few instructions.",
  [G + "GraphParam/GParamManager.cpp", G + "GraphParam/GParamManager.inl", G + "GraphParam/GParam.cpp", G + "GraphParam/GParamManagerWrapper.h", G + "GraphPipeline/GPipeline.cpp"],
  [("create / get / removeByKey", G + "GraphParam/GParamManager.inl"), ("setup / resetWithStatus", G + "GraphParam/GParamManager.cpp"), ("backtrace", G + "GraphParam/GParam.cpp")]),
P("C23", "A pipeline manager never lets two runs share a pipeline",
  "A pipeline manager runs each request on one of its free pipelines: run() executes one pipeline once, as a whole, and returns its status; fetch() hands a free pipeline to one caller only, until it is released. No pipeline is in two hands at once, every pipeline comes back when its run has ended, whatever its status, "
  "and run() or fetch() finds none only if all were in use at some moment of the call. init() and destroy() reach each pipeline once; adding, removing and releasing succeed exactly when they should.",
  ["schedules", "histories"], "every number of pipelines and calling threads, every order and overlap of run, fetch, release and life cycle calls",
  "The tests call run() from a few threads and count; a pipeline that is lost, or given to two callers, needs two calls within a few instructions or a run that fails.",
  [G + "GraphPipeline/GPipelineManager.cpp"],
  [("run / fetch / release", G + "GraphPipeline/GPipelineManager.cpp")]),
P("C24", "What is said about a graph is true of that graph",
  "trim() removes exactly the dependencies implied by others, in the pipeline and its regions, and leaves every order of execution as it was; calcMaxParaSize is the width of the graph; checkSeparate is true exactly for elements that can never run at the same time. "
  "The relations of an element name its predecessors, successors, children and group. addDependElements and removeDepend change just what they say or refuse. dump() draws each element and each dependency once. All of it stays true between runs and never alters them.",
  ["programs", "histories"], "every directed acyclic graph of up to six elements, and random nested graphs, edited in every order between runs",
  "The tests look at two or three hand drawn graphs; a wrong answer shows on particular shapes only (all shapes up to six elements are enumerated here).",
  [EL + "_GOptimizer/GTrimOptimizer.h", EL + "_GOptimizer/GMaxParaOptimizer.h", EL + "_GOptimizer/GSeparateOptimizer.h", EL + "GElement.cpp", EL + "GElementManager.cpp", G + "GraphPipeline/GPipeline.cpp"],
  [("trim", EL + "_GOptimizer/GTrimOptimizer.h"), ("max para", EL + "_GOptimizer/GMaxParaOptimizer.h"), ("separate", EL + "_GOptimizer/GSeparateOptimizer.h"), ("dump", G + "GraphPipeline/GPipeline.cpp")]),
P("C25", "A loaded pipeline is the one that was saved",
  "A pipeline loaded from a file behaves exactly like the one saved to it, and so does one saved and loaded again: the same elements, groups, dependencies, loops, levels, time limits, visibility, aspects, events, daemons with their intervals, stages with their thresholds, parameters with their keys and backtraces, and thread pool configuration. "
  "Saving and loading leave the original as it was. save() refuses a pipeline that is initialised or has adapters; load() fails, and never crashes, on an initialised pipeline or a missing, empty or cut file. (Engine types and the values of parameters are not stored.)",
  ["programs", "histories", "crash points"], "every pipeline of storable elements, every chain of saves and loads, every length at which a file is cut off",
  "The tests save and load one pipeline and run it; a field that is not stored, or a file cut at one particular byte, shows only for a pipeline that uses it.",
  [G + "GraphPipeline/_GStroage/GStorage.cpp", G + "GraphPipeline/_GStroage/GStorageDefine.h", "src/UtilsCtrl/Reflection/UReflectionType.h", "src/UtilsCtrl/Reflection/UReflectionSession.h", G + "GraphPipeline/GPipeline.cpp"],
  [("save / load", G + "GraphPipeline/_GStroage/GStorage.cpp"), ("stored fields", G + "GraphPipeline/_GStroage/GStorageDefine.h"), ("reflection", "src/UtilsCtrl/Reflection/UReflectionType.h")]),
]
