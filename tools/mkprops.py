#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
TI="instance/taskinst.go"; II="instance/ind_instance.go"; TB="model/simple/taskbehavior.go"
p("C01","Join rule: a task runs only when all its incoming links are decided",
 "When a task is entered it stays not-ready while at least one of its incoming links is still undecided. Once every incoming link is decided it becomes ready if it has no incoming links or at least one of them was taken, and skipped if none was taken. The task status reported afterwards (entered, ready, skipped) agrees with that verdict, and entering a task changes the status of no link.",
 ["inputs","programs"],"every task, any number of incoming links, any combination of undecided/false/true/skipped link statuses",
 "the tests enter tasks with zero to two links in a handful of status combinations",[TB,TI,"instance/instance.go"],
 [("TaskBehavior.Enter",TB),("GetFromLinkInstances",TI),("FindOrCreateLinkData","instance/instance.go")],
 [("link instance status","0 undecided, 1 false, 2 true, 3 skipped","instance/linkinst.go"),("task instance status","task life cycle",TI)])
p("C02","Outgoing links are decided correctly when a task completes",
 "When a task completes, every outgoing link is decided: dependency and label links are taken, an expression link is taken exactly if its expression evaluates to true, an otherwise link (the last one, should there be several) is taken exactly if the task has at least one expression link and none of them was taken, and error links are not taken. Every link leads to exactly one entry of its successor, in priority order (dependency, expression, otherwise, label, not-taken last; with the prioritise-expression setting label and expression swap) and in definition order within the same priority. If a link expression fails the completion reports that error, and a task without outgoing links tells the flow that an end of the flow was reached.",
 ["inputs","programs"],"every set of outgoing links (types, order, number) and every outcome of evaluating the expressions",
 "the tests cover a few hand-written link mixes; the otherwise rule and the ordering depend on all links together",[TB,TI,"instance/linkinst.go"],
 [("TaskBehavior.Done",TB),("getEnterCode / SortTaskEntries",TB),("EvalLink",TI)])
p("C03","Skipped tasks never execute and propagate the skip",
 "A task that is skipped is marked skipped, its activity is never executed, all of its outgoing links are marked skipped, and each successor is entered exactly once per link in definition order so that the skip reaches every path behind it. A skipped task without outgoing links tells the flow that an end of the flow was reached. Evaluating a task that is already marked skipped has no effect other than reporting it as finished without running.",
 ["inputs","programs"],"every flow graph and every set of links not taken",
 "tests exercise a single skipped task; propagation must hold for any graph behind it",[TB,II],
 [("TaskBehavior.Skip",TB),("TaskBehavior.Eval",TB),("handleTaskDone",II)])
p("C04","Scheduling: each ready task is queued once and results drive the right action",
 "A task that becomes ready is put on the work queue exactly once, even if it is reached over several links; each step takes exactly one item from the queue and runs that task, and no step runs anything unless the flow is active. A waiting task is resumed, an already finished or skipped task is not run again, and any other task is evaluated; afterwards a finished task is finalised exactly once, a waiting one is marked waiting and not queued, a repeating one is queued again exactly once, and a failing one is handed to error handling exactly once. Finalising a task enters its successors and releases the task and its incoming links from the running instance.",
 ["histories","inputs"],"every history of evaluation results, every queue content",
 "tests run a few flows to completion and never look at queue discipline or at intermediate results",[II,"instance/instance.go"],
 [("enterTasks",II),("scheduleEval",II),("DoStep",II),("execTask",II),("handleTaskDone",II)],
 [("work item queue","FIFO of pending task evaluations",II)])
p("C05","Errors go to the error branch, else to the error handler once, else fail",
 "When a task fails, it is marked failed; if it has at least one outgoing error link the flow continues along exactly the error links and all other outgoing links count as not taken. Otherwise, if the flow is not yet handling an error, its error handler (if any) is started exactly once, with the tasks still pending in that flow no longer awaited and no other flow touched, and a flow without an error handler is marked failed with that error reported as its result. An unhandled error raised while the error handler itself is running marks the flow failed, and the task's own error is then the reported result.",
 ["inputs","histories","fault_sequences"],"every task error, link mix, handler configuration, nesting and every point in the flow at which the error occurs",
 "error paths are barely tested; the once-only handler rule is about sequences of failures",[TB,II],
 [("TaskBehavior.Error",TB),("handleTaskError",II),("HandleGlobalError",II),("execTask recover",II)])
p("C06","Error details are available to error branches and error handlers",
 "When a task fails, the error object for that task (task name, message, type, code, data) is stored in the failing flow's own scope under that task's name before any error branch or handler runs, and additionally as the flow-wide error when the error goes to the flow's error handler. Activity errors contribute their code, data and activity name, evaluation errors their type and task name, link expression errors the link type, and any other error is reported as unknown with its message. While an error handler is running, a failing task does not replace the flow-wide error before its own failure is handled.",
 ["inputs"],"every error value and every failing task, in main flows and subflows",
 "tests never read the error scope for most error kinds",[TI,II,"definition/resolve.go"],
 [("getErrorObject",TI),("appendErrorData / setTaskError",TI),("ErrorResolver","definition/resolve.go")])
p("C07","Life cycle: start enters leading tasks, completion only when all work is done",
 "Starting a flow makes it active and enters exactly the tasks that have no incoming links; starting its error handler enters exactly the handler's tasks without incoming links. When an end task finishes, the flow is completed if and only if no task known to the running instance is still unfinished, or if an activity explicitly returned from the flow. A flow that is completed or failed executes no further work.",
 ["programs","histories"],"every flow graph, any state of the remaining tasks",
 "tests only use flows of a few tasks where the last task is always the last to finish",["model/simple/flowbehavior.go",II],
 [("FlowBehavior.Start/StartErrorHandler/TaskDone","model/simple/flowbehavior.go"),("handleTaskDone",II),("startInstance",II)])
p("C08","Subflows hand their result or error back to the calling task exactly once",
 "A task that calls a subflow waits; the subflow runs with its own data, its own unique identity and the caller recorded as parent. When the subflow completes, the calling task receives the subflow's returned data as its outputs, any earlier error is cleared, the caller is queued exactly once and the subflow is removed from the running instance. When the subflow fails, the calling task is queued exactly once with the subflow's error and fails with it.",
 ["histories","programs"],"every nesting of flows and every completion or failure of a subflow",
 "there is no end-to-end subflow test",[II,"instance/util.go","activity/subflow/activity.go"],
 [("newEmbeddedInstance",II),("handleTaskDone",II),("HandleGlobalError",II),("StartSubFlow","instance/util.go")])
p("C09","Iterator tasks run once per element, in order, then finish",
 "An iterator task evaluates its activity exactly once for each element of the configured count, array or object (ascending index; every key of an object exactly once) and then finishes; zero elements means no evaluation. During each evaluation the iteration context holds the matching key, value and zero-based index. This holds whether the activity finishes immediately or later, and an error stops the iteration.",
 ["inputs","histories"],"every collection, every length, synchronous and asynchronous activities",
 "tests iterate one or two small literals with synchronous activities",["model/simple/iteratorbehavior.go"],
 [("IteratorTaskBehavior.Eval/PostEval","model/simple/iteratorbehavior.go"),("Int/Array/Object/ReflectIterator","model/simple/iteratorbehavior.go")])
p("C10","Do-while tasks repeat exactly while the condition holds",
 "A do-while task evaluates its activity at least once and, after each successful evaluation, repeats exactly if its condition evaluates to true, otherwise it finishes; without a condition it runs once. The iteration index seen by the condition and the activity starts at zero and grows by exactly one per completed iteration. An error of the activity or of the condition fails the task, and all of this holds whether the activity finishes immediately or later.",
 ["inputs","histories"],"every sequence of condition outcomes, synchronous and asynchronous activities",
 "no test drives do-while through the engine",["model/simple/dowhilebehavior.go"],
 [("DoWhileTaskBehavior.Eval/PostEval","model/simple/dowhilebehavior.go"),("updateDoWhileIndex","model/simple/dowhilebehavior.go")])
p("C11","Retry on error: bounded, only for retriable errors, stops on success",
 "If a task is configured to retry, an activity evaluation failing with a retriable error is repeated until it succeeds or the configured number of retries has been used, so the activity is evaluated at most one plus that number of times and the last error is the one reported. A non-retriable error of an evaluation, or any error of a task without retry configuration, is never retried; an activity that fails when it is resumed after waiting is evaluated again under the same bound if retry is configured. Between attempts the configured interval is respected and the remaining count decreases by exactly one per retry.",
 ["inputs","fault_sequences"],"every sequence of activity outcomes and every retry configuration",
 "tests do not run a retrying task",["model/simple/retry.go",TB],
 [("evalActivity",TB),("getRetryData / retryEval","model/simple/retry.go")])
p("C12","Activity outputs are published to the flow exactly when the activity completes",
 "When an activity completes successfully, each declared output it produced is readable by later tasks under that activity's name and no other flow value changes; when it fails or is still waiting, nothing is published. A loop task configured to accumulate appends exactly one copy of its outputs per completed iteration, in order, and publishes individual outputs only if it is a do-while. A panic inside the activity is reported as an error of that task and never as success.",
 ["inputs","fault_sequences"],"every activity behaviour (success, error, panic, waiting), every set of outputs and every loop configuration",
 "tests use one or two activities that always succeed",[TI,"instance/util.go","definition/mapper.go"],
 [("EvalActivity / PostEvalActivity",TI),("applyOutputMapper","instance/util.go"),("handleAccumulation",TI),("defaultActivityOutputMapper","definition/mapper.go")])
p("C13","Scopes: values are read and written in the right place",
 "Setting a value in a flow makes exactly that name read back with exactly that value in that flow, leaves every other name alone, and never affects another flow instance; an unknown name is reported as missing. A task's working data is readable only by that task under the iteration namespace, never leaks into the flow, and all other names fall through to the flow. Activity, error, flow and iteration references resolve to exactly the value stored for that item or report an error.",
 ["inputs","histories"],"every name, value and sequence of writes",
 "tests set and read a couple of names",["instance/instance.go","instance/scopes.go","definition/resolve.go"],
 [("Instance.GetValue/SetValue","instance/instance.go"),("WorkingDataScope","instance/scopes.go"),("resolvers","definition/resolve.go")])
p("C14","Flow inputs and results are passed faithfully",
 "At start every declared input holds the supplied value, or its declared default when none was supplied, and every supplied value is visible; the flow's name, id and parent are available as flow context. The result of a flow is exactly the data given by the last explicit return or reply, or otherwise the declared outputs with the values they have when the flow finishes (a declared output with a fixed value has that value). Asking for the result earlier, or being observed by event listeners, does not change it.",
 ["inputs","histories"],"every declared interface and supplied inputs; every point at which results are inspected",
 "tests never observe a flow while it runs",[II,"instance/instance.go","instance/flowevents.go"],
 [("startInstance",II),("GetReturnData / Return / Reply","instance/instance.go")])
p("C15","A flow definition is wired exactly as described, or rejected",
 "Building a flow from its description yields exactly the described tasks and links: each link connects the named tasks of its own section (main flow or error handler), has the described type, label and value, appears exactly once in the outgoing list of its source and the incoming list of its target in description order, and has an identifier unique within the flow. Link type names and numbers map to the documented types, with unknown ones treated as plain dependencies. A description that refers to unknown tasks, unsupported task types, unknown activities or invalid expressions is rejected with an error.",
 ["inputs","programs"],"every flow description",
 "tests build a handful of definitions",["definition/definition_ser.go","definition/definition.go"],
 [("NewDefinition","definition/definition_ser.go"),("createLink","definition/definition_ser.go"),("createTask","definition/definition_ser.go"),("getLoopCfg / getRetryOnErrCfg","definition/definition_ser.go")])
p("C16","Recorded steps contain exactly the changes that happened",
 "With change recording on, every status change of the flow or a subflow, every attribute written, every task and link added, updated or removed and every work item queued or taken during a step is recorded in that step under the right flow, task, link or item with its latest value, and nothing else is. Extracting a step with reset starts the next step empty with the next number and the same flow id, and later changes never alter an extracted step. Recording never changes the execution itself.",
 ["histories"],"every sequence of changes and extractions",
 "tests do not inspect recorded steps",["instance/instance_chg.go","state/change/change.go"],
 [("SimpleChangeTracker","instance/instance_chg.go"),("ExtractStep","instance/instance_chg.go")])
p("C17","A saved instance restores to the same state",
 "Saving a running instance and loading it again preserves its id, status, flow reference, attributes, the status of every task and link, its subflows and the order of its work queue, with every queued item attached to the right task of the right (sub)flow. New subflows started afterwards never reuse the id of a restored one. Snapshots list the status, attributes, tasks and links of the main flow and of every running subflow.",
 ["histories","crash_points"],"every reachable instance state at which it is saved",
 "no test saves an instance with subflows or a non-trivial queue",["instance/instance_ser.go",II],
 [("MarshalJSON / UnmarshalJSON","instance/instance_ser.go"),("Snapshot / populateBaseSnapshot",II),("Restart / init",II)])
p("C18","Interceptors and patches affect exactly the task they name",
 "A patch or interceptor is applied to exactly the task it names (patches, overridden inputs and skipping by task id, mocks and reports by flow name and task id): a patched mapper replaces the original one, overridden inputs replace just those inputs, a task set to be skipped or mocked does not execute its activity, a mocked one yields the configured outputs (or the configured error), and its execution status is reported as passed, failed or mocked accordingly. Every other task runs unchanged. An interceptor without a coverage section is usable.",
 ["inputs","configurations"],"every interceptor or patch content and every task",
 "tests do not run a flow with interceptors",["support/interceptor.go","support/patch.go","instance/util.go",TI],
 [("applyInputInterceptor / applyOutputInterceptor","instance/util.go"),("Interceptor.Init/GetTaskInterceptor","support/interceptor.go"),("Patch","support/patch.go")])
p("C19","Internal locks are never re-acquired while held and always released",
 "In concurrent execution mode no operation of the engine acquires an internal lock that it already holds, and every lock acquired by an operation is released when it returns. This covers data access, task and link bookkeeping, scheduling, subflow creation, change recording and the flow cache.",
 ["configurations","histories","programs"],"every engine operation, every flow graph, with and without concurrent execution mode",
 "tests never switch the concurrent mode on",["instance/instance.go",II,"instance/instance_chg.go","support/manager.go"],
 [("lock / actSchedLock / subFlowLock",II),("SimpleChangeTracker.lock","instance/instance_chg.go")])
p("C20","The caller gets exactly one final result and one done signal",
 "Running a flow signals done to the caller exactly once, and delivers exactly one final result: the flow's data when it completed, the flow's error when it failed, or a step-limit error when the configured number of steps was used up without completing. When the caller asked for the instance id, that id is delivered in addition, before the final result. Invalid run requests (no flow, missing initial state) are rejected with an error and deliver nothing.",
 ["inputs","histories","configurations"],"every run option and every outcome of the flow",
 "tests check one successful run",["action.go","ondemand/action.go",II],
 [("FlowAction.Run","action.go"),("DoStepInLoop",II)])
p("C21","Statuses, recording modes and settings are decoded and reported faithfully",
 "Every flow and task status is reported in events as the corresponding event status and unknown codes as unknown. A recording mode setting is accepted case-insensitively exactly if it is one of the documented modes, and decides exactly whether steps and snapshots are recorded. The step limit and the boolean settings take the configured value when it is valid and the documented default otherwise.",
 ["inputs","configurations"],"every status code, mode value and setting value",
 "tests sample a few values",["instance/flowevents.go","instance/taskevents.go","state/status.go","util/util.go","support/env.go"],
 [("convertFlowStatus / convertTaskStatus","instance/flowevents.go"),("ToRecordingMode / RecordSteps / RecordSnapshot","state/status.go"),("GetMaxStepCount","util/util.go")])
p("C22","Lookup of flows, models and task types is consistent",
 "A remote flow is fetched at most once per reference once it was obtained successfully, the same definition is returned to every later request, and failures are reported and not remembered. A model registered under a name is the one found under that name, registering a nil or duplicate model is refused, and a task type is accepted and resolved exactly if it was registered, with the default behaviour used for tasks without a type.",
 ["histories","inputs"],"every sequence of lookups and registrations",
 "tests do one lookup each",["support/manager.go","model/registry.go","model/model.go","util/modelvalidator.go"],
 [("FlowManager.GetFlow","support/manager.go"),("Register / Get / RegisterDefault","model/registry.go"),("FlowModel","model/model.go")])
p("C23","The snapshot rebuilt from recorded steps reflects the latest recorded state",
 "Rebuilding a snapshot from a sequence of recorded steps yields, for the main flow and for every recorded subflow, the most recently recorded status, task statuses, link statuses and attribute values. The recorded steps themselves are not altered, and attributes, tasks and links recorded in only one step are all present; a status of zero stands for no recorded status.",
 ["histories"],"every sequence of recorded steps",
 "the only test rebuilds one recorded flow without subflows and with each value written once",["state/util.go"],
 [("StepsToSnapshot","state/util.go"),("UpdateFlow / UpdateTasks / UpdateLinks","state/util.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sch:
    for x in P: jsonschema.validate(x,sch); assert x["statement"].count(". ")<=2,(x["id"])
print(len(P),"properties")
