CLAIMS = {
"C01": "Proved for every task and every state of its incoming links: the postconditions of TaskBehavior.Enter and of the functions it depends on (link lookup, status change). Trusted: contracts of logging, tracing and the change tracker interface; machine integers as mathematical; no interleavings.",
"C02": "Proved for every number and order of outgoing links: the postconditions of TaskBehavior.Done, SortTaskEntries, getEnterCode, EvalLink and link bookkeeping. Trusted: expression evaluation returns an arbitrary result or error or panics; sort.Slice sorts; no interleavings.",
"C03": "Proved for every task: the postconditions of TaskBehavior.Skip and of Eval of all three task behaviours on a skipped task. That the scheduler enters every successor once and does not run skipped tasks are postconditions of enterTasks, enterTask and execTask (C04).",
"C04": "Proved for every state and history of results: the postconditions of enterTask, enterTasks, scheduleEval, execTask, DoStep, handleTaskDone, handleTaskError, FindOrCreateTaskInst and releaseTask, with ghost counters for queue operations and for the calls made. Assumed: activities use the activity API and do not change the bookkeeping of tasks; core's queue delivers what was pushed; DoStepInLoop is exercised only on random flows (bounded); no interleavings.",
"C05": "Proved for every error, link mix and nesting: the postconditions of TaskBehavior.Error, handleTaskError, HandleGlobalError and of the panic handling in execTask. Whole error histories are exercised on random flows (bounded). Assumed as for C04.",
"C07": "Proved for every flow and state: the postconditions of FlowBehavior.Start, StartErrorHandler, TaskDone, TaskInstances, Tasks, startInstance and handleTaskDone; that no work runs after completion is a postcondition of execTask and DoStep. Assumed as for C04.",
"C08": "Proved for every state: the postconditions of newEmbeddedInstance, startInstance, StartSubFlow, handleTaskDone, handleTaskError and HandleGlobalError on subflows. The mapping of a resumed task's error and outputs is exercised on random flows (bounded). Trusted: support.GetDefinition; assumed as for C04.",
"C06": "Proved for every error value and state: the postconditions of getErrorObject, appendErrorData, setTaskError and the error clauses of handleTaskError, handleTaskDone, HandleGlobalError and execTask (what the flow's data holds at the moment the error branch or handler is entered). Assumed as for C04; error methods are pure.",
"C09": "Proved for every value iterated on and every iteration state: the postconditions of IteratorTaskBehavior.Eval and PostEval, NewObjectIterator, evalActivity and retryEval (what every evaluation sees and that the iteration advances by exactly one element). Assumed: activities do not change the bookkeeping of the task; reflect.Value is a pure sequence; expressions return any result, error or panic.",
"C10": "Proved for every state: the postconditions of DoWhileTaskBehavior.Eval and PostEval (at least one evaluation, verdict of the condition, index seen and its increment, errors). Assumed: activities do not change the bookkeeping of the task; expressions return any result, error or panic.",
"C11": "Proved for every sequence of outcomes and every configuration: the postconditions of evalActivity, retryEval, getRetryData, TaskBehavior.Eval/PostEval and of the retry configuration's Count/Interval. Assumed: activities do not change the bookkeeping of the task; time.Sleep sleeps; integers are mathematical.",
"C12": "Proved for every activity behaviour, set of outputs and loop configuration: the postconditions of EvalActivity, PostEvalActivity, the input and output mapper application, the default output mapper and the accumulation. Assumed: activities do not change the bookkeeping of their task, the maps of a task are distinct, mappers return a new map; assertions (applyAssertionInterceptor) are trusted; schema validation off or arbitrary.",
"C18": "Proved for every interceptor and patch and every task: the postconditions of applyInputInterceptor, applyOutputInterceptor, hasOutputInterceptor, the status report functions, the mapper selection, Interceptor.Init, Patch.Init, initMappers, ApplyExecOptions and of EvalActivity/PostEvalActivity. Trusted: applyAssertionInterceptor (assertions only report), coerce.ToType and mapper construction as pure functions; the maps given by the user are not those of a running task.",
"C13": "Proved for every name, value and state: the postconditions of Instance.GetValue/SetValue, the working data scope, the task's scope and of the activity, error, flow and iteration resolvers. Trusted: string facts about the reserved prefix, data.Scope reads are pure, core's resolution of paths.",
"C14": "Proved for every declared interface, given inputs and state: the postconditions of startInstance, GetReturnData, Return, Reply and postFlowEvent. Trusted: metadata accessors as plain reads; event publishing does not write to the flow.",
"C16": "Proved for every history of changes: the postconditions of every method of SimpleChangeTracker (each change is in the step's record, under its flow, with its latest value) and, with a ghost log of records, of the functions that change a flow's state (status, attributes, tasks, links, work items, subflows): every change is reported to the tracker. Assumed: the recorder's class invariant (assumed on entry, proved on exit), deepcopy.Copy copies, the maps inside a step are only reached through it; RecordState's delivery to the recorder is exercised on random flows (bounded).",
"C21": "Proved for every status, mode name and environment value: the postconditions of the status conversions, ToRecordingMode, RecordSteps/RecordSnapshot, GetMaxStepCount, the boolean settings, ActionFactory.Initialize, RecordState and, with a ghost log of posted events, of the functions that post task and flow events. The wiring of every setting is exercised in child processes (bounded). Assumed: os.LookupEnv, strconv, strings and coerce functions are pure; core delivers posted events.",
"C22": "Proved for every reference, provider behaviour and registration history: the postconditions of FlowManager.GetFlow, GetDefinition, materializeFlow, the model registry and the task behaviour tables, with ghost state for what was fetched and built. The basic remote provider (files, compressed, empty, remote, invalid references) is exercised with random references (bounded). Assumed: flow providers return anything; strings functions pure; no interleavings.",
"C20": "Proved for every request, run option and history: the postconditions of Run of both actions (done signalled exactly once, the id first, exactly one final result: data, error or step-limit error; refused requests deliver nothing) and of DoStepInLoop, with a ghost log of results. The goroutine of Run is executed at its go statement (Run does nothing after it), tasks run concurrently are executed where they are started: no interleavings. Assumed: activities deliver results only as replies; a panic that escapes the engine ends the process; C04 for the steps.",
"C23": "Proved for every sequence of steps: the postconditions of StepsToSnapshot, UpdateFlow, UpdateTasks and UpdateLinks (latest recorded status, tasks, links and attributes of every flow, steps unaltered). Assumed: steps as the recorder leaves them (the change of a flow is kept under its id, no nil entries); a status of zero is no record.",
}
NOT = {}
