// C04: scheduling.

import mapper "core/data/mapper"

// pushes onto and pops from work queues
ghost #qn int
ghost #qitem any
ghost #qq *coresupport.SyncQueue
ghost #popn int
// how often a task instance was queued, how often an entry was entered
ghost #queued [*instance.TaskInst] int
ghost #entered [*model.TaskEntry] int

extern (*coresupport.SyncQueue).Push(q, item) {
  sets #qn := #qn + 1
  sets #qitem := item
  sets #qq := q
}
ghost #popitem any
ghost #popok bool
extern (*coresupport.SyncQueue).Pop(q) -> (item, ok) {
  sets #popitem := item
  sets #popok := ok
  ensures ok ==> item is *instance.WorkItem && (item as *instance.WorkItem) != nil && allocated(item as *instance.WorkItem) && (item as *instance.WorkItem).taskInst != nil && (item as *instance.WorkItem).taskInst.flowInst != nil
  sets #popn := #popn + 1
}
// the latest use of a mapper
ghost #mapn int
ghost #mapM mapper.Mapper
ghost #mapScope data.Scope
ghost #mapDom [string] bool
ghost #mapVals [string] any
modset MAPPING = #mapn, #mapM, #mapScope, #mapDom, #mapVals, #scopeMap
// the values a simple scope was made from
ghost #scopeMap [data.Scope] map[string]any
extern data.NewSimpleScope(m, p) -> (s) {
  ensures s != nil
  sets #scopeMap[s] := m
}
iface (mapper.Mapper).Apply(m, scope) -> (v, err) {
  may_panic
  ensures "a new map" v != nil ==> fresh(v)
  sets #mapn := #mapn + 1
  sets #mapM := m
  sets #mapScope := scope
  sets #mapDom := dom(v)
  sets #mapVals := vals(v)
}

modset QUEUE = #qn, #qitem, #qq

func (*instance.IndependentInstance).scheduleEval(inst, ti) {
  ensures [C04,C08] "exactly one item is queued" #qn == old(#qn) + 1
  ensures [C04,C08] "for that task, on the queue of the instance" #qq == inst.workItemQueue && #qitem is *instance.WorkItem && (let wi := #qitem as *instance.WorkItem :: wi != nil && wi.taskInst == ti && wi.TaskID == ti.task.id && wi.SubFlowID == ti.flowInst.subflowId)
  ensures [C16] "the added item is recorded" rec1(5) && #rv[old(#rn)] == #qitem
  sets #queued[ti] := #queued[ti] + 1
  modifies @QUEUE, @TRACK, inst.wiCounter
}

func (*instance.Instance).releaseTask(inst, task) {
  ensures [C04] "the task is released" !(task.id in inst.taskInsts)
  ensures [C04] "no other task is" forall k string {k in inst.taskInsts} :: k != task.id ==> (k in inst.taskInsts) == old(k in inst.taskInsts) && inst.taskInsts[k] == old(inst.taskInsts[k])
  ensures [C04] "its incoming links are released" forall i int {task.fromLinks[i]} :: 0 <= i && i < len(task.fromLinks) ==> !((task.fromLinks[i]).id in inst.linkInsts)
  ensures [C04] "no other link is" forall k int {k in inst.linkInsts} :: (forall i int {task.fromLinks[i]} :: 0 <= i && i < len(task.fromLinks) ==> (task.fromLinks[i]).id != k) ==> (k in inst.linkInsts) == old(k in inst.linkInsts) && inst.linkInsts[k] == old(inst.linkInsts[k])
  ensures [C16] "the removal of the task and of its incoming links is recorded" #rn == old(#rn) + 1 + len(task.fromLinks) && #rk[old(#rn)] == 9 && #rs[old(#rn)] == inst.subflowId && #rname[old(#rn)] == task.id && (forall i int {task.fromLinks[i]} :: 0 <= i && i < len(task.fromLinks) ==> #rk[old(#rn) + 1 + i] == 12 && #rs[old(#rn) + 1 + i] == inst.subflowId && #ri[old(#rn) + 1 + i] == (task.fromLinks[i]).id)
  modifies inst.taskInsts[*], inst.linkInsts[*], @TRACK
  loopinv #rn == old(#rn) + 1 + $i && #rk[old(#rn)] == 9 && #rs[old(#rn)] == inst.subflowId && #rname[old(#rn)] == task.id
  loopinv forall j int {task.fromLinks[j]} :: 0 <= j && j < $i ==> #rk[old(#rn) + 1 + j] == 12 && #rs[old(#rn) + 1 + j] == inst.subflowId && #ri[old(#rn) + 1 + j] == (task.fromLinks[j]).id
  loopinv forall j int {task.fromLinks[j]} :: 0 <= j && j < $i ==> !((task.fromLinks[j]).id in inst.linkInsts)
  loopinv forall k int {k in inst.linkInsts} :: (forall j int {task.fromLinks[j]} :: 0 <= j && j < len(task.fromLinks) ==> (task.fromLinks[j]).id != k) ==> (k in inst.linkInsts) == old(k in inst.linkInsts) && inst.linkInsts[k] == old(inst.linkInsts[k])
}

define released(inst, t) = len(t.fromLinks) > 0 && forall i int {t.fromLinks[i]} :: 0 <= i && i < len(t.fromLinks) ==> !((t.fromLinks[i]).id in inst.linkInsts)

func (*instance.Instance).isReleased(inst, task) -> (r) {
  ensures [C04,C03] "reached before, but no longer known" r == released(inst, task)
  modifies nothing
  loopinv forall j int {task.fromLinks[j]} :: 0 <= j && j < $i ==> !((task.fromLinks[j]).id in inst.linkInsts)
}

func (*instance.Instance).FindOrCreateTaskInst(inst, task) -> (ti, created) {
  ensures [C04,C08] "the task instance in the table" ti != nil && task.id in inst.taskInsts && inst.taskInsts[task.id] == ti
  ensures [C04,C08] "an existing one is returned unchanged" old(task.id in inst.taskInsts) ==> !created && ti == old(inst.taskInsts[task.id])
  ensures [C04,C08] "a new one is not started" !old(task.id in inst.taskInsts) ==> created && fresh(ti) && ti.status == 0 && !ti.scheduled && ti.task == task && ti.flowInst == inst && ti.taskID == task.id && ti.workingData == nil && ti.returnError == nil
  ensures [C04] "no other entry changes" forall k string {k in inst.taskInsts} :: k != task.id ==> (k in inst.taskInsts) == old(k in inst.taskInsts) && inst.taskInsts[k] == old(inst.taskInsts[k])
  ensures [C16] "a new task is recorded" (created ==> rec1(7) && #rv[old(#rn)] == box(ti) && #ri[old(#rn)] == 0) && (!created ==> norec())
  assumes "a task is given" task != nil
  assumes "the table holds task instances" forall k string {inst.taskInsts[k]} :: k in inst.taskInsts ==> inst.taskInsts[k] != nil
  modifies inst.taskInsts[*], @TRACK
}

// the verdict of the join rule (C01)
define undecided(inst, t) = exists i int {t.fromLinks[i]} :: 0 <= i && i < len(t.fromLinks) && lstat(inst, t.fromLinks[i]) < 1
define anyTaken(inst, t) = exists i int {t.fromLinks[i]} :: 0 <= i && i < len(t.fromLinks) && lstat(inst, t.fromLinks[i]) == 2
define ready(inst, t) = !undecided(inst, t) && (len(t.fromLinks) == 0 || anyTaken(inst, t))
define toSkip(inst, t) = len(t.fromLinks) > 0 && !undecided(inst, t) && !anyTaken(inst, t)
// the task was dealt with before
define handled(inst, t) = released(inst, t) || t.id in inst.taskInsts && ((inst.taskInsts[t.id]).scheduled || (inst.taskInsts[t.id]).status == model.TaskStatusSkipped)

modset ENTER = @MAPPING, @QUEUE, #queued, @TRACK, all map[string]*instance.TaskInst, all map[int]*instance.LinkInst, all instance.TaskInst.status, all instance.TaskInst.id, all instance.TaskInst.settings, all instance.TaskInst.scheduled, all instance.IndependentInstance.wiCounter

func (*instance.IndependentInstance).enterTask(inst, act, behavior, entry) -> (ti, skipped, err) {
  rlimit 60
  assumes "task instances are filed under the id of their task" forall k string {act.taskInsts[k]} :: k in act.taskInsts ==> act.taskInsts[k] != nil && (act.taskInsts[k]).flowInst == act && (act.taskInsts[k]).task.id == k
  assumes "a task instance in the table is that of the flow's task" entry.Task.id in act.taskInsts ==> (act.taskInsts[entry.Task.id]).task == entry.Task
  ensures [C04] "queued at most once" #qn <= old(#qn) + 1 && #qn >= old(#qn)
  ensures [C04,C03] "a task dealt with before is left alone" old(handled(act, entry.Task)) ==> #qn == old(#qn) && !skipped && err == nil
  ensures [C04] "a ready task is queued exactly once" !old(handled(act, entry.Task)) && old(ready(act, entry.Task)) && err == nil ==> ti != nil && #qn == old(#qn) + 1 && #qq == inst.workItemQueue && #qitem is *instance.WorkItem && (#qitem as *instance.WorkItem).taskInst == ti && !skipped && ti.status == model.TaskStatusReady && ti.task == entry.Task && ti.flowInst == act
  ensures [C04] "and never again" #qn > old(#qn) ==> ti != nil && ti.scheduled && entry.Task.id in act.taskInsts && act.taskInsts[entry.Task.id] == ti
  ensures [C04] "a task that is not ready is not queued" !old(handled(act, entry.Task)) && !old(ready(act, entry.Task)) ==> #qn == old(#qn) && err == nil && skipped == old(toSkip(act, entry.Task))
  ensures [C04] "a skipped task is handed back to be finalised" skipped ==> ti != nil && ti.status == model.TaskStatusSkipped && ti.task == entry.Task && ti.flowInst == act
  ensures [C04,C05] "a task that cannot be entered is handed back" err != nil ==> ti != nil && #qn == old(#qn) && !skipped && ti.task == entry.Task && ti.flowInst == act
  ensures [C04] "marked tasks stay marked" forall t *instance.TaskInst {t.scheduled} :: old(t.scheduled) ==> t.scheduled
  sets #entered[entry] := #entered[entry] + 1
  modifies @ENTER
  may_panic
}

// ---- calls made by the function under verification itself (not by the functions it calls)
ghost #done1 int
ghost #doneTI *instance.TaskInst
ghost #err1 int
ghost #errTI *instance.TaskInst
ghost #errE error
ghost #glob1 int
ghost #globInst *instance.Instance
ghost #globE error
// data of the flow when its error was handled
ghost #globDom [string] bool
ghost #globVals [string] any
ghost #ent1 int
ghost #entInst *instance.Instance
ghost #entES []*model.TaskEntry
// the flow knew no task when its tasks were entered
ghost #entEmpty bool
// status and data of the flow when its tasks were entered
ghost #entStatus model.FlowStatus
ghost #entDom [string] bool
ghost #entVals [string] any
// the latest answer to "is the flow done"
ghost #fdone bool
// the latest verdict of TaskBehavior.Error
ghost #handled bool
// A function restores what its own callees recorded, so that a caller sees only its own calls.
modset CALLS = #done1, #doneTI, #err1, #errTI, #errE, #glob1, #globInst, #globE, #globDom, #globVals, #ent1, #entInst, #entES, #entEmpty, #entStatus, #entDom, #entVals, #xrn, #xrk, #xrs, #xrv, #xai, #xdi, #fdone, #notify, #es, #verr, #handled

modset SCHED = @ENTER, @CALLS, #eobj, #eobjErr, #eobjTI, @COVER, @XEVAL, #perm, #pinv, #lres, #lerr, #entered, all []*support.TransitionCoverage, all []*support.ActivityCoverage, all instance.LinkInst.status, all map[string]any, all map[int]*instance.Instance,
   all instance.TaskInst.outputs, all instance.TaskInst.returnError, all instance.TaskInst.traceContext, all instance.Instance.status, all instance.Instance.isHandlingError, all instance.Instance.taskInsts, all instance.Instance.returnError

// entries created before keep their count
define othersEntered() = forall e *model.TaskEntry {#entered[e]} :: !fresh(e) ==> #entered[e] == old(#entered[e])

func instance.postFlowEvent(inst) {
  ensures [C21] "the event reports the status of the flow" flowPosted(inst)
  ensures [C14,C07] "listening to a flow does not change it" inst.returnData == old(inst.returnData) && inst.returnError == old(inst.returnError) && (forall k string {k in inst.attrs} {inst.attrs[k]} :: (k in inst.attrs) == old(k in inst.attrs) && inst.attrs[k] == old(inst.attrs[k]))
  modifies #pevn, #pevV, #pevT
}

func (*instance.Instance).SetStatus(inst, status) {
  ensures [C04,C05,C07,C08] "the flow has the given status" inst.status == status
  ensures [C21] "an event reports it" flowPosted(inst) && inst.status == status
  ensures [C16] "the status is recorded" rec1(1) && #ri == store(old(#ri), old(#rn), status) && #rs == store(old(#rs), old(#rn), inst.subflowId) && #rv == store(old(#rv), old(#rn), nil) && #rname == store(old(#rname), old(#rn), "") && #ai == old(#ai)
  modifies inst.status, @TRACK
}

func (*instance.IndependentInstance).addActivityToCoverage(inst, ti, err) {
  trusted
  modifies @COVER, @TRACK, all []*support.ActivityCoverage, ti.flowInst.linkInsts[*]
}


func (*instance.IndependentInstance).enterTasks(inst, act, es) -> (err) {
  requires "entries are given" forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != nil
  requires "each entry once" forall i int, j int {es[i], es[j]} :: 0 <= i && i < j && j < len(es) ==> es[i] != es[j]
  ensures [C04] "every entry is entered exactly once" forall i int {es[i]} :: 0 <= i && i < len(es) ==> #entered[es[i]] == old(#entered[es[i]]) + 1
  ensures [C04] "no other entry is" forall e *model.TaskEntry {#entered[e]} :: !fresh(e) && (forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != e) ==> #entered[e] == old(#entered[e])
  ensures [C04] "no error" err == nil
  sets #ent1 := old(#ent1) + 1
  sets #entInst := act
  sets #entES := es
  sets [C16] #xrn := old(#rn)
  sets [C16] #xrk := old(#rk)
  sets [C16] #xrs := old(#rs)
  sets [C16] #xrv := old(#rv)
  sets [C16] #xai := old(#ai)
  sets [C16] #xdi := old(#di)
  sets #notify := old(#notify)
  sets #es := old(#es)
  sets #verr := old(#verr)
  sets #fdone := old(#fdone)
  sets #handled := old(#handled)
  sets #done1 := old(#done1)
  sets #doneTI := old(#doneTI)
  sets #err1 := old(#err1)
  sets #errTI := old(#errTI)
  sets #errE := old(#errE)
  sets #glob1 := old(#glob1)
  sets #globInst := old(#globInst)
  sets #globE := old(#globE)
  sets #globDom := old(#globDom)
  sets #globVals := old(#globVals)
  sets #eobj := old(#eobj)
  sets #eobjErr := old(#eobjErr)
  sets #eobjTI := old(#eobjTI)
  sets #entStatus := old(act.status)
  sets #entDom := old(dom(act.attrs))
  sets #entVals := old(vals(act.attrs))
  sets #entEmpty := old(forall k string {k in act.taskInsts} :: !(k in act.taskInsts))
  modifies @SCHED
  may_panic
  loopinv forall i int {es[i]} :: 0 <= i && i < len(es) ==> #entered[es[i]] == old(#entered[es[i]]) + (if i < $i then 1 else 0)
  loopinv forall e *model.TaskEntry {#entered[e]} :: !fresh(e) && (forall i int {es[i]} :: 0 <= i && i < len(es) ==> es[i] != e) ==> #entered[e] == old(#entered[e])
}

func (*instance.IndependentInstance).propagateSkip(inst, es, act) -> (r) {
  trusted
  requires "no behaviour asks for skips to be propagated here" false
  modifies nothing
}

define hostOf(f) = f.host as *instance.TaskInst

func (*instance.IndependentInstance).handleTaskDone(inst, tb, ti) {
  rlimit 60
  ensures [C04,C08] "a failing link expression is handled as an error of the flow, once" #verr != nil ==> #glob1 == old(#glob1) + 1 && #globInst == ti.flowInst && #globE != nil
  ensures [C06] "with a link expression error as the error of the task and of the flow" #verr != nil ==> #globE is *definition.LinkExprError && #eobjErr == #globE && #eobjTI == ti && #globDom[errKey(ti)] && #globVals[errKey(ti)] == box(#eobj) && #globDom["_E"] && #globVals["_E"] == box(#eobj)
  ensures [C04] "otherwise the task is released" #verr == nil ==> !(ti.task.id in ti.flowInst.taskInsts)
  ensures [C04] "and so are its incoming links" #verr == nil ==> forall i int {ti.task.fromLinks[i]} :: 0 <= i && i < len(ti.task.fromLinks) ==> !((ti.task.fromLinks[i]).id in ti.flowInst.linkInsts)
  ensures [C04,C07] "the flow is asked whether it is done exactly when an end was reached" #verr == nil && #notify && #fdone ==> old(ti.flowInst.status) >= 500 || ti.flowInst.status == model.FlowStatusCompleted
  ensures [C04,C07] "an explicit return completes the flow" #verr == nil && ti.flowInst.forceCompletion && old(ti.flowInst.status) < 500 ==> ti.flowInst.status == model.FlowStatusCompleted && #ent1 == old(#ent1)
  ensures [C04] "no error handling without an error" #verr == nil ==> #glob1 == old(#glob1)
  ensures [C04] "successors are entered exactly once unless the flow is done" #verr == nil && !(#notify && #fdone) && !ti.flowInst.forceCompletion ==> #ent1 == old(#ent1) + 1 && #entInst == ti.flowInst && #entES == #es
  ensures [C08] "a completed subflow resumes its caller exactly once" #verr == nil && ((#notify && #fdone) || ti.flowInst.forceCompletion) && old(ti.flowInst.status) < 500 && ti.flowInst != inst.Instance && ti.flowInst.host is *instance.TaskInst ==> #qn == old(#qn) + 1 && #qitem is *instance.WorkItem && (#qitem as *instance.WorkItem).taskInst == hostOf(ti.flowInst)
  ensures [C08] "with the returned data as outputs and no error" #verr == nil && ((#notify && #fdone) || ti.flowInst.forceCompletion) && old(ti.flowInst.status) < 500 && ti.flowInst != inst.Instance && ti.flowInst.host is *instance.TaskInst ==> hostOf(ti.flowInst).returnError == nil && (ti.flowInst.returnData != nil ==> hostOf(ti.flowInst).outputs == ti.flowInst.returnData)
  ensures [C08] "and is no longer part of the running instance" #verr == nil && ((#notify && #fdone) || ti.flowInst.forceCompletion) && old(ti.flowInst.status) < 500 && ti.flowInst != inst.Instance ==> !(ti.flowInst.subflowId in inst.subflows)
  ensures [C04,C08] "a completed main flow queues nothing" #verr == nil && ((#notify && #fdone) || ti.flowInst.forceCompletion) && (ti.flowInst == inst.Instance || old(ti.flowInst.status) >= 500) ==> #qn == old(#qn) && #ent1 == old(#ent1)
  ensures [C04] "existing entries are not entered again" othersEntered()
  ensures [C03] "a skipped task is finalised as skipped" old(ti.status) == model.TaskStatusSkipped ==> #verr == nil
  assumes "a task instance has a flow" ti.flowInst != nil
  sets #done1 := old(#done1) + 1
  sets #doneTI := ti
  sets #err1 := old(#err1)
  sets #errTI := old(#errTI)
  sets #errE := old(#errE)
  modifies @SCHED
  may_panic
}

func (*instance.IndependentInstance).HandleGlobalError(inst, f, err) {
  ensures [C05] "the flow is handling an error" f.isHandlingError || #ent1 > old(#ent1)
  ensures [C05] "the error handler is started once, if the flow is not in it already" !old(f.isHandlingError) && f.flowDef.errorHandler != nil ==> #ent1 == old(#ent1) + 1 && #entInst == f && entersLeadingAt(#entES, f.flowDef.errorHandler.tasks)
  ensures [C05] "the pending tasks of that flow are no longer awaited" !old(f.isHandlingError) && f.flowDef.errorHandler != nil ==> #entEmpty
  ensures [C06] "the error handler sees what was recorded before" !old(f.isHandlingError) && f.flowDef.errorHandler != nil ==> forall k string {#entVals[k]} :: #entDom[k] == old(k in f.attrs) && (#entDom[k] ==> #entVals[k] == old(f.attrs[k]))
  ensures [C16] "the removal of the pending tasks is recorded" !old(f.isHandlingError) && f.flowDef.errorHandler != nil ==> forall k string {#xdi[k]} {old(k in f.taskInsts)} :: old(k in f.taskInsts) ==> old(#rn) <= #xdi[k] && #xdi[k] < #xrn && #xrk[#xdi[k]] == 9 && #xrs[#xdi[k]] == f.subflowId
  ensures [C05] "without error handler, or in it, the flow fails" old(f.isHandlingError) || f.flowDef.errorHandler == nil ==> f.status == model.FlowStatusFailed && #ent1 == old(#ent1)
  ensures [C05] "a failed main flow reports that error" (old(f.isHandlingError) || f.flowDef.errorHandler == nil) && f == inst.Instance ==> inst.Instance.returnError == err && #qn == old(#qn)
  ensures [C05,C08] "a failed subflow hands the error to its caller exactly once" (old(f.isHandlingError) || f.flowDef.errorHandler == nil) && f != inst.Instance && f.host is *instance.TaskInst ==> (hostOf(f)).returnError == err && #qn == old(#qn) + 1 && #qitem is *instance.WorkItem && (#qitem as *instance.WorkItem).taskInst == hostOf(f)
  ensures [C04] "existing entries are not entered again" othersEntered()
  sets #glob1 := old(#glob1) + 1
  sets #globInst := f
  sets #globE := err
  sets #globDom := old(dom(f.attrs))
  sets #globVals := old(vals(f.attrs))
  sets #eobj := old(#eobj)
  sets #eobjErr := old(#eobjErr)
  sets #eobjTI := old(#eobjTI)
  sets #notify := old(#notify)
  sets #es := old(#es)
  sets #verr := old(#verr)
  sets #fdone := old(#fdone)
  sets #handled := old(#handled)
  sets #done1 := old(#done1)
  sets #doneTI := old(#doneTI)
  sets #err1 := old(#err1)
  sets #errTI := old(#errTI)
  sets #errE := old(#errE)
  modifies @SCHED
  may_panic
  loopinv over map[string]*instance.TaskInst #rn >= old(#rn) && forall k string {#di[k]} {k in f.taskInsts} :: k in $vis && k in f.taskInsts ==> old(#rn) <= #di[k] && #di[k] < #rn && #rk[#di[k]] == 9 && #rs[#di[k]] == f.subflowId
}
define entersLeadingAt(es, m) = (forall i int {es[i]} :: 0 <= i && i < len(es) ==> (exists k string {m[k]} :: k in m && (es[i]).Task == m[k] && leads(m[k]))) && (forall k string {k in m} {m[k]} :: k in m && leads(m[k]) ==> exists i int {es[i]} :: 0 <= i && i < len(es) && (es[i]).Task == m[k])

func (*instance.IndependentInstance).handleTaskError(inst, tb, ti, err) {
  rlimit 60
  ensures [C05] "error links: the flow goes on along them, once" #handled ==> #glob1 == old(#glob1) && (len(#es) > 0 ==> #ent1 == old(#ent1) + 1 && #entInst == ti.flowInst && #entES == #es)
  ensures [C05,C04] "and the task is released" #handled ==> !(ti.task.id in ti.flowInst.taskInsts)
  ensures [C05] "no error links and not handling an error: the error handler or failure, once, with this error" !#handled && !old(ti.flowInst.isHandlingError) ==> #glob1 == old(#glob1) + 1 && #globInst == ti.flowInst && #globE == err
  ensures [C05] "an error within the error handler fails the flow" !#handled && old(ti.flowInst.isHandlingError) ==> ti.flowInst.status == model.FlowStatusFailed && #glob1 == old(#glob1) && #ent1 == old(#ent1)
  ensures [C05] "and is the reported result" !#handled && old(ti.flowInst.isHandlingError) && ti.flowInst == inst.Instance ==> inst.Instance.returnError == err && #qn == old(#qn)
  ensures [C05,C08] "or is handed to the caller exactly once" !#handled && old(ti.flowInst.isHandlingError) && ti.flowInst != inst.Instance && ti.flowInst.host is *instance.TaskInst ==> (hostOf(ti.flowInst)).returnError == err && #qn == old(#qn) + 1 && #qitem is *instance.WorkItem && (#qitem as *instance.WorkItem).taskInst == hostOf(ti.flowInst)
  ensures [C06] "the error branch finds the error of the task" #handled && len(#es) > 0 ==> #entDom[errKey(ti)] && #entVals[errKey(ti)] == box(#eobj) && #eobjErr == err && #eobjTI == ti
  ensures [C06] "and the error of the flow is not replaced" #handled && len(#es) > 0 ==> #entDom["_E"] == old("_E" in ti.flowInst.attrs) && (#entDom["_E"] ==> #entVals["_E"] == old(ti.flowInst.attrs["_E"]))
  ensures [C06] "the error handler finds the error of the task and of the flow" !#handled && !old(ti.flowInst.isHandlingError) ==> #globDom[errKey(ti)] && #globVals[errKey(ti)] == box(#eobj) && #globDom["_E"] && #globVals["_E"] == box(#eobj) && #eobjErr == err && #eobjTI == ti
  ensures [C04] "existing entries are not entered again" othersEntered()
  sets #err1 := old(#err1) + 1
  sets #errTI := ti
  sets #errE := err
  sets #done1 := old(#done1)
  sets #doneTI := old(#doneTI)
  modifies @SCHED
  may_panic
}

// ---- one step
// task instances run
ghost #exec1 int
ghost #execTI *instance.TaskInst
// number of panics caught by execTask
ghost #unh int
func instance.NewActivityEvalError(taskName, errorType, errorText) -> (e) {
  ensures [C04,C05,C06] "the given details" e != nil && fresh(e) && e.taskName == taskName && e.errType == errorType && e.errText == errorText
  sets #unh := #unh + 1 when errorType == "unhandled"
  modifies nothing
}

define calm() = #unh == old(#unh)
define over(ti) = ti.flowInst.status >= 500
define dead(ti) = over(ti) || ti.status == model.TaskStatusSkipped || ti.status == model.TaskStatusDone

func (*instance.IndependentInstance).execTask(inst, tb, ti) {
  rlimit 60
  requires "a task instance with a flow" ti != nil && ti.flowInst != nil
  assumes "the bookkeeping of the behaviours is theirs" retryWF(ti) && (tb is *simple.IteratorTaskBehavior ==> (hasIt(ti) ==> itOK(ti)) && (ti.status == model.TaskStatusWaiting ==> hasIt(ti))) && (tb is *simple.DoWhileTaskBehavior ==> dwOK(ti))
  ensures [C04,C07] "nothing is done for a flow that is over or a task that is finished or skipped" old(dead(ti)) && !(old(ti.status) == model.TaskStatusWaiting && !old(over(ti))) ==> #bev == old(#bev) && #bpost == old(#bpost) && #done1 == old(#done1) && #err1 == old(#err1) && #glob1 == old(#glob1) && #qn == old(#qn) && #ent1 == old(#ent1)
  ensures [C04] "a waiting task is resumed, not evaluated" calm() && !old(over(ti)) && old(ti.status) == model.TaskStatusWaiting ==> #bpost == old(#bpost) + 1 && #bev == old(#bev) && #bti == ti
  ensures [C04] "any other task is evaluated" calm() && !old(dead(ti)) && old(ti.status) != model.TaskStatusWaiting ==> #bev == old(#bev) + 1 && #bpost == old(#bpost) && #bti == ti
  ensures [C04,C05] "a failing task is handed to error handling once" calm() && !old(dead(ti)) && #berr != nil ==> #err1 == old(#err1) + 1 && #errTI == ti && #errE == #berr && #done1 == old(#done1)
  ensures [C04] "a finished task is finalised once" calm() && !old(dead(ti)) && #berr == nil && (#bres == model.EvalDone || #bres == model.EvalSkip) ==> #done1 == old(#done1) + 1 && #doneTI == ti && #err1 == old(#err1)
  ensures [C04] "a waiting task is marked waiting and not queued" calm() && !old(dead(ti)) && #berr == nil && #bres == model.EvalWait ==> ti.status == model.TaskStatusWaiting && #queued[ti] == old(#queued[ti]) && #done1 == old(#done1) && #err1 == old(#err1)
  ensures [C04] "a repeating task is queued again once" calm() && !old(dead(ti)) && #berr == nil && #bres == model.EvalRepeat ==> #queued[ti] == old(#queued[ti]) + 1 && #qitem is *instance.WorkItem && (#qitem as *instance.WorkItem).taskInst == ti && #done1 == old(#done1) && #err1 == old(#err1)
  ensures [C05] "a panic is handled as an error of the flow of the task" !calm() ==> #globInst == ti.flowInst && #globE != nil
  ensures [C06] "with an evaluation error as the error of the task and of the flow" !calm() ==> #eobjErr is *instance.ActivityEvalError && (#eobjErr as *instance.ActivityEvalError).errType == "unhandled" && #eobjTI == ti && #globDom[errKey(ti)] && #globVals[errKey(ti)] == box(#eobj) && #globDom["_E"] && #globVals["_E"] == box(#eobj)
  sets #exec1 := old(#exec1) + 1
  sets #execTI := ti
  sets [C16] #xrn := old(#rn)
  sets [C16] #xrk := old(#rk)
  sets [C16] #xrs := old(#rs)
  sets [C16] #xrv := old(#rv)
  sets [C16] #xai := old(#ai)
  sets [C16] #xdi := old(#di)
  sets #popn := old(#popn)
  sets #popitem := old(#popitem)
  sets #popok := old(#popok)
  may_panic
  modifies @SCHED, @ITER, #pn, #perr, #bev, #bpost, #bti, #bres, #berr, #unh, all simple.DoWhile.Index, ti.counter
}

func (*instance.IndependentInstance).DoStep(inst) -> (next) {
  ensures [C04,C07] "nothing is run unless the flow is active" old(inst.status) != model.FlowStatusActive ==> !next && #popn == old(#popn) && #exec1 == old(#exec1)
  ensures [C04] "exactly one item is taken from the queue" old(inst.status) == model.FlowStatusActive ==> #popn == old(#popn) + 1 && next == #popok
  ensures [C04] "and its task is run once" next ==> #exec1 == old(#exec1) + 1 && #execTI == (#popitem as *instance.WorkItem).taskInst
  ensures [C04] "an empty queue runs nothing" !next ==> #exec1 == old(#exec1)
  ensures [C16] "the item taken is recorded before its task is run" next ==> #xrn == old(#rn) + 1 && #xrk == store(old(#rk), old(#rn), 6) && #xrv[old(#rn)] == box(#popitem as *instance.WorkItem)
  ensures [C16] "the step number grows by one" inst.stepID == old(inst.stepID) + 1
  sets #dsn := old(#dsn) + 1
  may_panic
  modifies @SCHED, @ITER, #pn, #perr, #bev, #bpost, #bti, #bres, #berr, #unh, #exec1, #execTI, #popn, #popitem, #popok, all simple.DoWhile.Index, all instance.TaskInst.counter, inst.stepID, inst.changeTracker
}
