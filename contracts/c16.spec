// C16: recorded steps.

import deepcopy "github.com/mohae/deepcopy"
// copies made: the latest one and their number
ghost #cpn int
ghost #cpSrc any
ghost #cpDst any
extern deepcopy.Copy(v) -> (r) {
  ensures v == nil ==> r == nil
  ensures v is map[string]any ==> r is map[string]any && allocated(r as map[string]any) && ((v as map[string]any) != nil ==> fresh(r as map[string]any))
  sets #cpn := #cpn + 1
  sets #cpSrc := v
  sets #cpDst := r
}

define fcs(s) = s.currentStep.FlowChanges
define qcs(s) = s.currentStep.QueueChanges
// what the recorder guarantees about its current step between calls
define recWF(s) = s.currentStep != nil && fcs(s) != nil
  && (forall k int {fcs(s)[k]} :: k in fcs(s) ==> fcs(s)[k] != nil && fcs(s)[k].SubflowId == k)
  && (forall k int, t string {fcs(s)[k].Tasks[t]} :: k in fcs(s) && t in fcs(s)[k].Tasks ==> fcs(s)[k].Tasks[t] != nil)
  && (forall k int, l int {fcs(s)[k].Links[l]} :: k in fcs(s) && l in fcs(s)[k].Links ==> fcs(s)[k].Links[l] != nil)
  && (forall q int {qcs(s)[q]} :: q in qcs(s) ==> qcs(s)[q] != nil)
  && (forall q int, p int {qcs(s)[q], qcs(s)[p]} :: q in qcs(s) && p in qcs(s) && q != p ==> qcs(s)[q] != qcs(s)[p])
// the records of different flows, tasks and links are different
define recApart(s) = (forall k int, j int {fcs(s)[k].Tasks, fcs(s)[j].Tasks} :: k in fcs(s) && j in fcs(s) && k != j && fcs(s)[k].Tasks != nil ==> fcs(s)[k].Tasks != fcs(s)[j].Tasks)
  && (forall k int, j int {fcs(s)[k].Links, fcs(s)[j].Links} :: k in fcs(s) && j in fcs(s) && k != j && fcs(s)[k].Links != nil ==> fcs(s)[k].Links != fcs(s)[j].Links)
  && (forall k int, j int {fcs(s)[k].Attrs, fcs(s)[j].Attrs} :: k in fcs(s) && j in fcs(s) && k != j && fcs(s)[k].Attrs != nil ==> fcs(s)[k].Attrs != fcs(s)[j].Attrs)
  && (forall k int, t string, j int, u string {fcs(s)[k].Tasks[t], fcs(s)[j].Tasks[u]} :: k in fcs(s) && t in fcs(s)[k].Tasks && j in fcs(s) && u in fcs(s)[j].Tasks && (k != j || t != u) ==> fcs(s)[k].Tasks[t] != fcs(s)[j].Tasks[u])
  && (forall k int, t int, j int, u int {fcs(s)[k].Links[t], fcs(s)[j].Links[u]} :: k in fcs(s) && t in fcs(s)[k].Links && j in fcs(s) && u in fcs(s)[j].Links && (k != j || t != u) ==> fcs(s)[k].Links[t] != fcs(s)[j].Links[u])

// the other flows keep their records
define otherFlows(s, k) = (forall j int {fcs(s)[j]} {j in fcs(s)} :: j != k ==> (j in fcs(s)) == old(j in fcs(s)) && fcs(s)[j] == old(fcs(s)[j]))
// the record of flow k is the one it had, or a new one
define flowRec(s, k) = k in fcs(s) && (old(k in fcs(s)) ==> fcs(s)[k] == old(fcs(s)[k])) && (!old(k in fcs(s)) ==> fresh(fcs(s)[k]) && !(fcs(s)[k]).NewFlow)
define newStatus(s, k) = !old(k in fcs(s)) ==> fcs(s)[k].Status == 0
define newAttrs(s, k) = !old(k in fcs(s)) ==> forall a string {a in fcs(s)[k].Attrs} :: !(a in fcs(s)[k].Attrs)
define newTasks(s, k) = !old(k in fcs(s)) ==> forall a string {a in fcs(s)[k].Tasks} :: !(a in fcs(s)[k].Tasks)
define newLinks(s, k) = !old(k in fcs(s)) ==> forall a int {a in fcs(s)[k].Links} :: !(a in fcs(s)[k].Links)
define otherTasks(s, k, t) = forall u string {fcs(s)[k].Tasks[u]} {u in fcs(s)[k].Tasks} :: u != t ==> (u in fcs(s)[k].Tasks) == (old(k in fcs(s)) && old(u in fcs(s)[k].Tasks)) && (old(k in fcs(s)) && old(u in fcs(s)[k].Tasks) ==> fcs(s)[k].Tasks[u] == old(fcs(s)[k].Tasks[u]))
define otherLinks(s, k, t) = forall u int {fcs(s)[k].Links[u]} {u in fcs(s)[k].Links} :: u != t ==> (u in fcs(s)[k].Links) == (old(k in fcs(s)) && old(u in fcs(s)[k].Links)) && (old(k in fcs(s)) && old(u in fcs(s)[k].Links) ==> fcs(s)[k].Links[u] == old(fcs(s)[k].Links[u]))
define otherItems(s, q) = forall p int {qcs(s)[p]} {p in qcs(s)} :: p != q ==> (p in qcs(s)) == old(p in qcs(s)) && qcs(s)[p] == old(qcs(s)[p])
define hadTask(s, k, t) = old(k in fcs(s)) && old(t in fcs(s)[k].Tasks)
define hadLink(s, k, t) = old(k in fcs(s)) && old(t in fcs(s)[k].Links)

func (*instance.SimpleChangeTracker).SetStatus(s, sub, st) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "the status is recorded for that flow" flowRec(s, sub) && fcs(s)[sub].Status == st
  ensures [C16] "and nothing else" otherFlows(s, sub) && newAttrs(s, sub) && newTasks(s, sub) && newLinks(s, sub)
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  modifies fcs(s)[*], fcs(s)[sub].Status
}

func (*instance.SimpleChangeTracker).AttrChange(s, sub, name, v) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "a copy of the value is recorded for that flow" flowRec(s, sub) && name in fcs(s)[sub].Attrs && #cpn == old(#cpn) + 1 && #cpSrc == v && fcs(s)[sub].Attrs[name] == #cpDst
  ensures [C16] "and nothing else" otherFlows(s, sub) && newStatus(s, sub) && newTasks(s, sub) && newLinks(s, sub)
  ensures [C16] "the other attributes are kept" forall a string {fcs(s)[sub].Attrs[a]} {a in fcs(s)[sub].Attrs} :: a != name ==> (a in fcs(s)[sub].Attrs) == (old(sub in fcs(s)) && old(a in fcs(s)[sub].Attrs)) && (old(sub in fcs(s)) && old(a in fcs(s)[sub].Attrs) ==> fcs(s)[sub].Attrs[a] == old(fcs(s)[sub].Attrs[a]))
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  modifies fcs(s)[*], fcs(s)[sub].Attrs, fcs(s)[sub].Attrs[*], #cpn, #cpSrc, #cpDst
}

func (*instance.SimpleChangeTracker).FlowCreated(s, f) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "the new flow is recorded" 0 in fcs(s) && fresh(fcs(s)[0]) && fcs(s)[0].NewFlow && fcs(s)[0].FlowURI == f.flowURI && fcs(s)[0].Status == f.status
  ensures [C16] "and nothing else" otherFlows(s, 0) && (forall a string {a in fcs(s)[0].Attrs} :: !(a in fcs(s)[0].Attrs)) && (forall a string {a in fcs(s)[0].Tasks} :: !(a in fcs(s)[0].Tasks)) && (forall a int {a in fcs(s)[0].Links} :: !(a in fcs(s)[0].Links))
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  modifies fcs(s)[*]
}

func (*instance.SimpleChangeTracker).SubflowCreated(s, f) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  assumes "a subflow is called by a task" f.host is *instance.TaskInst
  ensures [C16] "the new subflow is recorded" f.subflowId in fcs(s) && fresh(fcs(s)[f.subflowId]) && fcs(s)[f.subflowId].NewFlow && fcs(s)[f.subflowId].FlowURI == f.flowURI && fcs(s)[f.subflowId].Status == f.status && fcs(s)[f.subflowId].TaskId == (f.host as *instance.TaskInst).taskID
  ensures [C16] "and nothing else" otherFlows(s, f.subflowId) && (let k := f.subflowId :: (forall a string {a in fcs(s)[k].Attrs} :: !(a in fcs(s)[k].Attrs)) && (forall a string {a in fcs(s)[k].Tasks} :: !(a in fcs(s)[k].Tasks)) && (forall a int {a in fcs(s)[k].Links} :: !(a in fcs(s)[k].Links)))
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  modifies fcs(s)[*]
}

func (*instance.SimpleChangeTracker).WorkItemAdded(s, wi) {
  assumes "the recorder's own data" recWF(s)
  ensures [C16] "the added item is recorded" wi.ID in qcs(s) && qcs(s)[wi.ID].ChgType == 0 && qcs(s)[wi.ID].TaskId == wi.TaskID && qcs(s)[wi.ID].SubflowId == wi.SubFlowID
  ensures [C16] "in a record of its own" if old(wi.ID in qcs(s)) then qcs(s)[wi.ID] == old(qcs(s)[wi.ID]) else fresh(qcs(s)[wi.ID])
  ensures [C16] "and nothing else" otherItems(s, wi.ID)
  ensures [C16] "data of the recorder" recWF(s)
  modifies s.currentStep.QueueChanges, qcs(s)[*], qcs(s)[wi.ID].ChgType, qcs(s)[wi.ID].SubflowId, qcs(s)[wi.ID].TaskId
}

func (*instance.SimpleChangeTracker).WorkItemRemoved(s, wi) {
  assumes "the recorder's own data" recWF(s)
  ensures [C16] "the item taken is recorded" wi.ID in qcs(s) && qcs(s)[wi.ID].ChgType == 2 && qcs(s)[wi.ID].TaskId == wi.TaskID && qcs(s)[wi.ID].SubflowId == wi.SubFlowID
  ensures [C16] "in a record of its own" if old(wi.ID in qcs(s)) then qcs(s)[wi.ID] == old(qcs(s)[wi.ID]) else fresh(qcs(s)[wi.ID])
  ensures [C16] "and nothing else" otherItems(s, wi.ID)
  ensures [C16] "data of the recorder" recWF(s)
  modifies s.currentStep.QueueChanges, qcs(s)[*], qcs(s)[wi.ID].ChgType, qcs(s)[wi.ID].SubflowId, qcs(s)[wi.ID].TaskId
}

func (*instance.SimpleChangeTracker).TaskAdded(s, ti) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "the change is recorded for that flow" flowRec(s, ti.flowInst.subflowId) && ti.taskID in fcs(s)[ti.flowInst.subflowId].Tasks && fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].ChgType == 0 && fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].Status == ti.status
  ensures [C16] "in a record of its own" if hadTask(s, ti.flowInst.subflowId, ti.taskID) then fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID] == old(fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID]) else fresh(fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID])
  ensures [C16] "and nothing else" otherFlows(s, ti.flowInst.subflowId) && otherTasks(s, ti.flowInst.subflowId, ti.taskID) && newStatus(s, ti.flowInst.subflowId) && newAttrs(s, ti.flowInst.subflowId) && newLinks(s, ti.flowInst.subflowId)
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  modifies fcs(s)[*], fcs(s)[ti.flowInst.subflowId].Tasks, fcs(s)[ti.flowInst.subflowId].TaskId, fcs(s)[ti.flowInst.subflowId].FlowURI, fcs(s)[ti.flowInst.subflowId].Tasks[*], fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].ChgType, fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].Status, fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].Input, #cpn, #cpSrc, #cpDst
}

func (*instance.SimpleChangeTracker).TaskUpdated(s, ti) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "the change is recorded for that flow" flowRec(s, ti.flowInst.subflowId) && ti.taskID in fcs(s)[ti.flowInst.subflowId].Tasks && fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].ChgType == 1 && fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].Status == ti.status
  ensures [C16] "in a record of its own" if hadTask(s, ti.flowInst.subflowId, ti.taskID) then fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID] == old(fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID]) else fresh(fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID])
  ensures [C16] "and nothing else" otherFlows(s, ti.flowInst.subflowId) && otherTasks(s, ti.flowInst.subflowId, ti.taskID) && newStatus(s, ti.flowInst.subflowId) && newAttrs(s, ti.flowInst.subflowId) && newLinks(s, ti.flowInst.subflowId)
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  ensures [C16] "with a copy of the inputs for the debugger" s.mode == "debugger" ==> #cpn == old(#cpn) + 1 && #cpSrc == box(ti.inputs)
  ensures [C16] "and only for the debugger" s.mode != "debugger" ==> #cpn == old(#cpn) && fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].Input == (if hadTask(s, ti.flowInst.subflowId, ti.taskID) then old(fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].Input) else nil)
  modifies fcs(s)[*], fcs(s)[ti.flowInst.subflowId].Tasks, fcs(s)[ti.flowInst.subflowId].TaskId, fcs(s)[ti.flowInst.subflowId].FlowURI, fcs(s)[ti.flowInst.subflowId].Tasks[*], fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].ChgType, fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].Status, fcs(s)[ti.flowInst.subflowId].Tasks[ti.taskID].Input, #cpn, #cpSrc, #cpDst
}

func (*instance.SimpleChangeTracker).TaskRemoved(s, sub, id) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "the change is recorded for that flow" flowRec(s, sub) && id in fcs(s)[sub].Tasks && fcs(s)[sub].Tasks[id].ChgType == 2 && (hadTask(s, sub, id) ==> fcs(s)[sub].Tasks[id].Status == old(fcs(s)[sub].Tasks[id].Status)) && (!hadTask(s, sub, id) ==> fcs(s)[sub].Tasks[id].Status == 0)
  ensures [C16] "in a record of its own" if hadTask(s, sub, id) then fcs(s)[sub].Tasks[id] == old(fcs(s)[sub].Tasks[id]) else fresh(fcs(s)[sub].Tasks[id])
  ensures [C16] "and nothing else" otherFlows(s, sub) && otherTasks(s, sub, id) && newStatus(s, sub) && newAttrs(s, sub) && newLinks(s, sub)
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  modifies fcs(s)[*], fcs(s)[sub].Tasks, fcs(s)[sub].TaskId, fcs(s)[sub].FlowURI, fcs(s)[sub].Tasks[*], fcs(s)[sub].Tasks[id].ChgType, fcs(s)[sub].Tasks[id].Status, fcs(s)[sub].Tasks[id].Input, #cpn, #cpSrc, #cpDst
}

func (*instance.SimpleChangeTracker).LinkAdded(s, li) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "the change is recorded for that flow" flowRec(s, li.flowInst.subflowId) && li.id in fcs(s)[li.flowInst.subflowId].Links && fcs(s)[li.flowInst.subflowId].Links[li.id].ChgType == 0 && fcs(s)[li.flowInst.subflowId].Links[li.id].Status == li.status
  ensures [C16] "in a record of its own" if hadLink(s, li.flowInst.subflowId, li.id) then fcs(s)[li.flowInst.subflowId].Links[li.id] == old(fcs(s)[li.flowInst.subflowId].Links[li.id]) else fresh(fcs(s)[li.flowInst.subflowId].Links[li.id])
  ensures [C16] "and nothing else" otherFlows(s, li.flowInst.subflowId) && otherLinks(s, li.flowInst.subflowId, li.id) && newStatus(s, li.flowInst.subflowId) && newAttrs(s, li.flowInst.subflowId) && newTasks(s, li.flowInst.subflowId)
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  ensures [C16] "with the tasks it connects for the debugger" s.mode == "debugger" ==> fcs(s)[li.flowInst.subflowId].Links[li.id].From == li.link.fromTask.id && fcs(s)[li.flowInst.subflowId].Links[li.id].To == li.link.toTask.id
  modifies fcs(s)[*], fcs(s)[li.flowInst.subflowId].Links, fcs(s)[li.flowInst.subflowId].TaskId, fcs(s)[li.flowInst.subflowId].FlowURI, fcs(s)[li.flowInst.subflowId].Links[*], fcs(s)[li.flowInst.subflowId].Links[li.id].ChgType, fcs(s)[li.flowInst.subflowId].Links[li.id].Status, fcs(s)[li.flowInst.subflowId].Links[li.id].From, fcs(s)[li.flowInst.subflowId].Links[li.id].To, #cpn, #cpSrc, #cpDst
}

func (*instance.SimpleChangeTracker).LinkUpdated(s, li) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "the change is recorded for that flow" flowRec(s, li.flowInst.subflowId) && li.id in fcs(s)[li.flowInst.subflowId].Links && fcs(s)[li.flowInst.subflowId].Links[li.id].ChgType == 1 && fcs(s)[li.flowInst.subflowId].Links[li.id].Status == li.status
  ensures [C16] "in a record of its own" if hadLink(s, li.flowInst.subflowId, li.id) then fcs(s)[li.flowInst.subflowId].Links[li.id] == old(fcs(s)[li.flowInst.subflowId].Links[li.id]) else fresh(fcs(s)[li.flowInst.subflowId].Links[li.id])
  ensures [C16] "and nothing else" otherFlows(s, li.flowInst.subflowId) && otherLinks(s, li.flowInst.subflowId, li.id) && newStatus(s, li.flowInst.subflowId) && newAttrs(s, li.flowInst.subflowId) && newTasks(s, li.flowInst.subflowId)
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  ensures [C16] "with the tasks it connects for the debugger" s.mode == "debugger" ==> fcs(s)[li.flowInst.subflowId].Links[li.id].From == li.link.fromTask.id && fcs(s)[li.flowInst.subflowId].Links[li.id].To == li.link.toTask.id
  modifies fcs(s)[*], fcs(s)[li.flowInst.subflowId].Links, fcs(s)[li.flowInst.subflowId].TaskId, fcs(s)[li.flowInst.subflowId].FlowURI, fcs(s)[li.flowInst.subflowId].Links[*], fcs(s)[li.flowInst.subflowId].Links[li.id].ChgType, fcs(s)[li.flowInst.subflowId].Links[li.id].Status, fcs(s)[li.flowInst.subflowId].Links[li.id].From, fcs(s)[li.flowInst.subflowId].Links[li.id].To, #cpn, #cpSrc, #cpDst
}

func (*instance.SimpleChangeTracker).LinkRemoved(s, sub, id) {
  assumes "the recorder's own data" recWF(s)
  assumes "the recorder's records are its own" recApart(s)
  ensures [C16] "the change is recorded for that flow" flowRec(s, sub) && id in fcs(s)[sub].Links && fcs(s)[sub].Links[id].ChgType == 2 && (hadLink(s, sub, id) ==> fcs(s)[sub].Links[id].Status == old(fcs(s)[sub].Links[id].Status)) && (!hadLink(s, sub, id) ==> fcs(s)[sub].Links[id].Status == 0)
  ensures [C16] "in a record of its own" if hadLink(s, sub, id) then fcs(s)[sub].Links[id] == old(fcs(s)[sub].Links[id]) else fresh(fcs(s)[sub].Links[id])
  ensures [C16] "and nothing else" otherFlows(s, sub) && otherLinks(s, sub, id) && newStatus(s, sub) && newAttrs(s, sub) && newTasks(s, sub)
  ensures [C16] "data of the recorder" recWF(s) && recApart(s)
  modifies fcs(s)[*], fcs(s)[sub].Links, fcs(s)[sub].TaskId, fcs(s)[sub].FlowURI, fcs(s)[sub].Links[*], fcs(s)[sub].Links[id].ChgType, fcs(s)[sub].Links[id].Status, fcs(s)[sub].Links[id].From, fcs(s)[sub].Links[id].To, #cpn, #cpSrc, #cpDst
}

func (*instance.SimpleChangeTracker).ExtractStep(s, reset) -> (r) {
  ensures [C16] "the step recorded so far" r == old(s.currentStep)
  ensures [C16] "the next step starts empty, with the next number" reset ==> s.currentStep != nil && fresh(s.currentStep) && s.stepCtr == old(s.stepCtr) + 1 && s.currentStep.Id == s.stepCtr && s.currentStep.FlowId == s.flowId && fcs(s) != nil && fresh(fcs(s)) && (forall k int {k in fcs(s)} :: !(k in fcs(s))) && (forall k int {k in qcs(s)} :: !(k in qcs(s))) && (qcs(s) != nil ==> fresh(qcs(s)))
  ensures [C16] "data of the recorder" reset ==> recWF(s) && recApart(s)
  ensures [C21] "nothing is handed to the recorder" #recSnaps == old(#recSnaps) && #recSteps == old(#recSteps)
  ensures [C16] "looking does not change it" !reset ==> s.currentStep == old(s.currentStep) && s.stepCtr == old(s.stepCtr)
  modifies s.currentStep, s.stepCtr
}

func instance.NewInstanceChangeTracker(id, start) -> (r) {
  ensures [C16] "changes are recorded exactly when switched on" r != nil && (r is *instance.SimpleChangeTracker) == instance.chgTrackingEnabled
  ensures [C16] "starting empty, with the given number" instance.chgTrackingEnabled ==> (let s := r as *instance.SimpleChangeTracker :: s != nil && fresh(s) && s.flowId == id && s.mode == instance.stateMode && s.stepCtr == start && s.currentStep.Id == start && s.currentStep.FlowId == id && recWF(s) && recApart(s) && (forall k int {k in fcs(s)} :: !(k in fcs(s))) && (forall k int {k in qcs(s)} :: !(k in qcs(s))))
  modifies nothing
}


// recording touches nothing but records
impl (*instance.SimpleChangeTracker).SetStatus of (instance.ChangeTracker).SetStatus { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).AttrChange of (instance.ChangeTracker).AttrChange { tags [C16] modifies fcs(ct as *instance.SimpleChangeTracker)[sub].Attrs[*] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) modifies #cpn, #cpSrc, #cpDst }
impl (*instance.SimpleChangeTracker).FlowCreated of (instance.ChangeTracker).FlowCreated { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).SubflowCreated of (instance.ChangeTracker).SubflowCreated { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) assumes "a subflow is called by a task" f.host is *instance.TaskInst }
impl (*instance.SimpleChangeTracker).WorkItemAdded of (instance.ChangeTracker).WorkItemAdded { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).WorkItemRemoved of (instance.ChangeTracker).WorkItemRemoved { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).TaskAdded of (instance.ChangeTracker).TaskAdded { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).TaskUpdated of (instance.ChangeTracker).TaskUpdated { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) modifies #cpn, #cpSrc, #cpDst }
impl (*instance.SimpleChangeTracker).TaskRemoved of (instance.ChangeTracker).TaskRemoved { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).LinkAdded of (instance.ChangeTracker).LinkAdded { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).LinkUpdated of (instance.ChangeTracker).LinkUpdated { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).LinkRemoved of (instance.ChangeTracker).LinkRemoved { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) }
impl (*instance.SimpleChangeTracker).FlowDone of (instance.ChangeTracker).FlowDone { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) modifies #cpn, #cpSrc, #cpDst }
impl (*instance.SimpleChangeTracker).SubflowDone of (instance.ChangeTracker).SubflowDone { tags [C16] assumes "the recorder's own data" recWF(ct as *instance.SimpleChangeTracker) modifies #cpn, #cpSrc, #cpDst }
impl (*instance.NoopChangeTracker).SetStatus of (instance.ChangeTracker).SetStatus { tags [C16] }
impl (*instance.NoopChangeTracker).AttrChange of (instance.ChangeTracker).AttrChange { tags [C16] }
impl (*instance.NoopChangeTracker).FlowCreated of (instance.ChangeTracker).FlowCreated { tags [C16] }
impl (*instance.NoopChangeTracker).SubflowCreated of (instance.ChangeTracker).SubflowCreated { tags [C16] }
impl (*instance.NoopChangeTracker).WorkItemAdded of (instance.ChangeTracker).WorkItemAdded { tags [C16] }
impl (*instance.NoopChangeTracker).WorkItemRemoved of (instance.ChangeTracker).WorkItemRemoved { tags [C16] }
impl (*instance.NoopChangeTracker).TaskAdded of (instance.ChangeTracker).TaskAdded { tags [C16] }
impl (*instance.NoopChangeTracker).TaskUpdated of (instance.ChangeTracker).TaskUpdated { tags [C16] }
impl (*instance.NoopChangeTracker).TaskRemoved of (instance.ChangeTracker).TaskRemoved { tags [C16] }
impl (*instance.NoopChangeTracker).LinkAdded of (instance.ChangeTracker).LinkAdded { tags [C16] }
impl (*instance.NoopChangeTracker).LinkUpdated of (instance.ChangeTracker).LinkUpdated { tags [C16] }
impl (*instance.NoopChangeTracker).LinkRemoved of (instance.ChangeTracker).LinkRemoved { tags [C16] }
impl (*instance.NoopChangeTracker).FlowDone of (instance.ChangeTracker).FlowDone { tags [C16] }
impl (*instance.NoopChangeTracker).SubflowDone of (instance.ChangeTracker).SubflowDone { tags [C16] }
