// C08: subflows.

ghost #nsub int
ghost #subInst *instance.Instance
ghost #started int
ghost #startInst *instance.Instance
ghost #startIn map[string]any

extern trace.Enabled() -> (b) { pure }

define subIds(inst) = inst.subflowCtr >= 0 && forall k int {k in inst.subflows} :: k in inst.subflows ==> 0 < k && k <= inst.subflowCtr && inst.subflows[k] != nil && (inst.subflows[k]).subflowId == k

func (*instance.IndependentInstance).newEmbeddedInstance(inst, ti, uri, flow) -> (r) {
  assumes "the ids of the running subflows are not above the counter" subIds(inst)
  ensures [C08] "a new flow instance that is not started" r != nil && fresh(r) && r.status == model.FlowStatusNotStarted && !r.isHandlingError && !r.forceCompletion && r.returnData == nil && r.returnError == nil
  ensures [C08] "of the given flow" r.flowDef == flow && r.flowURI == uri
  ensures [C08] "the calling task is recorded" r.master == inst && r.host is *instance.TaskInst && (r.host as *instance.TaskInst) == ti
  ensures [C08,C13] "its own data" fresh(r.attrs) && r.attrs != nil && len(r.attrs) == 0 && (forall k string {k in r.attrs} :: !(k in r.attrs)) && fresh(r.taskInsts) && r.taskInsts != nil && len(r.taskInsts) == 0 && fresh(r.linkInsts) && r.linkInsts != nil && len(r.linkInsts) == 0
  ensures [C08] "a unique id" r.subflowId == old(inst.subflowCtr) + 1 && (forall k int {k in inst.subflows} :: old(k in inst.subflows) ==> k != r.subflowId)
  ensures [C08,C17] "ids are never reused" inst.subflowCtr == old(inst.subflowCtr) + 1 && subIds(inst)
  ensures [C08] "it is part of the running instance" r.subflowId in inst.subflows && inst.subflows[r.subflowId] == r
  ensures [C08] "no other subflow is touched" forall k int {k in inst.subflows} :: k != r.subflowId ==> (k in inst.subflows) == old(k in inst.subflows) && inst.subflows[k] == old(inst.subflows[k])
  ensures [C16] "the new subflow is recorded" rec1(4) && #rv[old(#rn)] == box(r)
  sets #nsub := #nsub + 1
  sets #subInst := r
  modifies inst.subflowCtr, inst.subflows, inst.subflows[*], @TRACK
}

iface (data.TypedValue).Value(v) -> (r) { pure }
func support.GetAppName() -> (r) { modifies all support.appName }
func support.GetAppVerison() -> (r) { modifies all support.appVersion }

func (*instance.Instance).SetValue(inst, name, value) -> (err) {
  quiet
  assumes "the instance has a data map" inst.attrs != nil
  ensures [C13] "no error" err == nil
  ensures [C16] "the value is recorded" rec1(2) && #rs == store(old(#rs), old(#rn), inst.subflowId) && #rname == store(old(#rname), old(#rn), name) && #rv == store(old(#rv), old(#rn), value) && #ai == store(old(#ai), name, old(#rn))
  ensures [C13] "the value is stored" name in inst.attrs && inst.attrs[name] == value
  ensures [C13] "no other name changes" forall k string {k in inst.attrs} {inst.attrs[k]} :: k != name ==> (k in inst.attrs) == old(k in inst.attrs) && inst.attrs[k] == old(inst.attrs[k])
  modifies inst.attrs[*], @TRACK
}

define defaultOf(toStart, k) = if toStart.flowDef.metadata.Input[k] != nil then toStart.flowDef.metadata.Input[k].Value() else nil
define notGiven(toStart, in, k) = !old(k in in) && !(toStart.flowDef.metadata != nil && k in toStart.flowDef.metadata.Input)
func (*instance.IndependentInstance).startInstance(inst, toStart, in) -> (ok) {
  assumes "the instance has a data map of its own" toStart.attrs != nil && toStart.attrs != in
  assumes "a caller is a task instance" toStart.host == nil || toStart.host is *instance.TaskInst
  ensures [C07,C08] "the flow is started" ok
  ensures [C07,C08] "it is active when its tasks are entered" #entStatus == model.FlowStatusActive
  ensures [C07] "exactly its leading tasks are entered, once" #ent1 == old(#ent1) + 1 && #entInst == toStart && entersLeadingAt(#entES, toStart.flowDef.tasks)
  ensures [C14,C08] "every given input is visible to the first tasks" forall k string {k in in} {#entVals[k]} :: old(k in in) ==> #entDom[k] && #entVals[k] == old(in[k])
  ensures [C14] "every other declared input has its default" toStart.flowDef.metadata != nil ==> forall k string {#entVals[k]} :: k in toStart.flowDef.metadata.Input && !old(k in in) ==> #entDom[k] && (toStart.flowDef.metadata.Input[k] != nil ==> #entVals[k] == toStart.flowDef.metadata.Input[k].Value()) && (toStart.flowDef.metadata.Input[k] == nil ==> #entVals[k] == nil)
  ensures [C14] "the name and the parent of the flow are known" notGiven(toStart, in, "_fctx.FlowName") ==> #entDom["_fctx.FlowName"] && #entVals["_fctx.FlowName"] is string && (#entVals["_fctx.FlowName"] as string) == toStart.flowDef.name
  ensures [C14] "the name of the parent" notGiven(toStart, in, "_fctx.ParentFlowName") ==> #entDom["_fctx.ParentFlowName"] && #entVals["_fctx.ParentFlowName"] is string && (#entVals["_fctx.ParentFlowName"] as string) == (if toStart.host == nil then "" else (toStart.host as *instance.TaskInst).flowInst.flowDef.name)
  ensures [C16] "every value written is recorded, with its latest value" forall k string {#entVals[k]} {#entDom[k]} :: #entDom[k] && !(old(k in toStart.attrs) && #entVals[k] == old(toStart.attrs[k])) ==> old(#rn) <= #xai[k] && #xai[k] < #xrn && #xrk[#xai[k]] == 2 && #xrs[#xai[k]] == toStart.subflowId && #xrv[#xai[k]] == #entVals[k]
  sets #started := #started + 1
  sets #startInst := toStart
  sets #startIn := in
  modifies @SCHED, toStart.attrs, toStart.attrs[*], all support.appName, all support.appVersion
  may_panic
  loopinv forall k string {k in in} {in[k]} :: (k in in) == old(k in in) && in[k] == old(in[k])
  loopinv #rn >= old(#rn) && forall k string {toStart.attrs[k]} {k in toStart.attrs} :: k in toStart.attrs && !(old(k in toStart.attrs) && toStart.attrs[k] == old(toStart.attrs[k])) ==> old(#rn) <= #ai[k] && #ai[k] < #rn && #rk[#ai[k]] == 2 && #rs[#ai[k]] == toStart.subflowId && #rv[#ai[k]] == toStart.attrs[k]
  loopinv toStart.attrs != nil && toStart.attrs == old(toStart.attrs)
  loopinv over map[string]data.TypedValue forall k string {toStart.attrs[k]} {k in toStart.attrs} {k in toStart.flowDef.metadata.Input} :: k in $vis && k in toStart.flowDef.metadata.Input ==> k in toStart.attrs && toStart.attrs[k] == defaultOf(toStart, k)
  loopinv over map[string]any forall k string {toStart.attrs[k]} {k in toStart.attrs} {k in toStart.flowDef.metadata.Input} :: !(k in in) && toStart.flowDef.metadata != nil && k in toStart.flowDef.metadata.Input ==> k in toStart.attrs && toStart.attrs[k] == defaultOf(toStart, k)
  loopinv forall k string {toStart.attrs[k]} {k in toStart.attrs} :: !(k in $vis) ==> (k in toStart.attrs) == lentry(k in toStart.attrs) && toStart.attrs[k] == lentry(toStart.attrs[k])
  loopinv over map[string]any forall k string {toStart.attrs[k]} {in[k]} :: k in in && k in $vis ==> k in toStart.attrs && toStart.attrs[k] == in[k]
}

func instance.StartSubFlow(ctx, uri, in) -> (err) {
  assumes "the running instance keeps its subflows" ctx is *instance.TaskInst ==> (ctx as *instance.TaskInst).flowInst != nil && (ctx as *instance.TaskInst).flowInst.master != nil
  ensures [C08] "one new flow instance is started, with the given inputs" err == nil ==> #nsub == old(#nsub) + 1 && #started == old(#started) + 1 && #startInst == #subInst && #startIn == in
  ensures [C08] "the calling task is recorded as its parent" err == nil ==> ctx is *instance.TaskInst && #subInst.host is *instance.TaskInst && (#subInst.host as *instance.TaskInst) == (ctx as *instance.TaskInst)
  ensures [C08] "it is run by the same running instance" err == nil ==> #subInst.master == (ctx as *instance.TaskInst).flowInst.master && #subInst.flowURI == uri
  ensures [C08] "nothing is started if the flow is not found" err != nil ==> #nsub == old(#nsub) && #started == old(#started)
  modifies @FETCH, all []*support.SubFlowCoverage, @SCHED, #nsub, #subInst, #started, #startInst, #startIn, all support.appName, all support.appVersion, all instance.IndependentInstance.subflowCtr, all instance.IndependentInstance.subflows, all instance.Instance.attrs
  may_panic
}
