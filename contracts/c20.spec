// C20: what the caller of a flow action gets.
import action "core/action"
import json "encoding/json"
import ondemand "flow/ondemand"
import os "os"
import strconv "strconv"

// the results delivered by the action (n-th data, error and the data's "id"), and the done signals
ghost #hn int
ghost #hV [int] any
ghost #hE [int] any
ghost #hID [int] any
ghost #hH [int] any
ghost #hG [int] any
ghost #hGE [int] any
ghost #hGI [int] *instance.Instance
ghost #dn int
ghost #dnAt int
ghost #dnH any
modset HANDLER = #hn, #hV, #hE, #hID, #hH, #hG, #hGE, #hGI, #dn, #dnAt, #dnH
// the latest flow result computed, the instance run, the steps made
ghost loose C20 #grdV any
ghost loose C20 #grdE any
ghost loose C20 #grdI *instance.Instance
ghost #runInst *instance.Instance
ghost #dsn int
ghost #limit bool
// the flow has exception assertions (a test run), whose failure is not reported as an error
ghost #asserted bool
extern strconv.Itoa(n) -> (s) { pure }

iface (action.ResultHandler).HandleResult(h, d, e) {
  sets #hV := store(old(#hV), old(#hn), box(d))
  sets #hE := store(old(#hE), old(#hn), e)
  sets #hID := store(old(#hID), old(#hn), d["id"])
  sets #hH := store(old(#hH), old(#hn), h)
  sets #hG := store(old(#hG), old(#hn), #grdV)
  sets #hGE := store(old(#hGE), old(#hn), #grdE)
  sets #hGI := store(old(#hGI), old(#hn), #grdI)
  sets #hn := old(#hn) + 1
}
iface (action.ResultHandler).Done(h) {
  sets #dn := old(#dn) + 1
  sets #dnAt := #hn
  sets #dnH := h
}
func (*instance.Instance).SetResultHandler(inst, h) {
  ensures [C20] "replies go to the given handler" inst.resultHandler == h
  modifies inst.resultHandler
  sets #runInst := inst
  quiet
}

define optsOf(in) = in["_run_options"] as *instance.RunOptions
define hasOpts(in) = "_run_options" in in && in["_run_options"] is *instance.RunOptions
define wantsID(in) = hasOpts(in) && optsOf(in).ReturnID
define detached(in) = hasOpts(in) && optsOf(in).DetachExecution
define opOf(in) = if hasOpts(in) then optsOf(in).Op else 0
define uriOf(fa, in) = if hasOpts(in) && optsOf(in).FlowURI != "" then optsOf(in).FlowURI else fa.flowURI
define skippedSteps(in) = if hasOpts(in) && optsOf(in).InitStepId > 0 then optsOf(in).InitStepId - 1 else 0
define concurrent20() = os.Getenv("FLOGO_FLOW_CONCURRENT_TASK_EXECUTION") == "true"
define used20(in) = #dsn - old(#dsn) + old(skippedSteps(in)) >= flow.maxStepCount

func (*flow.FlowAction).Run(fa, ctx, inputs, handler) -> (err) {
  ensures [C20] "a request without flow is refused" old(uriOf(fa, inputs)) == "" ==> err != nil
  ensures [C20] "a restart or resume without state is refused" old((opOf(inputs) == instance.OpRestart || opOf(inputs) == instance.OpResume) && optsOf(inputs).InitialState == nil) ==> err != nil
  ensures [C20] "a refused request delivers nothing" err != nil ==> #hn == old(#hn) && #dn == old(#dn)
  ensures [C20] "done is signalled exactly once, to the caller" err == nil ==> #dn == old(#dn) + 1 && #dnH == handler
  ensures [C20] "after every result, unless detached" err == nil ==> #dnAt == (if old(detached(inputs)) then old(#hn) else #hn)
  ensures [C20] "the id is delivered first if asked for" err == nil && old(wantsID(inputs)) ==> #hn > old(#hn) && #hE[old(#hn)] == nil && #hID[old(#hn)] is string && (#hID[old(#hn)] as string) == #runInst.ID()
  ensures [C20] "all results go to the caller" err == nil ==> forall i int {#hH[i]} :: old(#hn) <= i && i < #hn ==> #hH[i] == handler
  ensures [C20] "a completed flow delivers its data, once" err == nil && #runInst.status == model.FlowStatusCompleted ==> let n := old(#hn) + (if old(wantsID(inputs)) then 1 else 0) :: #hn == n + 1 && #hV[n] == #hG[n] && #hE[n] == #hGE[n] && #hGI[n] == #runInst
  ensures [C20] "a failed flow delivers its error, once" err == nil && #runInst.status == model.FlowStatusFailed ==> let n := old(#hn) + (if old(wantsID(inputs)) then 1 else 0) :: #hn == n + 1 && (#hE[n] == #runInst.returnError || (#asserted && #hE[n] == nil))
  ensures [C20] "an unfinished flow delivers an error exactly if the steps were used up" err == nil && #runInst.status < model.FlowStatusCompleted ==> let n := old(#hn) + (if old(wantsID(inputs)) then 1 else 0) :: #hn == (if (if concurrent20() then #limit else used20(inputs)) then n + 1 else n) && (#hn > n ==> #hE[n] != nil)
  loopinv over plain #dsn == lentry(#dsn) + $i
  may_panic
  noframe
}
define maxSteps20() = if os.LookupEnv("FLOGO_MAX_STEP_COUNT").ok && strconv.Atoi(os.LookupEnv("FLOGO_MAX_STEP_COUNT").v).err == nil then strconv.Atoi(os.LookupEnv("FLOGO_MAX_STEP_COUNT").v).n else 10000000
func (*instance.IndependentInstance).DoStepInLoop(inst) -> (err) {
  ensures [C20] "an error is reported only when the steps were used up" err != nil && maxSteps20() >= 0 ==> #exec1 == old(#exec1) + maxSteps20()
  ensures [C20] "otherwise the flow is over" err == nil ==> inst.status != model.FlowStatusActive
  ensures [C20] "and no more steps were made than configured" maxSteps20() >= 0 ==> #exec1 <= old(#exec1) + maxSteps20()
  sets #limit := err != nil
  may_panic
  loopinv <n phi int> #exec1 == old(#exec1) + n && (maxSteps20() >= 0 ==> n <= maxSteps20())
  modifies @SCHED, @ITER, #pn, #perr, #bev, #bpost, #bti, #bres, #berr, #unh, #exec1, #execTI, #popn, #popitem, #popok, all simple.DoWhile.Index, all instance.TaskInst.counter, inst.stepID, inst.changeTracker
}
func (*flow.FlowAction).applyAssertionInterceptor(fa, inst, t) -> (r) {
  ensures [C20] "only a flow with an interceptor has assertions" inst.interceptor == nil ==> !r
  sets #asserted := r
  quiet
  modifies @XEVAL, all []support.Assertion, all support.TaskInterceptor.Result, all support.TaskInterceptor.Message
  may_panic
}
func (*instance.IndependentInstance).Restart(inst, l, id, n) -> (err) {
  tags [C20]
  modifies @SCHED, @FETCH, all instance.Instance.*, all instance.IndependentInstance.*, all instance.TaskInst.*, all instance.LinkInst.*, #popn, #popitem, #popok
}
define explicit20(inst) = inst.flowDef.explicitReply
func (*ondemand.FlowAction).Run(fa, ctx, inputs, handler) -> (err) {
  ensures [C20] "a request without flow package is refused" !old("flowPackage" in inputs) ==> err != nil
  ensures [C20] "or with one that is not json" old("flowPackage" in inputs) && !old(inputs["flowPackage"] is json.RawMessage) ==> err != nil
  ensures [C20] "a refused request delivers nothing" err != nil ==> #hn == old(#hn) && #dn == old(#dn)
  ensures [C20] "done is signalled exactly once, to the caller, after every result" err == nil ==> #dn == old(#dn) + 1 && #dnH == handler && #dnAt == #hn
  ensures [C20] "the id is delivered first unless the flow replies itself" err == nil && !explicit20(#runInst) ==> #hn > old(#hn) && #hE[old(#hn)] == nil && #hID[old(#hn)] is string && (#hID[old(#hn)] as string) == #runInst.ID()
  ensures [C20] "all results go to the caller" err == nil ==> forall i int {#hH[i]} :: old(#hn) <= i && i < #hn ==> #hH[i] == handler
  ensures [C20] "a completed flow delivers its data, once" err == nil && #runInst.status == model.FlowStatusCompleted ==> let n := old(#hn) + (if explicit20(#runInst) then 0 else 1) :: #hn == n + 1 && #hV[n] == #hG[n] && #hE[n] == #hGE[n] && #hGI[n] == #runInst
  ensures [C20] "a failed flow delivers its error, once" err == nil && #runInst.status == model.FlowStatusFailed ==> let n := old(#hn) + (if explicit20(#runInst) then 0 else 1) :: #hn == n + 1 && #hE[n] == #runInst.returnError
  ensures [C20] "an unfinished flow delivers an error exactly if the steps were used up" err == nil && #runInst.status < model.FlowStatusCompleted ==> let n := old(#hn) + (if explicit20(#runInst) then 0 else 1) :: #hn == (if (if concurrent20() then #limit else ondemand.maxStepCount >= 0 && #dsn - old(#dsn) == ondemand.maxStepCount) then n + 1 else n) && (#hn > n ==> #hE[n] != nil)
  loopinv over plain #dsn == lentry(#dsn) + $i
  may_panic
  noframe
}
