// C10: do-while tasks.

define dwObj(ti) = wd(ti, "iteration") as *simple.DoWhile
define dwOK(ti) = wdHas(ti, "iteration") ==> wd(ti, "iteration") is *simple.DoWhile && dwObj(ti) != nil && allocated(dwObj(ti))
// number of completed iterations
define dwDone(ti) = if wdHas(ti, "iteration") then dwObj(ti).Index else 0
define dwCond(ti) = if ti.task.loopCfg != nil then ti.task.loopCfg.condition else nil
// verdict after a successful evaluation
define dwVerdict(ti, res, err) = if dwCond(ti) == nil then res == model.EvalDone && err == nil else if #xerr[dwCond(ti)] != nil then res == model.EvalFail && err == #xerr[dwCond(ti)] else if !boolable(#xval[dwCond(ti)]) then res == model.EvalFail && err != nil else err == nil && (if tobool(#xval[dwCond(ti)]) then res == model.EvalRepeat else res == model.EvalDone)

func (*simple.DoWhileTaskBehavior).Eval(dw, ctx) -> (res, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the working data is well formed" retryWF(ctx as *instance.TaskInst) && dwOK(ctx as *instance.TaskInst)
  ensures [C10,C03] "a skipped task is not evaluated" old((ctx as *instance.TaskInst).status) == 50 ==> res == model.EvalDone && err == nil && #evn == old(#evn) && dwDone(ctx as *instance.TaskInst) == old(dwDone(ctx as *instance.TaskInst))
  ensures [C10] "evaluated at least once" old((ctx as *instance.TaskInst).status) != 50 ==> #evn > old(#evn)
  ensures [C10] "the index seen is the number of completed iterations" let ti := ctx as *instance.TaskInst :: forall k int {#evidx[k]} :: old(#evn) < k && k <= #evn ==> #evidx[k] == box(old(dwDone(ti)))
  ensures [C10] "an error of the activity fails the task" #evn > old(#evn) && #everr[#evn] != nil ==> res == model.EvalFail && err != nil && dwDone(ctx as *instance.TaskInst) == old(dwDone(ctx as *instance.TaskInst))
  ensures [C10] "a waiting activity decides nothing yet" #evn > old(#evn) && #everr[#evn] == nil && !#evdone[#evn] ==> res == model.EvalWait && err == nil && (ctx as *instance.TaskInst).status == model.TaskStatusWaiting
  ensures [C10] "nor does it complete the iteration" let ti := ctx as *instance.TaskInst :: #evn > old(#evn) && (#everr[#evn] != nil || !#evdone[#evn]) ==> dwDone(ti) == old(dwDone(ti))
  ensures [C10] "the condition decides whether it is repeated" let ti := ctx as *instance.TaskInst :: #evn > old(#evn) && #everr[#evn] == nil && #evdone[#evn] ==> dwVerdict(ti, res, err)
  ensures [C10] "the condition sees the index of the iteration" let ti := ctx as *instance.TaskInst :: #evn > old(#evn) && #everr[#evn] == nil && #evdone[#evn] && dwCond(ti) != nil ==> #xidx[dwCond(ti)] == box(old(dwDone(ti)))
  ensures [C10] "the index grows by one per completed iteration" let ti := ctx as *instance.TaskInst :: #evn > old(#evn) && #everr[#evn] == nil && #evdone[#evn] ==> dwDone(ti) == old(dwDone(ti)) + 1
  ensures [C10] "the iteration stays well formed" dwOK(ctx as *instance.TaskInst) && retryWF(ctx as *instance.TaskInst)
  ensures [C04] "the task is not queued by its evaluation" (let ti := ctx as *instance.TaskInst :: #queued[ti] == old(#queued[ti]))
  sets #bev := #bev + 1
  sets #bti := ctx as *instance.TaskInst
  sets #bres := res
  sets #berr := err
  modifies @RETRY, (ctx as *instance.TaskInst).status, all simple.DoWhile.Index
  may_panic
}

func (*simple.DoWhileTaskBehavior).PostEval(dw, ctx) -> (res, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the working data is well formed" retryWF(ctx as *instance.TaskInst) && dwOK(ctx as *instance.TaskInst)
  ensures [C10,C04] "the waiting activity is resumed once" #pn == old(#pn) + 1 && #evn == old(#evn)
  ensures [C10] "an error of the activity fails the task" #perr[#pn] != nil ==> res == model.EvalFail && err == #perr[#pn] && dwDone(ctx as *instance.TaskInst) == old(dwDone(ctx as *instance.TaskInst))
  ensures [C10] "the condition decides whether it is repeated" let ti := ctx as *instance.TaskInst :: #perr[#pn] == nil ==> dwVerdict(ti, res, err)
  ensures [C10] "the condition sees the index of the iteration" let ti := ctx as *instance.TaskInst :: #perr[#pn] == nil && dwCond(ti) != nil ==> #xidx[dwCond(ti)] == box(old(dwDone(ti)))
  ensures [C10] "the index grows by one per completed iteration" let ti := ctx as *instance.TaskInst :: #perr[#pn] == nil ==> dwDone(ti) == old(dwDone(ti)) + 1
  ensures [C10] "a repeating task can be evaluated again" #perr[#pn] == nil && res == model.EvalRepeat ==> (ctx as *instance.TaskInst).status == model.TaskStatusReady
  ensures [C10] "the iteration stays well formed" dwOK(ctx as *instance.TaskInst) && retryWF(ctx as *instance.TaskInst)
  ensures [C04] "the task is not queued by its evaluation" (let ti := ctx as *instance.TaskInst :: #queued[ti] == old(#queued[ti]))
  sets #bpost := #bpost + 1
  sets #bti := ctx as *instance.TaskInst
  sets #bres := res
  sets #berr := err
  modifies @EVALACT, @XEVAL, #slept, #pn, #perr, all instance.TaskInst.workingData, (ctx as *instance.TaskInst).status, all simple.DoWhile.Index
  may_panic
}
