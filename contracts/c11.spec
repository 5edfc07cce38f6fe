// C11: retry on error. Evaluations of activities are counted in #evn; #everr[i] and #evdone[i] are the
// outcome of the i-th one and #slept[i] is the pause made after it.

ghost #evn int
// evaluations and resumptions by the task behaviours, and the verdict of the latest one
ghost #bev int
ghost #bpost int
ghost #bti *instance.TaskInst
ghost #bres model.EvalResult
ghost #berr error
ghost #everr [int] error
ghost #evdone [int] bool
ghost #slept [int] int
// the iteration context the i-th evaluation saw
ghost #evkey [int] any
ghost #evval [int] any
ghost #evidx [int] any

define wdHas(ti, k) = ti.workingData != nil && k in ti.workingData.workingData
define wd(ti, k) = ti.workingData.workingData[k]
define itIsMap(ti) = wdHas(ti, "iteration") && wd(ti, "iteration") is map[string]any
define itMap(ti) = wd(ti, "iteration") as map[string]any
define itKey(ti) = if itIsMap(ti) then itMap(ti)["key"] else nil
define itVal(ti) = if itIsMap(ti) then itMap(ti)["value"] else nil
define itIdx(ti) = if itIsMap(ti) then itMap(ti)["index"] else if wdHas(ti, "iteration") && wd(ti, "iteration") is *simple.DoWhile then box((wd(ti, "iteration") as *simple.DoWhile).Index) else nil
define sameIt(ti) = forall i int {#evkey[i]} {#evval[i]} {#evidx[i]} :: if i <= old(#evn) then #evkey[i] == old(#evkey[i]) && #evval[i] == old(#evval[i]) && #evidx[i] == old(#evidx[i]) else if i <= #evn then #evkey[i] == old(itKey(ti)) && #evval[i] == old(itVal(ti)) && #evidx[i] == old(itIdx(ti)) else true

// latest value read from a retry configuration
ghost #rcount [definition.RetryOnError] int
ghost #rinterval [definition.RetryOnError] int
ghost #rcerr [definition.RetryOnError] error
ghost #rierr [definition.RetryOnError] error

// what evaluating an activity may touch besides what the activity itself owns
modset ACT = all instance.TaskInst.inputs, all instance.TaskInst.outputs, all instance.TaskInst.returnError, all instance.TaskInst.traceContext,
   all instance.Instance.returnData, all instance.Instance.returnError, all instance.Instance.forceCompletion,
   all map[string]any, @TRACK, @COVER, @QUEUE, #queued, all map[int]*instance.Instance, #act1, #actDone, #actErr, #actPanic, #actDom, #actVals
// the engine itself also uses mappers and interceptors around an activity
modset EVALACT = @ACT, @MAPPING, all []any, all []support.Assertion, all support.TaskInterceptor.Result, all support.TaskInterceptor.Message

closed definition.RetryOnError = *definition.retryOnErrConfig
// the retry configuration evaluates no expression but its own
define ownExpr(r, e) = r is *definition.retryOnErrConfig && (e == ((r as *definition.retryOnErrConfig).count as expression.Expr) || e == ((r as *definition.retryOnErrConfig).interval as expression.Expr))
define onlyOwn(r) = forall e expression.Expr {#xval[e]} {#xerr[e]} :: !ownExpr(r, e) ==> #xval[e] == old(#xval[e]) && #xerr[e] == old(#xerr[e])

iface (definition.RetryOnError).Count(r, scope) -> (n, err) {
  sets #rcount[r] := n
  sets #rcerr[r] := err
  ensures "only its own expressions are evaluated" onlyOwn(r)
  modifies @XEVAL
}
iface (definition.RetryOnError).Interval(r, scope) -> (n, err) {
  sets #rinterval[r] := n
  sets #rierr[r] := err
  ensures "only its own expressions are evaluated" onlyOwn(r)
  modifies @XEVAL
}
extern time.Sleep(d) { sets #slept[#evn] := d }
extern (*activity.Error).Retriable(e) -> (r) { pure }

define retriable(e) = e is *activity.Error && (e as *activity.Error).Retriable()
define hasRetry(ti) = ti.workingData != nil && "_retryOnErrorAttr" in ti.workingData.workingData
define retryData(ti) = (ti.workingData.workingData["_retryOnErrorAttr"] as *simple.RetryData)
define retryWF(ti) = (hasRetry(ti) ==> ti.workingData.workingData["_retryOnErrorAttr"] is *simple.RetryData && retryData(ti) != nil) && (itIsMap(ti) ==> itMap(ti) != ti.workingData.workingData)

define otherWork(ti) = if old(ti.workingData) != nil then ti.workingData == old(ti.workingData) && (forall k string {k in ti.workingData.workingData} :: k != "_retryOnErrorAttr" ==> (k in ti.workingData.workingData) == old(k in ti.workingData.workingData) && ti.workingData.workingData[k] == old(ti.workingData.workingData[k])) else ti.workingData != nil ==> (forall k string {k in ti.workingData.workingData} :: k in ti.workingData.workingData ==> k == "_retryOnErrorAttr")
modset RETRY = @EVALACT, @XEVAL, #evn, #everr, #evdone, #slept, #evkey, #evval, #evidx, #rcount, #rinterval, #rcerr, #rierr, all simple.RetryData.Count, all instance.TaskInst.workingData

func simple.getRetryData(ctx) -> (rd, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the working data is well formed" retryWF(ctx as *instance.TaskInst)
  ensures "the iteration context stays" let ti := ctx as *instance.TaskInst :: itKey(ti) == old(itKey(ti)) && itVal(ti) == old(itVal(ti)) && itIdx(ti) == old(itIdx(ti))
  ensures [C11] "stored data is used again" let ti := ctx as *instance.TaskInst :: old(hasRetry(ti)) && err == nil ==> rd == retryData(ti) && rd == old(retryData(ti)) && hasRetry(ti)
  ensures "well formed data stays" let ti := ctx as *instance.TaskInst :: retryWF(ti) && (old(hasRetry(ti)) ==> err == nil)
  ensures [C11] "the first time the configuration is read" let ti := ctx as *instance.TaskInst :: !old(hasRetry(ti)) && err == nil ==> rd != nil && rd.Count == #rcount[ti.task.retryOnErrConfig] && rd.Interval == #rinterval[ti.task.retryOnErrConfig] && hasRetry(ti) && retryWF(ti) && retryData(ti) == rd
  ensures "stored data needs no configuration" old(hasRetry(ctx as *instance.TaskInst)) ==> #rcount == old(#rcount) && #rinterval == old(#rinterval) && #rcerr == old(#rcerr) && #rierr == old(#rierr)
  ensures [C11] "fails only if the configuration cannot be read" let ti := ctx as *instance.TaskInst :: !old(hasRetry(ti)) && err != nil ==> #rcerr[ti.task.retryOnErrConfig] != nil || #rierr[ti.task.retryOnErrConfig] != nil
  ensures [C11] "no other working data changes" let ti := ctx as *instance.TaskInst :: otherWork(ti)
  ensures "no other expression is evaluated" onlyOwn((ctx as *instance.TaskInst).task.retryOnErrConfig)
  modifies (ctx as *instance.TaskInst).workingData, (ctx as *instance.TaskInst).workingData.workingData[*], #rcount, #rinterval, #rcerr, #rierr, @XEVAL
}

// one evaluation plus the retries
define retriesOK(ti, err) = #evn > old(#evn) && (forall i int {#everr[i]} :: old(#evn) < i && i < #evn ==> retriable(#everr[i])) && (forall i int {#everr[i]} :: i <= old(#evn) ==> #everr[i] == old(#everr[i]))

func simple.evalActivity(ctx) -> (done, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the working data is well formed" retryWF(ctx as *instance.TaskInst)
  ensures "the working data stays well formed" retryWF(ctx as *instance.TaskInst)
  ensures "stored data stays" let ti := ctx as *instance.TaskInst :: old(hasRetry(ti)) ==> hasRetry(ti) && retryData(ti) == old(retryData(ti)) && retryData(ti).Interval == old(retryData(ti).Interval)
  ensures [C11] "evaluated at least once" #evn > old(#evn)
  ensures [C11] "only evaluations failing with a retriable error are retried" forall i int {#everr[i]} :: old(#evn) < i && i < #evn ==> retriable(#everr[i])
  ensures [C11] "earlier outcomes stay" forall i int {#everr[i]} {#evdone[i]} {#slept[i]} :: i <= old(#evn) ==> #everr[i] == old(#everr[i]) && #evdone[i] == old(#evdone[i]) && #slept[i] == old(#slept[i])
  ensures [C11] "never retried without configuration" let ti := ctx as *instance.TaskInst :: ti.task.retryOnErrConfig == nil ==> #evn == old(#evn) + 1
  ensures [C11] "a success ends the retries and is reported" #everr[#evn] == nil ==> err == nil && done == #evdone[#evn]
  ensures [C11] "an error is reported when the last attempt failed" #everr[#evn] != nil ==> err != nil
  ensures [C11] "the last error is the one reported" let ti := ctx as *instance.TaskInst :: err == #everr[#evn] || #evn == old(#evn) + 1 && !old(hasRetry(ti))
  ensures "the configuration is read once" let ti := ctx as *instance.TaskInst :: old(hasRetry(ti)) ==> #rcount == old(#rcount) && #rinterval == old(#rinterval) && #rcerr == old(#rcerr) && #rierr == old(#rierr)
  ensures [C11] "one retry is used up per repetition" let ti := ctx as *instance.TaskInst :: old(hasRetry(ti)) ==> retryData(ti).Count == old(retryData(ti).Count) - (#evn - old(#evn) - 1)
  ensures [C11] "the configured number of retries is the bound" let ti := ctx as *instance.TaskInst :: #evn > old(#evn) + 1 ==> hasRetry(ti) && retryData(ti).Count >= 0 && retryData(ti).Count == (if old(hasRetry(ti)) then old(retryData(ti).Count) else #rcount[ti.task.retryOnErrConfig]) - (#evn - old(#evn) - 1)
  ensures [C11] "all retries are used" let ti := ctx as *instance.TaskInst :: retriable(#everr[#evn]) && ti.task.retryOnErrConfig != nil && (old(hasRetry(ti)) || #rcerr[ti.task.retryOnErrConfig] == nil && #rierr[ti.task.retryOnErrConfig] == nil) ==> hasRetry(ti) && retryData(ti).Count <= 0
  ensures [C11] "the interval is respected" let ti := ctx as *instance.TaskInst :: forall i int {#slept[i]} :: old(#evn) < i && i < #evn && retryData(ti).Interval > 0 ==> #slept[i] == retryData(ti).Interval * 1000000
  ensures [C09,C10] "every attempt sees the same iteration" let ti := ctx as *instance.TaskInst :: sameIt(ti)
  ensures [C09,C10] "the iteration context stays" let ti := ctx as *instance.TaskInst :: itKey(ti) == old(itKey(ti)) && itVal(ti) == old(itVal(ti)) && itIdx(ti) == old(itIdx(ti))
  ensures [C09,C10,C11] "no other working data changes" let ti := ctx as *instance.TaskInst :: otherWork(ti)
  ensures "no other expression is evaluated" onlyOwn((ctx as *instance.TaskInst).task.retryOnErrConfig)
  ensures [C04] "the task is not queued by its evaluation" (let ti := ctx as *instance.TaskInst :: #queued[ti] == old(#queued[ti]))
  modifies @RETRY
}

func simple.retryEval(ctx, rd) -> (done, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the retry data is the stored one" rd != nil && hasRetry(ctx as *instance.TaskInst) && retryWF(ctx as *instance.TaskInst) && retryData(ctx as *instance.TaskInst) == rd
  requires "retries are left" rd.Count > 0
  ensures "the working data stays well formed" retryWF(ctx as *instance.TaskInst)
  ensures "stored data stays" let ti := ctx as *instance.TaskInst :: hasRetry(ti) && retryData(ti) == rd && rd.Interval == old(rd.Interval)
  ensures [C11] "evaluated at least once" #evn > old(#evn)
  ensures [C11] "only evaluations failing with a retriable error are retried" forall i int {#everr[i]} :: old(#evn) < i && i < #evn ==> retriable(#everr[i])
  ensures [C11] "earlier outcomes stay" forall i int {#everr[i]} {#evdone[i]} {#slept[i]} :: i <= old(#evn) ==> #everr[i] == old(#everr[i]) && #evdone[i] == old(#evdone[i]) && (i < old(#evn) ==> #slept[i] == old(#slept[i]))
  ensures [C11] "a success ends the retries and is reported" #everr[#evn] == nil ==> err == nil && done == #evdone[#evn]
  ensures [C11] "an error is reported when the last attempt failed" #everr[#evn] != nil ==> err != nil
  ensures [C11] "the last error is the one reported" err == #everr[#evn]
  ensures "the configuration is read once" #rcount == old(#rcount) && #rinterval == old(#rinterval) && #rcerr == old(#rcerr) && #rierr == old(#rierr)
  ensures [C11] "one retry is used up per evaluation" rd.Count >= 0 && rd.Count == old(rd.Count) - (#evn - old(#evn))
  ensures [C11] "all retries are used" let ti := ctx as *instance.TaskInst :: retriable(#everr[#evn]) && ti.task.retryOnErrConfig != nil ==> rd.Count == 0
  ensures [C11] "the interval is respected" forall i int {#slept[i]} :: old(#evn) <= i && i < #evn && rd.Interval > 0 ==> #slept[i] == rd.Interval * 1000000
  ensures [C09,C10] "every attempt sees the same iteration" let ti := ctx as *instance.TaskInst :: sameIt(ti)
  ensures [C09,C10] "the iteration context stays" let ti := ctx as *instance.TaskInst :: itKey(ti) == old(itKey(ti)) && itVal(ti) == old(itVal(ti)) && itIdx(ti) == old(itIdx(ti))
  ensures [C09,C10,C11] "no other working data changes" let ti := ctx as *instance.TaskInst :: otherWork(ti)
  ensures "no other expression is evaluated" onlyOwn((ctx as *instance.TaskInst).task.retryOnErrConfig)
  ensures [C04] "the task is not queued by its evaluation" (let ti := ctx as *instance.TaskInst :: #queued[ti] == old(#queued[ti]))
  modifies @RETRY
}

ghost #pn int
ghost #perr [int] error

func (*simple.TaskBehavior).Eval(tb, ctx) -> (res, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the working data is well formed" retryWF(ctx as *instance.TaskInst)
  ensures [C03] "a skipped task is not evaluated" old((ctx as *instance.TaskInst).status) == 50 ==> res == model.EvalSkip && err == nil && #evn == old(#evn)
  ensures [C11,C03] "any other task is evaluated" old((ctx as *instance.TaskInst).status) != 50 ==> #evn > old(#evn)
  ensures [C11] "the verdict follows the last evaluation" old((ctx as *instance.TaskInst).status) != 50 ==> (#everr[#evn] == nil ==> err == nil && res == (if #evdone[#evn] then model.EvalDone else model.EvalWait)) && (#everr[#evn] != nil ==> err != nil && res == model.EvalFail)
  ensures [C11] "only evaluations failing with a retriable error are retried" forall i int {#everr[i]} :: old(#evn) < i && i < #evn ==> retriable(#everr[i])
  ensures [C11] "never retried without configuration" let ti := ctx as *instance.TaskInst :: ti.task.retryOnErrConfig == nil ==> #evn <= old(#evn) + 1
  ensures [C11] "the configured number of retries is the bound" let ti := ctx as *instance.TaskInst :: #evn > old(#evn) + 1 && !old(hasRetry(ti)) ==> #evn - old(#evn) <= 1 + #rcount[ti.task.retryOnErrConfig]
  ensures [C11] "the last error is the one reported" old((ctx as *instance.TaskInst).status) != 50 ==> err == #everr[#evn] || #evn == old(#evn) + 1
  ensures "the working data stays well formed" retryWF(ctx as *instance.TaskInst)
  ensures [C04] "the task is not queued by its evaluation" (let ti := ctx as *instance.TaskInst :: #queued[ti] == old(#queued[ti]))
  sets #bev := #bev + 1
  sets #bti := ctx as *instance.TaskInst
  sets #bres := res
  sets #berr := err
  modifies @RETRY
}

func (*simple.TaskBehavior).PostEval(tb, ctx) -> (res, err) {
  requires "the context is a task instance" ctx is *instance.TaskInst
  requires "the working data is well formed" retryWF(ctx as *instance.TaskInst)
  ensures [C04] "the waiting activity is resumed once" #pn == old(#pn) + 1
  ensures [C11] "a resumed activity that succeeds is done" #perr[#pn] == nil ==> res == model.EvalDone && err == nil && #evn == old(#evn)
  ensures [C11] "an error is not retried without configuration" let ti := ctx as *instance.TaskInst :: #perr[#pn] != nil && (ti.task.retryOnErrConfig == nil || !(#perr[#pn] is *activity.Error)) ==> res == model.EvalFail && err == #perr[#pn] && #evn == old(#evn)
  ensures [C11] "the verdict follows the last retry" #evn > old(#evn) ==> (#everr[#evn] == nil ==> err == nil && res == (if #evdone[#evn] then model.EvalDone else model.EvalWait)) && (#everr[#evn] != nil ==> err == #everr[#evn] && res == model.EvalFail)
  ensures [C11] "an error without a retry is reported" #perr[#pn] != nil && #evn == old(#evn) ==> err != nil && res == model.EvalFail
  ensures [C11] "only evaluations failing with a retriable error are retried" forall i int {#everr[i]} :: old(#evn) < i && i < #evn ==> retriable(#everr[i])
  ensures [C11] "the configured number of retries is the bound" let ti := ctx as *instance.TaskInst :: #evn > old(#evn) ==> #evn - old(#evn) <= (if old(hasRetry(ti)) then old(retryData(ti).Count) else #rcount[ti.task.retryOnErrConfig])
  ensures "the working data stays well formed" retryWF(ctx as *instance.TaskInst)
  ensures [C04] "the task is not queued by its evaluation" (let ti := ctx as *instance.TaskInst :: #queued[ti] == old(#queued[ti]))
  sets #bpost := #bpost + 1
  sets #bti := ctx as *instance.TaskInst
  sets #bres := res
  sets #berr := err
  modifies @RETRY, #pn, #perr
}

// the values of the configuration
extern coerce.ToInt(v) -> (n, err) { pure }
define cfgInt(c, n, err) = if c == nil then n == 0 && err == nil else if c is expression.Expr then (if #xerr[c as expression.Expr] != nil then err == #xerr[c as expression.Expr] else n == coerce.ToInt(#xval[c as expression.Expr]).n && err == coerce.ToInt(#xval[c as expression.Expr]).err) else n == coerce.ToInt(c).n && err == coerce.ToInt(c).err

impl (*definition.retryOnErrConfig).Count of (definition.RetryOnError).Count {
  ensures [C11] "the configured count" cfgInt((r as *definition.retryOnErrConfig).count, n, err)
  may_panic
}
impl (*definition.retryOnErrConfig).Interval of (definition.RetryOnError).Interval {
  ensures [C11] "the configured interval" cfgInt((r as *definition.retryOnErrConfig).interval, n, err)
  may_panic
}
