// C12: outputs of activities. (C18: interceptors around activities.)

import mapper "core/data/mapper"

closed activity.Context = *instance.TaskInst, *instance.LegacyCtx
define tiOf(c) = if c is *instance.TaskInst then c as *instance.TaskInst else (c as *instance.LegacyCtx).task

// runs and resumptions of activities: how many, and the outcome of the latest one
ghost #act1 int
ghost #actDone bool
ghost #actErr error
ghost #actPanic bool
// the data of the flow when that activity returned or panicked
ghost #actDom [string] bool
ghost #actVals [string] any

define keepsWork(ti) = ti.workingData == old(ti.workingData) && (ti.workingData != nil ==> (forall k string {k in ti.workingData.workingData} :: (k in ti.workingData.workingData) == old(k in ti.workingData.workingData) && ti.workingData.workingData[k] == old(ti.workingData.workingData[k]))) && itKey(ti) == old(itKey(ti)) && itVal(ti) == old(itVal(ti)) && itIdx(ti) == old(itIdx(ti))
// no map of a task is used in two places
define apart(ti) = ti.flowInst.attrs != nil && ti.outputs != ti.flowInst.attrs && ti.inputs != ti.flowInst.attrs && (ti.inputs != nil ==> ti.inputs != ti.outputs)
   && (ti.workingData != nil ==> ti.workingData.workingData != nil && ti.workingData.workingData != ti.flowInst.attrs && (ti.outputs != nil ==> ti.workingData.workingData != ti.outputs) && (ti.inputs != nil ==> ti.workingData.workingData != ti.inputs))
   && (itIsMap(ti) ==> itMap(ti) != nil && itMap(ti) != ti.flowInst.attrs && (ti.outputs != nil ==> itMap(ti) != ti.outputs) && (ti.inputs != nil ==> itMap(ti) != ti.inputs))

iface (activity.Activity).Eval(a, ctx) -> (done, err) {
  may_panic
  ensures "the bookkeeping of the task is not touched" keepsWork(tiOf(ctx)) && #queued[tiOf(ctx)] == old(#queued[tiOf(ctx)])
  panics "the bookkeeping of the task is not touched" keepsWork(tiOf(ctx)) && #queued[tiOf(ctx)] == old(#queued[tiOf(ctx)])
  ensures "its outputs are its own" apart(tiOf(ctx))
  sets #act1 := old(#act1) + 1
  sets #actDone := done
  sets #actErr := err
  sets #actPanic := false
  sets #actDom := dom(tiOf(ctx).flowInst.attrs)
  sets #actVals := vals(tiOf(ctx).flowInst.attrs)
  psets #act1 := old(#act1) + 1
  psets #actPanic := true
  psets #actDom := dom(tiOf(ctx).flowInst.attrs)
  psets #actVals := vals(tiOf(ctx).flowInst.attrs)
  modifies @ACT
}
iface (activity.AsyncActivity).PostEval(a, ctx, ud) -> (done, err) {
  may_panic
  ensures "the bookkeeping of the task is not touched" keepsWork(tiOf(ctx)) && #queued[tiOf(ctx)] == old(#queued[tiOf(ctx)])
  panics "the bookkeeping of the task is not touched" keepsWork(tiOf(ctx)) && #queued[tiOf(ctx)] == old(#queued[tiOf(ctx)])
  ensures "its outputs are its own" apart(tiOf(ctx))
  sets #act1 := old(#act1) + 1
  sets #actDone := done
  sets #actErr := err
  sets #actPanic := false
  sets #actDom := dom(tiOf(ctx).flowInst.attrs)
  sets #actVals := vals(tiOf(ctx).flowInst.attrs)
  psets #act1 := old(#act1) + 1
  psets #actPanic := true
  psets #actDom := dom(tiOf(ctx).flowInst.attrs)
  psets #actVals := vals(tiOf(ctx).flowInst.attrs)
  modifies @ACT
}
extern (*activity.Error).SetActivityName(e, n) { }
extern activity.NewError(msg, code, d) -> (e) { ensures e != nil && fresh(e) }

// ---- interceptors and patches (C18)
define ic(ti) = ti.flowInst.master.interceptor
define icKey(ti) = ti.flowInst.flowDef.name + "-" + ti.task.id
define icFor(ti, k) = ic(ti) != nil && k in ic(ti).taskInterceptorMap && ic(ti).taskInterceptorMap[k] != nil
define icGet(ti, k) = ic(ti).taskInterceptorMap[k]
define mocked(ti) = icFor(ti, icKey(ti)) && icGet(ti, icKey(ti)).SkipExecution
define skipSet(ti) = icFor(ti, ti.task.id) && icGet(ti, ti.task.id).Skip
define sameKeys(m, except) = forall k string {k in m} {m[k]} :: k != except ==> (k in m) == old(k in m) && m[k] == old(m[k])

func instance.hasOutputInterceptor(ti) -> (r) {
  ensures [C18,C12] "exactly if this task is set to be mocked" r == mocked(ti)
  modifies nothing
}
func instance.setActivityExecutionStatus(ti, status) {
  ensures [C18] "the status of this task is reported" icFor(ti, icKey(ti)) ==> icGet(ti, icKey(ti)).Result == status
  ensures [C18] "of no other" forall t *support.TaskInterceptor {t.Result} :: !(icFor(ti, icKey(ti)) && t == icGet(ti, icKey(ti))) ==> t.Result == old(t.Result)
  modifies all support.TaskInterceptor.Result
}
func instance.setActivityExecutionMessage(ti, msg) {
  ensures [C18] "the message of this task is reported" icFor(ti, icKey(ti)) ==> icGet(ti, icKey(ti)).Message == msg
  ensures [C18] "of no other" forall t *support.TaskInterceptor {t.Message} :: !(icFor(ti, icKey(ti)) && t == icGet(ti, icKey(ti))) ==> t.Message == old(t.Message)
  modifies all support.TaskInterceptor.Message
}
func instance.applyAssertionInterceptor(ti, kind) -> (err) {
  trusted
  may_panic
  modifies all []support.Assertion
}

iface (activity.Activity).Metadata(a) -> (m) { pure }
iface (data.TypedValue).Type(v) -> (t) { pure }
extern coerce.ToType(v, t) -> (r, err) { pure }
define mdIn(ti) = ti.task.activityCfg.Activity.Metadata().IOMetadata.Input
define mdOut(ti) = ti.task.activityCfg.Activity.Metadata().IOMetadata.Output
define typed(k, v, md) = if k in md then coerce.ToType(v, md[k].Type()).r else v

func instance.applyInputInterceptor(ti) -> (r) {
  assumes "maps are not shared" apart(ti) && (icFor(ti, ti.task.id) ==> icGet(ti, ti.task.id).Inputs != ti.flowInst.attrs && (ti.workingData != nil ==> icGet(ti, ti.task.id).Inputs != ti.workingData.workingData) && (icGet(ti, ti.task.id).Inputs != nil ==> icGet(ti, ti.task.id).Inputs != ti.inputs))
  ensures [C18,C12] "the activity is left out exactly if this task is set to be skipped" r == !skipSet(ti)
  ensures [C18] "the given inputs are overridden" icFor(ti, ti.task.id) ==> forall k string {k in ti.inputs} :: k in icGet(ti, ti.task.id).Inputs ==> k in ti.inputs
  ensures [C18] "with the given values, coerced to their declared type" icFor(ti, ti.task.id) ==> forall k string {ti.inputs[k]} :: k in icGet(ti, ti.task.id).Inputs ==> ti.inputs[k] == typed(k, icGet(ti, ti.task.id).Inputs[k], mdIn(ti))
  ensures [C18] "no other input changes" forall k string {k in ti.inputs} {ti.inputs[k]} :: !(icFor(ti, ti.task.id) && k in icGet(ti, ti.task.id).Inputs) ==> (k in ti.inputs) == old(k in ti.inputs) && ti.inputs[k] == old(ti.inputs[k])
  ensures "maps are not shared" apart(ti) && (ti.inputs == old(ti.inputs) || fresh(ti.inputs))
  modifies ti.inputs, ti.inputs[*]
  loopinv forall k string {k in ti.inputs} {ti.inputs[k]} :: k in $vis ==> k in ti.inputs && ti.inputs[k] == typed(k, icGet(ti, ti.task.id).Inputs[k], mdIn(ti))
  loopinv forall k string {k in icGet(ti, ti.task.id).Inputs} {icGet(ti, ti.task.id).Inputs[k]} :: (k in icGet(ti, ti.task.id).Inputs) == old(k in icGet(ti, ti.task.id).Inputs) && icGet(ti, ti.task.id).Inputs[k] == old(icGet(ti, ti.task.id).Inputs[k])
  loopinv forall k string {k in ti.inputs} {ti.inputs[k]} :: !(k in $vis) ==> (k in ti.inputs) == old(k in ti.inputs) && ti.inputs[k] == old(ti.inputs[k])
  loopinv ti.inputs == old(ti.inputs) || fresh(ti.inputs)
  loopinv apart(ti)
}

define icOut(ti) = icGet(ti, icKey(ti)).Outputs
define replaces(ti) = icFor(ti, icKey(ti)) && len(icOut(ti)) > 0 && icGet(ti, icKey(ti)).Type == support.MockActivity
define raises(ti) = icFor(ti, icKey(ti)) && len(icOut(ti)) > 0 && icGet(ti, icKey(ti)).Type == support.MockException

func instance.applyOutputInterceptor(ti) -> (err) {
  assumes "maps are not shared" apart(ti) && (icFor(ti, icKey(ti)) ==> icOut(ti) != ti.flowInst.attrs && (ti.workingData != nil ==> icOut(ti) != ti.workingData.workingData) && (icOut(ti) != nil ==> icOut(ti) != ti.outputs))
  ensures [C18] "the given outputs are set, coerced to their declared type" replaces(ti) && err == nil ==> forall k string {k in ti.outputs} {ti.outputs[k]} :: k in icOut(ti) ==> k in ti.outputs && ti.outputs[k] == typed(k, icOut(ti)[k], mdOut(ti))
  ensures [C18] "an error only if one is to be raised or a value has the wrong type" err != nil ==> raises(ti) || replaces(ti) && (exists k string {k in icOut(ti)} :: k in icOut(ti) && k in mdOut(ti) && coerce.ToType(icOut(ti)[k], mdOut(ti)[k].Type()).err != nil)
  ensures [C18] "the error to be raised" raises(ti) ==> err != nil && err is *activity.Error
  ensures [C18,C12] "no other output changes" forall k string {k in ti.outputs} {ti.outputs[k]} :: !(replaces(ti) && k in icOut(ti)) ==> (k in ti.outputs) == old(k in ti.outputs) && ti.outputs[k] == old(ti.outputs[k])
  ensures "maps are not shared" apart(ti) && (ti.outputs == old(ti.outputs) || fresh(ti.outputs))
  modifies ti.outputs, ti.outputs[*]
  may_panic
  loopinv forall k string {k in ti.outputs} {ti.outputs[k]} :: k in $vis ==> k in ti.outputs && ti.outputs[k] == typed(k, icOut(ti)[k], mdOut(ti))
  loopinv forall k string {k in icOut(ti)} {icOut(ti)[k]} :: (k in icOut(ti)) == old(k in icOut(ti)) && icOut(ti)[k] == old(icOut(ti)[k])
  loopinv forall k string {k in $vis} :: k in $vis ==> k in icOut(ti)
  loopinv forall k string {k in ti.outputs} {ti.outputs[k]} :: !(k in $vis) ==> (k in ti.outputs) == old(k in ti.outputs) && ti.outputs[k] == old(ti.outputs[k])
  loopinv ti.outputs == old(ti.outputs) || fresh(ti.outputs)
  loopinv apart(ti)
}

// ---- mappers
define patched(ti, m) = ti.flowInst.master.patch != nil && ti.task.id in ti.flowInst.master.patch.taskPatchMap && m != nil
define patchOf(ti) = ti.flowInst.master.patch.taskPatchMap[ti.task.id]
define imOf(ti) = if patched(ti, patchOf(ti).inputMapper) then patchOf(ti).inputMapper else ti.task.activityCfg.inputMapper
define omOf(ti) = if patched(ti, patchOf(ti).outputMapper) then patchOf(ti).outputMapper else ti.task.activityCfg.outputMapper
define sameData(ti) = forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: (k in ti.flowInst.attrs) == old(k in ti.flowInst.attrs) && ti.flowInst.attrs[k] == old(ti.flowInst.attrs[k])

func instance.applyInputMapper(ti) -> (err) {
  ensures [C18,C12] "the mapper of the patch is used if there is one, else that of the task" imOf(ti) != nil ==> #mapn == old(#mapn) + 1 && #mapM == imOf(ti)
  ensures [C12] "on the working data of the task and the data of the flow" imOf(ti) != nil ==> (if ti.workingData != nil then #mapScope is *instance.WorkingDataScope && (#mapScope as *instance.WorkingDataScope) == ti.workingData else #mapScope is *instance.Instance && (#mapScope as *instance.Instance) == ti.flowInst)
  ensures [C12] "and yields the inputs of the activity" imOf(ti) != nil && err == nil ==> forall k string {k in ti.inputs} {ti.inputs[k]} :: (k in ti.inputs) == #mapDom[k] && (#mapDom[k] ==> ti.inputs[k] == #mapVals[k])
  ensures [C12] "without a mapper the inputs stay" imOf(ti) == nil ==> err == nil && ti.inputs == old(ti.inputs)
  ensures "the inputs are a map of their own" ti.inputs == nil || fresh(ti.inputs) || ti.inputs == old(ti.inputs)
  may_panic
  modifies ti.inputs, @MAPPING
}
func instance.applyOutputMapper(ti) -> (r, err) {
  assumes "the flow has a data map" apart(ti)
  ensures [C18,C12] "the mapper of the patch is used if there is one, else that of the task" r == (omOf(ti) != nil) && (r ==> #mapn == old(#mapn) + 1 && #mapM == omOf(ti))
  ensures [C12] "on the outputs of the activity" r ==> #scopeMap[#mapScope] == ti.outputs
  ensures [C12] "what it yields is readable in the flow" r ==> forall k string {ti.flowInst.attrs[k]} {#mapVals[k]} :: #mapDom[k] ==> k in ti.flowInst.attrs && ti.flowInst.attrs[k] == #mapVals[k]
  ensures [C12] "and nothing else in the flow changes" forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: !(r && #mapDom[k]) ==> (k in ti.flowInst.attrs) == old(k in ti.flowInst.attrs) && ti.flowInst.attrs[k] == old(ti.flowInst.attrs[k])
  may_panic
  modifies ti.flowInst.attrs[*], @TRACK, @MAPPING
  loopinv forall k string {ti.flowInst.attrs[k]} {k in ti.flowInst.attrs} :: k in $vis ==> k in ti.flowInst.attrs && ti.flowInst.attrs[k] == #mapVals[k]
  loopinv <m map[string]any> forall k string {k in m} {m[k]} :: (k in m) == #mapDom[k] && (k in m ==> m[k] == #mapVals[k])
  loopinv forall k string {k in $vis} {#mapDom[k]} :: k in $vis ==> #mapDom[k]
  loopinv forall k string {ti.flowInst.attrs[k]} {k in ti.flowInst.attrs} :: !(k in $vis) ==> (k in ti.flowInst.attrs) == old(k in ti.flowInst.attrs) && ti.flowInst.attrs[k] == old(ti.flowInst.attrs[k])
}
define visName(task, k) = "_A." + task.id + "." + k
iface (data.Scope).GetValue(s, name) -> (v, ok) { pure }
func (*definition.defaultActivityOutputMapper).Apply(m, scope) -> (out, err) {
  ensures [C12] "no error" err == nil
  ensures [C12] "each declared output that was produced, under the name of the activity" m.metadata.IOMetadata != nil ==> forall k string {scope.GetValue(k).v} :: k in m.metadata.IOMetadata.Output && scope.GetValue(k).ok ==> (m.attrNS + k) in out && out[m.attrNS + k] == scope.GetValue(k).v
  ensures [C12] "and nothing else" forall n string {n in out} :: n in out ==> m.metadata.IOMetadata != nil && (exists k string {scope.GetValue(k).v} :: k in m.metadata.IOMetadata.Output && scope.GetValue(k).ok && n == m.attrNS + k)
  ensures "a new map" out != nil ==> fresh(out)
  modifies nothing
  loopinv <o map[string]any> forall k string {scope.GetValue(k).v} {k in m.metadata.IOMetadata.Output} :: k in $vis && scope.GetValue(k).ok ==> (m.attrNS + k) in o && o[m.attrNS + k] == scope.GetValue(k).v
  loopinv <o map[string]any> forall n string {n in o} :: n in o ==> (exists k string {scope.GetValue(k).v} :: k in m.metadata.IOMetadata.Output && scope.GetValue(k).ok && n == m.attrNS + k)
}
func definition.NewDefaultActivityOutputMapper(task) -> (m) {
  ensures [C12] "publishes under the name of the activity" m is *definition.defaultActivityOutputMapper && (m as *definition.defaultActivityOutputMapper) != nil && (m as *definition.defaultActivityOutputMapper).attrNS == "_A." + task.id + "." && (m as *definition.defaultActivityOutputMapper).metadata == task.activityCfg.Activity.Metadata()
  modifies nothing
}

// ---- accumulated outputs
define accKey(ti) = "_A." + ti.task.id
define copyOf(ti, m) = m != nil && forall k string {k in m} {m[k]} :: (k in m) == (k in ti.outputs) && (k in ti.outputs ==> m[k] == ti.outputs[k])
extern coerce.ToArray(v) -> (r, err) { pure
  ensures len(r) >= 0
  ensures v is []any ==> err == nil && r == (v as []any) }

func (*instance.TaskInst).copyOutputs(ti) -> (m) {
  ensures [C12] "a copy of the outputs" fresh(m) && copyOf(ti, m)
  modifies nothing
  loopinv <m map[string]any> forall k string {k in m} {m[k]} {k in $vis} :: (k in m) == (k in $vis) && (k in $vis ==> m[k] == ti.outputs[k])
}
func (*instance.TaskInst).handleAccumulation(ti) -> (err) {
  assumes "the flow has a data map" apart(ti)
  ensures [C12] "one copy of the outputs is appended" err == nil ==> accKey(ti) in ti.flowInst.attrs && ti.flowInst.attrs[accKey(ti)] is []any && (let s := ti.flowInst.attrs[accKey(ti)] as []any :: allocated(s) && len(s) >= 1 && len(s) == 1 + old(if accKey(ti) in ti.flowInst.attrs then len(coerce.ToArray(ti.flowInst.attrs[accKey(ti)]).r) else 0) && s[len(s) - 1] is map[string]any && fresh(s[len(s) - 1] as map[string]any) && copyOf(ti, s[len(s) - 1] as map[string]any))
  ensures [C12] "and what was there stays" err == nil && old(accKey(ti) in ti.flowInst.attrs) ==> (let s := ti.flowInst.attrs[accKey(ti)] as []any :: let p := old(coerce.ToArray(ti.flowInst.attrs[accKey(ti)]).r) :: forall i int {s[i]} :: 0 <= i && i < len(s) - 1 ==> s[i] == old(p[i]))
  ensures [C12] "fails only if something else is stored there" err != nil ==> old(accKey(ti) in ti.flowInst.attrs) && old(coerce.ToArray(ti.flowInst.attrs[accKey(ti)]).err) != nil && sameData(ti)
  ensures [C12] "nothing else in the flow changes" othersKept(ti, accKey(ti), accKey(ti))
  modifies ti.flowInst.attrs[*], all []any, @TRACK
}

// ---- one run of an activity
define acc(ti) = ti.task.loopCfg != nil && ti.task.loopCfg.accumulate
define publishes(ti) = (!acc(ti) || ti.task.loopCfg.accApplyOutput) && ti.task.activityCfg.outputMapper != nil
define accumulates(ti) = acc(ti) && !(publishes(ti) && #mapDom[accKey(ti)])
// the flow has the data it had when the activity returned, except for ...
define asLeft(ti, k) = (k in ti.flowInst.attrs) == #actDom[k] && (k in ti.flowInst.attrs ==> ti.flowInst.attrs[k] == #actVals[k])
define ran() = #act1 == old(#act1) + 1
define accumulated(ti) = accKey(ti) in ti.flowInst.attrs && ti.flowInst.attrs[accKey(ti)] is []any && (let s := ti.flowInst.attrs[accKey(ti)] as []any :: len(s) > 0 && s[len(s) - 1] is map[string]any)
define lastAcc(ti) = let s := ti.flowInst.attrs[accKey(ti)] as []any :: s[len(s) - 1] as map[string]any
define published(ti) = forall k string {ti.flowInst.attrs[k]} {#mapVals[k]} :: #mapDom[k] ==> k in ti.flowInst.attrs && ti.flowInst.attrs[k] == #mapVals[k]

func (*instance.TaskInst).EvalActivity(ti) -> (done, err) {
  rlimit 60
  assumes "maps are not shared" apart(ti)
  ensures [C12] "the activity is run at most once" #act1 == old(#act1) || ran()
  ensures [C12] "a waiting activity publishes nothing" err == nil && !done ==> ran() && !#actPanic && #actErr == nil && !#actDone && (forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: asLeft(ti, k))
  ensures [C12] "an activity that failed publishes only its error" ran() && !#actPanic && #actErr != nil ==> err == #actErr && (forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: k != errKey(ti) && (k != "_E" || ti.flowInst.isHandlingError) ==> asLeft(ti, k))
  ensures [C12] "a panic is an error and publishes nothing" ran() && #actPanic ==> err != nil && !done && (forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: asLeft(ti, k))
  ensures [C12] "an error before the activity runs publishes nothing" !ran() && err != nil && !skipSet(ti) && !mocked(ti) ==> sameData(ti)
  ensures [C12] "a completed activity did not fail" err == nil && done && ran() ==> !#actPanic && #actErr == nil && #actDone
  ensures [C12] "accumulated outputs are added as one entry" err == nil && done && accumulates(ti) ==> accumulated(ti)
  ensures [C12] "which is a copy of the outputs" err == nil && done && accumulates(ti) ==> copyOf(ti, lastAcc(ti))
  ensures [C12] "other outputs go through the output mapper" err == nil && done && publishes(ti) ==> #mapM == omOf(ti) && #scopeMap[#mapScope] == ti.outputs
  ensures [C12] "and are readable in the flow" err == nil && done && publishes(ti) ==> published(ti)
  ensures [C12] "and nothing else changes" err == nil && done && ran() ==> forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: !(publishes(ti) && #mapDom[k]) && !(acc(ti) && k == accKey(ti)) ==> asLeft(ti, k)
  ensures [C12] "nor when the activity is not run" err == nil && done && !ran() ==> forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: !(publishes(ti) && #mapDom[k]) && !(acc(ti) && k == accKey(ti)) ==> (k in ti.flowInst.attrs) == old(k in ti.flowInst.attrs) && (k in ti.flowInst.attrs ==> ti.flowInst.attrs[k] == old(ti.flowInst.attrs[k]))
  ensures [C12] "one entry is accumulated per run" err == nil && done && ran() && accumulates(ti) ==> (let s := ti.flowInst.attrs[accKey(ti)] as []any :: len(s) == 1 + (if #actDom[accKey(ti)] then len(coerce.ToArray(#actVals[accKey(ti)]).r) else 0))
  ensures [C18] "a task to be skipped or mocked does not run its activity" old(skipSet(ti) || mocked(ti)) ==> #act1 == old(#act1)
  ensures [C18] "any other task does" !old(skipSet(ti) || mocked(ti)) && err == nil ==> ran()
  ensures [C18] "reported as mocked" !old(skipSet(ti)) && old(mocked(ti)) && err == nil ==> icGet(ti, icKey(ti)).Result == support.Mocked
  ensures [C18] "reported as passed" ran() && err == nil && icFor(ti, icKey(ti)) ==> icGet(ti, icKey(ti)).Result == support.Pass
  ensures [C18] "reported as failed" ran() && (#actPanic || #actErr != nil) && icFor(ti, icKey(ti)) ==> icGet(ti, icKey(ti)).Result == support.Fail
  ensures [C12,C09,C10,C11,C04] "the bookkeeping of the task is not touched" keepsWork(ti)
  ensures [C12,C04] "an activity does not queue its own task" #queued[ti] == old(#queued[ti])
  sets #evn := #evn + 1
  sets #everr[#evn] := err
  sets #evdone[#evn] := done
  sets #evkey[#evn] := old(itKey(ti))
  sets #evval[#evn] := old(itVal(ti))
  sets #evidx[#evn] := old(itIdx(ti))
  sets #unh := old(#unh)
  sets #eobj := old(#eobj)
  sets #eobjErr := old(#eobjErr)
  sets #eobjTI := old(#eobjTI)
  modifies @EVALACT
}
ghost #pn int
ghost #perr [int] error

func (*instance.TaskInst).PostEvalActivity(ti) -> (done, err) {
  rlimit 60
  assumes "maps are not shared" apart(ti)
  ensures [C12] "the activity is resumed at most once" #act1 == old(#act1) || ran()
  ensures [C12] "an activity that failed publishes nothing" ran() && !#actPanic && #actErr != nil ==> err == #actErr && !done && (forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: asLeft(ti, k))
  ensures [C12] "a panic is an error and publishes nothing" ran() && #actPanic ==> err != nil && !done && (forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: asLeft(ti, k))
  ensures [C12,C08] "the error of a failed subflow is the error of the task and nothing is published" !ran() && old(ti.returnError) != nil ==> err == old(ti.returnError) && !done && sameData(ti)
  ensures [C12] "accumulated outputs are added as one entry" err == nil && done && accumulates(ti) ==> accumulated(ti)
  ensures [C12] "which is a copy of the outputs" err == nil && done && accumulates(ti) ==> copyOf(ti, lastAcc(ti))
  ensures [C12] "other outputs go through the output mapper" err == nil && done && publishes(ti) ==> #mapM == omOf(ti) && #scopeMap[#mapScope] == ti.outputs
  ensures [C12] "and are readable in the flow" err == nil && done && publishes(ti) ==> published(ti)
  ensures [C12] "and nothing else changes" err == nil && done && ran() ==> forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: !(publishes(ti) && #mapDom[k]) && !(acc(ti) && k == accKey(ti)) ==> asLeft(ti, k)
  ensures [C12] "nor when there is nothing to resume" err == nil && done && !ran() ==> forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: !(publishes(ti) && #mapDom[k]) && !(acc(ti) && k == accKey(ti)) ==> (k in ti.flowInst.attrs) == old(k in ti.flowInst.attrs) && (k in ti.flowInst.attrs ==> ti.flowInst.attrs[k] == old(ti.flowInst.attrs[k]))
  ensures [C12,C09,C10,C11,C04] "the bookkeeping of the task is not touched" keepsWork(ti)
  ensures [C12,C04] "an activity does not queue its own task" #queued[ti] == old(#queued[ti])
  ensures [C18] "reported as failed" (ran() && (#actPanic || #actErr != nil) || !ran() && old(ti.returnError) != nil) && icFor(ti, icKey(ti)) ==> icGet(ti, icKey(ti)).Result == support.Fail
  sets #pn := #pn + 1
  sets #perr[#pn] := err
  sets #unh := old(#unh)
  modifies @EVALACT
}

// ---- making interceptors and patches known (C18)
define lastIC(pi, i) = forall j int {pi.TaskInterceptors[j]} :: i < j && j < len(pi.TaskInterceptors) ==> pi.TaskInterceptors[j].ID != pi.TaskInterceptors[i].ID
define lastTP(pp, i) = forall j int {pp.TaskPatches[j]} :: i < j && j < len(pp.TaskPatches) ==> pp.TaskPatches[j].ID != pp.TaskPatches[i].ID
func (*support.Interceptor).Init(pi) {
  ensures [C18] "usable without a coverage section" pi.Coverage != nil && (old(pi.Coverage) != nil ==> pi.Coverage == old(pi.Coverage))
  ensures [C18] "every task named is known by its id" forall i int {pi.TaskInterceptors[i]} :: 0 <= i && i < len(pi.TaskInterceptors) && lastIC(pi, i) ==> pi.TaskInterceptors[i].ID in pi.taskInterceptorMap && pi.taskInterceptorMap[pi.TaskInterceptors[i].ID] == pi.TaskInterceptors[i]
  ensures [C18] "and no other" len(pi.TaskInterceptors) > 0 ==> forall k string {k in pi.taskInterceptorMap} :: k in pi.taskInterceptorMap ==> (exists i int {pi.TaskInterceptors[i]} :: 0 <= i && i < len(pi.TaskInterceptors) && pi.TaskInterceptors[i].ID == k)
  modifies pi.Coverage, pi.taskInterceptorMap
  loopinv forall i int {pi.TaskInterceptors[i]} :: 0 <= i && i < $i && (forall j int {pi.TaskInterceptors[j]} :: i < j && j < $i ==> pi.TaskInterceptors[j].ID != pi.TaskInterceptors[i].ID) ==> pi.TaskInterceptors[i].ID in pi.taskInterceptorMap && pi.taskInterceptorMap[pi.TaskInterceptors[i].ID] == pi.TaskInterceptors[i]
  loopinv forall k string {k in pi.taskInterceptorMap} :: k in pi.taskInterceptorMap ==> (exists i int {pi.TaskInterceptors[i]} :: 0 <= i && i < $i && pi.TaskInterceptors[i].ID == k)
}
func (*support.Interceptor).GetTaskInterceptor(pi, id) -> (r) {
  inline
  ensures [C18] "the one of that id" r == (if id in pi.taskInterceptorMap then pi.taskInterceptorMap[id] else nil)
  modifies nothing
}
func (*support.Patch).Init(pp) {
  ensures [C18] "every task named is known by its id" forall i int {pp.TaskPatches[i]} :: 0 <= i && i < len(pp.TaskPatches) && lastTP(pp, i) ==> pp.TaskPatches[i].ID in pp.taskPatchMap && pp.taskPatchMap[pp.TaskPatches[i].ID] == pp.TaskPatches[i]
  ensures [C18] "and no other" len(pp.TaskPatches) > 0 ==> forall k string {k in pp.taskPatchMap} :: k in pp.taskPatchMap ==> (exists i int {pp.TaskPatches[i]} :: 0 <= i && i < len(pp.TaskPatches) && pp.TaskPatches[i].ID == k)
  modifies pp.taskPatchMap, all support.TaskPatch.inputMapper, all support.TaskPatch.outputMapper, all definition.mapperFactory
  loopinv forall i int {pp.TaskPatches[i]} :: 0 <= i && i < $i && (forall j int {pp.TaskPatches[j]} :: i < j && j < $i ==> pp.TaskPatches[j].ID != pp.TaskPatches[i].ID) ==> pp.TaskPatches[i].ID in pp.taskPatchMap && pp.taskPatchMap[pp.TaskPatches[i].ID] == pp.TaskPatches[i]
  loopinv forall k string {k in pp.taskPatchMap} :: k in pp.taskPatchMap ==> (exists i int {pp.TaskPatches[i]} :: 0 <= i && i < $i && pp.TaskPatches[i].ID == k)
}
iface (mapper.Factory).NewMapper(f, m) -> (r, err) { pure }
func (*support.TaskPatch).initMappers(tp) {
  ensures [C18] "given mappings make the mapper, if they are well formed" old(tp.inputMapper) == nil && len(tp.Input) > 0 ==> (exists f mapper.Factory {f.NewMapper(tp.Input).r} :: tp.inputMapper == (if f.NewMapper(tp.Input).err == nil then f.NewMapper(tp.Input).r else nil))
  ensures [C18] "also for outputs" old(tp.outputMapper) == nil && len(tp.Output) > 0 ==> (exists f mapper.Factory {f.NewMapper(tp.Output).r} :: tp.outputMapper == (if f.NewMapper(tp.Output).err == nil then f.NewMapper(tp.Output).r else nil))
  ensures [C18] "no mappings, no mapper" (len(tp.Input) == 0 ==> tp.inputMapper == old(tp.inputMapper)) && (len(tp.Output) == 0 ==> tp.outputMapper == old(tp.outputMapper))
  modifies tp.inputMapper, tp.outputMapper, all definition.mapperFactory
}
func (*support.Patch).GetInputMapper(pp, id) -> (r) {
  inline
  ensures [C18] "that of the patch of that task" r == (if id in pp.taskPatchMap then pp.taskPatchMap[id].inputMapper else nil)
  modifies nothing
}
func (*support.Patch).GetOutputMapper(pp, id) -> (r) {
  inline
  ensures [C18] "that of the patch of that task" r == (if id in pp.taskPatchMap then pp.taskPatchMap[id].outputMapper else nil)
  modifies nothing
}
func instance.ApplyExecOptions(inst, o) {
  ensures [C18] "the patch and the interceptor given are those of the instance" (o != nil && o.Patch != nil ==> inst.patch == o.Patch) && (o != nil && o.Interceptor != nil ==> inst.interceptor == o.Interceptor && inst.interceptor.Coverage != nil)
  ensures [C18] "none given, none changed" (o == nil || o.Patch == nil ==> inst.patch == old(inst.patch)) && (o == nil || o.Interceptor == nil ==> inst.interceptor == old(inst.interceptor))
  modifies inst.patch, inst.interceptor, all support.Interceptor.Coverage, all support.Interceptor.taskInterceptorMap, all support.Patch.taskPatchMap, all support.TaskPatch.inputMapper, all support.TaskPatch.outputMapper, all definition.mapperFactory
}
