// C21: statuses, recording modes and settings.



define eventOfFlow(s) = if s == 0 then "Created" else if s == 100 then "Started" else if s == 500 then "Completed" else if s == 600 then "Cancelled" else if s == 700 then "Failed" else "Unknown"
define eventOfTask(s) = if s == 0 then "Created" else if s == 10 then "Scheduled" else if s == 20 then "Started" else if s == 30 then "Waiting" else if s == 40 then "Completed" else if s == 50 then "Skipped" else if s == 100 then "Failed" else "Unknown"
func instance.convertFlowStatus(c) -> (s) {
  ensures [C21] "the event status of a flow" s == eventOfFlow(c)
  modifies nothing
}
func instance.convertTaskStatus(c) -> (s) {
  ensures [C21] "the event status of a task" s == eventOfTask(c)
  modifies nothing
}

extern coerce.ToString(v) -> (s, err) { pure }
extern strings.ToLower(s) -> (r) { pure }
extern strconv.Atoi(s) -> (n, err) { pure }
define isMode(m) = m == "off" || m == "debugger" || m == "step" || m == "full" || m == "snapshot"
define modeOf(v) = strings.ToLower(coerce.ToString(v).s)
func state.ToRecordingMode(v) -> (m, err) {
  ensures [C21] "exactly the documented modes, whatever their case" (err == nil) == isMode(modeOf(v))
  ensures [C21] "the mode given" err == nil ==> m == modeOf(v)
  ensures [C21] "or none" err != nil ==> m == "off"
  modifies nothing
}
func state.RecordSteps(m) -> (b) {
  ensures [C21] "steps are recorded exactly in the modes step, full and debugger" isMode(m) ==> b == (m == "step" || m == "full" || m == "debugger")
  modifies nothing
}
func state.RecordSnapshot(m) -> (b) {
  ensures [C21] "snapshots are recorded exactly in the modes snapshot and full" isMode(m) ==> b == (m == "snapshot" || m == "full")
  modifies nothing
}
func util.GetMaxStepCount() -> (n) {
  ensures [C21] "the step limit configured, or its default" n == (if os.LookupEnv("FLOGO_MAX_STEP_COUNT").ok && strconv.Atoi(os.LookupEnv("FLOGO_MAX_STEP_COUNT").v).err == nil then strconv.Atoi(os.LookupEnv("FLOGO_MAX_STEP_COUNT").v).n else 10000000)
  modifies nothing
}
define boolSetting(k, d) = if os.LookupEnv(k).ok && boolable(box(os.LookupEnv(k).v)) then tobool(box(os.LookupEnv(k).v)) else d
func support.GetPropagateSkip() -> (b) {
  ensures [C21] "as configured, or propagate" b == boolSetting("FLOGO_TASK_PROPAGATE_SKIP", true)
  pure
}
func support.GetPrioritizeExprTask() -> (b) {
  ensures [C21] "as configured, or not" b == boolSetting("FLOGO_TASK_PRIORITIZE_EXPR_LINK", false)
  pure
}
func instance.IsConcurrentTaskExcutionEnabled() -> (b) {
  ensures [C21] "as configured" b == (os.Getenv("FLOGO_FLOW_CONCURRENT_TASK_EXECUTION") == "true")
  modifies nothing
}

import flow "flow"
import ondemand "flow/ondemand"

iface (action.InitContext).RuntimeSettings(c) -> (m) { pure }
define configured(c) = "stateRecordingMode" in c.RuntimeSettings()
func (*flow.ActionFactory).Initialize(f, ctx) -> (err) {
  ensures [C21] "a mode that is none is refused" old(flow.flowManager) == nil && old(configured(ctx)) && !isMode(old(modeOf(ctx.RuntimeSettings()["stateRecordingMode"]))) ==> err != nil
  ensures [C21] "the configured mode is used" old(flow.flowManager) == nil && old(configured(ctx)) && err == nil ==> flow.stateRecordingMode == old(modeOf(ctx.RuntimeSettings()["stateRecordingMode"]))
  noframe
}
// the events posted
import coreevent "core/engine/event"
ghost loose C21 #pevn int
ghost loose C21 #pevV any
ghost loose C21 #pevT string
extern coreevent.HasListener(t) -> (b) { pure }
extern coreevent.Post(t, e) {
  sets [C21] #pevn := #pevn + 1
  sets [C21] #pevV := e
  sets [C21] #pevT := t
}
// what is handed to the recorder
ghost loose C21 #recSteps int
ghost loose C21 #recSnaps int
ghost loose C21 #recR any
iface (state.Recorder).RecordSnapshot(r, s) -> (e) {
  sets [C21] #recSnaps := #recSnaps + 1
  sets [C21] #recR := r
}
iface (state.Recorder).RecordStep(r, s) -> (e) {
  sets [C21] #recSteps := #recSteps + 1
  sets [C21] #recR := r
}
func (*instance.IndependentInstance).RecordState(inst, t) -> (e) {
  ensures [C21] "snapshots are recorded exactly if the mode says so" inst.instRecorder != nil && isMode(inst.instRecorder.mod) ==> #recSnaps == old(#recSnaps) + (if inst.instRecorder.mod == "snapshot" || inst.instRecorder.mod == "full" then 1 else 0)
  ensures [C21] "and steps" inst.instRecorder != nil && isMode(inst.instRecorder.mod) ==> #recSteps == old(#recSteps) + (if inst.instRecorder.mod == "step" || inst.instRecorder.mod == "full" || inst.instRecorder.mod == "debugger" then 1 else 0)
  ensures [C21] "nothing without recorder" inst.instRecorder == nil ==> #recSnaps == old(#recSnaps) && #recSteps == old(#recSteps)
  modifies @TRACK
}
