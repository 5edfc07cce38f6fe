// C06: error details.

iface (error).Error(e) -> (s) { pure }
extern (*activity.Error).Data(e) -> (r) { pure }
extern (*activity.Error).Code(e) -> (r) { pure }
extern (*activity.Error).ActivityName(e) -> (r) { pure }

// the latest error object built, and what it describes
ghost #eobj map[string]any
ghost #eobjErr error
ghost #eobjTI *instance.TaskInst

define kindOf(e) = if e is *definition.LinkExprError then "link_expr" else if e is *activity.Error then "activity" else if e is *instance.ActivityEvalError then (e as *instance.ActivityEvalError).errType else "unknown"
define actOf(ti, e) = if e is *activity.Error && (e as *activity.Error).ActivityName() != "" then (e as *activity.Error).ActivityName() else if e is *instance.ActivityEvalError then (e as *instance.ActivityEvalError).taskName else ti.taskID
define describes(m, ti, e) = m != nil && "type" in m && m["type"] == box(kindOf(e)) && "activity" in m && m["activity"] == box(actOf(ti, e)) && "message" in m && m["message"] == box(e.Error()) && "code" in m && m["code"] == (if e is *activity.Error then box((e as *activity.Error).Code()) else box("")) && "data" in m && m["data"] == (if e is *activity.Error then (e as *activity.Error).Data() else nil)

func (*instance.TaskInst).getErrorObject(ti, err) -> (m) {
  ensures [C06] "the details of the error" fresh(m) && describes(m, ti, err)
  sets #eobj := m
  sets #eobjErr := err
  sets #eobjTI := ti
  modifies nothing
}

define errKey(ti) = "_E." + ti.task.id
define othersKept(ti, a, b) = forall k string {k in ti.flowInst.attrs} {ti.flowInst.attrs[k]} :: k != a && k != b ==> (k in ti.flowInst.attrs) == old(k in ti.flowInst.attrs) && ti.flowInst.attrs[k] == old(ti.flowInst.attrs[k])

func (*instance.TaskInst).appendErrorData(ti, err) {
  assumes "the flow has a data map" ti.flowInst.attrs != nil
  ensures [C06] "the error object of this task and error" #eobjErr == err && #eobjTI == ti && describes(#eobj, ti, err)
  ensures [C06] "is stored as the error of the flow of the task" "_E" in ti.flowInst.attrs && ti.flowInst.attrs["_E"] == box(#eobj)
  ensures [C06] "and as the error of the task" errKey(ti) in ti.flowInst.attrs && ti.flowInst.attrs[errKey(ti)] == box(#eobj)
  ensures [C06] "nothing else changes" othersKept(ti, "_E", errKey(ti))
  modifies ti.flowInst.attrs[*], @TRACK, #eobj, #eobjErr, #eobjTI
}
func (*instance.TaskInst).setTaskError(ti, err) {
  assumes "the flow has a data map" ti.flowInst.attrs != nil
  ensures [C06] "the error object of this task and error" #eobjErr == err && #eobjTI == ti && describes(#eobj, ti, err)
  ensures [C06] "is stored as the error of the task" errKey(ti) in ti.flowInst.attrs && ti.flowInst.attrs[errKey(ti)] == box(#eobj)
  ensures [C06] "nothing else changes" othersKept(ti, errKey(ti), errKey(ti))
  modifies ti.flowInst.attrs[*], @TRACK, #eobj, #eobjErr, #eobjTI
}
