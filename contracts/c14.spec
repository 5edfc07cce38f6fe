// C14: inputs and results.

define hasOut(inst) = inst.flowDef.metadata != nil && inst.flowDef.metadata.Output != nil
define fixedOut(inst, k) = inst.flowDef.metadata.Output[k].Value() != nil
func (*instance.Instance).GetReturnData(inst) -> (r, err) {
  ensures [C14,C08] "what was returned explicitly" inst.returnData != nil ==> r == inst.returnData
  ensures [C14,C08] "or nothing if no outputs are declared" inst.returnData == nil && !hasOut(inst) ==> r == nil
  ensures [C14,C08] "or the declared outputs" inst.returnData == nil && hasOut(inst) ==> fresh(r) && forall k string {k in r} {k in inst.flowDef.metadata.Output} :: (k in r) == (k in inst.flowDef.metadata.Output && (k in inst.attrs || fixedOut(inst, k)))
  ensures [C14,C08] "with their present values" inst.returnData == nil && hasOut(inst) ==> forall k string {r[k]} :: k in r ==> r[k] == (if fixedOut(inst, k) then inst.flowDef.metadata.Output[k].Value() else inst.attrs[k])
  ensures [C14,C08] "and the error" err == inst.returnError
  modifies nothing
  sets [C20] #grdV := box(r)
  sets [C20] #grdE := err
  sets [C20] #grdI := inst
  loopinv <m map[string]any> forall k string {k in m} {m[k]} :: (k in m) == (k in $vis && (k in inst.attrs || fixedOut(inst, k))) && (k in m ==> m[k] == (if fixedOut(inst, k) then inst.flowDef.metadata.Output[k].Value() else inst.attrs[k]))
}
func (*instance.Instance).Return(inst, d, e) {
  ensures [C14] "the data and error are those of the flow, which is to complete" inst.returnData == d && inst.returnError == e && inst.forceCompletion
  modifies inst.returnData, inst.returnError, inst.forceCompletion
}
func (*instance.Instance).Reply(inst, d, e) {
  ensures [C14] "only the data returned may change" inst.returnData == old(inst.returnData) || inst.returnData == d
  modifies inst.returnData, @HANDLER
}
